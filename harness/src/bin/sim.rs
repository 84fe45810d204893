fn main() {
    harness::runner::main_with(harness::simchecks::ALL)
}
