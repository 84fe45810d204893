fn main() {
    if let Some(code) = harness::procs::stage_main() {
        std::process::exit(code);
    }
    // SAFETY: there are no other threads yet
    unsafe { std::env::set_var("TMPDIR", harness::procs::tmpdir()) };
    let checks: Vec<_> = [harness::netchecks::ALL, harness::web::ALL, harness::procs::ALL, harness::death::ALL].concat();
    harness::runner::main_with(&checks)
}
