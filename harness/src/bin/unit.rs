fn main() {
    if let Some(code) = harness::regchecks::argdump_main() {
        std::process::exit(code);
    }
    // temporary files go to the scratch directory, and the stand-ins are found first
    let mut path = harness::regchecks::stand_ins().clone().into_os_string();
    path.push(":");
    path.push(std::env::var_os("PATH").unwrap_or_default());
    // SAFETY: there are no other threads yet
    unsafe {
        std::env::set_var("TMPDIR", harness::sim::scratch());
        std::env::set_var("PATH", path);
    }
    let checks: Vec<_> = [harness::storechecks::ALL, harness::regchecks::ALL].concat();
    harness::runner::main_with(&checks)
}
