//! With the `sched` feature, compile the scheduler below instrumented code.
use std::process::Command;

fn main() {
    println!("cargo:rerun-if-changed=runtime.c");
    if std::env::var_os("CARGO_FEATURE_SCHED").is_some() {
        let o = format!("{}/runtime.o", std::env::var("OUT_DIR").unwrap());
        let ok = Command::new("gcc").args(["-O2", "-fPIC", "-c", "runtime.c", "-o", &o]).status();
        assert!(ok.map_or(false, |s| s.success()), "gcc failed on runtime.c");
        println!("cargo:rustc-link-arg={}", o);
    }
}
