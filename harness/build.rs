fn main() {
    // The stand-ins for libc functions must be found by dlsym as well.
    for sym in ["syscall", "getrandom", "clock_gettime", "open64", "write", "writev", "getenv"] {
        println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic-symbol={sym}");
    }
    println!("cargo:rustc-env=MC_OPT={}", std::env::var("OPT_LEVEL").unwrap());
    println!("cargo:rerun-if-changed=build.rs");
}
