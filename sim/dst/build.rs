//! The simulator's definitions must also be found by `dlsym`, which is how std and rand look up
//! some libc functions.
fn main() {
    for s in ["getrandom", "getentropy", "syscall", "clock_gettime", "gettimeofday", "time", "open", "open64", "read", "poll", "close"] {
        println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic-symbol={s}");
    }
    println!("cargo:rerun-if-changed=build.rs");
}
