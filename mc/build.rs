//! Gives the writable statics of the library pages of their own, so that the controlled scheduler
//! (src/sched.rs) can watch them without trapping on everybody else's.
fn main() {
    let dir = std::env::var("CARGO_MANIFEST_DIR").unwrap();
    println!("cargo:rustc-link-arg-bins=-Wl,-T,{dir}/statics.ld");
    println!("cargo:rerun-if-changed=statics.ld");
    println!("cargo:rerun-if-changed=build.rs");
}
