fn main() {
    println!("cargo:rerun-if-changed=link.ld");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-link-arg-bins=-Wl,-T,{}/link.ld", std::env::var("CARGO_MANIFEST_DIR").unwrap());
}
