fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-link-lib=dylib=python3.12");
    println!("cargo:rustc-link-arg=-rdynamic");
}
