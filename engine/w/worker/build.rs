//! The source of the worker program, made a module: inner attributes and doc comments may not be
//! at the top of an included file.
fn main() {
    let p = "/repo/src/bin/execgraph-remote.rs";
    println!("cargo:rerun-if-changed={p}");
    println!("cargo:rerun-if-changed=build.rs");
    let s = std::fs::read_to_string(p).unwrap();
    let s: String = s
        .lines()
        .map(|l| {
            let t = l.trim_start();
            if t.starts_with("#![") || t.starts_with("//!") {
                "\n".to_string()
            } else {
                format!("{l}\n")
            }
        })
        .collect();
    std::fs::write(format!("{}/remote.rs", std::env::var("OUT_DIR").unwrap()), s).unwrap();
}
