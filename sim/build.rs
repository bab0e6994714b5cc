//! Makes the library's build script callable from inside the simulation.
use std::{env, fs, path::Path};
fn main() {
    println!("cargo:rerun-if-changed=/repo/build.rs");
    println!("cargo:rerun-if-changed=build.rs");
    let s = fs::read_to_string("/repo/build.rs").unwrap_or_default();
    let mut o = String::new();
    for l in s.lines() {
        let t = l.trim_start();
        if t.starts_with("//!") || t.starts_with("#![") {
            continue;
        }
        if t.starts_with("fn main(") {
            o.push_str("pub ");
        }
        o.push_str(l);
        o.push('\n');
    }
    let out = env::var_os("OUT_DIR").unwrap();
    fs::write(Path::new(&out).join("repo_build.rs"), o).unwrap();
}
