//! `rsa_circuit/src/main.rs` is the root of a program: its leading inner attributes and its `mod`
//! lines do not survive an `include!`, so the former are dropped and the latter given a path.
use std::{env, fs, path::Path};
fn main() {
    let dir = "/repo/rsa_circuit/src";
    println!("cargo:rerun-if-changed={dir}");
    let mut out = String::new();
    for l in fs::read_to_string(format!("{dir}/main.rs")).expect("main.rs").lines() {
        let t = l.trim();
        if t.starts_with("#![") {
            continue;
        }
        if let Some(m) = t.strip_prefix("pub ").unwrap_or(t).strip_prefix("mod ").and_then(|m| m.strip_suffix(';')) {
            out += &format!("#[path = \"{dir}/{m}.rs\"]\npub mod {m};\n");
            continue;
        }
        out += l;
        out.push('\n');
    }
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("main.rs"), out).unwrap();
}
