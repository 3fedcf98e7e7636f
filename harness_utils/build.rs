//! Points every module of the repository's `utils` at its source file (all but
//! `interpreter_loader`, which needs the frontend and is compiled by the main harness).
use std::path::Path;
fn main() {
    let dir = "/repo/expander_compiler/src/utils";
    println!("cargo:rerun-if-changed={dir}");
    let src = std::fs::read_to_string(format!("{dir}/mod.rs")).unwrap();
    let mut out = String::new();
    for line in src.lines() {
        let t = line.trim();
        let words: Vec<&str> = t.trim_end_matches(';').split_whitespace().collect();
        if t.ends_with(';') && words.len() >= 2 && words[words.len() - 2] == "mod" {
            let name = words[words.len() - 1];
            if name == "interpreter_loader" {
                continue;
            }
            let mut p = format!("{dir}/{name}.rs");
            if !Path::new(&p).exists() {
                p = format!("{dir}/{name}/mod.rs");
            }
            out.push_str(&format!("#[path = \"{p}\"]\npub mod {name};\n"));
        } else {
            out.push_str(line);
            out.push('\n');
        }
    }
    std::fs::write(format!("{}/utils.rs", std::env::var("OUT_DIR").unwrap()), out).unwrap();
}
