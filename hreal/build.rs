use std::fmt::Write;
fn main() {
    let dir = std::path::Path::new("../hsrc");
    println!("cargo:rerun-if-changed=../hsrc");
    let mut names = std::collections::BTreeMap::new();
    for e in std::fs::read_dir(dir).unwrap() {
        let p = e.unwrap().path();
        println!("cargo:rerun-if-changed={}", p.display());
        if p.extension().map(|x| x != "rs").unwrap_or(true) { continue; }
        let stem = p.file_stem().unwrap().to_str().unwrap().to_string();
        // harness names look like h_c01_name / h_p07_name wherever they are spelled
        let t = std::fs::read_to_string(&p).unwrap();
        for w in t.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_')) {
            let b = w.as_bytes();
            if w.starts_with("h_") && b.len() > 6 && (b[2] == b'c' || b[2] == b'p') && b[3].is_ascii_digit() && b[4].is_ascii_digit() && b[5] == b'_' {
                names.insert(w.to_string(), format!("hsrc::{stem}"));
            }
        }
    }
    let mut s = String::from("pub const TABLE: &[(&str, extern \"C-unwind\" fn())] = &[\n");
    for (n, m) in names { writeln!(s, "(\"{n}\", {m}::{n}),").unwrap(); }
    s.push_str("];\n");
    std::fs::write(std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("table.rs"), s).unwrap();
}
