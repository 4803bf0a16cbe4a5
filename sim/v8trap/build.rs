//! A weak definition for every C symbol the V8 bindings import, so that a
//! program that only fakes some of them links; calling one of the others stops
//! the run with its name.
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
fn walk(d: &Path, out: &mut Vec<PathBuf>) {
    for e in std::fs::read_dir(d).unwrap().flatten() {
        let p = e.path();
        if p.is_dir() { walk(&p, out) } else if p.extension().is_some_and(|x| x == "rs") { out.push(p) }
    }
}
fn main() {
    let home = std::env::var("CARGO_HOME").unwrap_or_else(|_| format!("{}/.cargo", std::env::var("HOME").unwrap_or("/root".into())));
    let mut dir = None;
    for e in std::fs::read_dir(format!("{home}/registry/src")).unwrap().flatten() {
        let p = e.path().join("openworkers-v8-146.8.0/src");
        if p.exists() { dir = Some(p) }
    }
    let dir = dir.expect("openworkers-v8 source in the cargo cache");
    let mut files = Vec::new();
    walk(&dir, &mut files);
    let mut syms = BTreeSet::new();
    for f in files {
        let s = std::fs::read_to_string(&f).unwrap();
        let mut depth_extern = false;
        for line in s.lines() {
            let t = line.trim_start();
            if t.contains("extern \"C\" {") { depth_extern = true; }
            if line.starts_with('}') { depth_extern = false; }
            if depth_extern || t.contains("fn v8__") {
                if let Some(i) = t.find("fn ") {
                    let name: String = t[i + 3..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                    if name.contains("__") || name.starts_with("udata") || name.starts_with("icu_") || name.starts_with("uloc") {
                        if !t.contains("extern \"C\" fn") { syms.insert(name); }
                    }
                }
            }
        }
    }
    let mut asm = String::from("core::arch::global_asm!(r#\"\n.text\n");
    for (i, s) in syms.iter().enumerate() {
        asm.push_str(&format!(".weak {s}\n.type {s},@function\n{s}:\n lea rdi, [rip + .Lv8n{i}]\n jmp v8_trap_hit\n"));
    }
    asm.push_str(".section .rodata\n");
    for (i, s) in syms.iter().enumerate() {
        asm.push_str(&format!(".Lv8n{i}: .asciz \"{s}\"\n"));
    }
    asm.push_str(".text\n\"#);\n");
    let out = Path::new(&std::env::var("OUT_DIR").unwrap()).join("trap.rs");
    std::fs::write(out, asm).unwrap();
    println!("cargo:rerun-if-changed=build.rs");
}
