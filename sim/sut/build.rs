//! The crate under test: /repo's own sources, unmodified, read at build time.
//! /repo/src/lib.rs is copied with every `mod x;` pointed at /repo/src and with
//! `std` bound to the simulated std.
use std::path::Path;
fn main() {
    let root = Path::new("/repo/src");
    println!("cargo:rustc-env=RUNTIME_SNAPSHOT_PATH=/nonexistent/runtime-snapshot.bin");
    println!("cargo:rerun-if-changed=/repo/src");
    let lib = std::fs::read_to_string(root.join("lib.rs")).expect("read /repo/src/lib.rs");
    let mut out = String::new();
    let mut pending_doc = String::new();
    for line in lib.lines() {
        let t = line.trim();
        if t.starts_with("//!") || t.starts_with("#![") {
            continue;
        }
        let m = t.strip_prefix("pub mod ").or_else(|| t.strip_prefix("pub(crate) mod ")).or_else(|| t.strip_prefix("mod "));
        if let Some(name) = m.and_then(|m| m.strip_suffix(';')) {
            let name = name.trim();
            let file = root.join(format!("{name}.rs"));
            let file = if file.exists() { file } else { root.join(name).join("mod.rs") };
            if name == "icudata" {
                // embeds a data file that is not part of the repository
                out.push_str("pub mod icudata { pub static ICU_DATA: &[u8] = &[]; pub fn init_icu() {} }\n");
            } else if name == "platform" && std::env::var_os("CARGO_FEATURE_MULTIPLEXING").is_none() {
                // V8 is started once per process; both builds share it
                out.push_str("pub use sut::platform;\n");
            } else {
                out.push_str(&format!("#[path = {:?}]\n{pending_doc}pub mod {name};\n", file));
            }
            pending_doc.clear();
            continue;
        }
        out.push_str(line);
        out.push('\n');
    }
    let dest = Path::new(&std::env::var("OUT_DIR").unwrap()).join("lib.rs");
    std::fs::write(dest, out).unwrap();
}
