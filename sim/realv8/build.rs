//! Compiles the C side of the V8 bindings against the V8 inside the installed
//! node (which exports it).
use std::path::Path;
use std::process::Command;
fn main() {
    println!("cargo:rerun-if-changed=shim.cc");
    println!("cargo:rerun-if-changed=support.h");
    println!("cargo:rerun-if-changed=build.rs");
    let out = std::env::var("OUT_DIR").unwrap();
    let obj = Path::new(&out).join("shim.o");
    let lib = Path::new(&out).join("librealv8shim.a");
    let st = Command::new("g++")
        .args(["-std=c++20", "-O1", "-g1", "-fPIC", "-w", "-fno-strict-aliasing", "-fno-exceptions", "-fno-rtti", "-I/usr/include/node", "-I.", "-c", "shim.cc", "-o"])
        .arg(&obj)
        .status()
        .expect("g++");
    assert!(st.success(), "shim.cc does not compile");
    let _ = std::fs::remove_file(&lib);
    assert!(Command::new("ar").arg("crs").arg(&lib).arg(&obj).status().expect("ar").success());
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static:+whole-archive=realv8shim");
}
