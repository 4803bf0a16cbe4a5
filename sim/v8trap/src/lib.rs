include!(concat!(env!("OUT_DIR"), "/trap.rs"));
pub static HOOK: std::sync::OnceLock<fn(&str)> = std::sync::OnceLock::new();
/// Referenced by the program so that this object is linked.
pub fn anchor() {}
#[unsafe(no_mangle)]
extern "C" fn v8_trap_hit(name: *const std::ffi::c_char) -> ! {
    let n = unsafe { std::ffi::CStr::from_ptr(name) }.to_string_lossy().into_owned();
    if let Some(h) = HOOK.get() {
        h(&n);
    }
    eprintln!("harness: V8 function {n} is not provided by the stub");
    std::process::abort()
}
