//! The whole runtime on the real V8. This library is preloaded into the
//! installed node, whose `main` it replaces: node only serves as the V8 library.
use std::ffi::{c_char, c_int, c_void};
mod props;
mod scen;
#[macro_use]
extern crate owsim;

type Main = extern "C" fn(c_int, *mut *mut c_char, *mut *mut c_char) -> c_int;
type StartMain = unsafe extern "C" fn(Main, c_int, *mut *mut c_char, *mut c_void, *mut c_void, *mut c_void, *mut c_void) -> c_int;

#[unsafe(no_mangle)]
unsafe extern "C" fn __libc_start_main(main: Main, argc: c_int, argv: *mut *mut c_char, init: *mut c_void, fini: *mut c_void, rtld_fini: *mut c_void, end: *mut c_void) -> c_int {
    unsafe {
        let real: StartMain = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"__libc_start_main".as_ptr()));
        let chosen = if std::env::var_os("OWFULL").is_some() { ow_main as Main } else { main };
        real(chosen, argc, argv, init, fini, rtld_fini, end)
    }
}
extern "C" fn ow_main(argc: c_int, argv: *mut *mut c_char, _env: *mut *mut c_char) -> c_int {
    unsafe { std::env::remove_var("LD_PRELOAD") };
    let args: Vec<String> = (0..argc as usize).map(|i| unsafe { std::ffi::CStr::from_ptr(*argv.add(i)) }.to_string_lossy().into_owned()).collect();
    realv8::anchor();
    sut::platform::get_platform();
    let code = owsim::entry(props::all(), args);
    unsafe { libc::_exit(code) }
}
