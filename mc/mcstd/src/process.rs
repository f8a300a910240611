//! Façade of `std::process`: exit ends the execution.
pub use ::std::process::*;
use crate::rt;
use ::std::sync::Mutex;
static HOOK: Mutex<Option<Box<dyn FnOnce(i32) + Send>>> = Mutex::new(None);
/// What the harness does when the program under test exits (and with it all its threads).
pub fn on_exit(f: Option<Box<dyn FnOnce(i32) + Send>>) { *HOOK.lock().unwrap() = f; }
pub fn exit(code: i32) -> ! {
    if rt::active() {
        rt::lock().exit_code = Some(code);
        let f = HOOK.lock().unwrap().take();
        if let Some(f) = f { f(code); }
        rt::end();
    }
    ::std::process::exit(code)
}
pub fn abort() -> ! { if rt::active() { rt::fail("the process is aborted".into()) } ::std::process::abort() }
