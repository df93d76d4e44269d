//! Modelled `std::process`: a process exit ends the server, not the explorer.
pub use ::std::process::*;
use crate::rt;
use ::std::cell::Cell;

::std::thread_local! {
    static EXITED: Cell<Option<i32>> = const { Cell::new(None) };
}
/// Exit code if the code under test called `exit`.
pub fn exited() -> Option<i32> {
    EXITED.with(|e| e.get())
}
/// Forget an exit.
pub fn reset_exit() {
    EXITED.with(|e| e.set(None))
}
/// The process ends: nothing of the server runs any more.
pub fn exit(code: i32) -> ! {
    EXITED.with(|e| e.set(Some(code)));
    crate::net::process_exit();
    if rt::active() {
        rt::end_process(true);
        rt::effect();
        rt::wait_forever("process exited");
    }
    ::std::panic::panic_any(rt::WouldHang("process::exit".to_string()))
}
/// See `exit`.
pub fn abort() -> ! {
    exit(134)
}
