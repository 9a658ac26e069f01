//! Turns panics of the code under test into values.
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: RefCell<u32> = const { RefCell::new(0) };
}
pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let quiet = QUIET.with(|q| *q.borrow() > 0);
        if quiet {
            let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_else(|| "?".into());
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
        } else {
            old(i)
        }
    }));
}
/// Runs f; a panic becomes its message. A panic of the harness itself is not swallowed.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| *q.borrow_mut() += 1);
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() -= 1);
    r.map_err(|_| {
        let m = LAST_PANIC.with(|p| p.borrow().clone());
        if m.starts_with("harness:") {
            eprintln!("HARNESS ERROR: {m}");
            std::process::exit(2);
        }
        m
    })
}
