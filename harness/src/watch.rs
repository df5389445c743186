//! Watchdog: remembers the case each worker is on, so that a hang or abort can be attributed.
use std::cell::{Cell, RefCell};
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::sync::Mutex;
use std::time::Instant;
pub struct Slot {
    pub text: String,
    pub since: Instant,
    pub active: bool,
}
static SLOTS: Mutex<Vec<Slot>> = Mutex::new(Vec::new());
thread_local! { static CUR: RefCell<Option<File>> = const { RefCell::new(None) }; }
thread_local! { static ID: Cell<usize> = const { Cell::new(usize::MAX) }; static N: Cell<u64> = const { Cell::new(0) }; }
pub fn register() {
    let mut s = SLOTS.lock().unwrap();
    ID.with(|i| i.set(s.len()));
    s.push(Slot { text: String::new(), since: Instant::now(), active: true });
}
/// the case being run is also kept in a file, for when the process dies
pub fn keep(path: &str) {
    CUR.with(|c| *c.borrow_mut() = File::create(path).ok());
}
pub fn set(f: impl FnOnce() -> String) {
    let id = ID.with(|i| i.get());
    if id == usize::MAX {
        return;
    }
    let t = f();
    CUR.with(|c| {
        if let Some(c) = &*c.borrow() {
            let mut b = t.clone().into_bytes();
            b.push(0);
            let _ = c.write_all_at(&b, 0);
        }
    });
    let mut s = SLOTS.lock().unwrap();
    s[id].text = t;
    s[id].since = Instant::now();
}
pub fn done() {
    let id = ID.with(|i| i.get());
    if id != usize::MAX {
        SLOTS.lock().unwrap()[id].active = false;
    }
}
/// a case that has been running for longer than `secs`
pub fn stuck(secs: u64) -> Option<String> {
    let s = SLOTS.lock().unwrap();
    s.iter().find(|x| x.active && x.since.elapsed().as_secs() > secs).map(|x| x.text.clone())
}
/// the case this worker is on
pub fn current() -> String {
    let id = ID.with(|i| i.get());
    if id == usize::MAX {
        return String::new();
    }
    SLOTS.lock().unwrap()[id].text.clone()
}
