//! What ends the process or keeps it from going on. Code under test may abort
//! (a panic within a panic, an endless recursion, an absurd allocation) or never
//! return; the case at hand is handed to the parent process then, which tries
//! it again before it calls that a violation.

use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

use libc::c_int;
use serde_json::json;

use crate::shim::{self, Clock};

/// What the threads of a shard have in common.
#[derive(Default)]
pub struct Shared {
    /// Wall clock.
    pub clock: Clock,
    /// Does anybody listen to what the library tells of its work?
    pub traced: AtomicBool,
    case: Mutex<Option<Running>>,
}

#[derive(Clone, Copy)]
struct Running {
    case: usize,
    json: fn(usize) -> String,
}

impl Shared {
    /// Run with the case known to be the current one.
    pub fn running<C: serde::Serialize, T>(&self, case: &C, f: impl FnOnce() -> T) -> T {
        fn json<C: serde::Serialize>(case: usize) -> String {
            // The case lives as long as it's registered
            serde_json::to_string(unsafe { &*(case as *const C) }).unwrap_or_default()
        }

        struct Reset<'a>(&'a Shared);

        impl Drop for Reset<'_> {
            fn drop(&mut self) {
                self.0.set(None);
            }
        }

        self.set(Some(Running { case: case as *const C as usize, json: json::<C> }));
        let _reset = Reset(self);

        let old = HERE.with(|h| h.replace(self));
        let result = f();
        HERE.with(|h| h.set(old));

        result
    }

    fn set(&self, running: Option<Running>) {
        *self.case.lock().unwrap_or_else(|e| e.into_inner()) = running;
    }

    /// Give the case to the parent and end. Returns if there's none.
    fn report(&self, message: &str) {
        let running = self.case.lock().unwrap_or_else(|e| e.into_inner());

        if let Some(running) = *running {
            let case = serde_json::from_str::<serde_json::Value>(&(running.json)(running.case)).unwrap_or_default();
            answer(&json!({ "crash": { "case": case, "message": message } }).to_string());

            unsafe { libc::_exit(0) };
        }
    }
}

thread_local! {
    static HERE: Cell<*const Shared> = const { Cell::new(std::ptr::null()) };
}

static ANSWER: AtomicI32 = AtomicI32::new(-1);
static WAKE: AtomicI32 = AtomicI32::new(-1);

fn put(fd: c_int, bytes: &[u8]) -> bool {
    let mut done = 0;

    while done < bytes.len() {
        let n = unsafe { libc::syscall(libc::SYS_write, fd, bytes[done..].as_ptr(), bytes.len() - done) };

        if n <= 0 {
            return false;
        }

        done += n as usize;
    }

    true
}

/// The child's answer to its parent.
pub fn answer(text: &str) {
    put(ANSWER.load(Ordering::SeqCst), text.as_bytes());
}

/// What this thread shares with its shard; null if it has none.
pub fn here() -> *const Shared {
    let here = HERE.try_with(|h| h.get()).unwrap_or(std::ptr::null());

    if here.is_null() { shim::attached() } else { here }
}

extern "C" fn handler(signal: c_int) {
    let here = here();
    let wake = WAKE.load(Ordering::SeqCst);

    if here.is_null() || wake < 0 {
        unsafe {
            libc::signal(signal, libc::SIG_DFL);
            libc::raise(signal);
        }

        return;
    }

    let mut message = [0; 16];
    message[..8].copy_from_slice(&(here as u64).to_ne_bytes());
    message[8..].copy_from_slice(&(signal as u64).to_ne_bytes());
    put(wake, &message);

    // The case stays where it is while it's written down
    loop {
        unsafe { libc::pause(); }
    }
}

/// For the child: where to answer; also report crashes there.
pub fn install(fd: c_int) {
    ANSWER.store(fd, Ordering::SeqCst);

    let mut fds = [0; 2];

    if unsafe { libc::pipe(fds.as_mut_ptr()) } != 0 {
        return;
    }

    WAKE.store(fds[1], Ordering::SeqCst);

    std::thread::spawn(move || {
        let mut message = [0u8; 16];
        let n = unsafe { libc::syscall(libc::SYS_read, fds[0], message.as_mut_ptr(), 16) };

        if n == 16 {
            let here = u64::from_ne_bytes(message[..8].try_into().unwrap_or_default()) as *const Shared;
            let signal = u64::from_ne_bytes(message[8..].try_into().unwrap_or_default());

            let what = match signal as c_int {
                libc::SIGABRT => "the process aborts (panic within a panic, allocation failure)",
                libc::SIGSEGV | libc::SIGBUS => "the process crashes (stack overflow, invalid memory access)",
                _ => "the process is ended by a signal",
            };

            unsafe { (*here).report(what); }
        }

        unsafe { libc::_exit(2) };
    });

    for signal in [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE] {
        unsafe {
            let mut action = std::mem::zeroed::<libc::sigaction>();
            action.sa_sigaction = handler as *const () as usize;
            action.sa_flags = libc::SA_ONSTACK;
            libc::sigaction(signal, &action, std::ptr::null_mut());
        }
    }
}

/// Report a case which doesn't end. `progress` is the number of the case each shard is at
/// (`u64::MAX`: at its end).
pub fn watch(id: &'static str, progress: Arc<Vec<AtomicU64>>, shards: Vec<Arc<Shared>>, limit_s: u32) {
    std::thread::spawn(move || {
        // Counted by the pauses, so that time in which nothing runs doesn't matter
        let mut seen = progress.iter().map(|_| (0, 0)).collect::<Vec<(u64, u32)>>();

        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));

            for ((p, seen), shard) in progress.iter().zip(seen.iter_mut()).zip(&shards) {
                let now = p.load(Ordering::Relaxed);

                if now == u64::MAX || now != seen.0 {
                    *seen = (now, 0);
                    continue;
                }

                seen.1 += 1;

                if seen.1 > limit_s {
                    shard.report(&format!("doesn't come to an end within {limit_s} s"));

                    println!("HANG property={id}: case {now} didn't finish in {limit_s} s");
                    unsafe { libc::_exit(3) };
                }
            }
        }
    });
}
