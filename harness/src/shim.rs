//! File-system shim: the harness interposes libc's file calls of its own process.
//!
//! * containment: mutating calls outside the scratch directory are refused and recorded;
//! * faults: the calls of an operation are numbered steps; a step can fail, or everything
//!   from some step on can fail (the process "stopped" there), optionally after a torn write;
//! * gates: an operation can be held before each of its steps by a controlling schedule.

use std::cell::{Cell, RefCell};
use std::ffi::{CStr, OsStr};
use std::os::unix::ffi::OsStrExt;
use std::path::{Component, Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU8, Ordering};
use std::sync::{Arc, Condvar, Mutex, OnceLock};

use crate::crash::Shared;

use libc::{c_char, c_int, c_uint, c_void, mode_t, off64_t, size_t, ssize_t};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    OpenRead,
    OpenWrite,
    Read,
    Write,
    Mkdir,
    Remove,
    Rename,
    Link,
    Truncate,
    Sync,
    OpenDir,
    ReadDir,
}

impl Kind {
    pub fn mutating(self) -> bool {
        !matches!(self, Kind::OpenRead | Kind::Read | Kind::OpenDir | Kind::ReadDir)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    None,
    /// Everything from this step on fails; `torn`: the step itself, if it's a write,
    /// still puts down the first half of its data.
    Crash { at: u64, torn: bool },
    /// Only this step fails.
    Fail { at: u64, errno: i32 },
}

#[derive(Default)]
struct CtlState {
    enabled: bool,
    fault: Option<Fault>,
    step: u64,
    dead: bool,
    fired: Option<Kind>,
    log: Vec<(Kind, String)>,
    denied: Vec<String>,
    sched: Option<(Arc<Sched>, usize)>,
}

/// Control block of one operation (or of a sequence of them).
#[derive(Default)]
pub struct Ctl {
    state: Mutex<CtlState>,
    pub shared: Arc<Shared>,
}

/// Wall clock moved by hand.
#[derive(Default)]
pub struct Clock {
    on: AtomicBool,
    seconds: AtomicI64,
    nanos: AtomicI64,
    /// Seconds that pass at each reading.
    tick: AtomicI64,
}

impl Clock {
    pub fn set(&self, seconds: i64, nanos: i64, tick: i64) {
        self.seconds.store(seconds, Ordering::SeqCst);
        self.nanos.store(nanos, Ordering::SeqCst);
        self.tick.store(tick, Ordering::SeqCst);
        self.on.store(true, Ordering::SeqCst);
    }

    /// Back to the real one.
    pub fn unset(&self) {
        self.on.store(false, Ordering::SeqCst);
    }

    /// Date which the next reading will give.
    pub fn now(&self) -> u64 {
        self.seconds.load(Ordering::SeqCst) as u64
    }

    fn read(&self) -> Option<(i64, i64)> {
        self.on.load(Ordering::SeqCst)
            .then(|| (self.seconds.fetch_add(self.tick.load(Ordering::SeqCst), Ordering::SeqCst), self.nanos.load(Ordering::SeqCst)))
    }
}

pub struct Report {
    pub steps: u64,
    pub fired: Option<Kind>,
    pub log: Vec<(Kind, String)>,
}

impl Ctl {
    pub fn new(shared: Arc<Shared>) -> Self {
        Self { state: Mutex::default(), shared }
    }

    fn lock(&self) -> std::sync::MutexGuard<'_, CtlState> {
        self.state.lock().unwrap_or_else(|e| e.into_inner())
    }

    /// Start numbering steps from zero under the given fault.
    pub fn arm(&self, fault: Fault) {
        let mut s = self.lock();
        s.enabled = true;
        s.fault = Some(fault);
        s.step = 0;
        s.dead = false;
        s.fired = None;
        s.log.clear();
    }

    pub fn disarm(&self) -> Report {
        let mut s = self.lock();
        s.enabled = false;
        s.fault = None;
        s.dead = false;

        Report { steps: s.step, fired: s.fired, log: std::mem::take(&mut s.log) }
    }

    pub fn take_denied(&self) -> Vec<String> {
        std::mem::take(&mut self.lock().denied)
    }

    pub fn set_sched(&self, sched: Option<(Arc<Sched>, usize)>) {
        self.lock().sched = sched;
    }
}

thread_local! {
    static CTL: RefCell<Option<Arc<Ctl>>> = const { RefCell::new(None) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
}

/// What the block shares which this thread is attached to; null if there's none.
pub fn attached() -> *const Shared {
    CTL.try_with(|c| c.try_borrow().ok().and_then(|c| c.as_ref().map(|c| Arc::as_ptr(&c.shared)))).ok().flatten().unwrap_or(std::ptr::null())
}

/// Attach current thread to the control block.
pub fn attach(ctl: Option<Arc<Ctl>>) {
    let _ = CTL.try_with(|c| *c.borrow_mut() = ctl);
}

fn current() -> Option<Arc<Ctl>> {
    if BUSY.try_with(|b| b.get()).unwrap_or(true) {
        return None;
    }

    CTL.try_with(|c| c.try_borrow().ok().and_then(|c| c.clone())).ok().flatten()
}

// ------------------------------------------------------------------ schedule

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum OpState {
    Running,
    Waiting(Kind),
    Granted,
    Done,
}

pub struct Sched {
    ops: Mutex<Vec<OpState>>,
    cv: Condvar,
    free: AtomicBool,
    /// Set of keys of the thread which made this.
    pub salt: u16,
}

impl Sched {
    pub fn new(n: usize) -> Arc<Self> {
        Arc::new(Self {
            ops: Mutex::new(vec![OpState::Running; n]),
            cv: Condvar::new(),
            free: AtomicBool::new(false),
            salt: crate::gens::salt(),
        })
    }

    /// Hold the operation until it's let to step.
    pub fn gate(&self, op: usize, kind: Kind) {
        if self.free.load(Ordering::Relaxed) {
            return;
        }

        let mut ops = self.ops.lock().unwrap_or_else(|e| e.into_inner());

        // Several threads of one operation: wait in turn
        ops[op] = OpState::Waiting(kind);
        self.cv.notify_all();

        while ops[op] != OpState::Granted && !self.free.load(Ordering::Relaxed) {
            ops = self.cv.wait(ops).unwrap_or_else(|e| e.into_inner());
        }

        if ops[op] != OpState::Done {
            ops[op] = OpState::Running;
        }

        self.cv.notify_all();
    }

    pub fn done(&self, op: usize) {
        self.ops.lock().unwrap_or_else(|e| e.into_inner())[op] = OpState::Done;
        self.cv.notify_all();
    }

    /// Let every operation run freely from now on.
    pub fn release(&self) {
        self.free.store(true, Ordering::Relaxed);
        let _guard = self.ops.lock().unwrap_or_else(|e| e.into_inner());
        self.cv.notify_all();
    }

    /// Drive operations: `choose(waiting)` picks which one makes its next step.
    /// Returns the list of operations in the order they were let to step.
    pub fn drive(&self, mut choose: impl FnMut(&[(usize, Kind)]) -> usize) -> Vec<usize> {
        use std::time::{Duration, Instant};

        let mut trace = vec![];
        let mut ops = self.ops.lock().unwrap_or_else(|e| e.into_inner());
        // Operations that wait for something else than a gate (e.g. a lock)
        let mut blocked = vec![false; ops.len()];

        loop {
            // Wait until every operation is at a gate, finished, or seems to be blocked
            let start = Instant::now();

            loop {
                let mut unsettled = false;

                for (i, op) in ops.iter().enumerate() {
                    match op {
                        OpState::Running | OpState::Granted => unsettled |= !blocked[i],
                        _ => blocked[i] = false,
                    }
                }

                let waiting = ops.iter().any(|op| matches!(op, OpState::Waiting(_)));
                let finished = ops.iter().all(|op| *op == OpState::Done);

                if finished {
                    return trace;
                }

                if !unsettled && waiting {
                    break;
                }

                let (guard, timeout) = self.cv.wait_timeout(ops, Duration::from_millis(4)).unwrap_or_else(|e| e.into_inner());
                ops = guard;

                // Nothing moved for a while: don't wait for the running ones
                if timeout.timed_out() && start.elapsed() >= Duration::from_millis(4) {
                    for (i, op) in ops.iter().enumerate() {
                        if matches!(op, OpState::Running | OpState::Granted) {
                            blocked[i] = true;
                        }
                    }

                    if ops.iter().any(|op| matches!(op, OpState::Waiting(_))) {
                        break;
                    }
                }
            }

            let waiting = ops.iter().enumerate()
                .filter_map(|(i, op)| match op {
                    OpState::Waiting(kind) => Some((i, *kind)),
                    _ => None,
                })
                .collect::<Vec<_>>();

            let chosen = waiting[choose(&waiting) % waiting.len()].0;

            trace.push(chosen);
            ops[chosen] = OpState::Granted;
            blocked[chosen] = false;
            self.cv.notify_all();
        }
    }
}

// --------------------------------------------------------------- containment

static ROOT: OnceLock<PathBuf> = OnceLock::new();
static STRAY: Mutex<Vec<String>> = Mutex::new(Vec::new());

const MAX_FD: usize = 65536;
static TRACKED: [AtomicU8; MAX_FD] = [const { AtomicU8::new(0) }; MAX_FD];

/// Only this directory may be changed from now on.
pub fn contain(root: &Path) {
    let _ = ROOT.set(root.to_path_buf());
}

/// Refused calls made by threads without a control block.
pub fn take_stray() -> Vec<String> {
    std::mem::take(&mut STRAY.lock().unwrap_or_else(|e| e.into_inner()))
}

fn normalize(path: &Path) -> PathBuf {
    let mut out = PathBuf::new();

    for part in path.components() {
        match part {
            Component::ParentDir => { out.pop(); }
            Component::CurDir => (),
            part => out.push(part),
        }
    }

    out
}

unsafe fn resolve(dirfd: c_int, path: *const c_char) -> Option<PathBuf> {
    if path.is_null() {
        return None;
    }

    let path = Path::new(OsStr::from_bytes(CStr::from_ptr(path).to_bytes()));

    if path.is_absolute() {
        return Some(normalize(path));
    }

    let base = if dirfd == libc::AT_FDCWD {
        let mut buf = [0u8; 4096];
        let n = libc::syscall(libc::SYS_getcwd, buf.as_mut_ptr(), buf.len());
        if n <= 1 {
            return None;
        }
        PathBuf::from(OsStr::from_bytes(&buf[..n as usize - 1]))
    } else {
        let link = format!("/proc/self/fd/{dirfd}\0");
        let mut buf = [0u8; 4096];
        let n = libc::syscall(libc::SYS_readlinkat, libc::AT_FDCWD, link.as_ptr(), buf.as_mut_ptr(), buf.len());
        if n <= 0 {
            return None;
        }
        PathBuf::from(OsStr::from_bytes(&buf[..n as usize]))
    };

    Some(normalize(&base.join(path)))
}

fn inside(path: &Path) -> bool {
    match ROOT.get() {
        Some(root) => path.starts_with(root),
        None => true,
    }
}

fn set_errno(errno: c_int) {
    unsafe { *libc::__errno_location() = errno }
}

fn deny(what: &str, path: &Path) {
    let text = format!("{what} {path:?}");

    match current() {
        Some(ctl) => ctl.lock().denied.push(text),
        None => STRAY.lock().unwrap_or_else(|e| e.into_inner()).push(text),
    }

    set_errno(libc::EACCES);
}

enum Decision {
    Go,
    Torn,
    Err(c_int),
}

/// One step of the attached operation.
fn step(kind: Kind, path: impl Fn() -> String) -> Decision {
    let Some(ctl) = current() else {
        return Decision::Go;
    };

    let _ = BUSY.try_with(|b| b.set(true));
    let decision = step_inner(&ctl, kind, path);
    drop(ctl);
    let _ = BUSY.try_with(|b| b.set(false));

    decision
}

fn step_inner(ctl: &Ctl, kind: Kind, path: impl Fn() -> String) -> Decision {
    let sched = {
        let s = ctl.lock();

        if !s.enabled {
            return Decision::Go;
        }

        s.sched.clone()
    };

    if let Some((sched, op)) = sched {
        sched.gate(op, kind);
    }

    let mut s = ctl.lock();

    if !s.enabled {
        return Decision::Go;
    }

    if s.dead {
        return Decision::Err(libc::EIO);
    }

    let n = s.step;

    s.step += 1;

    if s.log.len() < 400 {
        s.log.push((kind, path()));
    }

    match s.fault {
        Some(Fault::Crash { at, torn }) if at == n => {
            s.dead = true;
            s.fired = Some(kind);

            if torn && kind == Kind::Write { Decision::Torn } else { Decision::Err(libc::EIO) }
        }

        Some(Fault::Fail { at, errno }) if at == n => {
            s.fired = Some(kind);

            Decision::Err(errno)
        }

        _ => Decision::Go,
    }
}

fn name(path: &Path) -> String {
    match ROOT.get().and_then(|root| path.strip_prefix(root).ok()) {
        Some(path) => path.display().to_string(),
        None => path.display().to_string(),
    }
}

fn tracked(fd: c_int) -> u8 {
    if fd >= 0 && (fd as usize) < MAX_FD { TRACKED[fd as usize].load(Ordering::Relaxed) } else { 0 }
}

fn track(fd: c_int, value: u8) {
    if fd >= 0 && (fd as usize) < MAX_FD {
        TRACKED[fd as usize].store(value, Ordering::Relaxed);
    }
}

/// Check and number a path operation; `Some` = result to return at once.
unsafe fn path_op(kind: Kind, what: &str, dirfd: c_int, path: *const c_char) -> Option<c_int> {
    if ROOT.get().is_none() {
        return None;
    }

    let Some(path) = resolve(dirfd, path) else {
        return None;
    };

    if !inside(&path) {
        if kind.mutating() && !path.starts_with("/dev") && !path.starts_with("/proc") {
            deny(what, &path);
            return Some(-1);
        }

        return None;
    }

    match step(kind, || name(&path)) {
        Decision::Go | Decision::Torn => None,
        Decision::Err(errno) => {
            set_errno(errno);
            Some(-1)
        }
    }
}

fn ret(value: libc::c_long) -> c_int {
    value as c_int
}

unsafe fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let write = flags & libc::O_ACCMODE != libc::O_RDONLY || flags & (libc::O_CREAT | libc::O_TRUNC) != 0;

    let kind = if write {
        Kind::OpenWrite
    } else if flags & libc::O_DIRECTORY != 0 {
        Kind::OpenDir
    } else {
        Kind::OpenRead
    };

    if let Some(result) = path_op(kind, "open", dirfd, path) {
        return result;
    }

    let fd = ret(libc::syscall(libc::SYS_openat, dirfd, path, flags, mode as c_uint));

    if fd >= 0 {
        let inside = ROOT.get().is_some() && resolve(dirfd, path).is_some_and(|p| inside(&p));

        track(fd, if inside { 1 } else { 0 });
    }

    fd
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn openat(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(dirfd, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn openat64(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(dirfd, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn creat(path: *const c_char, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, mode)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    track(fd, 0);
    ret(libc::syscall(libc::SYS_close, fd))
}

enum Data {
    Read,
    Write,
}

/// Decision for a data operation on a tracked descriptor.
fn data_op(fd: c_int, data: Data) -> Decision {
    match (tracked(fd), data) {
        (0, _) => Decision::Go,

        // First read of the descriptor only
        (1, Data::Read) => {
            track(fd, 2);
            step(Kind::Read, || format!("fd {fd}"))
        }

        (_, Data::Read) => Decision::Go,
        (_, Data::Write) => step(Kind::Write, || format!("fd {fd}")),
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, count: size_t) -> ssize_t {
    match data_op(fd, Data::Read) {
        Decision::Err(errno) => { set_errno(errno); -1 }
        _ => libc::syscall(libc::SYS_read, fd, buf, count) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, count: size_t, offset: off64_t) -> ssize_t {
    match data_op(fd, Data::Read) {
        Decision::Err(errno) => { set_errno(errno); -1 }
        _ => libc::syscall(libc::SYS_pread64, fd, buf, count, offset) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, count: size_t) -> ssize_t {
    match data_op(fd, Data::Write) {
        Decision::Err(errno) => { set_errno(errno); -1 }
        Decision::Torn => {
            libc::syscall(libc::SYS_write, fd, buf, count / 2);
            set_errno(libc::EIO);
            -1
        }
        Decision::Go => libc::syscall(libc::SYS_write, fd, buf, count) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, count: size_t, offset: off64_t) -> ssize_t {
    match data_op(fd, Data::Write) {
        Decision::Err(errno) => { set_errno(errno); -1 }
        Decision::Torn => {
            libc::syscall(libc::SYS_pwrite64, fd, buf, count / 2, offset);
            set_errno(libc::EIO);
            -1
        }
        Decision::Go => libc::syscall(libc::SYS_pwrite64, fd, buf, count, offset) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, count: c_int) -> ssize_t {
    match data_op(fd, Data::Write) {
        Decision::Err(errno) => { set_errno(errno); -1 }
        Decision::Torn => {
            if count > 0 {
                libc::syscall(libc::SYS_write, fd, (*iov).iov_base, (*iov).iov_len / 2);
            }
            set_errno(libc::EIO);
            -1
        }
        Decision::Go => libc::syscall(libc::SYS_writev, fd, iov, count) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn copy_file_range(fd_in: c_int, off_in: *mut off64_t, fd_out: c_int, off_out: *mut off64_t, len: size_t, flags: c_uint) -> ssize_t {
    match data_op(fd_out, Data::Write) {
        Decision::Err(errno) => { set_errno(errno); -1 }
        Decision::Torn => {
            libc::syscall(libc::SYS_copy_file_range, fd_in, off_in, fd_out, off_out, len.min(4096) / 2, flags);
            set_errno(libc::EIO);
            -1
        }
        Decision::Go => libc::syscall(libc::SYS_copy_file_range, fd_in, off_in, fd_out, off_out, len, flags) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn sendfile64(fd_out: c_int, fd_in: c_int, offset: *mut off64_t, count: size_t) -> ssize_t {
    match data_op(fd_out, Data::Write) {
        Decision::Err(errno) => { set_errno(errno); -1 }
        Decision::Torn => {
            libc::syscall(libc::SYS_sendfile, fd_out, fd_in, offset, count.min(4096) / 2);
            set_errno(libc::EIO);
            -1
        }
        Decision::Go => libc::syscall(libc::SYS_sendfile, fd_out, fd_in, offset, count) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if tracked(fd) != 0 {
        if let Decision::Err(errno) = step(Kind::Truncate, || format!("fd {fd}")) {
            set_errno(errno);
            return -1;
        }
    }

    ret(libc::syscall(libc::SYS_ftruncate, fd, len))
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int {
    ftruncate64(fd, len)
}

#[no_mangle]
pub unsafe extern "C" fn truncate64(path: *const c_char, len: off64_t) -> c_int {
    path_op(Kind::Truncate, "truncate", libc::AT_FDCWD, path)
        .unwrap_or_else(|| ret(libc::syscall(libc::SYS_truncate, path, len)))
}

#[no_mangle]
pub unsafe extern "C" fn truncate(path: *const c_char, len: off64_t) -> c_int {
    truncate64(path, len)
}

unsafe fn sync_op(fd: c_int, number: libc::c_long) -> c_int {
    if tracked(fd) != 0 {
        if let Decision::Err(errno) = step(Kind::Sync, || format!("fd {fd}")) {
            set_errno(errno);
            return -1;
        }

        // Data loss on power failure isn't part of the model
        return 0;
    }

    ret(libc::syscall(number, fd))
}

#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    sync_op(fd, libc::SYS_fsync)
}

#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    sync_op(fd, libc::SYS_fdatasync)
}

#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    path_op(Kind::Mkdir, "mkdir", libc::AT_FDCWD, path)
        .unwrap_or_else(|| ret(libc::syscall(libc::SYS_mkdir, path, mode as c_uint)))
}

#[no_mangle]
pub unsafe extern "C" fn mkdirat(dirfd: c_int, path: *const c_char, mode: mode_t) -> c_int {
    path_op(Kind::Mkdir, "mkdir", dirfd, path)
        .unwrap_or_else(|| ret(libc::syscall(libc::SYS_mkdirat, dirfd, path, mode as c_uint)))
}

#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    path_op(Kind::Remove, "rmdir", libc::AT_FDCWD, path)
        .unwrap_or_else(|| ret(libc::syscall(libc::SYS_rmdir, path)))
}

#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    path_op(Kind::Remove, "unlink", libc::AT_FDCWD, path)
        .unwrap_or_else(|| ret(libc::syscall(libc::SYS_unlink, path)))
}

#[no_mangle]
pub unsafe extern "C" fn unlinkat(dirfd: c_int, path: *const c_char, flags: c_int) -> c_int {
    path_op(Kind::Remove, "unlink", dirfd, path)
        .unwrap_or_else(|| ret(libc::syscall(libc::SYS_unlinkat, dirfd, path, flags)))
}

unsafe fn do_rename(d1: c_int, from: *const c_char, d2: c_int, to: *const c_char, flags: c_uint) -> c_int {
    if ROOT.get().is_some() {
        let (a, b) = (resolve(d1, from), resolve(d2, to));

        for path in [&a, &b].into_iter().flatten() {
            if !inside(path) {
                deny("rename", path);
                return -1;
            }
        }

        if let (Some(a), Some(b)) = (a, b) {
            if let Decision::Err(errno) = step(Kind::Rename, || format!("{} -> {}", name(&a), name(&b))) {
                set_errno(errno);
                return -1;
            }
        }
    }

    ret(libc::syscall(libc::SYS_renameat2, d1, from, d2, to, flags))
}

#[no_mangle]
pub unsafe extern "C" fn rename(from: *const c_char, to: *const c_char) -> c_int {
    do_rename(libc::AT_FDCWD, from, libc::AT_FDCWD, to, 0)
}

#[no_mangle]
pub unsafe extern "C" fn renameat(d1: c_int, from: *const c_char, d2: c_int, to: *const c_char) -> c_int {
    do_rename(d1, from, d2, to, 0)
}

#[no_mangle]
pub unsafe extern "C" fn renameat2(d1: c_int, from: *const c_char, d2: c_int, to: *const c_char, flags: c_uint) -> c_int {
    do_rename(d1, from, d2, to, flags)
}

#[no_mangle]
pub unsafe extern "C" fn linkat(d1: c_int, from: *const c_char, d2: c_int, to: *const c_char, flags: c_int) -> c_int {
    path_op(Kind::Link, "link", d2, to)
        .unwrap_or_else(|| ret(libc::syscall(libc::SYS_linkat, d1, from, d2, to, flags)))
}

#[no_mangle]
pub unsafe extern "C" fn link(from: *const c_char, to: *const c_char) -> c_int {
    linkat(libc::AT_FDCWD, from, libc::AT_FDCWD, to, 0)
}

#[no_mangle]
pub unsafe extern "C" fn symlink(target: *const c_char, path: *const c_char) -> c_int {
    path_op(Kind::Link, "symlink", libc::AT_FDCWD, path)
        .unwrap_or_else(|| ret(libc::syscall(libc::SYS_symlink, target, path)))
}

#[no_mangle]
pub unsafe extern "C" fn chmod(path: *const c_char, mode: mode_t) -> c_int {
    path_op(Kind::Link, "chmod", libc::AT_FDCWD, path)
        .unwrap_or_else(|| ret(libc::syscall(libc::SYS_chmod, path, mode as c_uint)))
}

// Directory listing goes through libc's own buffers: forward to the next definition

macro_rules! next_fn {
    ($name:literal, $ty:ty) => {{
        static CELL: OnceLock<usize> = OnceLock::new();

        let address = *CELL.get_or_init(|| libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr().cast()) as usize);

        std::mem::transmute::<usize, $ty>(address)
    }};
}

#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut libc::DIR {
    if path_op(Kind::OpenDir, "opendir", libc::AT_FDCWD, path).is_some() {
        return std::ptr::null_mut();
    }

    let next = next_fn!("opendir", unsafe extern "C" fn(*const c_char) -> *mut libc::DIR);
    let dir = next(path);

    if !dir.is_null() && ROOT.get().is_some() && resolve(libc::AT_FDCWD, path).is_some_and(|p| inside(&p)) {
        track(libc::dirfd(dir), 1);
    }

    dir
}

#[no_mangle]
pub unsafe extern "C" fn readdir64(dir: *mut libc::DIR) -> *mut libc::dirent64 {
    let fd = libc::dirfd(dir);

    if tracked(fd) == 1 {
        track(fd, 2);

        if let Decision::Err(errno) = step(Kind::ReadDir, || format!("fd {fd}")) {
            set_errno(errno);
            return std::ptr::null_mut();
        }
    }

    let next = next_fn!("readdir64", unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64);

    next(dir)
}

#[no_mangle]
pub unsafe extern "C" fn closedir(dir: *mut libc::DIR) -> c_int {
    track(libc::dirfd(dir), 0);

    let next = next_fn!("closedir", unsafe extern "C" fn(*mut libc::DIR) -> c_int);

    next(dir)
}

// --------------------------------------------------------------------- clock

thread_local! {
    static FROZEN: Cell<bool> = const { Cell::new(false) };
    static WALL: Cell<i64> = const { Cell::new(0) };
}

/// Date this thread sees, or 0 for the real one.
pub fn set_wall_clock(seconds: i64) {
    let _ = WALL.try_with(|w| w.set(seconds));
}

/// Make the clock of this thread stand still.
pub fn freeze_clock(frozen: bool) {
    let _ = FROZEN.try_with(|f| f.set(frozen));
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: libc::clockid_t, out: *mut libc::timespec) -> c_int {
    if FROZEN.try_with(|f| f.get()).unwrap_or(false) && !out.is_null() {
        (*out).tv_sec = 1_700_000_000;
        (*out).tv_nsec = 0;

        return 0;
    }

    let wall = WALL.try_with(|w| w.get()).unwrap_or(0);

    if wall != 0 && clock == libc::CLOCK_REALTIME && !out.is_null() {
        (*out).tv_sec = wall;
        (*out).tv_nsec = 0;

        return 0;
    }

    if clock == libc::CLOCK_REALTIME && !out.is_null() {
        let read = CTL.try_with(|c| c.try_borrow().ok().and_then(|c| c.as_ref().and_then(|c| c.shared.clock.read()))).ok().flatten();

        if let Some((seconds, nanos)) = read {
            (*out).tv_sec = seconds;
            (*out).tv_nsec = nanos;

            return 0;
        }
    }

    let next = next_fn!("clock_gettime", unsafe extern "C" fn(libc::clockid_t, *mut libc::timespec) -> c_int);

    next(clock, out)
}
