//! Symbol-level instrumentation of the libc calls possum makes. The executable defines these
//! symbols itself, so std, SQLite and possum all call them. They
//!  * record what happens to value files, snapshot files and the manifest's write lock (in the
//!    order in which it happened: call and log entry are made under one lock),
//!  * let a controller run one thread at a time, from one such call to the next ("gates"),
//!  * inject an errno at, or end the process at, the n-th such call,
//!  * give the threads a virtual wall clock, and
//!  * emulate block cloning (FICLONE) by copying, where asked to.
use serde_json::{json, Value as J};
use std::cell::Cell;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_long, c_uint, c_void, CStr};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicI64, AtomicU64, AtomicU8, Ordering::*};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::{Duration, Instant};

pub const BASE_MS: i64 = 1_700_000_000_000;
const FICLONE: u64 = 0x40049409;

// ---- classes of file descriptors
pub const NONE: u8 = 0;
pub const V: u8 = 1; // values file
pub const S: u8 = 2; // file in a snapshot dir
pub const M: u8 = 3; // manifest.db
pub const W: u8 = 4; // -wal
pub const H: u8 = 5; // -shm
pub const JR: u8 = 6; // -journal
pub const D: u8 = 7; // snapshot dir
fn cls_char(c: u8) -> char {
    ['-', 'V', 'S', 'M', 'W', 'H', 'J', 'D'][c as usize]
}

const NFD: usize = 4096;
static CLS: [AtomicU8; NFD] = [const { AtomicU8::new(0) }; NFD];
static NAMES: Mutex<Option<HashMap<i32, String>>> = Mutex::new(None);
static BASE: Mutex<Option<Vec<u8>>> = Mutex::new(None);
pub static ACTIVE: AtomicBool = AtomicBool::new(false);
pub static GATING: AtomicBool = AtomicBool::new(false);
/// Also stop before reads of the manifest and its log.
pub static MGATE: AtomicBool = AtomicBool::new(false);
/// Stop where the model of the values files' protocol has steps: after unlocking, and before a reclaimer looks
/// at the manifest anew; but not before others read it.
pub static SGATE: AtomicBool = AtomicBool::new(false);
pub static CLONE: AtomicBool = AtomicBool::new(false);
/// where the protocol is spoken
pub static PROTO: AtomicI32 = AtomicI32::new(1);
pub static OPENING: AtomicI32 = AtomicI32::new(0);
pub static NPUNCHERS: AtomicU64 = AtomicU64::new(0);

// ---- actors
#[derive(Clone, Debug, PartialEq)]
pub enum St {
    Idle,
    Running,
    Gate(String),
    Blocked,
    Gone,
}
pub struct Actor {
    pub name: String,
    pub tid: i32,
    pub now: AtomicI64,
    /// progress counter: how many shim calls this thread has made
    pub seq: AtomicU64,
    pub st: Mutex<St>,
    pub granted: AtomicBool,
    /// run through gates without stopping
    pub free: AtomicBool,
    pub puncher: bool,
    pub inlock: AtomicBool,
}
thread_local! {
    static ME: Cell<*const Actor> = const { Cell::new(std::ptr::null()) };
    static CTL: Cell<bool> = const { Cell::new(false) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
    /// how many of SQLite's mutexes this thread holds
    static HELD: Cell<u32> = const { Cell::new(0) };
    /// a write transaction has ended, and the thread hasn't stopped since
    static AFTER: Cell<bool> = const { Cell::new(false) };
    // the current transaction has been, or was to be, one that writes
    static WRITES: Cell<bool> = const { Cell::new(false) };
    /// a write transaction has begun (likewise, SGATE only)
    static BEGUN: Cell<bool> = const { Cell::new(false) };
    /// a reclaimer has let go of the manifest
    static VIEWED: Cell<bool> = const { Cell::new(true) };
}
pub static ACTORS: Mutex<Vec<Arc<Actor>>> = Mutex::new(Vec::new());
pub static GM: Mutex<()> = Mutex::new(());
pub static GCV: Condvar = Condvar::new(); // actors wait here
pub static CCV: Condvar = Condvar::new(); // the controller waits here
/// The log; every entry gets the system-wide monotonic time, by which the logs of several processes
/// are merged.
pub struct Log(Vec<J>);
impl Log {
    fn push(&mut self, v: J) {
        self.push_at(mono(), v)
    }
    fn push_at(&mut self, t: u64, mut v: J) {
        v["ts"] = json!(t);
        self.0.push(v)
    }
}
pub fn mono() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC, &mut ts) };
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}
static LOG: Mutex<Log> = Mutex::new(Log(Vec::new()));
pub static OUT: Mutex<()> = Mutex::new(());

pub fn lk<T>(m: &Mutex<T>) -> MutexGuard<'_, T> {
    match m.lock() {
        Ok(g) => g,
        Err(e) => e.into_inner(),
    }
}
pub fn take_log() -> Vec<J> {
    std::mem::take(&mut lk(&LOG).0)
}
pub fn log(v: J) {
    lk(&LOG).push(v)
}
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let old = QUIET.with(|q| q.replace(true));
    let r = f();
    QUIET.with(|q| q.set(old));
    r
}
pub fn set_base(p: &str) {
    *lk(&BASE) = Some(p.trim_end_matches('/').as_bytes().to_vec());
    lk(&NAMES).get_or_insert_with(HashMap::new);
}
pub fn be_controller() {
    CTL.with(|c| c.set(true));
}
fn gettid() -> i32 {
    unsafe { libc::syscall(libc::SYS_gettid) as i32 }
}
pub fn register(name: &str, puncher: bool) -> Arc<Actor> {
    let a = Arc::new(Actor {
        name: name.to_string(),
        tid: gettid(),
        now: AtomicI64::new(-1),
        seq: AtomicU64::new(0),
        st: Mutex::new(if puncher { St::Running } else { St::Idle }),
        granted: AtomicBool::new(false),
        free: AtomicBool::new(false),
        puncher,
        inlock: AtomicBool::new(false),
    });
    let p = Arc::into_raw(a.clone());
    ME.with(|m| m.set(p));
    lk(&ACTORS).push(a.clone());
    a
}
/// The actor of this thread. Threads the harness did not make are the code's own: the background
/// reclaimer of the handle being opened.
fn me() -> Option<&'static Actor> {
    if !ACTIVE.load(Relaxed) {
        return None;
    }
    if QUIET.with(|q| q.get()) || CTL.with(|c| c.get()) {
        return None;
    }
    let p = ME.with(|m| m.get());
    if !p.is_null() {
        return Some(unsafe { &*p });
    }
    let h = OPENING.load(SeqCst);
    let n = NPUNCHERS.fetch_add(1, SeqCst);
    let mut name = format!("P{}", h);
    if lk(&ACTORS).iter().any(|a| a.name == name) {
        name = format!("P{}x{}", h, n);
    }
    quiet(|| register(&name, true));
    CCV.notify_all();
    let p = ME.with(|m| m.get());
    Some(unsafe { &*p })
}
pub fn my_name() -> String {
    let p = ME.with(|m| m.get());
    if p.is_null() {
        "?".into()
    } else {
        unsafe { (*p).name.clone() }
    }
}

fn gate(a: &Actor, desc: &str) {
    a.seq.fetch_add(1, SeqCst);
    if !GATING.load(SeqCst) || a.free.load(SeqCst) {
        return;
    }
    let mut g = lk(&GM);
    *lk(&a.st) = St::Gate(desc.to_string());
    CCV.notify_all();
    while !a.granted.load(SeqCst) {
        g = GCV.wait(g).unwrap_or_else(|e| e.into_inner());
    }
    a.granted.store(false, SeqCst);
    *lk(&a.st) = St::Running;
}
pub fn grant(a: &Actor) {
    let _g = lk(&GM);
    *lk(&a.st) = St::Running;
    a.granted.store(true, SeqCst);
    GCV.notify_all();
}

// ---- faults and crashes
#[derive(Clone, Debug, Default)]
pub struct Plan {
    pub cls: String,   // which classes, e.g. "V" or "VMWHJSD"
    pub call: String,  // which call, or "" for any
    pub actor: String, // "" any, "user" not a puncher, or a name
    pub nth: i64,      // 1-based, -1 none
    pub errno: i32,
    pub short: bool, // for write: half of it gets written first
    pub sticky: bool,
    pub times: i64,
    pub after: bool, // crash after rather than before the call
}
static FAULT: Mutex<Option<Plan>> = Mutex::new(None);
static CRASH: Mutex<Option<Plan>> = Mutex::new(None);
static NFAULT: AtomicI64 = AtomicI64::new(0);
static NCRASH: AtomicI64 = AtomicI64::new(0);
static CALLS: Mutex<Vec<String>> = Mutex::new(Vec::new());
pub static FIRED: AtomicI64 = AtomicI64::new(0);
pub static RECORD_CALLS: AtomicBool = AtomicBool::new(false);

pub fn set_fault(p: Option<Plan>) -> i64 {
    *lk(&FAULT) = p;
    NFAULT.swap(0, SeqCst)
}
pub fn set_crash(p: Option<Plan>) -> i64 {
    *lk(&CRASH) = p;
    NCRASH.swap(0, SeqCst)
}
pub fn take_calls() -> Vec<String> {
    std::mem::take(&mut *lk(&CALLS))
}
fn matches(p: &Plan, a: &Actor, cls: u8, call: &str) -> bool {
    (p.cls.is_empty() || p.cls.contains(cls_char(cls)))
        && (p.call.is_empty() || p.call == call)
        && match p.actor.as_str() {
            "" => true,
            "user" => !a.puncher,
            "puncher" => a.puncher,
            n => a.name == n,
        }
}
pub fn say(b: &[u8]) -> bool {
    let mut o = 0;
    while o < b.len() {
        let n = unsafe { libc::syscall(libc::SYS_write, PROTO.load(SeqCst), b.as_ptr().add(o), b.len() - o) };
        if n <= 0 {
            return false;
        }
        o += n as usize;
    }
    true
}
fn crash_now() -> ! {
    let _o = lk(&OUT);
    let ev = take_log();
    let mut s = json!({"crash": true, "ev": ev}).to_string();
    s.push('\n');
    say(s.as_bytes());
    unsafe { libc::syscall(libc::SYS_exit_group, 77) };
    loop {}
}
enum Inj {
    No,
    Errno(i32),
    Short(i32),
}
struct Guard {
    crash_after: bool,
}
impl Drop for Guard {
    fn drop(&mut self) {
        if self.crash_after {
            crash_now();
        }
    }
}
fn inject(a: &Actor, cls: u8, call: &str) -> (Inj, Guard) {
    if RECORD_CALLS.load(Relaxed) {
        lk(&CALLS).push(format!(
            "{}:{}:{}",
            if a.puncher { "p" } else { "u" },
            cls_char(cls),
            call
        ));
    }
    let mut guard = Guard { crash_after: false };
    let cp = lk(&CRASH).clone();
    if let Some(p) = cp {
        if matches(&p, a, cls, call) {
            let n = NCRASH.fetch_add(1, SeqCst) + 1;
            if n == p.nth {
                if p.after {
                    guard.crash_after = true;
                } else {
                    crash_now();
                }
            }
        }
    }
    let fp = lk(&FAULT).clone();
    if let Some(p) = fp {
        if matches(&p, a, cls, call) {
            let n = NFAULT.fetch_add(1, SeqCst) + 1;
            if (n >= p.nth && p.nth > 0 && n < p.nth + p.times) || (p.sticky && p.nth > 0 && n > p.nth) {
                FIRED.fetch_add(1, SeqCst);
                log(json!({"e":"fault","a":a.name,"call":call,"cls":cls_char(cls).to_string(),"errno":p.errno}));
                return (
                    if p.short { Inj::Short(p.errno) } else { Inj::Errno(p.errno) },
                    guard,
                );
            }
        }
    }
    (Inj::No, guard)
}
fn fail(e: i32) -> c_long {
    unsafe { *libc::__errno_location() = e };
    -1
}

// ---- paths and descriptors
fn classify(path: &[u8]) -> (u8, String) {
    let base = lk(&BASE);
    let Some(base) = base.as_ref() else {
        return (NONE, String::new());
    };
    if !path.starts_with(base) || path.len() <= base.len() || path[base.len()] != b'/' {
        return (NONE, String::new());
    }
    let rel = String::from_utf8_lossy(&path[base.len()..]).to_string();
    let parts: Vec<&str> = rel.split('/').filter(|p| !p.is_empty() && *p != ".").collect();
    if parts.is_empty() {
        return (NONE, String::new());
    }
    let name = parts.join("/");
    let c = if parts.len() == 1 {
        let p = parts[0];
        if p.starts_with("values-") {
            V
        } else if p == "manifest.db" {
            M
        } else if p == "manifest.db-wal" {
            W
        } else if p == "manifest.db-shm" {
            H
        } else if p == "manifest.db-journal" {
            JR
        } else if p.starts_with("snapshot-") {
            D
        } else {
            NONE
        }
    } else if parts[0].starts_with("snapshot-") {
        S
    } else {
        NONE
    };
    (c, name)
}
fn cls(fd: c_int) -> u8 {
    if fd >= 0 && (fd as usize) < NFD {
        CLS[fd as usize].load(Relaxed)
    } else {
        NONE
    }
}
fn name(fd: c_int) -> String {
    lk(&NAMES)
        .as_ref()
        .and_then(|m| m.get(&fd).cloned())
        .unwrap_or_default()
}
fn track(fd: c_int, c: u8, n: String) {
    if fd >= 0 && (fd as usize) < NFD {
        CLS[fd as usize].store(c, Relaxed);
        lk(&NAMES).get_or_insert_with(HashMap::new).insert(fd, n);
        let mut o = lk(&OFDS);
        o.0 += 1;
        let id = o.0;
        o.1.insert(fd, id);
    }
}
/// Open files: descriptors that were duplicated share one (and with it the locks).
static OFDS: Mutex<(u64, std::collections::BTreeMap<c_int, u64>)> =
    Mutex::new((0, std::collections::BTreeMap::new()));
fn ofd(fd: c_int) -> u64 {
    lk(&OFDS).1.get(&fd).copied().unwrap_or(0)
}
fn track_dup(old: c_int, new: c_int) {
    if new < 0 || cls(old) == NONE || (new as usize) >= NFD {
        return;
    }
    CLS[new as usize].store(cls(old), Relaxed);
    let n = name(old);
    lk(&NAMES).get_or_insert_with(HashMap::new).insert(new, n);
    let id = ofd(old);
    lk(&OFDS).1.insert(new, id);
}
/// Its last descriptor is going?
fn untrack(fd: c_int) -> (u64, bool) {
    let mut o = lk(&OFDS);
    let id = o.1.remove(&fd).unwrap_or(0);
    (id, !o.1.values().any(|x| *x == id))
}
unsafe fn bytes<'a>(p: *const c_char) -> &'a [u8] {
    CStr::from_ptr(p).to_bytes()
}
fn raw_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_long {
    unsafe { libc::syscall(libc::SYS_openat, dirfd, path, flags, mode) }
}
fn raw_size(fd: c_int) -> i64 {
    unsafe {
        let cur = libc::syscall(libc::SYS_lseek, fd, 0, libc::SEEK_CUR);
        let end = libc::syscall(libc::SYS_lseek, fd, 0, libc::SEEK_END);
        libc::syscall(libc::SYS_lseek, fd, cur, libc::SEEK_SET);
        end
    }
}

fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let Some(a) = me() else {
        return raw_open(dirfd, path, flags, mode) as c_int;
    };
    let (c, n) = classify(unsafe { bytes(path) });
    if c == NONE {
        return raw_open(dirfd, path, flags, mode) as c_int;
    }
    if c == V || c == S {
        gate(a, &format!("open {}", n));
        if a.puncher {
            VIEWED.set(true);
        }
    } else if c == D {
        gate(a, &format!("opendir {}", n));
    }
    let (inj, _g) = inject(a, c, "open");
    if let Inj::Errno(e) | Inj::Short(e) = inj {
        return fail(e) as c_int;
    }
    let mut l = lk(&LOG);
    let existed = if flags & libc::O_CREAT != 0 {
        let f = raw_open(dirfd, path, libc::O_PATH | libc::O_CLOEXEC, 0);
        if f >= 0 {
            unsafe { libc::syscall(libc::SYS_close, f) };
        }
        f >= 0
    } else {
        true
    };
    let fd = raw_open(dirfd, path, flags, mode) as c_int;
    // (directories are closed by libc itself)
    if fd >= 0 && c != D {
        track(fd, c, n.clone());
        if c == V || c == S {
            let size = raw_size(fd);
            l.push(json!({"e":"open","a":a.name,"f":n,"fd":ofd(fd),"c":cls_char(c).to_string(),"cr":!existed,"n":size}));
        }
    }
    fd
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let c = cls(fd);
    if c == NONE {
        return libc::syscall(libc::SYS_close, fd) as c_int;
    }
    let who = ME.with(|m| m.get());
    let who = if who.is_null() { "?".to_string() } else { (*who).name.clone() };
    let mut l = lk(&LOG);
    CLS[fd as usize].store(NONE, Relaxed);
    let n = lk(&NAMES).as_mut().and_then(|m| m.remove(&fd)).unwrap_or_default();
    let (id, last) = untrack(fd);
    if (c == V || c == S) && last {
        l.push(json!({"e":"close","a":who,"f":n,"fd":id}));
    }
    libc::syscall(libc::SYS_close, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    let r = libc::syscall(libc::SYS_dup, fd) as c_int;
    track_dup(fd, r);
    r
}
fn do_write(fd: c_int, n: usize, call: &str, raw: impl Fn(usize) -> c_long) -> c_long {
    let c = cls(fd);
    if c == NONE {
        return raw(n);
    }
    let Some(a) = me() else { return raw(n) };
    if c == V || c == S {
        gate(a, &format!("write {}", name(fd)));
    }
    let (inj, _g) = inject(a, c, call);
    let mut lim = n;
    match inj {
        Inj::Errno(e) => return fail(e),
        Inj::Short(e) => {
            if n < 2 {
                return fail(e);
            }
            lim = n / 2;
        }
        Inj::No => {}
    }
    let mut l = lk(&LOG);
    let r = raw(lim);
    if c == V || c == S {
        if r > 0 {
            let cur = unsafe { libc::syscall(libc::SYS_lseek, fd, 0, libc::SEEK_CUR) };
            l.push(json!({"e":"write","a":a.name,"f":name(fd),"fd":ofd(fd),"off":cur - r,"n":r}));
        }
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    do_write(fd, n, "write", |n| libc::syscall(libc::SYS_write, fd, buf, n)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> isize {
    let total: usize = (0..cnt as usize).map(|i| (*iov.add(i)).iov_len).sum();
    if cls(fd) == NONE {
        return libc::syscall(libc::SYS_writev, fd, iov, cnt) as isize;
    }
    do_write(fd, total, "write", |n| {
        if n == total {
            libc::syscall(libc::SYS_writev, fd, iov, cnt)
        } else {
            let v = *iov;
            libc::syscall(libc::SYS_write, fd, v.iov_base, v.iov_len.min(n))
        }
    }) as isize
}
fn do_pwrite(fd: c_int, buf: *const c_void, n: usize, off: i64) -> c_long {
    let raw = |n: usize| unsafe { libc::syscall(libc::SYS_pwrite64, fd, buf, n, off) };
    let c = cls(fd);
    if c == NONE {
        return raw(n);
    }
    let Some(a) = me() else { return raw(n) };
    if c == V || c == S {
        gate(a, &format!("pwrite {}", name(fd)));
    }
    let (inj, _g) = inject(a, c, "write");
    let mut lim = n;
    match inj {
        Inj::Errno(e) => return fail(e),
        Inj::Short(e) => {
            if n < 2 {
                return fail(e);
            }
            lim = n / 2;
        }
        Inj::No => {}
    }
    let mut l = lk(&LOG);
    let r = raw(lim);
    if (c == V || c == S) && r > 0 {
        let fl = unsafe { libc::syscall(libc::SYS_fcntl, fd, libc::F_GETFL, 0) };
        let o = if fl & libc::O_APPEND as i64 != 0 { raw_size(fd) - r } else { off };
        l.push(json!({"e":"write","a":a.name,"f":name(fd),"fd":ofd(fd),"off":o,"n":r}));
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    do_pwrite(fd, buf, n, off) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    do_pwrite(fd, buf, n, off) as isize
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(
    fdin: c_int,
    offin: *mut i64,
    fdout: c_int,
    offout: *mut i64,
    n: usize,
    flags: c_uint,
) -> isize {
    do_write(fdout, n, "write", |n| {
        libc::syscall(libc::SYS_copy_file_range, fdin, offin, fdout, offout, n, flags)
    }) as isize
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(fdout: c_int, fdin: c_int, off: *mut i64, n: usize) -> isize {
    do_write(fdout, n, "write", |n| libc::syscall(libc::SYS_sendfile, fdout, fdin, off, n)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn splice(
    fdin: c_int,
    offin: *mut i64,
    fdout: c_int,
    offout: *mut i64,
    n: usize,
    flags: c_uint,
) -> isize {
    do_write(fdout, n, "write", |n| {
        libc::syscall(libc::SYS_splice, fdin, offin, fdout, offout, n, flags)
    }) as isize
}
fn do_read(fd: c_int, call: &str, raw: impl Fn() -> c_long) -> c_long {
    let c = cls(fd);
    if c == NONE {
        return raw();
    }
    let Some(a) = me() else { return raw() };
    a.seq.fetch_add(1, SeqCst);
    if (c == M || c == W) && MGATE.load(Relaxed) && (a.puncher || !SGATE.load(Relaxed)) {
        gate(a, "mread");
    }
    let (inj, _g) = inject(a, c, call);
    if let Inj::Errno(e) | Inj::Short(e) = inj {
        return fail(e);
    }
    raw()
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    do_read(fd, "read", || libc::syscall(libc::SYS_read, fd, buf, n)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: usize, off: i64) -> isize {
    do_read(fd, "read", || libc::syscall(libc::SYS_pread64, fd, buf, n, off)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: usize, off: i64) -> isize {
    do_read(fd, "read", || libc::syscall(libc::SYS_pread64, fd, buf, n, off)) as isize
}
fn do_lseek(fd: c_int, off: i64, whence: c_int) -> i64 {
    let raw = || unsafe { libc::syscall(libc::SYS_lseek, fd, off, whence) };
    let c = cls(fd);
    if c == NONE {
        return raw();
    }
    let Some(a) = me() else { return raw() };
    if c == V && whence == libc::SEEK_END {
        gate(a, &format!("seekend {}", name(fd)));
    }
    let (inj, _g) = inject(a, c, "lseek");
    if let Inj::Errno(e) | Inj::Short(e) = inj {
        return fail(e);
    }
    raw()
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    do_lseek(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, whence: c_int) -> i64 {
    do_lseek(fd, off, whence)
}
fn do_ftruncate(fd: c_int, len: i64) -> c_int {
    let raw = || unsafe { libc::syscall(libc::SYS_ftruncate, fd, len) as c_int };
    let c = cls(fd);
    if c == NONE {
        return raw();
    }
    let Some(a) = me() else { return raw() };
    if c == V || c == S {
        gate(a, &format!("trunc {}", name(fd)));
    }
    let (inj, _g) = inject(a, c, "trunc");
    if let Inj::Errno(e) | Inj::Short(e) = inj {
        return fail(e) as c_int;
    }
    let mut l = lk(&LOG);
    let r = raw();
    if r == 0 && c == V {
        l.push(json!({"e":"trunc","a":a.name,"f":name(fd),"fd":ofd(fd),"n":len}));
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    do_ftruncate(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: i64) -> c_int {
    do_ftruncate(fd, len)
}
fn do_fallocate(fd: c_int, mode: c_int, off: i64, len: i64) -> c_int {
    let raw = || unsafe { libc::syscall(libc::SYS_fallocate, fd, mode, off, len) as c_int };
    let c = cls(fd);
    if c == NONE {
        return raw();
    }
    let Some(a) = me() else { return raw() };
    if c == V || c == S {
        gate(a, &format!("punch {}", name(fd)));
    }
    let (inj, _g) = inject(a, c, "punch");
    if let Inj::Errno(e) | Inj::Short(e) = inj {
        return fail(e) as c_int;
    }
    let mut l = lk(&LOG);
    let r = raw();
    if r == 0 && (c == V || c == S) {
        l.push(json!({"e":"punch","a":a.name,"f":name(fd),"fd":ofd(fd),"off":off,"n":len,"mode":mode}));
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn fallocate64(fd: c_int, mode: c_int, off: i64, len: i64) -> c_int {
    do_fallocate(fd, mode, off, len)
}
#[no_mangle]
pub unsafe extern "C" fn fallocate(fd: c_int, mode: c_int, off: i64, len: i64) -> c_int {
    do_fallocate(fd, mode, off, len)
}
fn do_sync(fd: c_int, raw: impl Fn() -> c_int) -> c_int {
    let c = cls(fd);
    if c == NONE {
        return raw();
    }
    let Some(a) = me() else { return raw() };
    let (inj, _g) = inject(a, c, "sync");
    if let Inj::Errno(e) | Inj::Short(e) = inj {
        return fail(e) as c_int;
    }
    0 // nothing here depends on what survives the loss of power
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    do_sync(fd, || libc::syscall(libc::SYS_fsync, fd) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    do_sync(fd, || libc::syscall(libc::SYS_fdatasync, fd) as c_int)
}
fn fd_path(dirfd: c_int) -> Option<Vec<u8>> {
    let link = format!("/proc/self/fd/{}\0", dirfd);
    let mut buf = vec![0u8; 4096];
    let n = unsafe {
        libc::syscall(libc::SYS_readlinkat, libc::AT_FDCWD, link.as_ptr(), buf.as_mut_ptr(), buf.len())
    };
    if n <= 0 {
        return None;
    }
    buf.truncate(n as usize);
    Some(buf)
}
fn do_unlink(dirfd: c_int, path: *const c_char, flags: c_int) -> c_int {
    let raw = || unsafe { libc::syscall(libc::SYS_unlinkat, dirfd, path, flags) as c_int };
    let Some(a) = me() else { return raw() };
    let mut full = unsafe { bytes(path) }.to_vec();
    if dirfd != libc::AT_FDCWD && full.first() != Some(&b'/') {
        if let Some(mut p) = fd_path(dirfd) {
            p.push(b'/');
            p.extend(full);
            full = p;
        }
    }
    let (c, n) = classify(&full);
    if c == NONE {
        return raw();
    }
    let dir = flags & libc::AT_REMOVEDIR != 0;
    if c == V || c == S || c == D {
        gate(a, &format!("{} {}", if dir { "rmdir" } else { "unlink" }, n));
    }
    let (inj, _g) = inject(a, c, if dir { "rmdir" } else { "unlink" });
    if let Inj::Errno(e) | Inj::Short(e) = inj {
        return fail(e) as c_int;
    }
    let mut l = lk(&LOG);
    let r = raw();
    if r == 0 && (c == V || c == S || c == D) {
        l.push(json!({"e": if dir {"rmdir"} else {"unlink"},"a":a.name,"f":n}));
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    do_unlink(libc::AT_FDCWD, path, 0)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, path: *const c_char, flags: c_int) -> c_int {
    do_unlink(d, path, flags)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    do_unlink(libc::AT_FDCWD, path, libc::AT_REMOVEDIR)
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: c_uint) -> c_int {
    let raw = || libc::syscall(libc::SYS_mkdirat, libc::AT_FDCWD, path, mode) as c_int;
    let Some(a) = me() else { return raw() };
    let (c, n) = classify(bytes(path));
    if c != D {
        return raw();
    }
    gate(a, &format!("mkdir {}", n));
    let (inj, _g) = inject(a, c, "mkdir");
    if let Inj::Errno(e) | Inj::Short(e) = inj {
        return fail(e) as c_int;
    }
    let mut l = lk(&LOG);
    let r = raw();
    if r == 0 {
        l.push(json!({"e":"mkdir","a":a.name,"f":n}));
    }
    r
}

/// Directories are listed by name only here (removing whole directories goes through openat).
#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut libc::DIR {
    static REAL: AtomicU64 = AtomicU64::new(0);
    if REAL.load(Relaxed) == 0 {
        REAL.store(libc::dlsym(libc::RTLD_NEXT, c"opendir".as_ptr()) as u64, Relaxed);
    }
    let real: unsafe extern "C" fn(*const c_char) -> *mut libc::DIR = std::mem::transmute(REAL.load(Relaxed) as usize);
    if let Some(a) = me() {
        let (c, n) = classify(bytes(path));
        if c == D {
            gate(a, &format!("opendir {}", n));
        }
    }
    real(path)
}

// ---- SQLite's mutexes. A thread that stops while it holds one would stop others that have nothing to do with
// it. So after the end of a transaction (which is noticed deep inside SQLite) it stops when it next takes one.
type MutexFn = unsafe extern "C" fn(*mut c_void) -> c_int;
unsafe fn mutex_fn(cache: &AtomicU64, n: &std::ffi::CStr) -> MutexFn {
    let mut f = cache.load(Relaxed);
    if f == 0 {
        f = libc::dlsym(libc::RTLD_NEXT, n.as_ptr()) as u64;
        cache.store(f, Relaxed);
    }
    std::mem::transmute(f as usize)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_mutex_lock(m: *mut c_void) -> c_int {
    static REAL: AtomicU64 = AtomicU64::new(0);
    if MGATE.load(Relaxed) {
        let stop = HELD.try_with(|h| {
            let n = h.get();
            h.set(n + 1);
            if n != 0 {
                return 0;
            }
            if AFTER.replace(false) {
                1
            } else if VIEWED.replace(false) {
                2
            } else if BEGUN.replace(false) {
                3
            } else {
                0
            }
        });
        if let Ok(n @ 1..) = stop {
            if let Some(a) = me().filter(|a| n != 2 || (a.puncher && SGATE.load(Relaxed))) {
                gate(a, ["txend", "view", "txbegun"][n - 1]);
            }
        }
    }
    mutex_fn(&REAL, c"pthread_mutex_lock")(m)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_mutex_unlock(m: *mut c_void) -> c_int {
    static REAL: AtomicU64 = AtomicU64::new(0);
    if MGATE.load(Relaxed) {
        let _ = HELD.try_with(|h| h.set(h.get().saturating_sub(1)));
    }
    mutex_fn(&REAL, c"pthread_mutex_unlock")(m)
}

// ---- locks
fn lock_ev(a: &Actor, fd: c_int, t: &str, off: i64, len: i64, wait: bool, ok: bool, kind: &str) -> J {
    json!({"e":"lock","a":a.name,"f":name(fd),"fd":ofd(fd),"t":t,"off":off,"n":len,"wait":wait,"ok":ok,"k":kind})
}
fn do_fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    let r = do_fcntl1(fd, cmd, arg);
    if SGATE.load(Relaxed) && cls(fd) == V && matches!(cmd, libc::F_SETLK | libc::F_OFD_SETLK) {
        if unsafe { &*(arg as *const libc::flock64) }.l_type as c_int == libc::F_UNLCK {
            if let Some(a) = me().filter(|a| !a.puncher) {
                let e = unsafe { *libc::__errno_location() };
                gate(a, "unlocked");
                unsafe { *libc::__errno_location() = e };
            }
        }
    }
    r
}
fn do_fcntl1(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    let raw = |cmd: c_int| unsafe { libc::syscall(libc::SYS_fcntl, fd, cmd, arg) as c_int };
    let c = cls(fd);
    if c == NONE {
        return raw(cmd);
    }
    if cmd == libc::F_DUPFD || cmd == libc::F_DUPFD_CLOEXEC {
        let r = raw(cmd);
        track_dup(fd, r);
        return r;
    }
    let is_lock = matches!(
        cmd,
        libc::F_SETLK | libc::F_SETLKW | libc::F_OFD_SETLK | libc::F_OFD_SETLKW
    );
    if !is_lock {
        return raw(cmd);
    }
    let Some(a) = me() else { return raw(cmd) };
    let fl = unsafe { &*(arg as *const libc::flock64) };
    let t = match fl.l_type as c_int {
        libc::F_RDLCK => "r",
        libc::F_WRLCK => "w",
        _ => "u",
    };
    let wait = cmd == libc::F_SETLKW || cmd == libc::F_OFD_SETLKW;
    if c == V || c == S {
        gate(a, &format!("lock{} {} {}", t, if wait { "W" } else { "" }, name(fd)));
    } else {
        a.seq.fetch_add(1, SeqCst);
    }
    let (inj, _g) = inject(a, c, if t == "u" { "unlock" } else { "lock" });
    if let Inj::Errno(e) | Inj::Short(e) = inj {
        return fail(e) as c_int;
    }
    if c == H {
        let covers = fl.l_start <= 120 && (fl.l_len == 0 || fl.l_start + fl.l_len > 120);
        if covers && t == "w" {
            WRITES.set(true);
        } else if t == "u" && fl.l_start > 122 && !WRITES.replace(false) && !a.puncher && !SGATE.load(Relaxed) {
            AFTER.set(true);
        }
        if covers && t != "r" {
            let mut l = lk(&LOG);
            if t == "u" {
                if a.inlock.swap(false, SeqCst) {
                    l.push(json!({"e":"txe","a":a.name}));
                    BEGUN.set(false);
                    AFTER.set(true);
                }
                return raw(cmd);
            }
            let r = raw(cmd);
            if r == 0 {
                a.inlock.store(true, SeqCst);
                l.push(json!({"e":"txb","a":a.name}));
                if SGATE.load(Relaxed) {
                    BEGUN.set(true);
                }
            }
            return r;
        }
        if t == "u" && a.puncher && SGATE.load(Relaxed) && fl.l_start > 120 {
            VIEWED.set(true);
        }
        return raw(cmd);
    }
    if c != V && c != S {
        return raw(cmd);
    }
    let (off, len) = (fl.l_start, fl.l_len);
    {
        let mut l = lk(&LOG);
        let nb = match cmd {
            libc::F_SETLKW => libc::F_SETLK,
            libc::F_OFD_SETLKW => libc::F_OFD_SETLK,
            x => x,
        };
        let t0 = mono();
        let r = raw(nb);
        let again = r < 0 && matches!(unsafe { *libc::__errno_location() }, libc::EAGAIN | libc::EACCES);
        if !(wait && again) {
            let e = unsafe { *libc::__errno_location() };
            l.push_at(if t == "u" { t0 } else { mono() }, lock_ev(a, fd, t, off, len, wait, r == 0, "o"));
            unsafe { *libc::__errno_location() = e };
            return r;
        }
        l.push(json!({"e":"lockwait","a":a.name,"f":name(fd)}));
    }
    let r = raw(cmd);
    let e = unsafe { *libc::__errno_location() };
    log(lock_ev(a, fd, t, off, len, wait, r == 0, "o"));
    unsafe { *libc::__errno_location() = e };
    r
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    do_fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    do_fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    let raw = |op: c_int| libc::syscall(libc::SYS_flock, fd, op) as c_int;
    let c = cls(fd);
    if c != V && c != S {
        return raw(op);
    }
    let Some(a) = me() else { return raw(op) };
    let t = if op & libc::LOCK_UN != 0 {
        "u"
    } else if op & libc::LOCK_EX != 0 {
        "w"
    } else {
        "r"
    };
    let wait = op & libc::LOCK_NB == 0 && t != "u";
    gate(a, &format!("flock{} {} {}", t, if wait { "W" } else { "" }, name(fd)));
    let (inj, _g) = inject(a, c, "lock");
    if let Inj::Errno(e) | Inj::Short(e) = inj {
        return fail(e) as c_int;
    }
    {
        let mut l = lk(&LOG);
        let t0 = mono();
        let r = raw(op | libc::LOCK_NB);
        let e = *libc::__errno_location();
        if !(wait && r < 0 && e == libc::EWOULDBLOCK) {
            l.push_at(if t == "u" { t0 } else { mono() }, lock_ev(a, fd, t, 0, 0, wait, r == 0, "f"));
            *libc::__errno_location() = e;
            return r;
        }
        l.push(json!({"e":"lockwait","a":a.name,"f":name(fd)}));
    }
    let r = raw(op);
    let e = *libc::__errno_location();
    log(lock_ev(a, fd, t, 0, 0, wait, r == 0, "f"));
    *libc::__errno_location() = e;
    r
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: u64, arg: usize) -> c_int {
    let raw = || libc::syscall(libc::SYS_ioctl, fd, req, arg) as c_int;
    if req != FICLONE || !ACTIVE.load(Relaxed) {
        return raw();
    }
    let emulate = CLONE.load(Relaxed);
    let c = cls(fd);
    let src = arg as c_int;
    let act = me();
    if let (Some(a), true) = (act, c != NONE) {
        gate(a, &format!("clone {}", name(fd)));
        let (inj, _g) = inject(a, c, "clone");
        if let Inj::Errno(e) | Inj::Short(e) = inj {
            return fail(e) as c_int;
        }
    }
    if !emulate {
        return raw();
    }
    let mut l = lk(&LOG);
    let size = raw_size(src);
    let mut off = 0i64;
    let mut buf = vec![0u8; 1 << 16];
    libc::syscall(libc::SYS_ftruncate, fd, size);
    while off < size {
        let n = libc::syscall(libc::SYS_pread64, src, buf.as_mut_ptr(), buf.len(), off);
        if n <= 0 {
            break;
        }
        if buf[..n as usize].iter().any(|b| *b != 0) {
            libc::syscall(libc::SYS_pwrite64, fd, buf.as_ptr(), n, off);
        }
        off += n;
    }
    if let Some(a) = act {
        if c != NONE {
            l.push(json!({"e":"clone","a":a.name,"src":name(src),"f":name(fd),"fd":ofd(fd),"n":size,"c":cls_char(c).to_string()}));
        }
    }
    0
}

// ---- time
fn virtual_ms() -> Option<i64> {
    let p = ME.with(|m| m.get());
    if p.is_null() {
        return None;
    }
    let t = unsafe { (*p).now.load(Relaxed) };
    (t >= 0).then_some(BASE_MS + t)
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _tz: *mut c_void) -> c_int {
    if let Some(ms) = virtual_ms() {
        (*tv).tv_sec = ms / 1000;
        (*tv).tv_usec = (ms % 1000) * 1000 + 400; // not on a whole millisecond
        return 0;
    }
    libc::syscall(libc::SYS_gettimeofday, tv, std::ptr::null::<c_void>()) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut libc::timespec) -> c_int {
    if id == libc::CLOCK_REALTIME {
        if let Some(ms) = virtual_ms() {
            (*ts).tv_sec = ms / 1000;
            (*ts).tv_nsec = (ms % 1000) * 1_000_000 + 400_000;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, id, ts) as c_int
}
fn do_sleep(raw: impl Fn() -> c_int) -> c_int {
    if let Some(a) = me() {
        if GATING.load(SeqCst) {
            let was = a.free.swap(false, SeqCst);
            gate(a, "sleep");
            a.free.store(was, SeqCst);
            return 0;
        }
    }
    raw()
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    do_sleep(|| libc::syscall(libc::SYS_nanosleep, ts, rem) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    id: c_int,
    flags: c_int,
    ts: *const libc::timespec,
    rem: *mut libc::timespec,
) -> c_int {
    do_sleep(|| {
        let r = libc::syscall(libc::SYS_clock_nanosleep, id, flags, ts, rem) as c_int;
        if r < 0 {
            *libc::__errno_location()
        } else {
            0
        }
    })
}
#[no_mangle]
pub unsafe extern "C" fn usleep(us: c_uint) -> c_int {
    let ts = libc::timespec { tv_sec: (us / 1_000_000) as i64, tv_nsec: (us % 1_000_000) as i64 * 1000 };
    nanosleep(&ts, std::ptr::null_mut())
}

// ---- settling: wait until every thread is at a gate, idle, blocked in the kernel, or gone
fn task_state(tid: i32) -> Option<char> {
    let p = format!("/proc/self/task/{}/stat\0", tid);
    let mut buf = [0u8; 512];
    unsafe {
        let fd = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, p.as_ptr(), libc::O_RDONLY | libc::O_CLOEXEC, 0);
        if fd < 0 {
            return None;
        }
        let n = libc::syscall(libc::SYS_read, fd, buf.as_mut_ptr(), buf.len());
        libc::syscall(libc::SYS_close, fd);
        if n <= 0 {
            return None;
        }
        let s = &buf[..n as usize];
        let i = s.iter().rposition(|b| *b == b')')?;
        Some(s[i + 2] as char)
    }
}
/// Returns the names and states of all actors once nothing can move by itself. `None` on timeout.
pub fn settle(timeout: Duration) -> Result<Vec<(String, St)>, Vec<(String, St)>> {
    let t0 = Instant::now();
    let mut prev: HashMap<i32, (u64, u32)> = HashMap::new();
    loop {
        let actors: Vec<Arc<Actor>> = lk(&ACTORS).clone();
        let mut all = true;
        let mut out = vec![];
        for a in &actors {
            let st = lk(&a.st).clone();
            let st = match st {
                St::Running | St::Blocked => match task_state(a.tid) {
                    None | Some('Z') | Some('X') => {
                        *lk(&a.st) = St::Gone;
                        St::Gone
                    }
                    Some('S') => {
                        let seq = a.seq.load(SeqCst);
                        let e = prev.entry(a.tid).or_insert((seq, 0));
                        if e.0 == seq {
                            e.1 += 1;
                        } else {
                            *e = (seq, 1);
                        }
                        if e.1 >= 3 && !a.granted.load(SeqCst) {
                            St::Blocked
                        } else {
                            all = false;
                            St::Running
                        }
                    }
                    Some(_) => {
                        prev.remove(&a.tid);
                        all = false;
                        St::Running
                    }
                },
                x => x,
            };
            out.push((a.name.clone(), st));
        }
        if all {
            // nobody may have changed meanwhile
            let same = actors.iter().zip(&out).all(|(a, (_, s))| {
                let now = lk(&a.st).clone();
                now == *s || (*s == St::Blocked && now == St::Running)
            });
            if same && lk(&ACTORS).len() == actors.len() {
                lk(&ACTORS).retain(|a| *lk(&a.st) != St::Gone);
                return Ok(out);
            }
        }
        if t0.elapsed() > timeout {
            return Err(out);
        }
        let g = lk(&GM);
        let us = if t0.elapsed() < Duration::from_millis(2) { 30 } else { 200 };
        drop(CCV.wait_timeout(g, Duration::from_micros(us)));
    }
}
