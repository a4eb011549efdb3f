//! Interposition of the C library below rusty-git.
//!
//! The functions defined here take precedence over the ones of libc, also for the standard
//! library. For threads which have *armed* a context, every call which concerns a path below the
//! context's root (or a descriptor opened from there) is a *boundary*: it is logged, it can be
//! scheduled (see sched.rs), it can run a callback playing the environment, it can fail, be cut
//! short or interrupted, and it can be the point where the process dies. All other calls pass
//! through unchanged. Armed threads see a virtual clock.
//!
//! Nothing in /repo is changed for this, and no verdict depends on which calls are made.

use std::cell::Cell;
use std::collections::HashMap;
use std::ffi::CStr;
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::{Arc, Mutex};

use libc::{c_char, c_int, c_long, c_void, mode_t, off64_t, size_t, ssize_t};

use crate::rng::Rng;
use crate::sched::Sched;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Class {
    OpenRead,
    Create,
    Read,
    Seek,
    Stat,
    OpenDir,
    ReadDir,
    // mutating:
    Mkdir,
    Write,
    Rename,
    Link,
    Unlink,
    SetTime,
    OtherMut,
    Sync,
}

impl Class {
    pub fn mutates(self) -> bool {
        use Class::*;
        matches!(
            self,
            Create | Mkdir | Write | Rename | Link | Unlink | SetTime | OtherMut
        )
    }
    pub fn name(self) -> &'static str {
        use Class::*;
        match self {
            OpenRead => "open",
            Create => "create",
            Read => "read",
            Seek => "seek",
            Stat => "stat",
            OpenDir => "opendir",
            ReadDir => "readdir",
            Mkdir => "mkdir",
            Write => "write",
            Rename => "rename",
            Link => "link",
            Unlink => "unlink",
            SetTime => "settime",
            OtherMut => "other",
            Sync => "sync",
        }
    }
}

#[derive(Clone, Debug)]
pub struct Op {
    pub class: Class,
    pub path: String,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    /// The call fails with this errno and has no effect
    Errno(i32),
    /// A write stores only a part; the following write fails with this errno
    PartialThenErrno(i32),
    /// The process dies before the call takes effect
    Crash,
    /// The process dies after a write stored only a part
    CrashPartial,
}

/// No call of the library needs that many file operations (it tries again and again)
const MANY: usize = 1_000_000;

#[derive(Default)]
pub struct Ctx {
    pub root: String,
    pub tid: usize,
    pub sched: Option<Arc<Sched>>,
    pub log: Vec<Op>,
    /// Calls concerning paths outside the root
    pub outside: Vec<Op>,
    /// Every path as it was given to a call, made absolute
    pub raw: Vec<Op>,
    /// Boundaries counted for faults
    pub count: usize,
    pub fault_at: Option<(usize, Fault)>,
    /// Only boundaries of these classes are counted (empty: all)
    pub fault_classes: Vec<Class>,
    pub fault_hit: Option<Op>,
    pub fail_next_write: Option<i32>,
    /// When it is set (by another thread), the next boundary fails with this errno
    pub fail_flag: Option<Arc<std::sync::atomic::AtomicI32>>,
    pub seg: Option<Seg>,
    /// What happens to a read call, given how many bytes are asked for: how many are delivered, or an errno
    pub chunk: Option<Box<dyn FnMut(usize) -> Result<usize, i32>>>,
    /// Which calls fail
    pub fail: Option<Box<dyn FnMut(&Op) -> Option<i32>>>,
    /// Directory entries come without a type, as some file systems have it
    pub no_dtype: bool,
    pub on_boundary: Option<Box<dyn FnMut(usize, &Op)>>,
    pub boundaries: usize,
}

/// Segmentation of reads: each read delivers at least one byte, at most what was asked for.
pub struct Seg {
    pub rng: Rng,
    pub eintr_pct: usize,
    pub max: usize,
    pub reads: usize,
    pub interrupted: usize,
}

thread_local! {
    static CTX: Cell<*mut Ctx> = const { Cell::new(std::ptr::null_mut()) };
    static IN_HOOK: Cell<bool> = const { Cell::new(false) };
}

static FDS: Mutex<Option<HashMap<c_int, String>>> = Mutex::new(None);
static CLOCK_NS: AtomicI64 = AtomicI64::new(0);

/// Run `f` with the context armed; returns the context afterwards.
pub fn armed<T>(mut ctx: Box<Ctx>, f: impl FnOnce() -> T) -> (T, Box<Ctx>) {
    struct Disarm(*mut Ctx);
    impl Drop for Disarm {
        fn drop(&mut self) {
            CTX.with(|c| c.set(self.0));
        }
    }
    let old = CTX.with(|c| c.get());
    CTX.with(|c| c.set(&mut *ctx));
    let guard = Disarm(old);
    let r = f();
    drop(guard);
    (r, ctx)
}

/// Where libraries look for the number of processors
pub fn of_kernel(path: &str) -> bool {
    path.starts_with("/proc/") || path.starts_with("/sys/")
}

/// The virtual clock of armed threads, in nanoseconds since the start.
pub fn advance_clock(ms: i64) {
    CLOCK_NS.fetch_add(ms * 1_000_000, Ordering::SeqCst);
}

/// The virtual clock starts with the kernel's, which sets the times of files.
fn epoch() -> i64 {
    static EPOCH: AtomicI64 = AtomicI64::new(0);
    let was = EPOCH.load(Ordering::SeqCst);
    if was != 0 {
        return was;
    }
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { raw(libc::SYS_clock_gettime, libc::CLOCK_REALTIME as c_long, &mut ts as *mut _ as c_long, 0, 0, 0, 0) };
    let _ = EPOCH.compare_exchange(0, ts.tv_sec, Ordering::SeqCst, Ordering::SeqCst);
    EPOCH.load(Ordering::SeqCst)
}

/// What armed threads take for the time, in seconds
pub fn now() -> i64 {
    epoch() + CLOCK_NS.load(Ordering::SeqCst) / 1_000_000_000
}

fn ctx() -> Option<&'static mut Ctx> {
    if IN_HOOK.with(|h| h.get()) {
        return None;
    }
    let p = CTX.with(|c| c.get());
    if p.is_null() {
        None
    } else {
        Some(unsafe { &mut *p })
    }
}

struct Hook;
impl Hook {
    fn enter() -> Hook {
        IN_HOOK.with(|h| h.set(true));
        Hook
    }
}
impl Drop for Hook {
    fn drop(&mut self) {
        IN_HOOK.with(|h| h.set(false));
    }
}

enum Verdict {
    Pass,
    Fail(i32),
    Partial,
    PartialCrash,
}

fn below(root: &str, path: &str) -> bool {
    path.starts_with(root) && (path.len() == root.len() || path.as_bytes()[root.len()] == b'/')
}

fn boundary(c: &mut Ctx, class: Class, path: &str) -> Verdict {
    let _h = Hook::enter();
    let op = Op {
        class,
        path: path.strip_prefix(&*c.root).unwrap_or(path).trim_start_matches('/').to_string(),
    };
    if let Some(s) = c.sched.clone() {
        s.park(c.tid, &op);
    }
    c.log.push(op.clone());
    let n = c.boundaries;
    c.boundaries += 1;
    if n > MANY {
        crate::io::hang();
    }
    if let Some(mut f) = c.on_boundary.take() {
        // The environment acts as itself: its calls are not boundaries.
        let me = CTX.with(|x| x.replace(std::ptr::null_mut()));
        f(n, &op);
        CTX.with(|x| x.set(me));
        c.on_boundary = Some(f);
    }
    if let Some(f) = &mut c.fail {
        if let Some(e) = f(&op) {
            c.fault_hit = Some(op);
            return Verdict::Fail(e);
        }
    }
    if let Some(f) = &c.fail_flag {
        let e = f.swap(0, Ordering::SeqCst);
        if e != 0 {
            c.fault_hit = Some(op);
            return Verdict::Fail(e);
        }
    }
    if class == Class::Write {
        if let Some(e) = c.fail_next_write.take() {
            return Verdict::Fail(e);
        }
    }
    if c.fault_classes.is_empty() || c.fault_classes.contains(&class) {
        let k = c.count;
        c.count += 1;
        if let Some((at, fault)) = c.fault_at {
            if at == k {
                c.fault_hit = Some(op);
                return match fault {
                    Fault::Errno(e) => Verdict::Fail(e),
                    Fault::Crash => unsafe { libc::_exit(42) },
                    Fault::CrashPartial if class == Class::Write => Verdict::PartialCrash,
                    Fault::CrashPartial => unsafe { libc::_exit(42) },
                    Fault::PartialThenErrno(e) if class == Class::Write => {
                        c.fail_next_write = Some(e);
                        Verdict::Partial
                    }
                    Fault::PartialThenErrno(e) => Verdict::Fail(e),
                };
            }
        }
    }
    Verdict::Pass
}

fn fd_path(fd: c_int) -> Option<String> {
    let _h = Hook::enter();
    FDS.lock().unwrap().as_ref().and_then(|m| m.get(&fd).cloned())
}

fn set_fd(fd: c_int, path: &str) {
    let _h = Hook::enter();
    FDS.lock()
        .unwrap()
        .get_or_insert_with(HashMap::new)
        .insert(fd, path.to_string());
}

unsafe fn set_errno(e: c_int) {
    *libc::__errno_location() = e;
}

unsafe fn cpath(p: *const c_char) -> String {
    let s = String::from_utf8_lossy(CStr::from_ptr(p).to_bytes()).into_owned();
    if s.starts_with('/') {
        return s;
    }
    let mut buf = [0u8; 4096];
    let n = raw(libc::SYS_getcwd, buf.as_mut_ptr() as c_long, 4096, 0, 0, 0, 0);
    let cwd = String::from_utf8_lossy(&buf[..(n.max(1) - 1) as usize]).into_owned();
    if s.is_empty() || s == "." {
        cwd
    } else {
        format!("{}/{}", cwd, s)
    }
}

#[inline]
unsafe fn raw(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let r: c_long;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

unsafe fn ret(r: c_long) -> c_long {
    if (-4095..0).contains(&r) {
        set_errno(-r as c_int);
        -1
    } else {
        r
    }
}

macro_rules! sys {
    ($n:expr) => { ret(raw($n, 0, 0, 0, 0, 0, 0)) };
    ($n:expr, $a:expr) => { ret(raw($n, $a as c_long, 0, 0, 0, 0, 0)) };
    ($n:expr, $a:expr, $b:expr) => { ret(raw($n, $a as c_long, $b as c_long, 0, 0, 0, 0)) };
    ($n:expr, $a:expr, $b:expr, $c:expr) => { ret(raw($n, $a as c_long, $b as c_long, $c as c_long, 0, 0, 0)) };
    ($n:expr, $a:expr, $b:expr, $c:expr, $d:expr) => { ret(raw($n, $a as c_long, $b as c_long, $c as c_long, $d as c_long, 0, 0)) };
    ($n:expr, $a:expr, $b:expr, $c:expr, $d:expr, $e:expr) => { ret(raw($n, $a as c_long, $b as c_long, $c as c_long, $d as c_long, $e as c_long, 0)) };
    ($n:expr, $a:expr, $b:expr, $c:expr, $d:expr, $e:expr, $f:expr) => { ret(raw($n, $a as c_long, $b as c_long, $c as c_long, $d as c_long, $e as c_long, $f as c_long)) };
}

/// Common part of calls which take a path.
unsafe fn on_path(class: Class, path: *const c_char, f: impl FnOnce() -> c_long) -> c_long {
    if let Some(c) = ctx() {
        let p = cpath(path);
        {
            let _h = Hook::enter();
            c.raw.push(Op { class, path: p.clone() });
        }
        if below(&c.root, &p) {
            if let Verdict::Fail(e) = boundary(c, class, &p) {
                // A name which isn't there is never in the way: publishing by `link` may rely on it
                let absent = raw(libc::SYS_faccessat, libc::AT_FDCWD as c_long, path as c_long, libc::F_OK as c_long, 0, 0, 0) < 0;
                let lie = e == libc::EEXIST && matches!(class, Class::Link | Class::Rename) && absent;
                set_errno(if lie { libc::EIO } else { e });
                return -1;
            }
        } else {
            let _h = Hook::enter();
            if !of_kernel(&p) {
                c.outside.push(Op { class, path: p });
            }
        }
    }
    f()
}

unsafe fn on_fd(class: Class, fd: c_int, f: impl FnOnce() -> c_long) -> c_long {
    if let Some(c) = ctx() {
        if let Some(p) = fd_path(fd) {
            if let Verdict::Fail(e) = boundary(c, class, &p) {
                set_errno(e);
                return -1;
            }
        }
    }
    f()
}

unsafe fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let class = if flags & (libc::O_CREAT | libc::O_TRUNC) != 0 || flags & libc::O_ACCMODE != libc::O_RDONLY {
        Class::Create
    } else if flags & libc::O_DIRECTORY != 0 {
        Class::OpenDir
    } else {
        Class::OpenRead
    };
    let fd = on_path(class, path, || sys!(libc::SYS_openat, dirfd, path, flags, mode)) as c_int;
    if fd >= 0 {
        if let Some(c) = ctx() {
            let p = cpath(path);
            if below(&c.root, &p) {
                set_fd(fd, &p);
            }
        }
    }
    fd
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(fd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(fd, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(fd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(fd, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if ctx().is_some() {
        let _h = Hook::enter();
        if let Some(m) = FDS.lock().unwrap().as_mut() {
            m.remove(&fd);
        }
    }
    sys!(libc::SYS_close, fd) as c_int
}

unsafe fn seg_len(n: size_t) -> Result<size_t, c_int> {
    if let Some(c) = ctx() {
        if let Some(f) = &mut c.chunk {
            let _h = Hook::enter();
            return f(n).map(|m| m.max(1).min(n));
        }
        if let Some(s) = &mut c.seg {
            s.reads += 1;
            if s.rng.pct(s.eintr_pct) {
                s.interrupted += 1;
                return Err(libc::EINTR);
            }
            if n > 1 {
                let m = s.max.min(n);
                return Ok(1 + s.rng.below(m));
            }
        }
    }
    Ok(n)
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    let mut n = n;
    if ctx().is_some() && fd_path(fd).is_some() {
        match seg_len(n) {
            Ok(m) => n = m,
            Err(e) => {
                set_errno(e);
                return -1;
            }
        }
    }
    on_fd(Class::Read, fd, || sys!(libc::SYS_read, fd, buf, n)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if ctx().is_some() && fd_path(fd).is_some() {
        for i in 0..n as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return read(fd, v.iov_base, v.iov_len);
            }
        }
    }
    sys!(libc::SYS_readv, fd, iov, n) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    let mut n = n;
    if ctx().is_some() && fd_path(fd).is_some() {
        match seg_len(n) {
            Ok(m) => n = m,
            Err(e) => {
                set_errno(e);
                return -1;
            }
        }
    }
    on_fd(Class::Read, fd, || sys!(libc::SYS_pread64, fd, buf, n, off)) as ssize_t
}

unsafe fn do_write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if let Some(c) = ctx() {
        if let Some(p) = fd_path(fd) {
            match boundary(c, Class::Write, &p) {
                Verdict::Fail(e) => {
                    set_errno(e);
                    return -1;
                }
                Verdict::Partial => return sys!(libc::SYS_write, fd, buf, n.div_ceil(2)) as ssize_t,
                Verdict::PartialCrash => {
                    sys!(libc::SYS_write, fd, buf, n / 2);
                    libc::_exit(42)
                }
                Verdict::Pass => (),
            }
        }
    }
    sys!(libc::SYS_write, fd, buf, n) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    do_write(fd, buf, n)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    on_fd(Class::Write, fd, || sys!(libc::SYS_pwrite64, fd, buf, n, off)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    on_fd(Class::Write, fd, || sys!(libc::SYS_writev, fd, iov, n)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    on_fd(Class::Seek, fd, || sys!(libc::SYS_lseek, fd, off, whence))
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    on_fd(Class::OtherMut, fd, || sys!(libc::SYS_ftruncate, fd, len)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    on_fd(Class::Sync, fd, || sys!(libc::SYS_fsync, fd)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    on_fd(Class::Sync, fd, || sys!(libc::SYS_fdatasync, fd)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: mode_t) -> c_int {
    on_fd(Class::OtherMut, fd, || sys!(libc::SYS_fchmod, fd, mode)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(path: *const c_char, mode: mode_t) -> c_int {
    on_path(Class::OtherMut, path, || sys!(libc::SYS_chmod, path, mode)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn truncate64(path: *const c_char, len: off64_t) -> c_int {
    on_path(Class::OtherMut, path, || sys!(libc::SYS_truncate, path, len)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    on_path(Class::Mkdir, path, || sys!(libc::SYS_mkdir, path, mode)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    on_path(Class::Rename, b, || sys!(libc::SYS_rename, a, b)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn renameat(da: c_int, a: *const c_char, db: c_int, b: *const c_char) -> c_int {
    on_path(Class::Rename, b, || sys!(libc::SYS_renameat, da, a, db, b)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(da: c_int, a: *const c_char, db: c_int, b: *const c_char, flags: libc::c_uint) -> c_int {
    on_path(Class::Rename, b, || sys!(libc::SYS_renameat2, da, a, db, b, flags)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, oa: *mut off64_t, b: c_int, ob: *mut off64_t, n: size_t, flags: libc::c_uint) -> ssize_t {
    on_fd(Class::Write, b, || sys!(libc::SYS_copy_file_range, a, oa, b, ob, n, flags)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(b: c_int, a: c_int, off: *mut off64_t, n: size_t) -> ssize_t {
    on_fd(Class::Write, b, || sys!(libc::SYS_sendfile, b, a, off, n)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    on_path(Class::Link, b, || sys!(libc::SYS_link, a, b)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn linkat(fa: c_int, a: *const c_char, fb: c_int, b: *const c_char, fl: c_int) -> c_int {
    on_path(Class::Link, b, || sys!(libc::SYS_linkat, fa, a, fb, b, fl)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    on_path(Class::Link, b, || sys!(libc::SYS_symlink, a, b)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    on_path(Class::Unlink, path, || sys!(libc::SYS_unlink, path)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(fd: c_int, path: *const c_char, flags: c_int) -> c_int {
    on_path(Class::Unlink, path, || sys!(libc::SYS_unlinkat, fd, path, flags)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    on_path(Class::Unlink, path, || sys!(libc::SYS_rmdir, path)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, times: *const libc::timespec) -> c_int {
    on_fd(Class::SetTime, fd, || sys!(libc::SYS_utimensat, fd, 0, times, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn utimensat(fd: c_int, path: *const c_char, times: *const libc::timespec, fl: c_int) -> c_int {
    if path.is_null() {
        return futimens(fd, times);
    }
    on_path(Class::SetTime, path, || sys!(libc::SYS_utimensat, fd, path, times, fl)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn utimes(path: *const c_char, times: *const libc::timeval) -> c_int {
    on_path(Class::SetTime, path, || sys!(libc::SYS_utimes, path, times)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    on_path(Class::Stat, path, || sys!(libc::SYS_access, path, mode)) as c_int
}

unsafe fn stat_path(path: *const c_char, f: impl FnOnce() -> c_long) -> c_int {
    on_path(Class::Stat, path, f) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    stat_path(path, || sys!(libc::SYS_newfstatat, libc::AT_FDCWD, path, st, 0))
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    stat_path(path, || sys!(libc::SYS_newfstatat, libc::AT_FDCWD, path, st, libc::AT_SYMLINK_NOFOLLOW))
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(fd: c_int, path: *const c_char, st: *mut libc::stat64, fl: c_int) -> c_int {
    stat_path(path, || sys!(libc::SYS_newfstatat, fd, path, st, fl))
}
#[no_mangle]
pub unsafe extern "C" fn statx(fd: c_int, path: *const c_char, fl: c_int, mask: libc::c_uint, st: *mut libc::statx) -> c_int {
    // A null or empty path means the descriptor itself: not a boundary.
    if path.is_null() || *path == 0 {
        return sys!(libc::SYS_statx, fd, path, fl, mask, st) as c_int;
    }
    stat_path(path, || sys!(libc::SYS_statx, fd, path, fl, mask, st))
}

unsafe fn next(name: &CStr) -> *mut c_void {
    libc::dlsym(libc::RTLD_NEXT, name.as_ptr())
}

static DIRS: Mutex<Option<HashMap<usize, String>>> = Mutex::new(None);

#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut libc::DIR {
    let f: unsafe extern "C" fn(*const c_char) -> *mut libc::DIR = std::mem::transmute(next(c"opendir"));
    let mut d = std::ptr::null_mut();
    let r = on_path(Class::OpenDir, path, || {
        d = f(path);
        0
    });
    if r < 0 {
        return std::ptr::null_mut();
    }
    if !d.is_null() {
        if let Some(c) = ctx() {
            let p = cpath(path);
            if below(&c.root, &p) {
                let _h = Hook::enter();
                DIRS.lock().unwrap().get_or_insert_with(HashMap::new).insert(d as usize, p);
            }
        }
    }
    d
}

#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    let f: unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64 = std::mem::transmute(next(c"readdir64"));
    if let Some(c) = ctx() {
        let path = {
            let _h = Hook::enter();
            DIRS.lock().unwrap().as_ref().and_then(|m| m.get(&(d as usize)).cloned())
        };
        if let Some(p) = path {
            if let Verdict::Fail(e) = boundary(c, Class::ReadDir, &p) {
                set_errno(e);
                return std::ptr::null_mut();
            }
            set_errno(0);
            let e = f(d);
            if c.no_dtype && !e.is_null() {
                (*e).d_type = libc::DT_UNKNOWN;
            }
            return e;
        }
    }
    f(d)
}

#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> c_int {
    let f: unsafe extern "C" fn(*mut libc::DIR) -> c_int = std::mem::transmute(next(c"closedir"));
    if ctx().is_some() {
        let _h = Hook::enter();
        if let Some(m) = DIRS.lock().unwrap().as_mut() {
            m.remove(&(d as usize));
        }
    }
    f(d)
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if ctx().is_some() {
        let ns = CLOCK_NS.load(Ordering::SeqCst);
        let base: i64 = if clk == libc::CLOCK_REALTIME { epoch() } else { 100_000 };
        (*ts).tv_sec = base + ns / 1_000_000_000;
        (*ts).tv_nsec = ns % 1_000_000_000;
        return 0;
    }
    sys!(libc::SYS_clock_gettime, clk, ts) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == libc::SYS_futex {
        let op = b as c_int & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
        if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
            if let Some(cx) = ctx() {
                if let Some(s) = cx.sched.clone() {
                    {
                        let _h = Hook::enter();
                        s.set_blocked(cx.tid, true);
                    }
                    let r = raw(n, a, b, c, d, e, f);
                    {
                        let _h = Hook::enter();
                        s.set_blocked(cx.tid, false);
                    }
                    return ret(r);
                }
            }
        }
    }
    match n {
        libc::SYS_copy_file_range => on_fd(Class::Write, c as c_int, || ret(raw(n, a, b, c, d, e, f))),
        libc::SYS_sendfile => on_fd(Class::Write, a as c_int, || ret(raw(n, a, b, c, d, e, f))),
        libc::SYS_renameat2 => on_path(Class::Rename, d as *const c_char, || ret(raw(n, a, b, c, d, e, f))),
        _ => ret(raw(n, a, b, c, d, e, f)),
    }
}

/// The process id armed threads see (0: the real one). A later process may have the number of one that died.
pub static FAKE_PID: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(0);

#[no_mangle]
pub unsafe extern "C" fn getpid() -> libc::pid_t {
    let p = FAKE_PID.load(Ordering::SeqCst);
    if ctx().is_some() && p != 0 {
        return p;
    }
    sys!(libc::SYS_getpid) as libc::pid_t
}
