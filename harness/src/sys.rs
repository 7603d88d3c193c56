//! System calls of this process on files, with a per-thread plan of faults in front of them.
//! The strong definitions below replace the C library's symbols in this executable.
use std::cell::{Cell, RefCell};
use std::ffi::CString;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Plan {
    /// no byte at this position or beyond can be written
    Limit(u64),
    /// at most so many bytes per write
    Short(usize),
    /// the n-th write fails
    Nth(u64, i32),
    /// the n-th write and all later ones fail
    From(u64, i32),
    /// the n-th write writes nothing, without an error
    Zero(u64),
    /// the n-th write writes only half of its bytes, the next one fails
    HalfThenFail(u64, i32),
    /// the n-th write writes only a part of its bytes
    Part(u64),
    /// the n-th seek (or truncation, or synchronisation) fails
    SeekFail(u64, i32),
    /// the process dies in the n-th write, of which so many eighths are written;
    /// nothing reaches the file afterwards
    Die(u64, u8),
    /// the bytes from the first position up to the second are not stored: the file is sparse
    /// there, and must be written with zeros (`skipped_other`)
    Skip(u64, u64),
    /// calls are only counted
    Count,
}

/// Faults while reading; events are reads of at least one byte, seeks and stats, in order.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RPlan {
    /// at most so many bytes per read
    Short(usize),
    /// the n-th event, if it is a read, returns so many eighths of what it could
    ShortAt(u64, u8),
    /// the n-th event fails
    Fail(u64, i32),
    /// the n-th event and all later ones fail
    From(u64, i32),
    /// just before the n-th event the file gets this length
    Resize(u64, u64),
    /// the n-th event, if it is a read, is interrupted; otherwise nothing happens
    Eintr(u64),
    /// the n-th event, if it is a read, sees the end of the file
    Eof(u64),
    /// just before the n-th event another file is moved over the path
    Swap(u64),
    Count,
}

thread_local! {
    static PLAN: Cell<Option<Plan>> = const { Cell::new(None) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static SEEKS: Cell<u64> = const { Cell::new(0) };
    static OTHER: Cell<bool> = const { Cell::new(false) };
    static DEAD: Cell<bool> = const { Cell::new(false) };
    static RPLAN: Cell<Option<RPlan>> = const { Cell::new(None) };
    static EVENTS: Cell<u64> = const { Cell::new(0) };
    static SWAP: RefCell<Option<(CString, CString)>> = const { RefCell::new(None) };
}

pub fn write_calls() -> u64 {
    CALLS.with(|c| c.get())
}

pub fn seek_calls() -> u64 {
    SEEKS.with(|c| c.get())
}

pub fn events() -> u64 {
    EVENTS.with(|c| c.get())
}

/// Whether something else than zeros was written in the range of `Plan::Skip`.
pub fn skipped_other() -> bool {
    OTHER.with(|c| c.get())
}

/// Whether the planned death has happened.
pub fn dead() -> bool {
    DEAD.with(|c| c.get())
}

pub struct PlanGuard;

impl PlanGuard {
    pub fn set(p: Plan) -> PlanGuard {
        CALLS.with(|c| c.set(0));
        SEEKS.with(|c| c.set(0));
        DEAD.with(|c| c.set(false));
        OTHER.with(|c| c.set(false));
        PLAN.with(|x| x.set(Some(p)));
        PlanGuard
    }
}

impl Drop for PlanGuard {
    fn drop(&mut self) {
        let _ = PLAN.try_with(|x| x.set(None));
        let _ = DEAD.try_with(|c| c.set(false));
    }
}

pub struct RGuard;

impl RGuard {
    pub fn set(p: RPlan) -> RGuard {
        EVENTS.with(|c| c.set(0));
        RPLAN.with(|x| x.set(Some(p)));
        RGuard
    }
    /// `from` is moved over `to` at the planned event.
    pub fn swap(at: u64, from: &std::path::Path, to: &std::path::Path) -> RGuard {
        use std::os::unix::ffi::OsStrExt;
        let c = |p: &std::path::Path| CString::new(p.as_os_str().as_bytes()).unwrap();
        SWAP.with(|s| *s.borrow_mut() = Some((c(from), c(to))));
        RGuard::set(RPlan::Swap(at))
    }
    /// The file gets the length `n` at the planned event.
    pub fn resize(at: u64, n: u64, p: &std::path::Path) -> RGuard {
        let mut g = RGuard::swap(at, p, p);
        g.again(RPlan::Resize(at, n));
        g
    }
    fn again(&mut self, p: RPlan) {
        RPLAN.with(|x| x.set(Some(p)));
    }
}

impl Drop for RGuard {
    fn drop(&mut self) {
        let _ = RPLAN.try_with(|x| x.set(None));
        let _ = SWAP.try_with(|s| *s.borrow_mut() = None);
    }
}

enum Do {
    /// so many bytes
    Write(usize),
    /// so many bytes of the file, and the call pretends that all were written
    Pretend(usize),
    /// the call says that so many bytes were written, without writing them
    Skip(usize),
    Fail(i32),
}

fn decide(buf: *const libc::c_void, n: usize, pos: impl Fn() -> i64) -> Do {
    let plan = match PLAN.try_with(|p| p.get()) {
        Ok(Some(p)) => p,
        _ => return Do::Write(n),
    };
    if n == 0 {
        return Do::Write(0);
    }
    let k = CALLS.with(|c| {
        let k = c.get();
        c.set(k + 1);
        k
    });
    match plan {
        Plan::Limit(l) => {
            let p = pos();
            if p < 0 {
                return Do::Write(n);
            }
            if p as u64 >= l {
                return Do::Fail(libc::ENOSPC);
            }
            Do::Write(n.min((l - p as u64) as usize))
        }
        Plan::Skip(a, b) => {
            let p = pos().max(0) as u64;
            if p < a {
                return Do::Write(n.min((a - p) as usize));
            }
            if p >= b {
                return Do::Write(n);
            }
            let m = n.min((b - p) as usize);
            let b = unsafe { std::slice::from_raw_parts(buf as *const u8, m) };
            if m > 0 && (b[0] != 0 || b[1..] != b[..m - 1]) {
                OTHER.with(|o| o.set(true));
            }
            Do::Skip(m)
        }
        Plan::Short(m) => Do::Write(n.min(m)),
        Plan::Nth(i, e) if k == i => Do::Fail(e),
        Plan::From(i, e) if k >= i => Do::Fail(e),
        Plan::Zero(i) if k == i => Do::Skip(0),
        Plan::HalfThenFail(i, _) if k == i => Do::Write((n / 2).max(1)),
        Plan::HalfThenFail(i, e) if k == i + 1 => Do::Fail(e),
        Plan::Part(i) if k == i => Do::Write((n - n / 3).max(1)),
        Plan::Die(i, part) if k >= i => {
            DEAD.with(|d| d.set(true));
            if k == i {
                Do::Pretend(n * (part.min(7) as usize) / 8)
            } else {
                Do::Pretend(0)
            }
        }
        _ => Do::Write(n),
    }
}

enum Ev {
    Go,
    Max(usize),
    Fail(i32),
}

fn event(read: bool, n: usize) -> Ev {
    let plan = match RPLAN.try_with(|p| p.get()) {
        Ok(Some(p)) => p,
        _ => return Ev::Go,
    };
    let k = EVENTS.with(|c| {
        let k = c.get();
        c.set(k + 1);
        k
    });
    match plan {
        RPlan::Short(m) if read => Ev::Max(n.min(m)),
        RPlan::ShortAt(i, p) if read && k == i => Ev::Max((n * (p.min(7) as usize) / 8).max(1)),
        RPlan::Eof(i) if read && k == i => Ev::Max(0),
        RPlan::Eintr(i) if read && k == i => Ev::Fail(libc::EINTR),
        RPlan::Fail(i, e) if k == i => Ev::Fail(e),
        RPlan::From(i, e) if k >= i => Ev::Fail(e),
        RPlan::Resize(i, n) if k == i => {
            SWAP.with(|s| {
                if let Some((p, _)) = s.borrow_mut().take() {
                    unsafe {
                        libc::syscall(libc::SYS_truncate, p.as_ptr(), n);
                    }
                }
            });
            Ev::Go
        }
        RPlan::Swap(i) if k == i => {
            SWAP.with(|s| {
                if let Some((from, to)) = s.borrow_mut().take() {
                    unsafe {
                        libc::syscall(libc::SYS_rename, from.as_ptr(), to.as_ptr());
                    }
                }
            });
            Ev::Go
        }
        _ => Ev::Go,
    }
}

unsafe fn fail(e: i32) -> libc::ssize_t {
    *libc::__errno_location() = e;
    -1
}

unsafe fn raw_seek(fd: libc::c_int, off: i64, whence: libc::c_int) -> i64 {
    libc::syscall(libc::SYS_lseek, fd as libc::c_long, off as libc::c_long, whence as libc::c_long) as i64
}

unsafe fn cur(fd: libc::c_int) -> i64 {
    raw_seek(fd, 0, libc::SEEK_CUR)
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: libc::c_int, buf: *const libc::c_void, n: libc::size_t) -> libc::ssize_t {
    match decide(buf, n, || cur(fd)) {
        Do::Write(n) => libc::syscall(libc::SYS_write, fd as libc::c_long, buf, n) as libc::ssize_t,
        Do::Pretend(m) => {
            let mut done = 0usize;
            while done < m {
                let k = libc::syscall(libc::SYS_write, fd as libc::c_long, (buf as *const u8).add(done), m - done);
                if k <= 0 {
                    break;
                }
                done += k as usize;
            }
            raw_seek(fd, (n - done) as i64, libc::SEEK_CUR);
            n as libc::ssize_t
        }
        Do::Skip(m) => {
            raw_seek(fd, m as i64, libc::SEEK_CUR);
            m as libc::ssize_t
        }
        Do::Fail(e) => fail(e),
    }
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: libc::c_int, iov: *const libc::iovec, cnt: libc::c_int) -> libc::ssize_t {
    let planned = PLAN.try_with(|p| p.get().is_some()).unwrap_or(false);
    if !planned {
        return libc::syscall(libc::SYS_writev, fd as libc::c_long, iov, cnt as libc::c_long) as libc::ssize_t;
    }
    for i in 0..cnt as usize {
        let v = &*iov.add(i);
        if v.iov_len > 0 {
            return write(fd, v.iov_base, v.iov_len);
        }
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(
    fd: libc::c_int,
    buf: *const libc::c_void,
    n: libc::size_t,
    off: libc::off64_t,
) -> libc::ssize_t {
    match decide(buf, n, || off) {
        Do::Write(n) => libc::syscall(libc::SYS_pwrite64, fd as libc::c_long, buf, n, off) as libc::ssize_t,
        Do::Pretend(m) => {
            if m > 0 {
                libc::syscall(libc::SYS_pwrite64, fd as libc::c_long, buf, m, off);
            }
            n as libc::ssize_t
        }
        Do::Skip(m) => m as libc::ssize_t,
        Do::Fail(e) => fail(e),
    }
}

#[no_mangle]
pub unsafe extern "C" fn pwrite(
    fd: libc::c_int,
    buf: *const libc::c_void,
    n: libc::size_t,
    off: libc::off_t,
) -> libc::ssize_t {
    pwrite64(fd, buf, n, off)
}

/// Counts a seek, and tells whether it is to fail.
fn seek_fault() -> Option<i32> {
    let p = PLAN.try_with(|p| p.get()).ok()??;
    let k = SEEKS.with(|c| {
        let k = c.get();
        c.set(k + 1);
        k
    });
    match p {
        Plan::SeekFail(i, e) if i == k => Some(e),
        _ => None,
    }
}

#[no_mangle]
pub unsafe extern "C" fn fsync(fd: libc::c_int) -> libc::c_int {
    match seek_fault() {
        Some(e) => fail(e) as libc::c_int,
        None => libc::syscall(libc::SYS_fsync, fd as libc::c_long) as libc::c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: libc::c_int) -> libc::c_int {
    match seek_fault() {
        Some(e) => fail(e) as libc::c_int,
        None => libc::syscall(libc::SYS_fdatasync, fd as libc::c_long) as libc::c_int,
    }
}

fn is_dead() -> bool {
    DEAD.try_with(|d| d.get()).unwrap_or(false)
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: libc::c_int, len: libc::off64_t) -> libc::c_int {
    if is_dead() {
        return 0;
    }
    if let Some(e) = seek_fault() {
        return fail(e) as libc::c_int;
    }
    libc::syscall(libc::SYS_ftruncate, fd as libc::c_long, len) as libc::c_int
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: libc::c_int, len: libc::off_t) -> libc::c_int {
    ftruncate64(fd, len)
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: libc::c_int, off: libc::off64_t, whence: libc::c_int) -> libc::off64_t {
    if let Some(e) = seek_fault() {
        return fail(e) as libc::off64_t;
    }
    match event(false, 0) {
        Ev::Fail(e) => fail(e) as libc::off64_t,
        _ => raw_seek(fd, off, whence),
    }
}

#[no_mangle]
pub unsafe extern "C" fn lseek(fd: libc::c_int, off: libc::off_t, whence: libc::c_int) -> libc::off_t {
    lseek64(fd, off, whence)
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: libc::c_int, buf: *mut libc::c_void, n: libc::size_t) -> libc::ssize_t {
    let n = if n == 0 {
        0
    } else {
        match event(true, n) {
            Ev::Go => n,
            Ev::Max(0) => return 0,
            Ev::Max(m) => m,
            Ev::Fail(e) => return fail(e),
        }
    };
    libc::syscall(libc::SYS_read, fd as libc::c_long, buf, n) as libc::ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: libc::c_int, iov: *const libc::iovec, cnt: libc::c_int) -> libc::ssize_t {
    let planned = RPLAN.try_with(|p| p.get().is_some()).unwrap_or(false);
    if !planned {
        return libc::syscall(libc::SYS_readv, fd as libc::c_long, iov, cnt as libc::c_long) as libc::ssize_t;
    }
    for i in 0..cnt as usize {
        let v = &*iov.add(i);
        if v.iov_len > 0 {
            return read(fd, v.iov_base, v.iov_len);
        }
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn pread64(
    fd: libc::c_int,
    buf: *mut libc::c_void,
    n: libc::size_t,
    off: libc::off64_t,
) -> libc::ssize_t {
    let n = if n == 0 {
        0
    } else {
        match event(true, n) {
            Ev::Go => n,
            Ev::Max(0) => return 0,
            Ev::Max(m) => m,
            Ev::Fail(e) => return fail(e),
        }
    };
    libc::syscall(libc::SYS_pread64, fd as libc::c_long, buf, n, off) as libc::ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn pread(
    fd: libc::c_int,
    buf: *mut libc::c_void,
    n: libc::size_t,
    off: libc::off_t,
) -> libc::ssize_t {
    pread64(fd, buf, n, off)
}

#[no_mangle]
pub unsafe extern "C" fn statx(
    dirfd: libc::c_int,
    path: *const libc::c_char,
    flags: libc::c_int,
    mask: libc::c_uint,
    buf: *mut libc::statx,
) -> libc::c_int {
    if !buf.is_null() {
        if let Ev::Fail(e) = event(false, 0) {
            return fail(e) as libc::c_int;
        }
    }
    libc::syscall(libc::SYS_statx, dirfd as libc::c_long, path, flags as libc::c_long, mask as libc::c_long, buf)
        as libc::c_int
}
