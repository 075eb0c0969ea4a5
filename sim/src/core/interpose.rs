//! libc symbols defined by this executable.  Inside a simulation every file
//! system call, clock read, random draw and futex of the code under test ends
//! in the simulator; outside they go to the real libc.
//!
//! A simulated call never touches the real file system, whatever path the code
//! under test computes.

use super::sched::{in_sim, sim, suspend, Act, Gate, OpKind, Sim, St};
use super::simfs::{hash64, mix, Stat, FD_BASE};
use libc::{c_char, c_int, c_long, c_uint, c_void, size_t, ssize_t};
use std::ffi::CStr;
use std::sync::atomic::{AtomicUsize, Ordering};

unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}

macro_rules! real {
    ($name:literal, fn($($t:ty),*) -> $r:ty) => {{
        static P: AtomicUsize = AtomicUsize::new(0);
        let mut p = P.load(Ordering::Relaxed);
        if p == 0 {
            p = libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr().cast()) as usize;
            assert!(p != 0);
            P.store(p, Ordering::Relaxed);
        }
        std::mem::transmute::<usize, unsafe extern "C" fn($($t),*) -> $r>(p)
    }};
}

unsafe fn bytes<'a>(p: *const c_char) -> &'a [u8] {
    CStr::from_ptr(p).to_bytes()
}

fn ret(r: Result<(), i32>) -> c_int {
    match r {
        Ok(()) => 0,
        Err(e) => {
            unsafe { set_errno(e) };
            -1
        }
    }
}

/// paths that belong to the runtime, not to the program: answered without a
/// scheduling point, so that they cannot influence the schedule
fn quiet(kind: OpKind, path: &str) -> bool {
    if !matches!(kind, OpKind::Open | OpKind::Read | OpKind::Stat | OpKind::Readdir) || path == "/etc/passwd" {
        return false;
    }
    path.starts_with("/proc/") || path.starts_with("/sys/") || path.starts_with("/etc/") && !path.starts_with("/etc/sim")
        || path.starts_with("/usr/") || path.starts_with("/dev/") || path.starts_with("/lib")
}

enum G {
    Go,
    Short(usize),
    Then,
    Torn(u32),
}

fn gate(kind: OpKind, path: &str) -> Result<G, i32> {
    let _k = super::mem::kernel();
    if quiet(kind, path) {
        return Ok(G::Go);
    }
    match Sim::gate(kind, path) {
        Gate::Go => Ok(G::Go),
        Gate::Fail(e) => Err(e),
        Gate::Short(n) => Ok(G::Short(n)),
        Gate::ThenCrash => Ok(G::Then),
        Gate::TornCrash(p) => Ok(G::Torn(p)),
    }
}

fn after(g: G) {
    if matches!(g, G::Then | G::Torn(_)) {
        Sim::crash_now();
    }
}

/// the time zone database, which is read below thread-local borrows: no
/// scheduling point
fn zone_file(path: &[u8]) -> bool {
    path == b"/etc/localtime" || path.windows(9).any(|w| w == b"/zoneinfo") && !path.starts_with(b"/srv/")
}

fn do_open(dirfd: c_int, path: &[u8], flags: c_int, mode: u32) -> c_int {
    let _k = super::mem::kernel();
    if path.is_empty() {
        // POSIX; the symbolizer of panic and error backtraces does this
        return ret(Err(libc::ENOENT));
    }
    if zone_file(path) {
        return ret(Err(libc::ENOENT));
    }
    let full = sim().fs.resolve_str(dirfd, path);
    let creating = flags & libc::O_CREAT != 0 || flags & libc::O_TRUNC != 0;
    let kind = if creating { OpKind::Create } else { OpKind::Open };
    let g = match gate(kind, &full) {
        Ok(g) => g,
        Err(e) => return ret(Err(e)),
    };
    let r = sim().fs.open(dirfd, path, flags, mode);
    after(g);
    if sim().dead {
        return ret(Err(libc::EIO));
    }
    match r {
        Ok(fd) => fd,
        Err(e) => ret(Err(e)),
    }
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if !in_sim() {
        return real!("open64", fn(*const c_char, c_int, c_uint) -> c_int)(path, flags, mode);
    }
    do_open(libc::AT_FDCWD, bytes(path), flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if !in_sim() {
        return real!("open", fn(*const c_char, c_int, c_uint) -> c_int)(path, flags, mode);
    }
    do_open(libc::AT_FDCWD, bytes(path), flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn openat64(fd: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if !in_sim() {
        return real!("openat64", fn(c_int, *const c_char, c_int, c_uint) -> c_int)(fd, path, flags, mode);
    }
    do_open(fd, bytes(path), flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn openat(fd: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if !in_sim() {
        return real!("openat", fn(c_int, *const c_char, c_int, c_uint) -> c_int)(fd, path, flags, mode);
    }
    do_open(fd, bytes(path), flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd < FD_BASE {
        return libc::syscall(libc::SYS_close, fd) as c_int;
    }
    if !in_sim() {
        return 0;
    }
    if sim().dead {
        return 0;
    }
    ret(sim().fs.close(fd))
}

fn fd_info(fd: c_int) -> Result<(u64, u64, String), i32> {
    let f = sim().fs.fds.get(&fd).ok_or(libc::EBADF)?;
    Ok((f.ino, f.pos, f.path.clone()))
}

unsafe fn do_read(fd: c_int, buf: *mut u8, n: usize, at: Option<u64>) -> ssize_t {
    let _k = super::mem::kernel();
    let (ino, _, path) = match fd_info(fd) {
        Ok(x) => x,
        Err(_) if sim().dead => return ret(Err(libc::EIO)) as ssize_t,
        Err(e) => return ret(Err(e)) as ssize_t,
    };
    let g = match gate(OpKind::Read, &path) {
        Ok(g) => g,
        Err(e) => return ret(Err(e)) as ssize_t,
    };
    let n = match g {
        G::Short(m) => n.min(m),
        _ => n,
    };
    let s = sim();
    let f = match s.fs.fds.get(&fd) {
        Some(f) => f,
        None => return ret(Err(libc::EBADF)) as ssize_t,
    };
    if !f.read {
        return ret(Err(libc::EBADF)) as ssize_t;
    }
    let pos = at.unwrap_or(f.pos);
    let k = match s.fs.read_at(ino, pos, n) {
        Ok(d) => {
            std::ptr::copy_nonoverlapping(d.as_ptr(), buf, d.len());
            d.len()
        }
        Err(e) => return ret(Err(e)) as ssize_t,
    };
    if at.is_none() {
        s.fs.fds.get_mut(&fd).unwrap().pos = pos + k as u64;
    }
    after(g);
    if sim().dead {
        return ret(Err(libc::EIO)) as ssize_t;
    }
    k as ssize_t
}

unsafe fn do_write(fd: c_int, buf: *const u8, n: usize, at: Option<u64>) -> ssize_t {
    let _k = super::mem::kernel();
    let (ino, _, path) = match fd_info(fd) {
        Ok(x) => x,
        Err(_) if sim().dead => return ret(Err(libc::EIO)) as ssize_t,
        Err(e) => return ret(Err(e)) as ssize_t,
    };
    let g = match gate(OpKind::Write, &path) {
        Ok(g) => g,
        Err(e) => return ret(Err(e)) as ssize_t,
    };
    let n = match g {
        G::Short(m) => n.min(m),
        G::Torn(pm) => n * (pm.min(1000) as usize) / 1000,
        _ => n,
    };
    let s = sim();
    let f = match s.fs.fds.get(&fd) {
        Some(f) => f.clone(),
        None => return ret(Err(libc::EBADF)) as ssize_t,
    };
    if !f.write {
        return ret(Err(libc::EBADF)) as ssize_t;
    }
    let pos = if f.append {
        s.fs.stat_ino(ino).map(|s| s.size).unwrap_or(0)
    } else {
        at.unwrap_or(f.pos)
    };
    let data = std::slice::from_raw_parts(buf, n);
    let r = s.fs.write_at(ino, pos, data);
    let k = match r {
        Ok(k) => k,
        Err(e) => {
            if e == libc::ENOSPC {
                s.fs.no_space += 1;
            }
            return ret(Err(e)) as ssize_t;
        }
    };
    if k < n {
        s.fired("disk_full_short_write");
    }
    if at.is_none() {
        s.fs.fds.get_mut(&fd).unwrap().pos = pos + k as u64;
    }
    after(g);
    if sim().dead {
        return ret(Err(libc::EIO)) as ssize_t;
    }
    k as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if fd < FD_BASE || !in_sim() {
        return libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t;
    }
    do_read(fd, buf.cast(), n, None)
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if fd < FD_BASE || !in_sim() {
        return libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t;
    }
    do_write(fd, buf.cast(), n, None)
}

#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: i64) -> ssize_t {
    if fd < FD_BASE || !in_sim() {
        return libc::syscall(libc::SYS_pread64, fd, buf, n, off) as ssize_t;
    }
    do_read(fd, buf.cast(), n, Some(off as u64))
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: i64) -> ssize_t {
    if fd < FD_BASE || !in_sim() {
        return libc::syscall(libc::SYS_pwrite64, fd, buf, n, off) as ssize_t;
    }
    do_write(fd, buf.cast(), n, Some(off as u64))
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if fd < FD_BASE || !in_sim() {
        return libc::syscall(libc::SYS_readv, fd, iov, cnt) as ssize_t;
    }
    let mut total = 0;
    for i in 0..cnt as usize {
        let v = &*iov.add(i);
        if v.iov_len == 0 {
            continue;
        }
        let k = do_read(fd, v.iov_base.cast(), v.iov_len, None);
        if k < 0 {
            return if total > 0 { total } else { k };
        }
        total += k;
        if (k as usize) < v.iov_len {
            break;
        }
    }
    total
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if fd < FD_BASE || !in_sim() {
        return libc::syscall(libc::SYS_writev, fd, iov, cnt) as ssize_t;
    }
    let mut all: Vec<u8> = vec![];
    for i in 0..cnt as usize {
        let v = &*iov.add(i);
        all.extend_from_slice(std::slice::from_raw_parts(v.iov_base.cast::<u8>(), v.iov_len));
    }
    do_write(fd, all.as_ptr(), all.len(), None)
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    if fd < FD_BASE || !in_sim() {
        return libc::syscall(libc::SYS_lseek, fd, off, whence);
    }
    let s = sim();
    let (ino, pos) = match s.fs.fds.get(&fd) {
        Some(f) => (f.ino, f.pos),
        None => return i64::from(ret(Err(libc::EBADF))),
    };
    let size = s.fs.stat_ino(ino).map(|s| s.size).unwrap_or(0) as i64;
    let base = match whence {
        libc::SEEK_SET => 0,
        libc::SEEK_CUR => pos as i64,
        libc::SEEK_END => size,
        _ => return i64::from(ret(Err(libc::EINVAL))),
    };
    let n = match base.checked_add(off) {
        Some(n) if n >= 0 => n,
        _ => return i64::from(ret(Err(libc::EINVAL))),
    };
    s.fs.fds.get_mut(&fd).unwrap().pos = n as u64;
    n
}

#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, whence: c_int) -> i64 {
    lseek64(fd, off, whence)
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    if fd < FD_BASE || !in_sim() {
        return libc::syscall(libc::SYS_ftruncate, fd, len) as c_int;
    }
    let (ino, _, path) = match fd_info(fd) {
        Ok(x) => x,
        Err(e) => return ret(Err(e)),
    };
    let _k = super::mem::kernel();
    let g = match gate(OpKind::Truncate, &path) {
        Ok(g) => g,
        Err(e) => return ret(Err(e)),
    };
    let r = sim().fs.truncate_ino(ino, len as u64);
    after(g);
    ret(r)
}

unsafe fn do_sync(fd: c_int) -> c_int {
    let (_, _, path) = match fd_info(fd) {
        Ok(x) => x,
        Err(_) if sim().dead => return ret(Err(libc::EIO)),
        Err(e) => return ret(Err(e)),
    };
    match gate(OpKind::Sync, &path) {
        Ok(g) => {
            after(g);
            0
        }
        Err(e) => ret(Err(e)),
    }
}

#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if fd < FD_BASE || !in_sim() {
        return libc::syscall(libc::SYS_fsync, fd) as c_int;
    }
    do_sync(fd)
}

#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if fd < FD_BASE || !in_sim() {
        return libc::syscall(libc::SYS_fdatasync, fd) as c_int;
    }
    do_sync(fd)
}

#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if fd < FD_BASE || !in_sim() {
        return libc::syscall(libc::SYS_flock, fd, op) as c_int;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if fd < FD_BASE || !in_sim() {
        return libc::syscall(libc::SYS_fcntl, fd, cmd, arg) as c_int;
    }
    match cmd {
        libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => match sim().fs.dup(fd) {
            Ok(n) => n,
            Err(e) => ret(Err(e)),
        },
        libc::F_GETFL => {
            let f = match sim().fs.fds.get(&fd) {
                Some(f) => f,
                None => return ret(Err(libc::EBADF)),
            };
            match (f.read, f.write) {
                (true, true) => libc::O_RDWR,
                (false, true) => libc::O_WRONLY,
                _ => libc::O_RDONLY,
            }
        }
        _ => 0,
    }
}

#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}

#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: libc::c_ulong, arg: usize) -> c_int {
    if fd < FD_BASE || !in_sim() {
        return libc::syscall(libc::SYS_ioctl, fd, req, arg) as c_int;
    }
    ret(Err(libc::ENOTTY))
}

#[no_mangle]
pub unsafe extern "C" fn posix_fadvise64(_fd: c_int, _o: i64, _l: i64, _a: c_int) -> c_int {
    0
}

fn ts(ns: i128) -> (i64, i64) {
    (ns.div_euclid(1_000_000_000) as i64, ns.rem_euclid(1_000_000_000) as i64)
}

unsafe fn fill_stat(st: &Stat, out: *mut libc::stat64) {
    let mut s: libc::stat64 = std::mem::zeroed();
    s.st_dev = 1;
    s.st_ino = st.ino;
    s.st_mode = st.mode;
    s.st_nlink = u64::from(st.nlink);
    s.st_size = st.size as i64;
    s.st_blksize = 4096;
    s.st_blocks = ((st.size + 511) / 512) as i64;
    let (a, b) = ts(st.mtime_ns);
    s.st_mtime = a;
    s.st_mtime_nsec = b;
    let (a, b) = ts(st.atime_ns);
    s.st_atime = a;
    s.st_atime_nsec = b;
    let (a, b) = ts(st.ctime_ns);
    s.st_ctime = a;
    s.st_ctime_nsec = b;
    *out = s;
}

fn stat_at(dirfd: c_int, path: &[u8], flags: c_int) -> Result<Stat, i32> {
    if path.is_empty() && flags & libc::AT_EMPTY_PATH != 0 {
        let (ino, _, p) = fd_info(dirfd).map_err(|e| if sim().dead { libc::EIO } else { e })?;
        let g = gate(OpKind::Stat, &p)?;
        let r = sim().fs.stat_ino(ino);
        after(g);
        return r;
    }
    if zone_file(path) {
        return Err(libc::ENOENT);
    }
    if path.is_empty() {
        return Err(libc::ENOENT);
    }
    let full = sim().fs.resolve_str(dirfd, path);
    let g = gate(OpKind::Stat, &full)?;
    let ino = sim().fs.lookup(dirfd, path);
    let r = ino.and_then(|i| sim().fs.stat_ino(i));
    after(g);
    r
}

#[no_mangle]
pub unsafe extern "C" fn statx(dirfd: c_int, path: *const c_char, flags: c_int, mask: c_uint, out: *mut libc::statx) -> c_int {
    if !in_sim() || (dirfd >= 0 && dirfd < FD_BASE && !path.is_null()) {
        return libc::syscall(libc::SYS_statx, dirfd, path, flags, mask, out) as c_int;
    }
    if path.is_null() || out.is_null() {
        return ret(Err(libc::EFAULT));
    }
    match stat_at(dirfd, bytes(path), flags) {
        Err(e) => ret(Err(e)),
        Ok(st) => {
            let mut s: libc::statx = std::mem::zeroed();
            s.stx_mask = libc::STATX_BASIC_STATS;
            if !sim().fs.no_btime {
                s.stx_mask |= libc::STATX_BTIME;
            }
            s.stx_blksize = 4096;
            s.stx_nlink = st.nlink;
            s.stx_mode = st.mode as u16;
            s.stx_ino = st.ino;
            s.stx_size = st.size;
            s.stx_blocks = (st.size + 511) / 512;
            let (a, b) = ts(st.mtime_ns);
            s.stx_mtime.tv_sec = a;
            s.stx_mtime.tv_nsec = b as u32;
            let (a, b) = ts(st.atime_ns);
            s.stx_atime.tv_sec = a;
            s.stx_atime.tv_nsec = b as u32;
            let (a, b) = ts(st.ctime_ns);
            s.stx_ctime.tv_sec = a;
            s.stx_ctime.tv_nsec = b as u32;
            let (a, b) = ts(st.btime_ns);
            s.stx_btime.tv_sec = a;
            s.stx_btime.tv_nsec = b as u32;
            *out = s;
            0
        }
    }
}

unsafe fn stat_common(dirfd: c_int, path: &[u8], flags: c_int, out: *mut libc::stat64) -> c_int {
    match stat_at(dirfd, path, flags) {
        Ok(st) => {
            fill_stat(&st, out);
            0
        }
        Err(e) => ret(Err(e)),
    }
}

#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, out: *mut libc::stat64) -> c_int {
    if !in_sim() {
        return real!("stat64", fn(*const c_char, *mut libc::stat64) -> c_int)(path, out);
    }
    stat_common(libc::AT_FDCWD, bytes(path), 0, out)
}

#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, out: *mut libc::stat64) -> c_int {
    if !in_sim() {
        return real!("lstat64", fn(*const c_char, *mut libc::stat64) -> c_int)(path, out);
    }
    stat_common(libc::AT_FDCWD, bytes(path), 0, out)
}

#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, out: *mut libc::stat64) -> c_int {
    if fd < FD_BASE || !in_sim() {
        return real!("fstat64", fn(c_int, *mut libc::stat64) -> c_int)(fd, out);
    }
    stat_common(fd, b"", libc::AT_EMPTY_PATH, out)
}

#[no_mangle]
pub unsafe extern "C" fn fstatat64(dirfd: c_int, path: *const c_char, out: *mut libc::stat64, flags: c_int) -> c_int {
    if !in_sim() {
        return real!("fstatat64", fn(c_int, *const c_char, *mut libc::stat64, c_int) -> c_int)(dirfd, path, out, flags);
    }
    stat_common(dirfd, bytes(path), flags, out)
}

#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    if !in_sim() {
        return real!("access", fn(*const c_char, c_int) -> c_int)(path, mode);
    }
    match stat_at(libc::AT_FDCWD, bytes(path), 0) {
        Ok(_) => 0,
        Err(e) => ret(Err(e)),
    }
}

fn path_op(kind: OpKind, dirfd: c_int, path: &[u8], f: impl FnOnce() -> Result<(), i32>) -> c_int {
    if path.is_empty() {
        return ret(Err(libc::ENOENT));
    }
    let full = sim().fs.resolve_str(dirfd, path);
    let g = match gate(kind, &full) {
        Ok(g) => g,
        Err(e) => return ret(Err(e)),
    };
    let r = f();
    after(g);
    if sim().dead {
        return ret(Err(libc::EIO));
    }
    ret(r)
}

#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: c_uint) -> c_int {
    if !in_sim() {
        return real!("mkdir", fn(*const c_char, c_uint) -> c_int)(path, mode);
    }
    let p = bytes(path);
    path_op(OpKind::Mkdir, libc::AT_FDCWD, p, || sim().fs.mkdir(libc::AT_FDCWD, p, mode))
}

#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    if !in_sim() {
        return real!("rmdir", fn(*const c_char) -> c_int)(path);
    }
    let p = bytes(path);
    path_op(OpKind::Rmdir, libc::AT_FDCWD, p, || sim().fs.rmdir(libc::AT_FDCWD, p))
}

#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    if !in_sim() {
        return real!("unlink", fn(*const c_char) -> c_int)(path);
    }
    let p = bytes(path);
    path_op(OpKind::Unlink, libc::AT_FDCWD, p, || sim().fs.unlink(libc::AT_FDCWD, p))
}

#[no_mangle]
pub unsafe extern "C" fn unlinkat(dirfd: c_int, path: *const c_char, flags: c_int) -> c_int {
    if !in_sim() {
        return real!("unlinkat", fn(c_int, *const c_char, c_int) -> c_int)(dirfd, path, flags);
    }
    let p = bytes(path);
    if flags & libc::AT_REMOVEDIR != 0 {
        path_op(OpKind::Rmdir, dirfd, p, || sim().fs.rmdir(dirfd, p))
    } else {
        path_op(OpKind::Unlink, dirfd, p, || sim().fs.unlink(dirfd, p))
    }
}

unsafe fn do_rename(ofd: c_int, old: *const c_char, nfd: c_int, new: *const c_char, flags: c_uint) -> c_int {
    let (o, n) = (bytes(old), bytes(new));
    let full = format!("{} -> {}", sim().fs.resolve_str(ofd, o), sim().fs.resolve_str(nfd, n));
    let g = match gate(OpKind::Rename, &full) {
        Ok(g) => g,
        Err(e) => return ret(Err(e)),
    };
    let r = sim().fs.rename(ofd, o, nfd, n, flags & libc::RENAME_NOREPLACE != 0);
    after(g);
    if sim().dead {
        return ret(Err(libc::EIO));
    }
    ret(r)
}

#[no_mangle]
pub unsafe extern "C" fn rename(old: *const c_char, new: *const c_char) -> c_int {
    if !in_sim() {
        return real!("rename", fn(*const c_char, *const c_char) -> c_int)(old, new);
    }
    do_rename(libc::AT_FDCWD, old, libc::AT_FDCWD, new, 0)
}

#[no_mangle]
pub unsafe extern "C" fn renameat(ofd: c_int, old: *const c_char, nfd: c_int, new: *const c_char) -> c_int {
    if !in_sim() {
        return real!("renameat", fn(c_int, *const c_char, c_int, *const c_char) -> c_int)(ofd, old, nfd, new);
    }
    do_rename(ofd, old, nfd, new, 0)
}

#[no_mangle]
pub unsafe extern "C" fn renameat2(ofd: c_int, old: *const c_char, nfd: c_int, new: *const c_char, fl: c_uint) -> c_int {
    if !in_sim() {
        return libc::syscall(libc::SYS_renameat2, ofd, old, nfd, new, fl) as c_int;
    }
    do_rename(ofd, old, nfd, new, fl)
}

#[no_mangle]
pub unsafe extern "C" fn link(old: *const c_char, new: *const c_char) -> c_int {
    linkat(libc::AT_FDCWD, old, libc::AT_FDCWD, new, 0)
}

#[no_mangle]
pub unsafe extern "C" fn linkat(ofd: c_int, old: *const c_char, nfd: c_int, new: *const c_char, fl: c_int) -> c_int {
    if !in_sim() {
        return libc::syscall(libc::SYS_linkat, ofd, old, nfd, new, fl) as c_int;
    }
    let (o, n) = (bytes(old), bytes(new));
    path_op(OpKind::Link, nfd, n, || sim().fs.link(ofd, o, nfd, n))
}

#[no_mangle]
pub unsafe extern "C" fn symlink(old: *const c_char, new: *const c_char) -> c_int {
    if !in_sim() {
        return libc::syscall(libc::SYS_symlink, old, new) as c_int;
    }
    ret(Err(libc::EPERM))
}

#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    if !in_sim() {
        return libc::syscall(libc::SYS_readlink, path, buf, n) as ssize_t;
    }
    ret(Err(libc::ENOENT)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn chmod(path: *const c_char, mode: c_uint) -> c_int {
    if !in_sim() {
        return libc::syscall(libc::SYS_chmod, path, mode) as c_int;
    }
    let p = bytes(path);
    path_op(OpKind::Chmod, libc::AT_FDCWD, p, || sim().fs.lookup(libc::AT_FDCWD, p).map(|_| ()))
}

#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: c_uint) -> c_int {
    if fd < FD_BASE || !in_sim() {
        return libc::syscall(libc::SYS_fchmod, fd, mode) as c_int;
    }
    match fd_info(fd) {
        Err(e) => ret(Err(if sim().dead { libc::EIO } else { e })),
        Ok((_, _, p)) => match gate(OpKind::Chmod, &p) {
            Ok(g) => {
                after(g);
                0
            }
            Err(e) => ret(Err(e)),
        },
    }
}

#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, t: *const libc::timespec) -> c_int {
    if fd < FD_BASE || !in_sim() {
        return real!("futimens", fn(c_int, *const libc::timespec) -> c_int)(fd, t);
    }
    let (ino, p) = match fd_info(fd) {
        Err(e) => return ret(Err(if sim().dead { libc::EIO } else { e })),
        Ok((ino, _, p)) => (ino, p),
    };
    match gate(OpKind::Chmod, &p) {
        Ok(g) => {
            let now = sim().fs.now_ns;
            let tick = i128::from(sim().fs.tick_ns.max(1));
            let m = if t.is_null() { None } else { Some(*t.add(1)) };
            let m = match m {
                Some(m) if m.tv_nsec == libc::UTIME_OMIT => None,
                Some(m) if m.tv_nsec != libc::UTIME_NOW => Some(i128::from(m.tv_sec) * 1_000_000_000 + i128::from(m.tv_nsec)),
                _ => Some(now),
            };
            if let Some(i) = sim().fs.inodes.get_mut(&ino) {
                if let Some(m) = m {
                    i.mtime_ns = m / tick * tick;
                }
                let a = if t.is_null() { None } else { Some(*t) };
                match a {
                    Some(a) if a.tv_nsec == libc::UTIME_OMIT => {}
                    Some(a) if a.tv_nsec != libc::UTIME_NOW => i.atime_ns = i128::from(a.tv_sec) * 1_000_000_000 + i128::from(a.tv_nsec),
                    _ => i.atime_ns = now,
                }
                i.ctime_ns = now;
            }
            sim().fs.mutations += 1;
            after(g);
            0
        }
        Err(e) => ret(Err(e)),
    }
}

#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    if !in_sim() {
        return real!("realpath", fn(*const c_char, *mut c_char) -> *mut c_char)(path, out);
    }
    let p = bytes(path);
    let full = sim().fs.resolve_str(libc::AT_FDCWD, p);
    let r = match gate(OpKind::Stat, &full) {
        Ok(_) => sim().fs.realpath(p),
        Err(e) => Err(e),
    };
    match r {
        Err(e) => {
            set_errno(e);
            std::ptr::null_mut()
        }
        Ok(s) => {
            let dst = if out.is_null() {
                libc::malloc(s.len() + 1).cast::<c_char>()
            } else {
                out
            };
            std::ptr::copy_nonoverlapping(s.as_ptr(), dst.cast::<u8>(), s.len());
            *dst.add(s.len()) = 0;
            dst
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    if !in_sim() {
        return real!("getcwd", fn(*mut c_char, size_t) -> *mut c_char)(buf, n);
    }
    let s = sim().fs.cwd.clone();
    if n < s.len() + 1 {
        set_errno(libc::ERANGE);
        return std::ptr::null_mut();
    }
    std::ptr::copy_nonoverlapping(s.as_ptr(), buf.cast::<u8>(), s.len());
    *buf.add(s.len()) = 0;
    buf
}

// ---- directories ----

#[repr(C)]
struct SimDir {
    magic: u64,
    id: usize,
    fd: c_int,
    ent: libc::dirent64,
}
const DIR_MAGIC: u64 = 0x51d0_5eed_0d14_c0de;

unsafe fn is_simdir(d: *mut libc::DIR) -> bool {
    (*d.cast::<SimDir>()).magic == DIR_MAGIC
}

unsafe fn mk_dir(fd: c_int) -> *mut libc::DIR {
    match sim().fs.opendir_fd(fd) {
        Ok(id) => Box::into_raw(Box::new(SimDir {
            magic: DIR_MAGIC,
            id,
            fd,
            ent: std::mem::zeroed(),
        }))
        .cast(),
        Err(e) => {
            set_errno(e);
            std::ptr::null_mut()
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut libc::DIR {
    if !in_sim() {
        return real!("opendir", fn(*const c_char) -> *mut libc::DIR)(path);
    }
    let fd = do_open(libc::AT_FDCWD, bytes(path), libc::O_RDONLY | libc::O_DIRECTORY, 0);
    if fd < 0 {
        return std::ptr::null_mut();
    }
    mk_dir(fd)
}

#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut libc::DIR {
    if fd < FD_BASE || !in_sim() {
        return real!("fdopendir", fn(c_int) -> *mut libc::DIR)(fd);
    }
    mk_dir(fd)
}

#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    if !is_simdir(d) {
        return real!("readdir64", fn(*mut libc::DIR) -> *mut libc::dirent64)(d);
    }
    let sd = &mut *d.cast::<SimDir>();
    if !in_sim() || sim().dead {
        set_errno(libc::EIO);
        return std::ptr::null_mut();
    }
    loop {
        let s = sim();
        let ds = match s.fs.dirs.get(&sd.id) {
            Some(x) => x,
            None => {
                set_errno(libc::EBADF);
                return std::ptr::null_mut();
            }
        };
        if ds.idx < ds.batch.len() {
            let (name, ino, ty) = ds.batch[ds.idx].clone();
            s.fs.dirs.get_mut(&sd.id).unwrap().idx += 1;
            sd.ent.d_ino = ino;
            sd.ent.d_type = ty;
            sd.ent.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
            for (i, b) in name.iter().enumerate() {
                sd.ent.d_name[i] = *b as c_char;
            }
            sd.ent.d_name[name.len()] = 0;
            return &mut sd.ent;
        }
        if ds.done {
            set_errno(0);
            return std::ptr::null_mut();
        }
        let ino = ds.ino;
        let p = s.fs.abs_path(ino);
        match gate(OpKind::Readdir, &p) {
            Err(e) => {
                set_errno(e);
                return std::ptr::null_mut();
            }
            Ok(g) => {
                let _ = sim().fs.dir_fill(sd.id);
                after(g);
                if sim().dead {
                    set_errno(libc::EIO);
                    return std::ptr::null_mut();
                }
            }
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> c_int {
    if !is_simdir(d) {
        return real!("closedir", fn(*mut libc::DIR) -> c_int)(d);
    }
    let sd = Box::from_raw(d.cast::<SimDir>());
    if in_sim() && !sim().dead {
        sim().fs.dirs.remove(&sd.id);
        let _ = sim().fs.close(sd.fd);
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut libc::DIR) -> c_int {
    if !is_simdir(d) {
        return real!("dirfd", fn(*mut libc::DIR) -> c_int)(d);
    }
    (*d.cast::<SimDir>()).fd
}

// ---- in-kernel copies ----

unsafe fn do_copy(fin: c_int, off_in: *mut i64, fout: c_int, off_out: *mut i64, n: usize) -> ssize_t {
    let _k = super::mem::kernel();
    if fin < FD_BASE || fout < FD_BASE {
        return ret(Err(libc::EBADF)) as ssize_t;
    }
    let (iino, ipos, ipath) = match fd_info(fin) {
        Ok(x) => x,
        Err(e) => return ret(Err(e)) as ssize_t,
    };
    let (oino, opos, opath) = match fd_info(fout) {
        Ok(x) => x,
        Err(e) => return ret(Err(e)) as ssize_t,
    };
    let g = match gate(OpKind::Copy, &format!("{ipath} -> {opath}")) {
        Ok(g) => g,
        Err(e) => return ret(Err(e)) as ssize_t,
    };
    // the kernel may copy in pieces: at most 4 KiB at a time keeps
    // interleavings with other writers visible
    let mut n = n.min(4096);
    match g {
        G::Short(m) => n = n.min(m),
        G::Torn(pm) => n = n * (pm.min(1000) as usize) / 1000,
        _ => {}
    }
    let s = sim();
    let ip = if off_in.is_null() { ipos } else { *off_in as u64 };
    let op = if off_out.is_null() { opos } else { *off_out as u64 };
    let data = match s.fs.read_at(iino, ip, n) {
        Ok(d) => d.to_vec(),
        Err(e) => return ret(Err(e)) as ssize_t,
    };
    let k = if data.is_empty() {
        0
    } else {
        match s.fs.write_at(oino, op, &data) {
            Ok(k) => k,
            Err(e) => {
                if e == libc::ENOSPC {
                    s.fs.no_space += 1;
                }
                return ret(Err(e)) as ssize_t;
            }
        }
    };
    if off_in.is_null() {
        s.fs.fds.get_mut(&fin).unwrap().pos = ip + k as u64;
    } else {
        *off_in += k as i64;
    }
    if off_out.is_null() {
        s.fs.fds.get_mut(&fout).unwrap().pos = op + k as u64;
    } else {
        *off_out += k as i64;
    }
    after(g);
    if sim().dead {
        return ret(Err(libc::EIO)) as ssize_t;
    }
    k as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn copy_file_range(fin: c_int, oi: *mut i64, fout: c_int, oo: *mut i64, n: size_t, fl: c_uint) -> ssize_t {
    if !in_sim() {
        return libc::syscall(libc::SYS_copy_file_range, fin, oi, fout, oo, n, fl) as ssize_t;
    }
    do_copy(fin, oi, fout, oo, n)
}

#[no_mangle]
pub unsafe extern "C" fn sendfile64(fout: c_int, fin: c_int, off: *mut i64, n: size_t) -> ssize_t {
    if !in_sim() {
        return libc::syscall(libc::SYS_sendfile, fout, fin, off, n) as ssize_t;
    }
    do_copy(fin, off, fout, std::ptr::null_mut(), n)
}

#[no_mangle]
pub unsafe extern "C" fn sendfile(fout: c_int, fin: c_int, off: *mut i64, n: size_t) -> ssize_t {
    sendfile64(fout, fin, off, n)
}

#[no_mangle]
pub unsafe extern "C" fn splice(fin: c_int, oi: *mut i64, fout: c_int, oo: *mut i64, n: size_t, fl: c_uint) -> ssize_t {
    if !in_sim() {
        return libc::syscall(libc::SYS_splice, fin, oi, fout, oo, n, fl) as ssize_t;
    }
    ret(Err(libc::EINVAL)) as ssize_t
}

// ---- time, randomness, waiting ----

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, out: *mut libc::timespec) -> c_int {
    if !in_sim() {
        return real!("clock_gettime", fn(libc::clockid_t, *mut libc::timespec) -> c_int)(clk, out);
    }
    let s = sim();
    let ns: i128 = match clk {
        libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => s.realtime_ns(),
        _ => 5_000_000_000_000 + i128::from(s.now) * 1000,
    };
    let (a, b) = ts(ns);
    (*out).tv_sec = a;
    (*out).tv_nsec = b;
    0
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(out: *mut libc::timeval, tz: *mut c_void) -> c_int {
    if !in_sim() {
        return libc::syscall(libc::SYS_gettimeofday, out, tz) as c_int;
    }
    let (a, b) = ts(sim().realtime_ns());
    (*out).tv_sec = a;
    (*out).tv_usec = b / 1000;
    0
}

#[no_mangle]
pub unsafe extern "C" fn time(out: *mut libc::time_t) -> libc::time_t {
    if !in_sim() {
        return real!("time", fn(*mut libc::time_t) -> libc::time_t)(out);
    }
    let (a, _) = ts(sim().realtime_ns());
    if !out.is_null() {
        *out = a;
    }
    a
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if !in_sim() {
        return real!("nanosleep", fn(*const libc::timespec, *mut libc::timespec) -> c_int)(req, rem);
    }
    sim_sleep(&*req);
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: libc::clockid_t, fl: c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if !in_sim() {
        return real!("clock_nanosleep", fn(libc::clockid_t, c_int, *const libc::timespec, *mut libc::timespec) -> c_int)(clk, fl, req, rem);
    }
    sim_sleep(&*req);
    0
}

fn sim_sleep(t: &libc::timespec) {
    let us = t.tv_sec as u64 * 1_000_000 + t.tv_nsec as u64 / 1000;
    let s = sim();
    if let Some(cur) = s.current {
        let at = s.now + us;
        s.at(at, move || {
            let t = &mut sim().threads[cur];
            if t.st == St::Blocked {
                t.st = St::Ready;
            }
        });
        suspend(St::Blocked);
    }
}

fn fill_random(buf: *mut u8, n: usize) {
    let s = sim();
    let (key, ctr) = match s.current {
        Some(c) => {
            let inc = s.incarnation;
            let t = &mut s.threads[c];
            t.rand_ctr += 1;
            (t.key ^ inc, t.rand_ctr)
        }
        None => {
            s.rand_ctr += 1;
            (s.seed, s.rand_ctr)
        }
    };
    let mut z = hash64(key ^ 0xabcd, &ctr.to_le_bytes());
    for i in 0..n {
        if i % 8 == 0 {
            z = mix(z.wrapping_add(0x9e37_79b9_7f4a_7c15));
        }
        unsafe { *buf.add(i) = (z >> ((i % 8) * 8)) as u8 };
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, fl: c_uint) -> ssize_t {
    if !in_sim() {
        return real_syscall(libc::SYS_getrandom, buf as usize, n, fl as usize, 0, 0, 0) as ssize_t;
    }
    fill_random(buf.cast(), n);
    n as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut c_void, n: size_t) -> c_int {
    if !in_sim() {
        return if real_syscall(libc::SYS_getrandom, buf as usize, n, 0, 0, 0, 0) >= 0 { 0 } else { -1 };
    }
    fill_random(buf.cast(), n);
    0
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if in_sim() && sim().current.is_some() {
        suspend(St::Ready);
        return 0;
    }
    real_syscall(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}

unsafe fn real_syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    let r: isize;
    std::arch::asm!("syscall",
        inlateout("rax") n as isize => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    if r < 0 && r > -4096 {
        set_errno((-r) as i32);
        -1
    } else {
        r as c_long
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if in_sim() {
        match n {
            libc::SYS_futex => return sim_futex(a, b, c, d, e, f),
            libc::SYS_getrandom => {
                fill_random(a as *mut u8, b);
                return b as c_long;
            }
            libc::SYS_statx => return statx(a as c_int, b as *const c_char, c as c_int, d as c_uint, e as *mut libc::statx) as c_long,
            libc::SYS_copy_file_range => {
                return do_copy(a as c_int, b as *mut i64, c as c_int, d as *mut i64, e) as c_long;
            }
            libc::SYS_renameat2 => return renameat2(a as c_int, b as *const c_char, c as c_int, d as *const c_char, e as c_uint) as c_long,
            libc::SYS_openat => return do_open(a as c_int, bytes(b as *const c_char), c as c_int, d as u32) as c_long,
            libc::SYS_openat2 => return c_long::from(ret(Err(libc::ENOSYS))),
            libc::SYS_getdents64 => return c_long::from(ret(Err(libc::ENOSYS))),
            _ => {}
        }
    }
    real_syscall(n, a, b, c, d, e, f)
}

unsafe fn sim_futex(addr: usize, op: usize, val: usize, timeout: usize, e: usize, f: usize) -> c_long {
    let cmd = (op as c_int) & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
    match cmd {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            let cur = *(addr as *const u32);
            if cur != val as u32 {
                set_errno(libc::EAGAIN);
                return -1;
            }
            let s = sim();
            if s.current.is_none() || std::thread::panicking() {
                // a harness-side wait: let the real kernel decide
                return real_syscall(libc::SYS_futex, addr, op, val, timeout, e, f);
            }
            s.probe("futex_wait");
            if s.dead {
                super::sched::suspend_dead();
                return 0;
            }
            if timeout != 0 {
                // timed waits: convert to a bounded number of scheduling points
                let t = &*(timeout as *const libc::timespec);
                let _ = t;
                suspend(St::Ready);
                set_errno(libc::ETIMEDOUT);
                return -1;
            }
            suspend(St::Futex(addr));
            0
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let s = sim();
            let mut n = 0;
            for t in s.threads.iter_mut() {
                if n >= val.min(i32::MAX as usize) {
                    break;
                }
                if t.st == St::Futex(addr) {
                    t.st = St::Ready;
                    n += 1;
                }
            }
            if n > 0 {
                return n as c_long;
            }
            real_syscall(libc::SYS_futex, addr, op, val, timeout, e, f)
        }
        _ => real_syscall(libc::SYS_futex, addr, op, val, timeout, e, f),
    }
}

/// keep the linker from dropping this module
pub fn install() {
    let _ = Act::Delay(0);
}
