//! System-call seam: definitions of the C library symbols that Rust's
//! standard library calls. While code under test runs they go to the
//! simulated disk, clock and console; otherwise straight to the kernel.
#![allow(non_snake_case)]
use crate::sim::{active, sim, Kind, Op, Sim};
use crate::simfs::FD_BASE;
use libc::{c_char, c_int, c_long, c_uint, c_void, mode_t, off64_t, size_t, ssize_t};
use std::ffi::CStr;

unsafe fn fail(e: i32) -> c_int {
    *libc::__errno_location() = e;
    -1
}
unsafe fn failz(e: i32) -> ssize_t {
    *libc::__errno_location() = e;
    -1
}

fn note(s: &mut Sim, name: &'static str) {
    s.syscalls += 1;
    if s.armed {
        s.rt_syscalls += 1;
        s.rt_syscall_name = name;
    }
}

unsafe fn path<'a>(p: *const c_char) -> &'a [u8] {
    CStr::from_ptr(p).to_bytes()
}

unsafe fn do_open(p: *const c_char, flags: c_int) -> c_int {
    let s = sim();
    note(s, "open");
    match s.fault(Op::Open) {
        Some(Kind::Short(_)) | None => {}
        Some(k) => return fail(k.errno()),
    }
    if flags & (libc::O_CREAT | libc::O_TRUNC) != 0 {
        s.crash_point(|_| ());
    }
    match s.fs.open(path(p), flags) {
        Ok(fd) => fd,
        Err(e) => {
            if e == libc::EMFILE {
                s.fire("open-fd-limit".into());
                s.hard += 1;
            }
            if e == libc::EACCES {
                s.fire("open-denied".into());
            }
            fail(e)
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if active() {
        return do_open(p, flags);
    }
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, p, flags, mode as c_uint) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open64(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if active() {
        return do_open(p, flags);
    }
    libc::syscall(libc::SYS_openat, d, p, flags, mode as c_uint) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    openat64(d, p, flags, mode)
}

unsafe fn do_read(fd: c_int, b: *mut c_void, n: size_t, at: Option<u64>) -> ssize_t {
    let s = sim();
    note(s, "read");
    if fd < FD_BASE {
        s.unknown_syscalls += 1;
        return if fd == 0 { 0 } else { failz(libc::EBADF) };
    }
    let mut lim = n;
    match s.fault(Op::Read) {
        None => {}
        Some(Kind::Short(k)) => lim = n.min(k.max(1) as usize),
        Some(k) => return failz(k.errno()),
    }
    lim = s.chunk(0, lim);
    let buf: &mut [u8] = if lim == 0 { &mut [] } else { std::slice::from_raw_parts_mut(b as *mut u8, lim) };
    match s.fs.read(fd, buf, at) {
        Ok(k) => k as ssize_t,
        Err(e) => failz(e),
    }
}
unsafe fn do_write(fd: c_int, b: *const c_void, n: size_t, at: Option<u64>) -> ssize_t {
    let s = sim();
    note(s, "write");
    let buf: &[u8] = if n == 0 { &[] } else { std::slice::from_raw_parts(b as *const u8, n) };
    if fd == 1 || fd == 2 {
        let mut lim = n;
        match s.fault(Op::Out) {
            None => {}
            Some(Kind::Short(k)) => lim = n.min(k.max(1) as usize),
            Some(k) => return failz(k.errno()),
        }
        lim = s.chunk(2, lim);
        if fd == 1 {
            s.stdout.extend_from_slice(&buf[..lim]);
        } else {
            s.stderr.extend_from_slice(&buf[..lim]);
        }
        return lim as ssize_t;
    }
    if fd < FD_BASE {
        s.unknown_syscalls += 1;
        return failz(libc::EBADF);
    }
    let mut lim = n;
    match s.fault(Op::Write) {
        None => {}
        Some(Kind::Short(k)) => lim = n.min(k.max(1) as usize),
        Some(k) => return failz(k.errno()),
    }
    lim = s.chunk(1, lim);
    s.crash_point(|fs| {
        let _ = fs.write(fd, &buf[..lim / 2], at);
    });
    match s.fs.write(fd, &buf[..lim], at) {
        Ok(k) => {
            if k < lim {
                s.fire("write-disk-full-partial".into());
            }
            k as ssize_t
        }
        Err(e) => {
            if e == libc::ENOSPC {
                s.fire("write-disk-full".into());
            }
            s.hard += 1;
            failz(e)
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    if active() {
        return do_read(fd, b, n, None);
    }
    libc::syscall(libc::SYS_read, fd, b, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    if active() {
        return do_read(fd, b, n, Some(off as u64));
    }
    libc::syscall(libc::SYS_pread64, fd, b, n, off) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    if active() {
        return do_write(fd, b, n, None);
    }
    libc::syscall(libc::SYS_write, fd, b, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    if active() {
        return do_write(fd, b, n, Some(off as u64));
    }
    libc::syscall(libc::SYS_pwrite64, fd, b, n, off) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    if active() {
        for i in 0..n as usize {
            let x = &*v.add(i);
            if x.iov_len > 0 {
                return do_read(fd, x.iov_base, x.iov_len, None);
            }
        }
        return 0;
    }
    libc::syscall(libc::SYS_readv, fd, v, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    if active() {
        for i in 0..n as usize {
            let x = &*v.add(i);
            if x.iov_len > 0 {
                return do_write(fd, x.iov_base, x.iov_len, None);
            }
        }
        return 0;
    }
    libc::syscall(libc::SYS_writev, fd, v, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if active() {
        let s = sim();
        note(s, "close");
        return match s.fs.close(fd) {
            Ok(()) => 0,
            Err(e) => fail(e),
        };
    }
    if fd >= FD_BASE {
        // A simulated descriptor dropped outside a run: nothing to do.
        return 0;
    }
    libc::syscall(libc::SYS_close, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    if active() {
        let s = sim();
        note(s, "lseek");
        match s.fault(Op::Seek) {
            None | Some(Kind::Short(_)) => {}
            Some(k) => return fail(k.errno()) as off64_t,
        }
        return match s.fs.lseek(fd, off, wh) {
            Ok(p) => p as off64_t,
            Err(e) => fail(e) as off64_t,
        };
    }
    libc::syscall(libc::SYS_lseek, fd, off, wh) as off64_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    lseek64(fd, off, wh)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if active() {
        let s = sim();
        note(s, "ftruncate");
        match s.fault(Op::Trunc) {
            None | Some(Kind::Short(_)) => {}
            Some(k) => return fail(k.errno()),
        }
        s.crash_point(|_| ());
        return match s.fs.truncate(fd, len) {
            Ok(()) => 0,
            Err(e) => {
                if e == libc::ENOSPC || e == libc::EFBIG {
                    s.fire("trunc-disk-full".into());
                    s.hard += 1;
                }
                fail(e)
            }
        };
    }
    libc::syscall(libc::SYS_ftruncate, fd, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int {
    ftruncate64(fd, len)
}

unsafe fn fill_stat(st: *mut libc::stat64, r: (u32, u64)) {
    std::ptr::write_bytes(st, 0, 1);
    (*st).st_mode = r.0;
    (*st).st_size = r.1 as i64;
    (*st).st_nlink = 1;
    (*st).st_blksize = 4096;
}
unsafe fn do_stat(fd: Option<c_int>, p: &[u8]) -> Result<(u32, u64), i32> {
    let s = sim();
    note(s, "stat");
    match s.fault(Op::Stat) {
        None | Some(Kind::Short(_)) => {}
        Some(k) => return Err(k.errno()),
    }
    match fd {
        Some(fd) => s.fs.stat_fd(fd),
        None => s.fs.stat_path(p),
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    if active() {
        return match do_stat(Some(fd), b"") {
            Ok(r) => {
                fill_stat(st, r);
                0
            }
            Err(e) => fail(e),
        };
    }
    libc::syscall(libc::SYS_fstat, fd, st) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut libc::stat64) -> c_int {
    fstat64(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    if active() {
        return match do_stat(None, path(p)) {
            Ok(r) => {
                fill_stat(st, r);
                0
            }
            Err(e) => fail(e),
        };
    }
    libc::syscall(libc::SYS_stat, p, st) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    if active() {
        return stat64(p, st);
    }
    libc::syscall(libc::SYS_lstat, p, st) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, flags: c_int, mask: c_uint, out: *mut libc::statx) -> c_int {
    if active() {
        if p.is_null() {
            return fail(libc::EFAULT);
        }
        let pb = path(p);
        let r = if pb.is_empty() && flags & libc::AT_EMPTY_PATH != 0 { do_stat(Some(d), b"") } else { do_stat(None, pb) };
        return match r {
            Ok((mode, size)) => {
                std::ptr::write_bytes(out, 0, 1);
                (*out).stx_mask = libc::STATX_BASIC_STATS;
                (*out).stx_mode = mode as u16;
                (*out).stx_size = size;
                (*out).stx_nlink = 1;
                (*out).stx_blksize = 4096;
                0
            }
            Err(e) => fail(e),
        };
    }
    libc::syscall(libc::SYS_statx, d, p, flags, mask, out) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if active() {
        let s = sim();
        note(s, "unlink");
        match s.fault(Op::Unlink) {
            None | Some(Kind::Short(_)) => {}
            Some(k) => return fail(k.errno()),
        }
        s.crash_point(|_| ());
        return match s.fs.unlink(path(p)) {
            Ok(()) => 0,
            Err(e) => fail(e),
        };
    }
    libc::syscall(libc::SYS_unlink, p) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, flags: c_int) -> c_int {
    if active() {
        return unlink(p);
    }
    libc::syscall(libc::SYS_unlinkat, d, p, flags) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: mode_t) -> c_int {
    if active() {
        let s = sim();
        note(s, "mkdir");
        match s.fault(Op::Mkdir) {
            None | Some(Kind::Short(_)) => {}
            Some(k) => return fail(k.errno()),
        }
        s.crash_point(|_| ());
        return match s.fs.mkdir(path(p)) {
            Ok(()) => 0,
            Err(e) => fail(e),
        };
    }
    libc::syscall(libc::SYS_mkdir, p, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if active() {
        let s = sim();
        note(s, "rename");
        match s.fault(Op::Rename) {
            None | Some(Kind::Short(_)) => {}
            Some(k) => return fail(k.errno()),
        }
        s.crash_point(|_| ());
        return match s.fs.rename(path(a), path(b)) {
            Ok(()) => 0,
            Err(e) => fail(e),
        };
    }
    libc::syscall(libc::SYS_rename, a, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    if active() {
        sim().unknown_syscalls += 1;
        return fail(libc::EPERM);
    }
    libc::syscall(libc::SYS_rmdir, p) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, m: mode_t) -> c_int {
    if active() {
        sim().unknown_syscalls += 1;
        return fail(libc::EPERM);
    }
    libc::syscall(libc::SYS_chmod, p, m) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    if active() {
        sim().unknown_syscalls += 1;
        return fail(libc::EPERM);
    }
    libc::syscall(libc::SYS_link, a, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    if active() {
        sim().unknown_syscalls += 1;
        return fail(libc::EPERM);
    }
    libc::syscall(libc::SYS_symlink, a, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn truncate64(p: *const c_char, len: off64_t) -> c_int {
    if active() {
        sim().unknown_syscalls += 1;
        return fail(libc::EPERM);
    }
    libc::syscall(libc::SYS_truncate, p, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if active() {
        note(sim(), "fsync");
        return 0;
    }
    libc::syscall(libc::SYS_fsync, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if active() {
        note(sim(), "fdatasync");
        return 0;
    }
    libc::syscall(libc::SYS_fdatasync, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if active() {
        note(sim(), "fcntl");
        if fd >= FD_BASE {
            return match cmd {
                libc::F_GETFD => libc::FD_CLOEXEC,
                libc::F_SETFD => 0,
                libc::F_GETFL => libc::O_RDWR,
                _ => {
                    sim().unknown_syscalls += 1;
                    fail(libc::EINVAL)
                }
            };
        }
    }
    if fd >= FD_BASE {
        // A simulated descriptor dropped outside a run.
        return libc::FD_CLOEXEC;
    }
    libc::syscall(libc::SYS_fcntl, fd, cmd, arg) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    fcntl(fd, cmd, arg)
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut libc::timespec) -> c_int {
    if active() {
        let s = sim();
        s.clock_reads += 1;
        let t = s.clock_ns;
        s.clock_ns = s.clock_ns.wrapping_add(s.clock_step);
        (*ts).tv_sec = (t / 1_000_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, id, ts) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, tz: *mut c_void) -> c_int {
    if active() {
        let s = sim();
        s.clock_reads += 1;
        (*tv).tv_sec = (s.clock_ns / 1_000_000_000) as i64;
        (*tv).tv_usec = (s.clock_ns % 1_000_000_000 / 1000) as i64;
        return 0;
    }
    libc::syscall(libc::SYS_gettimeofday, tv, tz) as c_int
}
unsafe fn do_sleep(req: *const libc::timespec) -> c_int {
    let s = sim();
    note(s, "sleep");
    s.clock_ns += (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if active() {
        return do_sleep(req);
    }
    libc::syscall(libc::SYS_nanosleep, req, rem) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: c_int, fl: c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if active() {
        return do_sleep(req);
    }
    let r = libc::syscall(libc::SYS_clock_nanosleep, id, fl, req, rem);
    if r < 0 {
        *libc::__errno_location()
    } else {
        0
    }
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if active() {
        note(sim(), "sched_yield");
        return 0;
    }
    libc::syscall(libc::SYS_sched_yield) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    if active() {
        return (fd <= 2) as c_int;
    }
    let mut t: [u8; 64] = [0; 64];
    (libc::syscall(libc::SYS_ioctl, fd, libc::TCGETS, t.as_mut_ptr()) == 0) as c_int
}
