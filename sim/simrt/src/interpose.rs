//! Definitions of libc functions that win over libc's own in any binary that
//! links this crate. Outside the simulation they are plain system calls.
use libc::{c_char, c_int, c_long, c_void, clockid_t, mode_t, off_t, size_t, ssize_t, timespec};

use crate::fsx;

/// Call from main: makes sure that this object is linked in.
pub fn link() {}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, _flags: libc::c_uint) -> ssize_t {
    crate::entropy(std::slice::from_raw_parts_mut(buf as *mut u8, len));
    len as ssize_t
}
/// rand's and std's way to the kernel: only randomness is ours.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: libc::c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> libc::c_long {
    if n == libc::SYS_getrandom {
        return getrandom(a as *mut c_void, b, 0) as libc::c_long;
    }
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = (-r) as c_int;
        return -1;
    }
    r as libc::c_long
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut c_void, len: size_t) -> c_int {
    crate::entropy(std::slice::from_raw_parts_mut(buf as *mut u8, len));
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: clockid_t, ts: *mut timespec) -> c_int {
    if crate::in_sim() {
        let ns = match id {
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => crate::wall_ns(crate::current_node()),
            libc::CLOCK_THREAD_CPUTIME_ID | libc::CLOCK_PROCESS_CPUTIME_ID => crate::now() as i64,
            _ => crate::now() as i64,
        };
        crate::advance(20);
        (*ts).tv_sec = ns.div_euclid(1_000_000_000);
        (*ts).tv_nsec = ns.rem_euclid(1_000_000_000);
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, id, ts) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _tz: *mut c_void) -> c_int {
    let mut ts: timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    (*tv).tv_sec = ts.tv_sec;
    (*tv).tv_usec = ts.tv_nsec / 1000;
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if crate::in_sim() {
        crate::sleep((*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64);
        return 0;
    }
    libc::syscall(libc::SYS_nanosleep, req, rem) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: clockid_t, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if crate::in_sim() {
        let ns = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        if flags & libc::TIMER_ABSTIME != 0 {
            crate::sleep(ns.saturating_sub(crate::now()));
        } else {
            crate::sleep(ns);
        }
        return 0;
    }
    let r = libc::syscall(libc::SYS_clock_nanosleep, id, flags, req, rem) as c_int;
    if r < 0 { *libc::__errno_location() } else { 0 }
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if crate::in_sim() {
        crate::yield_now();
        return 0;
    }
    libc::syscall(libc::SYS_sched_yield) as c_int
}

/// Every simulated machine has four processors, wherever the simulation itself runs.
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, size: size_t, set: *mut libc::cpu_set_t) -> c_int {
    if crate::in_sim() {
        std::ptr::write_bytes(set as *mut u8, 0, size);
        for i in 0..4 {
            libc::CPU_SET(i, &mut *set);
        }
        return 0;
    }
    let r = syscall(libc::SYS_sched_getaffinity, pid as usize, size, set as usize, 0, 0, 0);
    if r < 0 {
        return -1;
    }
    if (r as usize) < size {
        std::ptr::write_bytes((set as *mut u8).add(r as usize), 0, size - r as usize);
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    fsx::open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    fsx::open(path, flags, mode)
}
unsafe fn at(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if crate::in_sim() {
        if let Some(p) = fsx::full_at(dirfd, path) {
            return fsx::open(p.as_ptr(), flags, mode);
        }
    }
    libc::syscall(libc::SYS_openat, dirfd, path, flags, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    at(dirfd, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    at(dirfd, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    fsx::close(fd)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: size_t, off: off_t) -> ssize_t {
    fsx::pwrite(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off_t) -> ssize_t {
    fsx::pwrite(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    fsx::write(fd, buf, n)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    let mut total = 0;
    for i in 0..n as usize {
        let v = &*iov.add(i);
        if v.iov_len == 0 {
            continue;
        }
        let r = fsx::write(fd, v.iov_base, v.iov_len);
        if r < 0 {
            return if total > 0 { total } else { r };
        }
        total += r;
        if (r as usize) < v.iov_len {
            break;
        }
    }
    total
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: size_t, off: off_t) -> ssize_t {
    fsx::pread(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off_t) -> ssize_t {
    fsx::pread(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    fsx::read(fd, buf, n)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    fsx::sync(fd, libc::SYS_fsync)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    fsx::sync(fd, libc::SYS_fdatasync)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off_t) -> c_int {
    fsx::ftruncate(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off_t) -> c_int {
    fsx::ftruncate(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    fsx::rename(a, b)
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    fsx::unlink(p, false)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    fsx::unlink(p, true)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(dirfd: c_int, p: *const c_char, flags: c_int) -> c_int {
    if crate::in_sim() {
        if let Some(f) = fsx::full_at(dirfd, p) {
            return fsx::unlink(f.as_ptr(), flags & libc::AT_REMOVEDIR != 0);
        }
    }
    libc::syscall(libc::SYS_unlinkat, dirfd, p, flags) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: mode_t) -> c_int {
    fsx::mkdir(p, mode)
}
/// std::fs::copy must go through read and write, where faults are placed
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, ao: *mut off_t, b: c_int, bo: *mut off_t, n: size_t, fl: libc::c_uint) -> ssize_t {
    if crate::in_sim() {
        *libc::__errno_location() = libc::ENOSYS;
        return -1;
    }
    libc::syscall(libc::SYS_copy_file_range, a, ao, b, bo, n, fl) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile(o: c_int, i: c_int, off: *mut off_t, n: size_t) -> ssize_t {
    if crate::in_sim() {
        *libc::__errno_location() = libc::ENOSYS;
        return -1;
    }
    libc::syscall(libc::SYS_sendfile, o, i, off, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(o: c_int, i: c_int, off: *mut off_t, n: size_t) -> ssize_t {
    sendfile(o, i, off, n)
}
#[allow(dead_code)]
fn _types(_: c_long) {}
