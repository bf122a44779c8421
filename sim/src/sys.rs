//! The few system calls the simulator needs, issued directly (so that they never pass through the
//! `syscall` symbol the simulator itself interposes).

use std::arch::asm;

#[inline(always)]
pub unsafe fn raw(n: i64, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _,
         options(nostack));
    r
}

pub const SYS_MMAP: i64 = 9;
pub const SYS_FUTEX: i64 = 202;

extern "C" {
    pub fn fork() -> i32;
    pub fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    pub fn _exit(code: i32) -> !;
    pub fn kill(pid: i32, sig: i32) -> i32;
    pub fn getpid() -> i32;
    pub fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    pub fn personality(p: u64) -> i32;
    pub fn sched_setaffinity(pid: i32, size: usize, mask: *const u64) -> i32;
    pub fn sched_getaffinity(pid: i32, size: usize, mask: *mut u64) -> i32;
    pub fn __errno_location() -> *mut i32;
    pub fn getppid() -> i32;
    pub fn pipe2(fds: *mut i32, flags: i32) -> i32;
    pub fn close(fd: i32) -> i32;
    pub fn poll(fds: *mut PollFd, n: u64, timeout_ms: i32) -> i32;
}

#[repr(C)]
pub struct PollFd {
    pub fd: i32,
    pub events: i16,
    pub revents: i16,
}

pub const PROT_RW: u64 = 3;
pub const MAP_SHARED: u64 = 1;
pub const MAP_PRIVATE: u64 = 2;
pub const MAP_ANON: u64 = 0x20;
pub const MAP_NORESERVE: u64 = 0x4000;
pub const MAP_FIXED_NOREPLACE: u64 = 0x100000;

pub unsafe fn mmap(addr: usize, len: usize, flags: u64) -> *mut u8 {
    let r = raw(SYS_MMAP, addr as u64, len as u64, PROT_RW, flags | MAP_ANON, u64::MAX, 0);
    if r < 0 && r > -4096 {
        eprintln!("normsim: mmap of {len} bytes at {addr:#x} failed: {r}");
        std::process::exit(3);
    }
    if addr != 0 && r as usize != addr {
        eprintln!("normsim: mmap did not honour the fixed address");
        std::process::exit(3);
    }
    r as *mut u8
}

pub unsafe fn futex_wait(addr: *const u32, val: u32) {
    raw(SYS_FUTEX, addr as u64, 128, val as u64, 0, 0, 0);
}

pub unsafe fn futex_wake(addr: *const u32) {
    raw(SYS_FUTEX, addr as u64, 129, 1, 0, 0, 0);
}

/// How a child process ended.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ended {
    Exit(i32),
    Signal(i32),
    /// Killed by us after the wall-clock limit.
    Stuck,
}

/// Waits for `pid`. A pipe whose write end only the child holds tells when it is gone, so that no
/// signal handling or polling of the clock is involved.
pub unsafe fn wait_child(pid: i32, read_fd: i32, limit_ms: i32) -> Ended {
    let mut p = PollFd { fd: read_fd, events: 1, revents: 0 };
    let mut stuck = false;
    loop {
        let r = poll(&mut p, 1, limit_ms);
        if r < 0 && *__errno_location() == 4 {
            continue;
        }
        if r == 0 {
            stuck = true;
            kill(pid, 9);
        }
        break;
    }
    close(read_fd);
    let mut st = 0;
    loop {
        let r = waitpid(pid, &mut st, 0);
        if r == pid {
            break;
        }
        if r < 0 && *__errno_location() != 4 {
            return Ended::Signal(-1);
        }
    }
    if stuck {
        Ended::Stuck
    } else if st & 0x7f == 0 {
        Ended::Exit((st >> 8) & 0xff)
    } else {
        Ended::Signal(st & 0x7f)
    }
}

/// Forks; `child` runs in the child, which never returns from here.
pub unsafe fn in_child(limit_ms: i32, child: &mut dyn FnMut() -> i32) -> Ended {
    let mut fds = [0i32; 2];
    if pipe2(fds.as_mut_ptr(), 0o2000000) != 0 {
        eprintln!("normsim: pipe2 failed");
        std::process::exit(3);
    }
    let parent = getpid();
    let pid = fork();
    if pid < 0 {
        eprintln!("normsim: fork failed");
        std::process::exit(3);
    }
    if pid == 0 {
        prctl(1, 9, 0, 0, 0); // PR_SET_PDEATHSIG
        if getppid() != parent {
            _exit(3);
        }
        close(fds[0]);
        let code = child();
        _exit(code)
    }
    close(fds[1]);
    wait_child(pid, fds[0], limit_ms)
}
