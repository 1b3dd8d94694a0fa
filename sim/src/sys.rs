//! Raw Linux system calls (x86_64) and the few libc symbols the simulator needs.
//! Nothing here goes through the interposed functions of `interpose.rs`.
use std::arch::asm;

#[inline(always)]
pub unsafe fn sc6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
#[inline(always)]
pub unsafe fn sc3(n: i64, a: i64, b: i64, c: i64) -> i64 {
    sc6(n, a, b, c, 0, 0, 0)
}

pub const SYS_READ: i64 = 0;
pub const SYS_WRITE: i64 = 1;
pub const SYS_OPEN: i64 = 2;
pub const SYS_CLOSE: i64 = 3;
pub const SYS_FSTAT: i64 = 5;
pub const SYS_POLL: i64 = 7;
pub const SYS_LSEEK: i64 = 8;
pub const SYS_MMAP: i64 = 9;
pub const SYS_PREAD: i64 = 17;
pub const SYS_PWRITE: i64 = 18;
pub const SYS_READV: i64 = 19;
pub const SYS_WRITEV: i64 = 20;
pub const SYS_SCHED_YIELD: i64 = 24;
pub const SYS_DUP: i64 = 32;
pub const SYS_SENDFILE: i64 = 40;
pub const SYS_FCNTL: i64 = 72;
pub const SYS_FLOCK: i64 = 73;
pub const SYS_FSYNC: i64 = 74;
pub const SYS_FDATASYNC: i64 = 75;
pub const SYS_FTRUNCATE: i64 = 77;
pub const SYS_RENAME: i64 = 82;
pub const SYS_MKDIR: i64 = 83;
pub const SYS_RMDIR: i64 = 84;
pub const SYS_LINK: i64 = 86;
pub const SYS_UNLINK: i64 = 87;
pub const SYS_SYMLINK: i64 = 88;
pub const SYS_READLINK: i64 = 89;
pub const SYS_CHMOD: i64 = 90;
pub const SYS_FCHMOD: i64 = 91;
pub const SYS_PERSONALITY: i64 = 135;
pub const SYS_SETRLIMIT: i64 = 160;
pub const SYS_GETTID: i64 = 186;
pub const SYS_FUTEX: i64 = 202;
pub const SYS_SCHED_SETAFFINITY: i64 = 203;
pub const SYS_SCHED_GETAFFINITY: i64 = 204;
pub const SYS_CLOCK_GETTIME: i64 = 228;
pub const SYS_CLOCK_NANOSLEEP: i64 = 230;
pub const SYS_EXIT_GROUP: i64 = 231;
pub const SYS_OPENAT: i64 = 257;
pub const SYS_NEWFSTATAT: i64 = 262;
pub const SYS_SPLICE: i64 = 275;
pub const SYS_GETRANDOM: i64 = 318;
pub const SYS_COPY_FILE_RANGE: i64 = 326;
pub const SYS_STATX: i64 = 332;

pub const EPERM: i32 = 1;
pub const ENOENT: i32 = 2;
pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const EBADF: i32 = 9;
pub const EAGAIN: i32 = 11;
pub const EACCES: i32 = 13;
pub const EEXIST: i32 = 17;
pub const EINVAL: i32 = 22;
pub const EMFILE: i32 = 24;
pub const ENOSPC: i32 = 28;
pub const EPIPE: i32 = 32;
pub const ENOSYS: i32 = 38;
pub const ETIMEDOUT: i32 = 110;

extern "C" {
    pub fn __errno_location() -> *mut i32;
    pub fn dlsym(h: *mut u8, name: *const u8) -> *mut u8;
    pub fn malloc(n: usize) -> *mut u8;
    pub fn fork() -> i32;
    pub fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    pub fn kill(pid: i32, sig: i32) -> i32;
}

pub unsafe fn set_errno(e: i32) {
    *__errno_location() = e;
}
/// libc convention from the raw kernel convention.
pub unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}
pub fn exit_now(code: i32) -> ! {
    unsafe {
        sc3(SYS_EXIT_GROUP, code as i64, 0, 0);
    }
    loop {}
}
pub fn raw_write(fd: i32, b: &[u8]) {
    let mut o = 0;
    while o < b.len() {
        let r = unsafe { sc3(SYS_WRITE, fd as i64, b[o..].as_ptr() as i64, (b.len() - o) as i64) };
        if r == -(EINTR as i64) {
            continue;
        }
        if r <= 0 {
            return;
        }
        o += r as usize;
    }
}
pub fn real_now_ns() -> u64 {
    let mut ts = [0i64; 2];
    unsafe {
        sc3(SYS_CLOCK_GETTIME, 1, ts.as_mut_ptr() as i64, 0);
    }
    ts[0] as u64 * 1_000_000_000 + ts[1] as u64
}
/// Anonymous shared memory that survives `fork`.
pub fn shared_bytes(len: usize) -> *mut u8 {
    // PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE
    let r = unsafe { sc6(SYS_MMAP, 0, len as i64, 3, 0x1 | 0x20 | 0x4000, -1, 0) };
    if r < 0 {
        raw_write(2, b"qsim: mmap failed\n");
        exit_now(2);
    }
    r as *mut u8
}

pub const SYS_GETPID: i64 = 39;

/// A killed run takes the processes it forked with it.
pub fn die_with_parent() {
    unsafe {
        sc6(157, 1, 9, 0, 0, 0, 0);
    }
}
