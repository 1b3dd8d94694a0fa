//! The seam: libc functions that Rust's standard library (statically linked into this
//! binary) calls are defined here, so the linker binds the whole program, the code under
//! test included, to the simulated kernel. Outside a simulation every function forwards to
//! the real system call. Nothing in /repo needs to change for this.
use crate::kernel::*;
use crate::sys::*;
use std::sync::atomic::AtomicU32;

unsafe fn cstr<'a>(p: *const u8) -> std::borrow::Cow<'a, str> {
    let mut n = 0;
    while *p.add(n) != 0 {
        n += 1;
    }
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n))
}

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const u8, flags: i32, mode: u32) -> i32 {
    if !sim() {
        return ret(sc6(SYS_OPENAT, -100, p as i64, flags as i64, mode as i64, 0, 0)) as i32;
    }
    let _g = enter();
    ret(k_open(&cstr(p), flags, mode)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const u8, flags: i32, mode: u32) -> i32 {
    open64(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: i32, p: *const u8, flags: i32, mode: u32) -> i32 {
    if !sim() {
        return ret(sc6(SYS_OPENAT, d as i64, p as i64, flags as i64, mode as i64, 0, 0)) as i32;
    }
    let _g = enter();
    ret(k_open(&cstr(p), flags, mode)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: i32, p: *const u8, flags: i32, mode: u32) -> i32 {
    openat64(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, b: *mut u8, n: usize) -> isize {
    if !sim() {
        return ret(sc3(SYS_READ, fd as i64, b as i64, n as i64)) as isize;
    }
    let _g = enter();
    if fd < 3 {
        return 0; // empty standard input
    }
    ret(k_read(fd, b, n, None)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, b: *mut u8, n: usize, off: i64) -> isize {
    if !sim() {
        return ret(sc6(SYS_PREAD, fd as i64, b as i64, n as i64, off, 0, 0)) as isize;
    }
    let _g = enter();
    ret(k_read(fd, b, n, Some(off))) as isize
}
#[repr(C)]
pub struct IoVec {
    p: *mut u8,
    n: usize,
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: i32, v: *const IoVec, n: i32) -> isize {
    if !sim() {
        return ret(sc3(SYS_READV, fd as i64, v as i64, n as i64)) as isize;
    }
    let _g = enter();
    for i in 0..n as usize {
        let e = &*v.add(i);
        if e.n > 0 {
            return ret(k_read(fd, e.p, e.n, None)) as isize; // a legal short read
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, b: *const u8, n: usize) -> isize {
    if !sim() {
        return ret(sc3(SYS_WRITE, fd as i64, b as i64, n as i64)) as isize;
    }
    let _g = enter();
    ret(k_write(fd, b, n, None)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, b: *const u8, n: usize, off: i64) -> isize {
    if !sim() {
        return ret(sc6(SYS_PWRITE, fd as i64, b as i64, n as i64, off, 0, 0)) as isize;
    }
    let _g = enter();
    ret(k_write(fd, b, n, Some(off))) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const IoVec, n: i32) -> isize {
    if !sim() {
        return ret(sc3(SYS_WRITEV, fd as i64, v as i64, n as i64)) as isize;
    }
    let _g = enter();
    for i in 0..n as usize {
        let e = &*v.add(i);
        if e.n > 0 {
            return ret(k_write(fd, e.p, e.n, None)) as isize;
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, off: i64, wh: i32) -> i64 {
    if !sim() {
        return ret(sc3(SYS_LSEEK, fd as i64, off, wh as i64));
    }
    let _g = enter();
    ret(k_lseek(fd, off, wh))
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: i32, off: i64, wh: i32) -> i64 {
    lseek64(fd, off, wh)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if !sim() {
        if fd >= FD0 && !k_is_null() {
            return 0;
        }
        return ret(sc3(SYS_CLOSE, fd as i64, 0, 0)) as i32;
    }
    let _g = enter();
    ret(k_close(fd)) as i32
}
unsafe fn fill_stat(b: *mut u8, s: &StatOut) {
    std::ptr::write_bytes(b, 0, 144);
    *(b as *mut u64) = 1;
    *(b.add(8) as *mut u64) = s.ino;
    *(b.add(16) as *mut u64) = 1;
    *(b.add(24) as *mut u32) = s.mode as _;
    *(b.add(48) as *mut i64) = s.size as i64;
    *(b.add(56) as *mut i64) = 4096;
    *(b.add(64) as *mut i64) = (s.size as i64 + 511) / 512;
    *(b.add(88) as *mut i64) = s.mtime as i64;
    *(b.add(72) as *mut i64) = s.mtime as i64;
    *(b.add(104) as *mut i64) = s.mtime as i64;
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: i32, b: *mut u8) -> i32 {
    if !sim() || fd < 3 {
        return ret(sc3(SYS_FSTAT, fd as i64, b as i64, 0)) as i32;
    }
    let _g = enter();
    match k_stat(None, fd, false) {
        Ok(s) => {
            fill_stat(b, &s);
            0
        }
        Err(e) => ret(-(e as i64)) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: i32, b: *mut u8) -> i32 {
    fstat64(fd, b)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const u8, b: *mut u8) -> i32 {
    if !sim() {
        return ret(sc6(SYS_NEWFSTATAT, -100, p as i64, b as i64, 0, 0, 0)) as i32;
    }
    let _g = enter();
    path_stat(p, b, false)
}
unsafe fn path_stat(p: *const u8, b: *mut u8, nofollow: bool) -> i32 {
    match k_stat(Some(&cstr(p)), -1, nofollow) {
        Ok(s) => {
            fill_stat(b, &s);
            0
        }
        Err(e) => ret(-(e as i64)) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const u8, b: *mut u8) -> i32 {
    if !sim() {
        return ret(sc6(SYS_NEWFSTATAT, -100, p as i64, b as i64, 0x100, 0, 0)) as i32;
    }
    let _g = enter();
    path_stat(p, b, true)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: i32, p: *const u8, b: *mut u8, fl: i32) -> i32 {
    if !sim() {
        return ret(sc6(SYS_NEWFSTATAT, d as i64, p as i64, b as i64, fl as i64, 0, 0)) as i32;
    }
    let _g = enter();
    if *p == 0 {
        return fstat64(d, b);
    }
    let p = at(d, p) + "\0";
    path_stat(p.as_ptr(), b, fl & 0x100 != 0)
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: i32, p: *const u8, fl: i32, mask: u32, b: *mut u8) -> i32 {
    if !sim() {
        return ret(sc6(SYS_STATX, d as i64, p as i64, fl as i64, mask as i64, b as i64, 0)) as i32;
    }
    let _g = enter();
    if p.is_null() || (b.is_null() && d < FD0) {
        return ret(-14) as i32; // std probes with null pointers
    }
    let r = if *p == 0 { k_stat(None, d, false) } else { k_stat(Some(&at(d, p)), -1, fl & 0x100 != 0) };
    match r {
        Ok(s) => {
            std::ptr::write_bytes(b, 0, 256);
            *(b as *mut u32) = 0x7ff;
            *(b.add(4) as *mut u32) = 4096;
            *(b.add(16) as *mut u32) = 1;
            *(b.add(28) as *mut u16) = s.mode as _;
            *(b.add(32) as *mut u64) = s.ino;
            *(b.add(40) as *mut u64) = s.size;
            *(b.add(48) as *mut u64) = (s.size + 511) / 512;
            *(b.add(64) as *mut i64) = s.mtime as i64;
            *(b.add(96) as *mut i64) = s.mtime as i64;
            *(b.add(112) as *mut i64) = s.mtime as i64;
            0
        }
        Err(e) => ret(-(e as i64)) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    if !sim() {
        return ret(sc3(SYS_FSYNC, fd as i64, 0, 0)) as i32;
    }
    let _g = enter();
    ret(k_sync(fd)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
    if !sim() {
        return ret(sc3(SYS_FDATASYNC, fd as i64, 0, 0)) as i32;
    }
    let _g = enter();
    ret(k_sync(fd)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 {
    if !sim() {
        return ret(sc3(SYS_FTRUNCATE, fd as i64, n, 0)) as i32;
    }
    let _g = enter();
    ret(k_ftruncate(fd, n)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const u8, b: *const u8) -> i32 {
    if !sim() {
        return ret(sc3(SYS_RENAME, a as i64, b as i64, 0)) as i32;
    }
    let _g = enter();
    ret(k_rename(&cstr(a), &cstr(b))) as i32
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const u8) -> i32 {
    if !sim() {
        return ret(sc3(SYS_UNLINK, a as i64, 0, 0)) as i32;
    }
    let _g = enter();
    ret(k_unlink(&cstr(a))) as i32
}
macro_rules! other {
    ($name:ident, $nr:expr, $n:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(a: *const u8, b: i64) -> i32 {
            if !sim() {
                return ret(sc3($nr, a as i64, b, 0)) as i32;
            }
            let _g = enter();
            ret(k_other_mutation(stringify!($name), &cstr(a), $n)) as i32
        }
    };
}
other!(mkdir, SYS_MKDIR, EACCES);
other!(rmdir, SYS_RMDIR, EACCES);
#[no_mangle]
pub unsafe extern "C" fn link(a: *const u8, b: *const u8) -> i32 {
    linkat(-100, a, -100, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d: i32, a: *const u8, e: i32, b: *const u8, fl: i32) -> i32 {
    if !sim() {
        return ret(sc6(265, d as i64, a as i64, e as i64, b as i64, fl as i64, 0)) as i32;
    }
    let _g = enter();
    ret(k_link(&at(d, a), &at(e, b))) as i32
}
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const u8, b: *const u8) -> i32 {
    symlinkat(a, -100, b)
}
#[no_mangle]
pub unsafe extern "C" fn symlinkat(a: *const u8, d: i32, b: *const u8) -> i32 {
    if !sim() {
        return ret(sc3(266, a as i64, d as i64, b as i64)) as i32;
    }
    let _g = enter();
    ret(k_symlink(&cstr(a), &at(d, b))) as i32
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: i32, a: *const u8, fl: i32) -> i32 {
    if !sim() {
        return ret(sc3(263, d as i64, a as i64, fl as i64)) as i32;
    }
    let _g = enter();
    if fl & 0x200 != 0 {
        return ret(k_other_mutation("rmdir", &at(d, a), EACCES)) as i32;
    }
    ret(k_unlink(&at(d, a))) as i32
}
#[no_mangle]
pub unsafe extern "C" fn renameat(d: i32, a: *const u8, e: i32, b: *const u8) -> i32 {
    if !sim() {
        return ret(sc6(264, d as i64, a as i64, e as i64, b as i64, 0, 0)) as i32;
    }
    let _g = enter();
    ret(k_rename(&at(d, a), &at(e, b))) as i32
}
/// A path relative to an open directory.
unsafe fn at(d: i32, p: *const u8) -> String {
    let p = cstr(p);
    match dir_of(d) {
        Some(t) if !p.starts_with('/') => format!("{}/{}", t, p),
        _ => p.into_owned(),
    }
}
// Times and owners: nothing depends on their values, but a load must not change them.
macro_rules! attribute {
    ($name:ident($($a:ident: $t:ty),*), $path:expr, $what:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> i32 {
            if !sim() {
                type Fun = unsafe extern "C" fn($($t),*) -> i32;
                let f: Fun = std::mem::transmute(dlsym(-1i64 as *mut u8, concat!(stringify!($name), "\0").as_ptr()));
                return f($($a),*);
            }
            let _g = enter();
            let p: String = $path;
            ret(k_attribute($what, &p)) as i32
        }
    };
}
attribute!(futimens(fd: i32, _t: *const u8), fd_path(fd), "utime");
attribute!(utimensat(d: i32, p: *const u8, _t: *const u8, _f: i32), at(d, p), "utime");
attribute!(fchown(fd: i32, _u: u32, _g: u32), fd_path(fd), "chown");
attribute!(chown(p: *const u8, _u: u32, _g: u32), cstr(p).into_owned(), "chown");
attribute!(lchown(p: *const u8, _u: u32, _g: u32), cstr(p).into_owned(), "chown");
fn fd_path(fd: i32) -> String {
    of(fd).map_or(String::new(), |o| o.path.clone())
}
/// Whether a stream is a terminal is not the code's to decide.
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: i32) -> i32 {
    if !sim() {
        let f: extern "C" fn(i32) -> i32 = std::mem::transmute(dlsym(-1i64 as *mut u8, b"isatty\0".as_ptr()));
        return f(fd);
    }
    let _g = enter();
    if k_isatty(fd) {
        1
    } else {
        set_errno(25);
        0
    }
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const u8, m: u32) -> i32 {
    if !sim() {
        return ret(sc3(SYS_CHMOD, p as i64, m as i64, 0)) as i32;
    }
    let _g = enter();
    ret(k_chmod(Some(&cstr(p)), -1, m)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: i32, m: u32) -> i32 {
    if !sim() {
        return ret(sc3(SYS_FCHMOD, fd as i64, m as i64, 0)) as i32;
    }
    let _g = enter();
    ret(k_chmod(None, fd, m)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: i64) -> i32 {
    if !sim() || fd < 3 {
        return ret(sc3(SYS_FCNTL, fd as i64, cmd as i64, arg)) as i32;
    }
    let _g = enter();
    match cmd {
        0 | 1030 => ret(k_dup(fd)) as i32,
        _ => {
            if of(fd).is_some() {
                0
            } else {
                ret(-(EBADF as i64)) as i32
            }
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: i32) -> i32 {
    if !sim() || fd < 3 {
        return ret(sc3(SYS_DUP, fd as i64, 0, 0)) as i32;
    }
    let _g = enter();
    ret(k_dup(fd)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: i32, op: i32) -> i32 {
    if !sim() {
        return ret(sc3(SYS_FLOCK, fd as i64, op as i64, 0)) as i32;
    }
    let _g = enter();
    ret(k_flock(fd, op)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise64(_fd: i32, _o: i64, _l: i64, _a: i32) -> i32 {
    0
}
// The standard library falls back to read and write when these say "not here".
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: i32, b: *mut i64, c: i32, d: *mut i64, n: usize, f: u32) -> isize {
    if !sim() {
        return ret(sc6(SYS_COPY_FILE_RANGE, a as i64, b as i64, c as i64, d as i64, n as i64, f as i64)) as isize;
    }
    let _g = enter();
    ret(-(ENOSYS as i64)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: i32, b: i32, c: *mut i64, n: usize) -> isize {
    if !sim() {
        return ret(sc6(SYS_SENDFILE, a as i64, b as i64, c as i64, n as i64, 0, 0)) as isize;
    }
    let _g = enter();
    ret(-(ENOSYS as i64)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn splice(a: i32, b: *mut i64, c: i32, d: *mut i64, n: usize, f: u32) -> isize {
    if !sim() {
        return ret(sc6(SYS_SPLICE, a as i64, b as i64, c as i64, d as i64, n as i64, f as i64)) as isize;
    }
    let _g = enter();
    ret(-(EINVAL as i64)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(a: *mut u8, n: usize, prot: i32, fl: i32, fd: i32, off: i64) -> *mut u8 {
    if sim() && fd >= FD0 {
        // a private snapshot of the file
        let m = sc6(SYS_MMAP, 0, n as i64, 3, 0x22, -1, 0);
        if m > 0 {
            if let Some(o) = of(fd) {
                let d = &k().inodes[o.ino].data;
                let s = (off as usize).min(d.len());
                let l = (d.len() - s).min(n);
                std::ptr::copy_nonoverlapping(d[s..].as_ptr(), m as *mut u8, l);
            }
        }
        return ret(m) as *mut u8;
    }
    ret(sc6(SYS_MMAP, a as i64, n as i64, prot as i64, fl as i64, fd as i64, off)) as *mut u8
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const u8, out: *mut u8) -> *mut u8 {
    if !sim() || !out.is_null() {
        let f: extern "C" fn(*const u8, *mut u8) -> *mut u8 =
            std::mem::transmute(dlsym(-1i64 as *mut u8, b"realpath\0".as_ptr()));
        return f(p, out);
    }
    let _g = enter();
    let s = follow(&cstr(p)).unwrap_or_else(|_| norm(&cstr(p)));
    match k_stat(Some(&cstr(p)), -1, false) {
        Err(e) => {
            set_errno(e);
            std::ptr::null_mut()
        }
        Ok(_) => {
            let b = malloc(s.len() + 1);
            std::ptr::copy_nonoverlapping(s.as_ptr(), b, s.len());
            *b.add(s.len()) = 0;
            b
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const u8, b: *mut u8, n: usize) -> isize {
    if !sim() {
        return ret(sc3(SYS_READLINK, p as i64, b as i64, n as i64)) as isize;
    }
    let _g = enter();
    match k_readlink(&cstr(p)) {
        Ok(t) => {
            let m = t.len().min(n);
            std::ptr::copy_nonoverlapping(t.as_ptr(), b, m);
            m as isize
        }
        Err(e) => ret(-(e as i64)) as isize,
    }
}
#[no_mangle]
pub unsafe extern "C" fn chdir(p: *const u8) -> i32 {
    if !sim() {
        return ret(sc3(80, p as i64, 0, 0)) as i32;
    }
    let _g = enter();
    ret(k_chdir(&cstr(p))) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut u8, n: usize) -> *mut u8 {
    if !sim() {
        let f: extern "C" fn(*mut u8, usize) -> *mut u8 = std::mem::transmute(dlsym(-1i64 as *mut u8, b"getcwd\0".as_ptr()));
        return f(b, n);
    }
    let _g = enter();
    sched_point();
    let c = &k().cwd;
    if b.is_null() || n <= c.len() {
        set_errno(34);
        return std::ptr::null_mut();
    }
    std::ptr::copy_nonoverlapping(c.as_ptr(), b, c.len());
    *b.add(c.len()) = 0;
    b
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const u8, m: i32) -> i32 {
    if !sim() {
        return ret(sc3(21, p as i64, m as i64, 0)) as i32;
    }
    let _g = enter();
    match k_stat(Some(&cstr(p)), -1, false) {
        Ok(_) => 0,
        Err(e) => ret(-(e as i64)) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const u8) -> *mut u8 {
    if !sim() {
        let f: extern "C" fn(*const u8) -> *mut u8 = std::mem::transmute(dlsym(-1i64 as *mut u8, b"opendir\0".as_ptr()));
        return f(p);
    }
    let _g = enter();
    match k_opendir(&cstr(p)) {
        Ok(d) => Box::into_raw(Box::new(d)) as *mut u8,
        Err(e) => {
            set_errno(e);
            std::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut u8) -> *mut u8 {
    if !sim() {
        let f: extern "C" fn(*mut u8) -> *mut u8 = std::mem::transmute(dlsym(-1i64 as *mut u8, b"readdir64\0".as_ptr()));
        return f(d);
    }
    let _g = enter();
    let d = &mut *(d as *mut Dir);
    match k_readdir(d) {
        Ok(Some((name, ty, ino))) => {
            d.ent = [0; 280];
            d.ent[..8].copy_from_slice(&(ino as u64 + 1).to_le_bytes());
            d.ent[16..18].copy_from_slice(&280u16.to_le_bytes());
            d.ent[18] = ty;
            let n = name.len().min(255);
            d.ent[19..19 + n].copy_from_slice(&name.as_bytes()[..n]);
            d.ent.as_mut_ptr()
        }
        Ok(None) => std::ptr::null_mut(),
        Err(e) => {
            set_errno(e);
            std::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut u8) -> i32 {
    if !sim() {
        let f: extern "C" fn(*mut u8) -> i32 = std::mem::transmute(dlsym(-1i64 as *mut u8, b"closedir\0".as_ptr()));
        return f(d);
    }
    let _g = enter();
    let d = Box::from_raw(d as *mut Dir);
    k_closedir(&d);
    0
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut u8) -> i32 {
    if !sim() {
        let f: extern "C" fn(*mut u8) -> i32 = std::mem::transmute(dlsym(-1i64 as *mut u8, b"dirfd\0".as_ptr()));
        return f(d);
    }
    (*(d as *mut Dir)).fd
}

// ---- time and randomness ----------------------------------------------------------------
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
    if !sim() {
        return ret(sc3(SYS_CLOCK_GETTIME, id as i64, ts as i64, 0)) as i32;
    }
    let _g = enter();
    let kn = k();
    let t = if id == 0 { (kn.mono as i64 + kn.real_off) as u64 } else { kn.mono };
    *ts = [(t / 1_000_000_000) as i64, (t % 1_000_000_000) as i64];
    sched_point();
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, fl: i32, a: *const [i64; 2], b: *mut [i64; 2]) -> i32 {
    if !sim() {
        return -sc6(SYS_CLOCK_NANOSLEEP, id as i64, fl as i64, a as i64, b as i64, 0, 0) as i32;
    }
    let _g = enter();
    let t = (*a)[0] as u64 * 1_000_000_000 + (*a)[1] as u64;
    let d = if fl == 1 { t.saturating_sub(k().mono) } else { t };
    sleep_ns(d);
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const [i64; 2], b: *mut [i64; 2]) -> i32 {
    clock_nanosleep(1, 0, a, b)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if !sim() {
        return ret(sc3(SYS_SCHED_YIELD, 0, 0, 0)) as i32;
    }
    let _g = enter();
    yield_point();
    0
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut u8, n: usize, fl: u32) -> isize {
    if k_is_null() {
        return ret(sc3(SYS_GETRANDOM, b as i64, n as i64, fl as i64)) as isize;
    }
    for i in 0..n {
        let kn = k();
        kn.rnd += 1;
        *b.add(i) = crate::choice::mix(kn.hash_seed.wrapping_mul(0x9e37_79b9) ^ (kn.rnd << 20)) as u8;
    }
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, n: usize, m: *mut u8) -> i32 {
    if !sim() {
        let r = sc3(SYS_SCHED_GETAFFINITY, pid as i64, n as i64, m as i64);
        return if r < 0 { ret(r) as i32 } else { 0 };
    }
    let _g = enter();
    std::ptr::write_bytes(m, 0, n);
    *m = ((1u32 << k().ncpu.min(8)) - 1) as u8;
    0
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if !sim() {
        return ret(sc6(n, a, b, c, d, e, f));
    }
    let _g = enter();
    match n {
        SYS_FUTEX => {
            let op = b & 127;
            match op {
                0 | 9 => {
                    let dl = if d == 0 {
                        u64::MAX
                    } else {
                        let ts = *(d as *const [i64; 2]);
                        let t = (ts[0] as u64).saturating_mul(1_000_000_000).saturating_add(ts[1] as u64);
                        if op == 0 {
                            k().mono.saturating_add(t)
                        } else if b & 256 != 0 {
                            (t as i64 - k().real_off).max(0) as u64
                        } else {
                            t
                        }
                    };
                    ret(futex_wait(a as usize, c as u32, dl))
                }
                1 | 10 => ret(futex_wake(a as usize, c.max(0) as usize)),
                _ => ret(-(ENOSYS as i64)),
            }
        }
        SYS_GETRANDOM => getrandom(a as *mut u8, b as usize, c as u32) as i64,
        SYS_SCHED_YIELD => sched_yield() as i64,
        SYS_STATX => statx(a as i32, b as *const u8, c as i32, d as u32, e as *mut u8) as i64,
        SYS_COPY_FILE_RANGE => ret(-(ENOSYS as i64)),
        SYS_GETTID => 100 + tid() as i64,
        _ => ret(sc6(n, a, b, c, d, e, f)),
    }
}

// ---- threads ----------------------------------------------------------------------------
type Start = extern "C" fn(*mut u8) -> *mut u8;
struct Boot {
    t: usize,
    go: &'static AtomicU32,
    start: Start,
    arg: *mut u8,
}
extern "C" fn trampoline(p: *mut u8) -> *mut u8 {
    let b = unsafe { Box::from_raw(p as *mut Boot) };
    first_park(b.t, b.go);
    leave();
    let r = (b.start)(b.arg);
    drop(b);
    // thread-local destructors run here, still holding the token
    loop {
        let me = k().cur;
        match k().thr[me].dtors.pop() {
            Some((f, o)) => {
                let f: extern "C" fn(*mut u8) = unsafe { std::mem::transmute(f) };
                f(o as *mut u8);
            }
            None => break,
        }
    }
    let g = enter();
    std::mem::forget(g);
    thread_done();
    r
}
type PCreate = extern "C" fn(*mut usize, *const u8, Start, *mut u8) -> i32;
#[no_mangle]
pub unsafe extern "C" fn pthread_create(h: *mut usize, attr: *const u8, start: Start, arg: *mut u8) -> i32 {
    let f: PCreate = std::mem::transmute(dlsym(-1i64 as *mut u8, b"pthread_create\0".as_ptr()));
    if !sim() {
        return f(h, attr, start, arg);
    }
    let _g = enter();
    let t = new_thread();
    stat(ST_THREADS);
    if t >= 60 {
        finish(3, "", "more than 60 threads");
    }
    let b = Box::new(Boot { t, go: k().thr[t].go, start, arg });
    let r = f(h, attr, trampoline, Box::into_raw(b) as *mut u8);
    if r != 0 {
        finish(3, "", "pthread_create failed");
    }
    k().thr[t].pth = *h;
    log(Op::Spawn, 0, 0, t as u32, 0);
    sched_point();
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(h: usize, r: *mut *mut u8) -> i32 {
    let f: extern "C" fn(usize, *mut *mut u8) -> i32 =
        std::mem::transmute(dlsym(-1i64 as *mut u8, b"pthread_join\0".as_ptr()));
    if sim() {
        let _g = enter();
        if let Some(t) = k().thr.iter().rposition(|t| t.pth == h) {
            join(t);
        }
    }
    f(h, r)
}
#[no_mangle]
pub unsafe extern "C" fn __cxa_thread_atexit_impl(f: usize, o: usize, dso: usize) -> i32 {
    if sim() {
        let _g = enter();
        let me = k().cur;
        k().thr[me].dtors.push((f, o));
        return 0;
    }
    let g = dlsym(-1i64 as *mut u8, b"__cxa_thread_atexit_impl\0".as_ptr());
    if g.is_null() {
        return 0;
    }
    let g: extern "C" fn(usize, usize, usize) -> i32 = std::mem::transmute(g);
    g(f, o, dso)
}

#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if !sim() {
        return sc3(SYS_GETPID, 0, 0, 0) as i32;
    }
    4242
}
