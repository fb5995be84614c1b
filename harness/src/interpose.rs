//! Interposition of the libc file functions used by std and by the crates
//! under test. Definitions in the executable take precedence over libc's, so
//! every file operation of the linked crates can be observed, failed, cut
//! short, or used as a point at which other code runs.

use std::cell::Cell;
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_void};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, RwLock};

#[derive(Clone, Debug, PartialEq)]
pub enum Kind { Open, Read, Write, Pread, Pwrite, Seek, Trunc, Mmap, Madvise, Unlink }

#[derive(Clone, Debug)]
pub struct Op {
    pub kind: Kind,
    pub fd: i32,
    pub len: usize,
    pub off: i64,
    pub path: Option<String>,
    pub flags: i32,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    Pass,
    Fail(i32),
    /// Transfer at most this many bytes (reads and writes only).
    Short(usize),
}

pub type Hook = Arc<dyn Fn(&Op) -> Act + Send + Sync>;

static ACTIVE: AtomicBool = AtomicBool::new(false);
static HOOK: RwLock<Option<Hook>> = RwLock::new(None);

thread_local! {
    static IN_HOOK: Cell<bool> = const { Cell::new(false) };
    static MUTED: Cell<u32> = const { Cell::new(0) };
}

pub fn set(h: Hook) {
    *HOOK.write().unwrap() = Some(h);
    ACTIVE.store(true, Ordering::SeqCst);
}

pub fn reset() {
    ACTIVE.store(false, Ordering::SeqCst);
    let old = HOOK.write().unwrap().take();
    drop(old);
}

/// Run `f` with the hook installed, removing it afterwards, also on panic.
pub fn with<T>(h: Hook, f: impl FnOnce() -> T) -> T {
    struct G;
    impl Drop for G { fn drop(&mut self) { reset() } }
    set(h);
    let _g = G;
    f()
}

/// Run `f` with operations of this thread not reported to the hook.
pub fn muted<T>(f: impl FnOnce() -> T) -> T {
    struct G;
    impl Drop for G { fn drop(&mut self) { MUTED.with(|m| m.set(m.get() - 1)) } }
    MUTED.with(|m| m.set(m.get() + 1));
    let _g = G;
    f()
}

fn consult(op: impl FnOnce() -> Op) -> Act {
    if !ACTIVE.load(Ordering::Relaxed) { return Act::Pass; }
    if IN_HOOK.with(|c| c.get()) || MUTED.with(|m| m.get()) > 0 { return Act::Pass; }
    let hook = match HOOK.read() { Ok(g) => g.clone(), Err(_) => None };
    if let Some(h) = hook {
        struct G;
        impl Drop for G { fn drop(&mut self) { IN_HOOK.with(|c| c.set(false)) } }
        IN_HOOK.with(|c| c.set(true));
        let _g = G;
        let saved = unsafe { *libc::__errno_location() };
        let a = h(&op());
        unsafe { *libc::__errno_location() = saved; }
        a
    } else {
        Act::Pass
    }
}

fn fail(e: i32) -> i64 {
    unsafe { *libc::__errno_location() = e; }
    -1
}

fn op(kind: Kind, fd: i32, len: usize, off: i64) -> Op {
    Op { kind, fd, len, off, path: None, flags: 0 }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    let n = match consult(|| op(Kind::Read, fd, n, -1)) {
        Act::Pass => n,
        Act::Fail(e) => return fail(e) as isize,
        Act::Short(m) => n.min(m),
    };
    libc::syscall(libc::SYS_read, fd, buf, n) as isize
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    let n = if fd <= 2 { n } else {
        match consult(|| op(Kind::Write, fd, n, -1)) {
            Act::Pass => n,
            Act::Fail(e) => return fail(e) as isize,
            Act::Short(m) => n.min(m),
        }
    };
    libc::syscall(libc::SYS_write, fd, buf, n) as isize
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> isize {
    if fd > 2 {
        let total: usize = (0..cnt as usize).map(|i| (*iov.add(i)).iov_len).sum();
        match consult(|| op(Kind::Write, fd, total, -1)) {
            Act::Pass => {}
            Act::Fail(e) => return fail(e) as isize,
            Act::Short(m) => {
                // First buffer only, cut short
                for i in 0..cnt as usize {
                    let v = &*iov.add(i);
                    if v.iov_len > 0 {
                        return libc::syscall(libc::SYS_write, fd, v.iov_base,
                                             v.iov_len.min(m)) as isize;
                    }
                }
            }
        }
    }
    libc::syscall(libc::SYS_writev, fd, iov, cnt) as isize
}

#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: usize, off: i64) -> isize {
    let n = match consult(|| op(Kind::Pread, fd, n, off)) {
        Act::Pass => n,
        Act::Fail(e) => return fail(e) as isize,
        Act::Short(m) => n.min(m),
    };
    libc::syscall(libc::SYS_pread64, fd, buf, n, off) as isize
}

#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: usize, off: i64) -> isize {
    pread64(fd, buf, n, off)
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    let n = match consult(|| op(Kind::Pwrite, fd, n, off)) {
        Act::Pass => n,
        Act::Fail(e) => return fail(e) as isize,
        Act::Short(m) => n.min(m),
    };
    libc::syscall(libc::SYS_pwrite64, fd, buf, n, off) as isize
}

#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    pwrite64(fd, buf, n, off)
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    match consult(|| Op { flags: whence, ..op(Kind::Seek, fd, 0, off) }) {
        Act::Fail(e) => return fail(e),
        _ => {}
    }
    libc::syscall(libc::SYS_lseek, fd, off, whence)
}

#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, whence: c_int) -> i64 {
    lseek64(fd, off, whence)
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    match consult(|| op(Kind::Trunc, fd, 0, len)) {
        Act::Fail(e) => return fail(e) as c_int,
        _ => {}
    }
    libc::syscall(libc::SYS_ftruncate, fd, len) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: i64) -> c_int {
    ftruncate64(fd, len)
}

// `open` is variadic in C; the mode argument register is simply ignored by
// callers that do not pass one.
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    match consult(|| Op {
        path: Some(CStr::from_ptr(path).to_string_lossy().into_owned()),
        flags, ..op(Kind::Open, -1, 0, 0)
    }) {
        Act::Fail(e) => return fail(e) as c_int,
        _ => {}
    }
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode as libc::c_uint) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    open64(path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn mmap64(addr: *mut c_void, len: usize, prot: c_int, flags: c_int,
                                fd: c_int, off: i64) -> *mut c_void
{
    if fd >= 0 {
        match consult(|| op(Kind::Mmap, fd, len, off)) {
            Act::Fail(e) => { fail(e); return libc::MAP_FAILED }
            _ => {}
        }
    }
    libc::syscall(libc::SYS_mmap, addr, len, prot, flags, fd, off) as *mut c_void
}

#[no_mangle]
pub unsafe extern "C" fn mmap(addr: *mut c_void, len: usize, prot: c_int, flags: c_int,
                              fd: c_int, off: i64) -> *mut c_void
{
    mmap64(addr, len, prot, flags, fd, off)
}

#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    match consult(|| Op {
        path: Some(CStr::from_ptr(path).to_string_lossy().into_owned()),
        ..op(Kind::Unlink, -1, 0, 0)
    }) {
        Act::Fail(e) => return fail(e) as c_int,
        _ => {}
    }
    libc::syscall(libc::SYS_unlink, path) as c_int
}

// While a hook is installed, kernel side copies are declared unsupported, so
// that copying falls back to reads and writes, which are observed.
fn no_copy() -> bool {
    ACTIVE.load(Ordering::Relaxed) && !IN_HOOK.with(|c| c.get()) && MUTED.with(|m| m.get()) == 0
}

#[no_mangle]
pub unsafe extern "C" fn copy_file_range(fi: c_int, oi: *mut i64, fo: c_int, oo: *mut i64, n: usize,
                                         flags: libc::c_uint) -> isize
{
    if no_copy() { return fail(libc::ENOSYS) as isize; }
    libc::syscall(libc::SYS_copy_file_range, fi, oi, fo, oo, n, flags) as isize
}

#[no_mangle]
pub unsafe extern "C" fn sendfile64(fo: c_int, fi: c_int, off: *mut i64, n: usize) -> isize {
    if no_copy() { return fail(libc::ENOSYS) as isize; }
    libc::syscall(libc::SYS_sendfile, fo, fi, off, n) as isize
}

#[no_mangle]
pub unsafe extern "C" fn sendfile(fo: c_int, fi: c_int, off: *mut i64, n: usize) -> isize {
    sendfile64(fo, fi, off, n)
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> isize {
    let total: usize = (0..cnt as usize).map(|i| (*iov.add(i)).iov_len).sum();
    match consult(|| op(Kind::Read, fd, total, -1)) {
        Act::Pass => {}
        Act::Fail(e) => return fail(e) as isize,
        Act::Short(m) => {
            for i in 0..cnt as usize {
                let v = &*iov.add(i);
                if v.iov_len > 0 {
                    return libc::syscall(libc::SYS_read, fd, v.iov_base, v.iov_len.min(m)) as isize;
                }
            }
        }
    }
    libc::syscall(libc::SYS_readv, fd, iov, cnt) as isize
}

/// True if `fd` refers to a regular file.
pub fn is_regular(fd: i32) -> bool {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        libc::fstat(fd, &mut st) == 0 && (st.st_mode & libc::S_IFMT) == libc::S_IFREG
    }
}

/// Device and inode behind a descriptor.
pub fn ino_of(fd: i32) -> Option<(u64, u64)> {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        if libc::fstat(fd, &mut st) == 0 { Some((st.st_dev, st.st_ino)) } else { None }
    }
}
