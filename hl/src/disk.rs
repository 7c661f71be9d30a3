//! A disk that can fail, for P13 and P24 (native side only): the calls that write, rename and
//! remove files in this process go through here, and act on the thread's own setting.
use std::cell::Cell;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Disk {
    Good,
    /// There is room for so many more bytes
    Full(usize),
    /// The process dies after so many bytes are written: nothing it does later counts
    Dies(usize),
}
thread_local! { static DISK: Cell<Disk> = const { Cell::new(Disk::Good) }; }
pub fn with_disk<T>(d: Disk, f: impl FnOnce() -> T) -> T {
    DISK.with(|x| x.set(d));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    DISK.with(|x| x.set(Disk::Good));
    r.unwrap_or_else(|e| std::panic::resume_unwind(e))
}

type Int = std::os::raw::c_int;
type Ptr = *mut std::os::raw::c_void;
extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn __errno_location() -> *mut Int;
}
const SYS_WRITE: i64 = 1;
const SYS_RENAME: i64 = 82;
const SYS_UNLINK: i64 = 87;
const SYS_LINKAT: i64 = 265;

fn fail(code: Int) -> i64 {
    unsafe { *__errno_location() = code };
    -1
}
/// How much of so many bytes (or one operation) still gets done; None: the disk fails
fn budget(n: usize, is_write: bool) -> Option<usize> {
    DISK.with(|d| match d.get() {
        Disk::Good => Some(n),
        Disk::Full(_) if !is_write => Some(n),
        Disk::Full(left) => {
            d.set(Disk::Full(left - left.min(n)));
            (left > 0 || n == 0).then(|| left.min(n))
        }
        Disk::Dies(left) => {
            d.set(Disk::Dies(left - left.min(n)));
            (left > 0 || n == 0).then(|| left.min(n))
        }
    })
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: Int, buf: Ptr, n: usize) -> isize {
    match if fd > 2 { budget(n, true) } else { Some(n) } {
        Some(n) => syscall(SYS_WRITE, fd, buf, n) as isize,
        None => fail(28) as isize,
    }
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: Ptr, b: Ptr) -> Int {
    match budget(1, false) {
        Some(_) => syscall(SYS_RENAME, a, b) as Int,
        None => fail(5) as Int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: Ptr) -> Int {
    match budget(1, false) {
        Some(_) => syscall(SYS_UNLINK, a) as Int,
        None => fail(5) as Int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn linkat(fd: Int, a: Ptr, fd2: Int, b: Ptr, flags: Int) -> Int {
    match budget(1, false) {
        Some(_) => syscall(SYS_LINKAT, fd, a, fd2, b, flags) as Int,
        None => fail(5) as Int,
    }
}
