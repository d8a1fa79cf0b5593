//! C26 - disk files, over a model of the operating system's files: the functions below stand in for the
//! C library's, both for the verifier and natively, and the standard library runs on top of them.
use crate::sym::*;
use lcms2::io::IOHandler;
use std::fs::File;
use std::io::SeekFrom;
use std::os::fd::FromRawFd;

const FD: i32 = 1 << 20;
const CAP: usize = 6;
const STEPS: usize = if cfg!(feature = "deep") { 5 } else { 3 };
const EINTR: i32 = 4;
const EIO: i32 = 5;
const EINVAL: i32 = 22;

/// What the next calls do: transfer at most so many bytes, be interrupted (-1) or fail (-2).
static mut PLAN: [i8; STEPS] = [0; STEPS];
static mut STEP: usize = 0;
static mut DATA: [u8; CAP] = [0; CAP];
static mut LEN: usize = 0;
static mut POS: i64 = 0;
static mut FAILED: bool = false;
/// A read found the end of the file, or a write could transfer nothing.
static mut ENDED: bool = false;
static mut SYNCS: usize = 0;
static mut SYNCED: bool = false;
static mut CLOSED: bool = false;
static mut LATE: bool = false;

#[cfg(kani)]
static mut ERRNO: i32 = 0;
#[cfg(kani)]
unsafe fn __errno_location() -> *mut i32 {
    &mut ERRNO
}
#[cfg(not(kani))]
extern "C" {
    fn __errno_location() -> *mut i32;
    fn syscall(n: i64, ...) -> i64;
}
unsafe fn errno(e: i32) -> i64 {
    *__errno_location() = e;
    -1
}
/// The standard library's system calls.
#[cfg(kani)]
mod std_calls {
    use super::*;
    use std::io::{Error, Result};
    use std::os::fd::OwnedFd;
    fn cvt(r: i64) -> Result<u64> {
        if r == -1 { Err(Error::from_raw_os_error(unsafe { ERRNO })) } else { Ok(r as u64) }
    }
    pub fn read(_: &mut File, buf: &mut [u8]) -> Result<usize> {
        cvt(unsafe { super::read(FD, buf.as_mut_ptr(), buf.len()) } as i64).map(|n| n as usize)
    }
    pub fn write(_: &mut File, buf: &[u8]) -> Result<usize> {
        cvt(unsafe { super::write(FD, buf.as_ptr(), buf.len()) } as i64).map(|n| n as usize)
    }
    pub fn seek(_: &mut File, to: SeekFrom) -> Result<u64> {
        let (w, d) = match to {
            SeekFrom::Start(n) => (0, n as i64),
            SeekFrom::End(d) => (2, d),
            SeekFrom::Current(d) => (1, d),
        };
        cvt(unsafe { do_lseek(d, w) })
    }
    pub fn tell(_: &mut File) -> Result<u64> {
        cvt(unsafe { do_lseek(0, 1) })
    }
    pub fn sync(_: &File) -> Result<()> {
        // retried when interrupted, like the standard library does
        loop {
            let r = cvt(unsafe { super::sync() } as i64);
            if r.is_ok() || unsafe { ERRNO } != EINTR {
                return r.map(|_| ());
            }
        }
    }
    pub fn drop(_: &mut OwnedFd) {
        unsafe { CLOSED = true };
    }
}
/// Calls for other files are passed on.
macro_rules! other {
    ($fd:ident, $n:literal $(, $a:expr)*) => {
        if $fd != FD {
            #[cfg(not(kani))]
            return syscall($n, $fd as i64 $(, $a)*) as _;
            #[cfg(kani)]
            return errno(EINVAL) as _;
        }
    };
}
unsafe fn step() -> i8 {
    LATE |= CLOSED;
    let s = STEP;
    STEP += 1;
    let p = if s < STEPS { PLAN[s] } else { 127 };
    FAILED |= p == -2;
    p
}
#[cfg_attr(not(kani), no_mangle)]
unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    other!(fd, 0, buf, n);
    match step() {
        -1 => errno(EINTR) as isize,
        -2 => errno(EIO) as isize,
        k => {
            let left = if (POS as usize) < LEN && POS >= 0 { LEN - POS as usize } else { 0 };
            let m = n.min(if k < 1 { 1 } else { k as usize }).min(left);
            ENDED |= m == 0;
            for i in 0..CAP {
                if i < m {
                    *buf.add(i) = DATA[POS as usize + i];
                }
            }
            POS += m as i64;
            m as isize
        }
    }
}
#[cfg_attr(not(kani), no_mangle)]
unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    other!(fd, 1, buf, n);
    match step() {
        -1 => errno(EINTR) as isize,
        -2 => errno(EIO) as isize,
        k => {
            let m = n.min(k as usize).min(CAP - POS as usize);
            ENDED |= m == 0;
            for i in 0..CAP {
                if i < m {
                    DATA[POS as usize + i] = *buf.add(i);
                }
            }
            POS += m as i64;
            LEN = LEN.max(POS as usize);
            m as isize
        }
    }
}
unsafe fn do_lseek(off: i64, whence: i32) -> i64 {
    if step() == -2 {
        return errno(EIO);
    }
    let base = match whence {
        0 => 0,
        1 => POS,
        2 => LEN as i64,
        _ => return errno(EINVAL),
    };
    match base.checked_add(off) {
        Some(p) if p >= 0 => {
            POS = p;
            p
        }
        _ => errno(EINVAL),
    }
}
#[cfg_attr(not(kani), no_mangle)]
unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
    other!(fd, 8, off, whence as i64);
    do_lseek(off, whence)
}
#[cfg_attr(not(kani), no_mangle)]
unsafe extern "C" fn lseek(fd: i32, off: i64, whence: i32) -> i64 {
    other!(fd, 8, off, whence as i64);
    do_lseek(off, whence)
}
unsafe fn sync() -> i32 {
    SYNCS += 1;
    match step() {
        -1 => errno(EINTR) as i32,
        -2 => errno(EIO) as i32,
        _ => {
            SYNCED = true;
            0
        }
    }
}
#[cfg_attr(not(kani), no_mangle)]
unsafe extern "C" fn fsync(fd: i32) -> i32 {
    other!(fd, 74);
    sync()
}
#[cfg_attr(not(kani), no_mangle)]
unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
    other!(fd, 75);
    sync()
}
#[cfg_attr(not(kani), no_mangle)]
unsafe extern "C" fn close(fd: i32) -> i32 {
    other!(fd, 3);
    CLOSED = true;
    0
}

/// Is the file open? The standard library asks before it closes one.
#[cfg(not(kani))]
#[no_mangle]
unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: usize) -> i32 {
    other!(fd, 72, cmd as i64, arg);
    0
}
#[cfg(not(kani))]
#[no_mangle]
unsafe extern "C" fn fcntl64(fd: i32, cmd: i32, arg: usize) -> i32 {
    fcntl(fd, cmd, arg)
}

/// A file of any content and length at any position within it, on a system which does anything.
fn file() -> File {
    unsafe {
        PLAN = any();
        for p in PLAN.iter_mut() {
            #[cfg(not(kani))]
            {
                *p = *p % 3;
            }
            assume(*p >= -2);
        }
        STEP = 0;
        DATA = any();
        LEN = any();
        POS = any();
        #[cfg(not(kani))]
        {
            LEN %= CAP + 1;
            POS = POS.rem_euclid(LEN as i64 + 1);
        }
        assume(LEN <= CAP && POS >= 0 && POS <= LEN as i64);
        FAILED = false;
        ENDED = false;
        SYNCS = 0;
        SYNCED = false;
        CLOSED = false;
        LATE = false;
        File::from_raw_fd(FD)
    }
}

obligations! {
    #[kani::unwind(8)]
    #[kani::stub(<std::fs::File as std::io::Read>::read, std_calls::read)]
    #[kani::stub(<std::fs::File as std::io::Write>::write, std_calls::write)]
    #[kani::stub(<std::fs::File as std::io::Seek>::seek, std_calls::seek)]
    #[kani::stub(<std::fs::File as std::io::Seek>::stream_position, std_calls::tell)]
    #[kani::stub(std::fs::File::sync_data, std_calls::sync)]
    #[kani::stub(std::fs::File::sync_all, std_calls::sync)]
    #[kani::stub(<std::os::fd::OwnedFd as std::ops::Drop>::drop, std_calls::drop)]
    fn c26_read() {
        let mut f = file();
        let pos = unsafe { POS } as usize;
        let n: usize = any();
        #[cfg(not(kani))]
        let n = n % 4;
        assume(n <= 3);
        let mut buf = [0u8; 3];
        let r = IOHandler::read(&mut f, &mut buf[..n]);
        unsafe {
            match &r {
                Ok(()) => {
                    check!(POS as usize == pos + n, "a read advances by the length of the buffer");
                    let mut same = true;
                    for i in 0..3 {
                        same &= if i < n { buf[i] == DATA[pos + i] } else { buf[i] == 0 };
                    }
                    check!(same, "a read fills the buffer with the bytes at the position");
                    check!(!FAILED, "a read which the system fails is not successful");
                    reach!(STEP > 2, "in pieces");
                }
                Err(_) => check!(FAILED || ENDED, "a read fails only when the system fails it or the file ends"),
            }
        }
        std::mem::forget((r, f));
    }
    #[kani::unwind(8)]
    #[kani::stub(<std::fs::File as std::io::Read>::read, std_calls::read)]
    #[kani::stub(<std::fs::File as std::io::Write>::write, std_calls::write)]
    #[kani::stub(<std::fs::File as std::io::Seek>::seek, std_calls::seek)]
    #[kani::stub(<std::fs::File as std::io::Seek>::stream_position, std_calls::tell)]
    #[kani::stub(std::fs::File::sync_data, std_calls::sync)]
    #[kani::stub(std::fs::File::sync_all, std_calls::sync)]
    #[kani::stub(<std::os::fd::OwnedFd as std::ops::Drop>::drop, std_calls::drop)]
    fn c26_write() {
        let mut f = file();
        let (pos, old, len) = unsafe { (POS as usize, DATA, LEN) };
        let n: usize = any();
        #[cfg(not(kani))]
        let n = n % 4;
        assume(n <= 3);
        let buf: [u8; 3] = any();
        let r = IOHandler::write(&mut f, &buf[..n]);
        unsafe {
            match &r {
                Ok(()) => {
                    check!(POS as usize == pos + n, "a write advances by the length of the buffer");
                    let mut same = true;
                    for i in 0..CAP {
                        same &= DATA[i] == if i >= pos && i < pos + n { buf[i - pos] } else { old[i] };
                    }
                    check!(same, "a write replaces the bytes at the position");
                    check!(LEN == len.max(pos + n), "a write extends the file only as needed");
                    check!(!FAILED, "a write which the system fails is not successful");
                    reach!(STEP > 2, "in pieces");
                }
                Err(_) => check!(FAILED || ENDED, "a write fails only when the system fails it or transfers nothing"),
            }
        }
        std::mem::forget((r, f));
    }
    #[kani::unwind(8)]
    #[kani::stub(<std::fs::File as std::io::Read>::read, std_calls::read)]
    #[kani::stub(<std::fs::File as std::io::Write>::write, std_calls::write)]
    #[kani::stub(<std::fs::File as std::io::Seek>::seek, std_calls::seek)]
    #[kani::stub(<std::fs::File as std::io::Seek>::stream_position, std_calls::tell)]
    #[kani::stub(std::fs::File::sync_data, std_calls::sync)]
    #[kani::stub(std::fs::File::sync_all, std_calls::sync)]
    #[kani::stub(<std::os::fd::OwnedFd as std::ops::Drop>::drop, std_calls::drop)]
    fn c26_seek_tell() {
        let mut f = file();
        unsafe {
            let d: i64 = any();
            let (pos, len) = (POS as i128, LEN as i128);
            let which: u8 = any();
            let (to, want) = match which % 3 {
                0 => (SeekFrom::Start(d as u64), d as u64 as i128),
                1 => (SeekFrom::Current(d), pos + d as i128),
                _ => (SeekFrom::End(d), len + d as i128),
            };
            let r = IOHandler::seek(&mut f, to);
            if FAILED {
                check!(r.is_err(), "a seek which the system fails is not successful");
            } else {
                check!(r.is_ok() == (want >= 0 && want <= i64::MAX as i128), "a seek within the file's range succeeds");
            }
            check!(POS as i128 == if r.is_ok() { want } else { pos }, "a seek moves to the place asked for");
            let at = POS;
            FAILED = false;
            let t = IOHandler::tell(&mut f);
            match &t {
                Ok(p) => check!(*p == at as usize && !FAILED, "tell returns the position"),
                Err(_) => check!(FAILED, "tell fails only when the system fails it"),
            }
            check!(POS == at, "tell does not move");
            reach!(r.is_ok() && t.is_ok() && at > 5, "moved");
            std::mem::forget((r, t, f));
        }
    }
    #[kani::unwind(8)]
    #[kani::stub(<std::fs::File as std::io::Read>::read, std_calls::read)]
    #[kani::stub(<std::fs::File as std::io::Write>::write, std_calls::write)]
    #[kani::stub(<std::fs::File as std::io::Seek>::seek, std_calls::seek)]
    #[kani::stub(<std::fs::File as std::io::Seek>::stream_position, std_calls::tell)]
    #[kani::stub(std::fs::File::sync_data, std_calls::sync)]
    #[kani::stub(std::fs::File::sync_all, std_calls::sync)]
    #[kani::stub(<std::os::fd::OwnedFd as std::ops::Drop>::drop, std_calls::drop)]
    fn c26_close() {
        let f = file();
        let r = IOHandler::close(f);
        unsafe {
            check!(SYNCS > 0, "closing synchronises the data");
            check!(r.is_ok() == (SYNCED && !FAILED), "closing reports that the data could not be synchronised");
            check!(!LATE, "the data is synchronised before the file is closed");
            check!(CLOSED, "closing closes the file");
            reach!(SYNCS == 2 && r.is_ok(), "interrupted");
        }
        std::mem::forget(r);
    }
}
