//! A profile file in a stream of arbitrary content which may fail at any access.
use crate::sym::*;
use lcms2::io::IOHandler;
use lcms2::types::profile_verif::*;
use lcms2::types::*;
use std::io::{Error, Result, SeekFrom};

/// Entries of the tag table the stream can hold.
pub const N: usize = if cfg!(not(kani)) {
    102
} else if cfg!(any(feature = "c11", feature = "c12")) {
    if cfg!(feature = "deep") { 3 } else { 2 }
} else if cfg!(feature = "deep") {
    4
} else {
    3
};
pub const CAP: usize = 132 + 12 * N;
pub static mut DATA: [u8; CAP] = [0; CAP];
/// Where the stream really ends.
pub static mut AVAIL: usize = 0;
/// The length it reports.
pub static mut LEN: u64 = 0;
pub static mut POS: u64 = 0;
/// The stream is at its end, after seeking there, and not at POS.
pub static mut AT_END: bool = false;
pub static mut ACCESS: usize = 0;
pub static mut FAIL_AT: usize = usize::MAX;
// Neither EINTR, which may be retried, nor the code of any other error.
pub static mut FAULT: Fault = Fault::NONE;
pub static mut FAILED: bool = false;
pub static mut WRITTEN: bool = false;

#[derive(Debug)]
pub struct Stream;

fn fail() -> Error {
    unsafe {
        FAILED = true;
        FAULT.error()
    }
}
fn access() -> Result<()> {
    unsafe {
        let n = ACCESS;
        ACCESS = n.wrapping_add(1);
        if n == FAIL_AT { Err(fail()) } else { Ok(()) }
    }
}
impl IOHandler for Stream {
    // The position is the same whether or not an access fails: nothing depends on it after a failure,
    // and it stays a constant for the verifier.
    fn read(&mut self, buf: &mut [u8]) -> Result<()> {
        unsafe {
            let (n, p) = (buf.len(), POS as usize);
            POS = POS.wrapping_add(n as u64);
            access()?;
            if AT_END || p > AVAIL || n > AVAIL - p {
                return Err(fail());
            }
            buf.copy_from_slice(&DATA[p..p + n]);
        }
        Ok(())
    }
    fn seek(&mut self, pos: SeekFrom) -> Result<()> {
        unsafe {
            match pos {
                SeekFrom::End(0) => AT_END = true,
                SeekFrom::Start(n) => {
                    AT_END = false;
                    POS = n;
                }
                SeekFrom::End(d) => {
                    AT_END = false;
                    POS = LEN.wrapping_add(d as u64);
                }
                SeekFrom::Current(d) => POS = POS.wrapping_add(d as u64),
            };
        }
        access()
    }
    fn close(self) -> Result<()> {
        access()
    }
    fn tell(&mut self) -> Result<usize> {
        access()?;
        unsafe { Ok(if AT_END { LEN } else { POS } as usize) }
    }
    fn write(&mut self, _: &[u8]) -> Result<()> {
        unsafe { WRITTEN = true };
        access()
    }
}
pub fn is_fault(e: &Error) -> bool {
    unsafe { FAULT.is(e) }
}
pub fn u32_at(i: usize) -> u32 {
    unsafe { u32::from_be_bytes([DATA[i], DATA[i + 1], DATA[i + 2], DATA[i + 3]]) }
}
pub fn u16_at(i: usize) -> u16 {
    unsafe { u16::from_be_bytes([DATA[i], DATA[i + 1]]) }
}
pub fn sig_at(i: usize) -> Signature {
    Signature::from(u32_at(i))
}
pub fn put(i: usize, b: &[u8]) {
    unsafe { DATA[i..i + b.len()].copy_from_slice(b) }
}
/// A stream of `entries` entries with any content and no fault.
pub fn any_stream(entries: usize) {
    unsafe {
        POS = 0;
        AT_END = false;
        ACCESS = 0;
        FAIL_AT = usize::MAX;
        FAILED = false;
        WRITTEN = false;
        FAULT = Fault { code: 1234567, kind: None };
        LEN = any();
        AVAIL = 132 + 12 * entries;
        let h: [u8; 132] = any();
        DATA[..132].copy_from_slice(&h);
        for i in 0..entries {
            let e: [u8; 12] = any();
            DATA[132 + 12 * i..144 + 12 * i].copy_from_slice(&e);
        }
        // the search would hardly hit these by itself
        #[cfg(not(kani))]
        {
            if any::<u8>() > 20 {
                put(36, b"acsp");
            }
            if any::<u8>() > 20 {
                put(28, &[0, any::<u8>() % 30, 0, any::<u8>() % 24, 0, any::<u8>() % 60, 0, any::<u8>() % 61]);
                put(26, &[0, any::<u8>() % 13]);
            }
            if any::<u8>() > 50 {
                let n = if any::<u8>() > 20 { (entries as u32).min(u32_at(128) % 103) } else { entries as u32 };
                put(128, &n.to_be_bytes());
            }
            if any::<u8>() > 40 {
                LEN %= 3000;
                if any() {
                    put(0, &(any::<u32>() % 3000).to_be_bytes());
                }
                let (few, names) = (any::<u8>() % 8 + 1, any::<u8>() % 8 + 1);
                for i in 0..entries {
                    let at = 132 + 12 * i;
                    if any::<u8>() > 40 {
                        put(at, &[b't', b'a', b'g', any::<u8>() % names]);
                    }
                    if any::<u8>() > 40 {
                        put(at + 4, &((any::<u32>() % few as u32) * 300).to_be_bytes());
                        put(at + 8, &((any::<u32>() % few as u32) * 100).to_be_bytes());
                    }
                }
            }
        }
    }
}
/// A number of tags: the verifier has N, natively it is any the table can hold.
pub fn any_count() -> usize {
    #[cfg(kani)]
    return N;
    #[cfg(not(kani))]
    return match any::<u8>() % 4 {
        0 => 98 + any::<u8>() as usize % 3,
        1 => any::<u8>() as usize % 5,
        _ => any::<u8>() as usize % 101,
    };
}
/// A well-formed header, except for the size it states.
pub fn good_header(count: u32) {
    put(36, b"acsp");
    put(24, &[7, 208, 0, 1, 0, 2, 0, 3, 0, 4, 0, 5]);
    put(128, &count.to_be_bytes());
}
pub fn good_magic() -> bool {
    u32_at(36) == 0x61637370
}
fn days(y: u16, m: u16) -> u16 {
    match m {
        4 | 6 | 9 | 11 => 30,
        2 if (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 => 29,
        2 => 28,
        _ => 31,
    }
}
pub fn good_date() -> bool {
    let (y, m, d) = (u16_at(24), u16_at(26), u16_at(28));
    m >= 1 && m <= 12 && d >= 1 && d <= days(y, m) && u16_at(30) < 24 && u16_at(32) < 60 && u16_at(34) < 60
}
/// A blank profile which reads from the stream.
pub fn blank() -> Profile {
    let mut p = Profile::new();
    set_io_handler(&mut p, Some(Box::new(Stream)));
    p
}
/// Does the data of the `i`-th entry of the tag table end within the file?
pub fn in_bounds(i: usize) -> bool {
    let end = u32_at(132 + 12 * i + 4) as u64 + u32_at(132 + 12 * i + 8) as u64;
    end <= u32_at(0) as u64 && end <= unsafe { LEN }
}
