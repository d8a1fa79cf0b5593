//! The weakest environment an I/O handler allows: a stream with arbitrary content which may fail at any access.
//!
//! The handler is a zero sized type and its state is static, which keeps the verifier's heap model out of the proofs.
use crate::sym::*;
use lcms2::io::IOHandler;
use std::io::{Error, Result, SeekFrom};

/// Room for what the properties of this build need: large arrays are costly to the verifier.
pub const CAP: usize = if cfg!(not(kani)) {
    2000
} else {
    16
};

/// Bytes a read delivers.
pub static mut DATA: [u8; CAP] = [0; CAP];
/// Bytes handed to write.
pub static mut OUT: [u8; CAP] = [0; CAP];
pub static mut POS: usize = 0;
pub static mut OUT_POS: usize = 0;
/// Length reported for the end of the stream.
pub static mut LEN: u64 = 0;
/// Position after seeks; only the seek obligations use it.
pub static mut SEEK_POS: u64 = 0;
/// Number of accesses made so far, and the one which fails.
pub static mut ACCESS: usize = 0;
pub static mut FAIL_AT: usize = usize::MAX;
pub static mut FAULT: Fault = Fault::NONE;
pub static mut FAILED: bool = false;
/// An access was made after a failed one.
pub static mut AFTER: bool = false;
pub static mut READS: usize = 0;
pub static mut WRITES: usize = 0;
pub static mut SEEKS: usize = 0;

pub fn reset() {
    unsafe {
        POS = 0;
        OUT_POS = 0;
        OUT = [0; CAP];
        LEN = 0;
        SEEK_POS = 0;
        ACCESS = 0;
        FAIL_AT = usize::MAX;
        FAILED = false;
        AFTER = false;
        READS = 0;
        WRITES = 0;
        SEEKS = 0;
    }
}
/// The stream fails at an arbitrary access (or never) with an arbitrary error.
pub fn any_fault() {
    unsafe {
        FAIL_AT = any();
        FAULT = Fault { code: any(), kind: Fault::any_kind() };
    }
}
fn access() -> Result<()> {
    unsafe {
        if FAILED {
            AFTER = true;
        }
        let n = ACCESS;
        ACCESS = n.wrapping_add(1);
        if n == FAIL_AT {
            FAILED = true;
            return Err(FAULT.error());
        }
    }
    Ok(())
}
/// Is this the error of the stream?
pub fn is_fault(e: &Error) -> bool {
    unsafe { FAULT.is(e) }
}

#[derive(Debug)]
pub struct Mock;

impl IOHandler for Mock {
    fn read(&mut self, buf: &mut [u8]) -> Result<()> {
        access()?;
        unsafe {
            READS += 1;
            let n = buf.len();
            buf.copy_from_slice(&DATA[POS..POS + n]);
            POS += n;
        }
        Ok(())
    }
    fn seek(&mut self, pos: SeekFrom) -> Result<()> {
        access()?;
        unsafe {
            SEEKS += 1;
            SEEK_POS = match pos {
                SeekFrom::Start(n) => n,
                SeekFrom::End(d) => LEN.wrapping_add(d as u64),
                SeekFrom::Current(d) => SEEK_POS.wrapping_add(d as u64),
            };
        }
        Ok(())
    }
    fn close(self) -> Result<()> {
        access()
    }
    fn tell(&mut self) -> Result<usize> {
        access()?;
        unsafe { Ok(SEEK_POS as usize) }
    }
    fn write(&mut self, buf: &[u8]) -> Result<()> {
        access()?;
        unsafe {
            WRITES += 1;
            let n = buf.len();
            OUT[OUT_POS..OUT_POS + n].copy_from_slice(buf);
            OUT_POS += n;
        }
        Ok(())
    }
}
