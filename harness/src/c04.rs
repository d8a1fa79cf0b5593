//! C04 - arrays and XYZ triples. Array lengths are bounded here; the Verus layer has no bound.
use crate::mock::*;
use crate::sym::*;
use lcms2::io::IOHandler;
use lcms2::types::CIEXYZ;
use std::mem::forget;

#[cfg(kani)]
pub const N: usize = 4;
#[cfg(not(kani))]
pub const N: usize = CAP / 2;

fn num(b: [u8; 2]) -> u16 {
    if cfg!(feature = "le") { u16::from_le_bytes(b) } else { u16::from_be_bytes(b) }
}
fn fixed(b: [u8; 4]) -> i32 {
    if cfg!(feature = "le") { i32::from_le_bytes(b) } else { i32::from_be_bytes(b) }
}
fn out4(at: usize) -> [u8; 4] {
    unsafe { [OUT[at], OUT[at + 1], OUT[at + 2], OUT[at + 3]] }
}

obligations! {
    #[kani::unwind(6)]
    fn c04_read_u16_array() {
        reset();
        any_fault();
        let data: [u8; 2 * N] = any();
        unsafe { DATA[..2 * N].copy_from_slice(&data) };
        let before: [u16; N] = any();
        let mut a = before;
        let n: usize = any();
        assume(n <= N);
        let r = Mock.read_u16_array(&mut a[..n]);
        let i: usize = any();
        assume(i < N);
        let want = num([data[2 * i], data[2 * i + 1]]);
        unsafe {
            match &r {
                Ok(()) => {
                    reach!(n == N, "a full array is read");
                    check!(!FAILED, "an error of the stream is returned");
                    check!(POS == 2 * n, "exactly the bytes of the array are consumed");
                    check!(a[i] == if i < n { want } else { before[i] }, "each element is the number at its place");
                }
                Err(e) => {
                    reach!(POS > 0, "the stream fails part way");
                    check!(FAILED && is_fault(e), "only an error of the stream is returned, unchanged");
                    check!(!AFTER, "the stream is not accessed after an error");
                    check!(POS < 2 * n && POS % 2 == 0, "elements are transferred in order up to the failure");
                    check!(a[i] == if 2 * i < POS { want } else { before[i] }, "transferred elements stay, later ones are untouched");
                }
            }
            check!(WRITES == 0 && SEEKS == 0, "reading only reads");
        }
        forget(r);
    }
    #[kani::unwind(6)]
    fn c04_write_u16_array() {
        reset();
        any_fault();
        let a: [u16; N] = any();
        let n: usize = any();
        assume(n <= N);
        let r = Mock.write_u16_array(&a[..n]);
        unsafe {
            match &r {
                Ok(()) => {
                    reach!(n == N, "a full array is written");
                    check!(!FAILED, "an error of the stream is returned");
                    check!(OUT_POS == 2 * n, "exactly the bytes of the array are written");
                }
                Err(e) => {
                    reach!(OUT_POS > 0, "the stream fails part way");
                    check!(FAILED && is_fault(e), "only an error of the stream is returned, unchanged");
                    check!(!AFTER, "the stream is not accessed after an error");
                    check!(OUT_POS < 2 * n && OUT_POS % 2 == 0, "elements are transferred in order up to the failure");
                }
            }
            let i: usize = any();
            assume(i < N);
            if 2 * i < OUT_POS {
                check!(num([OUT[2 * i], OUT[2 * i + 1]]) == a[i], "each element is written at its place");
            }
            check!(READS == 0 && SEEKS == 0, "writing only writes");
        }
        forget(r);
    }
    fn c04_read_xyz() {
        reset();
        any_fault();
        let data: [[u8; 4]; 3] = any();
        unsafe {
            DATA[..4].copy_from_slice(&data[0]);
            DATA[4..8].copy_from_slice(&data[1]);
            DATA[8..12].copy_from_slice(&data[2]);
        }
        let r = Mock.read_xyz();
        match &r {
            Ok(v) => {
                reach!(true, "a triple is read");
                check!(unsafe { !FAILED }, "an error of the stream is returned");
                check!(unsafe { POS } == 12, "exactly twelve bytes are consumed");
                check!(v.X == fixed(data[0]) as f64 / 65536.0, "X is the first number");
                check!(v.Y == fixed(data[1]) as f64 / 65536.0, "Y is the second number");
                check!(v.Z == fixed(data[2]) as f64 / 65536.0, "Z is the third number");
            }
            Err(e) => {
                reach!(true, "the stream fails");
                check!(unsafe { FAILED && !AFTER } && is_fault(e), "only an error of the stream is returned, at once");
            }
        }
        forget(r);
    }
    fn c04_write_xyz() {
        reset();
        any_fault();
        // the numbers are exact fixed point numbers; how others are rounded is C03
        let k: [i32; 3] = any();
        let r = Mock.write_xyz(CIEXYZ { X: k[0] as f64 / 65536.0, Y: k[1] as f64 / 65536.0, Z: k[2] as f64 / 65536.0 });
        match &r {
            Ok(()) => {
                reach!(true, "a triple is written");
                check!(unsafe { !FAILED }, "an error of the stream is returned");
                check!(unsafe { OUT_POS } == 12, "exactly twelve bytes are written");
                check!(fixed(out4(0)) == k[0], "X is written first");
                check!(fixed(out4(4)) == k[1], "Y is written second");
                check!(fixed(out4(8)) == k[2], "Z is written third");
            }
            Err(e) => {
                reach!(true, "the stream fails");
                check!(unsafe { FAILED && !AFTER } && is_fault(e), "only an error of the stream is returned, at once");
                let n = unsafe { OUT_POS };
                check!(n == 0 || (fixed(out4(0)) == k[0] && (n == 4 || fixed(out4(4)) == k[1])), "what was written before the error is right");
            }
        }
        forget(r);
    }
}

/// Long arrays, for the native search: the Verus layer proves the arrays for any length.
#[cfg(not(kani))]
mod long {
    use super::*;
    use std::io::{Error, Result, SeekFrom};
    #[derive(Debug)]
    struct Long {
        seed: u32,
        pos: usize,
        left: usize,
        out: Vec<u8>,
        failed: bool,
        after: bool,
    }
    fn byte(seed: u32, i: usize) -> u8 {
        ((i as u32).wrapping_mul(2654435761).wrapping_add(seed) >> 11) as u8
    }
    impl Long {
        fn access(&mut self) -> Result<()> {
            self.after |= self.failed;
            if self.left == 0 {
                self.failed = true;
                return Err(Error::from_raw_os_error(1234567));
            }
            self.left -= 1;
            Ok(())
        }
    }
    impl IOHandler for Long {
        fn read(&mut self, buf: &mut [u8]) -> Result<()> {
            self.access()?;
            for b in buf {
                *b = byte(self.seed, self.pos);
                self.pos += 1;
            }
            Ok(())
        }
        fn seek(&mut self, _: SeekFrom) -> Result<()> {
            panic!("transferring an array seeks")
        }
        fn close(self) -> Result<()> {
            Ok(())
        }
        fn tell(&mut self) -> Result<usize> {
            Ok(self.pos)
        }
        fn write(&mut self, buf: &[u8]) -> Result<()> {
            self.access()?;
            self.out.extend_from_slice(buf);
            Ok(())
        }
    }
    fn length() -> usize {
        let x = any::<u32>() as usize;
        match any::<u8>() % 8 {
            0 => 65530 + x % 12,
            1 => 250 + x % 12,
            2 => x % 140_000,
            3 => (1 << (x % 17)) + (x >> 8) % 3,
            _ => x % 1500,
        }
    }
    fn stream() -> Long {
        let left = if any::<u8>() % 4 > 0 { usize::MAX } else { length() };
        Long { seed: any(), pos: 0, left, out: vec![], failed: false, after: false }
    }
    pub fn c04_read_long_array() {
        let mut s = stream();
        let n = length();
        let before: u16 = any();
        let mut a = vec![before; n];
        let r = s.read_u16_array(&mut a);
        check!(r.is_err() == s.failed && !s.after, "only an error of the stream is returned, at once");
        check!(if s.failed { s.pos < 2 * n } else { s.pos == 2 * n } && s.pos % 2 == 0, "exactly the bytes of the elements transferred are consumed");
        for i in 0..n {
            let want = num([byte(s.seed, 2 * i), byte(s.seed, 2 * i + 1)]);
            check!(a[i] == if 2 * i < s.pos { want } else { before }, "each element transferred is the number at its place, and no other is touched");
        }
    }
    pub fn c04_write_long_array() {
        let mut s = stream();
        let a: Vec<u16> = (0..length()).map(|i| u16::from_le_bytes([byte(s.seed, 2 * i), byte(s.seed, 2 * i + 1)])).collect();
        let r = s.write_u16_array(&a);
        check!(r.is_err() == s.failed && !s.after, "only an error of the stream is returned, at once");
        let n = s.out.len();
        check!(if s.failed { n < 2 * a.len() } else { n == 2 * a.len() } && n % 2 == 0, "exactly the bytes of the elements transferred are written");
        for i in 0..n / 2 {
            check!(num([s.out[2 * i], s.out[2 * i + 1]]) == a[i], "each element is written at its place");
        }
    }
}
/// Obligations which are only searched natively.
#[cfg(not(kani))]
pub fn more() -> Vec<(&'static str, fn())> {
    vec![("c04_read_long_array", long::c04_read_long_array as fn()), ("c04_write_long_array", long::c04_write_long_array)]
}
