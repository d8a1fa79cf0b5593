//! C01 - numbers in a stream.
use crate::mock::*;
use crate::sym::*;
use lcms2::io::IOHandler;
use std::mem::forget;

/// The stored representation of a number, per build configuration.
macro_rules! stored {
    ($t:ty, $b:expr) => {{
        #[cfg(not(feature = "le"))]
        let v = <$t>::from_be_bytes($b);
        #[cfg(feature = "le")]
        let v = <$t>::from_le_bytes($b);
        v
    }};
}
macro_rules! reads {
    ($call:ident, $bits:ty, $n:literal, |$v:ident| $to_bits:expr) => {{
        reset();
        any_fault();
        let b: [u8; $n] = any();
        unsafe { DATA[..$n].copy_from_slice(&b) };
        let r = Mock.$call();
        unsafe {
            match &r {
                Ok($v) => {
                    reach!(true, "the number is read");
                    check!(!FAILED, "an error of the stream is returned");
                    check!($to_bits == stored!($bits, b), "the value is the one stored in the next bytes");
                    check!(POS == $n, "exactly the bytes of the number are consumed");
                    check!(WRITES == 0 && SEEKS == 0, "reading a number only reads");
                }
                Err(e) => {
                    reach!(true, "the stream fails");
                    check!(FAILED && is_fault(e), "only an error of the stream is returned, unchanged");
                    check!(!AFTER, "the stream is not accessed after an error");
                }
            }
        }
        forget(r);
    }};
}
macro_rules! writes {
    ($call:ident, $t:ty, $bits:ty, $n:literal, |$v:ident| $to_bits:expr) => {{
        reset();
        any_fault();
        let $v: $t = any();
        let bits: $bits = $to_bits;
        let r = Mock.$call($v);
        unsafe {
            match &r {
                Ok(()) => {
                    reach!(true, "the number is written");
                    check!(!FAILED, "an error of the stream is returned");
                    check!(OUT_POS == $n, "exactly the bytes of the number are written");
                    let mut b = [0u8; $n];
                    b.copy_from_slice(&OUT[..$n]);
                    check!(stored!($bits, b) == bits, "the bytes written are those of the number");
                    check!(READS == 0 && SEEKS == 0, "writing a number only writes");
                }
                Err(e) => {
                    reach!(true, "the stream fails");
                    check!(FAILED && is_fault(e), "only an error of the stream is returned, unchanged");
                    check!(!AFTER, "the stream is not accessed after an error");
                }
            }
        }
        forget(r);
    }};
}
/// Lemma over the two postconditions, checked on the code itself: what was written reads back identically.
macro_rules! round_trip {
    ($w:ident, $r:ident, $t:ty, $n:literal, |$v:ident| $to_bits:expr) => {{
        reset();
        let $v: $t = any();
        let before = $to_bits;
        forget(Mock.$w($v));
        unsafe { DATA[..$n].copy_from_slice(&OUT[..$n]) };
        match Mock.$r() {
            Ok($v) => check!($to_bits == before, "a number written and read back is unchanged"),
            Err(e) => {
                forget(e);
                check!(false, "a number written can be read back")
            }
        }
    }};
}

obligations! {
    fn c01_read_u8() { reads!(read_u8, u8, 1, |v| *v) }
    fn c01_read_u16() { reads!(read_u16, u16, 2, |v| *v) }
    fn c01_read_u32() { reads!(read_u32, u32, 4, |v| *v) }
    fn c01_read_u64() { reads!(read_u64, u64, 8, |v| *v) }
    fn c01_read_f32() { reads!(read_f32, u32, 4, |v| v.to_bits()) }
    fn c01_write_u8() { writes!(write_u8, u8, u8, 1, |v| v) }
    fn c01_write_u16() { writes!(write_u16, u16, u16, 2, |v| v) }
    fn c01_write_u32() { writes!(write_u32, u32, u32, 4, |v| v) }
    fn c01_write_u64() { writes!(write_u64, u64, u64, 8, |v| v) }
    fn c01_write_f32() { writes!(write_f32, f32, u32, 4, |v| v.to_bits()) }
    fn c01_round_trip_u8() { round_trip!(write_u8, read_u8, u8, 1, |v| v) }
    fn c01_round_trip_u16() { round_trip!(write_u16, read_u16, u16, 2, |v| v) }
    fn c01_round_trip_u32() { round_trip!(write_u32, read_u32, u32, 4, |v| v) }
    fn c01_round_trip_u64() { round_trip!(write_u64, read_u64, u64, 8, |v| v) }
    fn c01_round_trip_f32() { round_trip!(write_f32, read_f32, f32, 4, |v| v.to_bits()) }
}
