//! C03 - 15.16 fixed point numbers.
use crate::mock::*;
use crate::sym::*;
use lcms2::io::IOHandler;
use std::mem::forget;

fn stored() -> i32 {
    let mut b = [0u8; 4];
    unsafe { b.copy_from_slice(&OUT[..4]) };
    if cfg!(feature = "le") { i32::from_le_bytes(b) } else { i32::from_be_bytes(b) }
}
fn store(x: i32) {
    let b = if cfg!(feature = "le") { x.to_le_bytes() } else { x.to_be_bytes() };
    unsafe { DATA[..4].copy_from_slice(&b) };
}

obligations! {
    fn c03_read_is_exact() {
        reset();
        let x: i32 = any();
        store(x);
        let r = Mock.read_s15f16();
        match &r {
            Ok(v) => {
                reach!(x == i32::MIN, "the most negative number is read");
                check!(*v == x as f64 / 65536.0, "the value is the stored number divided by 65536");
                check!(unsafe { POS } == 4, "exactly four bytes are consumed");
            }
            Err(_) => check!(false, "reading succeeds"),
        }
        forget(r);
    }
    fn c03_write_is_nearest() {
        reset();
        let v: f64 = any();
        let r = Mock.write_s15f16(v);
        check!(r.is_ok(), "writing succeeds");
        check!(unsafe { OUT_POS } == 4, "exactly four bytes are written");
        let q = stored();
        let x = v * 65536.0 + 0.5;
        if v.is_nan() {
            check!(q == 0, "NaN is stored as 0");
        } else if x >= 2147483648.0 {
            reach!(true, "too large");
            check!(q == i32::MAX, "a value above the range is stored as its upper end");
        } else if x < -2147483648.0 {
            reach!(true, "too small");
            check!(q == i32::MIN, "a value below the range is stored as its lower end");
        } else {
            reach!(true, "in range");
            check!(q as f64 <= x && x < q as f64 + 1.0, "the stored number is the nearest one");
        }
        forget(r);
    }
    fn c03_read_then_write_is_identity() {
        reset();
        let x: i32 = any();
        store(x);
        match Mock.read_s15f16() {
            Ok(v) => {
                forget(Mock.write_s15f16(v));
                check!(stored() == x, "a number that was read is written back unchanged");
            }
            Err(e) => {
                forget(e);
                check!(false, "reading succeeds");
            }
        }
    }
    fn c03_errors() {
        reset();
        any_fault();
        let write: bool = any();
        let r = if write { Mock.write_s15f16(1.5) } else { match Mock.read_s15f16() { Ok(_) => Ok(()), Err(e) => Err(e) } };
        match &r {
            Ok(()) => check!(unsafe { !FAILED }, "an error of the stream is returned"),
            Err(e) => check!(unsafe { FAILED && !AFTER } && is_fault(e), "only an error of the stream is returned, unchanged"),
        }
        forget(r);
    }
}
