//! C08 - signatures.
use crate::sym::*;
use lcms2::types::Signature;

fn num(s: Signature) -> u32 {
    u32::from(s)
}
fn pad(b: &[u8]) -> u32 {
    let at = |i: usize| if i < b.len() { b[i] as u32 } else { 0x20 };
    at(0) << 24 | at(1) << 16 | at(2) << 8 | at(3)
}
/// Is this valid UTF-8? (Unicode 15, table 3-7; written for four bytes)
fn valid(b: &[u8; 4]) -> bool {
    let mut i = 0;
    let c = |j: usize| j < 4 && b[j] & 0xC0 == 0x80;
    while i < 4 {
        let x = b[i];
        i += if x < 0x80 {
            1
        } else if x >= 0xC2 && x <= 0xDF && c(i + 1) {
            2
        } else if x >= 0xE0 && x <= 0xEF && c(i + 1) && c(i + 2)
            && (x != 0xE0 || b[i + 1] >= 0xA0) && (x != 0xED || b[i + 1] < 0xA0) {
            3
        } else if x >= 0xF0 && x <= 0xF4 && c(i + 1) && c(i + 2) && c(i + 3)
            && (x != 0xF0 || b[i + 1] >= 0x90) && (x != 0xF4 || b[i + 1] < 0x90) {
            4
        } else {
            return false;
        };
    }
    true
}

obligations! {
    fn c08_numbers_and_bytes() {
        let x: u32 = any();
        let s = Signature::from(x);
        check!(num(s) == x, "a number survives");
        let b: [u8; 4] = s.into();
        check!(u32::from_be_bytes(b) == x, "the bytes are the big endian packing");
        check!(num(Signature::new(&b)) == x && num(Signature::from(&b)) == x, "four bytes survive");
        check!(Signature::new(&b) == s && Signature::from(&b) == s, "equal signatures compare equal");
        let y: u32 = any();
        check!((Signature::from(y) == s) == (x == y), "signatures are equal exactly when their numbers are");
        check!(num(Signature::default()) == 0x20202020, "the default is four spaces");
    }
    fn c08_short_arrays() {
        let b: [u8; 3] = any();
        check!(num(Signature::from(&b)) == pad(&b), "three bytes are padded");
        let b: [u8; 2] = any();
        check!(num(Signature::from(&b)) == pad(&b), "two bytes are padded");
        let b: [u8; 1] = any();
        check!(num(Signature::from(&b)) == pad(&b), "one byte is padded");
    }
    fn c08_slices() {
        let n: usize = any();
        with_slice(n, |b| {
            reach!(b.len() > 1000, "a long slice");
            reach!(b.len() == 0, "an empty slice");
            check!(num(Signature::from(b)) == pad(b), "a slice is cut or padded to four");
        });
    }
    fn c08_text() {
        let n: usize = any();
        with_slice(n, |b| {
            #[cfg(not(kani))]
            if std::str::from_utf8(b).is_err() {
                return;
            }
            // any byte string stands for any text: the conversion may not depend on more than its bytes
            let s = unsafe { std::str::from_utf8_unchecked(b) };
            check!(num(Signature::from(s)) == pad(b), "text is cut or padded to four");
        });
    }
    #[kani::unwind(8)]
    fn c08_to_text() {
        let x: u32 = any();
        let b = x.to_be_bytes();
        let t: String = Signature::from(x).into();
        let want = if valid(&b) { b } else { [0x20; 4] };
        reach!(!valid(&b), "invalid");
        let t = t.into_bytes();
        check!(t.len() == 4, "the text has four bytes");
        check!(t[0] == want[0] && t[1] == want[1] && t[2] == want[2] && t[3] == want[3], "the text is the four characters, or four spaces");
        std::mem::forget(t);
    }
}

/// A slice of any length with any content.
#[cfg(kani)]
fn with_slice(n: usize, f: impl FnOnce(&[u8])) {
    assume(n < 1 << 40);
    let l = std::alloc::Layout::from_size_align(n, 1);
    match l {
        Ok(l) => {
            let b: &[u8] = if n == 0 { &[] } else {
                unsafe {
                    let p = std::alloc::alloc(l);
                    assume(!p.is_null());
                    for i in 0..5 {
                        if i < n { *p.add(i) = any(); }
                    }
                    std::slice::from_raw_parts(p, n)
                }
            };
            f(b)
        }
        Err(_) => (),
    }
}
#[cfg(not(kani))]
fn with_slice(n: usize, f: impl FnOnce(&[u8])) {
    let n = n % 3000;
    let v: Vec<u8> = (0..n).map(|_| any()).collect();
    f(&v)
}
