//! Inputs of obligations.
//!
//! Under Kani `any` is an unconstrained symbolic value. Natively (replay of a counterexample, or the
//! search for a concrete failing input of an obligation the verifier rejected) it is taken from a byte
//! string, in the same order and with the same sizes as Kani's concrete playback reports them.

#[cfg(kani)]
mod imp {
    pub use kani::Arbitrary as Sym;
    #[inline(always)]
    pub fn any<T: Sym>() -> T {
        kani::any()
    }
    #[inline(always)]
    pub fn assume(c: bool) {
        kani::assume(c)
    }
    /// A point which must be reachable (vacuity guard).
    #[macro_export]
    macro_rules! reach {
        ($c:expr, $m:literal) => {
            kani::cover!($c, $m)
        };
    }
    #[macro_export]
    macro_rules! check {
        ($c:expr, $m:literal) => {
            kani::assert($c, $m)
        };
    }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;

    pub enum Source {
        /// Recorded values, consumed front to back.
        Bytes(Vec<u8>, usize),
        /// Generated values; everything handed out is recorded.
        Rng(u64, Vec<u8>),
    }
    thread_local! { pub static SRC: RefCell<Source> = RefCell::new(Source::Bytes(vec![], 0)); }

    /// Panic payload of a violated assumption: the input is not in the domain of the obligation.
    pub struct OutOfDomain;

    fn next(s: &mut u64) -> u64 {
        *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = *s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// `n` bytes (little endian value), biased towards boundary values.
    fn draw(n: usize, interesting: &[u64]) -> Vec<u8> {
        SRC.with(|s| match &mut *s.borrow_mut() {
            Source::Bytes(b, pos) => {
                let mut v: Vec<u8> = b.iter().copied().skip(*pos).take(n).collect();
                *pos += n;
                v.resize(n, 0);
                v
            }
            Source::Rng(st, rec) => {
                let pick = next(st) % 8;
                let v = match pick {
                    0 => next(st) % 4,
                    1 => next(st) % 300,
                    2 => (next(st) % 4).wrapping_neg(),
                    3 => (1u64 << (next(st) % (8 * n as u64).max(1))).wrapping_sub(next(st) % 2),
                    4 | 5 if !interesting.is_empty() => interesting[next(st) as usize % interesting.len()],
                    _ => next(st),
                };
                let v = v.to_le_bytes()[..n].to_vec();
                rec.extend_from_slice(&v);
                v
            }
        })
    }
    pub trait Sym {
        fn sym() -> Self;
    }
    macro_rules! int { ($($t:ty),*) => { $(impl Sym for $t {
        fn sym() -> Self {
            let mut b = [0u8; std::mem::size_of::<$t>()];
            b.copy_from_slice(&draw(std::mem::size_of::<$t>(), &[]));
            <$t>::from_le_bytes(b)
        }
    })* } }
    int!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
    impl Sym for bool {
        fn sym() -> bool {
            draw(1, &[0, 1])[0] & 1 == 1
        }
    }
    impl Sym for f64 {
        fn sym() -> f64 {
            let vals: Vec<u64> = [
                0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 2.4, 0.25, 10.0, -10.0, 0.00005, -0.00005, 0.0001, 3.0,
                0.055, 0.947, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e22, -1e22, 1e300, 32767.99999, -32768.0,
                32768.0, 65536.0, 0.1, 0.9, 0.7, 1.5,
            ].iter().map(|f: &f64| f.to_bits()).collect();
            let mut b = [0u8; 8];
            b.copy_from_slice(&draw(8, &vals));
            f64::from_bits(u64::from_le_bytes(b))
        }
    }
    impl Sym for f32 {
        fn sym() -> f32 {
            f32::from_bits(u32::sym())
        }
    }
    impl<T: Sym, const N: usize> Sym for [T; N] {
        fn sym() -> Self {
            std::array::from_fn(|_| T::sym())
        }
    }
    pub fn any<T: Sym>() -> T {
        T::sym()
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(OutOfDomain)
        }
    }
    #[macro_export]
    macro_rules! reach {
        ($c:expr, $m:literal) => {
            let _ = $c;
        };
    }
    #[macro_export]
    macro_rules! check {
        ($c:expr, $m:literal) => {
            if !($c) {
                panic!("{}", $m)
            }
        };
    }
}
pub use imp::*;

/// Bytes of any number, with any content.
#[cfg(kani)]
pub fn any_bytes() -> Vec<u8> {
    let len: usize = any();
    assume(len <= 1 << 40);
    if len == 0 {
        return Vec::new();
    }
    unsafe {
        let p = std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(len, 1));
        assume(!p.is_null());
        Vec::from_raw_parts(p, len, len)
    }
}
#[cfg(not(kani))]
pub fn any_bytes() -> Vec<u8> {
    let len = match any::<u8>() % 16 {
        0 => any::<u32>() as usize % 80000,
        1..=6 => any::<u8>() as usize % 8,
        _ => any::<u16>() as usize % 700,
    };
    let seed: u32 = any();
    (0..len).map(|i| ((i as u32).wrapping_mul(2654435761).wrapping_add(seed) >> 13) as u8).collect()
}
pub use crate::{check, reach};

/// Declares obligations: each is a proof harness under Kani and an entry of the replay table natively.
#[macro_export]
macro_rules! obligations {
    ($( $(#[$m:meta])* fn $name:ident() $body:block )*) => {
        $(
            #[cfg_attr(kani, kani::proof)]
            $(#[cfg_attr(kani, $m)])*
            pub fn $name() $body
        )*
        #[cfg(not(kani))]
        pub fn list() -> Vec<(&'static str, fn())> {
            vec![$((stringify!($name), $name as fn())),*]
        }
    };
}
pub use crate::obligations;


/// An index below `n`.
#[cfg(kani)]
pub fn index(n: usize) -> usize {
    let i: usize = any();
    assume(i < n);
    i
}
#[cfg(not(kani))]
pub fn index(n: usize) -> usize {
    let i: usize = any();
    // recorded indices are below n already
    i % n
}

/// What a stream which fails returns: an error of the operating system, or one made from a kind.
#[derive(Clone, Copy)]
pub struct Fault {
    pub code: i32,
    pub kind: Option<std::io::ErrorKind>,
}
impl Fault {
    pub const NONE: Fault = Fault { code: 0, kind: None };
    pub fn any_kind() -> Option<std::io::ErrorKind> {
        use std::io::ErrorKind::*;
        match any::<u8>() {
            0..=63 => Some(UnexpectedEof),
            64..=79 => Some(InvalidData),
            80..=95 => Some(InvalidInput),
            96..=111 => Some(WouldBlock),
            112..=127 => Some(NotFound),
            128..=143 => Some(PermissionDenied),
            144..=159 => Some(Unsupported),
            160..=175 => Some(TimedOut),
            176..=191 => Some(Other),
            _ => None,
        }
    }
    pub fn error(&self) -> std::io::Error {
        match self.kind {
            Some(k) => std::io::Error::from(k),
            None => std::io::Error::from_raw_os_error(self.code),
        }
    }
    pub fn is(&self, e: &std::io::Error) -> bool {
        match self.kind {
            Some(k) => e.raw_os_error().is_none() && e.kind() == k,
            None => e.raw_os_error() == Some(self.code),
        }
    }
}
