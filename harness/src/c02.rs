//! C02 - endianness helpers.
use crate::sym::*;
use lcms2::io::{big_endian, little_endian};

macro_rules! helpers {
    ($module:ident, $ints:ident, $arrays:ident, $t:ty, $n:literal, $from:ident) => {{
        let v: $t = any();
        let r = $module::$ints(v);
        check!(<$t>::$from(r.to_ne_bytes()) == v, "the bytes of the converted number store the number");
        check!(r == <$t>::$from(v.to_ne_bytes()), "a stored number is converted to its value");
        check!($module::$ints(r) == v, "the conversion is its own inverse");
        let a: [u8; $n] = any();
        let c = $module::$arrays(a);
        check!(<$t>::from_ne_bytes(c) == <$t>::$from(a), "a stored array is converted to the bytes of its value");
        check!($module::$arrays(c) == a, "the array conversion is its own inverse");
        check!($module::$arrays(v.to_ne_bytes()) == r.to_ne_bytes(), "array and integer forms agree");
    }};
}

obligations! {
    fn c02_big_16() { helpers!(big_endian, adjust_endianness_u16, adjust_endianness_16, u16, 2, from_be_bytes) }
    fn c02_big_32() { helpers!(big_endian, adjust_endianness_u32, adjust_endianness_32, u32, 4, from_be_bytes) }
    fn c02_big_64() { helpers!(big_endian, adjust_endianness_u64, adjust_endianness_64, u64, 8, from_be_bytes) }
    fn c02_little_16() { helpers!(little_endian, adjust_endianness_u16, adjust_endianness_16, u16, 2, from_le_bytes) }
    fn c02_little_32() { helpers!(little_endian, adjust_endianness_u32, adjust_endianness_32, u32, 4, from_le_bytes) }
    fn c02_little_64() { helpers!(little_endian, adjust_endianness_u64, adjust_endianness_64, u64, 8, from_le_bytes) }
}
