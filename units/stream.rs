// The methods every I/O handler has, over any stream: numbers (C01), arrays of any length and XYZ triples (C04), the size (C07).
use vstd::prelude::*;
@SUB * \b(u16|u32|u64)::from_([nbl]e)_bytes\b ==> \1_from_\2
@SUB * \.to_([nbl]e)_bytes\(\) ==> .into_\1()
verus! {
pub struct Error { code: nat }
#[derive(Structural, PartialEq, Eq, Clone, Copy)]
pub enum ErrorKind { NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, Unsupported, UnexpectedEof, OutOfMemory, Other }
impl Error {
    #[verifier::external_body]
    pub fn from(kind: ErrorKind) -> (e: Error) { unimplemented!() }
    #[verifier::external_body]
    pub fn new<M>(kind: ErrorKind, message: M) -> (e: Error) { unimplemented!() }
    #[verifier::external_body]
    pub fn kind(&self) -> (k: ErrorKind) { unimplemented!() }
}
type Result<T> = core::result::Result<T, Error>;
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
type S15F16 = i32;
@STRUCT src/types/cie_xyz.rs CIEXYZ

// ---- bytes ----------------------------------------------------------------------------------
pub open spec fn le2(b: Seq<u8>) -> u16 { (b[0] as u16) | (b[1] as u16) << 8 }
pub open spec fn le4(b: Seq<u8>) -> u32 { (b[0] as u32) | (b[1] as u32) << 8 | (b[2] as u32) << 16 | (b[3] as u32) << 24 }
pub open spec fn le8(b: Seq<u8>) -> u64 {
    (b[0] as u64) | (b[1] as u64) << 8 | (b[2] as u64) << 16 | (b[3] as u64) << 24
        | (b[4] as u64) << 32 | (b[5] as u64) << 40 | (b[6] as u64) << 48 | (b[7] as u64) << 56
}
pub open spec fn be2(b: Seq<u8>) -> u16 { le2(seq![b[1], b[0]]) }
pub open spec fn be4(b: Seq<u8>) -> u32 { le4(seq![b[3], b[2], b[1], b[0]]) }
pub open spec fn be8(b: Seq<u8>) -> u64 { le8(seq![b[7], b[6], b[5], b[4], b[3], b[2], b[1], b[0]]) }
pub open spec fn bytes2(x: u16) -> Seq<u8> { seq![x as u8, (x >> 8) as u8] }
pub open spec fn bytes4(x: u32) -> Seq<u8> { seq![x as u8, (x >> 8) as u8, (x >> 16) as u8, (x >> 24) as u8] }
pub open spec fn bytes8(x: u64) -> Seq<u8> {
    seq![x as u8, (x >> 8) as u8, (x >> 16) as u8, (x >> 24) as u8, (x >> 32) as u8, (x >> 40) as u8, (x >> 48) as u8, (x >> 56) as u8]
}
proof fn bytes_of_le2(b: Seq<u8>) requires b.len() == 2 ensures bytes2(le2(b)) =~= b {
    let (b0, b1) = (b[0], b[1]);
    let x = le2(b);
    assert((x as u8) == b0 && ((x >> 8) as u8) == b1) by (bit_vector) requires x == (b0 as u16) | (b1 as u16) << 8;
}
proof fn bytes_of_le4(b: Seq<u8>) requires b.len() == 4 ensures bytes4(le4(b)) =~= b {
    let (b0, b1, b2, b3) = (b[0], b[1], b[2], b[3]);
    let x = le4(b);
    assert((x as u8) == b0 && ((x >> 8) as u8) == b1 && ((x >> 16) as u8) == b2 && ((x >> 24) as u8) == b3) by (bit_vector)
        requires x == (b0 as u32) | (b1 as u32) << 8 | (b2 as u32) << 16 | (b3 as u32) << 24;
}
proof fn bytes_of_le8(b: Seq<u8>) requires b.len() == 8 ensures bytes8(le8(b)) =~= b {
    let (b0, b1, b2, b3, b4, b5, b6, b7) = (b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]);
    let x = le8(b);
    assert((x as u8) == b0 && ((x >> 8) as u8) == b1 && ((x >> 16) as u8) == b2 && ((x >> 24) as u8) == b3
        && ((x >> 32) as u8) == b4 && ((x >> 40) as u8) == b5 && ((x >> 48) as u8) == b6 && ((x >> 56) as u8) == b7) by (bit_vector)
        requires x == (b0 as u64) | (b1 as u64) << 8 | (b2 as u64) << 16 | (b3 as u64) << 24
            | (b4 as u64) << 32 | (b5 as u64) << 40 | (b6 as u64) << 48 | (b7 as u64) << 56;
}
proof fn le2_of_bytes(x: u16) ensures le2(bytes2(x)) == x {
    assert(((x as u8) as u16) | (((x >> 8) as u8) as u16) << 8 == x) by (bit_vector);
}
proof fn le4_of_bytes(x: u32) ensures le4(bytes4(x)) == x {
    assert(((x as u8) as u32) | (((x >> 8) as u8) as u32) << 8 | (((x >> 16) as u8) as u32) << 16 | (((x >> 24) as u8) as u32) << 24 == x) by (bit_vector);
}
proof fn le8_of_bytes(x: u64) ensures le8(bytes8(x)) == x {
    assert(((x as u8) as u64) | (((x >> 8) as u8) as u64) << 8 | (((x >> 16) as u8) as u64) << 16 | (((x >> 24) as u8) as u64) << 24
        | (((x >> 32) as u8) as u64) << 32 | (((x >> 40) as u8) as u64) << 40 | (((x >> 48) as u8) as u64) << 48
        | (((x >> 56) as u8) as u64) << 56 == x) by (bit_vector);
}
/// The order of bytes in a stream.
pub open spec fn get2(b: Seq<u8>) -> u16 { be2(b) } //#be
pub open spec fn get4(b: Seq<u8>) -> u32 { be4(b) } //#be
pub open spec fn get8(b: Seq<u8>) -> u64 { be8(b) } //#be
pub open spec fn put2(x: u16) -> Seq<u8> { bytes2(x).reverse() } //#be
pub open spec fn put4(x: u32) -> Seq<u8> { bytes4(x).reverse() } //#be
pub open spec fn put8(x: u64) -> Seq<u8> { bytes8(x).reverse() } //#be
pub open spec fn get2(b: Seq<u8>) -> u16 { le2(b) } //#le
pub open spec fn get4(b: Seq<u8>) -> u32 { le4(b) } //#le
pub open spec fn get8(b: Seq<u8>) -> u64 { le8(b) } //#le
pub open spec fn put2(x: u16) -> Seq<u8> { bytes2(x) } //#le
pub open spec fn put4(x: u32) -> Seq<u8> { bytes4(x) } //#le
pub open spec fn put8(x: u64) -> Seq<u8> { bytes8(x) } //#le

// ---- the standard library on a little endian machine ------------------------------------------
#[verifier::external_body]
pub fn u16_from_ne(b: [u8; 2]) -> (r: u16) ensures r == le2(b@) { u16::from_ne_bytes(b) }
#[verifier::external_body]
pub fn u16_from_le(b: [u8; 2]) -> (r: u16) ensures r == le2(b@) { u16::from_le_bytes(b) }
#[verifier::external_body]
pub fn u16_from_be(b: [u8; 2]) -> (r: u16) ensures r == be2(b@) { u16::from_be_bytes(b) }
#[verifier::external_body]
pub fn u32_from_ne(b: [u8; 4]) -> (r: u32) ensures r == le4(b@) { u32::from_ne_bytes(b) }
#[verifier::external_body]
pub fn u32_from_le(b: [u8; 4]) -> (r: u32) ensures r == le4(b@) { u32::from_le_bytes(b) }
#[verifier::external_body]
pub fn u32_from_be(b: [u8; 4]) -> (r: u32) ensures r == be4(b@) { u32::from_be_bytes(b) }
#[verifier::external_body]
pub fn u64_from_ne(b: [u8; 8]) -> (r: u64) ensures r == le8(b@) { u64::from_ne_bytes(b) }
#[verifier::external_body]
pub fn u64_from_le(b: [u8; 8]) -> (r: u64) ensures r == le8(b@) { u64::from_le_bytes(b) }
#[verifier::external_body]
pub fn u64_from_be(b: [u8; 8]) -> (r: u64) ensures r == be8(b@) { u64::from_be_bytes(b) }
pub trait Bytes2: Sized {
    spec fn number(self) -> u16;
    fn into_ne(self) -> (r: [u8; 2]) ensures r@ =~= bytes2(self.number());
    fn into_le(self) -> (r: [u8; 2]) ensures r@ =~= bytes2(self.number());
    fn into_be(self) -> (r: [u8; 2]) ensures r@ =~= bytes2(self.number()).reverse();
}
impl Bytes2 for u16 {
    open spec fn number(self) -> u16 { self }
    #[verifier::external_body]
    fn into_ne(self) -> (r: [u8; 2]) { self.to_ne_bytes() }
    #[verifier::external_body]
    fn into_le(self) -> (r: [u8; 2]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn into_be(self) -> (r: [u8; 2]) { self.to_be_bytes() }
}
pub trait Bytes4: Sized {
    spec fn number(self) -> u32;
    fn into_ne(self) -> (r: [u8; 4]) ensures r@ =~= bytes4(self.number());
    fn into_le(self) -> (r: [u8; 4]) ensures r@ =~= bytes4(self.number());
    fn into_be(self) -> (r: [u8; 4]) ensures r@ =~= bytes4(self.number()).reverse();
}
impl Bytes4 for u32 {
    open spec fn number(self) -> u32 { self }
    #[verifier::external_body]
    fn into_ne(self) -> (r: [u8; 4]) { self.to_ne_bytes() }
    #[verifier::external_body]
    fn into_le(self) -> (r: [u8; 4]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn into_be(self) -> (r: [u8; 4]) { self.to_be_bytes() }
}
pub trait Bytes8: Sized {
    spec fn number(self) -> u64;
    fn into_ne(self) -> (r: [u8; 8]) ensures r@ =~= bytes8(self.number());
    fn into_le(self) -> (r: [u8; 8]) ensures r@ =~= bytes8(self.number());
    fn into_be(self) -> (r: [u8; 8]) ensures r@ =~= bytes8(self.number()).reverse();
}
impl Bytes8 for u64 {
    open spec fn number(self) -> u64 { self }
    #[verifier::external_body]
    fn into_ne(self) -> (r: [u8; 8]) { self.to_ne_bytes() }
    #[verifier::external_body]
    fn into_le(self) -> (r: [u8; 8]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn into_be(self) -> (r: [u8; 8]) { self.to_be_bytes() }
}
pub assume_specification [u16::to_be] (x: u16) -> (r: u16) ensures r == be2(bytes2(x));
pub assume_specification [u32::to_be] (x: u32) -> (r: u32) ensures r == be4(bytes4(x));
pub assume_specification [u64::to_be] (x: u64) -> (r: u64) ensures r == be8(bytes8(x));
pub assume_specification [u16::to_le] (x: u16) -> (r: u16) ensures r == x;
pub assume_specification [u32::to_le] (x: u32) -> (r: u32) ensures r == x;
pub assume_specification [u64::to_le] (x: u64) -> (r: u64) ensures r == x;
/// The same bits, read as another type.
pub uninterp spec fn bits<A, B>(a: A) -> B;
#[verifier::external_body]
pub fn transmute<A, B>(a: A) -> (b: B) ensures b == bits::<A, B>(a) { unimplemented!() }
/// C03
pub uninterp spec fn decoded(x: S15F16) -> f64;
pub uninterp spec fn encoded(x: f64) -> S15F16;
#[verifier::external_body]
pub fn s15f16_to_f64(value: S15F16) -> (r: f64) ensures r == decoded(value) { unimplemented!() }
#[verifier::external_body]
pub fn f64_to_s15f16(value: f64) -> (r: S15F16) ensures r == encoded(value) { unimplemented!() }
pub open spec fn get_fixed(b: Seq<u8>) -> f64 { decoded(bits::<u32, S15F16>(get4(b))) }
pub open spec fn put_fixed(x: f64) -> Seq<u8> { put4(bits::<S15F16, u32>(encoded(x))) }

// ---- src/io/big_endian.rs and little_endian.rs (C02) -------------------------------------------
@FN src/io/big_endian.rs adjust_endianness_u16 //#be
@FN src/io/little_endian.rs adjust_endianness_u16 //#le
    ensures r == get2(bytes2(value)), /*NOT-VACUOUS*/ true
@START
    proof { le2_of_bytes(value); }
@END
@FN src/io/big_endian.rs adjust_endianness_u32 //#be
@FN src/io/little_endian.rs adjust_endianness_u32 //#le
    ensures r == get4(bytes4(value)), /*NOT-VACUOUS*/ true
@START
    proof { le4_of_bytes(value); }
@END
@FN src/io/big_endian.rs adjust_endianness_u64 //#be
@FN src/io/little_endian.rs adjust_endianness_u64 //#le
    ensures r == get8(bytes8(value)), /*NOT-VACUOUS*/ true
@START
    proof { le8_of_bytes(value); }
@END

// ---- src/io/io_handler.rs -----------------------------------------------------------------------
/// What a stream holds, its length, its position, the number of bytes read, what was written to it, and the errors it gave.
pub struct State { pub data: spec_fn(int) -> u8, pub size: nat, pub pos: int, pub taken: nat, pub written: Seq<u8>, pub errors: Seq<Error> }
pub open spec fn bytes(data: spec_fn(int) -> u8, at: int, n: nat) -> Seq<u8> { Seq::new(n, |i: int| data(at + i)) }
pub open spec fn kept(a: State, b: State) -> bool { a.data == b.data && a.size == b.size }
/// The next n bytes.
pub open spec fn next(a: State, n: nat) -> Seq<u8> { bytes(a.data, a.pos, n) }
/// Exactly n bytes were read, which are v; or nothing was done after the error.
pub open spec fn reads<V>(a: State, b: State, n: nat, v: V, r: Result<V>) -> bool {
    &&& kept(a, b) && b.written == a.written
    &&& match r {
        Ok(x) => x == v && b.pos == a.pos + n && b.taken == a.taken + n && b.errors.len() == 0,
        Err(e) => a.taken <= b.taken < a.taken + n && b.errors == seq![e],
    }
}
/// Exactly the bytes w were written; or nothing was done after the error.
pub open spec fn writes(a: State, b: State, w: Seq<u8>, r: Result<()>) -> bool {
    match r {
        Ok(()) => b.errors.len() == 0 && b.written =~= a.written + w,
        Err(e) => b.errors == seq![e] && b.written == a.written,
    }
}
/// The elements of an array of 16-bit numbers.
pub open spec fn elements(b: spec_fn(int) -> u8, at: int, v: Seq<u16>, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> #[trigger] v[i] == get2(bytes(b, at + 2 * i, 2))
}
pub open spec fn flat(v: Seq<u16>, n: nat) -> Seq<u8> decreases n {
    if n == 0 { seq![] } else { flat(v, (n - 1) as nat) + put2(v[n - 1]) }
}
proof fn numbers()
    ensures
        forall|b: Seq<u8>| b.len() == 2 ==> #[trigger] bytes2(le2(b)) == b,
        forall|b: Seq<u8>| b.len() == 4 ==> #[trigger] bytes4(le4(b)) == b,
        forall|b: Seq<u8>| b.len() == 8 ==> #[trigger] bytes8(le8(b)) == b,
        forall|x: u16| bytes2(get2(bytes2(x))) =~= #[trigger] put2(x),
        forall|x: u32| bytes4(get4(bytes4(x))) =~= #[trigger] put4(x),
        forall|x: u64| bytes8(get8(bytes8(x))) =~= #[trigger] put8(x),
{
    assert forall|b: Seq<u8>| b.len() == 2 implies #[trigger] bytes2(le2(b)) == b by { bytes_of_le2(b); }
    assert forall|b: Seq<u8>| b.len() == 4 implies #[trigger] bytes4(le4(b)) == b by { bytes_of_le4(b); }
    assert forall|b: Seq<u8>| b.len() == 8 implies #[trigger] bytes8(le8(b)) == b by { bytes_of_le8(b); }
    assert forall|x: u16| bytes2(get2(bytes2(x))) =~= #[trigger] put2(x) by { bytes_of_le2(put2(x)); le2_of_bytes(x); }
    assert forall|x: u32| bytes4(get4(bytes4(x))) =~= #[trigger] put4(x) by { bytes_of_le4(put4(x)); le4_of_bytes(x); }
    assert forall|x: u64| bytes8(get8(bytes8(x))) =~= #[trigger] put8(x) by { bytes_of_le8(put8(x)); le8_of_bytes(x); }
}
proof fn parts(a: State)
    ensures
        next(a, 12).subrange(0, 4) =~= bytes(a.data, a.pos + 0, 4),
        next(a, 12).subrange(4, 8) =~= bytes(a.data, a.pos + 4, 4),
        next(a, 12).subrange(8, 12) =~= bytes(a.data, a.pos + 8, 4),
{}

pub trait IOHandler {
    spec fn st(&self) -> State;

    fn read(&mut self, buf: &mut [u8]) -> (r: Result<()>)
        requires old(self).st().errors.len() == 0,
        ensures
            kept(old(self).st(), final(self).st()), final(self).st().written == old(self).st().written, final(buf)@.len() == old(buf)@.len(),
            match r {
                Ok(()) => final(self).st().errors.len() == 0 && final(self).st().pos == old(self).st().pos + old(buf)@.len()
                    && final(self).st().taken == old(self).st().taken + old(buf)@.len()
                    && final(buf)@ =~= next(old(self).st(), old(buf)@.len()),
                Err(e) => final(self).st().errors == seq![e] && final(self).st().taken == old(self).st().taken,
            };
    fn write(&mut self, buf: &[u8]) -> (r: Result<()>)
        requires old(self).st().errors.len() == 0,
        ensures writes(old(self).st(), final(self).st(), buf@, r);
    fn seek(&mut self, to: SeekFrom) -> (r: Result<()>)
        ensures
            kept(old(self).st(), final(self).st()), final(self).st().written == old(self).st().written,
            match r {
                Ok(()) => final(self).st().errors == old(self).st().errors && final(self).st().pos == (match to {
                    SeekFrom::Start(n) => n as int,
                    SeekFrom::End(n) => old(self).st().size + n,
                    SeekFrom::Current(n) => old(self).st().pos + n,
                }),
                Err(e) => final(self).st().errors == old(self).st().errors.push(e) && final(self).st().errors.contains(e),
            };
    fn tell(&mut self) -> (r: Result<usize>)
        ensures
            kept(old(self).st(), final(self).st()), final(self).st().written == old(self).st().written, final(self).st().pos == old(self).st().pos,
            match r {
                Ok(n) => final(self).st().errors == old(self).st().errors && n == final(self).st().pos,
                Err(e) => final(self).st().errors == old(self).st().errors.push(e) && final(self).st().errors.contains(e),
            };

    // C07
@FN src/io/io_handler.rs IOHandler::reported_size
        requires old(self).st().errors.len() == 0,
        ensures
            /*NOT-VACUOUS*/ true,
            kept(old(self).st(), final(self).st()), final(self).st().written == old(self).st().written,
            match r {
                Ok(n) => final(self).st().errors.len() == 0 && final(self).st().pos == old(self).st().pos && n == old(self).st().size,
                Err(e) => final(self).st().errors.contains(e),
            },
@END

@FN src/io/io_handler.rs IOHandler::read_u8
        requires old(self).st().errors.len() == 0,
        ensures
            /*NOT-VACUOUS*/ true,
            ({ let b = next(old(self).st(), 1); reads(old(self).st(), final(self).st(), 1, b[0], r) }),
@START
        proof { numbers(); }
@END

@FN src/io/io_handler.rs IOHandler::read_u16
        requires old(self).st().errors.len() == 0,
        ensures
            /*NOT-VACUOUS*/ true,
            ({ let b = next(old(self).st(), 2); reads(old(self).st(), final(self).st(), 2, get2(b), r) }),
@START
        proof { numbers(); }
@END

@FN src/io/io_handler.rs IOHandler::read_u32
        requires old(self).st().errors.len() == 0,
        ensures
            /*NOT-VACUOUS*/ true,
            ({ let b = next(old(self).st(), 4); reads(old(self).st(), final(self).st(), 4, get4(b), r) }),
@START
        proof { numbers(); }
@END

@FN src/io/io_handler.rs IOHandler::read_u64
        requires old(self).st().errors.len() == 0,
        ensures
            /*NOT-VACUOUS*/ true,
            ({ let b = next(old(self).st(), 8); reads(old(self).st(), final(self).st(), 8, get8(b), r) }),
@START
        proof { numbers(); }
@END

@FN src/io/io_handler.rs IOHandler::read_f32
        requires old(self).st().errors.len() == 0,
        ensures
            /*NOT-VACUOUS*/ true,
            ({ let b = next(old(self).st(), 4); reads(old(self).st(), final(self).st(), 4, bits::<u32, f32>(get4(b)), r) }),
@START
        proof { numbers(); }
@END

@FN src/io/io_handler.rs IOHandler::read_s15f16
        requires old(self).st().errors.len() == 0,
        ensures
            /*NOT-VACUOUS*/ true,
            ({ let b = next(old(self).st(), 4); reads(old(self).st(), final(self).st(), 4, get_fixed(b), r) }),
@START
        proof { numbers(); }
@END

@FN src/io/io_handler.rs IOHandler::write_u8
        requires old(self).st().errors.len() == 0,
        ensures
            /*NOT-VACUOUS*/ true,
            writes(old(self).st(), final(self).st(), seq![value], r),
@START
        proof { numbers(); }
@END

@FN src/io/io_handler.rs IOHandler::write_u16
        requires old(self).st().errors.len() == 0,
        ensures
            /*NOT-VACUOUS*/ true,
            writes(old(self).st(), final(self).st(), put2(value), r),
@START
        proof { numbers(); }
@END

@FN src/io/io_handler.rs IOHandler::write_u32
        requires old(self).st().errors.len() == 0,
        ensures
            /*NOT-VACUOUS*/ true,
            writes(old(self).st(), final(self).st(), put4(value), r),
@START
        proof { numbers(); }
@END

@FN src/io/io_handler.rs IOHandler::write_u64
        requires old(self).st().errors.len() == 0,
        ensures
            /*NOT-VACUOUS*/ true,
            writes(old(self).st(), final(self).st(), put8(value), r),
@START
        proof { numbers(); }
@END

@FN src/io/io_handler.rs IOHandler::write_f32
        requires old(self).st().errors.len() == 0,
        ensures
            /*NOT-VACUOUS*/ true,
            writes(old(self).st(), final(self).st(), put4(bits::<f32, u32>(value)), r),
@START
        proof { numbers(); }
@END

@FN src/io/io_handler.rs IOHandler::write_s15f16
        requires old(self).st().errors.len() == 0,
        ensures
            /*NOT-VACUOUS*/ true,
            writes(old(self).st(), final(self).st(), put_fixed(value), r),
@START
        proof { numbers(); }
@END

    // C04
@FN src/io/io_handler.rs IOHandler::read_xyz
        requires old(self).st().errors.len() == 0,
        ensures
            /*NOT-VACUOUS*/ true,
            match r {
                Ok(v) => ({
                    let b = next(old(self).st(), 12);
                    &&& kept(old(self).st(), final(self).st()) && final(self).st().written == old(self).st().written && final(self).st().errors.len() == 0
                    &&& final(self).st().pos == old(self).st().pos + 12
                    &&& v.X == get_fixed(b.subrange(0, 4)) && v.Y == get_fixed(b.subrange(4, 8)) && v.Z == get_fixed(b.subrange(8, 12))
                }),
                Err(e) => final(self).st().errors == seq![e],
            },
@START
        proof { parts(old(self).st()); }
@END
@FN src/io/io_handler.rs IOHandler::write_xyz
        requires old(self).st().errors.len() == 0,
        ensures
            /*NOT-VACUOUS*/ true,
            match r {
                Ok(()) => final(self).st().errors.len() == 0
                    && final(self).st().written =~= old(self).st().written + put_fixed(value.X) + put_fixed(value.Y) + put_fixed(value.Z),
                Err(e) => final(self).st().errors == seq![e],
            },
@END

@FN src/io/io_handler.rs IOHandler::read_u16_array
        requires old(self).st().errors.len() == 0,
        ensures
            /*NOT-VACUOUS*/ true,
            kept(old(self).st(), final(self).st()), final(self).st().written == old(self).st().written,
            final(buffer)@.len() == old(buffer)@.len(),
            match r {
                Ok(()) => final(self).st().errors.len() == 0 && final(self).st().pos == old(self).st().pos + 2 * old(buffer)@.len()
                    && elements(old(self).st().data, old(self).st().pos, final(buffer)@, old(buffer)@.len() as int),
                Err(e) => final(self).st().errors == seq![e] && ({
                    let k = (final(self).st().taken - old(self).st().taken) / 2;
                    0 <= k < old(buffer)@.len() && elements(old(self).st().data, old(self).st().pos, final(buffer)@, k)
                }),
            },
@START
        let ghost b0 = buffer@;
        let ghost (d0, p0) = (self.st().data, self.st().pos);
@LOOP for (\w+) in (?:&mut \*?buffer|buffer(?:\s*\.iter_mut\(\))?) (?=\{)
            #it
            invariant
                kept(old(self).st(), self.st()), self.st().written == old(self).st().written, self.st().errors.len() == 0,
                d0 == old(self).st().data, p0 == old(self).st().pos, b0 == old(buffer)@,
                it.seq().len() == b0.len(),
                forall|i: int| 0 <= i < b0.len() ==> *#[trigger] it.seq()[i] == b0[i],
                self.st().pos == p0 + 2 * it.index@, self.st().taken == old(self).st().taken + 2 * it.index@,
                forall|i: int| 0 <= i < it.index@ ==> *final(#[trigger] it.seq()[i]) == get2(bytes(d0, p0 + 2 * i, 2)),
@OR
@START
        let ghost b0 = buffer@;
        let ghost (d0, p0) = (self.st().data, self.st().pos);
@RANGE spec_i for (\w+) in (0)\.\.(buffer\.len\(\)(?: as \w+)?)(?= *\{)
            invariant
                kept(old(self).st(), self.st()), self.st().written == old(self).st().written, self.st().errors.len() == 0,
                d0 == old(self).st().data, p0 == old(self).st().pos, b0 == old(buffer)@,
                buffer@.len() == b0.len(), 0 <= spec_i <= spec_i_end, spec_i_end == b0.len(),
                self.st().pos == p0 + 2 * spec_i, self.st().taken == old(self).st().taken + 2 * spec_i,
                elements(d0, p0, buffer@, spec_i as int),
            decreases spec_i_end - spec_i,
@END

@FN src/io/io_handler.rs IOHandler::write_u16_array
        requires old(self).st().errors.len() == 0,
        ensures
            /*NOT-VACUOUS*/ true,
            match r {
                Ok(()) => final(self).st().errors.len() == 0 && final(self).st().written =~= old(self).st().written + flat(buffer@, buffer@.len()),
                Err(e) => final(self).st().errors == seq![e] && exists|k: nat| k < buffer@.len()
                    && final(self).st().written == old(self).st().written + #[trigger] flat(buffer@, k),
            },
@START
        let ghost s0 = self.st().written;
@LOOP for &?(\w+) in (?:&\*?buffer|buffer(?:\s*\.iter\(\))?) (?=\{)
            #it
            invariant
                self.st().errors.len() == 0,
                s0 == old(self).st().written,
                it.seq().len() == buffer@.len(),
                forall|i: int| 0 <= i < buffer@.len() ==> *#[trigger] it.seq()[i] == buffer@[i],
                self.st().written =~= s0 + flat(buffer@, it.index@ as nat),
@OR
@START
        let ghost s0 = self.st().written;
@RANGE spec_i for (\w+) in (0)\.\.(buffer\.len\(\)(?: as \w+)?)(?= *\{)
            invariant
                self.st().errors.len() == 0, s0 == old(self).st().written,
                0 <= spec_i <= spec_i_end, spec_i_end == buffer@.len(),
                self.st().written =~= s0 + flat(buffer@, spec_i as nat),
            decreases spec_i_end - spec_i,
@END
}
} // verus!
fn main() {}
