// What the functions on profiles refer to. Contracts marked with a property are the ones that property's check decides.
use vstd::prelude::*;
@SUB * TEXT
@SUB * \bBox<dyn IOHandler> ==> Box<Io>
@SUB * chrono::NaiveDateTime ==> NaiveDateTime
@SUB * (chrono::)?Utc::now\(\)\s*\.naive_utc\(\) ==> now()
@SUB * \bProfileID\s*\{\s*id\w+\s*:[^}]*\} ==> no_id()
@SUB * \bheader\.(rendering_intent|model)\.into\(\) ==> header.\1
@SUB * \bb\.as_mut\(\) ==> &mut **b
verus! {

// ---- what the extracted text refers to ------------------------------------------------------
#[derive(Structural, PartialEq, Eq, Clone, Copy)]
pub enum ErrorKind { NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, Unsupported, UnexpectedEof, OutOfMemory, Other }
/// std::io::Error: an opaque error of the system, or one made from a kind.
pub enum Error { System(nat), Kind(ErrorKind) }
impl Error {
    #[verifier::external_body]
    pub fn from(kind: ErrorKind) -> (e: Error) ensures e == Error::Kind(kind) { unimplemented!() }
    #[verifier::external_body]
    pub fn new<M>(kind: ErrorKind, message: M) -> (e: Error) ensures e == Error::Kind(kind) { unimplemented!() }
    pub uninterp spec fn spec_kind(&self) -> ErrorKind;
    #[verifier::external_body]
    pub fn kind(&self) -> (k: ErrorKind) ensures k == self.spec_kind(), match *self { Error::Kind(x) => k == x, _ => true } { unimplemented!() }
}
pub mod io { pub use super::{Error, ErrorKind}; pub type Result<T> = core::result::Result<T, super::Error>; }
#[derive(Structural, PartialEq, Eq, Clone, Copy)]
@STRUCT src/state/chunks/error_handler.rs ErrorCode
/// src/types/signature.rs (C08).
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
@STRUCT src/types/signature.rs Signature
impl Signature {
    pub fn default() -> (s: Signature) ensures s.0 == 0x20202020 { Signature(0x20202020) }
}
impl From<Signature> for u32 { fn from(s: Signature) -> (r: u32) ensures r == s.0 { s.0 } }
impl vstd::std_specs::convert::FromSpecImpl<Signature> for u32 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(s: Signature) -> u32 { s.0 }
}
pub mod signatures { pub const MAGIC_NUMBER: super::Signature = super::Signature(0x61637370); }
@CONST src/types.rs MAX_TABLE_TAG
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct NaiveDateTime { d: u8 }
#[verifier::external_body]
pub fn now() -> NaiveDateTime { unimplemented!() }
#[verifier::external_body]
pub struct DateTimeNumber { d: u8 }
/// The calendar date an ICC date denotes (C23).
pub uninterp spec fn date_of(d: DateTimeNumber) -> Option<NaiveDateTime>;
impl DateTimeNumber {
    #[verifier::external_body]
    pub fn to_naive_date_time(&self) -> (r: Option<NaiveDateTime>) ensures r == date_of(*self) { unimplemented!() }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct ProfileID { d: u8 }
#[verifier::external_body]
pub fn no_id() -> ProfileID { unimplemented!() }
#[verifier::external_body]
pub struct EncodedXYZNumber { d: u8 }
@STRUCT src/types/icc_header.rs ICCHeader
@STRUCT src/types/tag_entry.rs TagEntry
/// What 128 bytes decode to (C09), what 12 bytes decode to (C10), what four bytes decode to (C01).
pub uninterp spec fn header_of(b: Seq<u8>) -> ICCHeader;
pub uninterp spec fn entry_of(b: Seq<u8>) -> TagEntry;
pub uninterp spec fn number_of(b: Seq<u8>) -> u32;
pub struct ICCHeaderConverter;
impl ICCHeaderConverter {
    #[verifier::external_body]
    pub fn from_bytes(b: [u8; 128]) -> (r: ICCHeader) ensures r == header_of(b@) { unimplemented!() }
}
pub struct TagEntryConverter;
impl TagEntryConverter {
    #[verifier::external_body]
    pub fn from_bytes(b: [u8; 12]) -> (r: TagEntry) ensures r == entry_of(b@) { unimplemented!() }
}
/// A stream of fixed content which may fail at any access, and which may not be accessed after it failed.
#[verifier::external_body]
pub struct Io { x: u8 }
impl Io {
    pub uninterp spec fn data(&self) -> Seq<u8>;
    pub uninterp spec fn size(&self) -> nat;
    pub uninterp spec fn pos(&self) -> int;
    pub uninterp spec fn error(&self) -> Option<Error>;
    pub open spec fn same(&self, o: &Io) -> bool { self.data() == o.data() && self.size() == o.size() }

    #[verifier::external_body]
    pub fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<()>)
        requires old(self).error() is None,
        ensures final(self).same(old(self)), final(buf)@.len() == old(buf)@.len(),
            match r {
                Ok(()) => final(self).error() is None && final(self).pos() == old(self).pos() + old(buf)@.len()
                    && final(buf)@ == old(self).data().subrange(old(self).pos(), final(self).pos()),
                Err(e) => final(self).error() == Some(e),
            },
    { unimplemented!() }
    // C07
    #[verifier::external_body]
    pub fn reported_size(&mut self) -> (r: io::Result<usize>)
        requires old(self).error() is None,
        ensures final(self).same(old(self)),
            match r {
                Ok(n) => final(self).error() is None && final(self).pos() == old(self).pos() && n == old(self).size(),
                Err(e) => final(self).error() == Some(e),
            },
    { unimplemented!() }
    // C01
    #[verifier::external_body]
    pub fn read_u32(&mut self) -> (r: io::Result<u32>)
        requires old(self).error() is None,
        ensures final(self).same(old(self)),
            match r {
                Ok(n) => final(self).error() is None && final(self).pos() == old(self).pos() + 4
                    && n == number_of(old(self).data().subrange(old(self).pos(), old(self).pos() + 4)),
                Err(e) => final(self).error() == Some(e),
            },
    { unimplemented!() }
}
#[verifier::external_body]
pub fn text() -> String { unimplemented!() }
#[verifier::external_body]
pub struct Context { x: u8 }
impl Context {
    /// The errors signalled so far.
    pub uninterp spec fn signals(&self) -> Seq<ErrorCode>;
    // C17
    #[verifier::external_body]
    pub fn signal_error(&mut self, code: ErrorCode, text: String)
        ensures final(self).signals() == old(self).signals().push(code),
    { unimplemented!() }
}

@STRUCT src/types/profile.rs Profile

/// The signature of the last of the first j tags which has data of size s at offset o.
pub open spec fn link(names: Seq<Signature>, offsets: Seq<usize>, sizes: Seq<usize>, o: usize, s: usize, j: nat) -> Option<Signature> decreases j {
    if j == 0 { None } else if offsets[j - 1] == o && sizes[j - 1] == s { Some(names[j - 1]) } else { link(names, offsets, sizes, o, s, (j - 1) as nat) }
}
/// Every one of the first n tags is linked exactly when, and to what, it should be.
pub open spec fn links(names: Seq<Signature>, offsets: Seq<usize>, sizes: Seq<usize>, linked: Seq<Option<Signature>>, n: nat) -> bool {
    forall|i: int| 0 <= i < n ==> #[trigger] linked[i] == link(names, offsets, sizes, offsets[i], sizes[i], i as nat)
}
