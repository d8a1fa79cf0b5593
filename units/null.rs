// The null file: any state, buffers of any length (C06).
use vstd::prelude::*;
verus! {
pub struct Error { code: nat }
#[derive(Structural, PartialEq, Eq, Clone, Copy)]
pub enum ErrorKind { NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, Unsupported, UnexpectedEof, OutOfMemory, Other }
impl Error {
    #[verifier::external_body]
    pub fn from(kind: ErrorKind) -> (e: Error) { unimplemented!() }
    #[verifier::external_body]
    pub fn new<M>(kind: ErrorKind, message: M) -> (e: Error) { unimplemented!() }
    #[verifier::external_body]
    pub fn kind(&self) -> (k: ErrorKind) { unimplemented!() }
}
type Result<T> = core::result::Result<T, Error>;
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
pub assume_specification<T: Clone> [<[T]>::fill] (s: &mut [T], v: T)
    ensures final(s)@.len() == old(s)@.len(), forall|i: int| 0 <= i < final(s)@.len() ==> cloned(v, #[trigger] final(s)@[i]);
pub assume_specification [i64::unsigned_abs] (x: i64) -> (r: u64)
    ensures r == (if x < 0 { -x } else { x as int });
global size_of usize == 8;

@STRUCT src/io/file_null.rs FileNull

/// Where an operation leads, if there is such a position.
pub open spec fn goes(r: Result<()>, a: FileNull, b: FileNull, to: int, size: int) -> bool {
    match r {
        Ok(()) => 0 <= to <= usize::MAX && b.pointer == to && b.used_space == size,
        Err(_) => !(0 <= to <= usize::MAX) && b == a,
    }
}
pub open spec fn larger(a: int, b: int) -> int { if a > b { a } else { b } }

@FN src/io/file_null.rs offset_position
    ensures
        /*NOT-VACUOUS*/ true,
        match r { Ok(p) => p == base + offset, Err(_) => !(0 <= base + offset <= usize::MAX) },
@END
@FN src/io/file_null.rs advance_position
    ensures
        /*NOT-VACUOUS*/ true,
        match r { Ok(p) => p == base + len, Err(_) => base + len > usize::MAX },
@END

impl FileNull {
@FN src/io/file_null.rs FileNull::new
        ensures /*NOT-VACUOUS*/ true, r.pointer == 0, r.used_space == 0,
@END
@FN src/io/file_null.rs FileNull::read
        ensures
            /*NOT-VACUOUS*/ true,
            goes(r, *old(self), *final(self), old(self).pointer + old(buf)@.len(), old(self).used_space as int),
            final(buf)@.len() == old(buf)@.len(),
            r is Ok ==> forall|i: int| 0 <= i < final(buf)@.len() ==> final(buf)@[i] == 0,
            r is Err ==> final(buf)@ == old(buf)@,
@END
@FN src/io/file_null.rs FileNull::seek
        ensures
            /*NOT-VACUOUS*/ true,
            goes(r, *old(self), *final(self), match pos {
                SeekFrom::Start(n) => n as int,
                SeekFrom::End(n) => old(self).used_space + n,
                SeekFrom::Current(n) => old(self).pointer + n,
            }, old(self).used_space as int),
@END
@FN src/io/file_null.rs FileNull::close
        ensures /*NOT-VACUOUS*/ true, r is Ok,
@END
@FN src/io/file_null.rs FileNull::tell
        ensures /*NOT-VACUOUS*/ true, r == Ok::<usize, Error>(old(self).pointer), *final(self) == *old(self),
@END
@FN src/io/file_null.rs FileNull::write
        ensures
            /*NOT-VACUOUS*/ true,
            ({
                let to = old(self).pointer + buf@.len();
                goes(r, *old(self), *final(self), to, larger(old(self).used_space as int, to))
            }),
@END
}
} // verus!
fn main() {}
