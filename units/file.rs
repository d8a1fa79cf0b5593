// Disk files: whole transfers, whatever the operating system does (C26). The loops of the standard library which carry the
// property are verified too, on the source of the toolchain /repo is built with.
use vstd::prelude::*;
@SUB * \b(Read|Write|Seek)::(\w+)\(self(?:, )? ==> self.\2(
@SUB * Err\(ref (\w+)\) if ==> Err(\1) if
@SUB * <R: Read \+ \?Sized> ==>
@SUB * &mut R\b ==> &mut File
@SUB * \bpub\(super\) ==> pub
@SUB * \bstd::io::SeekFrom\b ==> SeekFrom
@SUB src/io/file_file.rs \bdrop\(self\); ==>
@ABSENT std/src/fs.rs \bfn (read_exact|write_all)\b
verus! {
/// An error of the system, or one of the standard library.
#[derive(Clone, Copy)]
pub struct Error { pub code: i32, pub interrupted: bool }
impl Error {
    pub const READ_EXACT_EOF: Error = Error { code: -1, interrupted: false };
    pub const WRITE_ALL_EOF: Error = Error { code: -2, interrupted: false };
    pub fn is_interrupted(&self) -> (r: bool) ensures r == self.interrupted { self.interrupted }
}
type Result<T> = core::result::Result<T, Error>;
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }

/// A file of an operating system which may transfer less than asked for, be interrupted, or fail, at every call.
#[verifier::external_body]
pub struct File { x: u8 }
impl File {
    /// Every byte the system has delivered, and every byte it has accepted, so far.
    pub uninterp spec fn given(&self) -> Seq<u8>;
    pub uninterp spec fn taken(&self) -> Seq<u8>;
    pub uninterp spec fn position(&self) -> u64;
    /// A call has failed, other than by being interrupted, or has transferred nothing although it was asked to.
    pub uninterp spec fn stuck(&self) -> bool;
    /// What synchronising its data gives.
    pub uninterp spec fn synchronised(&self) -> Result<()>;
    /// Where the system goes when it is asked to go to a place.
    pub uninterp spec fn place(&self, p: SeekFrom) -> Result<u64>;

    #[verifier::external_body]
    pub fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>)
        ensures final(buf)@.len() == old(buf)@.len(), final(self).taken() == old(self).taken(),
            match r {
                Ok(n) => n <= old(buf)@.len() && final(self).given() == old(self).given() + final(buf)@.subrange(0, n as int)
                    && final(buf)@.subrange(n as int, old(buf)@.len() as int) == old(buf)@.subrange(n as int, old(buf)@.len() as int)
                    && final(self).stuck() == (old(self).stuck() || n == 0 && old(buf)@.len() > 0),
                Err(e) => final(self).given() == old(self).given() && final(self).stuck() == (old(self).stuck() || !e.interrupted),
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write(&mut self, buf: &[u8]) -> (r: Result<usize>)
        ensures final(self).given() == old(self).given(),
            match r {
                Ok(n) => n <= buf@.len() && final(self).taken() == old(self).taken() + buf@.subrange(0, n as int)
                    && final(self).stuck() == (old(self).stuck() || n == 0 && buf@.len() > 0),
                Err(e) => final(self).taken() == old(self).taken() && final(self).stuck() == (old(self).stuck() || !e.interrupted),
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn seek(&mut self, pos: SeekFrom) -> (r: Result<u64>)
        ensures r == old(self).place(pos), final(self).given() == old(self).given(), final(self).taken() == old(self).taken(),
            r is Ok ==> final(self).position() == r->Ok_0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn stream_position(&mut self) -> (r: Result<u64>)
        ensures r == old(self).place(SeekFrom::Current(0)), final(self).given() == old(self).given(), final(self).taken() == old(self).taken(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn sync_data(&self) -> (r: Result<()>) ensures r == self.synchronised() { unimplemented!() }
    #[verifier::external_body]
    pub fn sync_all(&self) -> (r: Result<()>) ensures r == self.synchronised() { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: Result<()>) ensures *final(self) == *old(self) { unimplemented!() }

    // ---- the standard library
@FN alloc/src/io/read.rs Read::read_exact
        ensures
            /*NOT-VACUOUS*/ true,
            final(self).taken() == old(self).taken(),
            match r {
                Ok(()) => final(self).given() == old(self).given() + final(buf)@ && final(self).stuck() == old(self).stuck(),
                Err(e) => final(self).stuck(),
            },
@END
    #[verifier::loop_isolation(false)]
    #[verifier::exec_allows_no_decreases_clause]
@FN core/src/io/write.rs Write::write_all
        ensures
            /*NOT-VACUOUS*/ true,
            final(self).given() == old(self).given(),
            match r {
                Ok(()) => final(self).taken() == old(self).taken() + buf_0@ && final(self).stuck() == old(self).stuck(),
                Err(e) => final(self).stuck(),
            },
@START
        let ghost mut done: Seq<u8> = seq![];
@LOOP while !buf\.is_empty\(\)
            invariant
                self.given() == old(self).given(),
                self.taken() == old(self).taken() + done, self.stuck() == old(self).stuck(),
                buf_0@ == done + buf@,
@BEFORE Ok\((\w+)\) => (?=buf = )
@AFTER Ok\((\w+)\) => (?=buf = )
                { proof { done = done + buf@.subrange(0, {1} as int); }
@AFTER buf = &buf\[\w+\.\.\](?=,)
                }
@END
    // ---- the crate
@FN src/io/file_file.rs File::read as handler_read
        ensures
            /*NOT-VACUOUS*/ true,
            final(self).taken() == old(self).taken(),
            match r {
                Ok(()) => final(self).given() == old(self).given() + final(buf)@ && final(self).stuck() == old(self).stuck(),
                Err(e) => final(self).stuck(),
            },
@END
@FN src/io/file_file.rs File::write as handler_write
        ensures
            /*NOT-VACUOUS*/ true,
            final(self).given() == old(self).given(),
            match r {
                Ok(()) => final(self).taken() == old(self).taken() + buf@ && final(self).stuck() == old(self).stuck(),
                Err(e) => final(self).stuck(),
            },
@END
@FN src/io/file_file.rs File::seek as handler_seek
        ensures
            /*NOT-VACUOUS*/ true,
            final(self).given() == old(self).given(), final(self).taken() == old(self).taken(),
            match old(self).place(pos) {
                Ok(p) => r is Ok && final(self).position() == p,
                Err(e) => r == Result::<()>::Err(e),
            },
@END
@FN src/io/file_file.rs File::tell as handler_tell
        ensures
            /*NOT-VACUOUS*/ true,
            final(self).given() == old(self).given(), final(self).taken() == old(self).taken(),
            match old(self).place(SeekFrom::Current(0)) {
                Ok(p) => r == Result::<usize>::Ok(p as usize),
                Err(e) => r == Result::<usize>::Err(e),
            },
@END
@FN src/io/file_file.rs File::close as handler_close
        ensures
            /*NOT-VACUOUS*/ true,
            r == self.synchronised(),
@END
}
    #[verifier::loop_isolation(false)]
    #[verifier::exec_allows_no_decreases_clause]
@FN alloc/src/io/read.rs default_read_exact
    ensures
        /*NOT-VACUOUS*/ true,
        final(this).taken() == old(this).taken(),
        match r {
            Ok(()) => final(this).given() == old(this).given() + final(buf_0)@ && final(this).stuck() == old(this).stuck(),
            Err(e) => final(this).stuck(),
        },
@START
    let ghost mut done: Seq<u8> = seq![];
@LOOP while !buf\.is_empty\(\)
        invariant
            this.taken() == old(this).taken(),
            this.given() == old(this).given() + done, this.stuck() == old(this).stuck(),
            final(buf_0)@ == done + final(buf)@,
@AFTER Ok\((\w+)\) => \{
                proof { done = done + buf@.subrange(0, {1} as int); }
@END
} // verus!
fn main() {}
