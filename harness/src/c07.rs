//! C07 - the reported size.
use crate::mock::*;
use crate::sym::*;
use lcms2::io::{FileMem, FileNull, IOHandler};
use std::io::SeekFrom;
use std::mem::forget;

obligations! {
    fn c07_any_handler() {
        reset();
        any_fault();
        unsafe {
            LEN = any();
            SEEK_POS = any();
        }
        let before = unsafe { SEEK_POS };
        let r = Mock.reported_size();
        unsafe {
            match &r {
                Ok(n) => {
                    reach!(before > LEN, "from beyond the end");
                    check!(!FAILED, "an error of the handler is returned");
                    check!(*n == LEN as usize, "the size is the position of the end");
                    check!(SEEK_POS == before, "the position is unchanged");
                }
                Err(e) => {
                    reach!(true, "fails");
                    check!(FAILED && is_fault(e), "only an error of the handler is returned, unchanged");
                }
            }
            check!(READS == 0 && WRITES == 0, "no data is transferred");
        }
        forget(r);
    }
    fn c07_null_file() {
        let mut f = FileNull::new();
        let size: usize = any();
        assume(size > 0);
        let pos: usize = any();
        forget(f.seek(SeekFrom::Start(size as u64 - 1)));
        forget(f.write(&[0]));
        forget(f.seek(SeekFrom::Start(pos as u64)));
        let r = f.reported_size();
        check!(matches!(r, Ok(n) if n == size), "the size of a null file is the furthest position written");
        let t = f.tell();
        check!(matches!(t, Ok(n) if n == pos), "the position is unchanged");
        forget((r, t));
    }
    fn c07_memory_file() {
        let mut b: [u8; 8] = any();
        let n: usize = any();
        assume(n <= 8);
        let pos: u64 = any();
        let mut f = FileMem::new(&mut b[..n]);
        forget(f.seek(SeekFrom::Start(pos)));
        let r = f.reported_size();
        check!(matches!(r, Ok(m) if m == n), "the size of an in-memory file is the length of its buffer");
        let t = f.tell();
        check!(matches!(t, Ok(p) if p as u64 == pos), "the position is unchanged");
        forget((r, t));
    }
}
