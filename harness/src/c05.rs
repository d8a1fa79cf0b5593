//! C05 - in-memory files. One operation from an arbitrary state (buffer and position); by induction any sequence.
use crate::sym::*;
use lcms2::io::{FileMem, IOHandler};
use std::io::SeekFrom;
use std::mem::forget;

fn tell(f: &mut impl IOHandler) -> u64 {
    match f.tell() {
        Ok(p) => p as u64,
        Err(e) => {
            forget(e);
            check!(false, "the position can always be asked for");
            0
        }
    }
}
fn goto(f: &mut impl IOHandler, pos: u64) {
    let r = f.seek(SeekFrom::Start(pos));
    check!(r.is_ok(), "a seek from the start succeeds");
    check!(tell(f) == pos, "a seek from the start sets the position");
    forget(r);
}
/// Some byte of a buffer, if it has one.
fn byte(b: &[u8], at: usize) -> u8 {
    if at < b.len() {
        b[at]
    } else {
        0
    }
}
/// Reads at `pos` from a file of `n` bytes of which the one at `pos + i` is `d`.
fn read_at(f: &mut impl IOHandler, n: usize, pos: u64, i: usize, d: u8, mut buf: Vec<u8>) {
    goto(f, pos);
    let m = buf.len();
    let r = f.read(&mut buf);
    let fits = m == 0 || (pos <= n as u64 && m as u64 <= n as u64 - pos);
    match &r {
        Ok(()) => {
            reach!(m > 1000, "read");
            check!(fits, "a read beyond the end fails");
            check!(tell(f) == pos + m as u64, "a read advances by the number of bytes");
            check!(i >= m || buf[i] == d, "the bytes at the position are read");
        }
        Err(e) => {
            reach!(m > 1000, "beyond the end");
            check!(!fits, "a read within the buffer succeeds");
            check!(e.kind() == std::io::ErrorKind::UnexpectedEof, "a read beyond the end reports the end of the file");
        }
    }
    forget(r);
    forget(buf);
}
/// The byte at `i` of a file of `n` bytes after `w` was written at `pos`, `old` before.
fn expected(i: usize, n: usize, old: u8, w: &[u8], pos: u64) -> u8 {
    if i as u64 >= pos && i as u64 - pos < w.len() as u64 {
        w[(i as u64 - pos) as usize]
    } else if i < n {
        old
    } else {
        0
    }
}
fn room(n: usize, pos: u64) -> usize {
    if pos < n as u64 { n - pos as usize } else { 0 }
}

#[cfg(kani)]
const GAP: usize = 2;
#[cfg(not(kani))]
const GAP: usize = 100000;
fn write_vec(mut b: Vec<u8>, w: Vec<u8>, pos: u64) {
    let i: usize = any();
    let (n, m) = (b.len(), w.len());
    let old = byte(&b, i);
    let at = {
        let mut f = FileMem::new(&mut b);
        goto(&mut f, pos);
        let r = f.write(&w);
        check!(r.is_ok(), "a growable buffer takes any write");
        forget(r);
        tell(&mut f)
    };
    check!(at == pos + m as u64, "a write advances by the number of bytes");
    reach!(m > 3, "written");
    let end = pos as usize + m;
    check!(b.len() >= n && (m == 0 || b.len() == if end > n { end } else { n }), "the buffer grows to the end of the write");
    if i < b.len() {
        check!(b[i] == expected(i, n, old, &w, pos), "the bytes are written at the position, a gap is zero, all others stay");
    }
    forget((b, w));
}

obligations! {
    fn c05_read_slice() {
        let (mut b, buf) = (any_bytes(), any_bytes());
        let (pos, i, j): (u64, usize, usize) = (any(), any(), any());
        let n = b.len();
        let d = if pos <= n as u64 && i <= n { byte(&b, pos as usize + i) } else { 0 };
        let before = byte(&b, j);
        let mut f = FileMem::new(b.as_mut_slice());
        check!(tell(&mut f) == 0, "a new file is at its start");
        read_at(&mut f, n, pos, i, d, buf);
        check!(byte(&b, j) == before, "a read changes nothing");
        forget(b);
    }
    fn c05_read_vec() {
        let (mut b, buf) = (any_bytes(), any_bytes());
        let (pos, i): (u64, usize) = (any(), any());
        let n = b.len();
        let d = if pos <= n as u64 && i <= n { byte(&b, pos as usize + i) } else { 0 };
        let mut f = FileMem::new(&mut b);
        check!(tell(&mut f) == 0, "a new file is at its start");
        read_at(&mut f, n, pos, i, d, buf);
        check!(b.len() == n, "a read changes nothing");
        forget(b);
    }
    fn c05_write_slice() {
        let (mut b, w) = (any_bytes(), any_bytes());
        let (pos, i): (u64, usize) = (any(), any());
        let (n, m) = (b.len(), w.len());
        let old = byte(&b, i);
        let mut f = FileMem::new(b.as_mut_slice());
        goto(&mut f, pos);
        let r = f.write(&w);
        let ok = r.is_ok();
        reach!(ok && m > 1000, "written");
        reach!(!ok && m > 1000, "does not fit");
        check!(ok == (m <= room(n, pos)), "a write succeeds exactly when it fits into a fixed buffer");
        check!(!ok || tell(&mut f) == pos + m as u64, "a write advances by the number of bytes");
        if i < n {
            let outside = (i as u64) < pos || i as u64 - pos >= m as u64;
            check!(!ok || b[i] == expected(i, n, old, &w, pos), "the bytes are written at the position");
            check!(!outside || b[i] == old, "no byte outside the written range changes");
        }
        forget(r);
        forget((b, w));
    }
    #[kani::unwind(4)]
    fn c05_write_vec_inside() {
        let (b, w) = (any_bytes(), any_bytes());
        let pos: u64 = any();
        assume(pos <= b.len() as u64 && w.len() as u64 <= b.len() as u64 - pos);
        write_vec(b, w, pos);
    }
    #[kani::unwind(4)]
    fn c05_write_vec_append() {
        let (b, w) = (any_bytes(), any_bytes());
        let pos: u64 = any();
        assume(pos <= b.len() as u64);
        write_vec(b, w, pos);
    }
    #[kani::unwind(4)]
    fn c05_write_vec_gap() {
        let (b, w) = (any_bytes(), any_bytes());
        let gap: usize = any();
        assume(gap <= GAP);
        let pos = (b.len() + gap) as u64;
        write_vec(b, w, pos);
    }
    #[kani::unwind(12)]
    fn c05_write_vec_small() {
        let data: [u8; 4] = any();
        let (m, pos): (usize, u64) = (any(), any());
        assume(m <= 4 && pos <= 6);
        let w: [u8; 4] = any();
        write_vec(data.to_vec(), w[..m].to_vec(), pos);
    }
    fn c05_write_box() {
        let (b, w) = (any_bytes(), any_bytes());
        let (pos, i): (u64, usize) = (any(), any());
        let (n, m) = (b.len(), w.len());
        let old = byte(&b, i);
        let mut f = FileMem::new(b.into_boxed_slice());
        goto(&mut f, pos);
        let r = f.write(&w);
        let ok = r.is_ok();
        check!(ok == (m <= room(n, pos)), "a write succeeds exactly when it fits into a fixed buffer");
        forget(r);
        if ok {
            reach!(m > 1000, "written");
            check!(tell(&mut f) == pos + m as u64, "a write advances by the number of bytes");
            if i < n {
                let mut got = [0u8];
                goto(&mut f, i as u64);
                forget(f.read(&mut got));
                check!(got[0] == expected(i, n, old, &w, pos), "the bytes are written at the position, all others stay");
            }
        }
        forget((f, w));
    }
    fn c05_seek() {
        let mut b = any_bytes();
        let n = b.len();
        let (pos, d, way): (u64, i64, u8) = (any(), any(), any());
        assume(way < 3);
        let mut f = FileMem::new(b.as_mut_slice());
        goto(&mut f, pos);
        let (want, seek) = match way {
            0 => (d as u64 as i128, SeekFrom::Start(d as u64)),
            1 => (n as i128 + d as i128, SeekFrom::End(d)),
            _ => (pos as i128 + d as i128, SeekFrom::Current(d)),
        };
        let r = f.seek(seek);
        let valid = want >= 0 && want <= u64::MAX as i128;
        reach!(valid && d < 0, "back");
        reach!(!valid, "not a position");
        check!(r.is_ok() == valid, "a seek succeeds exactly when the position is not negative and representable");
        check!(tell(&mut f) == if valid { want as u64 } else { pos }, "a seek sets the position it names, a failed one keeps it");
        forget(r);
        forget(b);
    }
    fn c05_close() {
        let mut b = any_bytes();
        let i: usize = any();
        let before = byte(&b, i);
        let f = FileMem::new(b.as_mut_slice());
        let r = f.close();
        check!(r.is_ok(), "closing succeeds");
        check!(byte(&b, i) == before, "closing changes nothing");
        forget(r);
        forget(b);
    }
}
