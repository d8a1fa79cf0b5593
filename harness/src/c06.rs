//! C06 - the null file. One operation from an arbitrary state; by induction any sequence.
use crate::sym::*;
use lcms2::io::{FileNull, IOHandler};
use std::io::SeekFrom;
use std::mem::forget;

/// A null file of any size and position, reached through its public operations only.
fn any_null() -> (FileNull, usize, usize) {
    let mut f = FileNull::new();
    let size: usize = any();
    if size > 0 {
        forget(f.seek(SeekFrom::Start(size as u64 - 1)));
        forget(f.write(&[any()]));
    }
    let pos: usize = any();
    forget(f.seek(SeekFrom::Start(pos as u64)));
    (f, pos, size)
}
fn state(f: &mut FileNull) -> (usize, usize) {
    let p = match f.tell() {
        Ok(p) => p,
        Err(e) => {
            forget(e);
            check!(false, "the position can always be asked for");
            0
        }
    };
    // the size is where seeking to the end leads
    forget(f.seek(SeekFrom::End(0)));
    let s = match f.tell() {
        Ok(p) => p,
        Err(e) => {
            forget(e);
            0
        }
    };
    forget(f.seek(SeekFrom::Start(p as u64)));
    (p, s)
}

obligations! {
    fn c06_new_is_empty() {
        let mut f = if any() { FileNull::new() } else { Default::default() };
        check!(state(&mut f) == (0, 0), "a new null file is empty and at its start");
    }
    fn c06_reachable_states() {
        let (mut f, pos, size) = any_null();
        check!(state(&mut f) == (pos, size), "seeking and writing reach the position and size they should");
    }
    fn c06_read() {
        let (mut f, pos, size) = any_null();
        let mut buf = any_bytes();
        let n = buf.len();
        let r = f.read(&mut buf);
        let i = if n > 0 { index(n) } else { 0 };
        match &r {
            Ok(()) => {
                reach!(n > 9, "read");
                check!(n == 0 || buf[i] == 0, "the whole buffer reads as zeros");
                check!(pos.checked_add(n).is_some(), "a read past the representable positions fails");
                check!(state(&mut f) == (pos.wrapping_add(n), size), "a read advances by the length of the buffer");
            }
            Err(_) => {
                reach!(true, "fails");
                check!(pos.checked_add(n).is_none(), "a read to a representable position succeeds");
                check!(state(&mut f) == (pos, size), "a failed read changes nothing");
            }
        }
        forget((r, buf));
    }
    fn c06_write() {
        let (mut f, pos, size) = any_null();
        let buf = any_bytes();
        let n = buf.len();
        let r = f.write(&buf);
        match &r {
            Ok(()) => {
                reach!(true, "written");
                check!(pos.checked_add(n).is_some(), "a write past the representable positions fails");
                let end = pos.wrapping_add(n);
                check!(state(&mut f).0 == end, "a write advances by the length of the buffer");
                let s = state(&mut f).1;
                check!(s == size.max(end), "a write grows the file to the position it reaches");
            }
            Err(_) => {
                reach!(true, "fails");
                check!(pos.checked_add(n).is_none(), "a write to a representable position succeeds");
                check!(state(&mut f) == (pos, size), "a failed write changes nothing");
            }
        }
        forget((r, buf));
    }
    fn c06_seek() {
        let (mut f, pos, size) = any_null();
        let d: i64 = any();
        let way: u8 = any();
        assume(way < 3);
        let base = match way {
            0 => None,
            1 => Some(size),
            _ => Some(pos),
        };
        let (want, seek) = match base {
            None => (Some(d as u64 as usize), SeekFrom::Start(d as u64)),
            Some(b) => {
                let w = b as i128 + d as i128;
                (if w < 0 || w > usize::MAX as i128 { None } else { Some(w as usize) },
                 if way == 1 { SeekFrom::End(d) } else { SeekFrom::Current(d) })
            }
        };
        let r = f.seek(seek);
        match (&r, want) {
            (Ok(()), Some(w)) => {
                reach!(way > 0 && d < 0, "seek back");
                check!(state(&mut f) == (w, size), "a seek sets the position it names and nothing else");
            }
            (Ok(()), None) => check!(false, "a seek to a negative or unrepresentable position fails"),
            (Err(_), Some(_)) => check!(false, "a seek to a representable position succeeds"),
            (Err(_), None) => {
                reach!(true, "fails");
                check!(state(&mut f) == (pos, size), "a failed seek changes nothing");
            }
        }
        forget(r);
    }
    fn c06_close() {
        let (f, _, _) = any_null();
        let r = f.close();
        check!(r.is_ok(), "closing succeeds");
        forget(r);
    }
}
