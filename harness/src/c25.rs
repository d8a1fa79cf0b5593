//! C25 - opening for writing, and which system call a mode makes.
use crate::ctx::*;
use crate::sym::*;
use lcms2::io::AccessMode;
use lcms2::types::profile_verif::*;
use lcms2::types::*;
use std::io::{Error, ErrorKind, Result};
use std::mem::forget;

#[cfg(kani)]
mod fs {
    use super::*;
    use std::fs::File;
    use std::os::fd::FromRawFd;
    use std::path::Path;
    pub static mut OPENS: usize = 0;
    pub static mut CREATES: usize = 0;
    pub static mut READS: usize = 0;
    pub static mut WORKS: bool = true;
    fn result() -> Result<File> {
        unsafe { if WORKS { Ok(File::from_raw_fd(77)) } else { Err(Error::from_raw_os_error(1234567)) } }
    }
    pub fn open<P: AsRef<Path>>(_: P) -> Result<File> {
        unsafe { OPENS += 1 };
        result()
    }
    pub fn create<P: AsRef<Path>>(_: P) -> Result<File> {
        unsafe { CREATES += 1 };
        result()
    }
    pub fn drop_fd(_: &mut std::os::fd::OwnedFd) {}
    pub fn read(_: &mut File, _: &mut [u8]) -> Result<()> {
        unsafe { READS += 1 };
        Err(Error::from_raw_os_error(7654321))
    }
}

/// The fields of a blank profile.
fn blank_fields(p: &Profile) -> bool {
    let f = fields(p);
    let none = Signature::default();
    f.version == 0x02100000 && f.device_class == none && f.color_space == none && f.pcs == none && f.rendering_intent == 0
        && f.flags == 0 && f.manufacturer == 0 && f.model == 0 && f.attributes == 0 && f.creator == 0
        && unsafe { f.profile_id.id8 } == [0; 16] && p.get_tag_count() == 0
}

#[cfg(kani)]
obligations! {
    #[kani::unwind(17)]
    #[kani::stub(chrono::Utc::now, now_stub)]
    #[kani::stub(std::fs::File::open, fs::open)]
    #[kani::stub(std::fs::File::create, fs::create)]
    #[kani::stub(<std::os::fd::OwnedFd as std::ops::Drop>::drop, fs::drop_fd)]
    fn c25_write() {
        let mut c = recording();
        unsafe { fs::WORKS = any() };
        let r = Profile::open_from_file_thr(&mut c, "f", AccessMode::Write);
        unsafe {
            check!(fs::CREATES == 1 && fs::OPENS == 0, "opening for writing creates the file");
            match &r {
                Ok(p) => {
                    check!(fs::WORKS, "an error of creating the file is returned");
                    check!(blank_fields(p), "a profile opened for writing is blank");
                    check!(fields(p).is_write, "a profile opened for writing is in write mode");
                    check!(p.get_io_handler().is_some(), "a profile opened for writing holds its file");
                }
                Err(e) => {
                    check!(!fs::WORKS, "opening for writing succeeds when the file is created");
                    check!(e.raw_os_error() == Some(1234567), "an error of creating the file is returned as it is");
                }
            }
            check!(CALLS == 0, "opening for writing signals no error");
        }
        forget((r, c));
    }
    #[kani::unwind(17)]
    #[kani::stub(chrono::Utc::now, now_stub)]
    #[kani::stub(std::fs::File::open, fs::open)]
    #[kani::stub(std::fs::File::create, fs::create)]
    #[kani::stub(<std::os::fd::OwnedFd as std::ops::Drop>::drop, fs::drop_fd)]
    fn c25_read_fails() {
        let mut c = recording();
        unsafe { fs::WORKS = false };
        let r = Profile::open_from_file_thr(&mut c, "f", AccessMode::Read);
        unsafe {
            check!(fs::CREATES == 0 && fs::OPENS == 1, "opening for reading opens the file");
            check!(matches!(&r, Err(e) if e.raw_os_error() == Some(1234567)), "an error of opening the file is returned as it is");
            check!(CALLS == 0, "failing to open the file signals no error");
        }
        forget((r, c));
    }
    #[kani::unwind(17)]
    #[kani::stub(chrono::Utc::now, now_stub)]
    #[kani::stub(std::fs::File::open, fs::open)]
    #[kani::stub(std::fs::File::create, fs::create)]
    #[kani::stub(<std::os::fd::OwnedFd as std::ops::Drop>::drop, fs::drop_fd)]
    #[kani::stub(<std::fs::File as lcms2::io::IOHandler>::read, fs::read)]
    fn c25_read() {
        let mut c = recording();
        unsafe { fs::WORKS = true };
        let r = Profile::open_from_file_thr(&mut c, "f", AccessMode::Read);
        unsafe {
            check!(fs::CREATES == 0 && fs::OPENS == 1, "opening for reading opens the file");
            check!(fs::READS == 1, "opening for reading reads the file opened");
            check!(matches!(&r, Err(e) if e.raw_os_error() == Some(7654321)), "an error of the file is returned as it is");
        }
        forget((r, c));
    }
}

// On the real file system, in the current (scratch) folder.
#[cfg(not(kani))]
mod real {
    use super::*;
    use std::path::{Path, PathBuf};
    /// A folder of its own for each run, removed at its end.
    pub struct Dir(pub PathBuf);
    pub fn dir() -> Dir {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let d = std::env::current_dir().unwrap().join(format!("c25-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).unwrap();
        Dir(d)
    }
    impl Drop for Dir {
        fn drop(&mut self) {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
    pub fn opened(p: &Path, m: AccessMode) -> (Result<Box<Profile>>, usize) {
        let mut c = recording();
        let r = Profile::open_from_file_thr(&mut c, p, m);
        (r, unsafe { CALLS })
    }
}
#[cfg(not(kani))]
obligations! {
    fn c25_write() {
        let d = real::dir();
        for old in [None, Some(&b"old content of some length"[..])] {
            let p = d.0.join("file.icc");
            if let Some(b) = old {
                std::fs::write(&p, b).unwrap();
            }
            let (r, calls) = real::opened(&p, AccessMode::Write);
            match &r {
                Ok(q) => {
                    check!(blank_fields(q), "a profile opened for writing is blank");
                    check!(fields(q).is_write, "a profile opened for writing is in write mode");
                    check!(q.get_io_handler().is_some(), "a profile opened for writing holds its file");
                    check!(format!("{:?}", q.get_io_handler().unwrap()).contains("file.icc"), "a profile opened for writing holds its file");
                    check!(format!("{:?}", q.get_io_handler().unwrap()).contains("write: true"), "the file can be written");
                }
                Err(_) => check!(false, "opening for writing succeeds when the file is created"),
            }
            check!(calls == 0, "opening for writing signals no error");
            check!(std::fs::read(&p).ok() == Some(vec![]), "opening for writing creates the file, empty");
        }
        let (r, calls) = real::opened(&d.0.join("missing/file.icc"), AccessMode::Write);
        check!(matches!(&r, Err(e) if e.raw_os_error() == Some(2)), "an error of creating the file is returned as it is");
        check!(calls == 0, "opening for writing signals no error");
        let (r, _) = real::opened(&d.0, AccessMode::Write);
        check!(matches!(&r, Err(e) if e.raw_os_error() == Some(21)), "an error of creating the file is returned as it is");
        let (r, _) = real::opened(Path::new("/dev/full"), AccessMode::Write);
        check!(r.is_ok(), "opening for writing succeeds when the file is created");
    }
    fn c25_read_fails() {
        let d = real::dir();
        let p = d.0.join("missing.icc");
        let (r, calls) = real::opened(&p, AccessMode::Read);
        check!(matches!(&r, Err(e) if e.raw_os_error() == Some(2)), "an error of opening the file is returned as it is");
        check!(calls == 0, "failing to open the file signals no error");
        check!(!p.exists(), "opening for reading creates nothing");
    }
    fn c25_read() {
        let d = real::dir();
        let p = d.0.join("short.icc");
        std::fs::write(&p, [7u8; 100]).unwrap();
        let (r, _) = real::opened(&p, AccessMode::Read);
        check!(matches!(&r, Err(e) if e.kind() == ErrorKind::UnexpectedEof), "an error of the file is returned as it is");
        check!(std::fs::read(&p).ok() == Some(vec![7; 100]), "opening for reading opens the file");
        let (r, _) = real::opened(&d.0, AccessMode::Read);
        check!(matches!(&r, Err(e) if e.raw_os_error() == Some(21)), "an error of the file is returned as it is");
    }
}
#[cfg(not(kani))]
use std::path::Path;
