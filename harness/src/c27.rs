//! C27 - opens through the global context, from several threads.
use crate::sym::*;
use lcms2::io::AccessMode;
use lcms2::types::profile_verif::*;
use lcms2::types::*;

// Kani has no threads and does not compile the mutex of the standard library: the obligations here are native only.
// On the real file system, in the current (scratch) folder.
#[cfg(not(kani))]
mod real {
    use super::*;
    use std::path::{Path, PathBuf};
    use std::sync::{Arc, Barrier, OnceLock};
    pub const FILES: usize = 24;
    fn file(kind: usize, k: usize) -> Vec<u8> {
        let tags = [0, 1, 5, 30, 100, 3][k % 6];
        let mut b = vec![0u8; 132 + 12 * tags];
        let size = b.len() as u32 + 1000;
        b[0..4].copy_from_slice(&size.to_be_bytes());
        b[8..12].copy_from_slice(&[4, 0x30 + k as u8, 0, 0]);
        b[12..16].copy_from_slice(b"mntr");
        b[16..20].copy_from_slice(b"RGB ");
        b[24..36].copy_from_slice(&[7, 208 + k as u8, 0, 1, 0, 2, 0, 3, 0, 4, 0, 5]);
        b[36..40].copy_from_slice(b"acsp");
        b[44..48].copy_from_slice(&[k as u8; 4]);
        b[84..100].copy_from_slice(&[0xA0 + k as u8; 16]);
        b[128..132].copy_from_slice(&(tags as u32).to_be_bytes());
        for i in 0..tags {
            let at = 132 + 12 * i;
            b[at..at + 4].copy_from_slice(&[b'A' + k as u8, b't', b'0' + i as u8 / 10, b'0' + i as u8 % 10]);
            b[at + 4..at + 8].copy_from_slice(&(200 + 8 * (i as u32 % 7) + k as u32).to_be_bytes());
            b[at + 8..at + 12].copy_from_slice(&(8 + i as u32 % 5).to_be_bytes());
        }
        b.resize(size as usize, 0);
        match kind {
            0 => b[36] = b'x',
            1 => b[131] = 101,
            2 => b.truncate(60 + k),
            3 => b[27] = 13,
            4 if tags > 0 => b.truncate(132 + 12 * tags - 5),
            _ => (),
        }
        b
    }
    /// The files, and what each open of one gives alone.
    pub fn files() -> &'static (PathBuf, Vec<String>) {
        static ALL: OnceLock<(PathBuf, Vec<String>)> = OnceLock::new();
        ALL.get_or_init(|| {
            let d = std::env::current_dir().unwrap().join(format!("c27-{}", std::process::id()));
            std::fs::create_dir_all(&d).unwrap();
            let alone = (0..FILES)
                .map(|k| {
                    if k % 8 != 7 {
                        std::fs::write(d.join(k.to_string()), file(k % 8, k)).unwrap();
                    }
                    let mut c = lcms2::state::Context::new(None);
                    summary(Profile::open_from_file_thr(&mut c, d.join(k.to_string()), AccessMode::Read))
                })
                .collect();
            (d, alone)
        })
    }
    /// All of a profile, or the error.
    pub fn summary(r: std::io::Result<Box<Profile>>) -> String {
        match r {
            Err(e) => format!("{:?} {:?}", e.kind(), e.to_string()),
            Ok(p) => {
                let mut s = format!("{}", p.get_tag_count());
                let f = fields(&p);
                s += &format!("{:x} {:?} {:?} {:?} {} {} {} {} {} {} {:?} {} {:?}", f.version, f.device_class, f.color_space, f.pcs, f.rendering_intent,
                    f.flags, f.manufacturer, f.model, f.attributes, f.creator, f.created, f.is_write, unsafe { f.profile_id.id8 });
                for i in 0..p.get_tag_count() {
                    let t = tag(&p, i);
                    s += &format!(" {:?} {} {} {:?} {:?}", t.name, t.offset, t.size, p.get_tag_signature(i), t.linked);
                }
                // which file it holds, without its descriptor
                let io = format!("{:?}", p.get_io_handler());
                s + &io[io.find("path").unwrap_or(0)..]
            }
        }
    }
    pub struct Plan(pub Vec<usize>);
    /// Runs each plan in a thread of its own; None when they do not all end.
    pub fn together(plans: Vec<Plan>) -> Option<Vec<(usize, String)>> {
        let dir: &'static Path = &files().0;
        let start = Arc::new(Barrier::new(plans.len()));
        let (tx, rx) = std::sync::mpsc::channel();
        let mut waiting = 0;
        for (t, Plan(plan)) in plans.into_iter().enumerate() {
            waiting += 1;
            let (start, tx) = (start.clone(), tx.clone());
            std::thread::spawn(move || {
                // a thread which panics drops tx without a word
                start.wait();
                let mut r = vec![];
                for k in plan {
                    let s = if k < FILES {
                        summary(Profile::open_from_file(dir.join(k.to_string()), AccessMode::Read))
                    } else if k == FILES + 1 {
                        // a file which is missing at first
                        let own = dir.join(format!("own{t}"));
                        assert!(Profile::open_from_file(&own, AccessMode::Read).is_err());
                        std::fs::copy(dir.join("6"), &own).unwrap();
                        assert!(summary(Profile::open_from_file(&own, AccessMode::Read)) == files().1[6].replace("/6\"", &format!("/own{t}\"")));
                        std::fs::remove_file(&own).unwrap();
                        String::from("found")
                    } else {
                        let p = Profile::open_from_file(dir.join(format!("new{t}")), AccessMode::Write).unwrap();
                        assert!(fields(&p).is_write && p.get_tag_count() == 0 && p.get_io_handler().is_some());
                        String::from("written")
                    };
                    r.push((k, s));
                }
                tx.send(r).unwrap();
            });
        }
        drop(tx);
        let mut all = vec![];
        while waiting > 0 {
            match rx.recv_timeout(std::time::Duration::from_secs(15)) {
                Ok(r) => all.extend(r),
                Err(_) => return None,
            }
            waiting -= 1;
        }
        Some(all)
    }
}
#[cfg(not(kani))]
obligations! {
    fn c27_one_after_another() {
        let (_, alone) = real::files();
        let plan = (0..any::<u8>() % 8).map(|_| any::<u8>() as usize % real::FILES).collect();
        match real::together(vec![real::Plan(plan)]) {
            None => check!(false, "the opens end"),
            Some(r) => {
                for (k, s) in r {
                    check!(s == alone[k], "an open has the result it has alone");
                }
            }
        }
    }
    fn c27_together() {
        let (_, alone) = real::files();
        let few = any::<u8>() as usize % real::FILES + 1;
        let plans = (0..2 + any::<u8>() % 11)
            .map(|_| real::Plan((0..1 + any::<u8>() % 20).map(|_| if any::<u8>() < 20 { real::FILES + any::<bool>() as usize } else { any::<u8>() as usize % few }).collect()))
            .collect();
        match real::together(plans) {
            None => check!(false, "the opens end"),
            Some(r) => {
                for (k, s) in r {
                    check!(k >= real::FILES || s == alone[k], "an open has the result it has alone");
                }
            }
        }
    }
}
