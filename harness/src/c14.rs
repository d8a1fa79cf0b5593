//! C14 - links and lookups. The tag table is bounded here; the Verus layer has no bound.
use crate::ctx::*;
use crate::prof::*;
use crate::sym::*;
use lcms2::types::profile_verif::*;
use lcms2::types::*;
use std::mem::forget;

/// A directory of up to N entries, made by opening a file.
fn opened() -> Profile {
    let n = any_count();
    any_stream(N);
    good_header(n as u32);
    let mut c = recording();
    let mut p = blank();
    let r = read_header(&mut p, &mut c);
    check!(r.is_ok(), "a well-formed file is accepted");
    forget((r, c));
    assume(p.get_tag_count() <= N);
    p
}

obligations! {
    #[kani::unwind(6)]
    #[kani::stub(chrono::Utc::now, now_stub)]
    #[kani::stub(std::fmt::format, text_stub)]
    fn c14_links() {
        let p = opened();
        let n = p.get_tag_count();
        for i in 0..N {
            if i < n {
                let t = tag(&p, i);
                let mut want = None;
                for j in 0..i {
                    let u = tag(&p, j);
                    if u.offset == t.offset && u.size == t.size {
                        want = Some(u.name);
                    }
                }
                reach!(want.is_some(), "linked");
                check!(t.linked == want, "a tag is linked to the last earlier tag with the same data, if any");
            }
        }
        forget(p);
    }
    #[kani::unwind(6)]
    #[kani::stub(chrono::Utc::now, now_stub)]
    #[kani::stub(std::fmt::format, text_stub)]
    fn c14_lookup() {
        // any directory whose links lead to earlier tags, as c14_links shows
        let mut p = blank();
        let n: usize = any();
        assume(n <= N && n <= 100);
        let names: [u32; N] = any();
        #[cfg(not(kani))]
        let names = names.map(|x| x % 8);
        let mut linked = [false; N];
        for i in 0..N {
            if i < n {
                let k: usize = any();
                let link = if k < i { Some(Signature::from(names[k])) } else { None };
                linked[i] = link.is_some();
                set_tag(&mut p, i, &Tag { name: names[i].into(), linked: link, size: any(), offset: any(), save_as_raw: false });
            }
        }
        set_tag_count(&mut p, n);
        let sig: u32 = any();
        #[cfg(not(kani))]
        let sig = sig % 8;
        let mut first = None;
        for i in (0..N).rev() {
            if i < n && names[i] == sig {
                first = Some(i);
            }
        }
        reach!(first == Some(N - 1), "the last tag");
        check!(search_tag(&p, sig.into(), false) == first, "without following links the first tag of that name is found");
        let f = search_tag(&p, sig.into(), true);
        check!(f.is_some() == first.is_some(), "following links a tag is found exactly when there is one of that name");
        if let Some(i) = f {
            check!(i < n, "the tag found is one of the directory");
            check!(!linked[i], "following links ends at a tag that is not linked");
            if !linked[first.unwrap_or(0)] {
                check!(f == first, "a tag that is not linked is found itself");
            }
        }
        forget(p);
    }
}
