//! C13 - the tag directory. The tag table is bounded here; the Verus layer has no bound.
use crate::ctx::*;
use crate::prof::*;
use crate::sym::*;
use lcms2::types::profile_verif::*;
use lcms2::types::*;
use std::mem::forget;

obligations! {
    #[kani::unwind(6)]
    #[kani::stub(chrono::Utc::now, now_stub)]
    #[kani::stub(std::fmt::format, text_stub)]
    fn c13_directory() {
        let n = any_count();
        any_stream(N);
        good_header(n as u32);
        let mut c = recording();
        let mut p = blank();
        let r = read_header(&mut p, &mut c);
        check!(r.is_ok(), "a well-formed file is accepted");
        let mut kept = 0;
        for i in 0..N {
            if i < n && in_bounds(i) {
                let at = 132 + 12 * i;
                let t = tag(&p, kept);
                check!(t.name == sig_at(at), "a kept entry has its signature");
                check!(t.offset == u32_at(at + 4) as usize, "a kept entry has its offset");
                check!(t.size == u32_at(at + 8) as usize, "a kept entry has its size");
                check!(!t.save_as_raw, "a tag read is not marked as raw");
                kept += 1;
                reach!(kept == N, "all entries are kept");
                reach!(kept < i + 1, "an entry is left out");
                check!(p.get_tag_signature(kept - 1) == sig_at(at), "the n-th tag is the n-th entry kept");
            }
        }
        check!(p.get_tag_count() == kept, "the number of tags is the number of entries in bounds");
        forget((r, p, c));
    }
}
