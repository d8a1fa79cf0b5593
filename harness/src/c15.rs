//! C15 - the n-th tag.
use crate::ctx::*;
use crate::sym::*;
use lcms2::types::profile_verif::*;
use lcms2::types::*;

obligations! {
    #[kani::stub(chrono::Utc::now, now_stub)]
    #[kani::unwind(2)]
    fn c15_nth_tag() {
        let mut p = Profile::new();
        check!(p.get_tag_count() == 0, "a new profile has no tags");
        let (n, k, other): (usize, usize, usize) = (any(), any(), any());
        assume(n <= MAX_TABLE_TAG && other < MAX_TABLE_TAG && other != k);
        set_tag_count(&mut p, n);
        check!(p.get_tag_count() == n, "the number of tags is that of the directory");
        let name = Signature::from(any::<u32>());
        let t = Tag { name, linked: None, size: any(), offset: any(), save_as_raw: false };
        if k < MAX_TABLE_TAG {
            set_tag(&mut p, k, &t);
        }
        set_tag(&mut p, other, &Tag { name: Signature::from(any::<u32>()), ..t });
        reach!(n == MAX_TABLE_TAG && k == n, "just beyond a full table");
        reach!(k == usize::MAX, "the largest number");
        reach!(k < n, "a tag");
        let s = p.get_tag_signature(k);
        check!(u32::from(s) == if k < n { u32::from(name) } else { 0x20202020 }, "the signature of the n-th tag, or four spaces");
        std::mem::forget(p);
    }
}
