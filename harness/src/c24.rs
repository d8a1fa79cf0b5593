//! C24 - equality of profiles and profile IDs.
use crate::ctx::*;
use crate::mock::Mock;
use crate::sym::*;
use lcms2::types::profile_verif::*;
use lcms2::types::*;
use std::mem::forget;

fn sig() -> Signature {
    Signature::from(any::<u32>())
}
fn any_fields() -> Fields {
    Fields {
        created: chrono::NaiveDate::from_ymd(2000, 1, 1).and_hms(0, 0, (any::<u8>() % 60) as u32),
        version: any(),
        device_class: sig(),
        color_space: sig(),
        pcs: sig(),
        rendering_intent: any(),
        flags: any(),
        manufacturer: any(),
        model: any(),
        attributes: any(),
        creator: any(),
        profile_id: ProfileID { id8: any() },
        is_write: any(),
    }
}
fn same(a: &Fields, b: &Fields) -> bool {
    a.created == b.created && a.version == b.version && a.device_class == b.device_class && a.color_space == b.color_space
        && a.pcs == b.pcs && a.rendering_intent == b.rendering_intent && a.flags == b.flags && a.manufacturer == b.manufacturer
        && a.model == b.model && a.attributes == b.attributes && a.creator == b.creator
        && unsafe { a.profile_id.id8 == b.profile_id.id8 } && a.is_write == b.is_write
}
fn any_tag() -> Tag {
    Tag { name: sig(), linked: if any() { Some(sig()) } else { None }, size: any(), offset: any(), save_as_raw: any() }
}
/// One of the two differs from the other in at most the chosen place.
fn tweak<T>(a: T, b: T) -> T {
    if any() { a } else { b }
}

obligations! {
    #[kani::unwind(18)]
    fn c24_ids() {
        let (a, b): ([u8; 16], [u8; 16]) = (any(), any());
        let b = if any() { a } else { b };
        let (x, y) = (ProfileID { id8: a }, ProfileID { id8: b });
        let i: usize = any();
        assume(i < 16);
        check!(x == x, "an ID equals itself");
        let eq = x == y;
        reach!(eq, "equal");
        reach!(!eq, "different");
        check!(!eq || a[i] == b[i], "equal IDs have the same bytes");
        check!(eq || a != b, "different IDs differ in a byte");
        check!((y == x) == eq && (x != y) == !eq, "equality is symmetric");
    }
    #[kani::unwind(802)]
    #[kani::stub(chrono::Utc::now, now_stub)]
    fn c24_fields() {
        let (mut p, mut q) = (Profile::new(), Profile::new());
        let f = any_fields();
        let g = any_fields();
        // all fields may differ, or any single one
        let g = if any() { g } else {
            Fields {
                created: tweak(f.created, g.created), version: tweak(f.version, g.version), device_class: tweak(f.device_class, g.device_class),
                color_space: tweak(f.color_space, g.color_space), pcs: tweak(f.pcs, g.pcs), rendering_intent: tweak(f.rendering_intent, g.rendering_intent),
                flags: tweak(f.flags, g.flags), manufacturer: tweak(f.manufacturer, g.manufacturer), model: tweak(f.model, g.model),
                attributes: tweak(f.attributes, g.attributes), creator: tweak(f.creator, g.creator), profile_id: tweak(f.profile_id, g.profile_id),
                is_write: tweak(f.is_write, g.is_write),
            }
        };
        set_fields(&mut p, &f);
        set_fields(&mut q, &g);
        let (n, m): (usize, usize) = (any(), any());
        assume(n <= MAX_TABLE_TAG && m <= MAX_TABLE_TAG);
        set_tag_count(&mut p, n);
        set_tag_count(&mut q, m);
        if any() {
            set_io_handler(&mut p, Some(Box::new(Mock)));
        }
        let eq = p == q;
        reach!(eq, "equal");
        reach!(!eq && n == m, "different");
        check!(eq == (same(&f, &g) && n == m), "profiles are equal exactly when their fields and numbers of tags are");
        forget((p, q));
    }
    #[kani::unwind(802)]
    #[kani::stub(chrono::Utc::now, now_stub)]
    fn c24_directory_names() { directory(|a, b| a.name = b.name) }
    #[kani::unwind(802)]
    #[kani::stub(chrono::Utc::now, now_stub)]
    fn c24_directory_links() { directory(|a, b| a.linked = b.linked) }
    #[kani::unwind(802)]
    #[kani::stub(chrono::Utc::now, now_stub)]
    fn c24_directory_sizes() { directory(|a, b| a.size = b.size) }
    #[kani::unwind(802)]
    #[kani::stub(chrono::Utc::now, now_stub)]
    fn c24_directory_offsets() { directory(|a, b| a.offset = b.offset) }
    #[kani::unwind(802)]
    #[kani::stub(chrono::Utc::now, now_stub)]
    fn c24_directory_raw() { directory(|a, b| a.save_as_raw = b.save_as_raw) }
}
/// Two directories of a hundred entries each, which differ arbitrarily in one column.
fn directory(column: impl Fn(&mut Tag, Tag)) {
    let (mut p, mut q) = (Profile::new(), Profile::new());
    let mut all = true;
    let blank = tag(&p, 0);
    for k in 0..MAX_TABLE_TAG {
        let (mut a, mut b) = (blank, blank);
        column(&mut a, any_tag());
        column(&mut b, any_tag());
        #[cfg(not(kani))]
        if any::<u8>() != 255 {
            b = a;
        }
        set_tag(&mut p, k, &a);
        set_tag(&mut q, k, &b);
        all &= a == b;
    }
    let n: usize = any();
    assume(n <= MAX_TABLE_TAG);
    set_tag_count(&mut p, n);
    set_tag_count(&mut q, n);
    let eq = p == q;
    reach!(eq, "equal");
    reach!(!eq, "different");
    check!(eq == all, "profiles are equal exactly when their directories are");
    forget((p, q));
}
