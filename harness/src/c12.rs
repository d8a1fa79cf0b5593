//! C12 - header fields.
use crate::ctx::*;
use crate::prof::*;
use crate::sym::*;
use chrono::{Datelike, Timelike};
use lcms2::types::profile_verif::*;
use lcms2::types::*;
use std::mem::forget;

obligations! {
    #[kani::unwind(17)]
    #[kani::stub(chrono::Utc::now, now_stub)]
    #[kani::stub(std::fmt::format, text_stub)]
    fn c12_fields() {
        fields_of(0)
    }
    #[kani::unwind(17)]
    #[kani::stub(chrono::Utc::now, now_stub)]
    #[kani::stub(std::fmt::format, text_stub)]
    fn c12_fields_with_tags() {
        fields_of(any_count())
    }
}
fn fields_of(tags: usize) {
        any_stream(tags);
        put(128, &(tags as u32).to_be_bytes());
        let mut c = recording();
        let mut p = blank();
        let r = read_header(&mut p, &mut c);
        if r.is_ok() {
            reach!(p.get_tag_count() == tags, "accepted");
            let f = fields(&p);
            check!(f.version == u32_at(8), "the version is the header's");
            check!(f.device_class == sig_at(12), "the class is the header's");
            check!(f.color_space == sig_at(16), "the colour space is the header's");
            check!(f.pcs == sig_at(20), "the connection space is the header's");
            check!(f.flags == u32_at(44), "the flags are the header's");
            check!(f.manufacturer == u32_at(48), "the manufacturer is the header's");
            check!(f.model == u32_at(52), "the model is the header's");
            check!(f.attributes == ((u32_at(56) as u64) << 32 | u32_at(60) as u64), "the attributes are the header's");
            check!(f.rendering_intent == u32_at(64), "the rendering intent is the header's");
            check!(f.creator == u32_at(80), "the creator is the header's");
            let id = unsafe { f.profile_id.id8 };
            let mut same = true;
            for i in 0..16 {
                same &= id[i] == unsafe { DATA[84 + i] };
            }
            check!(same, "the profile ID is the header's");
            check!(f.created.year() == u16_at(24) as i32 && f.created.month() == u16_at(26) as u32 && f.created.day() == u16_at(28) as u32, "the creation date is the header's");
            check!(f.created.hour() == u16_at(30) as u32 && f.created.minute() == u16_at(32) as u32 && f.created.second() == u16_at(34) as u32
                && f.created.nanosecond() == 0, "the creation time is the header's");
            check!(!f.is_write, "the profile is not marked as being written");
            check!(p.get_io_handler().is_some(), "the profile keeps its stream");
        }
        forget((r, p, c));
}
