//! C09 - the profile header.
use crate::sym::*;
use lcms2::types::codec_verif::*;
use lcms2::types::*;

fn u16_at(b: &[u8; 128], i: usize) -> u16 {
    let x = [b[i], b[i + 1]];
    if cfg!(feature = "le") { u16::from_le_bytes(x) } else { u16::from_be_bytes(x) }
}
fn u32_at(b: &[u8; 128], i: usize) -> u32 {
    let x = [b[i], b[i + 1], b[i + 2], b[i + 3]];
    if cfg!(feature = "le") { u32::from_le_bytes(x) } else { u32::from_be_bytes(x) }
}
fn u64_at(b: &[u8; 128], i: usize) -> u64 {
    let x = [b[i], b[i + 1], b[i + 2], b[i + 3], b[i + 4], b[i + 5], b[i + 6], b[i + 7]];
    if cfg!(feature = "le") { u64::from_le_bytes(x) } else { u64::from_be_bytes(x) }
}
fn sig_at(b: &[u8; 128], i: usize) -> Signature {
    Signature::from(u32_at(b, i))
}
fn bytes(h: &ProfileID) -> [u8; 16] {
    unsafe { h.id8 }
}
/// ICC.1:2010, table 17.
fn decoded(h: &ICCHeader, b: &[u8; 128]) {
    check!(h.size == u32_at(b, 0), "size is at 0");
    check!(h.cmm_id == sig_at(b, 4), "preferred CMM is at 4");
    check!(h.version == u32_at(b, 8), "version is at 8");
    check!(h.device_class == sig_at(b, 12), "class is at 12");
    check!(h.color_space == sig_at(b, 16), "colour space is at 16");
    check!(h.pcs == sig_at(b, 20), "connection space is at 20");
    check!(h.date.year == u16_at(b, 24), "year is at 24");
    check!(h.date.month == u16_at(b, 26), "month is at 26");
    check!(h.date.day == u16_at(b, 28), "day is at 28");
    check!(h.date.hours == u16_at(b, 30), "hours is at 30");
    check!(h.date.minutes == u16_at(b, 32), "minutes is at 32");
    check!(h.date.seconds == u16_at(b, 34), "seconds is at 34");
    check!(h.magic == sig_at(b, 36), "magic number is at 36");
    check!(h.platform == sig_at(b, 40), "platform is at 40");
    check!(h.flags == u32_at(b, 44), "flags is at 44");
    check!(h.manufacturer == sig_at(b, 48), "manufacturer is at 48");
    check!(h.model == u32_at(b, 52), "model is at 52");
    check!(h.attributes == u64_at(b, 56), "attributes is at 56");
    check!(h.rendering_intent == u32_at(b, 64), "rendering intent is at 64");
    check!(h.illuminant.x as u32 == u32_at(b, 68), "illuminant X is at 68");
    check!(h.illuminant.y as u32 == u32_at(b, 72), "illuminant Y is at 72");
    check!(h.illuminant.z as u32 == u32_at(b, 76), "illuminant Z is at 76");
    check!(h.creator == sig_at(b, 80), "creator is at 80");
    let mut raw = [0u8; 16];
    raw.copy_from_slice(&b[84..100]);
    check!(bytes(&h.profile_id) == raw, "profile ID is at 84, verbatim");
    let mut raw = [0u8; 28];
    raw.copy_from_slice(&b[100..]);
    check!(h.reserved == raw, "reserved bytes are at 100, verbatim");
}
fn any_header() -> ICCHeader {
    let s = || Signature::from(any::<u32>());
    ICCHeader {
        size: any(),
        cmm_id: s(),
        version: any(),
        device_class: s(),
        color_space: s(),
        pcs: s(),
        date: DateTimeNumber { year: any(), month: any(), day: any(), hours: any(), minutes: any(), seconds: any() },
        magic: s(),
        platform: s(),
        flags: any(),
        manufacturer: s(),
        model: any(),
        attributes: any(),
        rendering_intent: any(),
        illuminant: EncodedXYZNumber { x: any(), y: any(), z: any() },
        creator: s(),
        profile_id: ProfileID { id8: any() },
        reserved: any(),
    }
}

obligations! {
    fn c09_decode() {
        let b: [u8; 128] = any();
        decoded(&header_from_bytes(b), &b);
    }
    fn c09_encode() {
        let h = any_header();
        decoded(&h, &header_to_bytes(h));
    }
    fn c09_decode_then_encode() {
        let b: [u8; 128] = any();
        check!(header_to_bytes(header_from_bytes(b)) == b, "encoding a decoded header reproduces its bytes");
    }
    fn c09_encode_then_decode() {
        let h = any_header();
        let b = header_to_bytes(h);
        let d = header_from_bytes(b);
        decoded(&d, &b);
        check!(d == h, "decoding an encoded header reproduces it");
    }
}
