//! C10 - tag entries.
use crate::sym::*;
use lcms2::types::codec_verif::*;
use lcms2::types::*;

fn u32_at(b: &[u8; 12], i: usize) -> u32 {
    let x = [b[i], b[i + 1], b[i + 2], b[i + 3]];
    if cfg!(feature = "le") { u32::from_le_bytes(x) } else { u32::from_be_bytes(x) }
}
fn decoded(t: &TagEntry, b: &[u8; 12]) {
    check!(u32::from(t.sig) == u32_at(b, 0), "the signature is at 0");
    check!(t.offset == u32_at(b, 4), "the offset is at 4");
    check!(t.size == u32_at(b, 8), "the size is at 8");
}

obligations! {
    fn c10_decode() {
        let b: [u8; 12] = any();
        decoded(&tag_entry_from_bytes(b), &b);
        check!(tag_entry_to_bytes(tag_entry_from_bytes(b)) == b, "encoding a decoded entry reproduces its bytes");
    }
    fn c10_encode() {
        let t = TagEntry { sig: Signature::from(any::<u32>()), offset: any(), size: any() };
        let b = tag_entry_to_bytes(t);
        decoded(&t, &b);
        check!(tag_entry_from_bytes(b) == t, "decoding an encoded entry reproduces it");
    }
}
