//! C16 - plug-in chains. Chains of up to three here; the Verus layer has no bound.
use crate::ctx::*;
use crate::sym::*;
use lcms2::plugins::*;
use lcms2::state::ErrorCode;
use lcms2::types::*;
use std::mem::forget;
use std::sync::Arc;

const TYPES: [&[u8; 4]; 9] = [b"inpH", b"parH", b"frmH", b"typH", b"tagH", b"intH", b"mpeH", b"optH", b"xfmH"];

fn payload() -> PluginType {
    PluginType::Optimization { optimizer: |_, _| None }
}
/// A plug-in of which any of the three demands may be violated.
fn any_plugin(next: Option<Arc<Plugin>>) -> (Plugin, bool) {
    let magic: u32 = if any() { 0x61637070 } else { any() };
    let version: u32 = any();
    let known: usize = any();
    let ty: u32 = if known < 9 { u32::from_be_bytes(*TYPES[known]) } else { any() };
    let mut is_known = false;
    for t in TYPES {
        is_known |= ty == u32::from_be_bytes(*t);
    }
    // 2131 is version 2.13.1, the one this library implements
    let ok = magic == 0x61637070 && version <= 2131 && is_known;
    (Plugin { magic: magic.into(), expected_version: version, r#type: ty.into(), next, data: payload() }, ok)
}
fn validate(head: &Plugin, ok: bool) {
    let mut c = recording();
    let r = c.init_plugin(head);
    unsafe {
        match &r {
            Ok(()) => {
                reach!(true, "accepted");
                check!(ok, "a chain with an invalid plug-in is rejected");
                check!(CALLS == 0, "accepting a chain signals no error");
            }
            Err(t) => {
                reach!(true, "rejected");
                check!(!ok, "a chain of valid plug-ins is accepted");
                check!(CALLS == 1, "rejecting a chain signals exactly one error");
                check!(CODE == Some(ErrorCode::UnknownExtension), "the error signalled is an unknown extension");
                check!(WHO == &c as *const _, "the error is signalled to the context");
                let n = t.len();
                check!(TEXT.len() == n, "the text signalled is the text returned");
                let i: usize = any();
                assume(i < n);
                check!(TEXT.as_bytes()[i] == t.as_bytes()[i], "the text signalled is the text returned, in every character");
            }
        }
    }
    forget(r);
    forget(c);
}

obligations! {
    #[kani::unwind(12)]
    #[kani::stub(std::fmt::format, text_stub)]
    fn c16_single() {
        let (a, ok) = any_plugin(None);
        validate(&a, ok);
        forget(a);
    }
    #[kani::unwind(12)]
    #[kani::stub(std::fmt::format, text_stub)]
    fn c16_chain_of_two() {
        let (b, ok_b) = any_plugin(None);
        let (a, ok_a) = any_plugin(Some(Arc::new(b)));
        reach!(ok_a && !ok_b, "only the last plug-in is invalid");
        validate(&a, ok_a && ok_b);
        forget(a);
    }
    #[kani::unwind(12)]
    #[kani::stub(std::fmt::format, text_stub)]
    fn c16_chain_of_three() {
        let (c, ok_c) = any_plugin(None);
        let (b, ok_b) = any_plugin(Some(Arc::new(c)));
        let (a, ok_a) = any_plugin(Some(Arc::new(b)));
        reach!(ok_a && ok_b && !ok_c, "only the last plug-in is invalid");
        reach!(ok_a && !ok_b && ok_c, "only the plug-in in the middle is invalid");
        validate(&a, ok_a && ok_b && ok_c);
        forget(a);
    }
}
