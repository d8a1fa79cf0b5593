//! C17 - signalling errors.
use crate::ctx::*;
use crate::sym::*;
use lcms2::state::context_verif::*;
use lcms2::state::{Context, ErrorCode};
use std::mem::forget;

fn any_code() -> ErrorCode {
    let i: usize = any();
    assume(i < 14);
    CODES[i]
}
/// Text of any length, of which the character at `at` is `ch`.
struct Any {
    text: String,
    len: usize,
    at: usize,
    ch: u8,
}
#[cfg(kani)]
fn any_text() -> Any {
    let len: usize = any();
    assume(len > 0 && len <= 1 << 40);
    let at: usize = any();
    assume(at < len);
    unsafe {
        // memory with any content
        let p = std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(len, 1));
        assume(!p.is_null());
        let ch = *p.add(at);
        assume(ch < 128);
        Any { text: String::from_raw_parts(p, len, len), len, at, ch }
    }
}
#[cfg(not(kani))]
fn any_text() -> Any {
    let len = 1 + any::<usize>() % 5000;
    let at = any::<usize>() % len;
    let ch = any::<u8>() % 128;
    let mut b: Vec<u8> = (0..len).map(|i| 32 + (i % 90) as u8).collect();
    b[at] = ch;
    Any { text: String::from_utf8(b).unwrap(), len, at, ch }
}
fn delivered(c: &Context, which: u8, code: ErrorCode, len: usize, at: usize, ch: u8) {
    unsafe {
        check!(CALLS == 1, "the handler is called exactly once");
        check!(WHICH == which, "the handler of this context is called");
        check!(WHO == c as *const Context, "the handler is given this context");
        check!(CODE == Some(code), "the code is unchanged");
        check!(TEXT.len() == len, "the text is unchanged in length");
        check!(len == 0 || TEXT.as_bytes()[at] == ch, "the text is unchanged");
    }
}

obligations! {
    #[kani::unwind(20)]
    fn c17_signal() {
        let mut c = recording();
        let two: bool = any();
        let alarm: u16 = any();
        let channel: usize = any();
        assume(channel < 16);
        alarm_codes(&mut c).alarm_codes[channel] = alarm;
        adaption_state(&mut c).adaption_state = 0.5;
        if two {
            set_error_handler(&mut c, handler_two);
        }
        let code = any_code();
        let t = any_text();
        c.signal_error(code, t.text);
        check!(alarm_codes(&mut c).alarm_codes[channel] == alarm && adaption_state(&mut c).adaption_state == 0.5, "the context is not changed");
        check!(user_data(&mut c).is_none(), "the context's user data is not changed");
        check!(error_handler(&c) as usize == if two { handler_two as usize } else { handler_one as usize }, "the handler stays installed");
        delivered(&c, if two { 2 } else { 1 }, code, t.len, t.at, t.ch);
        forget(c);
    }
    #[kani::unwind(20)]
    fn c17_signal_empty_text() {
        let mut c = recording();
        let code = any_code();
        if any() {
            c.signal_error(code, String::new());
        } else {
            c.signal_error(code, "");
        }
        delivered(&c, 1, code, 0, 0, 0);
        forget(c);
    }
    #[kani::unwind(20)]
    fn c17_signal_borrowed_text() {
        let mut c = recording();
        let code = any_code();
        let t = any_text();
        c.signal_error(code, t.text.as_str());
        delivered(&c, 1, code, t.len, t.at, t.ch);
        forget((c, t));
    }
    #[kani::unwind(20)]
    fn c17_clone() {
        let mut c = recording();
        let mut d = c.clone();
        set_error_handler(&mut c, handler_two);
        let code = any_code();
        let t = any_text();
        if any() {
            d.signal_error(code, t.text);
            delivered(&d, 1, code, t.len, t.at, t.ch);
        } else {
            c.signal_error(code, t.text);
            delivered(&c, 2, code, t.len, t.at, t.ch);
        }
        forget((c, d));
    }
}
