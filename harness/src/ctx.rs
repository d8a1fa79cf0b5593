//! A context whose error handler records the calls made to it.
use lcms2::state::context_verif::*;
use lcms2::state::{Context, ErrorCode};

pub static mut CALLS: usize = 0;
pub static mut CODE: Option<ErrorCode> = None;
pub static mut TEXT: String = String::new();
pub static mut WHO: *const Context = std::ptr::null();
/// Which of the two handlers was called last.
pub static mut WHICH: u8 = 0;

fn record(c: &mut Context, code: ErrorCode, text: String) {
    unsafe {
        CALLS += 1;
        CODE = Some(code);
        std::mem::forget(std::mem::replace(&mut TEXT, text));
        WHO = c as *const Context;
    }
}
pub fn handler_one(c: &mut Context, code: ErrorCode, text: String) {
    unsafe { WHICH = 1 };
    record(c, code, text)
}
pub fn handler_two(c: &mut Context, code: ErrorCode, text: String) {
    unsafe { WHICH = 2 };
    record(c, code, text)
}
pub fn reset_record() {
    unsafe {
        CALLS = 0;
        CODE = None;
        WHICH = 0;
        WHO = std::ptr::null();
    }
}
/// A context which records the errors signalled to it.
pub fn recording() -> Context {
    reset_record();
    let mut c = Context::new(None);
    set_error_handler(&mut c, handler_one);
    c
}
pub const CODES: [ErrorCode; 14] = [
    ErrorCode::Undefined, ErrorCode::File, ErrorCode::Range, ErrorCode::Internal, ErrorCode::Null, ErrorCode::Read,
    ErrorCode::Seek, ErrorCode::Write, ErrorCode::UnknownExtension, ErrorCode::ColorSpaceCheck, ErrorCode::AlreadyDefined,
    ErrorCode::BadSignature, ErrorCode::CorruptionDetected, ErrorCode::NotSuitable,
];
/// Stands in for the formatting of message texts, whose content no property is about.
pub fn text_stub(_: std::fmt::Arguments<'_>) -> String {
    String::from("formatted text")
}
pub fn now_stub() -> chrono::DateTime<chrono::Utc> {
    chrono::DateTime::from_utc(chrono::NaiveDate::from_ymd(2000, 1, 1).and_hms(0, 0, 0), chrono::Utc)
}
