//! C11 - which files are accepted. The tag table is bounded here; the Verus layer has no bound.
use crate::ctx::*;
use crate::prof::*;
use crate::sym::*;
use lcms2::state::ErrorCode;
use lcms2::types::profile_verif::*;
use lcms2::types::*;
use std::io::ErrorKind;
use std::mem::forget;

fn outcome(avail: usize) -> Option<ErrorKind> {
    unsafe {
        AVAIL = avail;
        // the verifier has one error; the Verus unit has any
        #[cfg(not(kani))]
        {
            FAULT.kind = Fault::any_kind();
        }
    }
    let mut c = recording();
    let mut p = blank();
    let r = read_header(&mut p, &mut c);
    unsafe {
        match &r {
            Ok(()) => {
                check!(!FAILED, "an error of the stream is returned");
                check!(good_magic(), "a file without the magic number is rejected");
                check!(good_date(), "a file with an invalid date is rejected");
                check!(u32_at(128) <= 100, "a file with more than 100 tags is rejected");
                check!(AVAIL as u64 >= 132 + 12 * u32_at(128) as u64, "a truncated tag table is rejected");
                check!(CALLS == 0, "opening a valid file signals no error");
            }
            Err(e) if FAILED => {
                check!(is_fault(e), "an error of the stream is returned as it is");
                check!(CALLS == 0, "an error of the stream is not signalled");
            }
            Err(e) => {
                check!(!(good_magic() && good_date() && u32_at(128) <= 100), "a valid file is accepted");
                check!(e.kind() == ErrorKind::InvalidData, "an invalid file is invalid data");
                check!(CALLS == 1, "rejecting a file signals exactly one error");
                check!(CODE == Some(if good_magic() { ErrorCode::Range } else { ErrorCode::BadSignature }), "the error signalled names what is wrong");
                check!(WHO == &c as *const _, "the error is signalled to the context");
            }
        }
        check!(!WRITTEN, "opening for reading writes nothing");
    }
    let kind = r.as_ref().err().map(|e| e.kind());
    forget((r, p, c));
    kind
}

/// The access `at` fails, or the file ends there.
fn fault(at: usize, tags: usize) {
    any_stream(tags);
    if tags > 0 {
        good_header(tags as u32);
    }
    unsafe { FAIL_AT = at };
    outcome(CAP);
}

obligations! {
    // any header, without tags
    #[kani::unwind(3)]
    #[kani::stub(chrono::Utc::now, now_stub)]
    #[kani::stub(std::fmt::format, text_stub)]
    fn c11_header() {
        any_stream(0);
        put(128, &[0; 4]);
        let r = outcome(132);
        reach!(r == Some(ErrorKind::InvalidData), "rejected");
        reach!(r.is_none(), "accepted");
    }
    // too many tags
    #[kani::unwind(2)]
    #[kani::stub(chrono::Utc::now, now_stub)]
    #[kani::stub(std::fmt::format, text_stub)]
    fn c11_too_many() {
        any_stream(0);
        assume(u32_at(128) > 100);
        let r = outcome(132);
        reach!(r == Some(ErrorKind::InvalidData), "rejected");
    }
    // any tags
    #[kani::unwind(4)]
    #[kani::stub(chrono::Utc::now, now_stub)]
    #[kani::stub(std::fmt::format, text_stub)]
    fn c11_tags() {
        let n = any_count();
        any_stream(n);
        good_header(n as u32);
        #[cfg(not(kani))]
        if any::<u8>() < 20 {
            put(128, &(n as u32 + any::<u32>() % 3).to_be_bytes());
        }
        let mut avail = 132 + 12 * n;
        #[cfg(not(kani))]
        if any::<u8>() < 60 {
            avail = (any::<u32>() as usize % avail).max(avail - any::<u8>() as usize % 14);
        }
        let r = outcome(avail);
        reach!(r.is_none(), "accepted");
    }
    #[kani::unwind(4)]
    #[kani::stub(chrono::Utc::now, now_stub)]
    #[kani::stub(std::fmt::format, text_stub)]
    fn c11_fault_0() {
        fault(0, 0);
    }
    #[kani::unwind(4)]
    #[kani::stub(chrono::Utc::now, now_stub)]
    #[kani::stub(std::fmt::format, text_stub)]
    fn c11_fault_1() {
        fault(1, 0);
    }
    #[kani::unwind(4)]
    #[kani::stub(chrono::Utc::now, now_stub)]
    #[kani::stub(std::fmt::format, text_stub)]
    fn c11_fault_2() {
        fault(2, 0);
    }
    #[kani::unwind(4)]
    #[kani::stub(chrono::Utc::now, now_stub)]
    #[kani::stub(std::fmt::format, text_stub)]
    fn c11_fault_3() {
        fault(3, 0);
    }
    #[kani::unwind(4)]
    #[kani::stub(chrono::Utc::now, now_stub)]
    #[kani::stub(std::fmt::format, text_stub)]
    fn c11_fault_4() {
        fault(4, 0);
    }
    #[kani::unwind(4)]
    #[kani::stub(chrono::Utc::now, now_stub)]
    #[kani::stub(std::fmt::format, text_stub)]
    fn c11_fault_5() {
        fault(5, 0);
    }
    #[kani::unwind(4)]
    #[kani::stub(chrono::Utc::now, now_stub)]
    #[kani::stub(std::fmt::format, text_stub)]
    fn c11_fault_6() {
        fault(6, N);
    }
    #[kani::unwind(4)]
    #[kani::stub(chrono::Utc::now, now_stub)]
    #[kani::stub(std::fmt::format, text_stub)]
    fn c11_fault_7() {
        fault(7, N);
    }
}
