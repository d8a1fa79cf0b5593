//! C23 - dates.
use crate::sym::*;
use chrono::{Datelike, NaiveDate, NaiveDateTime, Timelike};
use lcms2::types::DateTimeNumber;

/// Gregorian calendar.
fn days(y: u16, m: u16) -> u16 {
    match m {
        4 | 6 | 9 | 11 => 30,
        2 if (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 => 29,
        2 => 28,
        _ => 31,
    }
}
fn valid(d: &DateTimeNumber) -> bool {
    d.month >= 1 && d.month <= 12 && d.day >= 1 && d.day <= days(d.year, d.month) && d.hours < 24 && d.minutes < 60 && d.seconds < 60
}
fn any_date() -> DateTimeNumber {
    DateTimeNumber { year: any(), month: any(), day: any(), hours: any(), minutes: any(), seconds: any() }
}
#[cfg(not(kani))]
fn small(d: &mut DateTimeNumber) {
    // the search rarely hits a valid date by itself
    d.month = d.month % 12 + 1;
    d.day = d.day % 31 + 1;
    d.hours %= 24;
    d.minutes %= 60;
    d.seconds %= 60;
}
#[cfg(kani)]
fn small(_: &mut DateTimeNumber) {}

obligations! {
    #[kani::unwind(3)]
    fn c23_to_calendar_and_back() {
        let mut d = any_date();
        if !valid(&d) {
            small(&mut d);
        }
        assume(valid(&d));
        reach!(d.year == 0, "the year 0");
        reach!(d.year == 65535, "the last year");
        reach!(d.month == 2 && d.day == 29, "a leap day");
        let n: NaiveDateTime = d.into();
        check!(n.year() == d.year as i32 && n.month() == d.month as u32 && n.day() == d.day as u32, "the calendar date is the same");
        check!(n.hour() == d.hours as u32 && n.minute() == d.minutes as u32 && n.second() == d.seconds as u32, "the time is the same");
        check!(n.nanosecond() == 0, "there is no fraction of a second");
        let back: DateTimeNumber = n.into();
        check!(back == d, "the date survives the round trip");
    }
    #[kani::unwind(3)]
    fn c23_from_calendar() {
        let mut d = any_date();
        if !valid(&d) {
            small(&mut d);
        }
        assume(valid(&d));
        let n = NaiveDate::from_ymd(d.year as i32, d.month as u32, d.day as u32)
            .and_hms_nano(d.hours as u32, d.minutes as u32, d.seconds as u32, any::<u32>() % 1_000_000_000);
        let x: DateTimeNumber = n.into();
        check!(x == d, "the ICC date-time has the same six numbers");
    }
}
