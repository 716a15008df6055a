//! An independent civil calendar and strict RFC 3339 parser.

/// days since 1970-01-01 of a proleptic Gregorian date
pub fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    // straightforward: count leap days
    let mut days = 365 * (y - 1970);
    let leaps = |y: i64| y.div_euclid(4) - y.div_euclid(100) + y.div_euclid(400);
    days += leaps(y - 1) - leaps(1969);
    const CUM: [i64; 12] = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
    days += CUM[(m - 1) as usize];
    if m > 2 && is_leap(y) {
        days += 1;
    }
    days + d - 1
}

pub fn is_leap(y: i64) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}

pub fn days_in_month(y: i64, m: i64) -> i64 {
    match m {
        2 => 28 + is_leap(y) as i64,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}

pub fn civil(epoch: i64) -> (i64, i64, i64, i64, i64, i64) {
    let days = epoch.div_euclid(86400);
    let sod = epoch.rem_euclid(86400);
    // find the year by search from an estimate
    let mut y = 1970 + days.div_euclid(366);
    while days_from_civil(y + 1, 1, 1) <= days {
        y += 1;
    }
    while days_from_civil(y, 1, 1) > days {
        y -= 1;
    }
    let mut m = 1;
    while m < 12 && days_from_civil(y, m + 1, 1) <= days {
        m += 1;
    }
    let d = days - days_from_civil(y, m, 1) + 1;
    (y, m, d, sod / 3600, sod / 60 % 60, sod % 60)
}

/// The canonical UTC text
pub fn iso(epoch: i64) -> String {
    let (y, m, d, h, mi, s) = civil(epoch);
    format!("{y:04}-{m:02}-{d:02}T{h:02}:{mi:02}:{s:02}Z")
}

/// Text with an offset, in minutes
pub fn iso_offset(epoch: i64, off_min: i64) -> String {
    let (y, m, d, h, mi, s) = civil(epoch + off_min * 60);
    let sign = if off_min < 0 { '-' } else { '+' };
    let o = off_min.abs();
    format!("{y:04}-{m:02}-{d:02}T{h:02}:{mi:02}:{s:02}{sign}{:02}:{:02}", o / 60, o % 60)
}

pub const MIN: i64 = -62_167_219_200; // 0000-01-01T00:00:00Z
pub const MAX: i64 = 253_402_300_799; // 9999-12-31T23:59:59Z

/// Strict RFC 3339 (upper case, seconds 0-59, no fraction)
pub fn parse(s: &str) -> Option<i64> {
    let b = s.as_bytes();
    if b.len() < 20 {
        return None;
    }
    let num = |r: std::ops::Range<usize>| -> Option<i64> {
        let mut v = 0i64;
        for &c in &b[r] {
            if !c.is_ascii_digit() {
                return None;
            }
            v = v * 10 + (c - b'0') as i64;
        }
        Some(v)
    };
    if b[4] != b'-' || b[7] != b'-' || b[10] != b'T' || b[13] != b':' || b[16] != b':' {
        return None;
    }
    let (y, m, d) = (num(0..4)?, num(5..7)?, num(8..10)?);
    let (h, mi, sec) = (num(11..13)?, num(14..16)?, num(17..19)?);
    if !(1..=12).contains(&m) || d < 1 || d > days_in_month(y, m) || h > 23 || mi > 59 || sec > 59 {
        return None;
    }
    let off = match &b[19..] {
        b"Z" => 0,
        r if r.len() == 6 && (r[0] == b'+' || r[0] == b'-') && r[3] == b':' => {
            let (oh, om) = (num(20..22)?, num(23..25)?);
            if oh > 23 || om > 59 {
                return None;
            }
            let o = (oh * 60 + om) * 60;
            if r[0] == b'-' { -o } else { o }
        }
        _ => return None,
    };
    Some(days_from_civil(y, m, d) * 86400 + h * 3600 + mi * 60 + sec - off)
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn known_dates() {
        assert_eq!(iso(0), "1970-01-01T00:00:00Z");
        assert_eq!(iso(951782400), "2000-02-29T00:00:00Z");
        assert_eq!(iso(-1), "1969-12-31T23:59:59Z");
        assert_eq!(iso(MIN), "0000-01-01T00:00:00Z");
        assert_eq!(iso(MAX), "9999-12-31T23:59:59Z");
        assert_eq!(parse("9999-12-31T23:59:59Z"), Some(MAX));
        let mut e = MIN;
        while e < MAX {
            assert_eq!(parse(&iso(e)), Some(e));
            e += 86_399 * 37;
        }
        assert_eq!(parse("1969-12-31T23:00:00-01:00"), Some(0));
    }
}
