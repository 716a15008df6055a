//! C20: timestamps
use crate::engine::*;
use crate::model::*;
use crate::{check, fail, time};
use osmio::TimestampFormat;
use osmio::utils::{epoch_to_iso, iso_to_epoch};
use std::cmp::Ordering;
use std::str::FromStr;

fn conversions(e: i64) -> Res {
    let text = time::iso(e);
    let n = TimestampFormat::EpochNumber(e);
    let s = TimestampFormat::ISOString(text.clone());
    check!(TimestampFormat::from(e) == n && matches!(TimestampFormat::from(e), TimestampFormat::EpochNumber(x) if x == e), "from({e}i64) is {:?}", TimestampFormat::from(e));
    if let Ok(i) = i32::try_from(e) {
        let t = TimestampFormat::from(i);
        check!(t.to_epoch_number() == e, "from({e}i32) is {t:?}");
        let g = epoch_to_iso(i);
        check!(g == text, "epoch_to_iso({i}) is {g:?} instead of {text:?}");
    }
    if let Ok(u) = u32::try_from(e) {
        let t = TimestampFormat::from(u);
        check!(t.to_epoch_number() == e, "from({e}u32) is {t:?}");
        let g = iso_to_epoch(&text);
        check!(g == u, "iso_to_epoch({text:?}) is {g} instead of {u}");
    }
    let g = n.to_iso_string();
    check!(g == text, "to_iso_string() of {e} is {g:?} instead of {text:?}");
    check!(n.to_string() == text, "to_string() of {e} is {:?} instead of {text:?}", n.to_string());
    check!(n.to_epoch_number() == e, "to_epoch_number() of {e} is {}", n.to_epoch_number());
    check!(s.to_epoch_number() == e, "to_epoch_number() of {text:?} is {} instead of {e}", s.to_epoch_number());
    check!(s.to_iso_string() == text && s.to_string() == text, "to_iso_string() of {text:?} is {:?}, to_string() {:?}", s.to_iso_string(), s.to_string());
    match TimestampFormat::from_str(&text) {
        Ok(t) if t.to_epoch_number() == e && t == n && t == s => {}
        r => fail!("from_str({text:?}) is {r:?} instead of {e}"),
    }
    Ok(())
}

fn offset(e: i64, min: i64) -> Res {
    if e + min * 60 < time::MIN || e + min * 60 > time::MAX {
        return Ok(());
    }
    let text = time::iso_offset(e, min);
    match TimestampFormat::from_str(&text) {
        Ok(t) => check!(t.to_epoch_number() == e, "from_str({text:?}) is {t:?} instead of {e}"),
        Err(x) => fail!("from_str({text:?}) fails: {x}"),
    }
    let g = TimestampFormat::ISOString(text.clone()).to_epoch_number();
    check!(g == e, "to_epoch_number() of {text:?} is {g} instead of {e}");
    if let Ok(u) = u32::try_from(e) {
        let g = iso_to_epoch(&text);
        check!(g == u, "iso_to_epoch({text:?}) is {g} instead of {u}");
    }
    // in the other form, and against the other form
    let t = TimestampFormat::ISOString(text.clone());
    let n = TimestampFormat::EpochNumber(e);
    check!(t == n && n == t, "{text:?} is not equal to {e}");
    check!(t.partial_cmp(&n) == Some(Ordering::Equal) && n.partial_cmp(&t) == Some(Ordering::Equal), "{text:?} does not compare as equal to {e}");
    Ok(())
}

/// The order of two instants in all combinations of the canonical forms
fn compare(a: i64, b: i64) -> Res {
    let want = a.cmp(&b);
    let forms = |e: i64| [TimestampFormat::EpochNumber(e), TimestampFormat::ISOString(time::iso(e))];
    for x in forms(a) {
        for y in forms(b) {
            check!(x.partial_cmp(&y) == Some(want), "{x:?} compared with {y:?} is {:?}", x.partial_cmp(&y));
            check!(
                (x == y) == (want == Ordering::Equal) && (x != y) == (want != Ordering::Equal),
                "{x:?} == {y:?} is {}",
                x == y
            );
            check!(
                (x < y) == (want == Ordering::Less)
                    && (x > y) == (want == Ordering::Greater)
                    && (x <= y) == (want != Ordering::Greater)
                    && (x >= y) == (want != Ordering::Less),
                "{x:?} and {y:?}: < {} > {} <= {} >= {}",
                x < y,
                x > y,
                x <= y,
                x >= y
            );
        }
    }
    Ok(())
}

/// Text which RFC 3339 does not allow
fn invalid(src: &mut Src) -> String {
    let e = gen_ts(src);
    let good = if src.coin() { time::iso(e) } else { time::iso_offset(e.clamp(time::MIN + 100_000, time::MAX - 100_000), src.range(-720, 720)) };
    match src.draw(9) {
        8 => {
            let s = *src.pick(&[" ", "\n", "\t", "  "]);
            if src.coin() { format!("{good}{s}") } else { format!("{s}{good}") }
        }
        9 => {
            // other ways to write an instant
            let bare = &good[..19];
            match src.draw(6) {
                0 => "Tue, 1 Jul 2003 10:52:37 +0200".into(),
                1 => "Thu, 01 Jan 1970 00:00:00 GMT".into(),
                2 => format!("{bare} UTC"),
                3 => format!("{bare}+0100"),
                4 => format!("{bare}+01"),
                5 => format!("{}Z", &good[..16]),
                _ => e.to_string(),
            }
        }
        0 => good[..src.below(good.len())].to_string(),
        1 => {
            // one field out of range
            let f = *src.pick(&[(5, "00"), (5, "13"), (5, "99"), (8, "00"), (8, "32"), (8, "99"), (11, "24"), (11, "99"), (14, "60"), (14, "99"), (17, "61"), (17, "99")]);
            format!("{}{}{}", &good[..f.0], f.1, &good[f.0 + 2..])
        }
        2 => {
            // a day the month does not have
            let y = src.range(0, 9999);
            let (m, d) = *src.pick(&[(2, 30), (4, 31), (6, 31), (9, 31), (11, 31), (2, 29)]);
            if (m, d) == (2, 29) && time::is_leap(y) {
                return format!("{y:04}-02-30T00:00:00Z");
            }
            format!("{y:04}-{m:02}-{d:02}T{:02}:00:00Z", src.draw(23))
        }
        3 => {
            // a digit becomes something else
            let digits: Vec<usize> = good.char_indices().filter(|c| c.1.is_ascii_digit()).map(|c| c.0).collect();
            let i = *src.pick(&digits);
            format!("{}{}{}", &good[..i], src.pick(&["x", " ", "-", "+", "", "\u{661}", "0x", "."]), &good[i + 1..])
        }
        4 => {
            // a separator becomes something else
            let seps: Vec<usize> = good[..19].char_indices().filter(|c| !c.1.is_ascii_digit()).map(|c| c.0).collect();
            let i = *src.pick(&seps);
            format!("{}{}{}", &good[..i], src.pick(&["/", "", "x", "--", "1"]), &good[i + 1..])
        }
        5 => format!("{}{}", good, src.pick(&["x", "Z", "0", "+01:00", "\0", "Z2020"])),
        6 => src.pick(&["", "Z", "0", "now", "1577836800", "2020-01-01", "2020-01-01Z", "20200101T000000Z", "2020-W01-1T00:00:00Z", "01/01/2020", "T00:00:00Z"]).to_string(),
        _ => {
            // no offset
            good[..19].to_string()
        }
    }
}

fn c20(src: &mut Src, ctx: &mut Ctx) -> Res {
    ctx.nontrivial = true;
    let n = 2 + src.draw(3) as usize;
    let mut es: Vec<i64> = vec![gen_ts(src)];
    for _ in 1..n {
        let last = *es.last().unwrap();
        let e = match src.draw(4) {
            0 | 1 => gen_ts(src),
            2 => last,
            3 => last + *src.pick(&[1, -1, 60, -60, 3600, 86400, -86400, 31_536_000, 1 << 31, 1 << 32, -(1 << 32)]),
            _ => last + src.range(-100, 100),
        };
        es.push(e.clamp(time::MIN, time::MAX));
    }
    ctx.hash(format!("{es:?}").as_bytes());
    ctx.label_if(es.iter().any(|e| *e < 0), "before 1970");
    ctx.label_if(es.iter().any(|e| *e > i32::MAX as i64), "after 2038");
    ctx.label_if(es.windows(2).any(|w| w[0] == w[1]), "equal instants");
    for &e in &es {
        ctx.eval();
        conversions(e)?;
        offset(e, src.range(-23 * 60 - 59, 23 * 60 + 59))?;
    }
    for &a in &es {
        for &b in &es {
            compare(a, b)?;
        }
    }
    // sorting mixed forms sorts the instants
    let mut ts: Vec<TimestampFormat> = es.iter().map(|e| timestamp(*e, if src.coin() { TsForm::Iso } else { TsForm::Epoch })).collect();
    ts.sort_by(|a, b| a.partial_cmp(b).unwrap_or(Ordering::Equal));
    let mut want = es.clone();
    want.sort();
    let got: Vec<i64> = ts.iter().map(|t| t.to_epoch_number()).collect();
    check!(got == want, "sorted: {ts:?}");
    let bad = invalid(src);
    ctx.hash(bad.as_bytes());
    ctx.sample(|| format!("instants {es:?} = {:?}; invalid {bad:?}", es.iter().map(|e| time::iso(*e)).collect::<Vec<_>>()));
    if time::parse(&bad).is_none() {
        ctx.eval();
        ctx.label("invalid text");
        if let Ok(t) = TimestampFormat::from_str(&bad) {
            fail!("from_str({bad:?}) is {t:?}");
        }
    }
    Ok(())
}

/// Every second of some days and some second of every day
fn chunks(thorough: bool) -> u64 {
    if thorough { 40_000 } else { 400 }
}
fn exhaustive(chunk: u64, thorough: bool) -> Result<u64, String> {
    let n = chunks(thorough);
    let days = 3_652_425i64 / 1; // of the years 0000 to 9999 (one 400-year cycle has 146097)
    let lo = days * chunk as i64 / n as i64;
    let hi = days * (chunk as i64 + 1) / n as i64;
    let mut evals = 0;
    let mut r = Rng(chunk);
    for d in lo..hi {
        let e = time::MIN + d * 86400 + [0, 86399, (r.next() % 86400) as i64][(r.next() % 3) as usize];
        if e > time::MAX {
            continue;
        }
        conversions(e)?;
        evals += 1;
    }
    if thorough {
        // and every second of one day
        let d = time::MIN + (r.next() % days as u64) as i64 * 86400;
        for s in 0..86400 {
            if d + s <= time::MAX {
                conversions(d + s)?;
                evals += 1;
            }
        }
    } else {
        let d = time::MIN + (r.next() % days as u64) as i64 * 86400;
        for s in (0..86400).step_by(997) {
            conversions((d + s).min(time::MAX))?;
            evals += 1;
        }
    }
    Ok(evals)
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C20",
        level: "exploration",
        rule: "distinct lists of instants (pairs and triples of them are compared in both stored forms), each with an offset form and an invalid text; plus one instant of every day of years 0000 to 9999",
        run: c20,
        quick: 200_000,
        thorough: 8_000_000,
        exhaustive: Some(Exhaustive { name: "every day of years 0000 to 9999", chunks, run: exhaustive }),
        assumptions: &[
            "text with leap seconds, fractions, lower case letters or a space as separator is neither required nor forbidden",
            "ordering of two texts is only claimed for canonical UTC text",
        ],
    }]
}
