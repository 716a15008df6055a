//! C19: coordinates. C26: type names and serialised forms.
use crate::engine::*;
use crate::model::*;
use crate::{check, fail, time};
use osmio::{Lat, Lon, Node, OSMObj, OSMObjectType, ParseLatLonError, TimestampFormat};
use std::convert::TryFrom;
use std::str::FromStr;

/// 2 * |v * 10^7 - got|, compared exactly with 1 + 2 * tol where tol is about 1e-6.
/// v must be of absolute value below 2^10.
fn is_nearest(v: f64, got: i32) -> bool {
    if v.abs() < 1e-9 {
        return got == 0;
    }
    let bits = v.to_bits();
    let exp = ((bits >> 52) & 0x7ff) as i32 - 1075;
    let man = ((bits & ((1 << 52) - 1)) | (1 << 52)) as i128;
    let man = if v < 0.0 { -man } else { man };
    // v = man * 2^exp, -83 <= exp <= -43
    assert!((-90..=-42).contains(&exp), "{v}");
    let exact = man * 10_000_000; // in units of 2^exp
    let one = 1i128 << -exp;
    let d = (exact - got as i128 * one).abs();
    d * 2 <= one + (one >> 19)
}

/// What must happen for this number of degrees
#[derive(Debug, PartialEq)]
enum Want {
    Err,
    Ok,
    Either,
}
fn want(v: f64) -> Want {
    let hi = (i32::MAX as f64 + 0.5) / 1e7;
    let lo = (i32::MIN as f64 - 0.5) / 1e7;
    if v.is_nan() || v > hi + 1e-12 || v < lo - 1e-12 {
        Want::Err
    } else if v > hi - 1e-12 || v < lo + 1e-12 {
        Want::Either
    } else {
        Want::Ok
    }
}

fn judge(what: &str, v: f64, got: Result<i32, ParseLatLonError>) -> Res {
    match (want(v), got) {
        (Want::Err | Want::Either, Err(e)) => {
            let right = match &e {
                ParseLatLonError::NotANumber => v.is_nan(),
                ParseLatLonError::TooLarge(_) => v > 0.0,
                ParseLatLonError::TooSmall(_) => v < 0.0,
                _ => false,
            };
            check!(right, "{what} gives the error {e:?}");
            Ok(())
        }
        (Want::Err, Ok(g)) => Err(format!("{what} gives {g} instead of an error")),
        (Want::Ok, Err(e)) => Err(format!("{what} gives an error: {e:?}")),
        (_, Ok(g)) => {
            check!(is_nearest(v, g), "{what} gives {g}, which is not nearest");
            Ok(())
        }
    }
}

fn one(i: i32) -> Res {
    macro_rules! t {
        ($t:ident) => {{
            let l = $t::from_inner(i);
            check!(l.inner() == i, "{}({i}).inner() is {}", stringify!($t), l.inner());
            let d = l.degrees();
            let f: f64 = l.into();
            check!(d == f, "{}({i}): degrees() {d} is not f64 {f}", stringify!($t));
            let u = osmio::lat_lon_inner_to_degrees(i);
            check!(d == u, "{}({i}): degrees() {d} is not lat_lon_inner_to_degrees {u}", stringify!($t));
            check!((d * 1e7 - i as f64).abs() < 0.01, "{}({i}) is {d} degrees", stringify!($t));
            match $t::try_from(d) {
                Ok(b) if b == l && b.inner() == i => {}
                r => fail!("{}({i}) to f64 and back: {r:?}", stringify!($t)),
            }
            let s = l.to_string();
            match $t::from_str(&s) {
                Ok(b) if b == l && b.inner() == i => {}
                r => fail!("{}({i}) to {s:?} and back: {r:?}", stringify!($t)),
            }
        }};
    }
    t!(Lat);
    t!(Lon);
    Ok(())
}

fn gen_f64(src: &mut Src) -> f64 {
    if let Some(f) = crate::dict::float(src) {
        return f;
    }
    match src.draw(10) {
        0 | 1 => gen_coord(src, 1_800_000_000) as f64 / 1e7,
        2 => {
            // near the middle between two
            let i = gen_coord(src, 1_800_000_000) as f64 + 0.5;
            let v = i / 1e7;
            f64::from_bits(v.to_bits().wrapping_add(src.draw(6)).wrapping_sub(3))
        }
        3 => src.range(-4_000_000_000, 4_000_000_000) as f64 / 1e7,
        4 => {
            let e = *src.pick(&[i32::MAX as f64, i32::MIN as f64]);
            (e + src.range(-30, 30) as f64 / 10.0) / 1e7
        }
        5 => f64::from_bits(src.draw(u64::MAX)),
        6 => *src.pick(&[
            0.0,
            -0.0,
            f64::NAN,
            -f64::NAN,
            f64::INFINITY,
            f64::NEG_INFINITY,
            f64::MAX,
            f64::MIN,
            f64::MIN_POSITIVE,
            5e-324,
            90.0,
            -90.0,
            180.0,
            -180.0,
            214.7483647,
            -214.7483648,
            214.7483648,
            -214.7483649,
            429.4967296,
            1e300,
        ]),
        7 => src.range(-900_000_000_000_000, 900_000_000_000_000) as f64 / 1e13,
        8 => src.range(i64::MIN, i64::MAX) as f64,
        9 => src.range(-1000, 1000) as f64 * 1e-8,
        _ => 429.4967296 * src.range(-3, 3) as f64 + gen_coord(src, 900_000_000) as f64 / 1e7,
    }
}

fn c19(src: &mut Src, ctx: &mut Ctx) -> Res {
    // not only a number on its own: several per case, they are cheap
    for _ in 0..8 {
        ctx.eval();
        let v = gen_f64(src);
        ctx.hash(&v.to_bits().to_le_bytes());
        ctx.nontrivial = true;
        judge(&format!("Lat::try_from({v:?}f64)"), v, Lat::try_from(v).map(|l| l.inner()))?;
        judge(&format!("Lon::try_from({v:?}f64)"), v, Lon::try_from(v).map(|l| l.inner()))?;
        let f = if src.coin() { v as f32 } else { f32::from_bits(src.draw(u32::MAX as u64) as u32) };
        judge(&format!("Lat::try_from({f:?}f32)"), f as f64, Lat::try_from(f).map(|l| l.inner()))?;
        judge(&format!("Lon::try_from({f:?}f32)"), f as f64, Lon::try_from(f).map(|l| l.inner()))?;
        ctx.label_if(want(v) == Want::Err, "out of range or not a number");
        ctx.label_if(want(v) == Want::Ok, "representable");
    }
    let i = gen_coord(src, 1_800_000_000);
    one(i)?;
    // order
    let j = match src.draw(2) {
        0 => i,
        1 => i.wrapping_add(src.range(-3, 3) as i32),
        _ => gen_coord(src, 1_800_000_000),
    };
    macro_rules! order {
        ($($t:ident)*) => { $(
            let (a, b) = ($t::from_inner(i), $t::from_inner(j));
            check!(a.cmp(&b) == i.cmp(&j) && a.partial_cmp(&b) == Some(i.cmp(&j)) && (a == b) == (i == j), "{}: {i} compared with {j} is {:?}", stringify!($t), a.cmp(&b));
        )* };
    }
    order!(Lat Lon);
    ctx.hash(&j.to_le_bytes());
    // text
    let (text, val) = gen_text(src);
    ctx.hash(text.as_bytes());
    for (what, r) in [("Lat", Lat::from_str(&text).map(|l| l.inner())), ("Lon", Lon::from_str(&text).map(|l| l.inner()))] {
        match val {
            None => check!(r.is_err(), "{what}::from_str({text:?}) gives {r:?}"),
            Some(units) => {
                // units of 1e-12 degrees
                match r {
                    Ok(g) => {
                        let d = (units - g as i128 * 100_000).abs();
                        check!(d <= 50_001, "{what}::from_str({text:?}) gives {g}");
                    }
                    Err(e) => {
                        let inside = units < (i32::MAX as i128) * 100_000 + 49_999 && units > (i32::MIN as i128) * 100_000 - 49_999;
                        check!(!inside, "{what}::from_str({text:?}) gives {e:?}");
                    }
                }
            }
        }
    }
    ctx.label_if(val.is_none(), "text that is no number");
    // other ways to write a number may be refused, but not misunderstood
    if let Some(units) = val {
        let odd = match src.draw(4) {
            0 => format!("+{text}"),
            1 => format!("{}00{}", if text.starts_with('-') { "-" } else { "" }, text.trim_start_matches('-')),
            2 => format!("{text}e0"),
            3 => format!("{units}e-12"),
            _ => format!(" {text}\n"),
        };
        for r in [Lat::from_str(&odd).map(|l| l.inner()), Lon::from_str(&odd).map(|l| l.inner())] {
            if let Ok(g) = r {
                let d = (units - g as i128 * 100_000).abs();
                check!(d <= 50_001 || odd.starts_with("+-"), "from_str({odd:?}) gives {g}");
            }
        }
    }
    let huge = format!("{}{}{}", if src.coin() { "-" } else { "" }, 215 + src.draw(700), "0".repeat(src.draw(330) as usize));
    ctx.hash(huge.as_bytes());
    check!(Lat::from_str(&huge).is_err() && Lon::from_str(&huge).is_err(), "from_str({huge:?}) is {:?}", Lat::from_str(&huge).map(|l| l.inner()));
    // nodes
    let m = gen_obj_of(src, Kind::Node, ANY);
    let (a, b) = (gen_f64(src), gen_f64(src));
    let form = src.draw(2);
    ctx.sample(|| format!("{text:?}, set_lat_lon({a:?}, {b:?})"));
    fn set<N: Node>(n: &mut N, a: f64, b: f64, form: u64) -> Result<(), ParseLatLonError> {
        match form {
            0 => n.set_lat_lon((a, b)),
            1 => n.set_lat_lon((a as f32, b as f32)),
            _ => n.set_lat_lon(Some((a, b as f32))),
        }
    }
    let (ea, eb) = match form {
        0 => (a, b),
        1 => (a as f32 as f64, b as f32 as f64),
        _ => (a, b as f32 as f64),
    };
    macro_rules! fam {
        ($o:expr) => {{
            let mut o = $o;
            let before = snap(&o)?;
            let r = set(o.as_node_mut().unwrap(), a, b, form);
            let after = snap(&o)?;
            let mut rest = after.clone();
            rest.latlon = before.latlon;
            check!(rest == before, "set_lat_lon({a:?}, {b:?}) changed {before:?} into {after:?}");
            match r {
                Err(e) => {
                    check!(after == before, "set_lat_lon({a:?}, {b:?}) fails ({e:?}) but sets {:?}", after.latlon);
                    check!(
                        want(ea) != Want::Ok || want(eb) != Want::Ok,
                        "set_lat_lon({a:?}, {b:?}) gives {e:?}"
                    );
                }
                Ok(()) => {
                    check!(
                        want(ea) != Want::Err && want(eb) != Want::Err,
                        "set_lat_lon({a:?}, {b:?}) succeeds, and sets {:?}",
                        after.latlon
                    );
                    let Some((x, y)) = after.latlon else { fail!("set_lat_lon({a:?}, {b:?}) sets nothing") };
                    check!(is_nearest(ea, x) && is_nearest(eb, y), "set_lat_lon({a:?}, {b:?}) sets {x}, {y}");
                }
            }
            // and unset
            match src.draw(2) {
                0 => o.as_node_mut().unwrap().unset_lat_lon(),
                1 => o.as_node_mut().unwrap().set_lat_lon(None as Option<(f64, f64)>).map_err(|e| format!("{e:?}"))?,
                _ => o.as_node_mut().unwrap().set_lat_lon_direct(None),
            }
            let mut w = before.clone();
            w.latlon = None;
            let g = snap(&o)?;
            check!(g == w, "unsetting the position gives {g:?}");
        }};
    }
    fam!(build_string(&m, TsForm::Epoch));
    fam!(build_arc(&m, TsForm::Epoch));
    fam!(build_rc(&m, TsForm::Epoch));
    ctx.distinct_inside = 7;
    Ok(())
}

/// A decimal text with its value in units of 1e-12 degrees, or something that is no number
fn gen_text(src: &mut Src) -> (String, Option<i128>) {
    if src.chance(1, 4) {
        let t = *src.pick(&[
            "", "-", "+", ".", "abc", "1,5", "1.2.3", "0x10", "--1", "1-", "1e", "e5", "NaN", "nan", "-nan", "1..2", "1.5N", "N1.5",
            "12°", "1 2", "½", "\u{0661}", "1_000", "12.5a", "0b1", "true",
        ]);
        return (t.to_string(), None);
    }
    let digits = src.draw(12) as u32;
    let v: i128 = match src.draw(3) {
        0 => gen_coord(src, 1_800_000_000) as i128 * 100_000,
        1 => src.range(-250_000_000_000_000, 250_000_000_000_000) as i128,
        2 => gen_coord(src, 1_800_000_000) as i128 * 100_000 + src.range(-60_000, 60_000) as i128,
        _ => (if src.coin() { i32::MAX } else { i32::MIN }) as i128 * 100_000 + src.range(-400_000, 400_000) as i128,
    };
    // keep so many decimals
    let p = 10i128.pow(12 - digits);
    let v = v / p * p;
    let a = v.unsigned_abs();
    let mut s = String::new();
    if v < 0 {
        s.push('-');
    }
    s.push_str(&(a / 1_000_000_000_000).to_string());
    if digits > 0 {
        s.push('.');
        s.push_str(&format!("{:012}", a % 1_000_000_000_000)[..digits as usize]);
    }
    (s, Some(v))
}

/// chunk of the enumeration of all 32-bit values
fn c19_all(chunk: u64, thorough: bool) -> Result<u64, String> {
    if thorough {
        // all 2^32, in 4096 chunks of 2^20; as inner value and as bits of an f32
        let lo = chunk << 20;
        for x in lo..lo + (1 << 20) {
            one(x as u32 as i32)?;
            let f = f32::from_bits(x as u32);
            judge("Lat::try_from(f32)", f as f64, Lat::try_from(f).map(|l| l.inner()))
                .and_then(|_| judge("Lon::try_from(f32)", f as f64, Lon::try_from(f).map(|l| l.inner())))
                .map_err(|e| format!("{f:?}: {e}"))?;
        }
        return Ok(2 << 20);
    }
    // quick: every 4099th, and blocks around the corners
    let n = (1u64 << 32) / 4099 / 64 + 1;
    let mut k = 0;
    for j in 0..n {
        let x = (chunk * n + j) * 4099;
        if x < 1 << 32 {
            one(x as u32 as i32)?;
            let f = f32::from_bits(x as u32);
            judge("Lat::try_from(f32)", f as f64, Lat::try_from(f).map(|l| l.inner())).map_err(|e| format!("{f:?}: {e}"))?;
            k += 2;
        }
    }
    if chunk < 8 {
        let c = [0i64, i32::MAX as i64, i32::MIN as i64, 900_000_000, -900_000_000, 1_800_000_000, -1_800_000_000, 10_000_000][chunk as usize];
        for x in c - 5000..=c + 5000 {
            if let Ok(i) = i32::try_from(x) {
                one(i)?;
                k += 1;
            }
        }
    }
    Ok(k)
}

// ------------------------------------------------------------------ C26

const NAMES: [(Kind, char, &str); 3] = [(Kind::Node, 'n', "node"), (Kind::Way, 'w', "way"), (Kind::Relation, 'r', "relation")];

fn accepted(s: &str) -> Option<Kind> {
    match s {
        "n" | "node" => Some(Kind::Node),
        "w" | "way" => Some(Kind::Way),
        "r" | "rel" | "relation" => Some(Kind::Relation),
        _ => None,
    }
}

fn c26(src: &mut Src, ctx: &mut Ctx) -> Res {
    // a string near the names
    let s = {
        let mut cs: Vec<char> = src.pick(&["n", "w", "r", "node", "way", "rel", "relation", "", "nodes", "Node", "changeset"]).chars().collect();
        for _ in 0..src.draw(2) {
            let at = src.below(cs.len() + 1);
            match src.draw(4) {
                0 => cs.insert(at, crate::text::chr(src, crate::text::TextKind::Any)),
                1 if at < cs.len() => {
                    cs.remove(at);
                }
                2 if at < cs.len() => cs[at] = crate::text::chr(src, crate::text::TextKind::Any),
                3 if at < cs.len() => cs[at] = cs[at].to_ascii_uppercase(),
                _ => cs.insert(at, *src.pick(&[' ', '\n', 'n', 'w', 'r', 'e', '\0'])),
            }
        }
        cs.into_iter().collect::<String>()
    };
    ctx.nontrivial = true;
    ctx.hash(s.as_bytes());
    ctx.label_if(accepted(&s).is_some(), "accepted name");
    ctx.label_if(accepted(&s).is_none(), "rejected name");
    let got = OSMObjectType::from_str(&s).ok().map(Kind::of);
    check!(got == accepted(&s), "{s:?} parses to {got:?} instead of {:?}", accepted(&s));
    for (k, c, name) in NAMES {
        let t = k.osm();
        check!(t.name_short() == c && t.name_long() == name, "names of {name}: {} {}", t.name_short(), t.name_long());
        check!(t.to_string() == name, "{name} is displayed as {t}");
        check!(format!("{t:?}") == c.to_string(), "{name} is {t:?} for debugging");
        check!(OSMObjectType::try_from(c) == Ok(t), "{c} gives {:?}", OSMObjectType::try_from(c));
        check!(OSMObjectType::from_str(name) == Ok(t), "{name} gives {:?}", OSMObjectType::from_str(name));
        check!(OSMObjectType::from_str(&c.to_string()) == Ok(t), "{c} as text gives {:?}", OSMObjectType::from_str(&c.to_string()));
        for (k2, _, _) in NAMES {
            check!(t.cmp(&k2.osm()) == k.cmp(&k2) && (t == k2.osm()) == (k == k2), "{t} compared with {}", k2.osm());
            check!(t.partial_cmp(&k2.osm()) == Some(k.cmp(&k2)), "{t} compared with {}", k2.osm());
        }
        round(&t, &format!("type {name}"))?;
    }
    let i = gen_coord(src, 1_800_000_000);
    ctx.hash(&i.to_le_bytes());
    round(&Lat::from_inner(i), &format!("Lat {i}"))?;
    round(&Lon::from_inner(i), &format!("Lon {i}"))?;
    let ts = gen_ts(src);
    let form = gen_ts_form(src);
    ctx.hash(&ts.to_le_bytes());
    ctx.sample(|| format!("{s:?}, coordinate {i}, timestamp {ts} as {form:?}"));
    let t = timestamp(ts, form);
    let back = round(&t, &format!("timestamp {t:?}"))?;
    let inst = |t: &TimestampFormat| match t {
        TimestampFormat::EpochNumber(n) => Some(*n),
        TimestampFormat::ISOString(s) => time::parse(s),
    };
    check!(inst(&back) == Some(ts), "timestamp {t:?} comes back as {back:?}");
    Ok(())
}

fn round<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq>(v: &T, what: &str) -> Result<T, String> {
    let j = serde_json::to_string(v).map_err(|e| format!("{what} cannot be serialised: {e}"))?;
    let b: T = serde_json::from_str(&j).map_err(|e| format!("{what} cannot be read back from {j}: {e}"))?;
    if b != *v {
        return Err(format!("{what} comes back different from {j}"));
    }
    Ok(b)
}

fn c26_all(chunk: u64, _: bool) -> Result<u64, String> {
    let mut n = 0;
    for c in chunk * 0x11000..(chunk + 1) * 0x11000 {
        let Some(c) = char::from_u32(c as u32) else { continue };
        n += 1;
        let want = NAMES.iter().find(|x| x.1 == c).map(|x| x.0);
        let got = OSMObjectType::try_from(c).ok().map(Kind::of);
        check!(got == want, "character {c:?} gives {got:?}");
        let got = OSMObjectType::from_str(c.encode_utf8(&mut [0; 4])).ok().map(Kind::of);
        check!(got == want, "character {c:?} as text gives {got:?}");
    }
    Ok(n)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C19",
            level: "exploration",
            rule: "distinct tuples of numbers and texts converted; plus enumerated 32-bit values (quick: every 4099th and 5000 around each corner; thorough: all 2^32, as internal value and as f32)",
            run: c19,
            quick: 800_000,
            thorough: 8_000_000,
            exhaustive: Some(Exhaustive { name: "32-bit values", chunks: |t| if t { 4096 } else { 64 }, run: c19_all }),
            assumptions: &["within 1e-6 units of the middle between two coordinates either is accepted as nearest", "text: decimal numbers, or clearly not numbers"],
        },
        Prop {
            id: "C26",
            level: "exploration",
            rule: "distinct (near-name, coordinate, timestamp) tuples; plus all Unicode characters",
            run: c26,
            quick: 2_000_000,
            thorough: 8_000_000,
            exhaustive: Some(Exhaustive { name: "characters", chunks: |_| 16, run: c26_all }),
            assumptions: &["serialised as JSON by serde_json"],
        },
    ]
}
