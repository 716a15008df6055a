//! C14, C15, C16, C27: changeset dumps
use crate::dict;
use crate::engine::*;
use crate::io::*;
use crate::model::{gen_ts, gen_u32};
use crate::osmxml::{self, Noise, W};
use crate::text::{self, TextKind};
use crate::{check, fail, time};
use osmio::TimestampFormat;
use osmio::changesets::{Changeset, ChangesetReader};
use crate::hooks::changeset_tag_reader;
use std::io::Write;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub struct MChg {
    pub id: u32,
    pub created: i64,
    pub closed: Option<i64>,
    pub open: bool,
    pub uid: Option<i64>,
    pub user: Option<String>,
    pub num_changes: u64,
    pub comments_count: u64,
    pub tags: Vec<(String, String)>,
}

fn instant(t: &TimestampFormat) -> Result<i64, String> {
    match t {
        TimestampFormat::EpochNumber(n) => Ok(*n),
        TimestampFormat::ISOString(s) => time::parse(s).ok_or_else(|| format!("timestamp {s:?}")),
    }
}

/// What a changeset says; tags sorted
pub fn snap(c: &Changeset) -> Result<MChg, String> {
    let mut tags: Vec<(String, String)> = c.tags.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    tags.sort();
    for (k, v) in &tags {
        check_snap(c.tag(k) == Some(v.as_str()) && c.has_tag(k), "tag() or has_tag() disagrees")?;
    }
    check_snap(c.num_tags() == tags.len() && c.untagged() == tags.is_empty() && c.tagged() != tags.is_empty(), "tag counts disagree")?;
    for (k, v) in tags.iter().take(2) {
        for k in text::near_keys(k).iter().chain([v]) {
            check_snap(c.tags.contains_key(k) || c.tag(k).is_none() && !c.has_tag(k), "a tag that is not there")?;
        }
    }
    check_snap(!c.has_tag("\u{1}none") && c.tag("\u{1}none").is_none(), "a tag that is not there")?;
    Ok(MChg {
        id: c.id,
        created: instant(&c.created)?,
        closed: c.closed.as_ref().map(instant).transpose()?,
        open: c.open,
        uid: c.uid,
        user: c.user.clone(),
        num_changes: c.num_changes,
        comments_count: c.comments_count,
        tags,
    })
}
fn check_snap(ok: bool, what: &str) -> Result<(), String> {
    if ok { Ok(()) } else { Err(what.into()) }
}

/// The items of a changeset reader; panics if one contradicts itself
pub fn items<E: std::fmt::Display>(
    it: impl Iterator<Item = Result<Changeset, E>>,
) -> impl Iterator<Item = Result<MChg, String>> {
    it.map(|r| r.map(|c| snap_all(c).unwrap_or_else(|e| panic!("{e}"))).map_err(|e| e.to_string()))
}

/// `snap`, and the ways to change the tags and to take them
fn snap_all(mut c: Changeset) -> Result<MChg, String> {
    let m = snap(&c)?;
    let more = ("\u{1}new".to_string(), "x".to_string());
    c.tags_mut().insert(more.0.clone(), more.1.clone());
    let mut want = m.tags.clone();
    want.push(more);
    want.sort();
    if let Some((k, _)) = m.tags.first() {
        c.tags_mut().insert(k.clone(), "\u{1}other".into());
        want.iter_mut().find(|x| x.0 == *k).unwrap().1 = "\u{1}other".into();
    }
    check_snap(snap(&c)? == MChg { tags: want.clone(), ..m.clone() }, "changed tags are not those of the changeset")?;
    let mut got: Vec<(String, String)> = c.into_tags().into_iter().collect();
    got.sort();
    check_snap(got == want, "into_tags() gives other tags")?;
    Ok(m)
}

pub fn read(data: &[u8], cap: usize) -> Run<MChg> {
    drain_res(&mut items(ChangesetReader::new(data)), cap)
}
pub type TagItem = (u64, Vec<(String, String)>);
pub fn read_tags(data: &[u8], cap: usize) -> Run<TagItem> {
    drain_res(&mut changeset_tag_reader(data), cap)
}

fn gen_changeset(src: &mut Src, last_id: &mut u32) -> MChg {
    let id = match src.draw(4) {
        0..=3 => last_id.saturating_add(1 + src.draw(3) as u32),
        _ => gen_u32(src, u32::MAX),
    };
    *last_id = id;
    let ts = |s: &mut Src| {
        if s.chance(1, 8) { if s.coin() { gen_ts(s) } else { s.range(time::MIN, time::MAX) } } else { s.range(1_100_000_000, 1_900_000_000) }
    };
    let open = src.chance(1, 6);
    let anon = src.chance(1, 6);
    // mostly as in real dumps, now and then any combination and any number
    let odd = src.chance(1, 4);
    let count = |s: &mut Src, usual: u64| match s.draw(if odd { 3 } else { 0 }) {
        1 if s.coin() => dict::num_in(s, 0, i64::MAX).unwrap_or(0) as u64,
        0 => gen_u32(s, usual as u32) as u64,
        1 => s.draw(usual),
        2 => *s.pick(&[0, 255, 256, 65_535, 65_536, (1 << 31) - 1, 1 << 31, u32::MAX as u64, 1 << 32, i64::MAX as u64, u64::MAX]),
        _ => s.draw(u64::MAX),
    };
    MChg {
        id,
        created: ts(src),
        closed: if (open && !odd) || (odd && src.coin()) { None } else { Some(ts(src)) },
        open,
        uid: match src.draw(if odd { 3 } else { 0 }) {
            _ if anon && !odd => None,
            0 => Some(gen_u32(src, i32::MAX as u32) as i64),
            1 => dict::num(src),
            2 => Some(*src.pick(&[0, -1, -2, 1 << 31, (1 << 31) - 1, -(1 << 31), 1 << 32, i64::MAX, i64::MIN])),
            _ => Some(src.draw(u64::MAX) as i64),
        },
        user: if anon || odd && src.coin() { None } else { Some(text::text(src, TextKind::Xml)) },
        num_changes: count(src, 1_000_000),
        comments_count: count(src, 3),
        tags: text::tags(src, TextKind::Xml),
    }
}

pub fn gen_changesets(src: &mut Src, avg: u64, max: usize) -> Vec<MChg> {
    let mut last = 0;
    if let Some(n) = dict::count(src, max.min(120)) {
        return (0..n).map(|_| gen_changeset(src, &mut last)).collect();
    }
    src.list(avg, max, |s| gen_changeset(s, &mut last))
}

/// A long dump, or a changeset with very many tags, or long texts. Few choices decide about all of it.
pub fn gen_bulk(src: &mut Src, max: usize) -> (Vec<MChg>, &'static str) {
    let mut last = 0;
    let mut out = src.list(2, 5, |s| gen_changeset(s, &mut last));
    let at = src.below(out.len() + 1);
    let n = dict::size(src, max.min(70_000));
    let n = match src.draw(3) {
        _ if n.is_some() => n.unwrap(),
        0 => *src.pick(&[999usize, 1000, 1001, 4096, 8192, 10_000, 10_001, 65_536]),
        1 => 1000 + src.draw(max as u64) as usize,
        _ => src.draw(3000) as usize,
    }
    .min(max);
    let shape = src.draw(3);
    let vlen = if src.coin() { 400 } else { 5 };
    let mut r = Rng(src.draw(u64::MAX));
    let what;
    match shape {
        0 | 1 => {
            what = "many changesets";
            last = last.min(3_000_000_000);
            let many = (0..n).map(|i| {
                last += 1 + (r.next() % 3) as u32;
                let tags = if r.next() % 8 == 0 {
                    vec![]
                } else {
                    let v: String = (0..r.next() % (vlen + 1)).map(|_| (b'a' + (r.next() % 26) as u8) as char).collect();
                    vec![("comment".to_string(), v), ("n".into(), i.to_string())]
                };
                MChg {
                    id: last,
                    created: 1_300_000_000 + i as i64,
                    closed: Some(1_300_000_100 + i as i64),
                    open: false,
                    uid: Some((r.next() % 1000) as i64),
                    user: Some(format!("user {}", r.next() % 1000)),
                    num_changes: r.next() % 10_000,
                    comments_count: 0,
                    tags,
                }
            });
            out.splice(at..at, many);
        }
        2 => {
            what = "many tags";
            let mut c = gen_changeset(src, &mut last);
            c.tags = (0..n.min(20_000)).map(|i| (format!("key {i}"), format!("{}", r.next() % 1000))).collect();
            out.push(c);
        }
        _ => {
            what = "long texts";
            let piece: String = (0..7).map(|_| text::chr(src, TextKind::Xml)).collect();
            let long = |k: usize| piece.repeat(k / piece.len() + 1);
            let mut c = gen_changeset(src, &mut last);
            match src.draw(2) {
                0 => c.user = Some(long(n)),
                1 => c.tags = vec![(long(n), "v".into()), ("k".into(), long(n / 2))],
                _ => c.tags.push((long(n / 3), long(n))),
            }
            out.push(c);
        }
    }
    (out, what)
}

/// What is wrong with a changeset
#[derive(Clone, Debug, PartialEq)]
pub enum Wrong {
    Missing(&'static str),
    Value(&'static str, &'static str),
    /// the tag with this number
    TagWithout(usize, &'static str),
    TagEntity(usize, &'static str),
    /// the tag with this number has these attributes
    TagRaw(usize, &'static str),
    /// these, too, are in the start tag of the changeset
    Raw(&'static str),
    /// the end tag of another element after the tag with this number
    TagEnd(usize, &'static str),
    /// no end tag
    NoEnd,
}

pub struct Doc {
    pub bytes: Vec<u8>,
    /// where each changeset element starts and ends
    pub spans: Vec<(usize, usize)>,
    /// just after the start tag of the root, and after its end tag
    pub root_start: usize,
    pub root_end: usize,
    pub noise: Noise,
    pub discussions: usize,
    pub self_closing: usize,
}

pub fn doc(src: &mut Src, cs: &[MChg]) -> Doc {
    doc_with(src, cs, None)
}

/// With long comments, names and so on
fn doc_long(src: &mut Src, cs: &[MChg], wide: u64, long: bool) -> Doc {
    let mut n = Noise::gen_for(src);
    n.long = long;
    doc_noisy(src, cs, None, wide, n)
}

/// With changeset `wrong.0` damaged
pub fn doc_with(src: &mut Src, cs: &[MChg], wrong: Option<(usize, &Wrong)>) -> Doc {
    let n = Noise::gen_for(src);
    doc_noisy(src, cs, wrong, 0, n)
}

/// With ids larger by `wide` than those of `cs`
fn doc_noisy(src: &mut Src, cs: &[MChg], wrong: Option<(usize, &Wrong)>, wide: u64, n: Noise) -> Doc {
    let mut w = W { src, n, out: String::new(), raw_newlines: false };
    if !(n.misc && w.src.coin()) {
        w.out.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>");
    }
    w.gap(false, false);
    osmxml::doctype(&mut w, "osm");
    let mut d = Doc { bytes: vec![], spans: vec![], root_start: 0, root_end: 0, noise: n, discussions: 0, self_closing: 0 };
    let root = vec![
        ("license".to_string(), "http://opendatacommons.org/licenses/odbl/1-0/".to_string()),
        ("version".to_string(), "0.6".to_string()),
        ("generator".to_string(), "planet-dump \"ng\" & <co>".to_string()),
    ];
    w.element("osm", root, false, |w| {
        d.root_start = w.out.len();
        if w.src.coin() {
            w.gap(false, true);
            let a = vec![("box".to_string(), "-90,-180,90,180".to_string()), ("origin".into(), "x".into())];
            w.element("bound", a, true, |_| {});
        }
        for (i, c) in cs.iter().enumerate() {
            w.gap(true, true);
            let start = w.out.len();
            let bad = wrong.filter(|x| x.0 == i).map(|x| x.1);
            changeset(w, c, bad, &mut d, wide);
            d.spans.push((start, w.out.len()));
        }
        w.gap(true, true);
    });
    d.root_end = w.out.len();
    if w.src.coin() {
        w.gap(false, false);
    }
    d.bytes = w.out.into_bytes();
    d
}

fn changeset(w: &mut W, c: &MChg, bad: Option<&Wrong>, d: &mut Doc, wide: u64) {
    let mut a: Vec<(String, String)> = vec![];
    let mut put = |k: &'static str, v: Option<String>| {
        let v = match bad {
            Some(Wrong::Missing(m)) if *m == k => None,
            Some(Wrong::Value(m, t)) if *m == k => Some(t.to_string()),
            _ => v,
        };
        if let Some(v) = v {
            a.push((k.into(), v));
        }
    };
    put("id", Some((c.id as u64 + wide).to_string()));
    put("created_at", Some(time::iso(c.created)));
    put("closed_at", c.closed.map(time::iso));
    put("open", Some(c.open.to_string()));
    put("num_changes", Some(c.num_changes.to_string()));
    put("user", c.user.clone());
    put("uid", c.uid.map(|u| u.to_string()));
    put("comments_count", Some(c.comments_count.to_string()));
    if w.src.coin() {
        for (k, v) in [("min_lat", "1.5"), ("max_lat", "2"), ("min_lon", "-3"), ("max_lon", "4.25")] {
            a.push((k.into(), v.into()));
        }
    }
    let discussion = w.src.chance(1, 3);
    d.discussions += discussion as usize;
    let empty = c.tags.is_empty() && !discussion && !w.n.misc;
    let before = w.out.len();
    w.element("changeset", a, empty, |w| {
        let at = if w.n.attr_order { w.src.below(c.tags.len() + 1) } else { c.tags.len() };
        for (i, (k, v)) in c.tags.iter().enumerate() {
            if i == at && discussion {
                disc(w);
            }
            w.gap(true, true);
            let mut a = vec![("k".to_string(), k.clone()), ("v".to_string(), v.clone())];
            if let Some(Wrong::TagWithout(j, what)) = bad {
                if *j == i {
                    a.retain(|x| x.0 != *what);
                }
            }
            if let Some(Wrong::TagRaw(j, attrs)) = bad {
                if *j == i {
                    w.out.push_str(&format!("<tag {attrs}/>"));
                    continue;
                }
            }
            if let Some(Wrong::TagEntity(j, what)) = bad {
                if *j == i {
                    w.out.push_str(&format!("<tag {what}=\"&nosuch;\" {}=\"x\"/>", if *what == "k" { "v" } else { "k" }));
                    continue;
                }
            }
            w.element("tag", a, true, |_| {});
            if let Some(Wrong::TagEnd(j, name)) = bad {
                if *j == i {
                    w.out.push_str(&format!("</{name}>"));
                }
            }
        }
        if at == c.tags.len() && discussion {
            disc(w);
        }
        w.gap(true, true);
    });
    if let Some(Wrong::Raw(attrs)) = bad {
        // at the end, or with a space at the start
        let start = before + "<changeset".len();
        let at = if w.src.coin() {
            start
        } else {
            // the first > outside of quotes
            let (mut q, mut at) = (None, start);
            for (i, c) in w.out[start..].char_indices() {
                match (q, c) {
                    (None, '"' | '\'') => q = Some(c),
                    (Some(x), c) if x == c => q = None,
                    (None, '>') => {
                        at = start + i;
                        break;
                    }
                    _ => {}
                }
            }
            if w.out[..at].ends_with('/') { at - 1 } else { at }
        };
        w.out.insert_str(at, &format!(" {attrs}"));
    }
    if bad == Some(&Wrong::NoEnd) {
        let end = w.out.rfind("</changeset").expect("not an empty element");
        w.out.truncate(end);
    }
    d.self_closing += w.out[before..].ends_with("/>") as usize;
}

fn disc(w: &mut W) {
    w.gap(false, true);
    w.element("discussion", vec![], false, |w| {
        for _ in 0..1 + w.src.draw(2) {
            let a = vec![
                ("uid".to_string(), "12".to_string()),
                ("user".into(), "someone <else>".into()),
                ("date".into(), "2020-01-01T00:00:00Z".into()),
                ("id".into(), "77".into()),
            ];
            w.element("comment", a, false, |w| {
                w.element("text", vec![], false, |w| {
                    w.out.push_str(*w.src.pick(&[
                        "hello",
                        "&lt;tag k=\"x\" v=\"y\"/&gt; &amp; &lt;/changeset&gt;",
                        "<![CDATA[<tag k='a' v='b'/></changeset>]]>",
                        "",
                        "a > b \"quoted\" it's",
                        "<!-- <tag/> -->line\n\nline",
                    ]));
                });
            });
        }
    });
}

/// Compress into one or more streams
pub fn bz2(src: &mut Src, data: &[u8]) -> Vec<u8> {
    bz2_streams(src, data).0
}

/// ... and where the streams end
pub fn bz2_streams(src: &mut Src, data: &[u8]) -> (Vec<u8>, Vec<usize>) {
    let (b, ends) = bz2_parts(src, data);
    (b, ends.into_iter().map(|e| e.0).collect())
}

/// ... and where that is in the data
pub fn bz2_parts(src: &mut Src, data: &[u8]) -> (Vec<u8>, Vec<(usize, usize)>) {
    let k = if src.coin() { 1 } else { 1 + src.below(4) };
    let mut cuts: Vec<usize> = (1..k).map(|_| src.below(data.len() + 1)).collect();
    cuts.sort();
    cuts.push(data.len());
    let mut out = vec![];
    let mut ends = vec![];
    let mut at = 0;
    for c in cuts {
        let mut e = bzip2::write::BzEncoder::new(vec![], bzip2::Compression::new(1));
        e.write_all(&data[at..c]).unwrap();
        out.extend(e.finish().unwrap());
        ends.push((out.len(), c));
        at = c;
    }
    (out, ends)
}

fn sorted(cs: &[MChg]) -> Vec<MChg> {
    cs.iter()
        .map(|c| {
            let mut c = c.clone();
            c.tags.sort();
            c
        })
        .collect()
}

fn diff_chg(want: &[MChg], got: &[MChg]) -> Option<String> {
    for (i, (w, g)) in want.iter().zip(got).enumerate() {
        if w != g {
            return Some(format!("changeset {i} is {g:?} instead of {w:?}"));
        }
    }
    if want.len() != got.len() {
        return Some(format!("{} changesets instead of {}", got.len(), want.len()));
    }
    None
}

fn label(ctx: &mut Ctx, cs: &[MChg], d: &Doc) {
    ctx.hash(&d.bytes);
    ctx.label_if(osmxml::has_doctype(&d.bytes), "document type declaration");
    ctx.label_if(d.discussions > 0, "discussions");
    ctx.label_if(d.self_closing > 0, "self-closing");
    ctx.label_if(cs.iter().any(|c| c.open), "open");
    ctx.label_if(cs.iter().any(|c| c.user.is_none()), "anonymous");
    ctx.label_if(d.noise.refs, "character references");
    ctx.label_if(d.noise.unknown, "unknown attributes and elements");
    ctx.label_if(d.noise.attr_order, "attribute order");
    ctx.label_if(d.noise.long, "long comments, names, deep nesting");
    ctx.label_if(d.noise.ns, "attributes of other namespaces");
    ctx.label_if(d.noise.misc, "comments, PIs, CDATA");
}

fn gen_some(src: &mut Src, ctx: &mut Ctx) -> Vec<MChg> {
    if src.chance(1, if ctx.thorough { 200 } else { 400 }) {
        let (cs, what) = gen_bulk(src, 20_000);
        ctx.label(what);
        return cs;
    }
    let (avg, max) = if src.chance(1, 100) { (150, 500) } else { (4, 25) };
    let mut cs = gen_changesets(src, avg, max);
    src.repeat(&mut cs, |s, c| {
        if s.coin() {
            c.tags.clear();
        } else {
            c.open = !c.open;
        }
    });
    cs
}

fn c14(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cs = gen_some(src, ctx);
    let long = src.chance(1, 150);
    let d = doc_long(src, &cs, 0, long);
    label(ctx, &cs, &d);
    ctx.nontrivial = !cs.is_empty();
    ctx.sample(|| osmxml::show(&d.bytes));
    let run = if src.chance(1, 4) {
        let (comp, ends) = bz2_streams(src, &d.bytes);
        ctx.label("bzip2");
        ctx.label_if(ends.len() > 1, "several bzip2 streams");
        drain_res(&mut items(ChangesetReader::from_bz2_reader(&comp[..])), cs.len())
    } else {
        read(&d.bytes, cs.len())
    };
    check!(run.end == End::Done, "{:?} after {} of {} changesets", run.end, run.items.len(), cs.len());
    match diff_chg(&sorted(&cs), &run.items) {
        None => Ok(()),
        Some(d) => Err(d),
    }
}

/// Entries for all tagged changesets, in order; empty ones are allowed for the others
fn match_tags(cs: &[MChg], got: &[TagItem]) -> Res {
    let mut i = 0;
    for (id, tags) in got {
        while i < cs.len() && cs[i].tags.is_empty() && !(tags.is_empty() && cs[i].id as u64 == *id) {
            i += 1;
        }
        check!(i < cs.len(), "an entry {id} {tags:?} that is no changeset, or too late");
        check!(
            cs[i].id as u64 == *id && cs[i].tags == *tags,
            "an entry {id} {tags:?} instead of {} {:?}",
            cs[i].id,
            cs[i].tags
        );
        i += 1;
    }
    for c in &cs[i..] {
        check!(c.tags.is_empty(), "no entry for changeset {} {:?}", c.id, c.tags);
    }
    Ok(())
}

fn c15(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cs = gen_some(src, ctx);
    // ids which the full reader does not take
    let wide = if src.chance(1, 10) {
        *src.pick(&[1 << 31, 1 << 32, (1 << 53) - 1, i64::MAX as u64, u64::MAX - u32::MAX as u64])
    } else {
        0
    };
    let long = src.chance(1, 150);
    let d = doc_long(src, &cs, wide, long);
    label(ctx, &cs, &d);
    ctx.label_if(wide > 0, "ids beyond 32 bits");
    ctx.nontrivial = cs.iter().any(|c| !c.tags.is_empty());
    ctx.label_if(cs.iter().any(|c| c.tags.is_empty()), "untagged changesets");
    ctx.sample(|| osmxml::show(&d.bytes));
    let mut run = read_tags(&d.bytes, cs.len());
    check!(run.end == End::Done, "{:?} after {} entries", run.end, run.items.len());
    for e in &mut run.items {
        check!(e.0 >= wide, "an entry with the id {}, which no changeset has", e.0);
        e.0 -= wide;
    }
    match_tags(&cs, &run.items)?;
    if wide > 0 {
        return Ok(());
    }
    // agrees with the full reader
    let full = read(&d.bytes, cs.len());
    check!(full.end == End::Done, "the full reader: {:?} after {} changesets", full.end, full.items.len());
    let got: Vec<TagItem> = run
        .items
        .into_iter()
        .map(|(i, mut t)| {
            t.sort();
            (i, t)
        })
        .collect();
    match_tags(&full.items, &got).map_err(|e| format!("compared with the full reader: {e}"))
}

/// Broken attributes of a tag
const RAW_TAG: &[&str] = &[
    "k=\"a\" k=\"b\" v=\"c\"",
    "k=\"a\" v=\"b\" v=\"c\"",
    "k=\"a\" v=\"b\" k=\"a\"",
    "k=a v=\"b\"",
    "k=\"a\" v=b",
    "k v=\"b\"",
    "k=\"a\" v",
    "k= v=\"b\"",
    "k=\"a & b\" v=\"c\"",
    "k=\"a\" v=\"b & c\"",
    "k=\"a\" v=\"b&\"",
    "k=\"a\" v=\"&;\"",
    "k=\"a\" v=\"&#xzz;\"",
    "k=\"a\" v=\"&#xd800;\"",
    "k=\"a\" v=\"&#x110000;\"",
    "k=\"a\" v=\"&#;\"",
    "k=\"a\" v=\"&lt\"",
    "k=\"a\" v=\"b\" x",
    "k=\"a\" v=\"b\" x=\"1\" x=\"2\"",
    "k=\"a\" v=\"b\" =\"2\"",
];
/// Broken attributes of a changeset
const RAW: &[&str] = &["x", "x=1", "x=\"1\" x=\"2\"", "id=\"1\" id=\"2\"", "=\"2\"", "user=\"a & b\" user=\"b\"", "open"];

fn gen_wrong(src: &mut Src, c: &MChg) -> (Wrong, bool) {
    // true: the tag reader must see it as well
    loop {
        match src.draw(9) {
            8 if !c.tags.is_empty() => {
                let i = src.below(c.tags.len());
                return (Wrong::TagRaw(i, src.pick(RAW_TAG)), true);
            }
            9 => return (Wrong::Raw(src.pick(RAW)), false),
            0 => {
                let f = *src.pick(&["id", "created_at", "open", "num_changes", "comments_count"]);
                return (Wrong::Missing(f), f == "id");
            }
            1 => {
                let v = *src.pick(&["", "x", "-1", "1.5", "99999999999999999999999", "0x10", "1 2", "\u{661}"]);
                return (Wrong::Value("id", v), true);
            }
            2 => {
                let f = *src.pick(&["num_changes", "comments_count"]);
                let v = *src.pick(&["", "x", "-1", "1.5", "99999999999999999999999", "true"]);
                return (Wrong::Value(f, v), false);
            }
            3 => {
                let (f, v) = *src.pick(&[("open", "maybe"), ("open", ""), ("open", "True"), ("open", "1"), ("uid", "x"), ("uid", ""), ("uid", "1.0")]);
                return (Wrong::Value(f, v), false);
            }
            4 if !c.tags.is_empty() => {
                let i = src.below(c.tags.len());
                return (Wrong::TagWithout(i, *src.pick(&["k", "v"])), true);
            }
            5 if !c.tags.is_empty() => {
                let i = src.below(c.tags.len());
                return (Wrong::TagEntity(i, *src.pick(&["k", "v"])), true);
            }
            6 if !c.tags.is_empty() => {
                let i = src.below(c.tags.len());
                return (Wrong::TagEnd(i, *src.pick(&["tag", "osm", "discussion"])), true);
            }
            7 if !c.tags.is_empty() => return (Wrong::NoEnd, true),
            _ => {}
        }
    }
}

fn judge<T: PartialEq + std::fmt::Debug>(intact: &[T], max: usize, run: &Run<T>, what: &str) -> Res {
    check!(run.items.len() <= max, "{what}: {} items, but only {max} are intact; the last is {:?}", run.items.len(), run.items.last());
    for (i, (w, g)) in intact.iter().zip(&run.items).enumerate() {
        check!(w == g, "{what}: item {i} is {g:?} instead of {w:?}");
    }
    match &run.end {
        End::Err(_) => Ok(()),
        e => Err(format!("{what}: ends with {e:?} after {} items", run.items.len())),
    }
}

/// What is read until the first error, and what comes after it: nothing that the intact file does
/// not have, in its order and without damaged ones.
fn read_on<T, K, E: std::fmt::Display>(
    it: &mut impl Iterator<Item = Result<T, E>>,
    cap: usize,
    intact: &[K],
    same: impl Fn(&K, &T) -> bool,
    what: &str,
) -> Result<Run<T>, String>
where
    T: std::fmt::Debug,
{
    let run = drain_res(it, cap);
    if let End::Err(e) = &run.end {
        let later = after_error(it, cap).map_err(|p| format!("{what}: after the error {e:?}: panic: {p}"))?;
        let mut i = 0;
        for t in &later {
            while i < intact.len() && !same(&intact[i], t) {
                i += 1;
            }
            check!(i < intact.len(), "{what}: after the error {e:?} it goes on with {t:?}, which the intact file does not have there");
            i += 1;
        }
    }
    Ok(run)
}

fn same_tags(c: &MChg, t: &TagItem) -> bool {
    c.id as u64 == t.0 && c.tags == t.1
}

/// The changesets after the `j`th
fn after(cs: &[MChg], j: usize) -> &[MChg] {
    cs.get(j + 1..).unwrap_or(&[])
}

fn c16(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut cs = gen_changesets(src, 3, 8);
    if cs.is_empty() {
        cs.push(gen_changeset(src, &mut 0));
    }
    ctx.nontrivial = true;
    let cap = cs.len() + 3;
    match src.draw(3) {
        0 => {
            // a wrong changeset
            ctx.label("malformed changeset");
            for _ in 0..1 + src.draw(11) {
                let j = src.below(cs.len());
                let (wrong, both) = gen_wrong(src, &cs[j]);
                let d = doc_with(src, &cs, Some((j, &wrong)));
                label(ctx, &cs, &d);
                ctx.sample(|| format!("{wrong:?} in changeset {j}: {}", osmxml::show(&d.bytes)));
                ctx.eval();
                let what = format!("changeset reader, {wrong:?} in changeset {j}");
                let run = read_on(&mut items(ChangesetReader::new(&d.bytes[..])), cap, after(&sorted(&cs), j), |a, b| a == b, &what)?;
                judge(&sorted(&cs), j, &run, &what)?;
                if both && !cs[j].tags.is_empty() {
                    ctx.eval();
                    // entries of changesets before
                    let what = format!("tag reader, {wrong:?} in changeset {j}");
                    let run = read_on(&mut changeset_tag_reader(&d.bytes[..]), cap, after(&cs, j), same_tags, &what)?;
                    match_tags_prefix(&cs[..j], &run, &what)?;
                }
            }
        }
        1 => {
            let d = doc(src, &cs);
            label(ctx, &cs, &d);
            // cut inside a changeset, or anywhere in the root element
            let inside = src.coin();
            let (a, b) = if inside { d.spans[src.below(cs.len())] } else { (d.root_start - 1, d.root_end) };
            ctx.label(if inside { "cut inside a changeset" } else { "cut inside the root" });
            let pos: Vec<usize> = if b - a < 700 { (a + 1..b).collect() } else { (0..300).map(|_| a + 1 + src.below(b - a - 1)).collect() };
            ctx.sample(|| format!("cut at bytes {a} to {b} of {}", osmxml::show(&d.bytes)));
            for p in pos {
                ctx.eval();
                let j = d.spans.iter().filter(|x| x.1 <= p).count();
                let what = format!("changeset reader, cut at byte {p}, after {j} changesets");
                let run = read_on(&mut items(ChangesetReader::new(&d.bytes[..p])), cap, &[], |_: &MChg, _| false, &what)?;
                judge(&sorted(&cs), j, &run, &what)?;
                let what = format!("tag reader, cut at byte {p}, after {j} changesets");
                let run = read_on(&mut changeset_tag_reader(&d.bytes[..p]), cap, &[], same_tags, &what)?;
                match_tags_prefix(&cs[..j], &run, &what)?;
            }
        }
        2 => {
            // the source fails
            ctx.label("failing source");
            let d = doc(src, &cs);
            label(ctx, &cs, &d);
            let kind = *src.pick(ERROR_KINDS);
            let chunk = *src.pick(&[1 << 20, 9, 1]);
            let n = d.bytes.len();
            let pos: Vec<usize> = if n < 600 { (0..=n).collect() } else { (0..150).map(|_| src.below(n + 1)).collect() };
            ctx.sample(|| format!("{kind:?} at {} positions of {}", pos.len(), osmxml::show(&d.bytes)));
            let data = Rc::new(d.bytes.clone());
            for p in pos {
                ctx.eval();
                let s = || FailingSource { data: data.clone(), pos: 0, fail_at: p, kind, chunk };
                let intact = d.spans.iter().filter(|x| x.1 <= p).count();
                let what = format!("changeset reader, {kind:?} at byte {p}");
                let run = read_on(&mut items(ChangesetReader::new(s())), cap, after(&sorted(&cs), intact), |a, b| a == b, &what)?;
                judge(&sorted(&cs), intact, &run, &what)?;
                let what = format!("tag reader, {kind:?} at byte {p}");
                let run = read_on(&mut changeset_tag_reader(s()), cap, after(&cs, intact), same_tags, &what)?;
                match_tags_prefix(&cs[..intact], &run, &what)?;
            }
        }
        _ => {
            // compressed data cut
            ctx.label("cut bzip2 stream");
            let d = doc(src, &cs);
            label(ctx, &cs, &d);
            let (comp, ends) = bz2_parts(src, &d.bytes);
            let n = comp.len();
            let mut pos: Vec<usize> = if n < 500 { (1..n).collect() } else { (0..120).map(|_| 1 + src.below(n - 1)).collect() };
            pos.extend(ends.iter().map(|e| e.0).filter(|e| *e < n));
            ctx.sample(|| format!("bzip2 cut at {} positions of {n}: {}", pos.len(), osmxml::show(&d.bytes)));
            for p in pos {
                // between two streams: how much is intact is known exactly
                let mut j = cs.len();
                let end = ends.iter().find(|e| e.0 == p);
                if let Some(&(_, at)) = end {
                    if at < d.root_start || at >= d.root_end {
                        continue;
                    }
                    ctx.label("cut between bzip2 streams");
                    j = d.spans.iter().filter(|x| x.1 <= at).count();
                }
                ctx.eval();
                let what = format!("changeset reader, bzip2 cut at {p} of {n}");
                let run = read_on(&mut items(ChangesetReader::from_bz2_reader(&comp[..p])), cap, &[], |_: &MChg, _| false, &what)?;
                judge(&sorted(&cs), j, &run, &what)?;
                let dec = bzip2::read::MultiBzDecoder::new(&comp[..p]);
                let what = format!("tag reader, bzip2 cut at {p} of {n}");
                let run = read_on(&mut changeset_tag_reader(dec), cap, &[], same_tags, &what)?;
                match_tags_prefix(&cs[..j], &run, &what)?;
            }
        }
    }
    ctx.distinct_inside = ctx.evals.saturating_sub(1);
    Ok(())
}

/// Entries are those of a prefix of `cs`, and then there is an error
fn match_tags_prefix(cs: &[MChg], run: &Run<TagItem>, what: &str) -> Res {
    let mut i = 0;
    for (id, tags) in &run.items {
        while i < cs.len() && cs[i].tags.is_empty() && !(tags.is_empty() && cs[i].id as u64 == *id) {
            i += 1;
        }
        check!(
            i < cs.len() && cs[i].id as u64 == *id && cs[i].tags == *tags,
            "{what}: an entry {id} {tags:?} which the intact file does not have there"
        );
        i += 1;
    }
    match &run.end {
        End::Err(_) => Ok(()),
        e => Err(format!("{what}: ends with {e:?} after {} entries", run.items.len())),
    }
}

// ------------------------------------------------------------------ C27: the SQLite tool

pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let p = std::env::temp_dir().join(format!("osmio-pbt-{}-{tag}-{n}", std::process::id()));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn tool() -> std::path::PathBuf {
    match std::env::var_os("PBT_TOOL") {
        Some(p) => p.into(),
        None => panic!("PBT_TOOL is not set: use run.sh"),
    }
}

pub(super) fn rows(db: &std::path::Path) -> Result<Vec<(i64, String)>, String> {
    let c = rusqlite::Connection::open_with_flags(db, rusqlite::OpenFlags::SQLITE_OPEN_READ_ONLY).map_err(|e| e.to_string())?;
    let mut st = match c.prepare("SELECT id, other_tags FROM changeset_tags ORDER BY rowid") {
        Ok(s) => s,
        Err(e) => return Err(format!("no table: {e}")),
    };
    let r = st
        .query_map([], |row| {
            let v: rusqlite::types::Value = row.get(1)?;
            let s = match v {
                rusqlite::types::Value::Blob(b) => String::from_utf8_lossy(&b).into_owned(),
                rusqlite::types::Value::Text(t) => t,
                v => format!("{v:?}"),
            };
            Ok((row.get(0)?, s))
        })
        .map_err(|e| e.to_string())?;
    r.collect::<Result<Vec<_>, _>>().map_err(|e| e.to_string())
}

/// Rows for exactly the tagged changesets (those without tags may have one)
pub(super) fn check_rows(cs: &[MChg], r: &[(i64, String)], what: &str) -> Res {
    let mut left: std::collections::HashMap<i64, &MChg> = cs.iter().map(|c| (c.id as i64, c)).collect();
    for (id, json) in r {
        let Some(c) = left.remove(id) else { fail!("{what}: a row for {id}, which is not in the dump or was there before") };
        let tags: Vec<(String, String)> = match serde_json::from_str(json) {
            Ok(t) => t,
            Err(e) => fail!("{what}: row {id} is not a JSON array of pairs ({e}): {json}"),
        };
        check!(tags == c.tags, "{what}: row {id} has {tags:?} instead of {:?}", c.tags);
    }
    for (id, c) in left {
        check!(c.tags.is_empty(), "{what}: no row for {id} {:?}", c.tags);
    }
    Ok(())
}

/// The rows a later user of the file finds: SQLite first undoes what was not committed
fn rows_later(db: &std::path::Path) -> Result<Option<Vec<(i64, String)>>, String> {
    if !db.exists() {
        return Ok(None);
    }
    let c = rusqlite::Connection::open(db).map_err(|e| e.to_string())?;
    let n: i64 = c
        .query_row("SELECT count(*) FROM sqlite_master WHERE name = 'changeset_tags'", [], |r| r.get(0))
        .map_err(|e| format!("not a usable database: {e}"))?;
    let ok: String = c.query_row("PRAGMA integrity_check", [], |r| r.get(0)).map_err(|e| e.to_string())?;
    check!(ok == "ok", "the database is damaged: {ok}");
    drop(c);
    if n == 0 { Ok(None) } else { rows(db).map(Some) }
}

fn none_or_all(cs: &[MChg], db: &std::path::Path, what: &str) -> Res {
    match rows_later(db).map_err(|e| format!("{what}: {e}"))? {
        None => Ok(()),
        Some(r) if r.is_empty() => Ok(()),
        Some(r) => check_rows(cs, &r, &format!("{what}, and some rows are there ({})", r.len())),
    }
}

/// The tool reads from a pipe; once it has read `bytes` and waits for more, it is killed.
fn kill_waiting(input: &std::path::Path, db: &std::path::Path, bytes: &[u8]) -> Result<(), String> {
    use std::os::fd::AsRawFd;
    use std::os::unix::ffi::OsStrExt;
    use std::os::unix::fs::OpenOptionsExt;
    let c = std::ffi::CString::new(input.as_os_str().as_bytes()).unwrap();
    if unsafe { libc::mkfifo(c.as_ptr(), 0o600) } != 0 {
        return Err("mkfifo".into());
    }
    let mut child = std::process::Command::new(tool())
        .arg(input)
        .arg(db)
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .spawn()
        .map_err(|e| format!("cannot run the tool: {e}"))?;
    // opened for both, so that this end does not wait for the tool
    let mut f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .custom_flags(libc::O_NONBLOCK)
        .open(input)
        .map_err(|e| e.to_string())?;
    let t0 = std::time::Instant::now();
    let mut at = 0;
    let mut idle = 0;
    let mut last_cpu = String::new();
    while t0.elapsed().as_secs() < 60 && idle < 4 {
        if let Ok(Some(_)) = child.try_wait() {
            break;
        }
        if at < bytes.len() {
            match f.write(&bytes[at..]) {
                Ok(n) => {
                    at += n;
                    continue;
                }
                Err(_) => std::thread::sleep(std::time::Duration::from_millis(2)),
            }
            continue;
        }
        std::thread::sleep(std::time::Duration::from_millis(3));
        let mut n: libc::c_int = 0;
        unsafe { libc::ioctl(f.as_raw_fd(), libc::FIONREAD, &mut n) };
        let stat = std::fs::read_to_string(format!("/proc/{}/stat", child.id())).unwrap_or_default();
        let rest: Vec<&str> = stat.rsplit(')').next().unwrap_or("").split_whitespace().collect();
        // sleeping, and not having used the CPU since
        let cpu = rest.get(11..13).map(|x| x.join(" ")).unwrap_or_default();
        let waits = n == 0 && rest.first() == Some(&"S") && cpu == last_cpu;
        last_cpu = cpu;
        idle = if waits { idle + 1 } else { 0 };
    }
    let _ = child.kill();
    let _ = child.wait();
    Ok(())
}

fn c27(src: &mut Src, ctx: &mut Ctx) -> Res {
    let big = src.chance(1, if ctx.thorough { 60 } else { 40 });
    let mut cs = if big {
        let (cs, what) = gen_bulk(src, 12_000);
        ctx.label(what);
        cs
    } else {
        gen_changesets(src, 5, 30)
    };
    let mut seen = std::collections::HashSet::new();
    cs.retain(|c| seen.insert(c.id));
    if src.coin() && cs.iter().all(|c| c.tags.is_empty()) {
        for c in cs.iter_mut() {
            c.tags.push(("comment".into(), "x".into()));
        }
    }
    if src.chance(1, if ctx.thorough { 1500 } else { 150 }) {
        return slow(src, ctx);
    }
    let s = Scratch::new("c27");
    let input = s.0.join("changesets.osm.bz2");
    let db = s.0.join("out.sqlite");
    // the last ones are about what has been stored before: more often with large dumps
    let mode = if big { src.draw(6) + 2 } else { src.draw(8) };
    let mut bytes;
    let mut fails = true;
    ctx.nontrivial = cs.iter().any(|c| !c.tags.is_empty());
    let what;
    // a position in the list, often near the end
    fn place(src: &mut Src, n: usize) -> usize {
        if src.coin() { src.below(n) } else { n - 1 - src.below(n.min(3)) }
    }
    match mode {
        0..=2 => {
            let d = doc(src, &cs);
            bytes = bz2(src, &d.bytes);
            fails = false;
            what = "intact dump".to_string();
            ctx.label("intact dump");
            label(ctx, &cs, &d);
        }
        3 => {
            // cut inside a changeset, or a malformed tag
            if cs.is_empty() {
                return Ok(());
            }
            let j = place(src, cs.len());
            let d;
            if !cs[j].tags.is_empty() && src.coin() {
                let i = place(src, cs[j].tags.len());
                let w = match gen_wrong(src, &cs[j]) {
                    (w, true) => w,
                    _ => Wrong::TagWithout(i, *src.pick(&["k", "v"])),
                };
                d = doc_with(src, &cs, Some((j, &w)));
                bytes = bz2(src, &d.bytes);
                what = format!("{w:?} in changeset {j} of {}", cs.len());
            } else {
                d = doc(src, &cs);
                let (a, b) = if src.coin() { d.spans[j] } else { (d.root_start - 1, d.root_end) };
                let p = a + 1 + src.below(b - a - 1);
                bytes = bz2(src, &d.bytes[..p]);
                what = format!("cut at byte {p} of {}", d.bytes.len());
            }
            label(ctx, &cs, &d);
            ctx.label("damaged dump");
        }
        4 => {
            let d = doc(src, &cs);
            let (c, ends) = bz2_parts(src, &d.bytes);
            bytes = c;
            let p = if src.chance(1, 3) { src.pick(&ends).0 } else { 1 + place(src, bytes.len() - 1) };
            if ends.iter().any(|e| e.0 == p && !(d.root_start..d.root_end).contains(&e.1)) {
                return Ok(());
            }
            bytes.truncate(p);
            what = format!("bzip2 cut at {p}");
            label(ctx, &cs, &d);
            ctx.label("damaged dump");
        }
        5 => {
            let d = doc(src, &cs);
            bytes = bz2(src, &d.bytes);
            label(ctx, &cs, &d);
            what = "existing output".to_string();
            ctx.label("existing output");
        }
        6 | 7 => {
            // killed once it has read some of the dump, or all of it but not the end of the file
            let d = doc(src, &cs);
            label(ctx, &cs, &d);
            let (b, ends) = bz2_streams(src, &d.bytes);
            let p = match src.draw(3) {
                0 => src.below(b.len() + 1),
                1 => *src.pick(&ends),
                _ => b.len(),
            };
            ctx.hash(&b[..p]);
            ctx.label("killed");
            ctx.label_if(p == b.len(), "killed after the last changeset");
            let what = format!("killed when it waits for more after {p} of {} bytes", b.len());
            ctx.sample(|| format!("{what}: {cs:?}"));
            kill_waiting(&input, &db, &b[..p])?;
            return none_or_all(&cs, &db, &what);
        }
        _ => {
            // not enough room for the output
            let d = doc(src, &cs);
            label(ctx, &cs, &d);
            let b = bz2(src, &d.bytes);
            ctx.hash(&b);
            std::fs::write(&input, &b).unwrap();
            let limit = match src.draw(2) {
                0 => src.draw(30_000),
                1 => src.draw(d.bytes.len() as u64 + 1),
                _ => src.draw(d.bytes.len() as u64 * 2 + 10_000),
            };
            ctx.label("no room");
            let what = format!("files limited to {limit} bytes");
            ctx.sample(|| format!("{what}: {cs:?}"));
            let mut cmd = std::process::Command::new(tool());
            cmd.arg(&input).arg(&db).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
            unsafe {
                use std::os::unix::process::CommandExt;
                cmd.pre_exec(move || {
                    libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                    let l = libc::rlimit { rlim_cur: limit, rlim_max: limit };
                    libc::setrlimit(libc::RLIMIT_FSIZE, &l);
                    Ok(())
                });
            }
            let st = cmd.status().map_err(|e| format!("cannot run the tool: {e}"))?;
            if st.success() {
                ctx.label("room enough");
                let r = rows(&db).map_err(|e| format!("{what}: success, but {e}"))?;
                return check_rows(&cs, &r, &what);
            }
            ctx.label("ran out of room");
            return match rows_later(&db).map_err(|e| format!("{what}: {e}"))? {
                Some(r) if !r.is_empty() => Err(format!("{what}: it fails, but leaves {} rows behind", r.len())),
                _ => Ok(()),
            };
        }
    }
    ctx.hash(&bytes);
    ctx.hash(&[mode as u8]);
    ctx.sample(|| format!("{what}: {cs:?}"));
    std::fs::write(&input, &bytes).unwrap();
    let existing: Option<Vec<u8>> = if mode == 5 {
        if src.chance(1, 8) {
            // a directory is not replaced either
            std::fs::create_dir(&db).unwrap();
            let kept = db.join("kept");
            std::fs::write(&kept, b"x").unwrap();
            let out = std::process::Command::new(tool()).arg(&input).arg(&db).output().map_err(|e| format!("cannot run the tool: {e}"))?;
            check!(!out.status.success(), "a directory as output: the tool succeeds");
            let names: Vec<_> = std::fs::read_dir(&db).unwrap().map(|e| e.unwrap().file_name()).collect();
            check!(names == ["kept"] && std::fs::read(&kept).unwrap() == b"x", "a directory as output: it has {names:?}");
            return Ok(());
        }
        let b = match src.draw(2) {
            0 => vec![],
            1 => b"something else".to_vec(),
            _ => {
                let c = rusqlite::Connection::open(&db).map_err(|e| e.to_string())?;
                c.execute("CREATE TABLE other (a)", []).map_err(|e| e.to_string())?;
                drop(c);
                std::fs::read(&db).unwrap()
            }
        };
        if src.chance(1, 4) {
            let target = s.0.join("target");
            std::fs::write(&target, &b).unwrap();
            let _ = std::fs::remove_file(&db);
            std::os::unix::fs::symlink(&target, &db).unwrap();
        } else {
            std::fs::write(&db, &b).unwrap();
        }
        Some(b)
    } else {
        None
    };
    let out = std::process::Command::new(tool()).arg(&input).arg(&db).output().map_err(|e| format!("cannot run the tool: {e}"))?;
    if let Some(b) = existing {
        check!(!out.status.success(), "{what}: the tool succeeds");
        check!(std::fs::read(&db).ok() == Some(b), "{what}: the existing file was changed");
        return Ok(());
    }
    if fails {
        check!(!out.status.success(), "{what}: the tool succeeds");
        match rows_later(&db) {
            Ok(Some(r)) if !r.is_empty() => fail!("{what}: {} rows are left behind, e.g. {:?}", r.len(), r[0]),
            _ => {}
        }
        return Ok(());
    }
    check!(out.status.success(), "{what}: the tool fails: {}", String::from_utf8_lossy(&out.stderr));
    check_rows(&cs, &rows(&db)?, &what)
}

/// A dump that arrives slowly, through a named pipe, so that the tool reports its progress
/// The real tool with input which arrives slowly: what it was, how many changesets, what it printed
pub(super) fn run_slow(src: &mut Src, ctx: &mut Ctx, s: &Scratch) -> Result<(String, usize, String), String> {
    let n = 20_001 + src.below(10_000);
    let at = 9_000 + src.below(3_000);
    let long = src.coin();
    // (hook) more changesets than the tool thinks there are in all
    let assumed = [110_000_000, 15_000, 10_001, 1][src.below(4)];
    ctx.label(if assumed < n { "more than assumed" } else { "progress" });
    ctx.nontrivial = true;
    ctx.hash(&n.to_le_bytes());
    ctx.hash(&at.to_le_bytes());
    let (input, db) = (s.0.join("changesets.osm.bz2"), s.0.join("out.sqlite"));
    let c = std::ffi::CString::new(input.as_os_str().as_encoded_bytes()).unwrap();
    check!(unsafe { libc::mkfifo(c.as_ptr(), 0o600) } == 0, "mkfifo fails");
    let mut child = std::process::Command::new(tool())
        .arg(&input)
        .arg(&db)
        .env("OSMIO_VERIF_ASSUMED_SIZE", assumed.to_string())
        .stdout(std::fs::File::create(s.0.join("stdout")).map_err(|e| e.to_string())?)
        .stderr(std::process::Stdio::piped())
        .spawn()
        .map_err(|e| format!("cannot run the tool: {e}"))?;
    let piece = |from: usize, to: usize| -> Vec<u8> {
        let mut x = String::new();
        for i in from..to {
            x.push_str(&format!("<changeset id=\"{i}\" open=\"false\"><tag k=\"n\" v=\"{}\"/></changeset>\n", i * 7));
        }
        x.into_bytes()
    };
    let writer = std::thread::spawn({
        let parts = [
            [&b"<osm>"[..], &piece(1, at)].concat(),
            piece(at, n - 500),
            [&piece(n - 500, n)[..], b"</osm>"].concat(),
        ];
        let input = input.clone();
        move || -> std::io::Result<()> {
            // open for reading as well, to not wait for a tool which has ended already
            let mut w = std::fs::OpenOptions::new().read(true).write(true).open(&input)?;
            set_nonblocking(&w);
            for (i, p) in parts.iter().enumerate() {
                let mut e = bzip2::write::BzEncoder::new(vec![], bzip2::Compression::new(1));
                e.write_all(p)?;
                let p = e.finish()?;
                let mut rest = &p[..];
                let mut tries = 0;
                while !rest.is_empty() {
                    match w.write(rest) {
                        Ok(k) => rest = &rest[k..],
                        Err(_) => {
                            tries += 1;
                            if tries > 20_000 {
                                // it does not read any more
                                return Ok(());
                            }
                            std::thread::sleep(std::time::Duration::from_millis(1));
                        }
                    }
                }
                if i < 2 {
                    std::thread::sleep(std::time::Duration::from_millis(if i == 0 || long { 2_300 } else { 10 }));
                }
            }
            // it has to see the end: wait until everything has been read
            for _ in 0..20_000 {
                let mut left: libc::c_int = 0;
                unsafe { libc::ioctl(std::os::fd::AsRawFd::as_raw_fd(&w), libc::FIONREAD, &mut left) };
                if left == 0 {
                    break;
                }
                std::thread::sleep(std::time::Duration::from_millis(1));
            }
            Ok(())
        }
    });
    let st = child.wait().map_err(|e| e.to_string())?;
    let _ = writer.join();
    let mut err = String::new();
    let _ = std::io::Read::read_to_string(&mut child.stderr.take().unwrap(), &mut err);
    let what = format!("{} changesets that arrive slowly ({assumed} are assumed)", n - 1);
    ctx.sample(|| what.clone());
    check!(st.success(), "{what}: the tool fails: {err}");
    let out = std::fs::read(s.0.join("stdout")).map_err(|e| e.to_string())?;
    Ok((what, n - 1, String::from_utf8_lossy(&out).into_owned()))
}

fn slow(src: &mut Src, ctx: &mut Ctx) -> Res {
    let s = Scratch::new("c27");
    let (what, n, _) = run_slow(src, ctx, &s)?;
    let r = rows(&s.0.join("out.sqlite"))?;
    check!(r.len() == n, "{what}: {} rows", r.len());
    for (i, (id, json)) in r.iter().enumerate() {
        let tags: Vec<(String, String)> = serde_json::from_str(json).map_err(|e| format!("{what}: row {id} {json}: {e}"))?;
        check!(*id == i as i64 + 1 && tags == [("n".to_string(), ((i + 1) * 7).to_string())], "{what}: row {id} {json}");
    }
    Ok(())
}

pub(super) fn set_nonblocking(f: &std::fs::File) {
    let fd = std::os::fd::AsRawFd::as_raw_fd(f);
    unsafe {
        let fl = libc::fcntl(fd, libc::F_GETFL);
        libc::fcntl(fd, libc::F_SETFL, fl | libc::O_NONBLOCK);
    }
}

const A: &[&str] = &[
    "documents in UTF-8 that use no entities of their own, distinct tag keys in a changeset",
    "ids of 32 bits, timestamps are canonical UTC text",
];

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C14",
            level: "exploration",
            rule: "distinct changeset dumps with at least one changeset",
            run: c14,
            quick: 150_000,
            thorough: 2_500_000,
            exhaustive: None,
            assumptions: A,
        },
        Prop {
            id: "C15",
            level: "exploration",
            rule: "distinct changeset dumps with at least one tagged changeset",
            run: c15,
            quick: 200_000,
            thorough: 2_500_000,
            exhaustive: None,
            assumptions: A,
        },
        Prop {
            id: "C16",
            level: "fault_enumeration",
            rule: "distinct changeset dumps times fault: a malformed changeset, a cut at every byte inside a changeset, a failing source at every byte, a bzip2 stream cut at every byte (sampled for long ones)",
            run: c16,
            quick: 4_000,
            thorough: 250_000,
            exhaustive: None,
            assumptions: A,
        },
        Prop {
            id: "C27",
            level: "exploration",
            rule: "distinct dumps (intact, damaged, with an output file already there, cut short by SIGKILL or by a file size limit) with at least one tagged changeset, given to the tool as a process",
            run: c27,
            quick: 1_500,
            thorough: 60_000,
            exhaustive: None,
            assumptions: A,
        },
    ]
}
