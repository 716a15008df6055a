//! C30: termination on any input
use super::chg;
use crate::engine::*;
use crate::io::*;
use crate::model::*;
use crate::pbf::{self, Layout};
use crate::{check, fail, osmxml};
use osmio::changesets::ChangesetReader;
use osmio::osc::OSCReader;
use osmio::stringpbf::PBFNodePositionReader;
use crate::hooks::changeset_tag_reader;
use osmio::xml::XMLReader;
use osmio::{OSMReader, arcpbf, stringpbf};
use std::cell::RefCell;
use std::rc::Rc;

const DICT: &[&str] = &[
    "<", ">", "</", "/>", "<osm>", "</osm>", "<osmChange>", "</osmChange>", "<create>", "</create>", "<modify>", "<delete>", "</delete>",
    "<node id=\"1\" lat=\"1\" lon=\"2\">", "<node id=\"1\"/>", "</node>", "<way id='2'>", "</way>", "<nd ref=\"1\"/>", "<relation id=\"3\">",
    "</relation>", "<member type=\"node\" ref=\"1\" role=\"\"/>", "<tag k=\"a\" v=\"b\"/>", "<tag/>", "<tag k=\"a\"/>", "<changeset id=\"1\">",
    "<changeset id=\"1\" created_at=\"2020-01-01T00:00:00Z\" open=\"true\" num_changes=\"0\" comments_count=\"0\">",
    "<changeset id=\"1\" created_at=\"2020-01-01T00:00:00Z\" open=\"true\" num_changes=\"0\" comments_count=\"0\"/>",
    "</changeset>", "<discussion>", "</discussion>", "<comment>", "<text>", "</text>", "<!--", "-->", "<![CDATA[", "]]>", "<?xml version=\"1.0\"?>", "<?",
    "?>", "<!DOCTYPE osm>", "<!DOCTYPE osm [<!ENTITY a \"b\">]>", "<!DOCTYPE a [<!ENTITY a \"&b;&b;\"><!ENTITY b \"&a;\">]>", "&a;", "&", "&amp;", "&#0;",
    "&#x110000;", "&#xd800;", "&lt;", "\"", "'", " ", "\n", "\0", "\u{feff}", "id=\"\"", "id=\"x\"", "id=\"99999999999999999999\"", "lat=\"nan\"", "lat=\"1e400\"",
    "version=\"-1\"", "timestamp=\"x\"", "visible=\"maybe\"", " xmlns:a=\"b\"", "a:b", "xmlns=\"\"", "<a xmlns=\"x\">", "=", "k=\"", "\u{fffe}",
];

/// Something damaged in one to some places
fn mutate(src: &mut Src, b: &mut Vec<u8>, other: &[u8], text: bool) {
    for _ in 0..1 + src.draw(5) {
        let n = b.len();
        match src.draw(9) {
            0 if n > 0 => {
                let i = src.below(n);
                b[i] ^= 1 << src.draw(7);
            }
            1 if n > 0 => {
                let i = src.below(n);
                b[i] = *src.pick(&[0, 1, 0x7f, 0x80, 0xff, b'<', b'>', b'"', b'&', b'/']);
            }
            2 if n > 0 => {
                let i = src.below(n);
                b.truncate(i);
            }
            3 if n > 0 => {
                let i = src.below(n);
                let j = (i + 1 + src.draw(40) as usize).min(n);
                b.drain(i..j);
            }
            4 if n > 0 => {
                // repeat a piece
                let i = src.below(n);
                let j = (i + 1 + src.draw(60) as usize).min(n);
                let p = b[i..j].to_vec();
                let at = src.below(n + 1);
                b.splice(at..at, p);
            }
            5 => {
                // splice in some of the other
                if !other.is_empty() {
                    let i = src.below(other.len());
                    let j = (i + 1 + src.draw(100) as usize).min(other.len());
                    let at = src.below(n + 1);
                    b.splice(at..at, other[i..j].to_vec());
                }
            }
            6 if text => {
                let at = src.below(n + 1);
                b.splice(at..at, src.pick(DICT).bytes());
            }
            7 if text && n > 0 => {
                let i = src.below(n);
                let j = (i + 1 + src.draw(20) as usize).min(n);
                b.splice(i..j, src.pick(DICT).bytes());
            }
            6 | 7 => {
                // a number elsewhere
                let mut v = vec![];
                pbf::varint(*src.pick(&[0, 1, 127, 128, 1 << 31, u32::MAX as u64, 1 << 62, u64::MAX, i64::MAX as u64]), &mut v);
                let at = src.below(n + 1);
                let end = (at + src.draw(v.len() as u64) as usize).min(n);
                b.splice(at..end, v);
            }
            8 => b.extend_from_slice(other),
            _ => {
                let k = src.draw(12) as usize;
                let r = src.bytes(k);
                let at = src.below(n + 1);
                b.splice(at..at, r);
            }
        }
    }
}

fn random_pieces(src: &mut Src) -> Vec<u8> {
    let mut out = vec![];
    for p in src.list(15, 80, |s| if s.draw(9) == 0 { vec![s.draw(255) as u8] } else { s.pick(DICT).as_bytes().to_vec() }) {
        out.extend(p);
    }
    out
}

fn valid_text(src: &mut Src) -> Vec<u8> {
    match src.draw(2) {
        0 => {
            let o = gen_objs(src, XML, 3, 8);
            osmxml::osm_doc(src, &o).bytes
        }
        1 => {
            let o = gen_objs(src, XML, 3, 8);
            osmxml::osc_doc(src, &o).bytes
        }
        _ => {
            let c = chg::gen_changesets(src, 3, 6);
            chg::doc(src, &c).bytes
        }
    }
}

/// A PBF file of which the damage is inside the blobs
fn damaged_pbf(src: &mut Src) -> Vec<u8> {
    let mut objs = pbf::gen_pobjs(src, PBF, 3, 8);
    let l = Layout::gen_for(src, false);
    let f = pbf::encode(src, &mut objs, l);
    if f.data.is_empty() || src.chance(1, 3) {
        return f.bytes;
    }
    let mut out = vec![];
    let mut at = 0;
    for d in &f.data {
        out.extend(&f.bytes[at..d.start]);
        at = d.end;
        let mut block = d.block.clone();
        if src.coin() {
            mutate(src, &mut block, &d.block, false);
        }
        let mut b = pbf::Msg::default();
        if src.coin() {
            b.bytes(1, &block);
        } else {
            let size = if src.chance(1, 6) { *src.pick(&[0u64, 1, 1 << 20, i32::MAX as u64, u64::MAX]) } else { block.len() as u64 };
            b.varint(2, size);
            let mut z = pbf::zlib(&block, 6);
            if src.chance(1, 4) {
                mutate(src, &mut z, &[], false);
            }
            b.bytes(3, &z);
        }
        let b = b.finish(src, &l.wire);
        pbf::frame(src, &l, "OSMData", &b, &mut out);
    }
    out.extend(&f.bytes[at..]);
    out
}

fn input(src: &mut Src, ctx: &mut Ctx, text: bool) -> Vec<u8> {
    match src.draw(9) {
        0 => {
            ctx.label("random bytes");
            let n = src.draw(200) as usize;
            src.bytes(n)
        }
        1 | 2 if text => {
            ctx.label("random pieces");
            random_pieces(src)
        }
        1 | 2 => {
            ctx.label("random blob framing");
            let mut out = vec![];
            for _ in 0..src.draw(3) {
                let n = src.draw(40) as usize;
                let b = src.bytes(n);
                let l = Layout::gen_for(src, false);
                let t = *src.pick(&["OSMHeader", "OSMData", "OSMData", "x"]);
                pbf::frame(src, &l, t, &b, &mut out);
            }
            let n = src.draw(10) as usize;
            out.extend(src.bytes(n));
            out
        }
        3 => {
            ctx.label("valid");
            if text { valid_text(src) } else { damaged_pbf(src) }
        }
        4 => {
            ctx.label("of another format");
            if text { damaged_pbf(src) } else { valid_text(src) }
        }
        _ => {
            ctx.label("damaged");
            let (mut a, b) = if text { (valid_text(src), valid_text(src)) } else { (damaged_pbf(src), damaged_pbf(src)) };
            mutate(src, &mut a, &b, text);
            a
        }
    }
}

/// Reads to the end; Ok(ended, error text)
fn judge(what: &str, end: &End, items: usize, cap: usize, may_panic: bool) -> Res {
    match end {
        End::Cap => Err(format!("{what}: over {cap} items ({items})")),
        End::Panic(p) if p.starts_with("LIMIT") => Err(format!("{what}: {p}")),
        End::Panic(p) if !may_panic => Err(format!("{what}: panics: {p}")),
        _ => Ok(()),
    }
}

fn osm<Rd: OSMReader>(mut r: Rd, what: &str, cap: usize, ctx: &mut Ctx) -> Res {
    let mut n = 0;
    let end = loop {
        if n > cap {
            break End::Cap;
        }
        match catch(|| r.next().is_some()) {
            Err(p) => break End::Panic(p),
            Ok(false) => break End::Done,
            Ok(true) => n += 1,
        }
    };
    ctx.label_if(n > 0, "some objects");
    ctx.label_if(matches!(end, End::Panic(_)), "panic");
    ctx.label_if(matches!(end, End::Done), "end of stream");
    judge(what, &end, n, cap, true)?;
    if end == End::Done {
        for i in 1..4 {
            match catch(|| r.next().is_some()) {
                Ok(false) => {}
                Ok(true) => fail!("{what}: an object when asked for the {i}. time after the end of the stream"),
                Err(p) => fail!("{what}: panics when asked for the {i}. time after the end of the stream: {p}"),
            }
            // by iterator, too
            match catch(|| r.objects().next().is_some()) {
                Ok(false) => {}
                x => fail!("{what}: objects() after the end of the stream: {x:?}"),
            }
        }
    }
    Ok(())
}

fn iter<T, E>(mut it: impl Iterator<Item = Result<T, E>>, what: &str, cap: usize, may_panic: bool, ctx: &mut Ctx) -> Res {
    let mut n = 0;
    let mut errs = 0;
    let end = loop {
        if n > cap {
            break End::Cap;
        }
        match catch(|| it.next().map(|r| r.is_ok())) {
            Err(p) => break End::Panic(p),
            Ok(None) => break End::Done,
            Ok(Some(true)) => n += 1,
            // go on after some errors: it must not panic then either
            Ok(Some(false)) => {
                errs += 1;
                if errs > 5 {
                    break End::Err(String::new());
                }
            }
        }
    };
    ctx.label_if(n > 0, "some items");
    ctx.label_if(errs > 0, "error");
    ctx.label_if(matches!(end, End::Panic(_)), "panic");
    ctx.label_if(matches!(end, End::Done), "end of stream");
    judge(what, &end, n, cap, may_panic)?;
    if end == End::Done && errs == 0 {
        for i in 1..4 {
            match catch(|| it.next().is_some()) {
                Ok(false) => {}
                Ok(true) => fail!("{what}: an item when asked for the {i}. time after the end of the stream"),
                Err(p) => fail!("{what}: panics when asked for the {i}. time after the end of the stream: {p}"),
            }
        }
    }
    Ok(())
}

fn c30(src: &mut Src, ctx: &mut Ctx) -> Res {
    let text = src.coin();
    let data = input(src, ctx, text);
    ctx.hash(&data);
    ctx.nontrivial = data.len() > 1;
    ctx.sample(|| if text { osmxml::show(&data) } else { format!("{data:x?}") });
    // an item takes at least one byte, of what compresses by up to 1032 : 1
    let cap = data.len() * 1100 + 1000;
    let data = Rc::new(data);
    let s = || Counting { data: data.clone(), pos: 0, after_end: Rc::new(RefCell::new(0)), limit: 2000 };
    ctx.evals = 7;
    osm(XMLReader::new(s()), "xml reader", cap, ctx)?;
    osm(OSCReader::new(s()), "osc reader", cap, ctx)?;
    osm(stringpbf::PBFReader::new(s()), "stringpbf reader", cap, ctx)?;
    osm(arcpbf::PBFReader::new(s()), "arcpbf reader", cap, ctx)?;
    iter(PBFNodePositionReader::from_reader(s()).map(Ok::<_, ()>), "node position reader", cap, true, ctx)?;
    iter(ChangesetReader::new(s()), "changeset reader", cap, false, ctx)?;
    iter(changeset_tag_reader(s()), "changeset tag reader", cap, false, ctx)?;
    if src.chance(1, 8) {
        // compressed
        ctx.evals += 1;
        let mut z = chg::bz2(src, &data);
        if src.coin() {
            mutate(src, &mut z, &data, false);
        }
        ctx.label("bzip2");
        let s = Counting { data: Rc::new(z), pos: 0, after_end: Rc::new(RefCell::new(0)), limit: 2000 };
        iter(ChangesetReader::from_bz2_reader(s), "changeset reader of bzip2 data", cap + 1_000_000, false, ctx)?;
    }
    check!(ctx.evals >= 7, "-");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C30",
        level: "exploration",
        rule: "distinct inputs of at least two bytes, each given to all seven readers",
        run: c30,
        quick: 180_000,
        thorough: 5_000_000,
        exhaustive: None,
        assumptions: &[
            "bounded: at most 2000 reads at the end of the data, a number of items bounded by the input's size, and 60 s of CPU time",
            "a reader is not asked again after it panicked",
        ],
    }]
}
