//! C04, C05, C12: the XML and OSC readers
use crate::engine::*;
use crate::io::*;
use crate::model::*;
use crate::osmxml::{self, Noise, XmlDoc};
use crate::{check, fail};
use osmio::osc::OSCReader;
use osmio::xml::XMLReader;
use osmio::OSMReader;
use std::rc::Rc;

fn label(ctx: &mut Ctx, d: &XmlDoc) {
    let n = &d.noise;
    ctx.label_if(n.attr_order, "attribute order");
    ctx.label_if(n.ns, "attributes of other namespaces");
    ctx.label_if(n.quotes, "quotes");
    ctx.label_if(n.refs, "character references");
    ctx.label_if(n.space, "white space");
    ctx.label_if(n.misc, "comments, PIs, CDATA");
    ctx.label_if(n.unknown, "unknown attributes and elements");
    ctx.label_if(n.explicit_end, "explicit end tags");
    ctx.label_if(n.coord_forms, "number forms");
    ctx.label_if(osmxml::has_doctype(&d.bytes), "document type declaration");
    ctx.label_if(d.bad_objs > 0, "objects without usable id");
}

/// Mostly few objects, rarely very many
pub fn some_objs(src: &mut Src, ctx: &mut Ctx) -> Vec<MObj> {
    if src.chance(1, if ctx.thorough { 200 } else { 400 }) {
        let (v, what) = gen_bulk(src, XML, 70_000);
        ctx.label(what);
        return v;
    }
    let (avg, max) = if src.chance(1, if ctx.thorough { 50 } else { 200 }) { (300, 1500) } else { (4, 30) };
    gen_objs(src, XML, avg, max)
}

fn read_to_end<'a, Rd: OSMReader<R = &'a [u8]>>(bytes: &'a [u8], cap: usize) -> Result<Vec<MObj>, String> {
    let mut r = Rd::new(bytes);
    let v = all(&mut r, cap)?;
    for _ in 0..3 {
        match catch(|| r.next().is_some()) {
            Ok(false) => {}
            Ok(true) => return Err("an object after the end of the stream".into()),
            Err(p) => return Err(format!("panic after the end of the stream: {p}")),
        }
    }
    Ok(v)
}

fn c04(src: &mut Src, ctx: &mut Ctx) -> Res {
    let objs = some_objs(src, ctx);
    let mut n = Noise::gen_for(src);
    n.long = src.chance(1, 150);
    ctx.label_if(n.long, "long comments, names, deep nesting");
    let mut doc = osmxml::osm_doc_with(src, &objs, n);
    if src.chance(1, 10) {
        if let Some(what) = osmxml::reencode(src, &mut doc) {
            ctx.label(what);
        }
    }
    ctx.hash(&doc.bytes);
    ctx.nontrivial = !objs.is_empty();
    label(ctx, &doc);
    ctx.sample(|| osmxml::show(&doc.bytes));
    let got = read_to_end::<XMLReader<&[u8]>>(&doc.bytes, objs.len() + doc.bad_objs)?;
    match diff(&objs, &got) {
        None => Ok(()),
        Some(d) => Err(d),
    }
}

fn c05(src: &mut Src, ctx: &mut Ctx) -> Res {
    let objs = some_objs(src, ctx);
    let mut n = Noise::gen_for(src);
    n.long = src.chance(1, 150);
    ctx.label_if(n.long, "long comments, names, deep nesting");
    let mut doc = osmxml::osc_doc_with(src, &objs, n);
    if src.chance(1, 10) {
        if let Some(what) = osmxml::reencode(src, &mut doc) {
            ctx.label(what);
        }
    }
    ctx.hash(&doc.bytes);
    ctx.nontrivial = !objs.is_empty();
    label(ctx, &doc);
    ctx.label_if(doc.blocks.len() > 1, "several blocks");
    ctx.label_if(doc.blocks.iter().any(|b| b.1 == 0), "empty blocks");
    ctx.label_if(doc.blocks.windows(2).any(|b| b[0].0 == b[1].0), "repeated blocks");
    ctx.sample(|| osmxml::show(&doc.bytes));
    let got = read_to_end::<OSCReader<&[u8]>>(&doc.bytes, objs.len() + doc.bad_objs)?;
    match diff(&doc.settle(&objs, &got), &got) {
        None => Ok(()),
        Some(d) => Err(d),
    }
}

fn prefix(want: &[MObj], run: &Run<MObj>, what: &str) -> Res {
    check!(run.items.len() <= want.len(), "{what}: {} objects of {}", run.items.len(), want.len());
    if let Some(d) = diff(&want[..run.items.len()], &run.items) {
        fail!("{what}: not a prefix of the objects: {d}");
    }
    match &run.end {
        End::Panic(_) => Ok(()),
        e => Err(format!("{what}: ends with {e:?} after {} of {} objects", run.items.len(), want.len())),
    }
}

fn c12(src: &mut Src, ctx: &mut Ctx) -> Res {
    let osc = src.coin();
    let objs = gen_objs(src, XML, 2, 6);
    let doc = if osc { osmxml::osc_doc(src, &objs) } else { osmxml::osm_doc(src, &objs) };
    let n = doc.root_end;
    let want_len = if ctx.thorough { 3000 } else { 900 };
    let positions: Vec<usize> = if n <= want_len {
        (0..n).collect()
    } else {
        let mut v: Vec<usize> = (n - 60..n).collect();
        v.extend((0..want_len / 4).map(|_| src.below(n)));
        v
    };
    let kind = *src.pick(ERROR_KINDS);
    let chunk = *src.pick(&[1 << 20, 1 << 20, 7, 1]);
    ctx.hash(&doc.bytes);
    ctx.hash(&[kind as u8]);
    ctx.nontrivial = true;
    ctx.label(if osc { "osc" } else { "xml" });
    ctx.label_if(n <= want_len, "every byte position");
    ctx.label_if(!objs.is_empty(), "with objects");
    ctx.sample(|| format!("cut, and failing with {kind:?}, at {} positions of {}", positions.len(), osmxml::show(&doc.bytes)));
    // intact: what the reader itself says, the other properties judge that
    let intact = if osc {
        all(&mut OSCReader::new(&doc.bytes[..]), objs.len() + doc.bad_objs)?
    } else {
        all(&mut XMLReader::new(&doc.bytes[..]), objs.len() + doc.bad_objs)?
    };
    let data = Rc::new(doc.bytes);
    for p in positions {
        for fail in [false, true] {
            ctx.eval();
            let s = FailingSource { data: data.clone(), pos: 0, fail_at: p, kind, chunk };
            let cap = objs.len() + 2;
            let run = match (osc, fail) {
                (false, false) => drain(&mut XMLReader::new(&data[..p]), cap)?,
                (true, false) => drain(&mut OSCReader::new(&data[..p]), cap)?,
                (false, true) => drain(&mut XMLReader::new(s), cap)?,
                (true, true) => drain(&mut OSCReader::new(s), cap)?,
            };
            let what = if fail { format!("{kind:?} error at byte {p} of {n}") } else { format!("cut at byte {p} of {n}") };
            prefix(&intact, &run, &what)?;
        }
    }
    ctx.distinct_inside = ctx.evals.saturating_sub(1);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C04",
            level: "exploration",
            rule: "distinct OSM XML documents with at least one object",
            run: c04,
            quick: 100_000,
            thorough: 2_500_000,
            exhaustive: None,
            assumptions: &["documents in UTF-8, UTF-16, ISO-8859-1 or US-ASCII that use no entities of their own", "distinct tag keys in an object", "timestamps are RFC 3339 without fractional seconds", "coordinates in the range a 32-bit value can store"],
        },
        Prop {
            id: "C05",
            level: "exploration",
            rule: "distinct osmChange documents with at least one object",
            run: c05,
            quick: 100_000,
            thorough: 2_500_000,
            exhaustive: None,
            assumptions: &["as C04; whether an object in a delete block that does not state its visibility is deleted is left open"],
        },
        Prop {
            id: "C12",
            level: "fault_enumeration",
            rule: "distinct documents times the byte position where they are cut, or the source fails: every position before the end of the root for documents up to 900 (thorough: 3000) bytes",
            run: c12,
            quick: 2_000,
            thorough: 40_000,
            exhaustive: None,
            assumptions: &["the objects of the intact document are those the reader itself delivers for it (C04 and C05 judge those)"],
        },
    ]
}
