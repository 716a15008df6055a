//! C29: from one format to another
use crate::engine::*;
use crate::io::*;
use crate::model::*;
use crate::pbf::{self, Layout};
use crate::{check, fail, osmxml, xmlp};
use osmio::obj_types::{ArcOSMObj, StringOSMObj};
use osmio::osc::{OSCReader, OSCWriter};
use osmio::xml::{XMLReader, XMLWriter};
use osmio::{OSMObj, OSMReader, OSMWriter, arcpbf, stringpbf};

/// With the copy operation of the writers; the document
fn copy<O: OSMObj>(it: impl Iterator<Item = O>, osc: bool) -> Result<Vec<u8>, String> {
    let sink = Shared::default();
    let bytes;
    if osc {
        let w = catch(|| OSCWriter::from_iter(sink.clone(), it))?;
        check!(!OSMWriter::is_open(&w), "the writer is still open");
        bytes = sink.bytes();
    } else {
        let w = catch(|| XMLWriter::from_iter(sink.clone(), it))?;
        check!(!OSMWriter::is_open(&w), "the writer is still open");
        // dropping a closed XMLWriter writes too much, a known finding of C17
        bytes = sink.bytes();
    }
    Ok(bytes)
}

/// What a document has, according to the readers and to an independent one
fn back(bytes: &[u8], osc: bool, cap: usize) -> Result<Vec<MObj>, String> {
    let doc = xmlp::parse(bytes)?;
    check!(doc.tail_ok, "something follows the root element: {:?}", osmxml::show(&bytes[doc.root_end..]));
    let (a, b);
    if osc {
        a = osmxml::read_osc(&doc.root)?;
        b = all(&mut OSCReader::new(bytes), cap)?;
    } else {
        a = osmxml::read_osm(&doc.root)?.0;
        b = all(&mut XMLReader::new(bytes), cap)?;
    }
    if let Some(d) = diff(&a, &b) {
        fail!("read back with osmio instead of an independent parser: {d}");
    }
    Ok(a)
}

fn c29(src: &mut Src, ctx: &mut Ctx) -> Res {
    let which = src.draw(5);
    let bulk = src.chance(1, 400);
    let (avg, max) = if src.chance(1, 60) { (300, 900) } else { (5, 30) };
    let cap = 80_000;
    if which < 4 {
        let (mut objs, l);
        if bulk {
            let (o, what) = pbf::bulk_pobjs(src, PBF_XML, 30_000);
            ctx.label(what);
            objs = o;
            l = Layout::bulk(src, false);
        } else {
            objs = pbf::gen_pobjs(src, PBF_XML, avg, max);
            l = Layout::gen_for(src, false);
        }
        let f = pbf::encode(src, &mut objs, l);
        pbf::label(ctx, &f);
        ctx.hash(&f.bytes);
        ctx.hash(&[which as u8]);
        ctx.nontrivial = !objs.is_empty();
        ctx.sample(|| format!("{which}: {l:?} {objs:?}"));
        let mut cs = 0;
        for osc in [false, true] {
            ctx.eval();
            let to = if osc { "osmChange" } else { "OSM XML" };
            let (what, bytes) = match which {
                0 => ("stringpbf", copy(stringpbf::PBFReader::new(&f.bytes[..]).objects(), osc)),
                1 => ("arcpbf", copy(arcpbf::PBFReader::new(&f.bytes[..]).objects(), osc)),
                2 => ("arcpbf, as String objects,", copy(arcpbf::PBFReader::new(&f.bytes[..]).objects().map(StringOSMObj::from), osc)),
                _ => {
                    // collected before, and only then written
                    let v: Vec<ArcOSMObj> = catch(|| arcpbf::PBFReader::new(&f.bytes[..]).objects().collect())?;
                    ("arcpbf, collected,", copy(v.into_iter(), osc))
                }
            };
            ctx.label(what);
            let bytes = bytes.map_err(|e| format!("{what} to {to}: {e}"))?;
            let got = back(&bytes, osc, cap).map_err(|e| format!("{what} to {to}: {e}"))?;
            if let Some(d) = pbf::diff_pbf(&objs, &got) {
                fail!("{what} to {to}: {d}");
            }
            cs += got.len();
        }
        ctx.label_if(cs > 400, "over 200 objects");
        return Ok(());
    }
    let objs = if bulk { gen_bulk(src, XML, 30_000).0 } else { gen_objs(src, XML, avg, max) };
    ctx.nontrivial = !objs.is_empty();
    ctx.hash(&[which as u8]);
    let bytes = if which == 4 {
        ctx.label("OSM XML to osmChange");
        let doc = osmxml::osm_doc(src, &objs);
        ctx.hash(&doc.bytes);
        ctx.sample(|| format!("to osmChange: {}", osmxml::show(&doc.bytes)));
        let bytes = copy(XMLReader::new(&doc.bytes[..]).objects(), true)?;
        let got = back(&bytes, true, cap)?;
        if let Some(d) = diff(&objs, &got) {
            fail!("OSM XML to osmChange: {d}");
        }
        // and back again
        copy(OSCReader::new(&bytes[..]).objects(), false)?
    } else {
        ctx.label("osmChange to OSM XML");
        let doc = osmxml::osc_doc(src, &objs);
        ctx.hash(&doc.bytes);
        ctx.sample(|| format!("to OSM XML: {}", osmxml::show(&doc.bytes)));
        let bytes = copy(OSCReader::new(&doc.bytes[..]).objects(), false)?;
        let got = back(&bytes, false, cap)?;
        if let Some(d) = diff(&doc.settle(&objs, &got), &got) {
            fail!("osmChange to OSM XML: {d}");
        }
        return Ok(());
    };
    let got = back(&bytes, false, cap)?;
    match diff(&objs, &got) {
        None => Ok(()),
        Some(d) => Err(format!("OSM XML to osmChange to OSM XML: {d}")),
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C29",
        level: "exploration",
        rule: "distinct (source file with at least one object, way of copying it)",
        run: c29,
        quick: 45_000,
        thorough: 2_000_000,
        exhaustive: None,
        assumptions: &["as C01, C02, C04, C05 and C06", "positions and times which OSM XML cannot state exactly may differ by less than one unit"],
    }]
}
