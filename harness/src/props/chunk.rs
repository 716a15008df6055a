//! C13: chunking of sources and sinks
use super::chg;
use super::xmlw::{build_any, write_any, AnyObj};
use crate::engine::*;
use crate::io::*;
use crate::model::*;
use crate::pbf::{self, Layout};
use crate::{check, fail, osmxml};
use osmio::changesets::ChangesetReader;
use osmio::osc::{OSCReader, OSCWriter};
use osmio::stringpbf::PBFNodePositionReader;
use osmio::xml::{XMLReader, XMLWriter};
use osmio::{arcpbf, stringpbf, OSMReader, OSMWriter};
use std::fmt::Debug;
use std::rc::Rc;

fn same<T: PartialEq + Debug>(a: Run<T>, b: Run<T>) -> Res {
    check!(a.end == End::Done, "from a contiguous buffer: {:?}", a.end);
    for (i, (x, y)) in a.items.iter().zip(&b.items).enumerate() {
        check!(x == y, "item {i} is {y:?} instead of {x:?}");
    }
    check!(
        a.items.len() == b.items.len() && b.end == End::Done,
        "{} items instead of {}, and then {:?}",
        b.items.len(),
        a.items.len(),
        b.end
    );
    Ok(())
}

fn c13(src: &mut Src, ctx: &mut Ctx) -> Res {
    let which = src.draw(9);
    let sizes = gen_sizes(src, true);
    ctx.hash(format!("{which}{sizes:?}").as_bytes());
    ctx.label_if(sizes.contains(&0), "Interrupted");
    ctx.label_if(sizes.iter().any(|s| *s > 0 && *s < 4), "tiny pieces");
    let big = src.chance(1, 25);
    let bulk = src.chance(1, 400);
    ctx.label_if(bulk, "bulk");
    let (avg, max) = if big { (200, 600) } else { (4, 20) };
    let cap = 80_000;
    let some = |src: &mut Src| if bulk { gen_bulk(src, XML, 30_000).0 } else { gen_objs(src, XML, avg, max) };
    match which {
        0 | 1 => {
            let objs = some(src);
            let doc = if which == 0 { osmxml::osm_doc(src, &objs) } else { osmxml::osc_doc(src, &objs) };
            ctx.hash(&doc.bytes);
            ctx.nontrivial = !objs.is_empty();
            ctx.sample(|| format!("{which}, {sizes:?}: {}", osmxml::show(&doc.bytes)));
            let data = Rc::new(doc.bytes);
            let c = Chunked::new(data.clone(), sizes);
            if which == 0 {
                ctx.label("xml reader");
                let a = drain(&mut XMLReader::new(&data[..]), cap)?;
                same(a, drain(&mut XMLReader::new(c), cap)?)
            } else {
                ctx.label("osc reader");
                let a = drain(&mut OSCReader::new(&data[..]), cap)?;
                same(a, drain(&mut OSCReader::new(c), cap)?)
            }
        }
        2..=4 => {
            let (mut objs, l);
            if bulk {
                objs = pbf::bulk_pobjs(src, PBF, 70_000).0;
                l = Layout::bulk(src, false);
            } else {
                objs = pbf::gen_pobjs(src, PBF, avg, max);
                l = Layout::gen_for(src, false);
            }
            let f = pbf::encode(src, &mut objs, l);
            ctx.hash(&f.bytes);
            ctx.nontrivial = !objs.is_empty();
            ctx.sample(|| format!("{which}, {sizes:?}: {l:?} {objs:?}"));
            let data = Rc::new(f.bytes);
            let c = Chunked::new(data.clone(), sizes);
            match which {
                2 => {
                    ctx.label("stringpbf reader");
                    let a = drain(&mut stringpbf::PBFReader::new(&data[..]), cap)?;
                    same(a, drain(&mut stringpbf::PBFReader::new(c), cap)?)
                }
                3 => {
                    ctx.label("arcpbf reader");
                    let a = drain(&mut arcpbf::PBFReader::new(&data[..]), cap)?;
                    same(a, drain(&mut arcpbf::PBFReader::new(c), cap)?)
                }
                _ => {
                    ctx.label("node position reader");
                    let a = drain_iter(&mut PBFNodePositionReader::from_reader(&data[..]), cap);
                    same(a, drain_iter(&mut PBFNodePositionReader::from_reader(c), cap))
                }
            }
        }
        5 | 6 => {
            let cs = if bulk { chg::gen_bulk(src, 20_000).0 } else { chg::gen_changesets(src, avg, max) };
            let doc = chg::doc(src, &cs);
            ctx.hash(&doc.bytes);
            ctx.nontrivial = !cs.is_empty();
            ctx.sample(|| format!("{which}, {sizes:?}: {}", osmxml::show(&doc.bytes)));
            let bz = src.chance(1, 3);
            ctx.label_if(bz, "bzip2");
            let comp = Rc::new(if bz { chg::bz2(src, &doc.bytes) } else { vec![] });
            let data = Rc::new(doc.bytes);
            if which == 5 {
                ctx.label("changeset reader");
                let a = drain_res(&mut chg::items(ChangesetReader::new(&data[..])), cap);
                let b = if bz {
                    drain_res(&mut chg::items(ChangesetReader::from_bz2_reader(Chunked::new(comp, sizes))), cap)
                } else {
                    drain_res(&mut chg::items(ChangesetReader::new(Chunked::new(data.clone(), sizes))), cap)
                };
                same(a, b)
            } else {
                ctx.label("changeset tag reader");
                let a = drain_res(&mut crate::hooks::changeset_tag_reader(&data[..]), cap);
                let b = if bz {
                    let d = bzip2::read::MultiBzDecoder::new(Chunked::new(comp, sizes));
                    drain_res(&mut crate::hooks::changeset_tag_reader(d), cap)
                } else {
                    drain_res(&mut crate::hooks::changeset_tag_reader(Chunked::new(data.clone(), sizes)), cap)
                };
                same(a, b)
            }
        }
        _ => {
            let objs = some(src);
            let built: Vec<AnyObj> = objs.iter().map(|m| build_any(src, m)).collect();
            let hs = if which == 9 && src.coin() { vec![("license", "a & b")] } else { vec![] };
            let xml = which != 7;
            ctx.hash(&digest(&objs));
            ctx.nontrivial = !objs.is_empty();
            ctx.label(if xml { "xml writer" } else { "osc writer" });
            ctx.sample(|| format!("{which}, {sizes:?}: {objs:?}"));
            let plain = Shared::default();
            let short = Shared::default();
            let sink = ShortSink { to: short.clone(), sizes, at: 0 };
            fn go<W: std::io::Write, Wr: OSMWriter<W>>(mut w: Wr, os: &[AnyObj], hs: &[(&str, &str)]) -> Result<(), String> {
                for h in hs {
                    w.set_header(*h).map_err(|e| e.to_string())?;
                }
                for o in os {
                    write_any(&mut w, o).map_err(|e| e.to_string())?;
                }
                w.close().map_err(|e| e.to_string())
            }
            if xml {
                go(XMLWriter::new(plain.clone()), &built, &hs)?;
                go(XMLWriter::new(sink), &built, &hs)?;
            } else {
                go(OSCWriter::new(plain.clone()), &built, &hs)?;
                go(OSCWriter::new(sink), &built, &hs)?;
            }
            if plain.bytes() != short.bytes() {
                fail!("the bytes differ:\n{}\n{}", osmxml::show(&plain.bytes()), osmxml::show(&short.bytes()));
            }
            Ok(())
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C13",
        level: "exploration",
        rule: "distinct (input, pattern of piece sizes and interruptions) with at least one item",
        run: c13,
        quick: 90_000,
        thorough: 3_000_000,
        exhaustive: None,
        assumptions: &["valid inputs as for C01 to C07 and C14"],
    }]
}
