//! C06, C07, C08, C09, C11: the PBF readers
use crate::engine::*;
use crate::io::*;
use crate::model::*;
use crate::pbf::{self, *};
use crate::{check, fail};
use osmio::stringpbf::PBFNodePositionReader;
use osmio::{arcpbf, stringpbf, OSMReader};
use std::collections::HashSet;
use std::rc::Rc;

pub fn positions(bytes: &[u8], cap: usize) -> Run<(i64, (i32, i32))> {
    let mut it = PBFNodePositionReader::from_reader(bytes).map(|(id, (a, b))| (id, (a.inner(), b.inner())));
    drain_iter(&mut it, cap)
}

fn both(bytes: &[u8], cap: usize) -> Result<(Vec<MObj>, Vec<MObj>), String> {
    let s = all(&mut stringpbf::PBFReader::new(bytes), cap).map_err(|e| format!("stringpbf: {e}"))?;
    let a = all(&mut arcpbf::PBFReader::new(bytes), cap).map_err(|e| format!("arcpbf: {e}"))?;
    Ok((s, a))
}

fn size(src: &mut Src, thorough: bool) -> (u64, usize) {
    if src.chance(1, if thorough { 50 } else { 150 }) {
        (600, 4000)
    } else {
        (6, 60)
    }
}

/// Objects and a layout for them: mostly few, rarely very many
fn file(src: &mut Src, ctx: &mut Ctx, exact: bool) -> (Vec<PObj>, Layout) {
    if src.chance(1, if ctx.thorough { 200 } else { 400 }) {
        let (objs, what) = pbf::bulk_pobjs(src, PBF, 100_000);
        ctx.label(what);
        return (objs, Layout::bulk(src, exact));
    }
    let (avg, max) = size(src, ctx.thorough);
    let objs = pbf::gen_pobjs(src, PBF, avg, max);
    if src.chance(1, if ctx.thorough { 2000 } else { 400 }) {
        return (objs, Layout::large(src, exact));
    }
    (objs, Layout::gen_for(src, exact))
}

fn decode(src: &mut Src, ctx: &mut Ctx, kinds: &[Kind]) -> Res {
    let exact = src.chance(1, 3);
    let (mut objs, l) = file(src, ctx, exact);
    // mostly the kinds this property is about
    if src.coin() {
        objs.retain(|p| kinds.contains(&p.m.kind));
    }
    let f = pbf::encode(src, &mut objs, l);
    ctx.hash(&f.bytes);
    ctx.nontrivial = objs.iter().any(|p| kinds.contains(&p.m.kind));
    pbf::label(ctx, &f);
    ctx.label_if(objs.iter().any(|p| kinds.contains(&p.m.kind) && p.m.deleted), "deleted");
    ctx.label_if(objs.iter().any(|p| kinds.contains(&p.m.kind) && p.m.version.is_none()), "no version");
    ctx.sample(|| format!("{:?}, {} bytes: {:?}", f.layout, f.bytes.len(), objs));
    let (s, a) = both(&f.bytes, objs.len())?;
    // only those kinds are judged here, but all the others must be somewhere too
    let keep = |v: Vec<MObj>| -> Vec<MObj> { v.into_iter().filter(|m| kinds.contains(&m.kind)).collect() };
    let want: Vec<PObj> = objs.iter().filter(|p| kinds.contains(&p.m.kind)).cloned().collect();
    if let Some(d) = diff_pbf(&want, &keep(s)) {
        fail!("stringpbf: {d}");
    }
    if let Some(d) = diff_pbf(&want, &keep(a)) {
        fail!("arcpbf: {d}");
    }
    Ok(())
}

fn c06(src: &mut Src, ctx: &mut Ctx) -> Res {
    decode(src, ctx, &[Kind::Node])
}
fn c07(src: &mut Src, ctx: &mut Ctx) -> Res {
    decode(src, ctx, &[Kind::Way, Kind::Relation])
}

fn c08(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (mut objs, l1) = file(src, ctx, true);
    let l2 = Layout::gen_for(src, true);
    let f1 = pbf::encode(src, &mut objs, l1);
    let f2 = pbf::encode(src, &mut objs, l2);
    ctx.hash(&f1.bytes);
    ctx.hash(&f2.bytes);
    ctx.nontrivial = !objs.is_empty() && f1.bytes != f2.bytes;
    pbf::label(ctx, &f1);
    pbf::label(ctx, &f2);
    ctx.sample(|| format!("{:?} and {:?}, objects {:?}", f1.layout, f2.layout, objs));
    let (s1, a1) = both(&f1.bytes, objs.len())?;
    let (s2, a2) = both(&f2.bytes, objs.len())?;
    if let Some(d) = diff(&s1, &a1) {
        fail!("the readers differ (arcpbf, instead of stringpbf): {d}");
    }
    if let Some(d) = diff(&s2, &a2) {
        fail!("the readers differ on the second layout (arcpbf, instead of stringpbf): {d}");
    }
    if let Some(d) = diff(&s1, &s2) {
        fail!("the layout makes a difference (second, instead of first): {d}");
    }
    // and it is the right sequence
    if let Some(d) = diff_pbf(&objs, &s1) {
        fail!("{d}");
    }
    // inexact layouts: both readers still agree
    let l3 = Layout::gen_for(src, false);
    let f3 = pbf::encode(src, &mut objs, l3);
    let (s3, a3) = both(&f3.bytes, objs.len())?;
    if let Some(d) = diff(&s3, &a3) {
        fail!("the readers differ (arcpbf, instead of stringpbf): {d}");
    }
    Ok(())
}

fn c09(src: &mut Src, ctx: &mut Ctx) -> Res {
    let exact = src.coin();
    let (mut objs, l) = file(src, ctx, exact);
    let f = pbf::encode(src, &mut objs, l);
    ctx.hash(&f.bytes);
    ctx.nontrivial = objs.iter().any(|p| p.m.kind == Kind::Node);
    pbf::label(ctx, &f);
    ctx.label_if(objs.iter().any(|p| p.m.kind != Kind::Node), "also ways or relations");
    ctx.sample(|| format!("{:?}: {:?}", f.layout, objs));
    let run = positions(&f.bytes, objs.len());
    check!(run.end == End::Done, "node positions: {:?} after {}", run.end, run.items.len());
    let full = all(&mut stringpbf::PBFReader::new(&f.bytes[..]), objs.len())?;
    let want: Vec<_> = full.iter().filter(|m| m.kind == Kind::Node).map(|m| (m.id, m.latlon.unwrap())).collect();
    for (i, (w, g)) in want.iter().zip(&run.items).enumerate() {
        check!(w == g, "node {i}: the position reader says {g:?}, the full reader {w:?}");
    }
    check!(
        want.len() == run.items.len(),
        "the position reader gives {} nodes, the full reader {}",
        run.items.len(),
        want.len()
    );
    Ok(())
}

#[derive(Debug, Clone)]
enum Damage {
    Cut(usize),
    Error(usize, std::io::ErrorKind),
    /// the blob, and what is wrong with it
    #[allow(dead_code)]
    Blob(usize, String),
    /// the blob, and how many strings its table has left
    #[allow(dead_code)]
    Strings(usize, usize),
    /// which column of dense nodes is too short
    Column(&'static str),
}

fn expect_prefix(want: &[PObj], run: Run<MObj>, max: usize, what: &str) -> Res {
    check!(run.items.len() <= max, "{what}: {} objects, but only {max} are intact", run.items.len());
    if let Some(d) = diff_pbf(&want[..run.items.len()], &run.items) {
        fail!("{what}: not a prefix of the objects: {d}");
    }
    match run.end {
        End::Panic(_) => Ok(()),
        e => Err(format!("{what}: ends with {e:?} after {} of {} objects", run.items.len(), want.len())),
    }
}

fn judge(bytes: &Rc<Vec<u8>>, d: &Damage, objs: &[PObj], intact: usize) -> Res {
    let cap = objs.len();
    macro_rules! run {
        ($src:expr) => {{
            let s = drain(&mut stringpbf::PBFReader::new($src), cap)?;
            expect_prefix(objs, s, intact, &format!("stringpbf, {d:?}"))?;
            let a = drain(&mut arcpbf::PBFReader::new($src), cap)?;
            expect_prefix(objs, a, intact, &format!("arcpbf, {d:?}"))?;
            if matches!(d, Damage::Strings(..)) || matches!(d, Damage::Column(c) if !["lat", "lon"].contains(c)) {
                // which it does not use
                return Ok(());
            }
            let mut it = PBFNodePositionReader::from_reader($src).map(|(id, (a, b))| (id, (a.inner(), b.inner())));
            let r = drain_iter(&mut it, cap);
            let want = objs[..intact].iter().filter(|p| p.m.kind == Kind::Node);
            let n = want.clone().count();
            check!(r.items.len() <= n, "positions, {d:?}: {} nodes, but only {n} are intact", r.items.len());
            for (p, g) in want.zip(&r.items) {
                let mut m = p.m.clone();
                m.id = g.0;
                m.latlon = Some(g.1);
                m.ts = p.ms.map(|ms| ms / 1000);
                if let Some(x) = pbf::matches(p, &m) {
                    fail!("positions, {d:?}: not a prefix: {x}");
                }
            }
            match r.end {
                End::Panic(_) => {}
                e => fail!("positions, {d:?}: ends with {e:?} after {} nodes", r.items.len()),
            }
        }};
    }
    match d {
        Damage::Cut(p) => run!(&bytes[..*p]),
        Damage::Error(p, kind) => {
            run!(FailingSource { data: bytes.clone(), pos: 0, fail_at: *p, kind: *kind, chunk: 1 << 20 })
        }
        Damage::Blob(..) | Damage::Strings(..) | Damage::Column(..) => run!(&bytes[..]),
    }
    Ok(())
}

/// A frame around blob fields, as plainly as possible
fn plain_frame(blob: &[u8]) -> Vec<u8> {
    let mut h = vec![0x0a, 7];
    h.extend(b"OSMData");
    h.push(0x18);
    varint(blob.len() as u64, &mut h);
    let mut out = (h.len() as u32).to_be_bytes().to_vec();
    out.extend(h);
    out.extend(blob);
    out
}

fn field(no: u64, data: &[u8], out: &mut Vec<u8>) {
    varint(no << 3 | 2, out);
    varint(data.len() as u64, out);
    out.extend(data);
}

/// The fields of a message: number, end, start of the content
fn fields(m: &[u8]) -> Option<Vec<(u64, usize, usize)>> {
    let mut out = vec![];
    let mut i = 0;
    let int = |i: &mut usize| -> Option<u64> {
        let (mut v, mut s) = (0u64, 0);
        loop {
            let b = *m.get(*i)?;
            *i += 1;
            v |= ((b & 0x7f) as u64).checked_shl(s)?;
            s += 7;
            if b < 0x80 {
                return Some(v);
            }
        }
    };
    while i < m.len() {
        let tag = int(&mut i)?;
        let mut start = i;
        match tag & 7 {
            0 => {
                int(&mut i)?;
            }
            1 => i += 8,
            2 => {
                let n = int(&mut i)? as usize;
                start = i;
                i += n;
            }
            5 => i += 4,
            _ => return None,
        }
        if i > m.len() {
            return None;
        }
        out.push((tag >> 3, i, start));
    }
    Some(out)
}

fn c11(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut objs = pbf::gen_pobjs(src, PBF, 3, 8);
    let mut l = Layout::gen_for(src, true);
    l.new_block = l.new_block.max(2);
    let f = pbf::encode(src, &mut objs, l);
    ctx.hash(&f.bytes);
    ctx.nontrivial = true;
    pbf::label(ctx, &f);
    let n = f.bytes.len();
    let lim = if ctx.thorough { 4000 } else { 900 };
    let mut damages = vec![];
    let positions: Vec<usize> = if n <= lim {
        (0..n).collect()
    } else {
        let mut v: Vec<usize> = (0..lim / 4).map(|_| src.below(n)).collect();
        for b in &f.boundaries {
            v.extend((b.saturating_sub(2)..b + 8).filter(|p| *p < n));
        }
        v
    };
    let kind = *src.pick(ERROR_KINDS);
    for p in positions {
        if !f.boundaries.contains(&p) {
            damages.push(Damage::Cut(p));
        }
        damages.push(Damage::Error(p, kind));
    }
    ctx.label_if(n <= lim, "every byte position");
    ctx.sample(|| format!("{} faults on a file of {n} bytes with {} blocks: {:?}", damages.len(), f.data.len(), objs));
    // an I/O error at the very end: all objects are delivered, but the end must not look normal
    damages.push(Damage::Error(n, kind));
    let bytes = Rc::new(f.bytes.clone());
    for d in &damages {
        ctx.eval();
        let at = match d {
            Damage::Cut(p) | Damage::Error(p, _) => *p,
            _ => unreachable!(),
        };
        let intact = f.data.iter().filter(|b| b.end <= at).map(|b| b.first + b.count).max().unwrap_or(0);
        judge(&bytes, d, &objs, intact)?;
    }
    // damaged blobs
    let mut tests: Vec<(usize, String, Vec<u8>)> = vec![];
    for (i, b) in f.data.iter().enumerate() {
        if f.data.len() > 4 && !src.chance(4, f.data.len() as u64) {
            continue;
        }
        let z = pbf::zlib(&b.block, 6);
        let mk = |no: u64, data: &[u8]| {
            let mut blob = vec![0x10];
            varint(b.block.len() as u64, &mut blob);
            field(no, data, &mut blob);
            plain_frame(&blob)
        };
        for (no, name) in [(4, "lzma_data"), (5, "bzip2_data"), (6, "lz4_data"), (7, "zstd_data")] {
            tests.push((i, format!("only {name}"), mk(no, &z)));
        }
        tests.push((i, "no data at all".into(), plain_frame(&[])));
        for k in 0..4 {
            let p = if k == 0 { z.len() - 1 } else { src.below(z.len()) };
            tests.push((i, format!("zlib data cut to {p} of {} bytes", z.len()), mk(3, &z[..p])));
        }
        let mut z2 = z.clone();
        let p = z2.len() - 1 - src.below(4);
        z2[p] ^= 1 << src.below(8);
        tests.push((i, "wrong zlib checksum".into(), mk(3, &z2)));
        // a flipped bit anywhere in the compressed data that the checksum must notice
        let mut z3 = pbf::zlib(&b.block, 0);
        if z3.len() > 13 {
            let p = 7 + src.below(z3.len() - 11);
            z3[p] ^= 1 << src.below(8);
            tests.push((i, format!("flipped bit at {p} in stored zlib data"), mk(3, &z3)));
        }
        tests.push((i, "zlib data is not zlib".into(), mk(3, b"this is not zlib data")));
    }
    // the block itself is not right, or strings are missing
    let mut short: Vec<(usize, usize, Vec<u8>)> = vec![];
    for (i, b) in f.data.iter().enumerate() {
        if f.data.len() > 4 && !src.chance(4, f.data.len() as u64) {
            continue;
        }
        let Some(fields) = fields(&b.block) else { fail!("harness: block {i} is no message") };
        let pack = |src: &mut Src, block: &[u8]| {
            let mut blob = vec![];
            if src.coin() {
                field(1, block, &mut blob);
            } else {
                blob.push(0x10);
                varint(block.len() as u64, &mut blob);
                field(3, &pbf::zlib(block, 6), &mut blob);
            }
            plain_frame(&blob)
        };
        // something no message can have, before or after the rest
        let mut odd = b.block.clone();
        let bad = *src.pick(&[0x0fu8, 0x0e, 0x17, 0x16, 0x8f]);
        if src.coin() {
            odd.push(bad);
        } else {
            odd.insert(0, bad);
            odd.insert(1, 0);
        }
        tests.push((i, format!("byte {bad:#x} next to the block"), pack(src, &odd)));
        // the strings
        let Some(st) = fields.iter().find(|x| x.0 == 1) else { continue };
        if fields.iter().filter(|x| x.0 == 1).count() != 1 {
            continue;
        }
        let inner = &b.block[st.2..st.1];
        let Some(all) = self::fields(inner) else { fail!("harness: the strings of block {i} are no message") };
        let entries: Vec<_> = all.iter().filter(|x| x.0 == 1).collect();
        // cut in the middle of one
        if let Some(x) = if entries.is_empty() { None } else { Some(src.below(entries.len())) } {
            let start = if x == 0 { 0 } else { entries[x - 1].1 };
            let end = entries[x].1;
            if entries.len() == all.len() && end - start > 1 {
                let p = st.2 + start + 1 + src.below(end - start - 1);
                tests.push((i, format!("a block cut to {p} of {} bytes, in a string", b.block.len()), pack(src, &b.block[..p])));
            }
        }
        for _ in 0..2 {
            let left = src.below(entries.len().max(1));
            let kept: HashSet<&[u8]> = entries[..left].iter().map(|x| &inner[x.2..x.1]).collect();
            let mut used = objs[b.first..b.first + b.count].iter().flat_map(|p| {
                let t = p.m.tags.iter().flat_map(|t| [&t.0, &t.1]);
                t.chain(&p.m.user).chain(p.m.members.iter().map(|m| &m.2))
            });
            if !used.any(|s| !kept.contains(s.as_bytes())) {
                continue;
            }
            let mut table = vec![];
            entries[..left].iter().for_each(|x| field(1, &inner[x.2..x.1], &mut table));
            let mut block = vec![];
            field(1, &table, &mut block);
            let mut start = 0;
            for x in &fields {
                if x.0 != 1 {
                    block.extend(&b.block[start..x.1]);
                }
                start = x.1;
            }
            short.push((i, left, pack(src, &block)));
        }
    }
    for (i, left, frame) in short {
        ctx.eval();
        ctx.label("a string table without some strings");
        let b = &f.data[i];
        let mut out = f.bytes[..b.start].to_vec();
        out.extend(frame);
        out.extend(&f.bytes[b.end..]);
        judge(&Rc::new(out), &Damage::Strings(i, left), &objs, b.first + b.count)?;
    }
    for (i, what, frame) in tests {
        ctx.eval();
        ctx.label("damaged or unsupported blobs");
        let b = &f.data[i];
        let mut out = f.bytes[..b.start].to_vec();
        out.extend(frame);
        out.extend(&f.bytes[b.end..]);
        judge(&Rc::new(out), &Damage::Blob(i, what), &objs, b.first)?;
    }
    // something that is no file block after a block
    for _ in 0..4 {
        ctx.eval();
        ctx.label("no file block after a block");
        let at = *src.pick(&f.boundaries);
        let intact = f.data.iter().filter(|b| b.end <= at).map(|b| b.first + b.count).max().unwrap_or(0);
        let mut out = f.bytes[..at].to_vec();
        let what = match src.draw(5) {
            0 => {
                let n = 1 + src.below(70);
                out.resize(at + n, 0);
                format!("{n} zeros at the end")
            }
            1 => {
                let n = 4 + src.below(70);
                out.resize(at + n, 0);
                out.extend(&f.bytes[at..]);
                format!("{n} zeros before the rest")
            }
            k => {
                let (what, h): (_, &[u8]) = match k {
                    2 => ("a header without a size", b"\x0a\x07OSMData"),
                    3 => ("a header without a type", b"\x18\x00"),
                    4 => ("a header with a negative size", b"\x0a\x07OSMData\x18\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01"),
                    _ => ("a header cut short", b"\x0a\x07OSMD"),
                };
                out.extend((h.len() as u32).to_be_bytes());
                out.extend(h);
                if src.coin() {
                    out.extend(&f.bytes[at..]);
                }
                what.to_string()
            }
        };
        judge(&Rc::new(out), &Damage::Blob(at, what), &objs, intact)?;
    }
    // dense nodes, and a column which does not have a value for each of them
    {
        ctx.eval();
        ctx.label("dense nodes with a short column");
        let at = *src.pick(&f.boundaries);
        let before = f.data.iter().filter(|b| b.end <= at).map(|b| b.first + b.count).max().unwrap_or(0);
        let (column, nodes, block) = short_column(src);
        let mut want = objs[..before].to_vec();
        want.extend(nodes);
        let mut blob = vec![];
        field(1, &block, &mut blob);
        let mut out = f.bytes[..at].to_vec();
        out.extend(plain_frame(&blob));
        out.extend(&f.bytes[at..]);
        judge(&Rc::new(out), &Damage::Column(column), &want, want.len())?;
    }
    ctx.distinct_inside = ctx.evals.saturating_sub(1);
    Ok(())
}

/// A block of dense nodes (as they should be) where a column has been cut off
fn short_column(src: &mut Src) -> (&'static str, Vec<PObj>, Vec<u8>) {
    let n = 2 + src.below(4);
    let nodes: Vec<PObj> = (0..n as i64)
        .map(|i| {
            let mut m = MObj::new(Kind::Node, 100 + i);
            m.version = Some(3);
            m.ts = Some(1000 + i);
            m.changeset = Some(50);
            m.uid = Some(9);
            m.user = Some("u".into());
            m.latlon = Some((700 + i as i32, 900));
            m.tags = vec![("k".into(), "v".into())];
            PObj::from(m, false)
        })
        .collect();
    const COLUMNS: [&str; 9] = ["lat", "lon", "lat", "version", "timestamp", "changeset", "uid", "user", "tags"];
    let column = *src.pick(&COLUMNS);
    let mut cut = |name: &str, per: usize, min: usize| {
        if name != column {
            return n * per;
        }
        let total = n * per;
        min + src.below(total - min)
    };
    let col = |no: u64, len: usize, f: &dyn Fn(usize) -> u64, out: &mut Vec<u8>| {
        let mut data = vec![];
        (0..len).for_each(|i| varint(f(i), &mut data));
        field(no, &data, out);
    };
    let first = |v: i64| move |i: usize| pbf::zigzag(if i == 0 { v } else { 0 });
    let steps = |v: i64| move |i: usize| pbf::zigzag(if i == 0 { v } else { 1 });
    let mut info = vec![];
    col(1, cut("version", 1, 1), &|_| 3, &mut info);
    col(2, cut("timestamp", 1, 1), &steps(1000), &mut info);
    col(3, cut("changeset", 1, 1), &first(50), &mut info);
    col(4, cut("uid", 1, 1), &first(9), &mut info);
    col(5, cut("user", 1, 1), &first(3), &mut info);
    let mut dense = vec![];
    col(1, n, &steps(100), &mut dense);
    field(5, &info, &mut dense);
    col(8, cut("lat", 1, 0), &steps(700), &mut dense);
    col(9, cut("lon", 1, 0), &first(900), &mut dense);
    col(10, cut("tags", 3, 1), &|i| [1, 2, 0][i % 3], &mut dense);
    let mut group = vec![];
    field(2, &dense, &mut group);
    let mut strings = vec![];
    ["", "k", "v", "u"].iter().for_each(|s| field(1, s.as_bytes(), &mut strings));
    let mut block = vec![];
    field(1, &strings, &mut block);
    field(2, &group, &mut block);
    (column, nodes, block)
}

const A: &[&str] = &[
    "ids within ±2^61, non-negative versions, uids and changesets",
    "distinct tag keys in an object, string tables of UTF-8 with \"\" at index 0",
    "in a dense group every metadata column covers all nodes or none",
    "uncompressed or zlib blobs",
];

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C06",
            level: "exploration",
            rule: "distinct PBF files with at least one node",
            run: c06,
            quick: 80_000,
            thorough: 2_500_000,
            exhaustive: None,
            assumptions: A,
        },
        Prop {
            id: "C07",
            level: "exploration",
            rule: "distinct PBF files with at least one way or relation",
            run: c07,
            quick: 80_000,
            thorough: 2_500_000,
            exhaustive: None,
            assumptions: A,
        },
        Prop {
            id: "C08",
            level: "exploration",
            rule: "distinct pairs of different PBF files with the same objects, at least one",
            run: c08,
            quick: 20_000,
            thorough: 1_000_000,
            exhaustive: None,
            assumptions: A,
        },
        Prop {
            id: "C09",
            level: "exploration",
            rule: "distinct PBF files with at least one node",
            run: c09,
            quick: 100_000,
            thorough: 2_500_000,
            exhaustive: None,
            assumptions: A,
        },
        Prop {
            id: "C11",
            level: "fault_enumeration",
            rule: "distinct PBF files times fault: cut or failing at every byte (files up to 900 bytes, thorough 4000), and per data blob the unsupported compressions and damaged zlib streams",
            run: c11,
            quick: 2_500,
            thorough: 12_000,
            exhaustive: None,
            assumptions: A,
        },
    ]
}
