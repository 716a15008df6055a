//! C31: readers and writers stream
use super::chg::{self, MChg, Scratch};
use super::xmlw::{build_any, write_any};
use crate::engine::*;
use crate::io::*;
use crate::model::*;
use crate::osmxml::{self, Noise, XmlDoc};
use crate::pbf::{self, Layout, PObj, PbfFile};
use crate::{check, fail, mem};
use osmio::changesets::{ChangesetReader, ChangesetTagReader};
use osmio::osc::{OSCReader, OSCWriter};
use osmio::stringpbf::PBFNodePositionReader;
use osmio::xml::{self, XMLReader, XMLWriter};
use osmio::{OSMReader, OSMWriter, arcpbf, stringpbf};
use std::cell::Cell;
use std::fs::File;
use std::io::{self, Read, Seek, Write};
use std::path::Path;
use std::rc::Rc;

/// How far ahead of what it has delivered a reader can be, and how far behind a writer
const SLACK: usize = 256 << 10;
/// How much more memory can be in use later on, besides what depends on the size of one object
const MEM: i64 = 96 << 10;

/// Says how far it was read
struct Source {
    data: Rc<Vec<u8>>,
    pos: Rc<Cell<usize>>,
    chunk: usize,
    token: u64,
}
impl Source {
    fn new(src: &mut Src, data: &Rc<Vec<u8>>) -> Source {
        Source {
            data: data.clone(),
            pos: Rc::default(),
            chunk: *src.pick(&[usize::MAX, usize::MAX, 100_000, 1000, 7]),
            token: src.draw(u64::MAX),
        }
    }
}
impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let p = self.pos.get();
        let n = buf.len().min(self.data.len() - p).min(self.chunk);
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos.set(p + n);
        Ok(n)
    }
}

/// Counts what it is given
#[derive(Clone, Default)]
struct Count(Rc<Cell<usize>>);
impl Write for Count {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.set(self.0.get() + b.len());
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

// ---------------------------------------------------------------- PBF

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Next,
    Objects,
    Only(Kind),
}
const MODES: [Mode; 5] = [Mode::Next, Mode::Objects, Mode::Only(Kind::Node), Mode::Only(Kind::Way), Mode::Only(Kind::Relation)];

/// Calls `f` after each of the first `k` objects; how many there were
fn take<Rd: OSMReader>(r: &mut Rd, mode: Mode, k: usize, f: &mut dyn FnMut(usize) -> Res) -> Result<usize, String> {
    let mut next: Box<dyn FnMut() -> bool> = match mode {
        Mode::Next => Box::new(move || r.next().is_some()),
        Mode::Objects => {
            let mut it = r.objects();
            Box::new(move || it.next().is_some())
        }
        Mode::Only(Kind::Node) => {
            let mut it = r.nodes();
            Box::new(move || it.next().is_some())
        }
        Mode::Only(Kind::Way) => {
            let mut it = r.ways();
            Box::new(move || it.next().is_some())
        }
        Mode::Only(Kind::Relation) => {
            let mut it = r.relations();
            Box::new(move || it.next().is_some())
        }
    };
    for j in 0..k {
        match catch(&mut next) {
            Err(p) => return Err(format!("panics after {j} objects: {p}")),
            Ok(false) => return Ok(j),
            Ok(true) => f(j)?,
        }
    }
    Ok(k)
}

fn blob_of(f: &PbfFile, i: usize) -> &pbf::DataBlob {
    f.data.iter().find(|d| d.first <= i && i < d.first + d.count).unwrap()
}

/// Take `k` objects, give the source back, and go on with a new reader
fn pbf_pos<Rd: OSMReader<R = Source>>(src: &mut Src, f: &PbfFile, data: &Rc<Vec<u8>>, idx: &[usize], mode: Mode, k: usize, n: usize) -> Res {
    let intact = all(&mut Rd::new(Source::new(src, data)), n)?;
    check!(intact.len() == n, "{} objects instead of {n}", intact.len());
    let s = Source::new(src, data);
    let (pos, token) = (s.pos.clone(), s.token);
    let mut r = Rd::new(s);
    let got = take(&mut r, mode, k, &mut |j| {
        let b = blob_of(f, idx[j]);
        check!(
            pos.get() == b.end,
            "{mode:?}: after object {} it has read {} bytes, the block with that object is {}..{}",
            idx[j],
            pos.get(),
            b.start,
            b.end
        );
        Ok(())
    })?;
    check!(got == k.min(idx.len()), "{mode:?}: {got} of {} objects", idx.len());
    let at = pos.get();
    let i = r.inner();
    check!(i.token == token && i.pos.get() == at, "inner() is not the source");
    let s = r.into_inner();
    check!(s.token == token && s.pos.get() == at, "into_inner() does not give the source, or reads from it");
    let rest = if k > idx.len() {
        check!(at == data.len(), "{mode:?}: at the end it has read {at} of {} bytes", data.len());
        n
    } else if k == 0 {
        check!(at == 0 || f.boundaries.contains(&at), "a new reader has read {at} bytes, which is inside a block");
        0
    } else {
        let b = blob_of(f, idx[k - 1]);
        b.first + b.count
    };
    let more = all(&mut Rd::new(s), n)?;
    match diff(&intact[rest..], &more) {
        None => Ok(()),
        Some(d) => Err(format!("{mode:?}: a new reader on the source after {k} objects, which should go on with object {rest}: {d}")),
    }
}

fn pbf_file_pos<Rd: OSMReader<R = io::BufReader<File>>>(r: Result<Rd, String>, f: &PbfFile, idx: &[usize], mode: Mode, k: usize, n: usize) -> Res {
    let mut r = r?;
    let got = take(&mut r, mode, k, &mut |_| Ok(()))?;
    check!(got == k.min(idx.len()), "{mode:?}: {got} of {} objects", idx.len());
    let mut file: &File = r.inner().get_ref();
    let at = file.stream_position().map_err(|e| e.to_string())? as usize;
    let (end, rest) = match k {
        0 => (0, 0),
        _ if k > idx.len() => (f.bytes.len(), n),
        _ => {
            let b = blob_of(f, idx[k - 1]);
            (b.end, b.first + b.count)
        }
    };
    check!(at <= end + SLACK, "{mode:?}: it has read {at} bytes of the file, after {k} objects, the last of which ends at {end}");
    let want = all(&mut Rd::new(r.into_inner()), n)?;
    let intact = all(&mut stringpbf::PBFReader::new(&f.bytes[..]), n)?;
    match diff(&intact[rest..], &want) {
        None => Ok(()),
        Some(d) => Err(format!("{mode:?}: a new reader on the source after {k} objects, which should go on with object {rest}: {d}")),
    }
}


fn pbf_positions(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (avg, max) = if src.chance(1, 20) { (300, 900) } else { (8, 60) };
    let mut objs = pbf::gen_pobjs(src, PBF, avg, max);
    let l = if src.chance(1, 100) { Layout::large(src, true) } else { Layout::gen_for(src, true) };
    let f = pbf::encode(src, &mut objs, l);
    let n = objs.len();
    ctx.hash(&f.bytes);
    pbf::label(ctx, &f);
    let mode = *src.pick(&MODES);
    let idx: Vec<usize> = match mode {
        Mode::Only(k) => (0..n).filter(|i| objs[*i].m.kind == k).collect(),
        _ => (0..n).collect(),
    };
    // the places right at the end of a block are special
    let k = match src.draw(3) {
        0 if !f.data.is_empty() => {
            let b = src.pick(&f.data).first;
            idx.iter().filter(|i| **i < b).count()
        }
        1 => idx.len() + 1,
        _ => src.below(idx.len() + 1),
    };
    ctx.hash(format!("{k} {mode:?}").as_bytes());
    ctx.nontrivial = f.data.iter().filter(|d| d.count > 0).count() > 1;
    ctx.label("PBF");
    ctx.label_if(matches!(mode, Mode::Only(_)), "objects of one type");
    ctx.label_if(k > idx.len(), "to the end");
    ctx.label_if(k == 0, "nothing read");
    ctx.sample(|| format!("{mode:?}, {k} of {} objects, blocks {:?}", idx.len(), f.data.iter().map(|d| (d.start, d.end, d.count)).collect::<Vec<_>>()));
    let data = Rc::new(f.bytes.clone());
    ctx.eval();
    pbf_pos::<stringpbf::PBFReader<Source>>(src, &f, &data, &idx, mode, k, n).map_err(|e| format!("stringpbf: {e}"))?;
    ctx.eval();
    pbf_pos::<arcpbf::PBFReader<Source>>(src, &f, &data, &idx, mode, k, n).map_err(|e| format!("arcpbf: {e}"))?;
    // the reader of positions
    let nodes: Vec<usize> = (0..n).filter(|i| objs[*i].m.kind == Kind::Node).collect();
    let s = Source::new(src, &data);
    let pos = s.pos.clone();
    let mut r = PBFNodePositionReader::from_reader(s);
    for (j, i) in nodes.iter().enumerate() {
        match catch(|| r.next().is_some()) {
            Ok(true) => {}
            x => fail!("PBFNodePositionReader: {x:?} after {j} of {} nodes", nodes.len()),
        }
        let b = blob_of(&f, *i);
        check!(
            pos.get() == b.end,
            "PBFNodePositionReader: after object {i} it has read {} bytes, the block with that object is {}..{}",
            pos.get(),
            b.start,
            b.end
        );
    }
    if src.chance(1, 4) {
        ctx.label("file");
        let dir = Scratch::new("c31");
        let path = dir.0.join("a.osm.pbf");
        std::fs::write(&path, &f.bytes).unwrap();
        match src.draw(2) {
            0 => pbf_file_pos(osmio::read_pbf(&path).map_err(|e| e.to_string()), &f, &idx, mode, k, n),
            1 => pbf_file_pos(stringpbf::PBFReader::from_filename(&path).map_err(|e| e.to_string()), &f, &idx, mode, k, n),
            _ => pbf_file_pos(arcpbf::PBFReader::from_filename(&path).map_err(|e| e.to_string()), &f, &idx, mode, k, n),
        }
        .map_err(|e| format!("from_filename: {e}"))?;
    }
    Ok(())
}

/// Many small blocks of about the same size
fn pbf_memory(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = 20_000 + src.below(20_000);
    let objs = many_objs(src, PBF, n);
    let visible = src.coin();
    let mut pobjs: Vec<PObj> = objs.into_iter().map(|m| PObj::from(m, visible)).collect();
    let mut l = Layout::bulk(src, true);
    l.block_limit = *src.pick(&[100, 500, 1000]);
    l.odd_blobs = false;
    let f = pbf::encode(src, &mut pobjs, l);
    ctx.hash(&f.bytes);
    ctx.nontrivial = true;
    ctx.label("PBF, memory");
    ctx.sample(|| format!("{:?}, {} blocks, {} bytes", f.layout, f.data.len(), f.bytes.len()));
    let large = f.data.iter().map(|d| d.count * 300 + d.block.len() * 4).max().unwrap() as i64;
    // measured right after the last object of a block
    let at = |part: usize| f.data[f.data.len() * part / 8].first - 1;
    let (a, b) = (at(2), at(7));
    let data = Rc::new(f.bytes.clone());
    for what in ["stringpbf", "arcpbf", "PBFNodePositionReader"] {
        ctx.eval();
        let s = Source { data: data.clone(), pos: Rc::default(), chunk: usize::MAX, token: 0 };
        let mut live = [0i64; 2];
        let mut seen = |j: usize| {
            if j == a {
                live[0] = mem::live();
            } else if j == b {
                live[1] = mem::live();
            }
            Ok(())
        };
        match what {
            "stringpbf" => {
                take(&mut stringpbf::PBFReader::new(s), Mode::Next, n, &mut seen)?;
            }
            "arcpbf" => {
                take(&mut arcpbf::PBFReader::new(s), Mode::Next, n, &mut seen)?;
            }
            _ => {
                // of the nodes, those up to these objects
                let count = |i: usize| pobjs[..=i].iter().filter(|p| p.m.kind == Kind::Node).count();
                let (a, b) = (count(a), count(b));
                let mut r = PBFNodePositionReader::from_reader(s);
                live[0] = mem::live();
                for j in 1..=b {
                    check!(catch(|| r.next().is_some()) == Ok(true), "PBFNodePositionReader: ends or fails after {} nodes", j - 1);
                    if j == a {
                        live[0] = mem::live();
                    }
                }
                live[1] = mem::live();
            }
        }
        let grown = live[1] - live[0];
        check!(
            grown <= MEM + large,
            "{what}: {grown} more bytes of memory in use after object {b} than after object {a} (of {n}, in {} blocks of up to {} bytes)",
            f.data.len(),
            f.data.iter().map(|d| d.block.len()).max().unwrap()
        );
    }
    Ok(())
}

// ---------------------------------------------------------------- XML

/// `n` objects, copies of a few but each with an id and a tag of its own
fn many_objs(src: &mut Src, o: GenOpts, n: usize) -> Vec<MObj> {
    let mut few: Vec<MObj> = (0..1 + src.below(5)).map(|_| gen_obj(src, o)).collect();
    for m in &mut few {
        m.tags.truncate(4);
        m.nodes.truncate(20);
        m.members.truncate(10);
        let short = |s: &mut String| *s = s.chars().take(40).collect();
        m.tags.retain(|t| t.0.len() <= 60 && t.0 != "n");
        m.tags.iter_mut().for_each(|t| short(&mut t.1));
        m.members.iter_mut().for_each(|t| short(&mut t.2));
        m.user.iter_mut().for_each(short);
    }
    let vlen = *src.pick(&[0, 3, 30, 200]);
    let users = src.coin();
    let mut r = Rng(src.draw(u64::MAX));
    (0..n)
        .map(|i| {
            let mut m = few[i % few.len()].clone();
            m.id = i as i64 + 1;
            let v: String = (0..vlen).map(|_| (b'a' + (r.next() % 26) as u8) as char).collect();
            m.tags.push(("n".to_string(), format!("{i} {v}")));
            if users && m.user.is_some() {
                m.user = Some(format!("user {i}"));
            }
            m
        })
        .collect()
}

/// As many objects as make a document of about `size` bytes
fn xml_objs(src: &mut Src, size: usize) -> Vec<MObj> {
    let try_objs = many_objs(src, XML, 20);
    let mut one = Src::replay(vec![]);
    let bytes = osmxml::osm_doc_with(&mut one, &try_objs, Noise::default()).bytes.len();
    let n = (size * 20 / bytes).clamp(40, 20_000);
    let mut out: Vec<MObj> = vec![];
    let mut i = 0;
    while out.len() < n {
        let mut m = try_objs[i % 20].clone();
        i += 1;
        m.id = i as i64;
        m.tags.last_mut().unwrap().1.push_str(&format!(" {i}"));
        out.push(m);
    }
    out
}

/// The reader is never far ahead, and memory in use stays the same
struct Watch<'a> {
    /// per item: where it ends
    ends: &'a [usize],
    live: [i64; 2],
}
impl<'a> Watch<'a> {
    fn new(ends: &'a [usize]) -> Self {
        Watch { ends, live: [0; 2] }
    }
    fn seen(&mut self, j: usize, pos: Option<usize>) -> Res {
        let n = self.ends.len();
        if let Some(p) = pos {
            check!(
                p <= self.ends[j] + SLACK,
                "it has read {p} bytes when it delivers item {j} of {n}, which ends at byte {}",
                self.ends[j]
            );
        }
        if j == n / 4 {
            self.live[0] = mem::live();
        } else if j == n * 7 / 8 {
            self.live[1] = mem::live();
        }
        Ok(())
    }
    fn done(&self, count: usize, largest: usize) -> Res {
        let n = self.ends.len();
        check!(count == n, "{count} of {n} items");
        let grown = self.live[1] - self.live[0];
        check!(
            grown <= MEM + 60 * largest as i64,
            "{grown} more bytes of memory in use after item {} than after item {} (each has at most {largest} bytes)",
            n * 7 / 8,
            n / 4
        );
        Ok(())
    }
}

fn largest(ends: &[usize]) -> usize {
    ends.windows(2).map(|w| w[1] - w[0]).max().unwrap_or(0)
}

fn xml_stream<Rd: OSMReader<R = Source>>(src: &mut Src, doc: &XmlDoc) -> Res {
    let data = Rc::new(doc.bytes.clone());
    let mut s = Source::new(src, &data);
    s.chunk = s.chunk.max(1000);
    let (pos, token) = (s.pos.clone(), s.token);
    let mode = MODES[src.below(2)];
    let n = doc.ends.len();
    let stop = if src.coin() { n } else { src.below(n + 1) };
    let mut w = Watch::new(&doc.ends);
    let mut r = Rd::new(s);
    check!(pos.get() <= SLACK, "a new reader has already read {} bytes", pos.get());
    let got = take(&mut r, mode, stop, &mut |j| w.seen(j, Some(pos.get())))?;
    if stop == n {
        w.done(got, largest(&doc.ends))?;
    }
    check!(got == stop, "{got} of {n} objects");
    let s = r.into_inner();
    check!(s.token == token, "into_inner() does not give the source");
    check!(stop == 0 || s.pos.get() <= doc.ends[stop - 1] + SLACK, "into_inner() reads from the source");
    Ok(())
}

/// Where the file with this path is read at, if it is open once
fn file_pos(path: &Path) -> Option<usize> {
    let mut found = None;
    for e in std::fs::read_dir("/proc/self/fd").ok()?.flatten() {
        if std::fs::read_link(e.path()).is_ok_and(|p| p == path) {
            if found.is_some() {
                return None;
            }
            let info = std::fs::read_to_string(Path::new("/proc/self/fdinfo").join(e.file_name())).ok()?;
            found = info.lines().find_map(|l| l.strip_prefix("pos:")?.trim().parse().ok());
        }
    }
    found
}

/// Compressed, in streams which end where items do; for each item, where its stream ends
fn compress(src: &mut Src, data: &[u8], ends: &[usize]) -> (Vec<u8>, Vec<usize>) {
    let per = 1 + src.below(150_000);
    let mut out = vec![];
    let mut where_ = vec![];
    let mut at = 0;
    for (i, &e) in ends.iter().enumerate() {
        let last = i + 1 == ends.len();
        if e - at >= per || last {
            let to = if last { data.len() } else { e };
            let mut z = bzip2::write::BzEncoder::new(vec![], bzip2::Compression::new(1));
            z.write_all(&data[at..to]).unwrap();
            out.extend(z.finish().unwrap());
            at = to;
            where_.resize(i + 1, out.len());
        }
    }
    (out, where_)
}

fn xml_file(src: &mut Src, ctx: &mut Ctx, doc: &XmlDoc) -> Res {
    let dir = Scratch::new("c31");
    let dir = dir.0.canonicalize().map_err(|e| e.to_string()).map(|p| (dir, p))?;
    let plain = src.coin();
    let path = dir.1.join("a.osm");
    let (bytes, ends) = if plain { (doc.bytes.clone(), doc.ends.clone()) } else { compress(src, &doc.bytes, &doc.ends) };
    std::fs::write(&path, &bytes).unwrap();
    ctx.label(if plain { "XML file" } else { "XML file, bzip2" });
    let n = ends.len();
    let mut w = Watch::new(&ends);
    let mut known = false;
    let every = 1 + n / 50;
    let mut seen = |j: usize| {
        let p = if j % every == 0 { file_pos(&path) } else { None };
        known |= p.is_some();
        w.seen(j, p)
    };
    let got = if plain {
        take(&mut xml::from_filename_uncompressed(&path).map_err(|e| e.to_string())?, Mode::Next, n, &mut seen)?
    } else if src.coin() {
        take(&mut xml::from_filename_bz2(&path).map_err(|e| e.to_string())?, Mode::Next, n, &mut seen)?
    } else {
        take(&mut osmio::read_xml(&path).map_err(|e| e.to_string())?, Mode::Next, n, &mut seen)?
    };
    ctx.label_if(known, "position of the file");
    w.done(got, largest(&doc.ends))
}

fn xml_streams(src: &mut Src, ctx: &mut Ctx) -> Res {
    let size = 700_000 + src.below(600_000);
    let osc = src.chance(1, 3);
    let objs = xml_objs(src, size);
    let doc = if osc { osmxml::osc_doc(src, &objs) } else { osmxml::osm_doc(src, &objs) };
    ctx.hash(&doc.bytes);
    ctx.nontrivial = doc.bytes.len() > 2 * SLACK;
    ctx.label(if osc { "OSC" } else { "XML" });
    ctx.sample(|| format!("{} objects in {} bytes: {}", objs.len(), doc.bytes.len(), osmxml::show(&doc.bytes[..doc.bytes.len().min(1500)])));
    if osc {
        xml_stream::<OSCReader<Source>>(src, &doc).map_err(|e| format!("OSCReader: {e}"))
    } else if src.chance(1, 3) {
        xml_file(src, ctx, &doc).map_err(|e| format!("XMLReader of a file: {e}"))
    } else {
        xml_stream::<XMLReader<Source>>(src, &doc).map_err(|e| format!("XMLReader: {e}"))
    }
}

// ---------------------------------------------------------------- changesets

fn changesets(src: &mut Src, ctx: &mut Ctx) -> Res {
    let few = chg::gen_changesets(src, 4, 8);
    let n = 1500 + src.below(3000);
    let mut r = Rng(src.draw(u64::MAX));
    let cs: Vec<MChg> = (0..n)
        .map(|i| {
            let mut c = match few.len() {
                0 => MChg {
                    id: 0,
                    created: 1_500_000_000,
                    closed: None,
                    open: true,
                    uid: None,
                    user: None,
                    num_changes: 0,
                    comments_count: 0,
                    tags: vec![],
                },
                k => few[i % k].clone(),
            };
            c.id = i as u32 + 1;
            c.tags.truncate(5);
            c.tags.retain(|t| t.0 != "comment" && t.0.len() + t.1.len() < 200);
            let v: String = (0..150).map(|_| (b'a' + (r.next() % 26) as u8) as char).collect();
            c.tags.push(("comment".into(), format!("{i} {v}")));
            c.user.iter_mut().for_each(|u| *u = format!("user {i}"));
            c
        })
        .collect();
    let d = chg::doc(src, &cs);
    ctx.hash(&d.bytes);
    ctx.nontrivial = d.bytes.len() > 2 * SLACK;
    ctx.sample(|| format!("{n} changesets in {} bytes: {}", d.bytes.len(), osmxml::show(&d.bytes[..d.bytes.len().min(1500)])));
    let ends: Vec<usize> = d.spans.iter().map(|s| s.1).collect();
    let big = largest(&ends);
    match src.draw(3) {
        0 | 1 => {
            ctx.label("changesets");
            let data = Rc::new(d.bytes);
            let mut s = Source::new(src, &data);
            s.chunk = s.chunk.max(1000);
            let (pos, token) = (s.pos.clone(), s.token);
            let mut r = ChangesetReader::new(s);
            check!(pos.get() <= SLACK, "a new ChangesetReader has already read {} bytes", pos.get());
            let stop = if src.coin() { n } else { src.below(n + 1) };
            let mut w = Watch::new(&ends);
            for j in 0..stop {
                match catch(|| matches!(r.next(), Some(Ok(_)))) {
                    Ok(true) => w.seen(j, Some(pos.get())).map_err(|e| format!("ChangesetReader: {e}"))?,
                    x => fail!("ChangesetReader: {x:?} after {j} of {n}"),
                }
            }
            if stop == n {
                w.done(n, big).map_err(|e| format!("ChangesetReader: {e}"))?;
            }
            let at = pos.get();
            check!(r.get_ref().token == token && r.get_ref().pos.get() == at, "get_ref() is not the source");
            let s = r.into_inner();
            check!(s.token == token && s.pos.get() == at, "into_inner() does not give the source, or reads from it");
            Ok(())
        }
        2 => {
            ctx.label("changesets, bzip2");
            let (comp, cends) = compress(src, &d.bytes, &ends);
            let data = Rc::new(comp);
            let mut s = Source::new(src, &data);
            s.chunk = s.chunk.max(1000);
            let (pos, token) = (s.pos.clone(), s.token);
            let mut r = ChangesetReader::from_bz2_reader(s);
            let mut w = Watch::new(&cends);
            for j in 0..n {
                match catch(|| matches!(r.next(), Some(Ok(_)))) {
                    Ok(true) => w.seen(j, Some(pos.get())).map_err(|e| format!("from_bz2_reader: {e}"))?,
                    x => fail!("from_bz2_reader: {x:?} after {j} of {n}"),
                }
            }
            w.done(n, big).map_err(|e| format!("from_bz2_reader: {e}"))?;
            check!(r.get_ref().get_ref().token == token, "get_ref() is not the source");
            check!(r.into_inner().into_inner().token == token, "into_inner() does not give the source");
            Ok(())
        }
        _ => {
            let (comp, cends) = compress(src, &d.bytes, &ends);
            let dir = Scratch::new("c31");
            let path = dir.0.canonicalize().unwrap().join("changesets.osm.bz2");
            std::fs::write(&path, &comp).unwrap();
            let tags = src.coin();
            ctx.label(if tags { "changeset tags of a file" } else { "changesets of a file" });
            let open = path.to_str().unwrap();
            let mut next: Box<dyn FnMut() -> bool> = if tags {
                let mut r = ChangesetTagReader::from_filename(open).map_err(|e| e.to_string())?;
                Box::new(move || matches!(r.next(), Some(Ok(_))))
            } else {
                let mut r = ChangesetReader::from_filename(open).map_err(|e| e.to_string())?;
                Box::new(move || matches!(r.next(), Some(Ok(_))))
            };
            let mut w = Watch::new(&cends);
            let mut known = false;
            for j in 0..n {
                check!(catch(&mut next) == Ok(true), "from_filename: ends or fails after {j} of {n}");
                let p = if j % (1 + n / 50) == 0 { file_pos(&path) } else { None };
                known |= p.is_some();
                w.seen(j, p).map_err(|e| format!("from_filename: {e}"))?;
            }
            ctx.label_if(known, "position of the file");
            w.done(n, big).map_err(|e| format!("from_filename: {e}"))
        }
    }
}

// ---------------------------------------------------------------- writers

fn write_all<Wr: OSMWriter<Count>>(objs: &[crate::props::xmlw::AnyObj], seen: &mut dyn FnMut(usize, usize)) -> Result<usize, String> {
    let sink = Count::default();
    let mut w = Wr::new(sink.clone());
    for (i, o) in objs.iter().enumerate() {
        write_any(&mut w, o).map_err(|e| format!("object {i}: {e}"))?;
        seen(i, sink.0.get());
    }
    w.close().map_err(|e| format!("close: {e}"))?;
    Ok(sink.0.get())
}

fn writers(src: &mut Src, ctx: &mut Ctx) -> Res {
    let size = 1_200_000 + src.below(1_000_000);
    let objs = xml_objs(src, size);
    let osc = src.coin();
    ctx.hash(&digest(&objs));
    ctx.hash(&[osc as u8]);
    ctx.nontrivial = true;
    ctx.label(if osc { "OSCWriter" } else { "XMLWriter" });
    ctx.sample(|| format!("{} objects like {:?}", objs.len(), objs[0]));
    let built: Vec<_> = objs.iter().map(|m| build_any(src, m)).collect();
    // the size of the documents with the first objects only
    let run = |k: usize, seen: &mut dyn FnMut(usize, usize)| {
        let r = if osc { write_all::<OSCWriter<Count>>(&built[..k], seen) } else { write_all::<XMLWriter<Count>>(&built[..k], seen) };
        r.map_err(|e| format!("{}: {e}", if osc { "OSCWriter" } else { "XMLWriter" }))
    };
    let n = built.len();
    let places = [n / 4, n / 2, n * 7 / 8, n - 1];
    let mut had = [0; 4];
    let mut live = [0; 4];
    run(n, &mut |i, len| {
        for (p, place) in places.iter().enumerate() {
            if i == *place {
                had[p] = len;
                live[p] = mem::live();
            }
        }
    })?;
    for (p, place) in places.iter().enumerate() {
        let full = run(place + 1, &mut |_, _| {})?;
        check!(
            had[p] + SLACK >= full,
            "after object {place} of {n} the sink has {} bytes; a document of these objects has {full}",
            had[p]
        );
    }
    let grown = live[2] - live[0];
    check!(grown <= MEM, "{grown} more bytes of memory in use after object {} than after object {}", places[2], places[0]);
    Ok(())
}

fn c31(src: &mut Src, ctx: &mut Ctx) -> Res {
    match src.draw(39) {
        0..=31 => pbf_positions(src, ctx),
        32 => pbf_memory(src, ctx),
        33..=35 => xml_streams(src, ctx),
        36 | 37 => changesets(src, ctx),
        _ => writers(src, ctx),
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C31",
        level: "exploration",
        rule: "distinct PBF files with at least two non-empty blocks (times where reading stops), XML, OSC and changeset documents over 512 KiB, and sequences of objects for the writers",
        run: c31,
        quick: 4000,
        thorough: 150_000,
        exhaustive: None,
        assumptions: &[
            "a reader can be 256 KiB ahead of what it has delivered, a writer that much behind, except that PBF readers read block by block",
            "memory is what the thread of the reader allocates; it can differ by 96 KiB and a multiple of the largest object, or block",
        ],
    }]
}
