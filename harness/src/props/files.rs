//! C28: opening by file name
use super::chg::{self, MChg, Scratch, TagItem};
use super::pbfr::positions;
use crate::engine::*;
use crate::io::*;
use crate::model::*;
use crate::pbf::{self, Layout};
use crate::{check, fail, osmxml};
use osmio::changesets::{ChangesetReader, ChangesetTagReader};
use osmio::stringpbf::PBFNodePositionReader;
use osmio::xml::{self, XMLReader};
use osmio::{OSMReader, arcpbf, stringpbf};
use std::fmt::Debug;
use std::io::Write;
use std::os::fd::AsRawFd;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};

const ENTRIES: &[&str] = &[
    "read_pbf",
    "stringpbf::PBFReader::from_filename",
    "arcpbf::PBFReader::from_filename",
    "pbf::PBFReader::from_filename",
    "PBFNodePositionReader::from_filename",
    "read_xml",
    "xml::from_filename_bz2",
    "xml::from_filename_uncompressed",
    "ChangesetReader::from_filename",
    "ChangesetTagReader::from_filename",
];

#[derive(Debug)]
enum Items {
    Objs(Run<MObj>),
    Pos(Run<(i64, (i32, i32))>),
    Chg(Run<MChg>),
    Tags(Run<TagItem>),
}

/// Open, and read everything
fn open(entry: usize, p: &Path, cap: usize) -> Result<Result<Items, String>, String> {
    fn objs<Rd: OSMReader, E: std::fmt::Display>(r: Result<Rd, E>, cap: usize) -> Result<Result<Items, String>, String> {
        match r {
            Err(e) => Ok(Err(e.to_string())),
            Ok(mut r) => Ok(Ok(Items::Objs(drain(&mut r, cap)?))),
        }
    }
    let r = catch(|| match entry {
        0 => objs(osmio::read_pbf(p), cap),
        1 => objs(stringpbf::PBFReader::from_filename(p), cap),
        2 => objs(arcpbf::PBFReader::from_filename(p), cap),
        3 => objs(osmio::pbf::PBFReader::from_filename(p), cap),
        4 => Ok(match PBFNodePositionReader::from_filename(p) {
            Err(e) => Err(e.to_string()),
            Ok(r) => Ok(Items::Pos(drain_iter(&mut r.map(|(id, (a, b))| (id, (a.inner(), b.inner()))), cap))),
        }),
        5 => objs(osmio::read_xml(p), cap),
        6 => objs(xml::from_filename_bz2(p), cap),
        7 => objs(xml::from_filename_uncompressed(p), cap),
        8 => Ok(match ChangesetReader::from_filename(p.to_str().unwrap()) {
            Err(e) => Err(e.to_string()),
            Ok(r) => Ok(Items::Chg(drain_res(&mut chg::items(r), cap))),
        }),
        _ => Ok(match ChangesetTagReader::from_filename(p.to_str().unwrap()) {
            Err(e) => Err(e.to_string()),
            Ok(mut r) => Ok(Items::Tags(drain_res(&mut r, cap))),
        }),
    });
    match r {
        Ok(r) => r,
        Err(p) => Err(format!("panics: {p}")),
    }
}

fn name(src: &mut Src) -> String {
    src.pick(&["a.osm.pbf", "x", "a.osm.bz2", "a b.osm", "é日本.osm.bz2", "-", "a.osm", "a.osm.gz", "%41&?#", ".hidden", "a\nb"]).to_string()
}

fn same<T: Debug + PartialEq>(want: &Run<T>, got: &Run<T>, what: &str) -> Res {
    check!(want.end == End::Done, "{what}: from memory: {:?}", want.end);
    for (i, (w, g)) in want.items.iter().zip(&got.items).enumerate() {
        check!(w == g, "{what}: item {i} is {g:?} instead of {w:?}");
    }
    check!(
        want.items.len() == got.items.len() && got.end == End::Done,
        "{what}: {} items instead of {}, and then {:?}",
        got.items.len(),
        want.items.len(),
        got.end
    );
    Ok(())
}

fn c28(src: &mut Src, ctx: &mut Ctx) -> Res {
    let entry = src.below(ENTRIES.len());
    ctx.label(ENTRIES[entry]);
    let what = ENTRIES[entry];
    let dir = Scratch::new("c28");
    if src.chance(1, 6) {
        return no_file(src, ctx, entry, &dir.0);
    }
    let path = dir.0.join(name(src));
    let (avg, max) = if src.chance(1, 40) { (300, 900) } else { (4, 20) };
    let cap = 3 * max + 10;
    let (content, want, n);
    match entry {
        0..=4 => {
            let mut objs = pbf::gen_pobjs(src, PBF, avg, max);
            let l = Layout::gen_for(src, false);
            let f = pbf::encode(src, &mut objs, l);
            n = objs.len();
            ctx.sample(|| format!("{what} of {l:?} {objs:?}"));
            want = match entry {
                2 => Items::Objs(drain(&mut arcpbf::PBFReader::new(&f.bytes[..]), cap)?),
                4 => Items::Pos(positions(&f.bytes, cap)),
                _ => Items::Objs(drain(&mut stringpbf::PBFReader::new(&f.bytes[..]), cap)?),
            };
            content = f.bytes;
        }
        5..=7 => {
            let objs = gen_objs(src, XML, avg, max);
            let d = osmxml::osm_doc(src, &objs);
            n = objs.len();
            ctx.sample(|| format!("{what} of {}", osmxml::show(&d.bytes)));
            want = Items::Objs(drain(&mut XMLReader::new(&d.bytes[..]), cap)?);
            content = if entry == 7 { d.bytes } else { compress(src, ctx, &d.bytes) };
        }
        _ => {
            let cs = chg::gen_changesets(src, avg, max);
            let d = chg::doc(src, &cs);
            n = cs.len();
            ctx.sample(|| format!("{what} of {}", osmxml::show(&d.bytes)));
            want = if entry == 8 { Items::Chg(chg::read(&d.bytes, cap)) } else { Items::Tags(chg::read_tags(&d.bytes, cap)) };
            content = compress(src, ctx, &d.bytes);
        }
    }
    ctx.nontrivial = n > 0;
    ctx.hash(&content);
    ctx.hash(&[entry as u8]);
    if content.len() < 60_000 && src.chance(1, 5) {
        // not a regular file: a pipe, filled and without a writer
        ctx.label("a pipe");
        ctx.hash(b"pipe");
        let (r, mut w) = std::io::pipe().unwrap();
        w.write_all(&content).unwrap();
        drop(w);
        let path = PathBuf::from(format!("/proc/self/fd/{}", r.as_raw_fd()));
        return compare(entry, &path, &want, cap);
    }
    std::fs::write(&path, &content).unwrap();
    let path = if src.chance(1, 6) {
        ctx.label("through a symbolic link");
        let l = dir.0.join("link to it");
        std::os::unix::fs::symlink(&path, &l).unwrap();
        l
    } else {
        path
    };
    compare(entry, &path, &want, cap)?;
    check!(std::fs::read(&path).unwrap() == content, "{what} changed the file");
    Ok(())
}

fn compare(entry: usize, path: &Path, want: &Items, cap: usize) -> Res {
    let what = ENTRIES[entry];
    let got = match open(entry, path, cap)? {
        Ok(g) => g,
        Err(e) => fail!("{what} fails on a valid file {path:?}: {e}"),
    };
    match (want, &got) {
        (Items::Objs(a), Items::Objs(b)) => same(a, b, what),
        (Items::Pos(a), Items::Pos(b)) => same(a, b, what),
        (Items::Chg(a), Items::Chg(b)) => same(a, b, what),
        (Items::Tags(a), Items::Tags(b)) => same(a, b, what),
        _ => unreachable!(),
    }
}

/// bzip2, by any number of streams (which may be empty)
fn compress(src: &mut Src, ctx: &mut Ctx, data: &[u8]) -> Vec<u8> {
    let (c, ends) = chg::bz2_streams(src, data);
    ctx.label_if(ends.len() > 1, "several bzip2 streams");
    c
}

fn no_file(src: &mut Src, ctx: &mut Ctx, entry: usize, dir: &Path) -> Res {
    ctx.label("no such file");
    let file = dir.join("file");
    std::fs::write(&file, b"x").unwrap();
    let link = dir.join("loop");
    std::os::unix::fs::symlink(&link, &link).unwrap();
    let dangling = dir.join("dangling");
    std::os::unix::fs::symlink(dir.join("nowhere"), &dangling).unwrap();
    let p: PathBuf = match src.draw(9) {
        0 => dir.join(name(src)),
        1 => dir.join("no such directory").join(name(src)),
        2 => file.join(name(src)),
        3 => PathBuf::new(),
        4 => dir.join("a\0b"),
        5 => dir.join("x".repeat(300)),
        6 => link,
        7 => dangling,
        8 => {
            // can be opened, but not read
            ctx.label("a directory");
            ctx.nontrivial = true;
            ctx.hash(&[entry as u8]);
            ctx.hash(b"directory");
            let end = match open(entry, dir, 1)? {
                Err(_) => return Ok(()),
                Ok(Items::Objs(r)) => (r.items.len(), r.end),
                Ok(Items::Pos(r)) => (r.items.len(), r.end),
                Ok(Items::Chg(r)) => (r.items.len(), r.end),
                Ok(Items::Tags(r)) => (r.items.len(), r.end),
            };
            check!(end.0 == 0 && matches!(end.1, End::Err(_) | End::Panic(_)), "{} of a directory ends with {end:?}", ENTRIES[entry]);
            return Ok(());
        }
        _ => {
            if entry < 8 {
                dir.join(std::ffi::OsStr::from_bytes(b"\xff\xfe"))
            } else {
                dir.join("y".repeat(5000))
            }
        }
    };
    ctx.nontrivial = true;
    ctx.hash(&[entry as u8]);
    // not the name of the scratch directory, which differs from run to run
    ctx.hash(p.strip_prefix(dir).unwrap_or(&p).as_os_str().as_bytes());
    ctx.sample(|| format!("{} of {p:?}", ENTRIES[entry]));
    match open(entry, &p, 1) {
        Ok(Err(_)) => Ok(()),
        Ok(Ok(i)) => Err(format!("{} of {p:?}, which cannot be opened, gives {i:?}", ENTRIES[entry])),
        Err(e) => Err(format!("{} of {p:?}, which cannot be opened: {e}", ENTRIES[entry])),
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C28",
        level: "exploration",
        rule: "distinct (entry point, file content with at least one item) or (entry point, path that cannot be opened)",
        run: c28,
        quick: 60_000,
        thorough: 1_500_000,
        exhaustive: None,
        assumptions: &["files in a scratch directory, not changed while they are read"],
    }]
}
