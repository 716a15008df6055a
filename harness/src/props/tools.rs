//! C32: the command-line tools that read PBF and OSC files
use super::chg::{self, Scratch};
use crate::engine::*;
use crate::model::*;
use crate::pbf::{self, Layout, PObj};
use crate::{check, fail, osmxml};
use osmio::OSMReader;
use osmio::osc::OSCReader;
use std::path::Path;
use std::process::{Command, Output, Stdio};

fn run(tool: &str, args: &[&Path]) -> Result<Output, String> {
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    let exe = chg::tool().with_file_name(tool);
    let mut c = Command::new(&exe);
    c.args(args).stdin(Stdio::null());
    unsafe {
        c.pre_exec(|| {
            // a tool that does not end is stopped
            let l = libc::rlimit { rlim_cur: 60, rlim_max: 70 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            Ok(())
        });
    }
    let o = c.output().map_err(|e| format!("cannot run {}: {e}", exe.display()))?;
    match o.status.signal() {
        Some(libc::SIGXCPU) => Err(format!("{tool} does not end: it has used 60 s of CPU time")),
        Some(libc::SIGKILL) => {
            eprintln!("ERROR: {tool} was killed");
            std::process::exit(2)
        }
        _ => Ok(o),
    }
}

/// The numbers after "Processed", of each line which has it
fn processed(out: &str) -> Vec<(bool, u64)> {
    out.lines()
        .filter_map(|l| {
            let rest = l.trim().strip_prefix("Processed ")?;
            let n: String = rest.split(' ').next()?.chars().filter(|c| *c != ',').collect();
            Some((rest.contains("so far"), n.parse().ok()?))
        })
        .collect()
}

fn check_speed(o: &Output, n: u64) -> Res {
    let out = String::from_utf8_lossy(&o.stdout);
    check!(o.status.success(), "ends with {} on a file of {n} objects; {}", o.status, String::from_utf8_lossy(&o.stderr));
    let p = processed(&out);
    let Some(((false, last), progress)) = p.split_last().map(|(l, p)| (*l, p)) else { fail!("prints {out:?}") };
    check!(last == n, "says {last} objects of {n}: {out:?}");
    let mut before = 0;
    for (so_far, k) in progress {
        check!(*so_far && *k >= before && *k <= n, "says {k} objects of {n}, after {before}: {out:?}");
        before = *k;
    }
    Ok(())
}

const SPEED: &str = "osmio-pbf-read-speed";
const DEBUG: &str = "osmio-osc-debug";

fn speed(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (avg, max) = if src.chance(1, 8) { (1500, 5000) } else { (6, 60) };
    let mut objs = pbf::gen_pobjs(src, PBF, avg, max);
    let l = Layout::gen_for(src, false);
    let f = pbf::encode(src, &mut objs, l);
    ctx.hash(&f.bytes);
    ctx.nontrivial = !objs.is_empty();
    ctx.label(SPEED);
    pbf::label(ctx, &f);
    ctx.label_if(objs.len() >= 1000, "over 1000 objects");
    let dir = Scratch::new("c32");
    let path = dir.0.join("in.osm.pbf");
    let cut = if src.chance(1, 4) {
        let at = src.below(f.bytes.len());
        (!f.boundaries.contains(&at)).then_some(at)
    } else {
        None
    };
    std::fs::write(&path, &f.bytes[..cut.unwrap_or(f.bytes.len())]).unwrap();
    ctx.sample(|| format!("{SPEED} on a file of {} bytes, cut at {cut:?}: {} objects {objs:?}", f.bytes.len(), objs.len()));
    let o = run(SPEED, &[&path])?;
    if let Some(c) = cut {
        ctx.label("cut");
        check!(!o.status.success(), "{SPEED}: says success for a file cut at byte {c} of {}", f.bytes.len());
        return Ok(());
    }
    check_speed(&o, objs.len() as u64).map_err(|e| format!("{SPEED} {e}"))
}

/// Enough for the tool to print its progress: the same blocks again and again
fn speed_long(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut r = Rng(src.draw(u64::MAX));
    let n = 50_000 + src.below(5000);
    let mut objs: Vec<PObj> = (0..n)
        .map(|i| {
            let mut m = MObj::new(Kind::Node, i as i64);
            m.latlon = Some(((r.next() % 1000) as i32, (r.next() % 1000) as i32));
            PObj::from(m, false)
        })
        .collect();
    let mut l = Layout::bulk(src, true);
    l.odd_blobs = false;
    l.dense = 4;
    let f = pbf::encode(src, &mut objs, l);
    let start = f.data[0].start;
    let times = 42 + src.below(6);
    let mut bytes = f.bytes[..start].to_vec();
    for _ in 0..times {
        bytes.extend(&f.bytes[start..]);
    }
    ctx.hash(&bytes);
    ctx.nontrivial = true;
    ctx.label("over a million objects");
    ctx.sample(|| format!("{SPEED}: {n} nodes, {times} times"));
    let dir = Scratch::new("c32");
    let path = dir.0.join("in.osm.pbf");
    std::fs::write(&path, &bytes).unwrap();
    let o = run(SPEED, &[&path])?;
    ctx.label_if(processed(&String::from_utf8_lossy(&o.stdout)).len() > 1, "progress");
    check_speed(&o, (n * times) as u64).map_err(|e| format!("{SPEED} {e}"))
}

fn debug(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (avg, max) = if src.chance(1, 100) { (1500, 4000) } else if src.chance(1, 20) { (200, 600) } else { (4, 30) };
    let objs = gen_objs(src, XML, avg, max);
    let doc = osmxml::osc_doc(src, &objs);
    ctx.hash(&doc.bytes);
    ctx.nontrivial = !objs.is_empty();
    ctx.label(DEBUG);
    ctx.label_if(objs.len() > 100, "over 100 objects");
    let dir = Scratch::new("c32");
    let path = dir.0.join("in.osc");
    let cut = if src.chance(1, 4) { Some(src.below(doc.root_end)) } else { None };
    ctx.sample(|| format!("{DEBUG}, cut at {cut:?}: {}", osmxml::show(&doc.bytes)));
    std::fs::write(&path, &doc.bytes[..cut.unwrap_or(doc.bytes.len())]).unwrap();
    // what the library reads, shown as the objects show themselves
    let mut want = vec![];
    let mut r = OSCReader::new(&doc.bytes[..]);
    for _ in 0..objs.len() {
        match catch(|| r.next()) {
            Ok(Some(o)) => want.push(format!("{o:#?}")),
            x => fail!("the library reads {} of {} objects: {x:?}", want.len(), objs.len()),
        }
    }
    let o = run(DEBUG, &[&path])?;
    let text = format!("{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
    if let Some(c) = cut {
        ctx.label("cut");
        check!(!o.status.success(), "{DEBUG}: says success for a file cut at byte {c} of {}", doc.root_end);
    } else {
        check!(o.status.success(), "{DEBUG} ends with {} on a file of {} objects: {text}", o.status, objs.len());
    }
    // each object, from the first on
    let mut at = 0;
    let mut found = 0;
    for w in &want {
        match text[at..].find(w.as_str()) {
            // nothing between two objects that is not the name in front of the second
            Some(p) if text[at..at + p].trim().lines().count() <= 1 => at += p + w.len(),
            _ => break,
        }
        found += 1;
    }
    if cut.is_none() {
        check!(found == want.len(), "{DEBUG}: object {found} of {} is not printed, or not in its place: {:?}", want.len(), want[found]);
        check!(text[at..].trim().is_empty(), "{DEBUG} also prints {:?}", &text[at..]);
    }
    Ok(())
}

fn no_file(src: &mut Src, ctx: &mut Ctx) -> Res {
    let tool = *src.pick(&[SPEED, DEBUG]);
    ctx.label("no file");
    let dir = Scratch::new("c32");
    let missing = dir.0.join("nothing.osc");
    let what = src.draw(2);
    ctx.sample(|| format!("{tool}, way {what}"));
    let o = match what {
        0 => run(tool, &[]),
        1 => run(tool, &[&missing]),
        _ => run(tool, &[&dir.0]),
    }?;
    check!(!o.status.success(), "{tool} says success without a file to read");
    check!(!missing.exists(), "{tool} makes the file which it should read");
    Ok(())
}

fn c32(src: &mut Src, ctx: &mut Ctx) -> Res {
    match src.draw(199) {
        0..=99 => speed(src, ctx),
        100..=189 => debug(src, ctx),
        199 => speed_long(src, ctx),
        _ => no_file(src, ctx),
    }
}

// ------------------------------------------------------------------ C34: what the SQLite tool reports

/// The lines `  count  percent% tagged key`
fn tagged(l: &str) -> Option<(u64, u64, &str)> {
    let l = l.trim_start();
    let (n, rest) = l.split_once(' ')?;
    let (p, key) = rest.split_once("% tagged ")?;
    Some((n.parse().ok()?, p.trim().parse().ok()?, key))
}

/// The numbers in "Inserted N changesets, and got M unique tags"
fn inserted(l: &str) -> Option<(u64, u64)> {
    let l = l.trim();
    if !l.starts_with("Inserted ") {
        return None;
    }
    let mut n = l.split(|c: char| !c.is_ascii_digit()).filter(|w| !w.is_empty()).map(|w| w.parse::<u64>());
    Some((n.next()?.ok()?, n.next()?.ok()?))
}

fn check_report(out: &str, rows: &[(i64, String)]) -> Result<usize, String> {
    let mut popular: std::collections::HashMap<String, u64> = Default::default();
    for (id, json) in rows {
        let tags: Vec<(String, String)> = serde_json::from_str(json).map_err(|e| format!("row {id} {json}: {e}"))?;
        for (k, _) in tags {
            *popular.entry(k).or_default() += 1;
        }
    }
    let n = rows.len() as u64;
    let m = popular.len();
    let lines: Vec<&str> = out.split('\n').collect();
    let at: Vec<usize> = (0..lines.len()).filter(|i| inserted(lines[*i]).is_some()).collect();
    // a key may look like that line
    let Some(&first) = at.first() else { return Err(format!("no line with how many have been inserted: {out:?}")) };
    let (a, b) = inserted(lines[first]).unwrap();
    check!(a == n, "says that {a} changesets were inserted; there are {n} rows");
    check!(b == m as u64, "says that there are {b} different keys; there are {m} in the rows");
    let mut listed = 0;
    let mut least = u64::MAX;
    for l in &lines[first + 1..] {
        if l.trim().is_empty() && listed == 0 {
            continue;
        }
        if l.is_empty() {
            break;
        }
        let Some((count, percent, key)) = tagged(l) else { return Err(format!("line {l:?}")) };
        let Some(real) = popular.remove(key) else {
            return Err(format!("line {l:?}: no row has this key, or it was listed before"));
        };
        check!(count == real, "line {l:?}: {real} rows of {n} have this key");
        check!(count <= least, "line {l:?} is after one with {least}");
        check!(percent.abs_diff(count * 100 / n) <= 1, "line {l:?}: not the part of {n}");
        check!(count * 1000 >= n, "line {l:?}: less than one in a thousand of {n}");
        least = count;
        listed += 1;
    }
    check!(listed <= 100, "{listed} keys are listed");
    for (k, c) in &popular {
        if listed == 100 {
            check!(*c <= least, "the key {k:?} of {c} rows is not listed, but some with {least} are");
        } else {
            check!(c * 1000 < n, "the key {k:?} of {c} rows (of {n}) is not listed");
        }
    }
    Ok(listed)
}

fn run_sqlite(dir: &Scratch, bytes: &[u8]) -> Result<(String, Vec<(i64, String)>), String> {
    let input = dir.0.join("changesets.osm.bz2");
    let db = dir.0.join("out.sqlite");
    std::fs::write(&input, bytes).unwrap();
    let exe = chg::tool();
    let name = exe.file_name().unwrap().to_str().unwrap().to_string();
    let o = run(&name, &[&input, &db])?;
    check!(o.status.success(), "the tool ends with {}: {}", o.status, String::from_utf8_lossy(&o.stderr));
    Ok((String::from_utf8_lossy(&o.stdout).into_owned(), chg::rows(&db)?))
}

/// Any changesets, a few of them
fn report_any(src: &mut Src, ctx: &mut Ctx) -> Res {
    let avg = *src.pick(&[2, 8, 40]);
    let mut cs = chg::gen_changesets(src, avg, 200);
    let mut seen = std::collections::HashSet::new();
    cs.retain(|c| seen.insert(c.id));
    // the keys are printed one a line
    for c in &mut cs {
        for (k, _) in &mut c.tags {
            *k = k.replace(['\n', '\r'], " ");
        }
        let mut seen = std::collections::HashSet::new();
        c.tags.retain(|(k, _)| seen.insert(k.clone()));
    }
    let d = chg::doc(src, &cs);
    let bytes = chg::bz2(src, &d.bytes);
    ctx.hash(&bytes);
    ctx.nontrivial = cs.iter().any(|c| !c.tags.is_empty());
    ctx.label("any");
    ctx.sample(|| format!("{} changesets: {cs:?}", cs.len()));
    let dir = Scratch::new("c34");
    let (out, rows) = run_sqlite(&dir, &bytes)?;
    chg::check_rows(&cs, &rows, "the tool")?;
    let n = check_report(&out, &rows).map_err(|e| format!("the report {e}"))?;
    ctx.label_if(n > 1, "several keys listed");
    Ok(())
}

/// Many changesets with many keys, some of them rare
fn report_many(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut r = Rng(src.draw(u64::MAX));
    let keys = 1 + src.below(300);
    let n = *src.pick(&[150, 999, 1000, 1001, 1999, 2000, 2001, 3000, 3999, 4000, 4001]);
    // how rare: the keys from this one on are in a few changesets only
    let common = src.below(keys + 1).min(120);
    let few = 1 + src.below(6) as u64;
    let part = 1 + src.below(100) as u64;
    // few keys are so rare that the number of changesets in which they are is about n/1000
    let mut tags: Vec<Vec<usize>> = vec![vec![]; n];
    for k in 0..keys {
        if k < common {
            for t in tags.iter_mut() {
                if r.next() % 100 < part {
                    t.push(k);
                }
            }
        } else {
            for _ in 0..1 + r.next() % few {
                let i = (r.next() % n as u64) as usize;
                if tags[i].last() != Some(&k) && !tags[i].contains(&k) {
                    tags[i].push(k);
                }
            }
        }
    }
    let untagged = src.chance(1, 3);
    let mut x = String::from("<osm>");
    let mut with = 0u64;
    for (i, t) in tags.iter_mut().enumerate() {
        if t.is_empty() && !untagged {
            t.push(0);
        }
        with += !t.is_empty() as u64;
        x.push_str(&format!("<changeset id=\"{}\">", i + 1));
        for k in t.iter() {
            // some differ in the case only, or in the last character
            let name = match k % 3 {
                0 => format!("key:{k}"),
                1 => format!("KEY:{}", k - 1),
                _ => format!("key:{} ", k - 2),
            };
            x.push_str(&format!("<tag k=\"{name}\" v=\"{}\"/>", r.next() % 5));
        }
        x.push_str("</changeset>\n");
    }
    x.push_str("</osm>");
    let bytes = chg::bz2(src, x.as_bytes());
    ctx.hash(&bytes);
    ctx.nontrivial = true;
    ctx.label("many");
    let what = format!("{n} changesets ({with} with tags) of {keys} keys, of which {common} are in {part}% and the rest in up to {few}");
    ctx.sample(|| what.clone());
    let dir = Scratch::new("c34");
    let (out, rows) = run_sqlite(&dir, &bytes)?;
    check!(rows.len() as u64 >= with && rows.len() <= n, "{what}: {} rows", rows.len());
    let listed = check_report(&out, &rows).map_err(|e| format!("{what}: the report {e}"))?;
    ctx.label_if(listed == 100, "100 keys listed");
    ctx.label_if(listed < 100 && listed < keys, "rare keys not listed");
    ctx.label_if(with * 2 > 2000, "a key in one is rare");
    Ok(())
}

/// What it says on the way, when there are changesets after some seconds
fn progress(src: &mut Src, ctx: &mut Ctx) -> Res {
    let dir = Scratch::new("c34");
    let (what, n, out) = chg::run_slow(src, ctx, &dir)?;
    let mut before = 0;
    let mut lines = 0;
    for l in out.lines().take_while(|l| inserted(l).is_none()) {
        if l.trim().is_empty() {
            continue;
        }
        // "2s 10k / 0.0% done. eta: ..."
        let k = l.split(|c: char| c.is_whitespace() || c == '/').find_map(|w| w.strip_suffix('k')?.parse::<usize>().ok());
        let Some(k) = k else { fail!("{what}: the tool says {l:?}") };
        check!(k >= before && k * 1000 <= n, "{what}: the tool says {l:?} after {before}k");
        before = k;
        lines += 1;
    }
    ctx.label_if(lines > 0, "progress lines");
    let rows = chg::rows(&dir.0.join("out.sqlite"))?;
    check!(rows.len() == n, "{what}: {} rows", rows.len());
    check_report(&out, &rows).map_err(|e| format!("{what}: the report {e}"))?;
    Ok(())
}

fn c34(src: &mut Src, ctx: &mut Ctx) -> Res {
    let one_in = if ctx.thorough { 1000 } else { 100 };
    if src.chance(1, one_in) {
        return progress(src, ctx);
    }
    match src.draw(19) {
        0..=16 => report_any(src, ctx),
        _ => report_many(src, ctx),
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C32",
        level: "exploration",
        rule: "distinct PBF files and osmChange documents with at least one object, as given to the tools",
        run: c32,
        quick: 2000,
        thorough: 60_000,
        exhaustive: None,
        assumptions: &["what an object looks like when printed is left to the object (Debug); the objects are those of the library's reader (C05, C06 and C07 judge that)"],
    }, Prop {
        id: "C34",
        level: "exploration",
        rule: "distinct changeset dumps with at least one tag",
        run: c34,
        quick: 1500,
        thorough: 40_000,
        exhaustive: None,
        assumptions: &["keys without line breaks (the report has a line for each)", "keys which are equally frequent come in any order", "the progress is said in thousands, as a number before \"k\"", "the rows in the database are those of the dump (C27 judges that)"],
    }]
}
