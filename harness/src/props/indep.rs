//! C33: readers, writers and objects are independent of each other
use super::chg;
use super::objs::{self, Edit};
use crate::engine::*;
use crate::model::*;
use crate::pbf::{self, Layout, PObj};
use crate::text::{self, TextKind};
use crate::{check, fail, osmxml, xmlp};
use osmio::changesets::ChangesetReader;
use osmio::obj_types::{ArcOSMObj, StringOSMObj};
use osmio::osc::{OSCReader, OSCWriter};
use osmio::stringpbf::PBFNodePositionReader;
use osmio::xml::{XMLReader, XMLWriter};
use osmio::{OSMObj, OSMReader, OSMWriter, arcpbf, stringpbf};
use std::io::{self, Read, Write};
use std::marker::PhantomData;
use std::sync::{Arc, Barrier, Mutex};

/// For what can be sent to another thread on the original tree: were it no more, that has to be a
/// finding instead of an error of the compiler (see `sendable`)
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}
impl<T> Force<T> {
    // so that closures capture all of it
    fn get(&self) -> &T {
        &self.0
    }
    fn get_mut(&mut self) -> &mut T {
        &mut self.0
    }
    fn into(self) -> T {
        self.0
    }
}

struct Probe<T>(PhantomData<T>);
#[allow(dead_code)]
trait IsNot {
    fn ask(&self) -> bool {
        false
    }
}
impl<T> IsNot for &Probe<T> {}
trait Is {
    fn ask(&self) -> bool;
}
impl<T: Send + Sync> Is for Probe<T> {
    fn ask(&self) -> bool {
        true
    }
}
macro_rules! sendable {
    ($t:ty) => {
        (&Probe::<$t>(PhantomData)).ask()
    };
}

struct Source {
    data: Arc<Vec<u8>>,
    pos: usize,
    chunk: usize,
}
impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = buf.len().min(self.data.len() - self.pos).min(self.chunk);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Accepts so much, and then nothing more
#[derive(Clone)]
struct Sink(Arc<Mutex<Vec<u8>>>, usize);
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut v = self.0.lock().unwrap();
        let n = b.len().min(self.1.saturating_sub(v.len()));
        if n == 0 && !b.is_empty() {
            return Err(io::Error::other("planted"));
        }
        v.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

// ---------------------------------------------------------------- what is done

#[derive(Clone, Copy, Debug, PartialEq)]
enum What {
    Xml,
    Osc,
    StringPbf,
    ArcPbf,
    Positions,
    Changesets,
    ChangesetTags,
    WriteXml,
    WriteOsc,
    EditArc,
    EditString,
}
use What::*;

impl What {
    fn label(self) -> &'static str {
        match self {
            Xml => "reads OSM XML",
            Osc => "reads osmChange",
            StringPbf => "reads PBF (String)",
            ArcPbf => "reads PBF (Arc)",
            Positions => "reads node positions",
            Changesets => "reads changesets",
            ChangesetTags => "reads changeset tags",
            WriteXml => "writes OSM XML",
            WriteOsc => "writes osmChange",
            EditArc => "changes clones of Arc objects",
            EditString => "changes clones of String objects",
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum By {
    Next,
    Objects,
    Only(Kind),
}

struct Spec {
    what: What,
    data: Arc<Vec<u8>>,
    chunk: usize,
    by: By,
    /// given up, and dropped, after so many steps
    stop: usize,
    objs: Vec<MObj>,
    headers: Vec<(String, String)>,
    form: TsForm,
    arc: bool,
    edits: Vec<Vec<Edit>>,
    /// the reference, where the input is intact and read completely
    want: Option<Vec<PObj>>,
    about: String,
}

trait Task {
    /// What happened; nothing when it is over
    fn step(&mut self) -> Option<String>;
}

struct Osm<Rd: OSMReader> {
    r: Option<Rd>,
    by: By,
    kept: Vec<(Rd::Obj, String)>,
}
impl<Rd: OSMReader> Osm<Rd> {
    fn new(r: Rd, by: By) -> Self {
        Osm { r: Some(r), by, kept: vec![] }
    }
    /// What has been delivered stays the same
    fn kept(&self, s: &str) -> String {
        for (o, was) in &self.kept {
            match snap(o) {
                Ok(m) if format!("{m:?}") == *was => {}
                x => return format!("{s}, and {was} has become {x:?}"),
            }
        }
        s.into()
    }
}
impl<Rd: OSMReader> Task for Osm<Rd>
where
    Rd::Obj: OSMObj,
{
    fn step(&mut self) -> Option<String> {
        let r = self.r.as_mut()?;
        let by = self.by;
        // the typed iterators give an owned object of another type
        let x = match by {
            By::Next => catch(|| r.next().map(Ok)),
            By::Objects => catch(|| r.objects().next().map(Ok)),
            By::Only(Kind::Node) => catch(|| r.nodes().next().map(|o| Err(snap_node(&o)))),
            By::Only(Kind::Way) => catch(|| r.ways().next().map(|o| Err(snap_way(&o)))),
            By::Only(Kind::Relation) => catch(|| r.relations().next().map(|o| Err(snap_relation(&o)))),
        };
        Some(match x {
            Err(_) => {
                self.r = None;
                self.kept("panic")
            }
            Ok(None) => {
                self.r = None;
                self.kept("end")
            }
            Ok(Some(Err(m))) => format!("{:?}", m),
            Ok(Some(Ok(o))) => {
                let s = match snap(&o) {
                    Ok(m) => format!("{m:?}"),
                    Err(e) => e,
                };
                self.kept.push((o, s.clone()));
                s
            }
        })
    }
}

struct Iter<I>(Option<I>);
impl<T: std::fmt::Debug, E, I: Iterator<Item = Result<T, E>>> Task for Iter<I> {
    fn step(&mut self) -> Option<String> {
        let r = self.0.as_mut()?;
        Some(match catch(|| r.next()) {
            Ok(Some(Ok(x))) => format!("{x:?}"),
            Ok(Some(Err(_))) => {
                self.0 = None;
                "error".into()
            }
            Ok(None) => {
                self.0 = None;
                "end".into()
            }
            Err(_) => {
                self.0 = None;
                "panic".into()
            }
        })
    }
}

struct Writes<Wr> {
    w: Option<Wr>,
    sink: Sink,
    spec: Arc<Spec>,
    headers: usize,
    at: usize,
}
impl<Wr: OSMWriter<Sink>> Task for Writes<Wr> {
    fn step(&mut self) -> Option<String> {
        let w = self.w.as_mut()?;
        let spec = &self.spec;
        let r = match spec.objs.get(self.at) {
            _ if self.headers < spec.headers.len() => {
                let (k, v) = &spec.headers[self.headers];
                self.headers += 1;
                return Some(format!("{:?}", catch(|| w.set_header((k, v)).is_ok())));
            }
            Some(m) if spec.arc => catch(|| w.write_obj(&build_arc(m, spec.form)).is_ok()),
            Some(m) => catch(|| w.write_obj(&build_string(m, spec.form)).is_ok()),
            None => catch(|| w.close().is_ok()),
        };
        let out = self.sink.0.lock().unwrap().clone();
        if r != Ok(true) || self.at == spec.objs.len() {
            self.w = None;
        }
        self.at += 1;
        Some(format!(
            "{}: {}",
            match r {
                Ok(true) => "written",
                Ok(false) => "error",
                Err(_) => "panic",
            },
            String::from_utf8_lossy(&out)
        ))
    }
}

/// Clones, to start with, of objects which others have, too
struct Edits<O> {
    own: Vec<O>,
    shared: Arc<Vec<O>>,
    spec: Arc<Spec>,
    at: usize,
}
impl<O: OSMObj> Task for Edits<O> {
    fn step(&mut self) -> Option<String> {
        let n = self.own.len();
        let longest = self.spec.edits.iter().map(|e| e.len()).max().unwrap_or(0);
        if n == 0 || self.at >= longest * n {
            return None;
        }
        let (i, j) = (self.at % n, self.at / n);
        self.at += 1;
        let o = &mut self.own[i];
        let r = catch(|| {
            if let Some(e) = self.spec.edits[i].get(j) {
                e.apply(o);
            }
            (snap(o), snap(&self.shared[i]))
        });
        Some(format!("{r:?}"))
    }
}

struct Shared {
    arc: Arc<Vec<ArcOSMObj>>,
    string: Arc<Vec<StringOSMObj>>,
}

fn start(spec: &Arc<Spec>, shared: &Shared) -> Box<dyn Task> {
    let s = Source { data: spec.data.clone(), pos: 0, chunk: spec.chunk };
    let sink = Sink(Arc::default(), spec.chunk);
    match spec.what {
        Xml => Box::new(Osm::new(XMLReader::new(s), spec.by)),
        Osc => Box::new(Osm::new(OSCReader::new(s), spec.by)),
        StringPbf => Box::new(Osm::new(stringpbf::PBFReader::new(s), spec.by)),
        ArcPbf => Box::new(Osm::new(arcpbf::PBFReader::new(s), spec.by)),
        Positions => Box::new(Iter(Some(PBFNodePositionReader::from_reader(s).map(Ok::<_, ()>)))),
        Changesets => Box::new(Iter(Some(chg::items(ChangesetReader::new(s))))),
        ChangesetTags => Box::new(Iter(Some(crate::hooks::changeset_tag_reader(s)))),
        WriteXml => Box::new(Writes { w: Some(XMLWriter::new(sink.clone())), sink, spec: spec.clone(), headers: 0, at: 0 }),
        WriteOsc => Box::new(Writes { w: Some(OSCWriter::new(sink.clone())), sink, spec: spec.clone(), headers: 0, at: 0 }),
        EditArc => Box::new(Edits { own: shared.arc.to_vec(), shared: shared.arc.clone(), spec: spec.clone(), at: 0 }),
        EditString => Box::new(Edits { own: shared.string.to_vec(), shared: shared.string.clone(), spec: spec.clone(), at: 0 }),
    }
}

/// One that is being done
struct Live {
    task: Option<Box<dyn Task>>,
    spec: Arc<Spec>,
    log: Vec<String>,
}
impl Live {
    fn new(spec: &Arc<Spec>, shared: &Shared) -> Live {
        Live { task: Some(start(spec, shared)), spec: spec.clone(), log: vec![] }
    }
    /// false when it is over
    fn step(&mut self) -> bool {
        let Some(t) = &mut self.task else { return false };
        if self.log.len() >= self.spec.stop || self.log.len() > 5000 {
            self.task = None;
            return false;
        }
        match t.step() {
            Some(s) => self.log.push(s),
            None => self.task = None,
        }
        self.task.is_some()
    }
    fn run(mut self) -> Vec<String> {
        while self.step() {}
        self.log
    }
}

// ---------------------------------------------------------------- how

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    /// one after the other in one thread
    InTurn,
    /// a step of this, a step of that, in one thread
    Interleaved,
    /// all at the same time in a thread of their own
    Parallel,
    /// some steps in one thread, further ones in another
    Moving,
}

fn burst(plan: &[(usize, usize)], at: usize) -> (usize, usize) {
    plan.get(at).copied().unwrap_or((at, usize::MAX))
}

fn interleave(live: &mut [Live], plan: &[(usize, usize)], from: usize, to: usize) -> bool {
    for at in from..to {
        let alive: Vec<usize> = (0..live.len()).filter(|i| live[*i].task.is_some()).collect();
        if alive.is_empty() {
            return false;
        }
        let (who, n) = burst(plan, at);
        let l = &mut live[alive[who % alive.len()]];
        for _ in 0..n {
            if !l.step() {
                break;
            }
        }
    }
    true
}

/// In a thread which has done nothing before
fn fresh<T>(f: impl FnOnce() -> T) -> T {
    let (f, mut out) = (Force(f), Force(None));
    let o = &mut out;
    std::thread::scope(|s| {
        s.spawn(move || {
            let f = f;
            *o.get_mut() = Some((f.into())());
        });
    });
    out.0.unwrap()
}

fn run(how: How, specs: &[Arc<Spec>], shared: &Shared, plan: &[(usize, usize)]) -> Vec<Vec<String>> {
    match how {
        How::InTurn | How::Interleaved => fresh(|| run_here(how, specs, shared, plan)),
        _ => run_here(how, specs, shared, plan),
    }
}

fn run_here(how: How, specs: &[Arc<Spec>], shared: &Shared, plan: &[(usize, usize)]) -> Vec<Vec<String>> {
    match how {
        How::InTurn => {
            let mut order: Vec<usize> = (0..specs.len()).collect();
            let k = plan.first().map_or(0, |p| p.0) % specs.len();
            order.rotate_left(k);
            let mut out = vec![vec![]; specs.len()];
            for i in order {
                out[i] = Live::new(&specs[i], shared).run();
            }
            out
        }
        How::Interleaved => {
            let mut live: Vec<Live> = specs.iter().map(|s| Live::new(s, shared)).collect();
            interleave(&mut live, plan, 0, usize::MAX);
            live.into_iter().map(|l| l.log).collect()
        }
        How::Moving => {
            let mut live = Force(specs.iter().map(|s| Live::new(s, shared)).collect::<Vec<_>>());
            let mut at = 0;
            loop {
                let l = &mut live;
                let more = std::thread::scope(|s| s.spawn(move || interleave(l.get_mut(), plan, at, at + 3)).join().unwrap());
                at += 3;
                if !more {
                    break;
                }
            }
            live.0.into_iter().map(|l| l.log).collect()
        }
        How::Parallel => {
            let gate = Barrier::new(specs.len());
            let sh = Force(shared);
            let (gate, sh) = (&gate, &sh);
            std::thread::scope(|s| {
                let hs: Vec<_> = specs
                    .iter()
                    .map(|spec| {
                        let spec = Force(spec);
                        s.spawn(move || {
                            gate.wait();
                            Live::new(spec.get(), sh.get()).run()
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            })
        }
    }
}

fn damage(src: &mut Src, data: &mut Vec<u8>) -> bool {
    if data.is_empty() || !src.chance(1, 4) {
        return false;
    }
    let i = src.below(data.len());
    if src.coin() {
        data.truncate(i);
    } else {
        data[i] ^= 1 << src.draw(7);
    }
    true
}

fn gen_spec(src: &mut Src, avg: u64, max: usize, n_shared: usize, kinds: &[MObj]) -> Spec {
    let what = *src.pick(&[
        Xml, Osc, StringPbf, ArcPbf, ArcPbf, Positions, Changesets, ChangesetTags, WriteXml, WriteOsc, EditArc, EditString,
    ]);
    let mut s = Spec {
        what,
        data: Arc::default(),
        chunk: *src.pick(&[usize::MAX, usize::MAX, 1000, 7]),
        by: match src.draw(5) {
            0..=2 => By::Next,
            3 | 4 => By::Objects,
            _ => By::Only(*src.pick(&KINDS)),
        },
        stop: usize::MAX,
        objs: vec![],
        headers: vec![],
        form: TsForm::Epoch,
        arc: src.coin(),
        edits: vec![],
        want: None,
        about: what.label().into(),
    };
    if src.chance(1, 4) {
        s.stop = src.draw(8) as usize;
        s.about += &format!(", up to step {}", s.stop);
    }
    let mut data = vec![];
    match what {
        Xml | Osc => {
            let objs = gen_objs(src, XML, avg, max);
            let doc = if what == Xml { osmxml::osm_doc(src, &objs) } else { osmxml::osc_doc(src, &objs) };
            if what == Xml {
                s.want = Some(objs.iter().map(|m| PObj::from(m.clone(), false)).collect());
            }
            s.about += &format!(" {}", osmxml::show(&doc.bytes));
            data = doc.bytes;
        }
        StringPbf | ArcPbf | Positions => {
            let mut objs = pbf::gen_pobjs(src, PBF, avg, max);
            let l = Layout::gen_for(src, false);
            let f = pbf::encode(src, &mut objs, l);
            s.about += &format!(" {l:?} {objs:?}");
            if what != Positions {
                s.want = Some(objs);
            }
            data = f.bytes;
        }
        Changesets | ChangesetTags => {
            let cs = chg::gen_changesets(src, avg, max);
            data = chg::doc(src, &cs).bytes;
            s.about += &format!(" {}", osmxml::show(&data));
        }
        WriteXml | WriteOsc => {
            s.objs = gen_objs(src, XML, avg, max);
            s.form = gen_ts_form(src);
            s.chunk = if src.chance(1, 5) { src.draw(600) as usize } else { usize::MAX };
            if what == WriteXml {
                // not several, for their order is open
                let k = *src.pick(&["license", "copyright"]);
                s.headers = src.list(1, 2, |s| (k.to_string(), text::text(s, TextKind::Xml)));
            }
            s.about += &format!(" {:?} {:?}", s.headers, s.objs);
        }
        EditArc | EditString => {
            for k in kinds.iter().take(n_shared) {
                let mut m = k.clone();
                s.edits.push(objs::gen_edits(src, &mut m, 6));
            }
            s.about += &format!(" {:?}", s.edits);
        }
    }
    if damage(src, &mut data) {
        s.want = None;
        s.about += ", damaged";
    }
    s.data = Arc::new(data);
    s
}

fn c33(src: &mut Src, ctx: &mut Ctx) -> Res {
    check!(sendable!(ArcOSMObj), "Arc objects cannot be used by several threads");
    check!(sendable!(StringOSMObj), "String objects cannot be used by several threads");
    let readers = sendable!(XMLReader<Source>)
        && sendable!(OSCReader<Source>)
        && sendable!(stringpbf::PBFReader<Source>)
        && sendable!(arcpbf::PBFReader<Source>)
        && sendable!(PBFNodePositionReader<Source>)
        && sendable!(ChangesetReader<Source>)
        && sendable!(XMLWriter<Sink>)
        && sendable!(OSCWriter<Sink>);
    let how = match src.draw(6) {
        0 => How::InTurn,
        1..=3 => How::Interleaved,
        4 | 5 => How::Parallel,
        _ if readers => How::Moving,
        _ => How::Interleaved,
    };
    let (avg, max) = if src.chance(1, 40) { (150, 400) } else { (4, 15) };
    let base = gen_objs(src, ANY, 2, 4);
    let form = gen_ts_form(src);
    let shared = Shared {
        arc: Arc::new(base.iter().map(|m| build_arc(m, form)).collect()),
        string: Arc::new(base.iter().map(|m| build_string(m, form)).collect()),
    };
    let n = 2 + src.draw(2) as usize;
    let mut specs: Vec<Arc<Spec>> = vec![];
    for _ in 0..n {
        // one that is there already, or another one
        if !specs.is_empty() && src.chance(1, 5) {
            let s = src.pick(&specs).clone();
            specs.push(s);
        } else {
            specs.push(Arc::new(gen_spec(src, avg, max, base.len(), &base)));
        }
    }
    let plan = src.list(12, 40, |s| (s.draw(3) as usize, 1 + s.draw(3) as usize));
    ctx.label(match how {
        How::InTurn => "in turn",
        How::Interleaved => "interleaved",
        How::Parallel => "parallel",
        How::Moving => "moving from thread to thread",
    });
    for s in &specs {
        ctx.label(s.what.label());
        ctx.label_if(s.stop != usize::MAX, "given up midway");
        ctx.hash(s.about.as_bytes());
    }
    ctx.hash(format!("{how:?}{plan:?}").as_bytes());
    ctx.sample(|| format!("{how:?} {plan:?}: {:#?}", specs.iter().map(|s| &s.about).collect::<Vec<_>>()));
    // each alone, in a new thread
    let mut alone = vec![];
    for s in &specs {
        alone.push(fresh(|| Live::new(s, &shared).run()));
    }
    for (s, log) in specs.iter().zip(&alone) {
        ctx.label_if(log.last().is_some_and(|l| l.starts_with("panic") || l.starts_with("error")), "one fails");
        if let (Some(want), By::Next | By::Objects, usize::MAX) = (&s.want, s.by, s.stop) {
            check!(log.len() == want.len() + 1, "alone: {} steps for {} objects: {}", log.len(), want.len(), s.about);
            check!(log[want.len()] == "end", "alone: {}: {}", log[want.len()], s.about);
        }
    }
    for (s, log) in specs.iter().zip(&alone) {
        // what was written completely
        let Some(doc) = log.last().and_then(|l| l.strip_prefix("written: ")).filter(|_| log.len() == s.headers.len() + s.objs.len() + 1) else {
            continue;
        };
        let doc = xmlp::parse(doc.as_bytes())?;
        let got = if s.what == WriteOsc {
            osmxml::read_osc(&doc.root)?
        } else {
            let (got, heads) = osmxml::read_osm(&doc.root)?;
            for (i, (k, v)) in s.headers.iter().enumerate() {
                if s.headers[i + 1..].iter().all(|h| h.0 != *k) {
                    let h = heads.iter().find(|h| h.0 == *k).map(|h| h.1.as_str());
                    check!(h == Some(v), "alone: header {k} is {h:?} instead of {v:?}");
                }
            }
            got
        };
        if let Some(d) = diff(&s.objs, &got) {
            fail!("alone: {} {d}", s.what.label());
        }
    }
    ctx.nontrivial = alone.iter().filter(|l| l.len() > 1).count() > 1;
    let rounds = match how {
        How::Parallel if ctx.thorough => 8,
        How::Parallel => 3,
        _ => 1,
    };
    for _ in 0..rounds {
        ctx.eval();
        let got = run(how, &specs, &shared, &plan);
        for (i, (a, g)) in alone.iter().zip(&got).enumerate() {
            for j in 0..a.len().max(g.len()) {
                if a.get(j) != g.get(j) {
                    fail!("{how:?}: step {j} of {i} ({}) gives {:?} instead of {:?}", specs[i].what.label(), g.get(j), a.get(j));
                }
            }
        }
    }
    // what all had, none has changed
    for (i, m) in base.iter().enumerate() {
        if let Some(d) = diff1(m, &snap(&shared.arc[i])?) {
            fail!("shared Arc object {i}: {d}");
        }
        if let Some(d) = diff1(m, &snap(&shared.string[i])?) {
            fail!("shared String object {i}: {d}");
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C33",
        level: "exploration",
        rule: "distinct (two to four activities with their inputs, schedule) of which at least two have two steps or more",
        run: c33,
        quick: 30_000,
        thorough: 1_500_000,
        exhaustive: None,
        assumptions: &["parallel threads are scheduled by the operating system; there each combination is run several times"],
    }]
}
