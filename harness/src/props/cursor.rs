//! C10: selective iteration
use crate::engine::*;
use crate::model::*;
use crate::pbf::{self, Layout};
use crate::{osmxml, check, fail};
use osmio::osc::OSCReader;
use osmio::xml::XMLReader;
use osmio::{arcpbf, stringpbf, OSMReader};

#[derive(Debug, Clone, Copy, PartialEq)]
enum Op {
    Next,
    /// Some(kind): typed; how many at most; through the method of the type, if it has one
    Iter(Option<Kind>, usize, bool),
    /// the same, consumed in one of the other ways an iterator has
    Other(Option<Kind>, How, bool),
    /// say that the file is (not) sorted by type; true only where it is
    Sorted(bool, bool),
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum How {
    Take(usize),
    Nth(usize),
    Count,
    Last,
    Fold,
    /// every how manyth, at most so many
    StepBy(usize, usize),
    /// the first one whose id has the remainder
    Find(i64),
}

trait Cursor {
    fn step(&mut self, op: Op) -> Result<Vec<MObj>, String>;
    /// Take the source back out
    fn finish(self) -> Result<(), String>;
}

fn remainder(m: &MObj, r: i64) -> bool {
    m.id.rem_euclid(3) == r
}

/// For the count: so many objects, of no content
fn take<T>(mut it: impl Iterator<Item = T>, how: How, f: impl Fn(&T) -> Result<MObj, String>) -> Result<Vec<MObj>, String> {
    match how {
        How::Take(n) => it.take(n).map(|o| f(&o)).collect(),
        How::Nth(n) => it.nth(n).iter().map(f).collect(),
        How::Count => Ok(vec![MObj::new(Kind::Node, 0); it.count()]),
        How::Last => it.last().iter().map(f).collect(),
        How::Fold => it.fold(Ok(vec![]), |v: Result<Vec<MObj>, String>, o| {
            let mut v = v?;
            v.push(f(&o)?);
            Ok(v)
        }),
        How::StepBy(k, n) => it.step_by(k).take(n).map(|o| f(&o)).collect(),
        How::Find(r) => it.find(|o| f(o).is_ok_and(|m| remainder(&m, r))).iter().map(f).collect(),
    }
}

/// A source that knows who it is
struct Named<'a> {
    data: &'a [u8],
    name: u32,
}
impl std::io::Read for Named<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        std::io::Read::read(&mut self.data, buf)
    }
}
fn named(data: &[u8]) -> Named<'_> {
    Named { data, name: 77 }
}
fn given_back(r: Named, what: &str) -> Result<(), String> {
    if r.name == 77 { Ok(()) } else { Err(format!("{what} gives another source")) }
}

fn generic<R: OSMReader>(r: &mut R, op: Op) -> Result<Vec<MObj>, String> {
    match op {
        Op::Next => r.next().iter().map(snap).collect(),
        Op::Iter(None, n, _) => {
            let mut it = r.objects();
            let mut v = vec![];
            let mut hints = vec![];
            while v.len() < n {
                hints.push((v.len(), it.size_hint()));
                match it.next() {
                    Some(o) => v.push(snap(&o)?),
                    None => break,
                }
            }
            if n == usize::MAX {
                for (at, (lo, hi)) in hints {
                    let left = v.len() - at;
                    if lo > left || hi.is_some_and(|h| h < left) {
                        return Err(format!("size_hint is ({lo}, {hi:?}) with {left} objects left"));
                    }
                }
            }
            Ok(v)
        }
        Op::Sorted(b, long) => {
            match (b, long) {
                (b, true) => r.set_sorted_assumption(b),
                (true, _) => r.assume_sorted(),
                (false, _) => r.assume_unsorted(),
            }
            Ok(vec![])
        }
        Op::Iter(k, n, m) => generic(r, Op::Other(k, How::Take(n), m)),
        Op::Other(None, h, _) => take(r.objects(), h, snap),
        Op::Other(Some(Kind::Node), h, _) => take(r.nodes(), h, snap_node),
        Op::Other(Some(Kind::Way), h, _) => take(r.ways(), h, snap_way),
        Op::Other(Some(Kind::Relation), h, _) => take(r.relations(), h, snap_relation),
    }
}

/// and whether it has inner()
struct G<R>(R, bool);
impl<'a, R: OSMReader<R = Named<'a>>> Cursor for G<R> {
    fn step(&mut self, op: Op) -> Result<Vec<MObj>, String> {
        generic(&mut self.0, op)
    }
    fn finish(self) -> Result<(), String> {
        if self.1 && self.0.inner().name != 77 {
            return Err("inner() is another source".into());
        }
        given_back(self.0.into_inner(), "into_inner()")
    }
}

struct S<'a>(stringpbf::PBFReader<Named<'a>>);
impl Cursor for S<'_> {
    fn step(&mut self, op: Op) -> Result<Vec<MObj>, String> {
        let r = &mut self.0;
        match op {
            Op::Iter(k @ Some(_), n, true) => self.step(Op::Other(k, How::Take(n), true)),
            Op::Other(Some(Kind::Node), h, true) => take(r.nodes(), h, snap_node),
            Op::Other(Some(Kind::Way), h, true) => take(r.ways(), h, snap_way),
            Op::Other(Some(Kind::Relation), h, true) => take(r.relations(), h, snap_relation),
            op => generic(r, op),
        }
    }
    fn finish(self) -> Result<(), String> {
        G(self.0, true).finish()
    }
}

fn run(mut c: impl Cursor, objs: &[MObj], ops: &[Op], cmp: impl Fn(usize, &MObj) -> Option<String>) -> Res {
    let mut at = 0;
    let sorted = objs.windows(2).all(|w| w[0].kind <= w[1].kind);
    for (i, op) in ops.iter().enumerate() {
        // the model
        let mut want = vec![];
        let (kind, n) = match op {
            Op::Next => (None, 1),
            Op::Iter(k, n, _) => (*k, *n),
            Op::Sorted(true, _) if !sorted => continue,
            Op::Sorted(..) => (None, 0),
            Op::Other(k, h, _) => match h {
                How::Take(n) => (*k, *n),
                How::Nth(n) => (*k, n.saturating_add(1)),
                // the next one is only looked for when it is asked for
                How::StepBy(_, 0) => (*k, 0),
                How::StepBy(j, n) => (*k, (n - 1).saturating_mul(*j).saturating_add(1)),
                How::Count | How::Last | How::Fold | How::Find(_) => (*k, usize::MAX),
            },
        };
        while want.len() < n && at < objs.len() {
            if kind.is_none_or(|k| k == objs[at].kind) {
                want.push(at);
                if matches!(op, Op::Other(_, How::Find(r), _) if remainder(&objs[at], *r)) {
                    at += 1;
                    break;
                }
            }
            at += 1;
        }
        if let Op::Other(_, h, _) = op {
            match h {
                How::Nth(k) => want = want.get(*k).copied().into_iter().collect(),
                How::Last => want = want.last().copied().into_iter().collect(),
                How::Find(r) => want = want.last().copied().filter(|i| remainder(&objs[*i], *r)).into_iter().collect(),
                How::StepBy(j, _) => want = want.into_iter().step_by(*j).collect(),
                How::Take(_) | How::Count | How::Fold => {}
            }
        }
        let got = match catch(|| c.step(*op)) {
            Ok(r) => r?,
            Err(p) => fail!("operation {i} ({op:?}) panics: {p}"),
        };
        let blank = matches!(op, Op::Other(_, How::Count, _));
        for (w, g) in want.iter().zip(&got).filter(|_| !blank) {
            if let Some(d) = cmp(*w, g) {
                fail!("operation {i} ({op:?}): {d}");
            }
        }
        check!(
            want.len() == got.len(),
            "operation {i} ({op:?}): {} objects instead of {} (cursor now at {at} of {})",
            got.len(),
            want.len(),
            objs.len()
        );
    }
    match catch(|| c.finish()) {
        Ok(r) => r,
        Err(p) => fail!("inner() or into_inner() panics: {p}"),
    }
}

fn c10(src: &mut Src, ctx: &mut Ctx) -> Res {
    let ops: Vec<Op> = {
        let mut v = src.list(5, 20, |s| match s.draw(10) {
            0..=2 => Op::Next,
            10 => Op::Sorted(s.draw(3) != 0, s.coin()),
            x => {
                let k = if x == 3 { None } else { Some(*s.pick(&KINDS)) };
                let n = match s.draw(4) {
                    0 | 1 => 1,
                    2 => 1 + s.draw(4) as usize,
                    3 => 0,
                    _ => usize::MAX,
                };
                let typed = s.draw(3) != 0;
                match s.draw(15) {
                    15 => Op::Other(k, How::Nth(s.draw(6) as usize), typed),
                    14 => Op::Other(k, How::Count, typed),
                    13 => Op::Other(k, How::Last, typed),
                    12 => Op::Other(k, How::Fold, typed),
                    11 => Op::Other(k, How::StepBy(1 + s.draw(3) as usize, s.draw(4) as usize), typed),
                    10 => Op::Other(k, How::Find(s.draw(2) as i64), typed),
                    _ => Op::Iter(k, n, typed),
                }
            }
        });
        // and see what is left
        match src.draw(3) {
            0 => v.push(Op::Iter(None, usize::MAX, true)),
            1 => {
                let k = *src.pick(&KINDS);
                v.insert(0, Op::Iter(Some(k), usize::MAX, true));
                v.push(Op::Next);
            }
            _ => {}
        }
        v
    };
    let typed = ops.iter().filter(|o| matches!(o, Op::Iter(Some(_), ..) | Op::Other(Some(_), ..))).count();
    ctx.hash(format!("{ops:?}").as_bytes());
    ctx.label_if(typed > 1, "several typed iterations");
    ctx.label_if(ops.iter().any(|o| matches!(o, Op::Iter(_, usize::MAX, _))), "full iteration");
    ctx.label_if(ops.iter().any(|o| matches!(o, Op::Other(..))), "nth, count, last, fold, step_by, find");
    let hinted = ops.iter().any(|o| matches!(o, Op::Sorted(true, _)));
    // the hint may be given for sorted files only
    let sort = if hinted { src.draw(3) != 0 } else { src.draw(3) == 0 };
    ctx.label_if(sort && hinted, "declared sorted");
    let which = src.draw(3);
    let many = src.chance(1, 300);
    ctx.label_if(many, "hundreds of objects");
    let (avg, max) = if many { (300, 1200) } else { (8, 60) };
    if which < 2 {
        let mut objs = pbf::gen_pobjs(src, PBF, avg, max);
        if sort {
            objs.sort_by_key(|o| o.m.kind);
        }
        let mut l = Layout::gen_for(src, true);
        if src.coin() {
            l.new_block = 2;
        }
        let f = pbf::encode(src, &mut objs, l);
        pbf::label(ctx, &f);
        ctx.hash(&f.bytes);
        ctx.hash(&[which as u8]);
        let ms: Vec<MObj> = objs.iter().map(|p| p.m.clone()).collect();
        let kinds: std::collections::HashSet<Kind> = ms.iter().map(|m| m.kind).collect();
        ctx.nontrivial = typed > 0 && kinds.len() > 1;
        ctx.label(if which == 0 { "stringpbf" } else { "arcpbf" });
        ctx.sample(|| format!("{which}: {ops:?} on {:?} blocks of {:?}", f.data.iter().map(|d| d.count).collect::<Vec<_>>(), ms.iter().map(|m| m.kind).collect::<Vec<_>>()));
        let cmp = |i: usize, g: &MObj| pbf::matches(&objs[i], g);
        return if which == 0 {
            run(S(stringpbf::PBFReader::new(named(&f.bytes))), &ms, &ops, cmp)
        } else {
            run(G(arcpbf::PBFReader::new(named(&f.bytes)), true), &ms, &ops, cmp)
        };
    }
    let mut ms = gen_objs(src, XML, avg, max);
    if sort {
        ms.sort_by_key(|o| o.kind);
    }
    let doc = if which == 2 { osmxml::osm_doc(src, &ms) } else { osmxml::osc_doc(src, &ms) };
    ctx.hash(&doc.bytes);
    let kinds: std::collections::HashSet<Kind> = ms.iter().map(|m| m.kind).collect();
    ctx.nontrivial = typed > 0 && kinds.len() > 1;
    ctx.label(if which == 2 { "xml" } else { "osc" });
    ctx.sample(|| format!("{which}: {ops:?} on {:?}", ms.iter().map(|m| m.kind).collect::<Vec<_>>()));
    let cmp = |i: usize, g: &MObj| {
        let mut w = ms[i].clone();
        if doc.unstated.contains(&i) {
            w.deleted = g.deleted;
        }
        diff1(&w, g)
    };
    if which == 2 {
        run(G(XMLReader::new(named(&doc.bytes)), false), &ms, &ops, cmp)
    } else {
        run(G(OSCReader::new(named(&doc.bytes)), false), &ms, &ops, cmp)
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C10",
        level: "exploration",
        rule: "distinct (file, history) pairs with objects of at least two types and at least one typed iteration",
        run: c10,
        quick: 250_000,
        thorough: 4_000_000,
        exhaustive: None,
        assumptions: &["valid input files as for C04 to C07"],
    }]
}
