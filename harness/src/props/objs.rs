//! C21 to C25: the object types themselves
use super::xmlw::AnyObj;
use crate::engine::*;
use crate::model::*;
use crate::osmxml;
use crate::pbf::{self, Layout};
use crate::text::{self, TextKind};
use crate::{check, fail, json, time};
use osmio::obj_types::*;
use osmio::{Lat, Lon, Node, OSMObj, OSMObjBase, OSMReader, Relation, TimestampFormat, Way};

/// One change to an object
#[derive(Clone, Debug)]
enum Op {
    Id(i64),
    Version(Option<u32>),
    Deleted(bool),
    Changeset(Option<u32>),
    Ts(Option<(i64, TsForm)>),
    Uid(Option<u32>),
    User(Option<String>),
    SetTag(String, String),
    Unset(String),
    Strip,
    LatLon(Option<(i32, i32)>),
    UnsetLatLon,
    Nodes(Vec<i64>),
    Members(Vec<(Kind, i64, String)>),
    CloneIt,
}

const KEYS: &[&str] = &["a", "b", "name", "area", "", "A", "name ", "é"];

fn key(src: &mut Src, m: &MObj) -> String {
    if !m.tags.is_empty() && src.coin() {
        return src.pick(&m.tags).0.clone();
    }
    if src.chance(1, 4) { text::text(src, TextKind::Any) } else { src.pick(KEYS).to_string() }
}

fn gen_op(src: &mut Src, m: &MObj) -> Op {
    let opt = |src: &mut Src| src.draw(2) != 0;
    match src.draw(15) {
        0 => Op::Id(gen_id(src, false)),
        1 => Op::Version(if opt(src) { Some(gen_u32(src, u32::MAX)) } else { None }),
        2 => Op::Deleted(src.coin()),
        3 => Op::Changeset(if opt(src) { Some(gen_u32(src, u32::MAX)) } else { None }),
        4 => Op::Ts(if opt(src) { Some((gen_ts(src), gen_ts_form(src))) } else { None }),
        5 => Op::Uid(if opt(src) { Some(gen_u32(src, u32::MAX)) } else { None }),
        6 => Op::User(if opt(src) { Some(text::text(src, TextKind::Any)) } else { None }),
        7..=9 => {
            let k = key(src, m);
            let v = match src.draw(3) {
                0 => "no".into(),
                1 => "yes".into(),
                _ => text::text(src, TextKind::Any),
            };
            Op::SetTag(k, v)
        }
        10 | 11 => Op::Unset(key(src, m)),
        12 => Op::Strip,
        13 | 14 => match m.kind {
            Kind::Node => {
                if src.draw(2) == 0 {
                    Op::UnsetLatLon
                } else {
                    Op::LatLon(if src.draw(4) != 0 { Some(gen_latlon(src)) } else { None })
                }
            }
            Kind::Way => Op::Nodes(gen_nodes(src, false)),
            Kind::Relation => Op::Members(gen_members(src, ANY)),
        },
        _ => Op::CloneIt,
    }
}

/// What the change means
fn model(m: &mut MObj, op: &Op) {
    match op.clone() {
        Op::Id(x) => m.id = x,
        Op::Version(x) => m.version = x,
        Op::Deleted(x) => m.deleted = x,
        Op::Changeset(x) => m.changeset = x,
        Op::Ts(x) => m.ts = x.map(|t| t.0),
        Op::Uid(x) => m.uid = x,
        Op::User(x) => m.user = x,
        Op::SetTag(k, v) => match m.tags.iter_mut().find(|t| t.0 == k) {
            Some(t) => t.1 = v,
            None => m.tags.push((k, v)),
        },
        Op::Unset(k) => m.tags.retain(|t| t.0 != k),
        Op::Strip => {
            m.user = None;
            m.uid = None;
            m.changeset = None;
        }
        Op::LatLon(x) => m.latlon = x,
        Op::UnsetLatLon => m.latlon = None,
        Op::Nodes(x) => m.nodes = x,
        Op::Members(x) => m.members = x,
        Op::CloneIt => {}
    }
}

fn base<O: OSMObjBase>(o: &mut O, op: &Op, how: u64) {
    match op {
        Op::Id(x) => match (how, i32::try_from(*x), u32::try_from(*x)) {
            (1, Ok(i), _) => o.set_id(i),
            (2, _, Ok(u)) => o.set_id(u),
            _ => o.set_id(*x),
        },
        Op::Version(x) => match (how, x) {
            (1, Some(v)) => o.set_version(*v),
            _ => o.set_version(*x),
        },
        Op::Deleted(x) => o.set_deleted(*x),
        Op::Changeset(x) => match (how, x) {
            (1, Some(v)) => o.set_changeset_id(*v),
            _ => o.set_changeset_id(*x),
        },
        Op::Ts(x) => match (how, x) {
            (1, Some((t, f))) => o.set_timestamp(timestamp(*t, *f)),
            _ => o.set_timestamp(x.map(|(t, f)| timestamp(t, f))),
        },
        Op::Uid(x) => match (how, x) {
            (1, Some(v)) => o.set_uid(*v),
            _ => o.set_uid(*x),
        },
        Op::User(x) => match (how, x) {
            (1, Some(v)) => o.set_user(v.as_str()),
            _ => o.set_user(x.as_deref()),
        },
        Op::SetTag(k, v) => match how {
            0 => o.set_tag(k, v.as_str()),
            1 => o.set_tag(k.as_str(), v.clone()),
            _ => o.set_tag(k.clone(), smol_str::SmolStr::new(v)),
        },
        Op::Unset(k) => match how {
            0 => o.unset_tag(k),
            1 => o.unset_tag(k.as_str()),
            _ => o.unset_tag(k.clone()),
        },
        Op::Strip => o.strip_metadata(),
        Op::CloneIt => *o = o.clone(),
        Op::LatLon(_) | Op::UnsetLatLon | Op::Nodes(_) | Op::Members(_) => unreachable!(),
    }
}

fn change<O: OSMObj>(o: &mut O, op: &Op, direct: bool, how: u64) {
    match op {
        Op::LatLon(x) => {
            let n = o.as_node_mut().unwrap();
            let ll = x.map(|(a, b)| (Lat::from_inner(a), Lon::from_inner(b)));
            match (how, ll) {
                (1, Some((a, b))) => n.set_lat_lon((a.degrees(), b.degrees())).unwrap(),
                (2, None) => n.set_lat_lon(None as Option<(f64, f64)>).unwrap(),
                _ => n.set_lat_lon_direct(ll),
            }
        }
        Op::UnsetLatLon => o.as_node_mut().unwrap().unset_lat_lon(),
        Op::Nodes(x) => {
            let w = o.as_way_mut().unwrap();
            match how {
                0 => w.set_nodes(x.clone()),
                1 if x.iter().all(|i| i32::try_from(*i).is_ok()) => w.set_nodes(x.iter().map(|i| *i as i32)),
                _ => w.set_nodes(x.iter().copied()),
            }
        }
        Op::Members(x) => {
            let r = o.as_relation_mut().unwrap();
            match how {
                0 => r.set_members(x.iter().map(|(k, i, s)| (k.osm(), *i, s.as_str()))),
                _ => r.set_members(x.iter().map(|(k, i, s)| (k.osm(), *i, s.clone()))),
            }
        }
        op if direct => match Kind::of(o.object_type()) {
            Kind::Node => base(o.as_node_mut().unwrap(), op, how),
            Kind::Way => base(o.as_way_mut().unwrap(), op, how),
            Kind::Relation => base(o.as_relation_mut().unwrap(), op, how),
        },
        op => base(o, op, how),
    }
}

/// A change, and in which of the possible ways
#[derive(Clone, Debug)]
pub struct Edit(Op, bool, u64);
impl Edit {
    pub fn apply<O: OSMObj>(&self, o: &mut O) {
        change(o, &self.0, self.1, self.2);
    }
}

/// Some changes of an object, which `m` is now, and becomes
pub fn gen_edits(src: &mut Src, m: &mut MObj, max: usize) -> Vec<Edit> {
    src.list(2, max, |s| {
        let op = gen_op(s, m);
        model(m, &op);
        Edit(op, s.coin(), s.draw(2))
    })
}

/// The as_..., and into_... of the any-object give what is in it, and nothing else
fn unpack<O: OSMObj>(o: &O, m: &MObj) -> Res {
    let n = o.clone().into_node();
    let w = o.clone().into_way();
    let r = o.clone().into_relation();
    let got = (n.is_some(), w.is_some(), r.is_some());
    let want = (m.kind == Kind::Node, m.kind == Kind::Way, m.kind == Kind::Relation);
    check!(got == want, "into_node, into_way, into_relation of a {}: {got:?}", m.kind.name());
    let mut c = o.clone();
    let got = (c.as_node_mut().is_some(), c.as_way_mut().is_some(), c.as_relation_mut().is_some());
    check!(got == want, "as_node_mut, as_way_mut, as_relation_mut of a {}: {got:?}", m.kind.name());
    let g = match (n, w, r) {
        (Some(n), _, _) => snap_node(&n)?,
        (_, Some(w), _) => snap_way(&w)?,
        (_, _, Some(r)) => snap_relation(&r)?,
        _ => unreachable!(),
    };
    match diff1(m, &g) {
        None => Ok(()),
        Some(d) => Err(format!("after into_{}: {d}", m.kind.name())),
    }
}

fn history<O: OSMObj>(mut o: O, m: &mut MObj, src: &mut Src, ctx: &mut Ctx, log: &mut Vec<String>) -> Result<O, String> {
    let n = match src.draw(9) {
        0 => 0,
        1..=8 => 1 + src.draw(25),
        _ => 60 + src.draw(60),
    };
    if let Some(d) = diff1(m, &snap(&o)?) {
        fail!("at the start: {d}");
    }
    for i in 0..n {
        let op = gen_op(src, m);
        let (direct, how) = (src.coin(), src.draw(2));
        log.push(format!("{op:?}"));
        ctx.eval();
        match &op {
            Op::SetTag(k, _) => {
                let there = m.tags.iter().any(|t| t.0 == *k);
                ctx.label(if there { "tag replaced" } else { "tag added" })
            }
            Op::Unset(k) => ctx.label(if m.tags.iter().any(|t| t.0 == *k) { "tag removed" } else { "absent tag removed" }),
            Op::Strip => ctx.label("strip_metadata"),
            _ => {}
        }
        change(&mut o, &op, direct, how);
        model(m, &op);
        let got = snap(&o).map_err(|e| format!("after operation {i} of {log:?}: {e}"))?;
        if let Some(d) = diff1(m, &got) {
            fail!("after operation {i} of {log:?}: {d}");
        }
    }
    unpack(&o, m)?;
    Ok(o)
}

fn start(src: &mut Src) -> MObj {
    if src.coin() { gen_obj(src, ANY) } else { MObj::new(*src.pick(&KINDS), gen_id(src, false)) }
}

fn builder_mask(src: &mut Src) -> u64 {
    if src.coin() { 0 } else { src.draw(511) }
}

fn c21(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut m = start(src);
    let form = gen_ts_form(src);
    let mut log = vec![];
    let which = src.draw(2);
    let m0 = m.clone();
    let r = match which {
        0 => {
            ctx.label("String");
            let mask = builder_mask(src);
            ctx.label_if(mask & 127 != 0, "with the builder");
            let o = build_string_by(&m, form, mask).map_err(|e| format!("the builder ({mask:b}): {e}"))?;
            history(o, &mut m, src, ctx, &mut log).map(|_| ())
        }
        1 => {
            ctx.label("Arc");
            history(build_arc(&m, form), &mut m, src, ctx, &mut log).map(|_| ())
        }
        _ => {
            ctx.label("Rc");
            history(build_rc(&m, form), &mut m, src, ctx, &mut log).map(|_| ())
        }
    };
    ctx.label(match m.kind {
        Kind::Node => "node",
        Kind::Way => "way",
        Kind::Relation => "relation",
    });
    ctx.hash(format!("{which}{m0:?}{log:?}").as_bytes());
    ctx.nontrivial = !log.is_empty();
    ctx.sample(|| format!("{} starting as {m0:?}: {log:?}", ["String", "Arc", "Rc"][which as usize]));
    r
}

/// Reach the state `m` with other operations before
fn detour<O: OSMObj>(o: &mut O, m: &MObj, form: TsForm, src: &mut Src) {
    // changes which are all undone
    let mut tmp = snap(o).unwrap();
    for _ in 0..src.draw(8) {
        let op = gen_op(src, &tmp);
        change(o, &op, src.coin(), 0);
        model(&mut tmp, &op);
    }
    for (k, _) in tmp.tags {
        o.unset_tag(k);
    }
    o.set_id(m.id);
    apply(o, m, form);
}

fn c22(src: &mut Src, ctx: &mut Ctx) -> Res {
    let m = gen_obj(src, ANY);
    let form = gen_ts_form(src);
    let hist = src.coin();
    ctx.hash(format!("{m:?}{form:?}").as_bytes());
    ctx.nontrivial = nontrivial(std::slice::from_ref(&m)) || m.latlon.is_some();
    ctx.label(match m.kind {
        Kind::Node => "node",
        Kind::Way => "way",
        Kind::Relation => "relation",
    });
    ctx.sample(|| format!("{m:?} {form:?}"));
    let mut a = build_arc(&m, form);
    let mut r = build_rc(&m, form);
    if hist {
        detour(&mut a, &m, form, src);
        detour(&mut r, &m, form, src);
    }
    macro_rules! conv {
        ($what:literal, $o:expr) => {{
            let o = $o;
            let s0 = snap(&o)?;
            let ts = o.timestamp().clone();
            if let Some(d) = diff1(&m, &s0) {
                fail!("{} before conversion: {d}", $what);
            }
            let s: StringOSMObj = o.clone().into();
            ctx.eval();
            if let Some(d) = diff1(&s0, &snap(&s)?) {
                fail!("{} to String: {d}", $what);
            }
            check!(*s.timestamp() == ts, "{} to String: timestamp {:?} instead of {ts:?}", $what, s.timestamp());
            let d = match (o.clone().into_node(), o.clone().into_way(), o.clone().into_relation()) {
                (Some(n), _, _) => snap_node(&StringNode::from(n))?,
                (_, Some(w), _) => snap_way(&StringWay::from(w))?,
                (_, _, Some(r)) => snap_relation(&StringRelation::from(r))?,
                _ => fail!("{} is nothing", $what),
            };
            if let Some(d) = diff1(&s0, &d) {
                fail!("{} to String, of the type itself: {d}", $what);
            }
        }};
    }
    conv!("Arc", a);
    conv!("Rc", r);
    Ok(())
}

/// Change one thing, or nothing
fn vary(src: &mut Src, m: &MObj) -> MObj {
    let mut x = m.clone();
    match src.draw(17) {
        0..=3 => {}
        4 => x.id = gen_id(src, false),
        5 => x.version = if src.coin() { None } else { Some(gen_u32(src, 9)) },
        6 => x.deleted = !x.deleted,
        7 => x.changeset = if src.coin() { None } else { Some(gen_u32(src, 9)) },
        8 => x.ts = if src.coin() { None } else { Some((x.ts.unwrap_or(0) + src.range(-1, 1)).clamp(time::MIN, time::MAX)) },
        9 => x.uid = if src.coin() { None } else { Some(gen_u32(src, 9)) },
        10 => x.user = if src.coin() { None } else { Some(text::text(src, TextKind::Any)) },
        11 => {
            if !x.tags.is_empty() {
                let i = src.below(x.tags.len());
                x.tags[i].1 = text::text(src, TextKind::Any);
            }
        }
        12 => {
            if !x.tags.is_empty() {
                let i = src.below(x.tags.len());
                x.tags.remove(i);
            }
        }
        13 => {
            let k = key(src, &MObj::new(Kind::Node, 0));
            if !x.tags.iter().any(|t| t.0 == k) {
                x.tags.push((k, String::new()));
            }
        }
        14 => {
            if x.tags.len() > 1 {
                let i = src.below(x.tags.len() - 1);
                x.tags.swap(i, i + 1);
            }
        }
        15 | 16 => match x.kind {
            Kind::Node => {
                x.latlon = match (src.draw(3), x.latlon) {
                    (1, Some((a, b))) => Some((a ^ 1, b)),
                    (2, Some((a, b))) => Some((a, b ^ 1)),
                    (3, Some((a, b))) => Some((b, a)),
                    _ => None,
                }
            }
            Kind::Way => {
                if !x.nodes.is_empty() {
                    let i = src.below(x.nodes.len());
                    match src.draw(2) {
                        0 => {
                            x.nodes.remove(i);
                        }
                        1 => x.nodes[i] ^= 1,
                        _ => x.nodes.reverse(),
                    }
                }
            }
            Kind::Relation => {
                if !x.members.is_empty() {
                    let i = src.below(x.members.len());
                    match src.draw(3) {
                        0 => {
                            x.members.remove(i);
                        }
                        1 => x.members[i].1 ^= 1,
                        2 => x.members[i].0 = KINDS[(KINDS.iter().position(|k| *k == x.members[i].0).unwrap() + 1) % 3],
                        _ => x.members[i].2.push('x'),
                    }
                }
            }
        },
        _ => {
            x.kind = KINDS[(KINDS.iter().position(|k| *k == x.kind).unwrap() + 1) % 3];
            x.latlon = None;
            x.nodes.clear();
            x.members.clear();
        }
    }
    x
}

fn eq_check<O: OSMObj>(a: &O, b: &O, what: &str) -> Result<bool, String> {
    let (ma, mb) = (snap(a)?, snap(b)?);
    let mut want = ma == mb;
    if let (Some(TimestampFormat::ISOString(s)), Some(TimestampFormat::ISOString(t))) = (a.timestamp(), b.timestamp()) {
        if s != t && (!canonical(s) || !canonical(t)) {
            // as texts with an offset these are not the same value, even if they are the same instant
            want &= a.timestamp() == b.timestamp();
        }
    }
    let got = [a == b, b == a, !(a != b), a.clone() == *b, *a == *b];
    check!(got.iter().all(|g| *g == want), "{what}: == is {got:?}, but the getters are {}: {ma:?} and {mb:?}", if want { "equal" } else { "different" });
    // and the objects inside
    let inner = match (ma.kind, mb.kind) {
        (Kind::Node, Kind::Node) => Some(a.as_node().unwrap().eq_(b.as_node().unwrap())),
        (Kind::Way, Kind::Way) => Some(a.as_way().unwrap().eq_(b.as_way().unwrap())),
        (Kind::Relation, Kind::Relation) => Some(a.as_relation().unwrap().eq_(b.as_relation().unwrap())),
        _ => None,
    };
    if let Some(g) = inner {
        check!(g == want, "{what}: == of the {}s is {g}, but the getters are {}: {ma:?} and {mb:?}", ma.kind.name(), if want { "equal" } else { "different" });
    }
    check!(a == a && b == b, "{what}: not equal to itself");
    Ok(want)
}
fn canonical(s: &str) -> bool {
    time::parse(s).is_some_and(|t| time::iso(t) == s)
}
trait Eq_ {
    fn eq_(&self, o: &Self) -> bool;
}
impl<T: PartialEq> Eq_ for T {
    fn eq_(&self, o: &T) -> bool {
        self == o && !(self != o)
    }
}

fn clone_check<O: OSMObj>(o: &O, src: &mut Src) -> Res {
    let before = snap(o)?;
    let mut c = o.clone();
    check!(c == *o && snap(&c)? == before, "a clone differs: {:?} of {before:?}", snap(&c)?);
    let mut m = before.clone();
    let mut ops = vec![];
    for _ in 0..1 + src.draw(3) {
        let op = gen_op(src, &m);
        change(&mut c, &op, src.coin(), 0);
        model(&mut m, &op);
        ops.push(op);
    }
    let after = snap(o)?;
    check!(after == before, "changes {ops:?} of a clone changed the original from {before:?} to {after:?}");
    check!(snap(&c)? == m, "a changed clone is {:?} instead of {m:?}", snap(&c)?);
    eq_check(o, &c, "original and changed clone")?;
    // the other way around
    let mut o2 = o.clone();
    let c2 = o2.clone();
    for op in &ops {
        change(&mut o2, op, false, 0);
    }
    check!(snap(&c2)? == before, "changes {ops:?} of the original changed the clone to {:?}", snap(&c2)?);
    Ok(())
}

fn c23(src: &mut Src, ctx: &mut Ctx) -> Res {
    let form = |s: &mut Src| if s.coin() { TsForm::Epoch } else { TsForm::Iso };
    let from_file = src.chance(1, 4);
    let a = gen_obj(src, if from_file { PBF_XML } else { ANY });
    let b = vary(src, &a);
    let which = src.draw(2);
    let (fa, fb) = (form(src), form(src));
    ctx.hash(format!("{which}{a:?}{fa:?}{b:?}{fb:?}{from_file}").as_bytes());
    ctx.nontrivial = true;
    ctx.label(if a == b { "same state" } else { "different state" });
    ctx.label_if(fa != fb && a.ts.is_some(), "different timestamp forms");
    ctx.label_if(from_file, "one read from a file");
    ctx.sample(|| format!("{:?}", (&a, fa, &b, fb)));
    macro_rules! fam {
        ($what:literal, $build:ident, $file:expr) => {{
            ctx.label($what);
            let mut x = $build(&a, fa);
            let y = $build(&b, fb);
            if $what == "String" {
                let z = build_string_by(&b, fb, builder_mask(src)).map_err(|e| format!("the builder: {e}"))?;
                check!(eq_check(&build_string(&b, fb), &z, "String, with the builder")?, "differs from the one with setters: {z:?}");
            }
            eq_check(&x, &y, $what)?;
            detour(&mut x, &a, fa, src);
            eq_check(&x, &y, concat!($what, ", after a history"))?;
            let y2 = $build(&a, fa);
            check!(eq_check(&x, &y2, concat!($what, ", after a history"))?, "the history led elsewhere: {:?}", snap(&x)?);
            if from_file {
                if let Some(z) = $file {
                    eq_check(&x, &z, concat!($what, ", read from a file"))?;
                    eq_check(&y, &z, concat!($what, ", read from a file"))?;
                    clone_check(&z, src)?;
                }
            }
            clone_check(&x, src)
        }};
    }
    match which {
        0 => fam!("String", build_string, string_from_file(src, &a)?),
        1 => fam!("Arc", build_arc, arc_from_file(src, &a)?),
        _ => fam!("Rc", build_rc, None::<crate::hooks::RcOSMObj>),
    }
}

fn one_object_pbf(src: &mut Src, m: &MObj) -> Vec<u8> {
    let mut objs = vec![pbf::PObj::from(m.clone(), true)];
    let l = Layout::gen_for(src, true);
    pbf::encode(src, &mut objs, l).bytes
}

fn string_from_file(src: &mut Src, m: &MObj) -> Result<Option<StringOSMObj>, String> {
    if src.coin() {
        let d = osmxml::osm_doc(src, std::slice::from_ref(m));
        let mut r = osmio::xml::XMLReader::new(&d.bytes[..]);
        Ok(catch(|| r.next())?)
    } else {
        let b = one_object_pbf(src, m);
        let mut r = osmio::stringpbf::PBFReader::new(&b[..]);
        Ok(catch(|| r.next())?)
    }
}

fn arc_from_file(src: &mut Src, m: &MObj) -> Result<Option<ArcOSMObj>, String> {
    let b = one_object_pbf(src, m);
    let mut r = osmio::arcpbf::PBFReader::new(&b[..]);
    Ok(catch(|| r.next())?)
}

fn json_of(o: &AnyObj) -> [String; 2] {
    fn two<O: OSMObj>(o: &O) -> [String; 2] {
        let inner = if let Some(n) = o.as_node() {
            n.tags_json_string()
        } else if let Some(w) = o.as_way() {
            w.tags_json_string()
        } else {
            o.as_relation().unwrap().tags_json_string()
        };
        [o.tags_json_string(), inner]
    }
    match o {
        AnyObj::S(o) => two(o),
        AnyObj::A(o) => two(o),
        AnyObj::R(o) => two(o),
    }
}

fn c24(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut m = MObj::new(*src.pick(&KINDS), gen_id(src, false));
    m.tags = text::tags(src, TextKind::Any);
    if src.coin() && m.tags.is_empty() {
        m.tags.push((text::text(src, TextKind::Any), text::text(src, TextKind::Any)));
    }
    ctx.hash(format!("{m:?}").as_bytes());
    ctx.nontrivial = !m.tags.is_empty();
    let all = || m.tags.iter().flat_map(|t| t.0.chars().chain(t.1.chars()));
    ctx.label_if(all().any(|c| c < ' '), "control characters");
    ctx.label_if(all().any(|c| c == '"' || c == '\\'), "quotes or backslashes");
    ctx.label_if(all().any(|c| c as u32 > 0xffff), "beyond the BMP");
    ctx.label_if(m.tags.is_empty(), "untagged");
    ctx.sample(|| format!("{:?}", m.tags));
    let mut built = vec![
        AnyObj::S(build_string(&m, TsForm::Epoch)),
        AnyObj::A(build_arc(&m, TsForm::Epoch)),
        AnyObj::R(build_rc(&m, TsForm::Epoch)),
    ];
    // an object that once had tags
    if m.tags.is_empty() && src.coin() {
        ctx.label("tags removed again");
        for o in &mut built {
            match o {
                AnyObj::S(o) => (o.set_tag("a", "b"), o.unset_tag("a")),
                AnyObj::A(o) => (o.set_tag("a", "b"), o.unset_tag("a")),
                AnyObj::R(o) => (o.set_tag("a", "b"), o.unset_tag("a")),
            };
        }
    }
    let mut want = m.tags.clone();
    want.sort();
    for o in &built {
        for s in json_of(o) {
            ctx.eval();
            match json::object(&s) {
                Err(e) => fail!("not a JSON object of strings ({e}): {s}"),
                Ok(mut got) => {
                    got.sort();
                    check!(got == want, "{s} has {got:?} instead of {want:?}");
                }
            }
            check!(!m.tags.is_empty() || s == "{}", "{s:?} for no tags");
        }
    }
    Ok(())
}

fn c25(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut m = MObj::new(Kind::Way, gen_id(src, false));
    m.nodes = gen_nodes(src, false);
    if src.coin() && m.nodes.len() > 1 {
        let last = m.nodes.len() - 1;
        match src.draw(3) {
            0 => m.nodes[last] = m.nodes[0],
            1 => m.nodes[last] = m.nodes[0] ^ (1 << src.draw(62)),
            2 => m.nodes[last] = m.nodes[0].wrapping_neg(),
            _ => m.nodes[last - 1] = m.nodes[0],
        }
    }
    m.tags = text::tags(src, TextKind::Any);
    m.tags.retain(|t| t.0 != "area");
    if src.draw(3) != 0 {
        let v = match src.draw(5) {
            0 | 1 => "no".to_string(),
            2 => "yes".to_string(),
            3 => src.pick(&["No", "NO", " no", "no ", "non", "n", "", "false", "0", "none", "nо"]).to_string(),
            _ => text::text(src, TextKind::Any),
        };
        let k = if src.draw(4) != 0 { "area" } else { *src.pick(&["Area", "area ", "area:highway", "are", "AREA"]) };
        let i = src.below(m.tags.len() + 1);
        m.tags.retain(|t| t.0 != k);
        m.tags.insert(i.min(m.tags.len()), (k.to_string(), v));
    }
    if src.chance(1, 5) {
        m.deleted = true;
        m.version = Some(3);
    }
    ctx.hash(format!("{m:?}").as_bytes());
    let closed = !m.nodes.is_empty() && m.nodes[0] == m.nodes[m.nodes.len() - 1];
    let area_no = m.tags.iter().any(|t| t.0 == "area" && t.1 == "no");
    ctx.nontrivial = !m.nodes.is_empty();
    ctx.label(if closed { "closed" } else { "open" });
    ctx.label_if(closed && area_no, "closed with area=no");
    ctx.label_if(m.nodes.is_empty(), "no nodes");
    ctx.label_if(m.nodes.len() == 1, "one node");
    ctx.sample(|| format!("{m:?}"));
    fn one<O: OSMObj>(mut o: O, m: &MObj, closed: bool, area: bool, src: &mut Src, what: &str) -> Res {
        let judge = |w: &O::Way, nodes: &[i64], closed: bool, area: bool| -> Res {
            check!(w.is_closed() == closed, "{what}: is_closed() is {} for {nodes:?}", w.is_closed());
            check!(w.is_area() == area, "{what}: is_area() is {} for {nodes:?} {:?}", w.is_area(), m.tags);
            check!(w.nodes() == nodes && w.nids() == nodes && w.num_nodes() == nodes.len(), "{what}: nodes() {:?} nids() {:?} num_nodes() {} for {nodes:?}", w.nodes(), w.nids(), w.num_nodes());
            for i in (0..nodes.len() + 3).chain([usize::MAX, usize::MAX / 2, 1 << 32, (1 << 32) + nodes.len()]) {
                check!(w.node(i) == nodes.get(i).copied(), "{what}: node({i}) is {:?} of {nodes:?}", w.node(i));
            }
            Ok(())
        };
        judge(o.as_way().unwrap(), &m.nodes, closed, area)?;
        // after setting them again
        let nodes = gen_nodes(src, false);
        o.as_way_mut().unwrap().set_nodes(nodes.iter().copied());
        let c = !nodes.is_empty() && nodes.first() == nodes.last();
        let area_no = m.tags.iter().any(|t| t.0 == "area" && t.1 == "no");
        judge(o.as_way().unwrap(), &nodes, c, c && !area_no)?;
        // and changing the tag
        o.set_tag("area", "no");
        judge(o.as_way().unwrap(), &nodes, c, false)?;
        o.unset_tag("area");
        judge(o.as_way().unwrap(), &nodes, c, c)
    }
    let area = closed && !area_no;
    one(build_string(&m, TsForm::Epoch), &m, closed, area, src, "String")?;
    one(build_arc(&m, TsForm::Epoch), &m, closed, area, src, "Arc")?;
    one(build_rc(&m, TsForm::Epoch), &m, closed, area, src, "Rc")?;
    if src.chance(1, 4) {
        // from a file, as most ways are
        ctx.label("read from a file");
        let mut f = m.clone();
        for n in &mut f.nodes {
            *n = (*n).clamp(-(1 << 61), 1 << 61);
        }
        f.id = f.id.clamp(-(1 << 61), 1 << 61);
        let closed = !f.nodes.is_empty() && f.nodes[0] == f.nodes[f.nodes.len() - 1];
        let b = one_object_pbf(src, &f);
        let s = catch(|| osmio::stringpbf::PBFReader::new(&b[..]).next())?;
        let a = catch(|| osmio::arcpbf::PBFReader::new(&b[..]).next())?;
        let (Some(s), Some(a)) = (s, a) else { fail!("no object read back") };
        one(s, &f, closed, closed && !area_no, src, "String, from a file")?;
        one(a, &f, closed, closed && !area_no, src, "Arc, from a file")?;
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let a: &[&str] = &["Rc and Arc objects come from the constructors of the hook (and from PBF files)"];
    vec![
        Prop {
            id: "C21",
            level: "exploration",
            rule: "distinct (family, type, starting state, history of at least one operation)",
            run: c21,
            quick: 700_000,
            thorough: 8_000_000,
            exhaustive: None,
            assumptions: a,
        },
        Prop {
            id: "C22",
            level: "exploration",
            rule: "distinct objects with at least one of metadata, tags, position, nodes or members",
            run: c22,
            quick: 900_000,
            thorough: 10_000_000,
            exhaustive: None,
            assumptions: a,
        },
        Prop {
            id: "C23",
            level: "exploration",
            rule: "distinct pairs of objects, of which the second is equal or differs in one thing",
            run: c23,
            quick: 600_000,
            thorough: 8_000_000,
            exhaustive: None,
            assumptions: a,
        },
        Prop {
            id: "C24",
            level: "exploration",
            rule: "distinct non-empty sets of tags",
            run: c24,
            quick: 1_200_000,
            thorough: 8_000_000,
            exhaustive: None,
            assumptions: a,
        },
        Prop {
            id: "C25",
            level: "exploration",
            rule: "distinct ways with at least one node",
            run: c25,
            quick: 1_200_000,
            thorough: 10_000_000,
            exhaustive: None,
            assumptions: a,
        },
    ]
}
