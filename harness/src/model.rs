//! A plain model of an OSM object, its generators, and the bridge to osmio's objects.
use crate::dict;
use crate::engine::Src;
use crate::text::{self, TextKind};
use crate::time;
use osmio::obj_types::*;
use osmio::{Lat, Lon, Node, OSMObj, OSMObjBase, OSMObjectType, Relation, TimestampFormat, Way};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Node,
    Way,
    Relation,
}
pub const KINDS: [Kind; 3] = [Kind::Node, Kind::Way, Kind::Relation];
impl Kind {
    pub fn name(self) -> &'static str {
        match self {
            Kind::Node => "node",
            Kind::Way => "way",
            Kind::Relation => "relation",
        }
    }
    pub fn parse(s: &str) -> Option<Kind> {
        KINDS.into_iter().find(|k| k.name() == s)
    }
    pub fn osm(self) -> OSMObjectType {
        match self {
            Kind::Node => OSMObjectType::Node,
            Kind::Way => OSMObjectType::Way,
            Kind::Relation => OSMObjectType::Relation,
        }
    }
    pub fn of(t: OSMObjectType) -> Kind {
        match t {
            OSMObjectType::Node => Kind::Node,
            OSMObjectType::Way => Kind::Way,
            OSMObjectType::Relation => Kind::Relation,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct MObj {
    pub kind: Kind,
    pub id: i64,
    pub version: Option<u32>,
    pub deleted: bool,
    pub changeset: Option<u32>,
    /// seconds since the epoch
    pub ts: Option<i64>,
    pub uid: Option<u32>,
    pub user: Option<String>,
    pub tags: Vec<(String, String)>,
    pub latlon: Option<(i32, i32)>,
    pub nodes: Vec<i64>,
    pub members: Vec<(Kind, i64, String)>,
}

impl MObj {
    pub fn new(kind: Kind, id: i64) -> MObj {
        MObj {
            kind,
            id,
            version: None,
            deleted: false,
            changeset: None,
            ts: None,
            uid: None,
            user: None,
            tags: vec![],
            latlon: None,
            nodes: vec![],
            members: vec![],
        }
    }
}

#[derive(Clone, Copy)]
pub struct GenOpts {
    pub text: TextKind,
    /// stay within what PBF can store
    pub pbf: bool,
}
pub const XML: GenOpts = GenOpts { text: TextKind::Xml, pbf: false };
pub const ANY: GenOpts = GenOpts { text: TextKind::Any, pbf: false };
pub const PBF: GenOpts = GenOpts { text: TextKind::Any, pbf: true };
pub const PBF_XML: GenOpts = GenOpts { text: TextKind::Xml, pbf: true };

pub fn gen_id(src: &mut Src, pbf: bool) -> i64 {
    let l = if pbf { 1 << 61 } else { i64::MAX };
    if let Some(n) = dict::num_in(src, -l, l) {
        return n;
    }
    match src.draw(9) {
        0..=4 => src.range(0, 30),
        5 => -src.range(1, 30),
        6 | 7 => src.range(0, 20_000_000_000),
        8 => {
            // near a power of two
            let p = 1i64 << src.draw(60);
            let v = p.saturating_add(src.range(-2, 2));
            if src.coin() { -v } else { v }
        }
        _ => {
            if pbf {
                src.range(-(1 << 61), 1 << 61)
            } else {
                match src.draw(3) {
                    0 => i64::MAX - src.draw(2) as i64,
                    1 => i64::MIN + src.draw(2) as i64,
                    _ => src.range(i64::MIN, i64::MAX),
                }
            }
        }
    }
}

pub fn gen_u32(src: &mut Src, max: u32) -> u32 {
    if let Some(n) = dict::num_in(src, 0, max as i64) {
        return n as u32;
    }
    match src.draw(7) {
        0..=3 => src.draw(20) as u32,
        4 => src.draw(200_000_000.min(max as u64)) as u32,
        5 => ((1u64 << src.draw(31)).wrapping_add(src.draw(2)).wrapping_sub(1)).min(max as u64) as u32,
        6 => src.draw(max as u64) as u32,
        _ => max - src.draw(1) as u32,
    }
}

pub fn gen_ts(src: &mut Src) -> i64 {
    if let Some(n) = dict::num(src) {
        let n = match src.draw(3) {
            // a year, or days
            1 if (1..=9998).contains(&n) => time::days_from_civil(n, 1, 1) * 86400 + src.range(-1, 1),
            2 if n.abs() < 3_000_000 => n * 86400 + src.range(-1, 1),
            3 => n.wrapping_add(src.range(-86400, 86400)),
            _ => n,
        };
        if (time::MIN..=time::MAX).contains(&n) {
            return n;
        }
    }
    match src.draw(9) {
        0..=3 => 1_112_470_000 + src.range(0, 700_000_000),
        4 => src.range(0, 100),
        5 => src.range(time::MIN, time::MAX),
        6 => -src.range(0, 4_000_000_000),
        7 => i32::MAX as i64 + src.range(-2, 4_000_000_000),
        8 => time::days_from_civil(src.range(1, 9998), 1 + 2 * src.draw(1) as i64, 1) * 86400 + src.range(-86401, 1),
        _ => *src.pick(&[
            0,
            -1,
            1,
            time::MIN,
            time::MAX,
            i32::MAX as i64,
            i32::MAX as i64 + 1,
            i32::MIN as i64,
            i32::MIN as i64 - 1,
            u32::MAX as i64,
            u32::MAX as i64 + 1,
        ]),
    }
}

pub fn gen_coord(src: &mut Src, limit: i32) -> i32 {
    if let Some(c) = dict::coord(src) {
        return c;
    }
    match src.draw(9) {
        0..=3 => src.range(-(limit as i64), limit as i64) as i32,
        4 => src.range(-1000, 1000) as i32,
        5 => *src.pick(&[0, 1, -1, limit, -limit, limit - 1, 1 - limit, 10_000_000, -10_000_000]),
        6 => (src.range(-180, 180) * 10_000_000).clamp(-(limit as i64), limit as i64) as i32,
        7 => {
            // few significant digits, anywhere
            let p = 10i64.pow(src.draw(9) as u32);
            (src.range(-99, 99) * p).clamp(-(limit as i64), limit as i64) as i32
        }
        8 => src.range(i32::MIN as i64, i32::MAX as i64) as i32,
        _ => *src.pick(&[i32::MAX, i32::MIN, i32::MAX - 1, i32::MIN + 1]),
    }
}

pub fn gen_latlon(src: &mut Src) -> (i32, i32) {
    (gen_coord(src, 900_000_000), gen_coord(src, 1_800_000_000))
}

pub fn gen_nodes(src: &mut Src, pbf: bool) -> Vec<i64> {
    let n = dict::count(src, 3000);
    let n = match src.draw(9) {
        _ if n.is_some() => n.unwrap(),
        0 => 0,
        1..=3 => 1 + src.draw(2) as usize,
        4..=6 => 4 + src.draw(4) as usize,
        7 | 8 => src.draw(14) as usize,
        _ => {
            if src.chance(1, 8) {
                200 + src.draw(400) as usize
            } else {
                12
            }
        }
    };
    let mut v: Vec<i64> = (0..n).map(|_| gen_id(src, pbf)).collect();
    if n >= 1 && src.chance(1, 3) {
        let f = v[0];
        v.push(f);
    }
    v
}

pub fn gen_members(src: &mut Src, o: GenOpts) -> Vec<(Kind, i64, String)> {
    let n = dict::count(src, 1000);
    let n = match src.draw(7) {
        _ if n.is_some() => n.unwrap(),
        0 => 0,
        1..=3 => 1 + src.draw(2) as usize,
        4..=6 => src.draw(8) as usize,
        _ => {
            if src.chance(1, 8) {
                100 + src.draw(100) as usize
            } else {
                2
            }
        }
    };
    (0..n)
        .map(|_| {
            let role = match src.draw(3) {
                0 => String::new(),
                1 | 2 => src.pick(&["inner", "outer", "stop", "forward"]).to_string(),
                _ => text::text(src, o.text),
            };
            (*src.pick(&KINDS), gen_id(src, o.pbf), role)
        })
        .collect()
}

fn opt<T>(src: &mut Src, f: impl FnOnce(&mut Src) -> T) -> Option<T> {
    if src.draw(2) == 0 { None } else { Some(f(src)) }
}

pub fn gen_obj_of(src: &mut Src, kind: Kind, o: GenOpts) -> MObj {
    let mut m = MObj::new(kind, gen_id(src, o.pbf));
    let i31 = i32::MAX as u32 - 1;
    if src.draw(3) != 0 {
        m.version = opt(src, |s| gen_u32(s, if o.pbf { i31 } else { u32::MAX }));
        m.deleted = src.chance(1, 4);
        m.changeset = opt(src, |s| gen_u32(s, u32::MAX));
        m.ts = opt(src, gen_ts);
        m.uid = opt(src, |s| gen_u32(s, if o.pbf { i31 } else { u32::MAX }));
        m.user = opt(src, |s| text::text(s, o.text));
    }
    m.tags = text::tags(src, o.text);
    match kind {
        Kind::Node => {
            if o.pbf || src.draw(3) != 0 {
                m.latlon = Some(gen_latlon(src))
            }
        }
        Kind::Way => m.nodes = gen_nodes(src, o.pbf),
        Kind::Relation => m.members = gen_members(src, o),
    }
    m
}

pub fn gen_obj(src: &mut Src, o: GenOpts) -> MObj {
    let k = *src.pick(&KINDS);
    gen_obj_of(src, k, o)
}

pub fn gen_objs(src: &mut Src, o: GenOpts, avg: u64, max: usize) -> Vec<MObj> {
    let mut v = match dict::count(src, max.min(120)) {
        Some(n) if max >= 4 => (0..n).map(|_| gen_obj(src, o)).collect(),
        _ => src.list(avg, max, |s| gen_obj(s, o)),
    };
    src.repeat(&mut v, another);
    v
}

/// Another version of an object
pub fn another(src: &mut Src, m: &mut MObj) {
    match src.draw(3) {
        0 => m.version = Some(m.version.map_or(1, |v| if v > 1 { v - 1 } else { v + 1 })),
        1 => m.deleted = !m.deleted,
        2 => m.tags.clear(),
        _ => m.changeset = Some(m.changeset.map_or(1, |c| c / 2 + 1)),
    }
}

/// Sizes around which fixed-size buffers, 16-bit counters and block limits break
fn bulk_size(src: &mut Src, max: usize) -> usize {
    if let Some(n) = dict::size(src, max.min(120_000)) {
        return n;
    }
    let n = match src.draw(5) {
        0 => *src.pick(&[255usize, 256, 257, 4095, 4096, 4097, 7999, 8000, 8001, 8192, 16384]),
        1 => *src.pick(&[32767usize, 32768, 32769, 65535, 65536, 65537]),
        2 => src.draw(70_000) as usize,
        3 => src.draw(20_000) as usize,
        _ => src.draw(3000) as usize,
    };
    n.min(max)
}

/// Much of something: many objects, or an object with many tags, nodes or members, or long texts.
/// Few choices decide about all of it. `max` bounds the number of objects or parts.
pub fn gen_bulk(src: &mut Src, o: GenOpts, max: usize) -> (Vec<MObj>, &'static str) {
    let mut n = bulk_size(src, max);
    let shape = src.draw(5);
    if matches!(shape, 3 | 4) && src.coin() {
        n = (65_537 + src.draw(3000) as usize).min(max);
    }
    let seed = src.draw(u64::MAX);
    let mut r = crate::engine::Rng(seed);
    let mut out = gen_objs(src, o, 2, 5);
    let at = src.below(out.len() + 1);
    let unique = src.coin();
    let what;
    match shape {
        0 | 1 => {
            what = "many objects";
            // as in a planet file, or mixed
            let sorted = src.coin();
            let kinds: Vec<Kind> = match src.draw(3) {
                0 => vec![Kind::Node],
                1 => vec![Kind::Way],
                2 => vec![Kind::Relation],
                _ => KINDS.to_vec(),
            };
            let meta = src.coin();
            let mut id = src.range(0, 1000);
            let mut many: Vec<MObj> = (0..n)
                .map(|i| {
                    id += 1 + (r.next() % 5) as i64;
                    let k = kinds[(r.next() % kinds.len() as u64) as usize];
                    let mut m = MObj::new(k, id);
                    if meta {
                        m.version = Some((r.next() % 20) as u32 + 1);
                        m.ts = Some(1_500_000_000 + i as i64);
                        m.changeset = Some((r.next() % 100_000) as u32);
                        m.uid = Some((r.next() % 1000) as u32);
                        m.user = Some(format!("user {}", r.next() % 1000));
                    }
                    match k {
                        Kind::Node => {
                            m.latlon = Some((
                                (r.next() % 1_800_000_000) as i32 - 900_000_000,
                                (r.next() % 3_600_000_000) as i64 as i32,
                            ))
                        }
                        Kind::Way => m.nodes = (0..r.next() % 4).map(|_| (r.next() % 1000) as i64).collect(),
                        Kind::Relation => {
                            m.members = (0..r.next() % 3)
                                .map(|_| (KINDS[(r.next() % 3) as usize], (r.next() % 1000) as i64, format!("r{}", r.next() % 9)))
                                .collect()
                        }
                    }
                    if unique {
                        m.tags.push(("ref".into(), format!("{i:x}")));
                    } else if r.next() % 4 == 0 {
                        m.tags.push(("k".into(), format!("{}", r.next() % 50)));
                    }
                    m
                })
                .collect();
            if sorted {
                many.sort_by_key(|m| (m.kind, m.id));
            }
            out.splice(at..at, many);
        }
        2 => {
            what = "many tags";
            let mut m = gen_obj(src, o);
            m.tags = (0..n.min(20_000)).map(|i| (format!("key {i}"), if unique { format!("value {}", i * 7) } else { "v".into() })).collect();
            out.insert(at, m);
        }
        3 => {
            what = "many nodes";
            let mut m = gen_obj_of(src, Kind::Way, o);
            m.nodes = (0..n).map(|_| (r.next() % 10_000_000_000) as i64).collect();
            out.insert(at, m);
        }
        4 => {
            what = "many members";
            let mut m = gen_obj_of(src, Kind::Relation, o);
            m.members = (0..n)
                .map(|i| {
                    let role = if unique { format!("role {i}") } else { "outer".into() };
                    (KINDS[(r.next() % 3) as usize], (r.next() % 10_000_000_000) as i64, role)
                })
                .collect();
            out.insert(at, m);
        }
        _ => {
            what = "long texts";
            let piece: String = (0..7).map(|_| text::chr(src, o.text)).collect();
            let long = |k: usize| -> String { piece.repeat(k / piece.len() + 1) };
            let mut m = gen_obj(src, o);
            match src.draw(2) {
                0 => m.user = Some(long(n)),
                1 => m.tags = vec![(long(n / 2), "v".into()), ("k".into(), long(n))],
                _ => {
                    m = gen_obj_of(src, Kind::Relation, o);
                    m.members.push((Kind::Way, 1, long(n)));
                }
            }
            out.insert(at, m);
        }
    }
    (out, what)
}

/// In which form a timestamp is stored in an object
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum TsForm {
    Epoch,
    Iso,
    /// text with an offset of this many minutes
    Offset(i64),
}

pub fn gen_ts_form(src: &mut Src) -> TsForm {
    match src.draw(4) {
        0 | 1 => TsForm::Epoch,
        2 | 3 => TsForm::Iso,
        _ => TsForm::Offset(src.range(-14 * 60, 14 * 60)),
    }
}

pub fn timestamp(ts: i64, form: TsForm) -> TimestampFormat {
    match form {
        TsForm::Epoch => TimestampFormat::EpochNumber(ts),
        TsForm::Iso => TimestampFormat::ISOString(time::iso(ts)),
        TsForm::Offset(o) => {
            if ts + o * 60 < time::MIN || ts + o * 60 > time::MAX {
                TimestampFormat::ISOString(time::iso(ts))
            } else {
                TimestampFormat::ISOString(time::iso_offset(ts, o))
            }
        }
    }
}

/// Set everything but the id
pub fn apply<O: OSMObj>(o: &mut O, m: &MObj, form: TsForm) {
    o.set_version(m.version);
    o.set_deleted(m.deleted);
    o.set_changeset_id(m.changeset);
    o.set_timestamp(m.ts.map(|t| timestamp(t, form)));
    o.set_uid(m.uid);
    o.set_user(m.user.as_deref());
    for (k, v) in &m.tags {
        o.set_tag(k, v.clone());
    }
    match m.kind {
        Kind::Node => o
            .as_node_mut()
            .unwrap()
            .set_lat_lon_direct(m.latlon.map(|(a, b)| (Lat::from_inner(a), Lon::from_inner(b)))),
        Kind::Way => o.as_way_mut().unwrap().set_nodes(m.nodes.iter().copied()),
        Kind::Relation => o
            .as_relation_mut()
            .unwrap()
            .set_members(m.members.iter().map(|(k, i, r)| (k.osm(), *i, r.clone()))),
    }
}

pub fn new_string(kind: Kind, id: i64) -> StringOSMObj {
    match kind {
        Kind::Node => StringNodeBuilder::default()._id(id).build().unwrap().into(),
        Kind::Way => StringWayBuilder::default()._id(id).build().unwrap().into(),
        Kind::Relation => StringRelationBuilder::default()._id(id).build().unwrap().into(),
    }
}

pub fn build_string(m: &MObj, form: TsForm) -> StringOSMObj {
    let mut o = new_string(m.kind, m.id);
    apply(&mut o, m, form);
    o
}
/// Only what is in `mask` stays
fn forget(m: &mut MObj, mask: u64) {
    macro_rules! left {
        ($($bit:literal $field:ident)*) => { $( if mask & $bit == 0 {
            m.$field = Default::default();
        } )* };
    }
    left!(1 version 2 changeset 4 ts 8 uid 16 user 32 tags 64 latlon 64 nodes 64 members 256 deleted);
}

/// With the builders, the fields in `mask` (which it is given in either order); the others are set afterwards
pub fn build_string_by(m: &MObj, form: TsForm, mask: u64) -> Result<StringOSMObj, String> {
    macro_rules! through {
        ($builder:ty, $b:ident, $own:block) => {{
            let mut $b = <$builder>::default();
            if $b.build().is_ok() {
                return Err("built without an id".into());
            }
            // the last value counts
            if mask & 128 != 0 {
                $b._id(m.id.wrapping_add(1))._deleted(!m.deleted);
                if mask & 1 != 0 && m.version.is_some() {
                    $b._version(77);
                }
                if mask & 16 != 0 && m.user.is_some() {
                    $b._user("before".into());
                }
            }
            $b._id(m.id);
            $b._deleted(mask & 256 != 0 && m.deleted);
            let mut rest = m.clone();
            macro_rules! field {
                ($bit:literal, $name:ident, $value:expr) => {
                    if mask & $bit != 0 {
                        if let Some(v) = $value {
                            $b.$name(v);
                        }
                    }
                };
            }
            field!(1, _version, m.version);
            field!(2, _changeset_id, m.changeset);
            field!(4, _timestamp, m.ts.map(|t| timestamp(t, form)));
            field!(8, _uid, m.uid);
            field!(16, _user, m.user.as_deref().map(|u| u.into()));
            if mask & 32 != 0 {
                $b._tags(m.tags.iter().map(|(k, v)| (k.as_str().into(), v.as_str().into())).collect());
            }
            if mask & 64 != 0 {
                $own
            }
            let one = $b.build().map_err(|e| format!("not built: {e}"))?;
            let two = $b.build().map_err(|e| format!("not built again: {e}"))?;
            if one != two || $b.clone().build().ok().as_ref() != Some(&one) {
                return Err(format!("built twice: {one:?} and {two:?}"));
            }
            let mut o = StringOSMObj::from(one);
            // what was left to the setters has the value of a new object
            forget(&mut rest, mask);
            let got = snap(&o)?;
            if let Some(d) = diff1(&rest, &got) {
                return Err(format!("built from {rest:?}: {d}"));
            }
            if rest != *m {
                apply(&mut o, m, form);
            }
            Ok(o)
        }};
    }
    match m.kind {
        Kind::Node => through!(StringNodeBuilder, b, {
            if let Some((x, y)) = m.latlon {
                b._lat_lon((Lat::from_inner(x), Lon::from_inner(y)));
            }
        }),
        Kind::Way => through!(StringWayBuilder, b, {
            b._nodes(m.nodes.iter().copied().collect());
        }),
        Kind::Relation => through!(StringRelationBuilder, b, {
            b._members(m.members.iter().map(|(k, i, r)| (k.osm(), *i, r.as_str().into())).collect());
        }),
    }
}
pub fn build_arc(m: &MObj, form: TsForm) -> ArcOSMObj {
    let mut o = crate::hooks::new_arc_obj(m.kind.osm(), m.id);
    apply(&mut o, m, form);
    o
}
pub fn build_rc(m: &MObj, form: TsForm) -> crate::hooks::RcOSMObj {
    let mut o = crate::hooks::new_rc_obj(m.kind.osm(), m.id);
    apply(&mut o, m, form);
    o
}

fn snap_base<O: OSMObjBase>(o: &O) -> Result<MObj, String> {
    let mut m = MObj::new(Kind::of(o.object_type()), o.id());
    m.version = o.version();
    m.deleted = o.deleted();
    m.changeset = o.changeset_id();
    m.ts = match o.timestamp() {
        None => None,
        Some(TimestampFormat::EpochNumber(t)) => Some(*t),
        Some(TimestampFormat::ISOString(s)) => {
            Some(time::parse(s).ok_or_else(|| format!("timestamp {s:?} is not RFC 3339"))?)
        }
    };
    m.uid = o.uid();
    m.user = o.user().map(|s| s.to_string());
    let it = o.tags();
    let len = it.len();
    m.tags = it.map(|(k, v)| (k.to_string(), v.to_string())).collect();
    if len != m.tags.len() || o.num_tags() != m.tags.len() {
        return Err(format!("{} tags, but tags().len() is {len} and num_tags() is {}", m.tags.len(), o.num_tags()));
    }
    if o.tagged() == m.tags.is_empty() || o.untagged() != m.tags.is_empty() {
        return Err(format!("{} tags, but tagged() is {} and untagged() is {}", m.tags.len(), o.tagged(), o.untagged()));
    }
    let mut lookup = std::collections::HashMap::new();
    for (k, v) in &m.tags {
        lookup.entry(k.as_str()).or_insert(v.as_str());
    }
    for (k, v) in &lookup {
        if o.tag(k) != Some(v) || !o.has_tag(k) {
            return Err(format!("tag {k:?}={v:?} is there, but tag() is {:?} and has_tag() is {}", o.tag(k), o.has_tag(k)));
        }
    }
    for k in ["\u{1}no such key", ""] {
        if !lookup.contains_key(k) && (o.tag(k).is_some() || o.has_tag(k)) {
            return Err(format!("tag {k:?} is not there, but tag() is {:?} and has_tag() is {}", o.tag(k), o.has_tag(k)));
        }
    }
    for (k, v) in m.tags.iter().take(2) {
        for k in text::near_keys(k).iter().chain([v]) {
            if !lookup.contains_key(k.as_str()) && (o.tag(k).is_some() || o.has_tag(k)) {
                return Err(format!("tag {k:?} is not there, but tag() is {:?} and has_tag() is {}", o.tag(k), o.has_tag(k)));
            }
        }
    }
    Ok(m)
}

pub fn snap_node<O: Node>(o: &O) -> Result<MObj, String> {
    let mut m = snap_base(o)?;
    if m.kind != Kind::Node {
        return Err("a Node which says it is not a node".into());
    }
    m.latlon = o.lat_lon().map(|(a, b)| (a.inner(), b.inner()));
    if o.has_lat_lon() != m.latlon.is_some() {
        return Err("has_lat_lon() does not agree with lat_lon()".into());
    }
    match (m.latlon, o.lat_lon_f64()) {
        (None, None) => {}
        (Some((a, b)), Some((fa, fb)))
            if (fa * 1e7 - a as f64).abs() < 0.01 && (fb * 1e7 - b as f64).abs() < 0.01 => {}
        (a, b) => return Err(format!("lat_lon_f64() is {b:?} for {a:?}")),
    }
    Ok(m)
}

pub fn snap_way<O: Way>(o: &O) -> Result<MObj, String> {
    let mut m = snap_base(o)?;
    if m.kind != Kind::Way {
        return Err("a Way which says it is not a way".into());
    }
    m.nodes = o.nodes().to_vec();
    if o.nids() != m.nodes || o.num_nodes() != m.nodes.len() {
        return Err(format!("nids() is {:?} and num_nodes() {} for {:?}", o.nids(), o.num_nodes(), m.nodes));
    }
    for i in 0..m.nodes.len() {
        if o.node(i) != Some(m.nodes[i]) {
            return Err(format!("node({i}) is {:?} in {:?}", o.node(i), m.nodes));
        }
    }
    for i in [m.nodes.len(), m.nodes.len() + 1, usize::MAX] {
        if o.node(i).is_some() {
            return Err(format!("node({i}) is {:?} of {} nodes", o.node(i), m.nodes.len()));
        }
    }
    Ok(m)
}

pub fn snap_relation<O: Relation>(o: &O) -> Result<MObj, String> {
    let mut m = snap_base(o)?;
    if m.kind != Kind::Relation {
        return Err("a Relation which says it is not a relation".into());
    }
    let it = o.members();
    let len = it.len();
    m.members = it.map(|(t, i, r)| (Kind::of(t), i, r.to_string())).collect();
    if len != m.members.len() {
        return Err(format!("members().len() is {len} of {}", m.members.len()));
    }
    Ok(m)
}

/// Everything the getters of an object say. Fails if they do not agree with each other.
pub fn snap<O: OSMObj>(o: &O) -> Result<MObj, String> {
    let base = snap_base(o)?;
    let is = (o.is_node(), o.is_way(), o.is_relation());
    let want = (base.kind == Kind::Node, base.kind == Kind::Way, base.kind == Kind::Relation);
    if is != want || (o.as_node().is_some(), o.as_way().is_some(), o.as_relation().is_some()) != want {
        return Err(format!("a {} with is_node, is_way, is_relation {is:?} ", base.kind.name()));
    }
    let m = match base.kind {
        Kind::Node => snap_node(o.as_node().unwrap())?,
        Kind::Way => snap_way(o.as_way().unwrap())?,
        Kind::Relation => snap_relation(o.as_relation().unwrap())?,
    };
    let mut b2 = m.clone();
    b2.latlon = None;
    b2.nodes.clear();
    b2.members.clear();
    if b2 != base {
        return Err(format!("the any-object says {base:?} and the object in it {b2:?}"));
    }
    Ok(m)
}

/// First difference between two lists of objects
pub fn diff(want: &[MObj], got: &[MObj]) -> Option<String> {
    for (i, (w, g)) in want.iter().zip(got).enumerate() {
        if let Some(d) = diff1(w, g) {
            return Some(format!("object {i}: {d}"));
        }
    }
    if want.len() != got.len() {
        return Some(format!(
            "{} objects instead of {} (next: {:?})",
            got.len(),
            want.len(),
            want.get(got.len()).or(got.get(want.len()))
        ));
    }
    None
}

pub fn diff1(w: &MObj, g: &MObj) -> Option<String> {
    macro_rules! f {
        ($($n:ident)*) => { $( if w.$n != g.$n {
            return Some(format!("{} {}: {} is {:?} instead of {:?}", w.kind.name(), w.id, stringify!($n), g.$n, w.$n));
        } )* };
    }
    f!(kind id version deleted changeset ts uid user tags latlon nodes members);
    None
}

pub fn nontrivial(objs: &[MObj]) -> bool {
    objs.iter().any(|o| {
        !o.tags.is_empty() || o.version.is_some() || o.user.is_some() || !o.nodes.is_empty() || !o.members.is_empty()
    })
}

pub fn digest(objs: &[MObj]) -> Vec<u8> {
    format!("{objs:?}").into_bytes()
}
