//! An encoder of OSM PBF files, written from the format description, with the freedom the
//! format leaves to the writer. It shares no code with osmio.
use crate::dict;
use crate::engine::{Ctx, Src};
use crate::model::*;
use std::io::Write;

/// An object with what the file states exactly
#[derive(Clone, Debug)]
pub struct PObj {
    pub m: MObj,
    /// explicit visible flag (None: left out)
    pub visible: Option<bool>,
    /// position in nanodegrees
    pub nano: (i64, i64),
    /// timestamp in milliseconds
    pub ms: Option<i64>,
}

impl PObj {
    pub fn from(m: MObj, explicit_visible: bool) -> PObj {
        let visible = if m.deleted {
            Some(false)
        } else if explicit_visible {
            Some(true)
        } else {
            None
        };
        let nano = m.latlon.map_or((0, 0), |(a, b)| (a as i64 * 100, b as i64 * 100));
        let ms = m.ts.map(|t| t * 1000);
        PObj { m, visible, nano, ms }
    }
}

/// Compares what was read with what the file states. Positions may differ by less than one unit of
/// 100 nanodegrees, and timestamps by less than a second, if they are not multiples of those.
pub fn matches(p: &PObj, got: &MObj) -> Option<String> {
    let mut want = p.m.clone();
    if want.kind == Kind::Node {
        let Some((a, b)) = got.latlon else { return Some(format!("node {} without position", got.id)) };
        for (what, g, n) in [("latitude", a, p.nano.0), ("longitude", b, p.nano.1)] {
            let d = g as i64 * 100 - n;
            if if n % 100 == 0 { d != 0 } else { d.abs() >= 100 } {
                return Some(format!("node {}: {what} is {} instead of {} nanodegrees", want.id, g as i64 * 100, n));
            }
        }
        want.latlon = got.latlon;
    }
    match (p.ms, got.ts) {
        (None, None) => {}
        (Some(ms), Some(t)) => {
            let d = t * 1000 - ms;
            if if ms % 1000 == 0 { d != 0 } else { d.abs() >= 1000 } {
                return Some(format!("{} {}: timestamp is {t} s instead of {ms} ms", want.kind.name(), want.id));
            }
        }
        (a, b) => return Some(format!("{} {}: timestamp is {b:?} instead of {a:?}", want.kind.name(), want.id)),
    }
    want.ts = got.ts;
    diff1(&want, got)
}

pub fn diff_pbf(want: &[PObj], got: &[MObj]) -> Option<String> {
    for (i, (w, g)) in want.iter().zip(got).enumerate() {
        if let Some(d) = matches(w, g) {
            return Some(format!("object {i}: {d}"));
        }
    }
    if want.len() != got.len() {
        return Some(format!("{} objects instead of {}", got.len(), want.len()));
    }
    None
}

// ------------------------------------------------------------------ protobuf

pub fn varint(mut v: u64, out: &mut Vec<u8>) {
    while v >= 0x80 {
        out.push(v as u8 | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}
pub fn zigzag(v: i64) -> u64 {
    ((v << 1) ^ (v >> 63)) as u64
}

/// A message being put together, as encoded fields with their numbers
#[derive(Default)]
pub struct Msg {
    fields: Vec<(u32, Vec<u8>)>,
}

impl Msg {
    pub fn varint(&mut self, no: u32, v: u64) {
        let mut b = vec![];
        varint((no as u64) << 3, &mut b);
        varint(v, &mut b);
        self.fields.push((no, b));
    }
    pub fn sint(&mut self, no: u32, v: i64) {
        self.varint(no, zigzag(v));
    }
    pub fn bytes(&mut self, no: u32, v: &[u8]) {
        let mut b = Vec::with_capacity(v.len() + 6);
        varint((no as u64) << 3 | 2, &mut b);
        varint(v.len() as u64, &mut b);
        b.extend_from_slice(v);
        self.fields.push((no, b));
    }
    /// A repeated number field
    fn repeated(&mut self, src: &mut Src, w: &Wire, no: u32, vals: &[u64]) {
        if vals.is_empty() {
            // an empty packed field may be there all the same
            if w.packing && src.coin() {
                self.bytes(no, &[]);
            }
            return;
        }
        let mode = if w.packing { src.draw(3) } else { 0 };
        match mode {
            1 => {
                for v in vals {
                    self.varint(no, *v);
                }
            }
            2 => {
                let k = 1 + src.below(vals.len());
                for part in vals.chunks(k) {
                    let mut b = vec![];
                    part.iter().for_each(|v| varint(*v, &mut b));
                    self.bytes(no, &b);
                }
            }
            _ => {
                let mut b = vec![];
                vals.iter().for_each(|v| varint(*v, &mut b));
                self.bytes(no, &b);
            }
        }
    }
    /// Something a reader that does not know it has to skip
    fn unknown(&mut self, src: &mut Src, nos: &[u32]) {
        let no = *src.pick(nos);
        let mut b = vec![];
        match src.draw(3) {
            0 => {
                varint((no as u64) << 3, &mut b);
                varint(src.draw(u64::MAX), &mut b);
            }
            1 => {
                varint((no as u64) << 3 | 1, &mut b);
                b.extend(src.bytes(8));
            }
            2 => {
                varint((no as u64) << 3 | 2, &mut b);
                let n = src.draw(5) as usize;
                varint(n as u64, &mut b);
                b.extend(src.bytes(n));
            }
            _ => {
                varint((no as u64) << 3 | 5, &mut b);
                b.extend(src.bytes(4));
            }
        }
        self.fields.push((no, b));
    }
    pub fn finish(mut self, src: &mut Src, w: &Wire) -> Vec<u8> {
        if w.unknown && src.chance(1, 4) {
            self.unknown(src, &[30, 31, 33, 100, 1000, 20000]);
        }
        if w.order && self.fields.len() > 1 {
            // any order, but repeated fields stay in order among themselves
            let mut nos: Vec<u32> = self.fields.iter().map(|f| f.0).collect();
            if nos.len() < 40 {
                src.shuffle(&mut nos);
            } else {
                nos.reverse();
            }
            let mut queues: std::collections::HashMap<u32, std::collections::VecDeque<Vec<u8>>> = Default::default();
            for (no, b) in self.fields {
                queues.entry(no).or_default().push_back(b);
            }
            return nos.iter().flat_map(|no| queues.get_mut(no).unwrap().pop_front().unwrap()).collect();
        }
        self.fields.into_iter().flat_map(|f| f.1).collect()
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Wire {
    pub order: bool,
    pub packing: bool,
    pub unknown: bool,
}

/// How a file is laid out. Drawn once per file; the finer choices are drawn while encoding.
#[derive(Clone, Copy, Debug)]
pub struct Layout {
    pub wire: Wire,
    /// positions and times must be exactly those of the objects
    pub exact: bool,
    /// chance (of 8) for a new block/group before an object
    pub new_block: u64,
    pub new_group: u64,
    /// chance (of 4) of dense nodes
    pub dense: u64,
    /// chance (of 4) of zlib
    pub zlib: u64,
    pub odd_blobs: bool,
    pub odd_groups: bool,
    pub strings: u64,
    /// always the default granularity, offset
    pub plain_block: bool,
    pub block_limit: usize,
    /// version, changeset, uid: -1 can stand for not known
    pub minus: bool,
    /// pad the first block to this many bytes
    pub pad: usize,
    /// so many unused strings in front of the others in the first string table
    pub unused: usize,
}

impl Layout {
    pub fn gen_for(src: &mut Src, exact: bool) -> Layout {
        let simple = src.chance(1, 4);
        let mut f = |n: u64, d: u64| !simple && src.chance(n, d);
        let wire = Wire { order: f(1, 3), packing: f(1, 3), unknown: f(1, 3) };
        let odd_blobs = f(1, 2);
        let odd_groups = f(1, 2);
        let plain_block = !f(2, 3);
        let minus = f(1, 3);
        Layout {
            wire,
            exact,
            new_block: *src.pick(&[0, 1, 1, 2, 8]),
            new_group: *src.pick(&[0, 1, 2, 8]),
            dense: *src.pick(&[4, 4, 2, 0]),
            zlib: *src.pick(&[4, 2, 0]),
            odd_blobs,
            odd_groups,
            strings: src.draw(2),
            plain_block,
            block_limit: 8000,
            minus,
            pad: 0,
            unused: 0,
        }
    }
    /// With a block about as large as the format allows, or a string table which is
    pub fn large(src: &mut Src, exact: bool) -> Layout {
        let mut l = Layout::gen_for(src, exact);
        l.new_block = src.draw(1);
        let mib = 1 << 20;
        if src.coin() {
            let n = dict::size(src, 30 << 20);
            l.pad = match src.draw(3) {
                _ if n.is_some() => n.unwrap(),
                0 => *src.pick(&[mib, 2 * mib, 4 * mib, 8 * mib]) + 1 + src.below(1000),
                1 => 16 * mib - 1 + src.below(1000),
                2 => mib + src.below(31 * mib - 4096),
                _ => 32 * mib - 2048 - src.below(1000),
            };
            l.zlib = *src.pick(&[4, 0, 0]);
        } else {
            l.unused = match dict::size(src, 100_000) {
                Some(n) => n,
                None => *src.pick(&[100, 127, 128, 255, 256, 16_384, 32_767, 32_768, 65_535, 65_536, 70_000, 70_000]),
            };
            l.strings = src.draw(1);
            l.new_block = 0;
        }
        l
    }
    /// With large blocks and groups
    pub fn bulk(src: &mut Src, exact: bool) -> Layout {
        let mut l = Layout::gen_for(src, exact);
        l.new_block = 0;
        if src.coin() {
            l.new_group = 0;
        }
        l.block_limit = match dict::size(src, 100_000) {
            Some(n) => n.max(100),
            None => *src.pick(&[8000, 8000, 100_000, 40_000, 1000]),
        };
        l
    }
}

struct Strings {
    list: Vec<String>,
    map: std::collections::HashMap<String, Vec<u32>>,
}

impl Strings {
    /// any index of the string; never 0 if `nonzero`
    fn idx(&self, src: &mut Src, s: &str, nonzero: bool) -> u64 {
        let v = &self.map[s];
        let v = if nonzero && v[0] == 0 { &v[1..] } else { &v[..] };
        (if v.len() > 1 { v[src.below(v.len())] } else { v[0] }) as u64
    }
}

fn string_table(src: &mut Src, l: &Layout, objs: &[&PObj], unused: usize) -> Strings {
    let mut list: Vec<String> = vec![];
    let mut seen = std::collections::HashSet::new();
    let mut add = |s: &str| {
        if seen.insert(s.to_string()) {
            list.push(s.to_string());
        }
    };
    for o in objs {
        for (k, v) in &o.m.tags {
            add(k);
            add(v);
        }
        for m in &o.m.members {
            add(&m.2);
        }
        if let Some(u) = &o.m.user {
            add(u);
        }
    }
    if l.strings > 0 {
        for i in 0..src.draw(3) {
            list.push(format!("unused {i}"));
        }
        if !list.is_empty() && src.coin() {
            let i = src.below(list.len());
            let s = list[i].clone();
            list.push(s);
        }
    }
    if l.strings > 1 {
        if list.len() < 60 {
            src.shuffle(&mut list);
        } else {
            list.reverse();
        }
    }
    // nearly all writers put an empty string first; dense nodes cannot use it for tags
    let mut full = vec![String::new()];
    if l.strings > 1 && !list.is_empty() && src.chance(1, 4) {
        full = vec![list[0].clone()];
    }
    full.extend((0..unused).map(|i| format!("{i:x}u")));
    full.extend(list);
    let mut map: std::collections::HashMap<String, Vec<u32>> = Default::default();
    for (i, s) in full.iter().enumerate() {
        map.entry(s.clone()).or_default().push(i as u32);
    }
    Strings { list: full, map }
}

struct BlockParams {
    granularity: i64,
    date_granularity: i64,
    lat_offset: i64,
    lon_offset: i64,
}

fn raw(nano: i64, off: i64, g: i64) -> i64 {
    (nano - off) / g
}

fn info_mask(p: &PObj) -> [bool; 6] {
    [
        p.m.version.is_some(),
        p.ms.is_some(),
        p.m.changeset.is_some(),
        p.m.uid.is_some(),
        p.m.user.is_some(),
        p.visible.is_some(),
    ]
}

/// Which columns a group of dense nodes with this node has to have
fn column_mask(l: &Layout, p: &PObj) -> [bool; 6] {
    let mut m = info_mask(p);
    if l.minus {
        (m[0], m[2], m[3]) = (false, false, false);
    }
    m
}

fn info(src: &mut Src, l: &Layout, st: &Strings, bp: &BlockParams, p: &PObj) -> Option<Vec<u8>> {
    let mut m = Msg::default();
    let known = |src: &mut Src, m: &mut Msg, field, v: Option<u32>| match v {
        Some(v) => m.varint(field, v as u64),
        None if l.minus && src.coin() => m.varint(field, -1i64 as u64),
        None => {}
    };
    known(src, &mut m, 1, p.m.version);
    if let Some(ms) = p.ms {
        m.varint(2, (ms / bp.date_granularity) as u64);
    }
    known(src, &mut m, 3, p.m.changeset);
    known(src, &mut m, 4, p.m.uid);
    if let Some(v) = &p.m.user {
        let i = st.idx(src, v, false);
        m.varint(5, i);
    }
    if let Some(v) = p.visible {
        m.varint(6, v as u64);
    }
    if m.fields.is_empty() && !src.coin() {
        return None;
    }
    Some(m.finish(src, &l.wire))
}

fn put_tags(src: &mut Src, l: &Layout, st: &Strings, p: &PObj, m: &mut Msg) {
    let keys: Vec<u64> = p.m.tags.iter().map(|t| st.idx(src, &t.0, false)).collect();
    let vals: Vec<u64> = p.m.tags.iter().map(|t| st.idx(src, &t.1, false)).collect();
    m.repeated(src, &l.wire, 2, &keys);
    m.repeated(src, &l.wire, 3, &vals);
}

fn deltas(vals: impl Iterator<Item = i64>) -> Vec<u64> {
    let mut last = 0;
    vals.map(|v| {
        let d = v - last;
        last = v;
        zigzag(d)
    })
    .collect()
}

fn plain_obj(src: &mut Src, l: &Layout, st: &Strings, bp: &BlockParams, p: &PObj) -> Vec<u8> {
    let mut m = Msg::default();
    match p.m.kind {
        Kind::Node => m.sint(1, p.m.id),
        _ => m.varint(1, p.m.id as u64),
    }
    put_tags(src, l, st, p, &mut m);
    if let Some(i) = info(src, l, st, bp, p) {
        m.bytes(4, &i);
    }
    match p.m.kind {
        Kind::Node => {
            m.sint(8, raw(p.nano.0, bp.lat_offset, bp.granularity));
            m.sint(9, raw(p.nano.1, bp.lon_offset, bp.granularity));
        }
        Kind::Way => {
            let d = deltas(p.m.nodes.iter().copied());
            m.repeated(src, &l.wire, 8, &d);
            if l.odd_groups && !p.m.nodes.is_empty() && src.chance(1, 4) {
                // LocationsOnWays
                let d = deltas(p.m.nodes.iter().map(|i| i % 1000));
                m.repeated(src, &l.wire, 9, &d);
                m.repeated(src, &l.wire, 10, &d);
            }
        }
        Kind::Relation => {
            let roles: Vec<u64> = p.m.members.iter().map(|x| st.idx(src, &x.2, false)).collect();
            m.repeated(src, &l.wire, 8, &roles);
            let d = deltas(p.m.members.iter().map(|x| x.1));
            m.repeated(src, &l.wire, 9, &d);
            let t: Vec<u64> = p.m.members.iter().map(|x| x.0 as u64).collect();
            m.repeated(src, &l.wire, 10, &t);
        }
    }
    m.finish(src, &l.wire)
}

fn dense(src: &mut Src, l: &Layout, st: &Strings, bp: &BlockParams, objs: &[&PObj]) -> Vec<u8> {
    let mut m = Msg::default();
    let w = l.wire;
    let d = deltas(objs.iter().map(|p| p.m.id));
    m.repeated(src, &w, 1, &d);
    let mut mask = info_mask(objs[0]);
    if l.minus {
        mask[0] = objs.iter().any(|p| p.m.version.is_some()) || src.coin();
        mask[2] = objs.iter().any(|p| p.m.changeset.is_some()) || src.coin();
        mask[3] = objs.iter().any(|p| p.m.uid.is_some()) || src.coin();
    }
    let known = |v: Option<u32>| v.map_or(-1, |v| v as i64);
    let mut i = Msg::default();
    if mask[0] {
        let v: Vec<u64> = objs.iter().map(|p| known(p.m.version) as u64).collect();
        i.repeated(src, &w, 1, &v);
    }
    if mask[1] {
        let v = deltas(objs.iter().map(|p| p.ms.unwrap() / bp.date_granularity));
        i.repeated(src, &w, 2, &v);
    }
    if mask[2] {
        let v = deltas(objs.iter().map(|p| known(p.m.changeset)));
        i.repeated(src, &w, 3, &v);
    }
    if mask[3] {
        let v = deltas(objs.iter().map(|p| known(p.m.uid)));
        i.repeated(src, &w, 4, &v);
    }
    if mask[4] {
        let ids: Vec<i64> = objs.iter().map(|p| st.idx(src, p.m.user.as_ref().unwrap(), false) as i64).collect();
        let v = deltas(ids.into_iter());
        i.repeated(src, &w, 5, &v);
    }
    if mask[5] {
        let v: Vec<u64> = objs.iter().map(|p| p.visible.unwrap() as u64).collect();
        i.repeated(src, &w, 6, &v);
    }
    if !i.fields.is_empty() || src.coin() {
        let b = i.finish(src, &w);
        m.bytes(5, &b);
    }
    let d = deltas(objs.iter().map(|p| raw(p.nano.0, bp.lat_offset, bp.granularity)));
    m.repeated(src, &w, 8, &d);
    let d = deltas(objs.iter().map(|p| raw(p.nano.1, bp.lon_offset, bp.granularity)));
    m.repeated(src, &w, 9, &d);
    let any_tags = objs.iter().any(|p| !p.m.tags.is_empty());
    if any_tags || src.coin() {
        let mut kv: Vec<u64> = vec![];
        for p in objs {
            for (k, v) in &p.m.tags {
                kv.push(st.idx(src, k, true));
                kv.push(st.idx(src, v, true));
            }
            kv.push(0);
        }
        m.repeated(src, &w, 10, &kv);
    }
    m.finish(src, &w)
}

struct Group<'a> {
    objs: Vec<&'a PObj>,
    dense: bool,
}

fn other_group(src: &mut Src, l: &Layout) -> Vec<u8> {
    let mut g = Msg::default();
    match src.draw(2) {
        0 => {}
        1 => {
            // changesets
            for i in 0..1 + src.draw(2) {
                let mut c = Msg::default();
                c.varint(1, 100 + i);
                let c = c.finish(src, &l.wire);
                g.bytes(5, &c);
            }
        }
        _ => g.bytes(2, &[]), // a dense group without nodes
    }
    g.finish(src, &l.wire)
}

fn block(src: &mut Src, l: &Layout, bp: &BlockParams, groups: &[Group], big: bool) -> Vec<u8> {
    let all: Vec<&PObj> = groups.iter().flat_map(|g| g.objs.iter().copied()).collect();
    let mut st = string_table(src, l, &all, if big { l.unused } else { 0 });
    let dense_empty = groups
        .iter()
        .filter(|g| g.dense)
        .any(|g| g.objs.iter().any(|p| p.m.tags.iter().any(|(k, v)| k.is_empty() || v.is_empty())));
    if dense_empty {
        // the empty string, where a 0 would be the delimiter
        st.list.push(String::new());
        let n = st.list.len() as u32 - 1;
        st.map.get_mut("").unwrap().push(n);
    }
    let mut m = Msg::default();
    let mut t = Msg::default();
    for s in &st.list {
        t.bytes(1, s.as_bytes());
    }
    let t = t.finish(src, &Wire { order: false, ..l.wire });
    m.bytes(1, &t);
    for g in groups {
        while l.odd_groups && src.chance(1, 6) {
            let b = other_group(src, l);
            m.bytes(2, &b);
        }
        let mut gm = Msg::default();
        if g.dense {
            let b = dense(src, l, &st, bp, &g.objs);
            gm.bytes(2, &b);
        } else {
            for p in &g.objs {
                let b = plain_obj(src, l, &st, bp, p);
                gm.bytes(
                    match p.m.kind {
                        Kind::Node => 1,
                        Kind::Way => 3,
                        Kind::Relation => 4,
                    },
                    &b,
                );
            }
        }
        if l.odd_groups && !g.dense && src.chance(1, 4) {
            // a dense nodes message without nodes
            gm.bytes(2, if src.coin() { &[] } else { &[0x2a, 0] });
        }
        let b = gm.finish(src, &l.wire);
        m.bytes(2, &b);
    }
    while l.odd_groups && src.chance(1, 6) {
        let b = other_group(src, l);
        m.bytes(2, &b);
    }
    if bp.granularity != 100 || l.wire.unknown && src.coin() {
        m.varint(17, bp.granularity as u64);
    }
    if bp.date_granularity != 1000 || l.wire.unknown && src.coin() {
        m.varint(18, bp.date_granularity as u64);
    }
    if bp.lat_offset != 0 || l.wire.unknown && src.coin() {
        m.varint(19, bp.lat_offset as u64);
    }
    if bp.lon_offset != 0 || l.wire.unknown && src.coin() {
        m.varint(20, bp.lon_offset as u64);
    }
    let size: usize = m.fields.iter().map(|f| f.1.len()).sum();
    if big && l.pad > size + 8 {
        // a field that no reader knows, before the others
        let mut pad = Msg::default();
        pad.bytes(50, &vec![0x5a; l.pad - size - 6]);
        m.fields.splice(0..0, pad.fields);
        return m.finish(src, &Wire { order: false, ..l.wire });
    }
    m.finish(src, &l.wire)
}

pub fn zlib(data: &[u8], level: u32) -> Vec<u8> {
    let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::new(level));
    e.write_all(data).unwrap();
    e.finish().unwrap()
}

/// Bytes of no meaning: some, or now and then very many of few choices
fn filler(src: &mut Src, few: u64, many: u64) -> Vec<u8> {
    if src.chance(1, 10) {
        let n = match src.draw(3) {
            0 => src.range(100, 300) as usize,
            1 => src.range(10, many.ilog2() as i64).try_into().map(|b: u32| 1usize << b).unwrap() + src.draw(2) as usize - 1,
            _ => src.draw(many) as usize,
        }
        .min(many as usize);
        let k = src.draw(255) as u8;
        (0..n).map(|i| (i as u8).wrapping_mul(k) ^ (i >> 8) as u8).collect()
    } else {
        let n = src.draw(few) as usize;
        src.bytes(n)
    }
}

pub fn frame(src: &mut Src, l: &Layout, kind: &str, blob: &[u8], out: &mut Vec<u8>) {
    let mut h = Msg::default();
    h.bytes(1, kind.as_bytes());
    if l.odd_blobs && src.chance(1, 4) {
        let d = filler(src, 6, 65_000);
        h.bytes(2, &d); // indexdata
    }
    h.varint(3, blob.len() as u64);
    let h = h.finish(src, &l.wire);
    out.extend((h.len() as u32).to_be_bytes());
    out.extend(h);
    out.extend(blob);
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BlobForm {
    Raw,
    Zlib,
    /// zlib, as a number of stored and compressed deflate blocks
    ZlibFast,
}

fn blob(src: &mut Src, l: &Layout, data: &[u8]) -> (Vec<u8>, BlobForm) {
    let mut b = Msg::default();
    let form = if src.chance(l.zlib, 4) {
        *src.pick(&[BlobForm::Zlib, BlobForm::Zlib, BlobForm::ZlibFast])
    } else {
        BlobForm::Raw
    };
    match form {
        BlobForm::Raw => {
            b.bytes(1, data);
            if l.odd_blobs && src.coin() {
                b.varint(2, data.len() as u64);
            }
        }
        f => {
            if !(l.odd_blobs && src.coin()) {
                b.varint(2, data.len() as u64);
            }
            let level = if f == BlobForm::ZlibFast { src.draw(1) as u32 } else { 6 };
            b.bytes(3, &zlib(data, if data.len() > 1 << 20 { 1 } else { level }));
        }
    }
    (b.finish(src, &l.wire), form)
}

#[derive(Clone, Debug)]
pub struct DataBlob {
    /// of the whole frame, with the length in front
    pub start: usize,
    pub end: usize,
    /// objects before this blob and in it
    pub first: usize,
    pub count: usize,
    pub form: BlobForm,
    /// the encoded primitive block
    pub block: Vec<u8>,
}

pub struct PbfFile {
    pub bytes: Vec<u8>,
    /// offsets between blobs where the file can be cut without anyone noticing
    pub boundaries: Vec<usize>,
    pub data: Vec<DataBlob>,
    pub layout: Layout,
}

fn other_blob(src: &mut Src, l: &Layout, out: &mut Vec<u8>) {
    let kind = *src.pick(&["OSMUnknown", "osmdata", "OSMDataX", "index", ""]);
    let content = filler(src, 30, 300_000);
    let mut b = Msg::default();
    if src.coin() {
        b.bytes(1, &content);
    } else {
        b.varint(2, content.len() as u64);
        b.bytes(3, &zlib(&content, 6));
    }
    let b = b.finish(src, l.wire_ref());
    frame(src, l, kind, &b, out);
}

impl Layout {
    fn wire_ref(&self) -> &Wire {
        &self.wire
    }
}

fn block_params(src: &mut Src, l: &Layout, objs: &[PObj]) -> BlockParams {
    let mut bp = BlockParams { granularity: 100, date_granularity: 1000, lat_offset: 0, lon_offset: 0 };
    if l.plain_block {
        return bp;
    }
    let _ = objs;
    if l.exact {
        bp.granularity = *src.pick(&[100, 1, 2, 4, 5, 10, 20, 25, 50]);
        bp.date_granularity = *src.pick(&[1000, 1, 2, 8, 10, 100, 125, 250, 500]);
        let off = |src: &mut Src, g: i64| match src.draw(3) {
            0 | 1 => 0,
            2 => g * src.range(-100_000, 100_000),
            _ => g * (src.range(-180_000_000_000, 180_000_000_000) / g),
        };
        bp.lat_offset = off(src, bp.granularity);
        bp.lon_offset = off(src, bp.granularity);
    } else {
        let n = dict::num_in(src, 1, 1_000_000);
        bp.granularity = match src.draw(5) {
            0 => 100,
            _ if n.is_some() => n.unwrap(),
            1 => *src.pick(&[1, 10, 50, 200, 1000, 10_000, 1_000_000]),
            2 => src.range(1, 1000),
            3 => src.range(1, 1_000_000),
            4 => src.range(1, 99),
            _ => *src.pick(&[99, 101, 33, 3, 7, 150]),
        };
        let n = dict::num_in(src, 1, i32::MAX as i64);
        bp.date_granularity = match src.draw(4) {
            0 => 1000,
            _ if n.is_some() => n.unwrap(),
            1 => *src.pick(&[1, 10, 100, 500, 2000, 60_000, 86_400_000, 2_147_483_000]),
            2 => src.range(1, 5000),
            _ => *src.pick(&[999, 1001, 3, 7, 1500]),
        };
        let off = |src: &mut Src| match src.draw(4) {
            0 => 0,
            1 => src.range(-1000, 1000),
            2 => 100 * src.range(-1_000_000, 1_000_000),
            3 if src.coin() => dict::num_in(src, -180_000_000_000, 180_000_000_000).unwrap_or(0),
            3 => *src.pick(&[1, -1, 50, 99, -99, 90_000_000_000, -90_000_000_000]),
            _ => src.range(-180_000_000_000, 180_000_000_000),
        };
        bp.lat_offset = off(src);
        bp.lon_offset = off(src);
    }
    bp
}

/// Round to something this block can store, still within the range of the coordinates
fn snap_to(nano: i64, off: i64, g: i64) -> i64 {
    let n = off + (nano - off) / g * g;
    let lim = |n: i64| (i32::MIN as i64 * 100..=i32::MAX as i64 * 100).contains(&n);
    if lim(n) {
        n
    } else {
        // towards zero
        let n2 = if n > 0 { n - g } else { n + g };
        assert!(lim(n2));
        n2
    }
}

fn header(src: &mut Src, l: &Layout, objs: &[PObj]) -> Vec<u8> {
    let mut h = Msg::default();
    if src.coin() {
        let mut bb = Msg::default();
        for (no, v) in [(1, -180_000_000_000i64), (2, 180_000_000_000), (3, 90_000_000_000), (4, -90_000_000_000)] {
            bb.sint(no, v);
        }
        let bb = bb.finish(src, &l.wire);
        h.bytes(1, &bb);
    }
    h.bytes(4, b"OsmSchema-V0.6");
    h.bytes(4, b"DenseNodes");
    let history = objs.iter().any(|p| p.visible.is_some());
    if history && src.coin() {
        h.bytes(4, b"HistoricalInformation");
    }
    let sorted = objs.windows(2).all(|w| (w[0].m.kind, w[0].m.id) < (w[1].m.kind, w[1].m.id));
    if sorted && src.coin() {
        h.bytes(5, b"Sort.Type_then_ID");
    }
    if src.chance(1, 4) {
        h.bytes(5, b"Has_Metadata");
    }
    h.bytes(16, b"test");
    if src.chance(1, 4) {
        h.bytes(17, b"http://www.openstreetmap.org/api/0.6");
        h.varint(32, 1_600_000_000);
        h.varint(33, 4321);
        h.bytes(34, b"https://planet.openstreetmap.org/replication/minute");
    }
    h.finish(src, &l.wire)
}

/// Encode a file. Positions and timestamps of `objs` are changed to what the file states if the
/// layout is not exact.
pub fn encode(src: &mut Src, objs: &mut [PObj], l: Layout) -> PbfFile {
    let mut out = vec![];
    let mut boundaries = vec![0];
    let mut data = vec![];
    // header
    {
        let h = header(src, &l, objs);
        let (b, _) = blob(src, &l, &h);
        frame(src, &l, "OSMHeader", &b, &mut out);
        boundaries.push(out.len());
    }
    let mut first = 0;
    loop {
        while l.odd_blobs && src.chance(1, 6) {
            if src.coin() {
                if src.chance(1, 4) {
                    // another header, as in files put one after the other
                    let h = header(src, &l, objs);
                    let (b, _) = blob(src, &l, &h);
                    frame(src, &l, "OSMHeader", &b, &mut out);
                } else {
                    other_blob(src, &l, &mut out);
                }
            } else {
                // a block with nothing in it
                let bp = block_params(src, &l, objs);
                let b = block(src, &l, &bp, &[], false);
                let start = out.len();
                let (bl, form) = blob(src, &l, &b);
                frame(src, &l, "OSMData", &bl, &mut out);
                data.push(DataBlob { start, end: out.len(), first, count: 0, form, block: b });
            }
            boundaries.push(out.len());
        }
        if first == objs.len() {
            break;
        }
        let mut count = 1;
        while first + count < objs.len() && count < l.block_limit && !src.chance(l.new_block, 8) {
            count += 1;
        }
        let bp = block_params(src, &l, objs);
        for p in &mut objs[first..first + count] {
            if !l.exact {
                p.nano.0 = snap_to(p.nano.0, bp.lat_offset, bp.granularity);
                p.nano.1 = snap_to(p.nano.1, bp.lon_offset, bp.granularity);
                p.ms = p.ms.map(|ms| ms / bp.date_granularity * bp.date_granularity);
            }
        }
        let slice = &objs[first..first + count];
        let mut groups: Vec<Group> = vec![];
        for p in slice {
            let new = match groups.last() {
                None => true,
                Some(g) => {
                    let q = g.objs[0];
                    q.m.kind != p.m.kind
                        || g.dense && column_mask(&l, q) != column_mask(&l, p)
                        || src.chance(l.new_group, 8)
                }
            };
            if new {
                let dense = p.m.kind == Kind::Node && src.chance(l.dense, 4);
                groups.push(Group { objs: vec![p], dense });
            } else {
                groups.last_mut().unwrap().objs.push(p);
            }
        }
        let b = block(src, &l, &bp, &groups, first == 0);
        let start = out.len();
        let (bl, form) = blob(src, &l, &b);
        frame(src, &l, "OSMData", &bl, &mut out);
        data.push(DataBlob { start, end: out.len(), first, count, form, block: b });
        boundaries.push(out.len());
        first += count;
    }
    PbfFile { bytes: out, boundaries, data, layout: l }
}

pub fn label(ctx: &mut Ctx, f: &PbfFile) {
    ctx.label_if(f.data.len() > 1, "several blocks");
    ctx.label_if(f.data.iter().any(|d| d.form == BlobForm::Raw), "raw blob");
    ctx.label_if(f.data.iter().any(|d| d.form != BlobForm::Raw), "zlib blob");
    ctx.label_if(f.layout.wire.order, "shuffled fields");
    ctx.label_if(f.layout.wire.packing, "unpacked or split fields");
    ctx.label_if(f.layout.wire.unknown, "unknown fields");
    ctx.label_if(f.layout.odd_groups, "empty, changeset or odd groups");
    ctx.label_if(f.layout.odd_blobs, "unknown or empty blobs");
    ctx.label_if(!f.layout.plain_block, "granularity and offsets");
    ctx.label_if(f.layout.pad > 0, "large block");
    ctx.label_if(f.layout.unused > 0, "large string table");
    ctx.label_if(f.layout.minus, "-1 for not known");
    ctx.label_if(f.layout.dense == 4, "dense nodes");
    ctx.label_if(f.layout.dense == 0, "plain nodes");
}

pub fn bulk_pobjs(src: &mut Src, o: GenOpts, max: usize) -> (Vec<PObj>, &'static str) {
    let (v, what) = gen_bulk(src, o, max);
    let visible = src.coin();
    (v.into_iter().map(|m| PObj::from(m, visible)).collect(), what)
}

/// Objects for a PBF file. Nodes often share which metadata they have, as in real files.
pub fn gen_pobjs(src: &mut Src, o: GenOpts, avg: u64, max: usize) -> Vec<PObj> {
    let profile = if src.chance(3, 4) {
        Some([src.draw(2) != 0, src.draw(2) != 0, src.draw(2) != 0, src.draw(2) != 0, src.draw(2) != 0, src.coin()])
    } else {
        None
    };
    let sorted = src.coin();
    let only = if src.chance(1, 4) { Some(*src.pick(&KINDS)) } else { None };
    let n = dict::count(src, max.min(120)).filter(|_| max >= 4);
    let one = |src: &mut Src| {
        let kind = only.unwrap_or(*src.pick(&KINDS));
        let mut m = gen_obj_of(src, kind, o);
        if let Some(p) = profile {
            m.version = p[0].then(|| m.version.unwrap_or(1));
            m.ts = p[1].then(|| m.ts.unwrap_or(1_600_000_000));
            m.changeset = p[2].then(|| m.changeset.unwrap_or(7));
            m.uid = p[3].then(|| m.uid.unwrap_or(0));
            m.user = p[4].then(|| m.user.clone().unwrap_or_default());
            if !p[5] {
                m.deleted = false;
            }
        }
        let ev = match profile {
            Some(p) => p[5],
            None => src.coin(),
        };
        PObj::from(m, ev)
    };
    let mut v: Vec<PObj> = match n {
        Some(n) => (0..n).map(|_| one(src)).collect(),
        None => src.list(avg, max, one),
    };
    src.repeat(&mut v, |s, p| {
        if s.coin() {
            p.m.tags.clear();
        } else {
            if let Some(v) = &mut p.visible {
                *v = !*v;
                p.m.deleted = !*v;
            }
        }
    });
    if sorted {
        v.sort_by_key(|p| p.m.kind);
    }
    v
}
