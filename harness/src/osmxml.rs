//! OSM XML, osmChange and changeset documents: reading them strictly (as the oracle for the
//! writers) and generating them with meaningless variations (as the input of the readers).
use crate::dict;
use crate::engine::Src;
use crate::model::*;
use crate::text::is_xml_char;
use crate::time;
use crate::xmlp::Elem;

/// Exact value of a decimal number, in units of 1e-7, rounded to the nearest
pub fn parse_coord(s: &str) -> Result<i32, String> {
    let bad = || format!("coordinate {s:?} is not a decimal number");
    let (neg, r) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s),
    };
    let (ip, fp) = r.split_once('.').unwrap_or((r, ""));
    if ip.is_empty() || !ip.bytes().chain(fp.bytes()).all(|b| b.is_ascii_digit()) || ip.len() > 9 {
        return Err(bad());
    }
    let mut v: i128 = ip.parse().map_err(|_| bad())?;
    for i in 0..7 {
        v = v * 10 + fp.as_bytes().get(i).map_or(0, |b| (b - b'0') as i128);
    }
    if fp.as_bytes().get(7).is_some_and(|b| *b >= b'5') {
        v += 1;
    }
    if neg {
        v = -v;
    }
    i32::try_from(v).map_err(|_| bad())
}

fn num<T: std::str::FromStr + std::fmt::Display>(s: &str) -> Result<T, String> {
    let v: T = s.parse().map_err(|_| format!("{s:?} is not a number of the right type"))?;
    Ok(v)
}

fn only_ws(e: &Elem) -> Result<(), String> {
    if e.text.chars().all(|c| c.is_ascii_whitespace()) {
        Ok(())
    } else {
        Err(format!("stray text {:?} in <{}>", e.text, e.name))
    }
}

fn exact_attrs(e: &Elem, names: &[&str]) -> Result<(), String> {
    for n in names {
        if e.attr(n).is_none() {
            return Err(format!("<{}> without {n}", e.name));
        }
    }
    if e.attrs.len() != names.len() {
        return Err(format!("<{}> with other attributes: {:?}", e.name, e.attrs));
    }
    Ok(())
}

/// An object element, as the writers write them
pub fn read_obj(e: &Elem) -> Result<MObj, String> {
    let kind = Kind::parse(&e.name).ok_or_else(|| format!("unexpected element <{}>", e.name))?;
    only_ws(e)?;
    let mut m = MObj::new(kind, num(e.attr("id").ok_or("object without id")?)?);
    let (mut lat, mut lon) = (None, None);
    for (k, v) in &e.attrs {
        match k.as_str() {
            "id" => {}
            "visible" => {
                m.deleted = match v.as_str() {
                    "true" => false,
                    "false" => true,
                    _ => return Err(format!("visible={v:?}")),
                }
            }
            "version" => m.version = Some(num(v)?),
            "user" => m.user = Some(v.clone()),
            "uid" => m.uid = Some(num(v)?),
            "changeset" => m.changeset = Some(num(v)?),
            "timestamp" => {
                m.ts = Some(time::parse(v).ok_or_else(|| format!("timestamp {v:?} is not RFC 3339"))?)
            }
            "lat" if kind == Kind::Node => lat = Some(parse_coord(v)?),
            "lon" if kind == Kind::Node => lon = Some(parse_coord(v)?),
            _ => return Err(format!("unexpected attribute {k:?} of <{}>", e.name)),
        }
    }
    m.latlon = match (lat, lon) {
        (None, None) => None,
        (Some(a), Some(b)) => Some((a, b)),
        _ => return Err("only one of lat and lon".into()),
    };
    for c in &e.children {
        only_ws(c)?;
        if !c.children.is_empty() {
            return Err(format!("<{}> with children", c.name));
        }
        match c.name.as_str() {
            "tag" => {
                exact_attrs(c, &["k", "v"])?;
                m.tags.push((c.attr("k").unwrap().into(), c.attr("v").unwrap().into()));
            }
            "nd" if kind == Kind::Way => {
                exact_attrs(c, &["ref"])?;
                m.nodes.push(num(c.attr("ref").unwrap())?);
            }
            "member" if kind == Kind::Relation => {
                exact_attrs(c, &["type", "ref", "role"])?;
                let t = c.attr("type").unwrap();
                m.members.push((
                    Kind::parse(t).ok_or_else(|| format!("member type {t:?}"))?,
                    num(c.attr("ref").unwrap())?,
                    c.attr("role").unwrap().into(),
                ));
            }
            _ => return Err(format!("unexpected <{}> in <{}>", c.name, e.name)),
        }
    }
    Ok(m)
}

/// The root of what the XML writer writes: objects and the attributes of the root
pub fn read_osm(root: &Elem) -> Result<(Vec<MObj>, Vec<(String, String)>), String> {
    if root.name != "osm" {
        return Err(format!("root element is <{}>", root.name));
    }
    only_ws(root)?;
    let objs = root.children.iter().map(read_obj).collect::<Result<_, _>>()?;
    Ok((objs, root.attrs.clone()))
}

/// The timestamp attribute of one object is taken out
pub fn take_ts(root: &mut Elem, i: usize, osc: bool) -> Option<String> {
    let at = if osc { root.children.first_mut()? } else { root };
    let attrs = &mut at.children.get_mut(i)?.attrs;
    let k = attrs.iter().position(|a| a.0 == "timestamp")?;
    Some(attrs.remove(k).1)
}

/// What the OSC writer writes
pub fn read_osc(root: &Elem) -> Result<Vec<MObj>, String> {
    if root.name != "osmChange" {
        return Err(format!("root element is <{}>", root.name));
    }
    only_ws(root)?;
    if root.attr("version") != Some("0.6") {
        return Err(format!("version is {:?}", root.attr("version")));
    }
    for (k, _) in &root.attrs {
        if k != "version" && k != "generator" {
            return Err(format!("unexpected root attribute {k}"));
        }
    }
    match &root.children[..] {
        [m] if m.name == "modify" => {
            exact_attrs(m, &[])?;
            only_ws(m)?;
            m.children.iter().map(read_obj).collect()
        }
        c => Err(format!(
            "not one modify block: {:?}",
            c.iter().map(|e| e.name.as_str()).collect::<Vec<_>>()
        )),
    }
}

// ---------------------------------------------------------------- generating documents

/// How noisy a document is. Drawn once per document.
#[derive(Clone, Copy, Default, Debug)]
pub struct Noise {
    pub attr_order: bool,
    pub quotes: bool,
    pub refs: bool,
    pub space: bool,
    pub misc: bool,
    pub unknown: bool,
    pub explicit_end: bool,
    pub coord_forms: bool,
    pub wrong: bool,
    pub ns: bool,
    /// long comments, names, deep nesting, many attributes
    pub long: bool,
}

impl Noise {
    pub fn gen_for(src: &mut Src) -> Noise {
        if src.chance(1, 4) {
            return Noise::default();
        }
        let all = src.chance(1, 4);
        let mut f = |n: u64| src.chance(n, 4) || all;
        Noise {
            attr_order: f(2),
            quotes: f(2),
            refs: f(2),
            space: f(2),
            misc: f(2),
            unknown: f(2),
            explicit_end: f(2),
            coord_forms: f(2),
            wrong: f(1),
            ns: f(1),
            long: false,
        }
    }
}

pub struct W<'a> {
    pub src: &'a mut Src,
    pub n: Noise,
    pub out: String,
    /// characters that the document may not use in attributes other than as references
    pub raw_newlines: bool,
}

/// The text of an attribute value, between quotes `q`
pub fn escape_attr(src: &mut Src, n: &Noise, v: &str, q: char, out: &mut String) {
    for c in v.chars() {
        assert!(is_xml_char(c), "generator made {c:?}");
        let must = matches!(c, '&' | '<' | '\t' | '\n' | '\r') || c == q;
        let named = match c {
            '&' => Some("&amp;"),
            '<' => Some("&lt;"),
            '>' => Some("&gt;"),
            '"' => Some("&quot;"),
            '\'' => Some("&apos;"),
            _ => None,
        };
        let reference = must || named.is_some() && n.refs && src.coin() || n.refs && src.chance(1, 12);
        if !reference {
            if c == ' ' && n.space && src.chance(1, 6) {
                // a literal line break in an attribute is a space
                let forms: &[&str] = if out.ends_with('\r') { &["\t", "\r\n", "\r"] } else { &["\n", "\t", "\r\n", "\r"] };
                out.push_str(src.pick(forms));
            } else {
                out.push(c);
            }
            continue;
        }
        let form = if n.refs { src.draw(3) } else { 0 };
        match (form, named) {
            (0, Some(s)) => out.push_str(s),
            (1, _) => out.push_str(&format!("&#x{:x};", c as u32)),
            (2, _) => out.push_str(&format!("&#x{:05X};", c as u32)),
            _ => out.push_str(&format!("&#{};", c as u32)),
        }
    }
}

/// The attributes which mean something
const NAMES: &[&str] = &[
    "id", "visible", "version", "changeset", "timestamp", "user", "uid", "lat", "lon", "k", "v", "ref", "type", "role",
    "created_at", "closed_at", "open", "num_changes", "comments_count",
];
/// The elements which mean something
const ELEMENTS: &[&str] =
    &["osm", "osmChange", "create", "modify", "delete", "node", "way", "relation", "tag", "nd", "member", "changeset"];

/// Elements which mean nothing
const NEAR_ELEMENTS: &[&str] = &[
    "nodes", "ways", "relations", "tags", "nds", "members", "changesets", "changeset_tag", "changesetcomment", "waynode",
    "node2", "way-node", "relation.x", "tag_", "nd2", "member2", "xtag", "anode", "highway", "subrelation", "Node", "WAY",
    "Relation", "Tag", "ND", "Member", "Changeset", "n", "w", "r", "t", "comment", "text",
];

fn is_name(s: &str) -> bool {
    s.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_')
        && s.chars().all(|c| c.is_ascii_alphanumeric() || "_-.".contains(c))
        && !s.to_ascii_lowercase().starts_with("xml")
}

impl W<'_> {
    pub fn space(&mut self) {
        if self.n.space {
            let s = *self.src.pick(&[" ", "  ", "\n", "\t", "\r\n", " \n\t "]);
            self.out.push_str(s);
        } else {
            self.out.push(' ');
        }
    }
    pub fn maybe_space(&mut self) {
        if self.n.space && self.src.coin() {
            let s = *self.src.pick(&[" ", "\n", "\t"]);
            self.out.push_str(s);
        }
    }
    pub fn attrs(&mut self, mut attrs: Vec<(String, String)>) {
        if self.n.attr_order {
            self.src.shuffle(&mut attrs);
        }
        for (k, v) in attrs {
            self.space();
            self.out.push_str(&k);
            self.maybe_space();
            self.out.push('=');
            self.maybe_space();
            let q = if self.n.quotes && self.src.coin() { '\'' } else { '"' };
            self.out.push(q);
            let mut s = String::new();
            escape_attr(self.src, &self.n, &v, q, &mut s);
            self.out.push_str(&s);
            self.out.push(q);
        }
    }
    /// White space, comments, processing instructions, unknown elements
    pub fn gap(&mut self, elements: bool, text: bool) {
        if self.n.space {
            self.out.push_str(*self.src.pick(&["", "\n", "\n\t", " ", "\r\n  "]));
        } else {
            self.out.push('\n');
        }
        while self.n.misc && self.src.chance(1, 4) {
            let s = match self.src.draw(if text { 5 } else { 3 }) {
                0 => "<!-- a comment -->",
                1 => "<!--<node id=\"7\" lat=\"1\" lon=\"1\"/></osm>&-->",
                2 => "<?pi some <node id='8'> data?>",
                3 => "<!---->",
                4 => "<![CDATA[<way id=\"9\"></way>]]>",
                _ => "text &amp; more",
            };
            self.out.push_str(s);
        }
        if self.n.long && self.src.chance(1, 8) {
            self.long(elements, text);
        }
        while elements && self.n.unknown && self.src.chance(1, 5) {
            if let Some(t) = dict::text(self.src).filter(|t| is_name(t) && !ELEMENTS.contains(t)) {
                self.out.push_str(&format!("<{t} id=\"1\" version='2' {}=\"x\"/>", if self.src.coin() { "k" } else { "type" }));
                continue;
            }
            let s = match self.src.draw(5) {
                5 => {
                    // called almost like one that means something
                    let name = *self.src.pick(NEAR_ELEMENTS);
                    let what = if self.src.coin() { "k=\"a\" v=\"b\"" } else { "id='3' ref='4' type=\"way\"" };
                    let end = if self.src.coin() { "/>".to_string() } else { format!("></{name}>") };
                    self.out.push_str(&format!("<{name} {what}{end}"));
                    continue;
                }
                0 => "<unknown/>",
                1 => "<bounds minlat=\"1\" minlon=\"2\" maxlat=\"3\" maxlon='4' id=\"5\"/>",
                2 => "<note>The data is &quot;free&quot;</note>",
                3 => "<x id=\"1\"><y k=\"a\" v=\"b\" ref=\"4\"><z/>text</y></x>",
                _ => "<meta osm_base=\"2020-01-01T00:00:00Z\"></meta>",
            };
            self.out.push_str(s);
        }
    }
    /// Something long that means nothing
    fn long(&mut self, elements: bool, text: bool) {
        let n = (1usize << self.src.draw(17)) + self.src.below(1000);
        let fill = |s: &str| s.repeat(n / s.len() + 1);
        let kind = match self.src.draw(6) {
            k @ (3 | 4) if !text => k - 3,
            k @ (5 | 6) if !elements => k - 5,
            k => k,
        };
        match kind {
            0 => self.out.push_str(&format!("<!-- {} -->", fill("<node id=\"1\"/> é "))),
            1 => self.out.push_str(&format!("<?pi {}?>", fill("data > \" "))),
            2 => self.out.push_str(&fill(" \n\t")),
            3 => self.out.push_str(&format!("<![CDATA[{}]]>", fill("</osm> ] & "))),
            4 => self.out.push_str(&fill("text &amp; ö ")),
            5 => {
                // deep
                let n = n.min(300);
                let name = *self.src.pick(&["x", "unknown", "nodes"]);
                self.out.push_str(&format!("<{name} id='1' k='a' v='b'>").repeat(n));
                self.out.push_str(&format!("</{name}>").repeat(n));
            }
            _ => {
                // long names, many attributes
                let m = self.src.below(200);
                let name = "n".repeat(1 + n.min(3000));
                self.out.push_str(&format!("<{name}"));
                for i in 0..m {
                    self.out.push_str(&format!(" a{i}='{i}'"));
                }
                self.out.push_str(&format!(" {name}=\"{}\"/>", fill("value ")));
            }
        }
    }
    /// Namespace declarations, and attributes of other namespaces that are called like the real ones
    fn other_namespace(&mut self, attrs: &mut Vec<(String, String)>) {
        let default = self.src.chance(1, 4);
        let name = if self.src.coin() && !attrs.is_empty() {
            let i = self.src.below(attrs.len());
            attrs[i].0.clone()
        } else {
            self.src.pick(NAMES).to_string()
        };
        let value = *self.src.pick(&["77", "true", "false", "", "way", "1.5", "text", "2020-01-01T00:00:00Z"]);
        let mut put = |src: &mut Src, k: String, v: &str| {
            let at = src.below(attrs.len() + 1);
            attrs.insert(at, (k, v.to_string()));
        };
        match self.src.draw(2) {
            0 => put(self.src, format!("xml:{name}"), value),
            1 => {
                let p = *self.src.pick(&["x", "osm", "id", "k"]);
                put(self.src, format!("xmlns:{p}"), "http://example.org/x");
                put(self.src, format!("{p}:{name}"), value);
            }
            // only a declaration
            _ => put(self.src, format!("xmlns:{name}"), "http://example.org/y"),
        }
        if default {
            put(self.src, "xmlns".into(), "http://openstreetmap.org/osm/0.6");
        }
    }
    /// An element with contents made by `inner`
    pub fn element(&mut self, name: &str, mut attrs: Vec<(String, String)>, empty: bool, inner: impl FnOnce(&mut Self)) {
        if self.n.unknown && self.src.chance(1, 4) {
            let (k, v) = *self.src.pick(&[
                ("foo", "bar"),
                ("comments", "1"),
                ("ID", "99"),
                ("idx", "98"),
                ("changesets", "4"),
                ("action", "delete"),
                ("Version", "3"),
                ("USER", "nobody"),
                ("Uid", "7"),
                ("Lat", "1"),
                ("Lon", "2"),
                ("Visible", "false"),
                ("Changeset", "5"),
                ("TimeStamp", "2020-01-01T00:00:00Z"),
                ("Role", "r"),
                ("Ref", "8"),
                ("K", "k"),
                ("Closed_at", "2020-01-01T00:00:00Z"),
                ("time", "2020-01-01T00:00:00Z"),
                ("longitude", "1"),
            ]);
            let (mut k, mut v) = (k.to_string(), v.to_string());
            if let Some(t) = dict::text(self.src).filter(|t| is_name(t) && !NAMES.contains(t)) {
                k = t.to_string();
                if self.src.coin() {
                    v = self.src.pick(&["1", "0", "true", "false", "", "7"]).to_string();
                }
            } else if let Some(t) = dict::text(self.src) {
                v = t.chars().filter(|c| is_xml_char(*c)).collect();
            }
            let at = self.src.below(attrs.len() + 1);
            if !attrs.iter().any(|a| a.0 == k) {
                attrs.insert(at, (k, v));
            }
        }
        if self.n.long && self.src.chance(1, 8) {
            // many unknown attributes, around the others
            let m = self.src.below(300);
            let at = self.src.below(attrs.len() + 1);
            attrs.splice(at..at, (0..m).map(|i| (format!("unknown{i}"), "value".to_string())));
        }
        if self.n.ns && self.src.chance(1, 3) {
            self.other_namespace(&mut attrs);
        }
        self.out.push('<');
        self.out.push_str(name);
        self.attrs(attrs);
        self.maybe_space();
        if empty && !(self.n.explicit_end && self.src.coin()) {
            self.out.push_str("/>");
            return;
        }
        self.out.push('>');
        inner(self);
        self.out.push_str("</");
        self.out.push_str(name);
        self.maybe_space();
        self.out.push('>');
    }
}

/// A decimal text for a coordinate which is nearest to it
pub fn coord_text(src: &mut Src, forms: bool, c: i32) -> String {
    let neg = c < 0;
    let a = (c as i64).abs();
    let ip = a / 10_000_000;
    let fp = format!("{:07}", a % 10_000_000);
    let short = fp.trim_end_matches('0');
    let sign = if neg { "-" } else { "" };
    let plain = |f: &str| if f.is_empty() { format!("{sign}{ip}") } else { format!("{sign}{ip}.{f}") };
    if !forms {
        return plain(short);
    }
    match src.draw(8) {
        0 => plain(short),
        1 => plain(&fp),
        // no digit before or after the point
        7 if ip == 0 && a != 0 => format!("{sign}.{short}"),
        7 | 8 if short.is_empty() => format!("{sign}{ip}."),
        7 => format!("{}{ip}.{fp}", if neg { "-" } else { "+" }),
        8 => format!("{sign}{}.{}e1", ip / 10, format!("{}{fp}", ip % 10)),
        // more digits, well away from the middle
        2 => plain(&format!("{fp}{}", src.pick(&["00", "1", "0000001", "3999", "00000000000000000000000001"]))),
        3 => {
            // one digit less than the value, rounded up: (a - 1) . 7
            if a == 0 {
                return "0".into();
            }
            let b = a - 1;
            format!("{sign}{}.{:07}{}", b / 10_000_000, b % 10_000_000, src.pick(&["7", "9", "99999", "6000001"]))
        }
        4 => {
            if neg {
                plain(short)
            } else {
                format!("+{}", plain(short))
            }
        }
        5 => format!("{sign}00{ip}.{fp}"),
        _ => {
            // scientific: all digits of the internal value
            format!("{}e-7", c)
        }
    }
}

fn iso_text(src: &mut Src, forms: bool, ts: i64) -> String {
    if forms && src.chance(1, 4) {
        let off = src.range(-12 * 4, 14 * 4) * 15;
        if ts + off * 60 >= time::MIN && ts + off * 60 <= time::MAX {
            return time::iso_offset(ts, off);
        }
    }
    time::iso(ts)
}

/// Writes `m` as an element. True iff the document says whether it is visible.
pub fn write_obj(w: &mut W, m: &MObj) -> bool {
    let mut a: Vec<(String, String)> = vec![("id".into(), m.id.to_string())];
    let mut put = |k: &str, v: Option<String>| {
        if let Some(v) = v {
            a.push((k.into(), v));
        }
    };
    let n = w.n;
    let vis = if m.deleted {
        Some("false".to_string())
    } else if w.src.coin() {
        Some("true".to_string())
    } else {
        None
    };
    let stated = vis.is_some();
    put("visible", vis);
    put("version", m.version.map(|v| v.to_string()));
    put("changeset", m.changeset.map(|v| v.to_string()));
    put("timestamp", m.ts.map(|t| iso_text(w.src, n.coord_forms, t)));
    put("user", m.user.clone());
    put("uid", m.uid.map(|v| v.to_string()));
    if let Some((lat, lon)) = m.latlon {
        put("lat", Some(coord_text(w.src, n.coord_forms, lat)));
        put("lon", Some(coord_text(w.src, n.coord_forms, lon)));
    }
    let broken = n.wrong && w.src.chance(1, 3);
    let empty = m.tags.is_empty() && m.nodes.is_empty() && m.members.is_empty() && !broken;
    w.element(m.kind.name(), a, empty, |w| {
        // tags can come before or between the others
        let mut order: Vec<bool> = vec![];
        let others = m.nodes.len() + m.members.len();
        match if n.attr_order { w.src.draw(2) } else { 0 } {
            0 => {
                order.extend(std::iter::repeat_n(false, others));
                order.extend(std::iter::repeat_n(true, m.tags.len()));
            }
            1 => {
                order.extend(std::iter::repeat_n(true, m.tags.len()));
                order.extend(std::iter::repeat_n(false, others));
            }
            _ => {
                order.extend(std::iter::repeat_n(false, others));
                order.extend(std::iter::repeat_n(true, m.tags.len()));
                w.src.shuffle(&mut order);
            }
        }
        let (mut t, mut o) = (0, 0);
        for is_tag in order {
            w.gap(true, true);
            if broken && w.src.chance(1, 3) {
                broken_part(w, m.kind);
                w.gap(true, true);
            }
            if is_tag {
                let (k, v) = m.tags[t].clone();
                t += 1;
                w.element("tag", vec![("k".into(), k), ("v".into(), v)], true, |w| {
                    if w.n.misc && w.src.coin() {
                        w.gap(false, true)
                    }
                });
            } else if m.kind == Kind::Way {
                let id = m.nodes[o];
                o += 1;
                let mut a = vec![("ref".into(), id.to_string())];
                if n.unknown && w.src.chance(1, 8) {
                    a.extend([("lat".into(), "1.5".to_string()), ("lon".into(), "2.5".into())]);
                }
                w.element("nd", a, true, |_| {});
            } else {
                let (k, id, role) = m.members[o].clone();
                o += 1;
                let mut a = vec![("type".to_string(), k.name().to_string()), ("ref".into(), id.to_string())];
                if !(role.is_empty() && n.unknown && w.src.coin()) {
                    a.push(("role".into(), role));
                }
                let geometry = n.unknown && w.src.chance(1, 8);
                w.element("member", a, !geometry, |w| {
                    // as some servers put it there
                    for _ in 0..if geometry { 1 + w.src.draw(2) } else { 0 } {
                        w.out.push_str("<nd lat=\"1.5\" lon='2.5'/>");
                    }
                });
            }
        }
        w.gap(true, true);
        if broken && w.src.coin() {
            broken_part(w, m.kind);
            w.gap(true, true);
        }
    });
    stated
}

/// Part of an object that states no tag, node or member, or which an object of this kind does not have
fn broken_part(w: &mut W, kind: Kind) {
    let a = |l: &[(&str, &str)]| l.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect::<Vec<_>>();
    let bad_ref = *w.src.pick(&["", "x", "1.5", "0x1", "99999999999999999999", "1 2"]);
    let (name, attrs) = match w.src.draw(7) {
        0 => ("tag", a(&[("k", "no value")])),
        1 => ("tag", a(&[("v", "no key")])),
        2 => ("tag", a(&[])),
        3 if kind == Kind::Way => ("nd", a(&[("ref", bad_ref)])),
        4 if kind == Kind::Way => ("nd", a(&[])),
        3 if kind == Kind::Relation => ("member", a(&[("type", "node"), ("ref", bad_ref), ("role", "r")])),
        4 if kind == Kind::Relation => ("member", a(&[("type", "node"), ("role", "r")])),
        5 if kind == Kind::Relation => ("member", a(&[("ref", "5"), ("role", "r")])),
        6 if kind == Kind::Relation => {
            let t = *w.src.pick(&["", "Node", "area", "changeset", "ways", "x"]);
            ("member", a(&[("type", t), ("ref", "6"), ("role", "r")]))
        }
        // of another kind
        _ if kind == Kind::Way || kind == Kind::Node && w.src.coin() => {
            ("member", a(&[("type", "node"), ("ref", "7"), ("role", "r")]))
        }
        _ => ("nd", a(&[("ref", "8")])),
    };
    w.element(name, attrs, true, |_| {});
}

/// An object element that no reader can use: it has no id or not a number
fn write_bad_obj(w: &mut W) {
    let k = *w.src.pick(&KINDS);
    let mut a: Vec<(String, String)> = vec![];
    match w.src.draw(4) {
        0 => {}
        1 => a.push(("id".into(), "x".into())),
        2 => a.push(("id".into(), "".into())),
        3 => a.push(("id".into(), "1.5".into())),
        _ => a.push(("id".into(), "99999999999999999999".into())),
    }
    a.push(("version".into(), "3".into()));
    a.push(("user".into(), "nobody".into()));
    if k == Kind::Node {
        a.push(("lat".into(), "1".into()));
        a.push(("lon".into(), "2".into()));
    }
    let empty = w.src.coin();
    w.element(k.name(), a, empty, |w| {
        w.gap(false, true);
        if !empty {
            w.element("tag", vec![("k".into(), "bad".into()), ("v".into(), "object".into())], true, |_| {});
            if k == Kind::Way {
                w.element("nd", vec![("ref".into(), "77".into())], true, |_| {});
            }
            if k == Kind::Relation {
                let a = vec![("type".into(), "way".into()), ("ref".into(), "78".into()), ("role".into(), "r".into())];
                w.element("member", a, true, |_| {});
            }
        }
    });
}

pub struct XmlDoc {
    pub bytes: Vec<u8>,
    /// just after the root element
    pub root_end: usize,
    pub noise: Noise,
    pub bad_objs: usize,
    /// for OSC: (action, number of objects in it)
    pub blocks: Vec<(&'static str, usize)>,
    /// objects in delete blocks which do not say whether they are visible
    pub unstated: Vec<usize>,
    /// where the element of each object ends
    pub ends: Vec<usize>,
}

impl XmlDoc {
    /// Copies what the document leaves open from what was read
    pub fn settle(&self, objs: &[MObj], got: &[MObj]) -> Vec<MObj> {
        let mut v = objs.to_vec();
        for &i in &self.unstated {
            if let Some(g) = got.get(i) {
                v[i].deleted = g.deleted;
            }
        }
        v
    }
}

fn prolog(w: &mut W) {
    if w.n.misc && w.src.chance(1, 6) {
        w.out.push('\u{feff}');
    }
    if !(w.n.misc && w.src.chance(1, 4)) {
        w.out.push_str(*w.src.pick(&[
            "<?xml version=\"1.0\" encoding=\"UTF-8\"?>",
            "<?xml version='1.0' encoding='utf-8'?>",
            "<?xml version=\"1.0\"?>",
            "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\" ?>",
        ]));
        w.gap(false, false);
    }
}

/// A document type declaration that says nothing about the content
pub fn doctype(w: &mut W, root: &str) {
    if w.n.misc && w.src.chance(1, 5) {
        let s = match w.src.draw(4) {
            0 => format!("<!DOCTYPE {root}>"),
            1 => format!("<!DOCTYPE {root} SYSTEM \"osm.dtd\">"),
            2 => format!("<!DOCTYPE {root} PUBLIC \"-//OSM//DTD 0.6//EN\" 'http://example.org/osm.dtd' >"),
            3 => format!("<!DOCTYPE {root} [ <!-- <node id=\"1\"/> ]> --> ]>"),
            _ => format!("<!DOCTYPE {root} [<!ELEMENT {root} ANY>\n<!ATTLIST tag k CDATA #REQUIRED><!ENTITY e \"<tag k='a' v='b'/>\">\n]>"),
        };
        w.out.push_str(&s);
        w.gap(false, false);
    }
}

pub fn has_doctype(b: &[u8]) -> bool {
    b[..b.len().min(400)].windows(9).any(|w| w == b"<!DOCTYPE")
}

fn root_attrs(w: &mut W) -> Vec<(String, String)> {
    let mut a = vec![("version".to_string(), "0.6".to_string()), ("generator".to_string(), "a <\"b\"> & c".to_string())];
    if w.n.unknown && w.src.coin() {
        a.push(("copyright".into(), "OpenStreetMap and contributors".into()));
        a.push(("id".into(), "12".into()));
    }
    a
}

pub fn osm_doc(src: &mut Src, objs: &[MObj]) -> XmlDoc {
    let n = Noise::gen_for(src);
    osm_doc_with(src, objs, n)
}

pub fn osm_doc_with(src: &mut Src, objs: &[MObj], n: Noise) -> XmlDoc {
    let mut w = W { src, n, out: String::new(), raw_newlines: false };
    prolog(&mut w);
    doctype(&mut w, "osm");
    let a = root_attrs(&mut w);
    let mut bad = 0;
    let mut ends = vec![];
    let empty = objs.is_empty() && w.src.coin();
    w.element("osm", a, empty, |w| {
        if !empty {
            for m in objs {
                w.gap(true, true);
                if n.wrong && w.src.chance(1, 3) {
                    write_bad_obj(w);
                    bad += 1;
                    w.gap(true, true);
                }
                if n.unknown && w.src.chance(1, 12) {
                    // inside of something else, like in an augmented diff
                    let (open, close) = *w.src.pick(&[
                        ("<action type=\"modify\"><old>", "</old></action>"),
                        ("<group>", "</group>"),
                        ("<x id='1'><y>text</y>", "</x>"),
                        ("<changeset id=\"3\" user='u'>", "<tag k='a' v='b'/></changeset>"),
                    ]);
                    w.out.push_str(open);
                    w.gap(true, true);
                    write_obj(w, m);
                    ends.push(w.out.len());
                    w.gap(true, true);
                    w.out.push_str(close);
                    continue;
                }
                write_obj(w, m);
                ends.push(w.out.len());
            }
            if n.wrong && w.src.chance(1, 3) {
                write_bad_obj(w);
                bad += 1;
            }
            w.gap(true, true);
        }
    });
    let root_end = w.out.len();
    if w.src.coin() {
        w.gap(false, false);
    }
    XmlDoc { bytes: w.out.into_bytes(), root_end, noise: n, bad_objs: bad, blocks: vec![], unstated: vec![], ends }
}

pub const ACTIONS: [&str; 3] = ["modify", "create", "delete"];

/// An osmChange document with these objects, spread over blocks
pub fn osc_doc(src: &mut Src, objs: &[MObj]) -> XmlDoc {
    let n = Noise::gen_for(src);
    osc_doc_with(src, objs, n)
}

pub fn osc_doc_with(src: &mut Src, objs: &[MObj], n: Noise) -> XmlDoc {
    // blocks
    let mut blocks: Vec<(&'static str, usize)> = vec![];
    let mut left = objs.len();
    loop {
        while src.chance(1, 6) {
            let a = *src.pick(&ACTIONS);
            blocks.push((a, 0));
        }
        if left == 0 {
            break;
        }
        let k = 1 + src.below(left.min(6));
        let a = *src.pick(&ACTIONS);
        blocks.push((a, k));
        left -= k;
    }
    let mut w = W { src, n, out: String::new(), raw_newlines: false };
    prolog(&mut w);
    doctype(&mut w, "osmChange");
    let a = root_attrs(&mut w);
    let mut bad = 0;
    let empty = blocks.is_empty() && w.src.coin();
    let mut at = 0;
    let mut unstated = vec![];
    let mut ends = vec![];
    w.element("osmChange", a, empty, |w| {
        if empty {
            return;
        }
        for (action, k) in &blocks {
            w.gap(true, true);
            let slice = &objs[at..at + k];
            let first = at;
            at += k;
            let mut a = vec![];
            if w.src.chance(1, 4) {
                let (k, v) = *w.src.pick(&[
                    ("if-unused", "true"),
                    ("if-unused", "false"),
                    ("if-unused", ""),
                    ("version", "0.3"),
                    ("generator", "x"),
                    ("visible", "false"),
                    ("id", "7"),
                ]);
                a.push((k.to_string(), v.to_string()));
            }
            w.element(action, a, slice.is_empty(), |w| {
                for (i, m) in slice.iter().enumerate() {
                    w.gap(true, true);
                    if n.wrong && w.src.chance(1, 3) {
                        write_bad_obj(w);
                        bad += 1;
                        w.gap(true, true);
                    }
                    if !write_obj(w, m) && *action == "delete" {
                        unstated.push(first + i);
                    }
                    ends.push(w.out.len());
                }
                if !slice.is_empty() {
                    w.gap(true, true);
                }
            });
        }
        w.gap(true, true);
    });
    let root_end = w.out.len();
    if w.src.coin() {
        w.gap(false, false);
    }
    XmlDoc { bytes: w.out.into_bytes(), root_end, noise: n, bad_objs: bad, blocks, unstated, ends }
}

/// The same document in another of the encodings of XML: it says the same
pub fn reencode(src: &mut Src, d: &mut XmlDoc) -> Option<&'static str> {
    let text = String::from_utf8(d.bytes.clone()).unwrap();
    let text = text.strip_prefix('\u{feff}').unwrap_or(&text);
    let (what, names): (&str, &[&str]) =
        *src.pick(&[("UTF-16LE", &["UTF-16", "utf-16"][..]), ("UTF-16BE", &["UTF-16"]), ("ISO-8859-1", &["ISO-8859-1", "iso-8859-1", "latin1"]), ("US-ASCII", &["US-ASCII", "us-ascii"])]);
    let name = src.pick(names);
    // the declaration
    let text = match text.strip_prefix("<?xml ") {
        Some(r) => {
            let end = r.find("?>")?;
            let (decl, rest) = r.split_at(end);
            let lower = decl.to_lowercase();
            match lower.find("utf-8") {
                Some(i) => format!("<?xml {}{name}{}{rest}", &decl[..i], &decl[i + 5..]),
                // only UTF-16 (by its BOM) may go undeclared
                None if what.starts_with("UTF-16") => format!("<?xml {decl}{rest}"),
                None => format!("<?xml version=\"1.0\" encoding=\"{name}\"{rest}"),
            }
        }
        None if what.starts_with("UTF-16") => text.to_string(),
        None => format!("<?xml version=\"1.0\" encoding=\"{name}\"?>{text}"),
    };
    d.bytes = match what {
        "UTF-16LE" => "\u{feff}".encode_utf16().chain(text.encode_utf16()).flat_map(u16::to_le_bytes).collect(),
        "UTF-16BE" => "\u{feff}".encode_utf16().chain(text.encode_utf16()).flat_map(u16::to_be_bytes).collect(),
        _ => {
            let top = if what == "US-ASCII" { 0x7f } else { 0xff };
            let mut v = vec![];
            for c in text.chars() {
                if c as u32 <= top {
                    v.push(c as u8);
                } else {
                    // all names are ASCII: this is in an attribute, or in something that means nothing
                    v.extend(format!("&#{};", c as u32).bytes());
                }
            }
            v
        }
    };
    Some(what)
}

pub fn show(bytes: &[u8]) -> String {
    String::from_utf8_lossy(bytes).into_owned()
}
