//! C01, C02, C03, C17, C18: the XML and OSC writers
use crate::engine::*;
use crate::io::*;
use crate::model::*;
use crate::osmxml;
use crate::text::{self, TextKind};
use crate::xmlp;
use crate::{check, fail};
use osmio::{OSMObjBase, TimestampFormat};
use osmio::obj_types::*;
use osmio::osc::{OSCReader, OSCWriter};
use osmio::xml::{XMLReader, XMLWriter};
use osmio::{OSMReader, OSMWriteError, OSMWriter};
use std::io::{BufWriter, Write};

pub enum AnyObj {
    S(StringOSMObj),
    A(ArcOSMObj),
    R(crate::hooks::RcOSMObj),
}

pub fn build_any(src: &mut Src, m: &MObj) -> AnyObj {
    let form = gen_ts_form(src);
    match src.draw(3) {
        0 | 1 => AnyObj::S(build_string(m, form)),
        2 => AnyObj::A(build_arc(m, form)),
        _ => AnyObj::R(build_rc(m, form)),
    }
}

pub fn write_any<W: Write, Wr: OSMWriter<W>>(w: &mut Wr, o: &AnyObj) -> Result<(), OSMWriteError> {
    match o {
        AnyObj::S(o) => w.write_obj(o),
        AnyObj::A(o) => w.write_obj(o),
        AnyObj::R(o) => w.write_obj(o),
    }
}

/// A valid attribute name for the root
fn header_key(src: &mut Src) -> String {
    match src.draw(4) {
        4 => src.pick(&["generator", "version"]).to_string(),
        0 | 1 => src
            .pick(&["copyright", "attribution", "license", "timestamp", "upload", "Version", "generator2", "é", "a-b.c", "_x",
                "api_version", "versions", "osm-generator", "Generator", "visible", "id"])
            .to_string(),
        _ => {
            let n = 1 + src.draw(5) as usize;
            (0..n).map(|_| (b'a' + src.draw(25) as u8) as char).collect::<String>() + "_"
        }
    }
}

fn headers(src: &mut Src) -> Vec<(String, String)> {
    src.list(1, 5, |s| (header_key(s), text::text(s, TextKind::Xml)))
}

/// The attributes of the root: what was set, and a version and a generator in any case
fn check_headers(set: &[(String, String)], mut got: Vec<(String, String)>) -> Res {
    let mut m = std::collections::BTreeMap::new();
    m.insert("version".to_string(), "0.6".to_string());
    for (k, v) in set {
        m.insert(k.clone(), v.clone());
    }
    if !m.contains_key("generator") {
        let Some(g) = got.iter().position(|h| h.0 == "generator") else { fail!("no generator") };
        got.remove(g);
    }
    got.sort();
    let want: Vec<_> = m.into_iter().collect();
    check!(got == want, "headers are {got:?} instead of {want:?}");
    Ok(())
}

/// One object with a timestamp which is any text, which the model has without timestamp
fn odd_ts(src: &mut Src, objs: &mut [MObj]) -> Option<(usize, String)> {
    if objs.is_empty() || !src.chance(1, 8) {
        return None;
    }
    let i = src.draw(objs.len() as u64 - 1) as usize;
    objs[i].ts = None;
    Some((i, text::text(src, TextKind::Xml)))
}

fn set_odd_ts(o: &mut AnyObj, t: &str) {
    let t = TimestampFormat::ISOString(t.to_string());
    match o {
        AnyObj::S(o) => o.set_timestamp(t),
        AnyObj::A(o) => o.set_timestamp(t),
        AnyObj::R(o) => o.set_timestamp(t),
    }
}

fn check_odd_ts(root: &mut xmlp::Elem, odd: &Option<(usize, String)>, osc: bool) -> Res {
    if let Some((i, t)) = odd {
        let g = osmxml::take_ts(root, *i, osc);
        check!(g.as_ref() == Some(t), "the timestamp of object {i} is {g:?} instead of {t:?}");
    }
    Ok(())
}

fn interesting(objs: &[MObj]) -> bool {
    objs.iter().any(|o| {
        o.user
            .iter()
            .chain(o.tags.iter().flat_map(|t| [&t.0, &t.1]))
            .chain(o.members.iter().map(|m| &m.2))
            .any(|s| s.chars().any(|c| "&<>'\"\t\n\r".contains(c) || c > '\u{7e}'))
    })
}

fn c01(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut objs = super::xmlr::some_objs(src, ctx);
    let odd = odd_ts(src, &mut objs);
    let hs = headers(src);
    let mut built: Vec<AnyObj> = objs.iter().map(|m| build_any(src, m)).collect();
    if let Some((i, t)) = &odd {
        set_odd_ts(&mut built[*i], t);
    }
    ctx.hash(&digest(&objs));
    ctx.hash(format!("{odd:?}").as_bytes());
    ctx.label_if(odd.is_some(), "any text as timestamp");
    ctx.hash(format!("{hs:?}").as_bytes());
    ctx.nontrivial = nontrivial(&objs) || !hs.is_empty();
    ctx.label_if(interesting(&objs), "special characters");
    ctx.label_if(!hs.is_empty(), "headers");
    ctx.label_if(objs.len() > 100, "over 100 objects");
    ctx.label_if(objs.is_empty(), "no objects");
    ctx.sample(|| format!("headers {hs:?}, objects {objs:?}, odd timestamp {odd:?}"));
    let sink = Shared::default();
    let mut w = XMLWriter::new(sink.clone());
    for (k, v) in &hs {
        if let Err(e) = w.set_header((k, v)) {
            fail!("set_header({k:?}, {v:?}): {e}");
        }
    }
    for o in &built {
        if let Err(e) = write_any(&mut w, o) {
            fail!("write_obj: {e}");
        }
    }
    if src.coin() {
        if let Err(e) = w.close() {
            fail!("close: {e}");
        }
    }
    drop(w);
    let bytes = sink.bytes();
    let mut doc = xmlp::parse(&bytes)?;
    check_odd_ts(&mut doc.root, &odd, false)?;
    let (got, gh) = osmxml::read_osm(&doc.root)?;
    if let Some(d) = diff(&objs, &got) {
        fail!("{d}");
    }
    check_headers(&hs, gh)
}

fn c02(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut objs = super::xmlr::some_objs(src, ctx);
    let odd = odd_ts(src, &mut objs);
    let mut built: Vec<AnyObj> = objs.iter().map(|m| build_any(src, m)).collect();
    if let Some((i, t)) = &odd {
        set_odd_ts(&mut built[*i], t);
    }
    ctx.hash(&digest(&objs));
    ctx.hash(format!("{odd:?}").as_bytes());
    ctx.label_if(odd.is_some(), "any text as timestamp");
    ctx.nontrivial = nontrivial(&objs);
    ctx.label_if(interesting(&objs), "special characters");
    ctx.label_if(objs.len() > 100, "over 100 objects");
    ctx.label_if(objs.is_empty(), "no objects");
    ctx.sample(|| format!("{objs:?}, odd timestamp {odd:?}"));
    let sink = Shared::default();
    let mut w = OSCWriter::new(sink.clone());
    for o in &built {
        if let Err(e) = write_any(&mut w, o) {
            fail!("write_obj: {e}");
        }
    }
    for _ in 0..src.draw(2) {
        if let Err(e) = w.close() {
            fail!("close: {e}");
        }
    }
    drop(w);
    let bytes = sink.bytes();
    let mut doc = xmlp::parse(&bytes)?;
    check!(doc.tail_ok, "something follows the root element: {:?}", osmxml::show(&bytes[doc.root_end..]));
    check_odd_ts(&mut doc.root, &odd, true)?;
    let got = osmxml::read_osc(&doc.root)?;
    if let Some(d) = diff(&objs, &got) {
        fail!("{d}");
    }
    Ok(())
}

/// Write with a new writer; the bytes of one document
pub fn write_doc<Wr: OSMWriter<Shared>>(objs: &[AnyObj], close: bool) -> Result<Vec<u8>, String> {
    let sink = Shared::default();
    let mut w = Wr::new(sink.clone());
    for o in objs {
        write_any(&mut w, o).map_err(|e| format!("write_obj: {e}"))?;
    }
    if close {
        w.close().map_err(|e| format!("close: {e}"))?;
        // dropping a closed XMLWriter writes too much, a known finding of C17
        let b = sink.bytes();
        drop(w);
        return Ok(b);
    }
    drop(w);
    Ok(sink.bytes())
}

fn read_strings<'a, Rd: OSMReader<R = &'a [u8], Obj = StringOSMObj>>(
    bytes: &'a [u8],
    cap: usize,
) -> Result<Vec<StringOSMObj>, String> {
    let mut r = Rd::new(bytes);
    let mut v = vec![];
    loop {
        if v.len() > cap {
            return Err("more objects than were written".into());
        }
        match catch(|| r.next()) {
            Ok(None) => return Ok(v),
            Ok(Some(o)) => v.push(o),
            Err(p) => return Err(format!("the reader panics after {} objects: {p}", v.len())),
        }
    }
}

fn c03(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut objs = super::xmlr::some_objs(src, ctx);
    let odd = odd_ts(src, &mut objs);
    let forms: Vec<TsForm> = objs.iter().map(|_| gen_ts_form(src)).collect();
    let osc = src.coin();
    let close = src.coin();
    ctx.hash(&digest(&objs));
    ctx.hash(format!("{odd:?}").as_bytes());
    ctx.label_if(odd.is_some(), "any text as timestamp");
    ctx.nontrivial = nontrivial(&objs);
    ctx.label_if(interesting(&objs), "special characters");
    ctx.label(if osc { "osc" } else { "xml" });
    ctx.label_if(objs.len() > 100, "over 100 objects");
    ctx.sample(|| format!("osc {osc}, {objs:?}, odd timestamp {odd:?}"));
    let mut built: Vec<StringOSMObj> = objs.iter().zip(&forms).map(|(m, f)| build_string(m, *f)).collect();
    if let Some((i, t)) = &odd {
        built[*i].set_timestamp(TimestampFormat::ISOString(t.clone()));
    }
    let write = |os: &[StringOSMObj], close: bool| {
        let v: Vec<AnyObj> = os.iter().map(|o| AnyObj::S(o.clone())).collect();
        if osc {
            write_doc::<OSCWriter<Shared>>(&v, close)
        } else {
            write_doc::<XMLWriter<Shared>>(&v, close)
        }
    };
    let bytes = write(&built, close)?;
    let back = if osc {
        read_strings::<OSCReader<&[u8]>>(&bytes, objs.len())?
    } else {
        read_strings::<XMLReader<&[u8]>>(&bytes, objs.len())?
    };
    let mut plain = back.clone();
    if let (Some((i, t)), true) = (&odd, back.len() == objs.len()) {
        let want = Some(TimestampFormat::ISOString(t.clone()));
        let got = back[*i].timestamp();
        check!(*got == want, "the timestamp of object {i} is {got:?} instead of {want:?}");
        plain[*i].set_timestamp(None);
    }
    let snaps = plain.iter().map(snap).collect::<Result<Vec<_>, _>>()?;
    if let Some(d) = diff(&objs, &snaps) {
        fail!("{d}");
    }
    for (i, (a, b)) in built.iter().zip(&back).enumerate() {
        check!(a == b && b == a, "object {i} read back is not equal (==) to the one written: {:?}", objs[i]);
    }
    let again = write(&back, !close)?;
    if again != bytes {
        fail!("writing what was read gives a different document:\n{}\n{}", osmxml::show(&bytes), osmxml::show(&again));
    }
    Ok(())
}

#[derive(Debug, Clone)]
enum Op {
    Header(String, String),
    Write(usize),
    Close,
}

fn c17_run<Wr: OSMWriter<Shared>>(xml: bool, ops: &[Op], objs: &[MObj], built: &[AnyObj], ctx: &mut Ctx) -> Res {
    let sink = Shared::default();
    let mut w = Wr::new(sink.clone());
    let (mut started, mut closed) = (false, false);
    let mut hs = vec![];
    let mut written = vec![];
    let mut closes = 0;
    for (i, op) in ops.iter().enumerate() {
        check!(w.is_open() == !closed, "before op {i}: is_open() is {} but closed is {closed}", w.is_open());
        let before = sink.bytes();
        match op {
            Op::Header(k, v) => match (w.set_header((k, v)), started, closed) {
                (Ok(()), false, false) => hs.push((k.clone(), v.clone())),
                (Err(OSMWriteError::AlreadyClosed), _, true) => {}
                (Err(OSMWriteError::AlreadyStarted), true, false) => {}
                (r, _, _) => fail!("op {i}: set_header gives {r:?} (started {started}, closed {closed})"),
            },
            Op::Write(j) => match (write_any(&mut w, &built[*j]), closed) {
                (Ok(()), false) => {
                    started = true;
                    written.push(objs[*j].clone());
                }
                (Err(OSMWriteError::AlreadyClosed), true) => {
                    check!(sink.bytes() == before, "op {i}: write_obj after close changed the output");
                }
                (r, _) => fail!("op {i}: write_obj gives {r:?} (closed {closed})"),
            },
            Op::Close => {
                closes += 1;
                let r = w.close();
                if !closed && r.is_err() {
                    fail!("op {i}: close gives {r:?}");
                }
                closed = true;
            }
        }
    }
    check!(w.is_open() == !closed, "at the end: is_open() is {} but closed is {closed}", w.is_open());
    drop(w);
    closes += 1;
    let bytes = sink.bytes();
    let doc = xmlp::parse(&bytes)?;
    if xml {
        let (got, gh) = osmxml::read_osm(&doc.root)?;
        if let Some(d) = diff(&written, &got) {
            fail!("{d}");
        }
        check_headers(&hs, gh)?;
    } else if let Some(d) = diff(&written, &osmxml::read_osc(&doc.root)?) {
        fail!("{d}");
    }
    if !doc.tail_ok {
        let tail = osmxml::show(&bytes[doc.root_end..]);
        if xml && closes > 1 && tail == "\n</osm>".repeat(closes - 1) {
            ctx.finding(
                "xmlwriter-extra-end-tag",
                format!("closed {closes} times including the drop, {:?} follows the document", tail),
            );
        } else {
            fail!("{tail:?} follows the document");
        }
    }
    Ok(())
}

fn c17(src: &mut Src, ctx: &mut Ctx) -> Res {
    let xml = src.coin();
    let mut objs = vec![];
    let closes = src.draw(3);
    let mut ops = src.list(6, 25, |s| match s.draw(7) {
        0..=3 => {
            objs.push(gen_obj(s, XML));
            Op::Write(objs.len() - 1)
        }
        4 | 5 if xml => Op::Header(header_key(s), text::text(s, TextKind::Xml)),
        6 | 7 if closes > 1 => Op::Close,
        _ => {
            objs.push(gen_obj_of(s, Kind::Node, XML));
            Op::Write(objs.len() - 1)
        }
    });
    if closes > 0 && src.coin() {
        ops.push(Op::Close);
    }
    let built: Vec<AnyObj> = objs.iter().map(|m| build_any(src, m)).collect();
    ctx.hash(format!("{xml}{ops:?}{objs:?}").as_bytes());
    let nclose = ops.iter().filter(|o| matches!(o, Op::Close)).count();
    ctx.nontrivial = ops.len() > 1;
    ctx.label(if xml { "xml" } else { "osc" });
    ctx.label_if(nclose > 0, "closed");
    ctx.label_if(nclose > 1, "closed repeatedly");
    let first_close = ops.iter().position(|o| matches!(o, Op::Close)).unwrap_or(ops.len());
    ctx.label_if(first_close + 1 < ops.len(), "operations after close");
    ctx.label_if(ops.is_empty(), "just dropped");
    ctx.sample(|| format!("xml {xml}: {ops:?}"));
    if xml {
        c17_run::<XMLWriter<Shared>>(true, &ops, &objs, &built, ctx)
    } else {
        c17_run::<OSCWriter<Shared>>(false, &ops, &objs, &built, ctx)
    }
}

/// Everything that happens when writing with this fault
fn c18_run<Wr: OSMWriter<FailingSink>>(
    built: &[AnyObj],
    hs: &[(String, String)],
    fail_at: usize,
    fault: SinkFault,
    go_on: bool,
    want: &[u8],
) -> Res {
    let to = Shared::default();
    let failed = std::rc::Rc::new(std::cell::RefCell::new(0u64));
    let mut w = Wr::new(FailingSink { to: to.clone(), fail_at, fault, failed: failed.clone() });
    let what = format!("sink fails ({fault:?}) at byte {fail_at} of {}", want.len());
    let mut any_err = false;
    let mut check_prefix = |call: &str, ok: bool, before: u64| -> Res {
        let now = *failed.borrow();
        check!(!(ok && now > before), "{what}: {call} returns success");
        if now > 0 && before == 0 {
            let b = to.bytes();
            check!(want.starts_with(&b), "{what}: the bytes written before are not a prefix: {:?}", osmxml::show(&b));
        }
        if !ok {
            check!(now > 0, "{what}: {call} fails before the sink does");
            any_err = true;
        }
        Ok(())
    };
    for (k, v) in hs {
        let before = *failed.borrow();
        match catch(|| w.set_header((k, v))) {
            Ok(r) => check_prefix("set_header", r.is_ok(), before)?,
            Err(p) => fail!("{what}: set_header panics: {p}"),
        }
    }
    let mut stopped = false;
    for (i, o) in built.iter().enumerate() {
        let before = *failed.borrow();
        match catch(|| write_any(&mut w, o)) {
            Ok(r) => {
                let bad = r.is_err();
                if !(bad && before > 0) {
                    check_prefix(&format!("write_obj of object {i}"), !bad, before)?;
                }
                if bad && !go_on {
                    stopped = true;
                    break;
                }
            }
            Err(p) => fail!("{what}: write_obj panics: {p}"),
        }
    }
    if !stopped || go_on {
        let before = *failed.borrow();
        match catch(|| w.close()) {
            Ok(r) => {
                if !(r.is_err() && before > 0) {
                    check_prefix("close", r.is_ok(), before)?;
                }
                if *failed.borrow() == 0 {
                    let b = to.bytes();
                    check!(b == want, "all succeeded, but the output is {:?}", osmxml::show(&b));
                }
            }
            Err(p) => fail!("{what}: close panics: {p}"),
        }
    }
    if let Err(p) = catch(move || drop(w)) {
        fail!("{what}: drop panics: {p}");
    }
    match fault {
        SinkFault::Once(_) => {}
        _ => {
            let b = to.bytes();
            // a sink that never failed because everything fitted can have got more (known, C17)
            if fail_at < want.len() {
                check!(want.starts_with(&b), "{what}: the sink holds {:?}", osmxml::show(&b));
            }
        }
    }
    Ok(())
}

/// The same through a buffer, which finds out about the fault later
fn c18_buffered<Wr: OSMWriter<BufWriter<FailingSink>>>(
    built: &[AnyObj],
    hs: &[(String, String)],
    (cap, fail_at, fault): (usize, usize, SinkFault),
    want: &[u8],
) -> Res {
    let to = Shared::default();
    let failed = std::rc::Rc::new(std::cell::RefCell::new(0u64));
    let sink = FailingSink { to: to.clone(), fail_at, fault, failed: failed.clone() };
    let mut w = Wr::new(BufWriter::with_capacity(cap, sink));
    let what = format!("sink behind a buffer of {cap} bytes fails ({fault:?}) at byte {fail_at} of {}", want.len());
    let r = catch(|| -> Result<(), OSMWriteError> {
        for (k, v) in hs {
            w.set_header((k, v))?;
        }
        for o in built {
            write_any(&mut w, o)?;
        }
        w.close()
    });
    let failures = *failed.borrow();
    match r {
        Err(p) => fail!("{what}: panic: {p}"),
        Ok(Ok(())) => {
            check!(failures == 0, "{what}: every call returns success");
            let b = to.bytes();
            check!(b == want, "{what}: every call returns success, but the sink holds {:?}", osmxml::show(&b));
        }
        Ok(Err(e)) => check!(failures > 0, "{what}: {e} before the sink fails"),
    }
    if let Err(p) = catch(move || drop(w)) {
        fail!("{what}: drop panics: {p}");
    }
    if !matches!(fault, SinkFault::Once(_)) && failures > 0 {
        let b = to.bytes();
        check!(want.starts_with(&b), "{what}: the sink holds {:?}", osmxml::show(&b));
    }
    Ok(())
}

fn c18_flush<Wr: OSMWriter<NoFlush>>(built: &[AnyObj], kind: std::io::ErrorKind) -> Res {
    let flushes = std::rc::Rc::new(std::cell::RefCell::new(0u64));
    let mut w = Wr::new(NoFlush { kind, flushes: flushes.clone() });
    for o in built {
        let before = *flushes.borrow();
        match (catch(|| write_any(&mut w, o)), *flushes.borrow() > before) {
            (Err(p), _) => fail!("flush fails: write_obj panics: {p}"),
            (Ok(Ok(())), true) => fail!("flush fails: write_obj returns success"),
            (Ok(Err(e)), false) => fail!("flush fails: write_obj fails ({e}) without flushing"),
            _ => {}
        }
    }
    match catch(|| w.close()) {
        Err(p) => fail!("flush fails: close panics: {p}"),
        Ok(Ok(())) => fail!("flush fails, or is not tried ({} times): close returns success", flushes.borrow()),
        Ok(Err(_)) => {}
    }
    if let Err(p) = catch(move || drop(w)) {
        fail!("flush fails: drop panics: {p}");
    }
    Ok(())
}

/// Copying from an iterator has no way to return an error
fn c18_from_iter<Wr: OSMWriter<FailingSink>>(built: &[StringOSMObj], fail_at: usize, fault: SinkFault, want: &[u8]) -> Res {
    let to = Shared::default();
    let failed = std::rc::Rc::new(std::cell::RefCell::new(0u64));
    let sink = FailingSink { to: to.clone(), fail_at, fault, failed: failed.clone() };
    let what = format!("sink fails ({fault:?}) at byte {fail_at} of {}", want.len());
    let r = catch(|| Wr::from_iter(sink, built.iter().cloned()));
    let failures = *failed.borrow();
    match r {
        Ok(w) => {
            check!(failures == 0, "{what}: from_iter returns as if it had worked");
            let b = to.bytes();
            check!(b == want, "{what}: from_iter returns, but the sink holds {:?}", osmxml::show(&b));
            if let Err(p) = catch(move || drop(w)) {
                fail!("{what}: drop after from_iter panics: {p}");
            }
        }
        Err(p) => check!(failures > 0, "{what}: from_iter panics before the sink fails: {p}"),
    }
    if !matches!(fault, SinkFault::Once(_)) && failures > 0 {
        let b = to.bytes();
        check!(want.starts_with(&b), "{what}: after from_iter the sink holds {:?}", osmxml::show(&b));
    }
    Ok(())
}

fn c18(src: &mut Src, ctx: &mut Ctx) -> Res {
    let xml = src.coin();
    let objs = gen_objs(src, XML, 2, 5);
    // one header at most: their order is not specified
    let hs: Vec<(String, String)> = if xml && src.coin() { vec![("license".into(), text::text(src, TextKind::Xml))] } else { vec![] };
    let built: Vec<AnyObj> = objs.iter().map(|m| build_any(src, m)).collect();
    let kind = *src.pick(ERROR_KINDS);
    let fault = *src.pick(&[SinkFault::Forever(kind), SinkFault::Once(kind), SinkFault::Full]);
    let go_on = src.coin();
    // fault-free
    let sink = Shared::default();
    let want = if xml {
        let mut w = XMLWriter::new(sink.clone());
        for (k, v) in &hs {
            w.set_header((k, v)).map_err(|e| e.to_string())?;
        }
        for o in &built {
            write_any(&mut w, o).map_err(|e| e.to_string())?;
        }
        w.close().map_err(|e| e.to_string())?;
        sink.bytes()
    } else {
        let mut w = OSCWriter::new(sink.clone());
        for o in &built {
            write_any(&mut w, o).map_err(|e| e.to_string())?;
        }
        w.close().map_err(|e| e.to_string())?;
        sink.bytes()
    };
    let positions: Vec<usize> = if want.len() <= 1500 {
        (0..=want.len()).collect()
    } else {
        let mut v: Vec<usize> = (0..100).chain(want.len() - 40..=want.len()).collect();
        v.extend((0..300).map(|_| src.below(want.len())));
        v
    };
    ctx.hash(format!("{xml}{objs:?}{hs:?}{fault:?}{go_on}").as_bytes());
    ctx.nontrivial = true;
    ctx.label(if xml { "xml" } else { "osc" });
    ctx.label(match fault {
        SinkFault::Forever(_) => "fails from then on",
        SinkFault::Once(_) => "fails once",
        SinkFault::Full => "accepts nothing more",
    });
    ctx.label_if(go_on, "caller goes on after errors");
    ctx.label_if(want.len() <= 1500, "every byte position");
    ctx.sample(|| format!("xml {xml}, {fault:?}, {} positions of {} bytes, {objs:?}", positions.len(), want.len()));
    for p in positions {
        ctx.eval();
        if xml {
            c18_run::<XMLWriter<FailingSink>>(&built, &hs, p, fault, go_on, &want)?;
        } else {
            c18_run::<OSCWriter<FailingSink>>(&built, &hs, p, fault, go_on, &want)?;
        }
    }
    for _ in 0..40 {
        ctx.eval();
        ctx.label("behind a buffer");
        let cap = *src.pick(&[0usize, 1, 7, 100, 8192, 1 << 20]);
        let at = if src.coin() { want.len().saturating_sub(src.draw(30) as usize) } else { src.below(want.len() + 1) };
        let f = (cap, at, fault);
        if xml {
            c18_buffered::<XMLWriter<BufWriter<FailingSink>>>(&built, &hs, f, &want)?;
        } else {
            c18_buffered::<OSCWriter<BufWriter<FailingSink>>>(&built, &hs, f, &want)?;
        }
    }
    if xml {
        c18_flush::<XMLWriter<NoFlush>>(&built, kind)?;
    } else {
        c18_flush::<OSCWriter<NoFlush>>(&built, kind)?;
    }
    if src.chance(1, 2) {
        ctx.label("copied from an iterator");
        let strings: Vec<StringOSMObj> = objs.iter().map(|m| build_string(m, gen_ts_form(src))).collect();
        let whole = Shared::default();
        if xml {
            let w = XMLWriter::from_iter(whole.clone(), strings.iter().cloned());
            check_iter_doc(&whole.bytes(), &objs, true)?;
            // dropping a closed XMLWriter writes too much, a known finding of C17
            let b = whole.bytes();
            drop(w);
            c18_iter_positions::<XMLWriter<FailingSink>>(src, ctx, &strings, fault, &b)?;
        } else {
            drop(OSCWriter::from_iter(whole.clone(), strings.iter().cloned()));
            let b = whole.bytes();
            check_iter_doc(&b, &objs, false)?;
            c18_iter_positions::<OSCWriter<FailingSink>>(src, ctx, &strings, fault, &b)?;
        }
    }
    ctx.distinct_inside = ctx.evals.saturating_sub(1);
    Ok(())
}

fn check_iter_doc(bytes: &[u8], objs: &[MObj], xml: bool) -> Res {
    let doc = xmlp::parse(bytes)?;
    check!(doc.tail_ok, "from_iter: something follows the document");
    let got = if xml { osmxml::read_osm(&doc.root)?.0 } else { osmxml::read_osc(&doc.root)? };
    if let Some(d) = diff(objs, &got) {
        fail!("from_iter: {d}");
    }
    Ok(())
}

fn c18_iter_positions<Wr: OSMWriter<FailingSink>>(
    src: &mut Src,
    ctx: &mut Ctx,
    strings: &[StringOSMObj],
    fault: SinkFault,
    want: &[u8],
) -> Res {
    let n = want.len();
    let mut at: Vec<usize> = (n.saturating_sub(40)..=n).collect();
    at.extend((0..40).map(|_| src.below(n)));
    for p in at {
        ctx.eval();
        c18_from_iter::<Wr>(strings, p, fault, want)?;
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            level: "exploration",
            rule: "distinct object sequences (with headers) written and parsed by an independent XML parser, where at least one object has metadata, tags, nodes or members, or there is a header",
            run: c01,
            quick: 200_000,
            thorough: 3_000_000,
            exhaustive: None,
            assumptions: &["strings only of characters XML 1.0 can represent", "header keys are XML names", "numeric timestamps of years 0000-9999"],
        },
        Prop {
            id: "C02",
            level: "exploration",
            rule: "distinct object sequences written and parsed by an independent XML parser, where at least one object has metadata, tags, nodes or members",
            run: c02,
            quick: 200_000,
            thorough: 3_000_000,
            exhaustive: None,
            assumptions: &["strings only of characters XML 1.0 can represent", "numeric timestamps of years 0000-9999"],
        },
        Prop {
            id: "C03",
            level: "exploration",
            rule: "distinct object sequences written, read back and written again, where at least one object has metadata, tags, nodes or members",
            run: c03,
            quick: 80_000,
            thorough: 1_500_000,
            exhaustive: None,
            assumptions: &["strings only of characters XML 1.0 can represent", "distinct tag keys in an object", "numeric timestamps of years 0000-9999"],
        },
        Prop {
            id: "C17",
            level: "exploration",
            rule: "distinct histories of at least two operations on a writer",
            run: c17,
            quick: 500_000,
            thorough: 3_000_000,
            exhaustive: None,
            assumptions: &["set_header is only called on the XML writer (the OSC writer has no headers)"],
        },
        Prop {
            id: "C18",
            level: "fault_enumeration",
            rule: "distinct (objects, writer, kind of fault, caller's reaction) times the byte position where the sink fails: every position for documents up to 1500 bytes",
            run: c18,
            quick: 16_000,
            thorough: 80_000,
            exhaustive: None,
            assumptions: &["for a sink that fails only once, only the failing call, the bytes before and the absence of panics are checked"],
        },
    ]
}
