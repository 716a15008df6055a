//! Sources and sinks that behave in every legal way, or fail; running readers over them.
use crate::dict;
use crate::engine::{catch, Src};
use crate::model::{snap, MObj};
use osmio::OSMReader;
use std::cell::RefCell;
use std::io::{self, ErrorKind, Read, Write};
use std::rc::Rc;

/// Reads in pieces of the given sizes, repeated; 0 stands for Interrupted
pub struct Chunked {
    data: Rc<Vec<u8>>,
    pos: usize,
    sizes: Vec<usize>,
    at: usize,
}
impl Chunked {
    pub fn new(data: Rc<Vec<u8>>, sizes: Vec<usize>) -> Chunked {
        assert!(sizes.iter().any(|s| *s > 0));
        Chunked { data, pos: 0, sizes, at: 0 }
    }
}
impl Read for Chunked {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let s = self.sizes[self.at % self.sizes.len()];
        self.at += 1;
        if s == 0 {
            return Err(ErrorKind::Interrupted.into());
        }
        let n = s.min(buf.len()).min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub fn gen_sizes(src: &mut Src, interrupted: bool) -> Vec<usize> {
    let n = dict::num_in(src, 1, 1 << 20);
    let mut v = match src.draw(4) {
        _ if n.is_some() => vec![n.unwrap() as usize],
        0 => vec![1],
        1 => vec![1 + src.draw(8) as usize],
        2 => src.list(4, 12, |s| 1 + s.draw(9) as usize),
        3 => src.list(4, 12, |s| 1 + s.draw(9000) as usize),
        _ => vec![*src.pick(&[8191, 8192, 8193, 4096, 16, 1 << 20])],
    };
    if interrupted && src.coin() {
        for _ in 0..1 + src.draw(3) {
            let i = src.below(v.len() + 1);
            v.insert(i, 0);
        }
    }
    if !v.iter().any(|s| *s > 0) {
        v.push(3);
    }
    v
}

pub const ERROR_KINDS: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::ConnectionReset,
    ErrorKind::BrokenPipe,
    ErrorKind::TimedOut,
    ErrorKind::InvalidData,
    ErrorKind::PermissionDenied,
    ErrorKind::WouldBlock,
];

/// Delivers data up to a position, then only errors
pub struct FailingSource {
    pub data: Rc<Vec<u8>>,
    pub pos: usize,
    pub fail_at: usize,
    pub kind: ErrorKind,
    pub chunk: usize,
}
impl Read for FailingSource {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.pos >= self.fail_at && !buf.is_empty() {
            return Err(io::Error::new(self.kind, "planted"));
        }
        let n = self.chunk.min(buf.len()).min(self.fail_at - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Counts reads after the end of the data
pub struct Counting {
    pub data: Rc<Vec<u8>>,
    pub pos: usize,
    pub after_end: Rc<RefCell<u64>>,
    pub limit: u64,
}
impl Read for Counting {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = buf.len().min(self.data.len() - self.pos);
        if n == 0 && !buf.is_empty() {
            let mut a = self.after_end.borrow_mut();
            *a += 1;
            if *a > self.limit {
                panic!("LIMIT: reads after the end of the data");
            }
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Memory to which several can have access
#[derive(Clone, Default)]
pub struct Shared(pub Rc<RefCell<Vec<u8>>>);
impl Shared {
    pub fn bytes(&self) -> Vec<u8> {
        self.0.borrow().clone()
    }
    pub fn len(&self) -> usize {
        self.0.borrow().len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
}
impl Write for Shared {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Accepts pieces of the given sizes; 0 stands for Interrupted
pub struct ShortSink {
    pub to: Shared,
    pub sizes: Vec<usize>,
    pub at: usize,
}
impl Write for ShortSink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let s = self.sizes[self.at % self.sizes.len()];
        self.at += 1;
        if s == 0 {
            return Err(ErrorKind::Interrupted.into());
        }
        let n = s.min(b.len());
        self.to.write(&b[..n])
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum SinkFault {
    /// fails from then on
    Forever(ErrorKind),
    /// fails once, then accepts everything
    Once(ErrorKind),
    /// accepts nothing any more: Ok(0)
    Full,
}

/// Accepts data up to a position, then fails
pub struct FailingSink {
    pub to: Shared,
    pub fail_at: usize,
    pub fault: SinkFault,
    pub failed: Rc<RefCell<u64>>,
}
impl Write for FailingSink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let n = self.to.len();
        let mut failed = self.failed.borrow_mut();
        let over = match self.fault {
            SinkFault::Once(_) => *failed > 0,
            _ => false,
        };
        if over {
            return self.to.write(b);
        }
        if n >= self.fail_at {
            *failed += 1;
            return match self.fault {
                SinkFault::Full => Ok(0),
                SinkFault::Forever(k) | SinkFault::Once(k) => Err(io::Error::new(k, "planted")),
            };
        }
        let m = b.len().min(self.fail_at - n);
        self.to.write(&b[..m])
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Accepts everything, but cannot get rid of it
pub struct NoFlush {
    pub kind: ErrorKind,
    pub flushes: Rc<RefCell<u64>>,
}
impl Write for NoFlush {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        *self.flushes.borrow_mut() += 1;
        Err(io::Error::new(self.kind, "planted"))
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    /// end of the stream
    Done,
    Panic(String),
    Err(String),
    /// more items than there can be
    Cap,
}
impl End {
    pub fn failed(&self) -> bool {
        matches!(self, End::Panic(_) | End::Err(_))
    }
}

#[derive(Debug)]
pub struct Run<T> {
    pub items: Vec<T>,
    pub end: End,
}

/// Everything an OSM reader delivers. Err if an object contradicts itself.
pub fn drain<Rd: OSMReader>(r: &mut Rd, cap: usize) -> Result<Run<MObj>, String> {
    let mut items = vec![];
    loop {
        if items.len() > cap {
            return Ok(Run { items, end: End::Cap });
        }
        match catch(|| r.next()) {
            Err(p) => return Ok(Run { items, end: End::Panic(p) }),
            Ok(None) => return Ok(Run { items, end: End::Done }),
            Ok(Some(o)) => items.push(snap(&o)?),
        }
    }
}

pub fn drain_iter<T>(it: &mut impl Iterator<Item = T>, cap: usize) -> Run<T> {
    let mut items = vec![];
    loop {
        if items.len() > cap {
            return Run { items, end: End::Cap };
        }
        match catch(|| it.next()) {
            Err(p) => return Run { items, end: End::Panic(p) },
            Ok(None) => return Run { items, end: End::Done },
            Ok(Some(o)) => items.push(o),
        }
    }
}

/// Like drain_iter, for iterators over results
pub fn drain_res<T, E: std::fmt::Display>(it: &mut impl Iterator<Item = Result<T, E>>, cap: usize) -> Run<T> {
    let mut items = vec![];
    loop {
        if items.len() > cap {
            return Run { items, end: End::Cap };
        }
        match catch(|| it.next()) {
            Err(p) => return Run { items, end: End::Panic(p) },
            Ok(None) => return Run { items, end: End::Done },
            Ok(Some(Err(e))) => return Run { items, end: End::Err(e.to_string()) },
            Ok(Some(Ok(o))) => items.push(o),
        }
    }
}

/// What an iterator over results gives after its first error: the items, and whether it panicked.
/// It need not give anything.
pub fn after_error<T, E: std::fmt::Display>(it: &mut impl Iterator<Item = Result<T, E>>, cap: usize) -> Result<Vec<T>, String> {
    let mut items = vec![];
    let mut nones = 0;
    for _ in 0..2 * cap + 20 {
        match catch(|| it.next()) {
            Err(p) => return Err(p),
            Ok(None) => {
                nones += 1;
                if nones == 3 {
                    break;
                }
            }
            Ok(Some(Err(_))) => {}
            Ok(Some(Ok(o))) => items.push(o),
        }
    }
    Ok(items)
}

/// All objects of an intact input
pub fn all<Rd: OSMReader>(r: &mut Rd, cap: usize) -> Result<Vec<MObj>, String> {
    let run = drain(r, cap)?;
    match run.end {
        End::Done => Ok(run.items),
        e => Err(format!("after {} objects: {e:?}", run.items.len())),
    }
}
