//! Instrumented streams: short and interrupted transfers, faults at a chosen call, byte counting,
//! and virtual files far larger than memory.
use crate::rng::Rng;
use std::cell::Cell;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
use std::rc::Rc;

/// Transfers random short pieces and sometimes reports Interrupted on reads and writes.
pub struct Chunky<S> { pub inner: S, pub rng: Rng, pub max: usize, pub intr: u32, pub calls: Rc<Cell<u64>> }
impl<S> Chunky<S> {
    pub fn new(inner: S, rng: Rng, max: usize, intr: u32) -> Self { Chunky { inner, rng, max, intr, calls: Rc::new(Cell::new(0)) } }
    fn tick(&mut self) -> Result<()> {
        self.calls.set(self.calls.get() + 1);
        if self.intr > 0 && self.rng.pct(self.intr) { return Err(Error::new(ErrorKind::Interrupted, "injected EINTR")); }
        Ok(())
    }
}
impl<S: Read> Read for Chunky<S> {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        self.tick()?;
        let n = b.len().min(self.rng.range(1, self.max));
        self.inner.read(&mut b[..n])
    }
}
impl<S: Write> Write for Chunky<S> {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        self.tick()?;
        let n = b.len().min(self.rng.range(1, self.max));
        self.inner.write(&b[..n])
    }
    fn flush(&mut self) -> Result<()> { self.inner.flush() }
}
impl<S: Seek> Seek for Chunky<S> { fn seek(&mut self, p: SeekFrom) -> Result<u64> { self.inner.seek(p) } }

pub const INJECTED: &str = "injected fault";
/// Calls made after a failed one before the operation counts as retrying for ever.
const SPIN: u64 = 20_000_000;
/// Counts calls over all streams sharing the counter; the call with index `at` fails.
#[derive(Clone)]
pub struct Plan { pub n: Rc<Cell<u64>>, pub at: u64, pub fired: Rc<Cell<u8>>, pub kind: u8, pub sticky: bool }
impl Plan {
    pub fn new(at: u64, kind: u8, sticky: bool) -> Self { Plan { n: Rc::new(Cell::new(0)), at, fired: Rc::new(Cell::new(0)), kind, sticky } }
    fn hit(&self) -> bool {
        let i = self.n.get();
        self.n.set(i + 1);
        if i == self.at.saturating_add(SPIN) { panic!("SPIN: more than {SPIN} further I/O calls after the one that failed"); }
        i == self.at || (self.sticky && i > self.at)
    }
}
fn fault(kind: u8) -> Error {
    match kind { 0 => Error::other(INJECTED), 1 => Error::new(ErrorKind::PermissionDenied, INJECTED), 2 => Error::new(ErrorKind::UnexpectedEof, INJECTED), 3 => Error::from_raw_os_error(28), _ => Error::new(ErrorKind::BrokenPipe, INJECTED) }
}
/// which calls on which stream failed: 1 read, 2 write, 3 seek, 4 flush (+ stream id * 8)
pub struct Faulty<S> { pub inner: S, pub plan: Plan, pub id: u8 }
impl<S: Read> Read for Faulty<S> { fn read(&mut self, b: &mut [u8]) -> Result<usize> { if self.plan.hit() { self.plan.fired.set(self.id * 8 + 1); return Err(fault(self.plan.kind)); } self.inner.read(b) } }
impl<S: Write> Write for Faulty<S> {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        crate::mon::look(b);
        if self.plan.hit() { self.plan.fired.set(self.id * 8 + 2); if self.plan.kind == 9 { return if b.is_empty() { Ok(0) } else { Ok(0) }; } return Err(fault(self.plan.kind)); }
        self.inner.write(b)
    }
    fn flush(&mut self) -> Result<()> { self.inner.flush() }
}
impl<S: Seek> Seek for Faulty<S> { fn seek(&mut self, p: SeekFrom) -> Result<u64> { if self.plan.hit() { self.plan.fired.set(self.id * 8 + 3); return Err(fault(self.plan.kind)); } self.inner.seek(p) } }

/// A reader that counts the bytes handed out.
pub struct CountR<R> { pub inner: R, pub n: Rc<Cell<u64>> }
impl<R: Read> Read for CountR<R> { fn read(&mut self, b: &mut [u8]) -> Result<usize> { let n = self.inner.read(b)?; self.n.set(self.n.get() + n as u64); Ok(n) } }

/// A periodic virtual file: byte at p is table[p % P].
pub struct Pattern { table: Vec<u8>, p: u64 }
impl Pattern {
    pub fn new(rng: &mut Rng) -> Self { let p = 1_000_003usize; let mut table = rng.vec(p); let t2 = table.clone(); table.extend_from_slice(&t2[..1 << 17]); Pattern { table, p: p as u64 } }
    pub fn slice(&self, pos: u64, len: usize) -> &[u8] { let i = (pos % self.p) as usize; &self.table[i..i + len] }
    pub const MAX: usize = 1 << 17;
}
/// Read+Seek view of `len` bytes of a pattern.
pub struct VirtSrc { pub pat: Rc<Pattern>, pub len: u64, pub pos: u64 }
impl Read for VirtSrc {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        if self.pos >= self.len { return Ok(0); }
        let n = (b.len().min(Pattern::MAX) as u64).min(self.len - self.pos) as usize;
        b[..n].copy_from_slice(self.pat.slice(self.pos, n));
        self.pos += n as u64;
        Ok(n)
    }
}
fn seek_to(pos: u64, len: u64, s: SeekFrom) -> Result<u64> {
    let v: i128 = match s { SeekFrom::Start(x) => x as i128, SeekFrom::Current(d) => pos as i128 + d as i128, SeekFrom::End(d) => len as i128 + d as i128 };
    if v < 0 { return Err(Error::new(ErrorKind::InvalidInput, "seek before start")); }
    Ok(v as u64)
}
impl Seek for VirtSrc { fn seek(&mut self, s: SeekFrom) -> Result<u64> { self.pos = seek_to(self.pos, self.len, s)?; Ok(self.pos) } }

/// A sink of unlimited size whose contents are expected to be `expect(pos)`: writes are compared on the fly,
/// reads are served from the expectation for the part already written.
pub struct VirtSink { pub expect: Box<dyn Fn(u64, usize) -> Vec<u8>>, pub pos: u64, pub len: u64, pub bad: Rc<Cell<Option<u64>>>, pub writes: u64 }
impl Read for VirtSink {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        if self.pos >= self.len { return Ok(0); }
        let n = (b.len() as u64).min(self.len - self.pos) as usize;
        b[..n].copy_from_slice(&(self.expect)(self.pos, n));
        self.pos += n as u64;
        Ok(n)
    }
}
impl Write for VirtSink {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        if (self.expect)(self.pos, b.len()) != b && self.bad.get().is_none() { self.bad.set(Some(self.pos)); }
        self.pos += b.len() as u64;
        self.len = self.len.max(self.pos);
        self.writes += 1;
        Ok(b.len())
    }
    fn flush(&mut self) -> Result<()> { Ok(()) }
}
impl Seek for VirtSink { fn seek(&mut self, s: SeekFrom) -> Result<u64> { self.pos = seek_to(self.pos, self.len, s)?; Ok(self.pos) } }

/// A file of `len` bytes that is one byte repeated, except for a few blocks.
#[derive(Clone)]
pub struct Sparse { pub len: u64, pub fill: u8, pub blocks: Rc<Vec<(u64, Vec<u8>)>>, pub pos: u64 }
impl Sparse {
    pub fn new(len: u64, fill: u8, blocks: Vec<(u64, Vec<u8>)>) -> Self { Sparse { len, fill, blocks: Rc::new(blocks), pos: 0 } }
    pub fn at(&self, pos: u64, b: &mut [u8]) {
        b.fill(self.fill);
        let end = pos + b.len() as u64;
        for (s, d) in self.blocks.iter() {
            let (lo, hi) = (pos.max(*s), end.min(s + d.len() as u64));
            if lo < hi { b[(lo - pos) as usize..(hi - pos) as usize].copy_from_slice(&d[(lo - s) as usize..(hi - s) as usize]); }
        }
    }
}
impl Read for Sparse {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        if self.pos >= self.len { return Ok(0); }
        let n = (b.len() as u64).min(self.len - self.pos) as usize;
        self.at(self.pos, &mut b[..n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Sparse { fn seek(&mut self, s: SeekFrom) -> Result<u64> { self.pos = seek_to(self.pos, self.len, s)?; Ok(self.pos) } }
