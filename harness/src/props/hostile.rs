//! Makers of malformed patches, and a sink for outputs that are of no interest.
use crate::refm::{self, ROp};
use crate::rng::Rng;
use std::io::{Read, Result, Seek, SeekFrom, Write};

/// Random damage to a byte string.
pub fn mutate(rng: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..rng.lrange(1, 6) {
        if b.is_empty() { b.push(rng.byte()); continue; }
        let p = if rng.pct(40) { rng.below(b.len().min(12)) } else { rng.below(b.len()) };
        match rng.below(12) {
            0..=2 => b[p] ^= 1 << rng.below(8),
            3 => b[p] = *rng.pick(&[0u8, 1, 0x3f, 0x40, 0x7f, 0x80, 0xbf, 0xc0, 0xfe, 0xff, 62, 63]),
            4 => b[p] = rng.byte(),
            5 => { let e = (p + rng.lrange(1, 40)).min(b.len()); b.drain(p..e); }
            6 => { let x = rng.rvec(1, 12); b.splice(p..p, x); }
            7 => { let mut x = vec![]; refm::put_uvar(&mut x, rng.ulog()); b.splice(p..p, x); }
            8 => b.truncate(p),
            9 => { let e = (p + rng.lrange(1, 60)).min(b.len()); let x = b[p..e].to_vec(); let q = rng.below(b.len()); b.splice(q..q, x); }
            10 => { let n = rng.range(1, 11); let mut x = vec![0xffu8; n]; if rng.pct(50) { x.push(rng.byte() & 0x7f); } b.splice(p..p, x); }
            _ => { b[p] = b[p].wrapping_add(if rng.pct(50) { 1 } else { 255 }); }
        }
    }
}
/// Arbitrary operations, legal in form, with sizes and addresses from anywhere, possibly wrong for any source or output.
pub fn wild_ops(rng: &mut Rng, n: usize) -> Vec<ROp> {
    (0..n).map(|_| {
        let l = match rng.below(6) { 0 => 0, 1 => 65535, 2 => crate::gen::len(rng, 65535), _ => rng.range(1, 70) };
        let a = match rng.below(6) { 0 => u64::MAX, 1 => u64::MAX - 65535 + rng.below(65535) as u64, 2 => 1 << 63, 3 => rng.ulog(), _ => rng.below(3000) as u64 };
        match rng.below(4) { 0 => ROp::D { addr: a, len: l as u16 }, 1 => ROp::O { addr: a, len: l as u16 }, 2 => ROp::Add(rng.vec(l.min(300))), _ => ROp::Run { byte: rng.byte(), len: l.min(62) as u8 } }
    }).collect()
}
/// A patch with well-formed framing around wrong contents.
pub fn crafted(rng: &mut Rng) -> Vec<u8> {
    let mut b = vec![];
    let ns = rng.range(1, 3);
    for i in 0..ns {
        let n = rng.below(12);
        let ops = if rng.pct(70) { wild_ops(rng, n) } else { let mut o = vec![]; refm::random_ops(rng, &[7u8; 500], &mut o, n, 300, 3000) };
        let (mut nops, mut adds, mut out) = (ops.len() as u64, ops.iter().map(|x| if let ROp::Add(b) = x { b.len() as u64 } else { 0 }).sum::<u64>(), ops.iter().map(|x| x.len()).sum::<u64>());
        let big = |rng: &mut Rng| match rng.below(7) { 0 => u64::MAX, 1 => u32::MAX as u64, 2 => 1 << 32, 3 => (1 << 24) - 1, 4 => 1 << 24, 5 => rng.ulog(), _ => rng.below(100) as u64 };
        if rng.pct(25) { nops = big(rng); }
        if rng.pct(15) { adds = big(rng); }
        if rng.pct(25) { out = adds.saturating_add(big(rng)); }
        let seg = rng.pct(50);
        let algo = match rng.below(3) { 0 => 0, 1 => rng.below(4) as u8, _ => rng.below(8) as u8 };
        b.push(algo << 3 | (seg as u8) << 6 | ((i + 1 < ns || rng.pct(5)) as u8) << 7 | if rng.pct(5) { rng.byte() & 7 } else { 0 });
        refm::put_uvar(&mut b, nops);
        if seg { refm::put_uvar(&mut b, adds); refm::put_uvar(&mut b, out.saturating_sub(adds)); } else { refm::put_uvar(&mut b, out); }
        let mut body = refm::body(&ops, seg, Some(rng));
        if rng.pct(20) { mutate(rng, &mut body); }
        if rng.pct(10) { let x = rng.rvec(1, 300); body.extend(x); }
        let real = if rng.pct(85) { algo & 3 } else { rng.below(4) as u8 };
        let mut z = if rng.pct(15) { rng.rvec(0, 200) } else { refm::squeeze(rng, real, &body) };
        if rng.pct(35) { mutate(rng, &mut z); }
        b.extend(z);
    }
    b
}
/// Random damage to a valid patch, splices of two, crafted framing, or noise.
pub fn patch(rng: &mut Rng, src: &[u8]) -> (Vec<u8>, &'static str) {
    match rng.below(12) {
        0..=3 => { let (mut p, _, _) = refm::random_patch(rng, src, 2000, true, &[1, 2, 3]); mutate(rng, &mut p); (p, "mutated") }
        4 => { let pr = crate::gen::target_for(rng, src, 1500); let c = crate::gen::config(rng, 1500); let mut p = super::util::encode(Some(src), &pr.0, &c.cfg).unwrap_or_default(); mutate(rng, &mut p); (p, "mutated") }
        5 => { let (p, _, _) = refm::random_patch(rng, src, 1000, true, &[1, 2, 3]); let (q, _, _) = refm::random_patch(rng, src, 1000, true, &[1, 2, 3]); let a = rng.below(p.len() + 1); let c = rng.below(q.len() + 1); let mut v = p[..a].to_vec(); v.extend_from_slice(&q[c..]); (v, "spliced") }
        6 => { let (mut p, _, _) = refm::random_patch(rng, src, 2000, true, &[1, 2, 3]); let n = rng.below(p.len() + 1); p.truncate(n); (p, "truncated") }
        7..=10 => (crafted(rng), "crafted"),
        _ => { let mut v = rng.rvec(0, 120); if !v.is_empty() && rng.pct(60) { v[0] &= 0x1f | 0xc0; } (v, "noise") }
    }
}
/// Remembers only how much was written; reads give zeros for the part written.
pub struct NullSink { pub pos: u64, pub len: u64 }
impl Read for NullSink { fn read(&mut self, b: &mut [u8]) -> Result<usize> { let n = (b.len() as u64).min(self.len.saturating_sub(self.pos)) as usize; b[..n].fill(0); self.pos += n as u64; Ok(n) } }
impl Write for NullSink { fn write(&mut self, b: &[u8]) -> Result<usize> { crate::mon::look(b); self.pos += b.len() as u64; self.len = self.len.max(self.pos); Ok(b.len()) } fn flush(&mut self) -> Result<()> { Ok(()) } }
impl Seek for NullSink { fn seek(&mut self, p: SeekFrom) -> Result<u64> { self.pos = match p { SeekFrom::Start(x) => x, SeekFrom::Current(d) => (self.pos as i64 + d) as u64, SeekFrom::End(d) => (self.len as i64 + d) as u64 }; Ok(self.pos) } }
