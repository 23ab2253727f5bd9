//! An independent VCDIFF (RFC 3284) builder with the default code table, and the target each delta describes.
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub enum VI { Add(Vec<u8>), Run(u8, u32), Copy { addr: u32, len: u32 } }

/// The default code table: (first kind, size, mode), (second kind, size, mode). Kinds: 0 none, 1 add, 2 run, 3 copy.
pub type Half = (u8, u8, u8);
pub fn table() -> Vec<(Half, Half)> {
    let no = (0, 0, 0);
    let mut t = vec![((2, 0, 0), no)];
    for s in 0..=17 { t.push(((1, s, 0), no)); }
    for m in 0..=8 { t.push(((3, 0, m), no)); for s in 4..=18 { t.push(((3, s, m), no)); } }
    for m in 0..=5 { for a in 1..=4 { for c in 4..=6 { t.push(((1, a, 0), (3, c, m))); } } }
    for m in 6..=8 { for a in 1..=4 { t.push(((1, a, 0), (3, 4, m))); } }
    for m in 0..=8 { t.push(((3, 4, m), (1, 1, 0))); }
    assert_eq!(t.len(), 256);
    t
}
/// Codes on whose meaning RFC 3284 and the VCDIFF reader the converter is built on agree. That reader orders the ADD+COPY
/// rows by add size instead of by mode, so it misreads the others (a known finding, see P14's `addcopy_codes`).
pub fn shared_code(c: usize) -> bool { !(166..=231).contains(&c) && !(236..=245).contains(&c) }
pub fn put_int(o: &mut Vec<u8>, v: u64) {
    let mut tmp = vec![(v & 0x7f) as u8];
    let mut v = v >> 7;
    while v > 0 { tmp.push((v & 0x7f) as u8 | 0x80); v >>= 7; }
    tmp.reverse();
    o.extend_from_slice(&tmp);
}
struct Cache { near: [u32; 4], next: usize, same: Vec<u32> }
impl Cache {
    fn new() -> Self { Cache { near: [0; 4], next: 0, same: vec![0; 768] } }
    fn update(&mut self, a: u32) { self.near[self.next] = a; self.next = (self.next + 1) % 4; self.same[a as usize % 768] = a; }
    /// all modes that can express `a` at position `here`
    fn modes(&self, a: u32, here: u32) -> Vec<u8> {
        let mut m = vec![0, 1];
        let _ = here;
        for i in 0..4 { if a >= self.near[i] { m.push(2 + i as u8); } }
        if self.same[a as usize % 768] == a { m.push(6 + (a as usize % 768 / 256) as u8); }
        m
    }
    fn put(&self, o: &mut Vec<u8>, a: u32, here: u32, mode: u8) {
        match mode { 0 => put_int(o, a as u64), 1 => put_int(o, (here - a) as u64), 2..=5 => put_int(o, (a - self.near[mode as usize - 2]) as u64), _ => o.push((a as usize % 256) as u8) }
    }
}
#[derive(Default, Clone, Debug)]
pub struct Seen { pub modes: [u64; 9], pub codes: Vec<u8>, pub pairs: u64, pub wins: [u64; 3], pub periodic: u64, pub big: u64 }

/// Serialises one window. `outlen(instruction, here)` is what an instruction adds to the target.
pub fn window(o: &mut Vec<u8>, rng: &mut Rng, ind: u8, seg: Option<(u64, u64)>, insts: &[VI], target_len: u64, out: impl Fn(&VI, u32) -> u32, seen: &mut Seen) { window_with(o, rng, ind, seg, insts, target_len, out, seen, None) }
/// As `window`, using the opcode `want` wherever it fits (also one the reader is known to misread).
pub fn window_with(o: &mut Vec<u8>, rng: &mut Rng, ind: u8, seg: Option<(u64, u64)>, insts: &[VI], target_len: u64, out: impl Fn(&VI, u32) -> u32, seen: &mut Seen, want: Option<usize>) {
    let tab = table();
    let (mut data, mut inst, mut addr) = (vec![], vec![], vec![]);
    let mut c = Cache::new();
    let mut here = seg.map(|s| s.0 as u32).unwrap_or(0);
    let plain = rng.pct(20);
    let mut i = 0;
    let kind = |v: &VI| match v { VI::Add(b) => (1u8, b.len() as u64), VI::Run(_, n) => (2, *n as u64), VI::Copy { len, .. } => (3, *len as u64) };
    while i < insts.len() {
        // the addressing mode is drawn first, then a code that fits, preferring pairs
        let fits = |h: &Half, v: &VI, modes: &[u8]| { let (k, l) = kind(v); h.0 == k && (h.1 as u64 == l && l > 0 || h.1 == 0) && (k != 3 || modes.contains(&h.2)) };
        let m0 = if let VI::Copy { addr, .. } = &insts[i] { c.modes(*addr, here) } else { vec![] };
        let single: Vec<usize> = (0..256).filter(|&x| tab[x].1 .0 == 0 && fits(&tab[x].0, &insts[i], &m0)).collect();
        let mut pairs: Vec<usize> = vec![];
        if i + 1 < insts.len() && (!plain || want.is_some()) {
            // the second half sees the cache as the first half leaves it
            let mut c2 = Cache { near: c.near, next: c.next, same: vec![] };
            c2.same = c.same.clone();
            if let VI::Copy { addr, .. } = &insts[i] { c2.update(*addr); }
            let h2 = here + out(&insts[i], here);
            let m1 = if let VI::Copy { addr, .. } = &insts[i + 1] { c2.modes(*addr, h2) } else { vec![] };
            pairs = (163..256).filter(|&x| (shared_code(x) || want == Some(x)) && fits(&tab[x].0, &insts[i], &m0) && fits(&tab[x].1, &insts[i + 1], &m1)).collect();
        }
        let code = if let Some(w) = want.filter(|w| pairs.contains(w) || single.contains(w)) { w } else if !pairs.is_empty() && rng.pct(80) { *rng.pick(&pairs) } else { // spread over modes first
            let modes: Vec<u8> = { let mut v: Vec<u8> = single.iter().map(|&x| tab[x].0 .2).collect(); v.dedup(); v };
            let m = *rng.pick(&modes); let s: Vec<usize> = single.iter().copied().filter(|&x| tab[x].0 .2 == m).collect();
            *rng.pick(&s)
        };
        inst.push(code as u8);
        seen.codes.push(code as u8);
        if tab[code].1 .0 != 0 { seen.pairs += 1; }
        for h in [tab[code].0, tab[code].1] {
            if h.0 == 0 { continue; }
            let v = &insts[i];
            if h.1 == 0 { put_int(&mut inst, kind(v).1); }
            match v {
                VI::Add(b) => data.extend_from_slice(b),
                VI::Run(b, _) => data.push(*b),
                VI::Copy { addr: a, .. } => { seen.modes[h.2 as usize] += 1; c.put(&mut addr, *a, here, h.2); c.update(*a); }
            }
            here += out(v, here);
            i += 1;
        }
    }
    o.push(ind);
    if let Some((size, pos)) = seg { put_int(o, size); put_int(o, pos); }
    let mut body = vec![];
    put_int(&mut body, target_len);
    body.push(0);
    put_int(&mut body, data.len() as u64);
    put_int(&mut body, inst.len() as u64);
    put_int(&mut body, addr.len() as u64);
    body.extend_from_slice(&data);
    body.extend_from_slice(&inst);
    body.extend_from_slice(&addr);
    put_int(o, body.len() as u64);
    o.extend_from_slice(&body);
    seen.wins[ind as usize] += 1;
}
pub const HEADER: &[u8] = &[0xD6, 0xC3, 0xC4, 0x00, 0x00];

/// How much a window may hold.
#[derive(Clone, Copy)]
pub struct Shape { pub windows: usize, pub insts: usize, pub max_inst: usize, pub max_win: usize, pub periodic: bool }

/// A random valid delta and the target it describes. With `periodic`, copies may run into the bytes they produce; those use
/// the reading of the VCDIFF reader the converter is built on, which counts the repeated bytes in the instruction's size as well.
pub fn random(rng: &mut Rng, src: &[u8], sh: Shape, seen: &mut Seen) -> (Vec<u8>, Vec<u8>) {
    let mut file = HEADER.to_vec();
    let mut t: Vec<u8> = vec![];
    for _ in 0..sh.windows {
        let ind = match rng.below(3) { 1 if !src.is_empty() => 1u8, 2 if !t.is_empty() => 2, _ => 0 };
        let whole = rng.pct(30);
        let seg_of = |rng: &mut Rng, b: &[u8]| -> (usize, usize) { if whole { (0, b.len()) } else { let a = rng.below(b.len()); let e = rng.range(a + 1, b.len()); (a, e - a) } };
        let (seg, s): (Option<(u64, u64)>, Vec<u8>) = match ind {
            1 => { let (p, l) = seg_of(rng, src); (Some((l as u64, p as u64)), src[p..p + l].to_vec()) }
            2 => { let (p, l) = seg_of(rng, &t); (Some((l as u64, p as u64)), t[p..p + l].to_vec()) }
            _ => (None, vec![]),
        };
        let sl = s.len();
        let mut u = s;
        let mut insts = vec![];
        let k = rng.lrange(1, sh.insts);
        let mut recent: Vec<u32> = vec![];
        for j in 0..k {
            if u.len() - sl >= sh.max_win && j > 0 { break; }
            let l = match rng.below(10) { 0..=3 => rng.range(1, 20), 4 => 4, 5 => rng.range(4, 6), _ => crate::gen::len(rng, sh.max_inst).max(1) };
            if l > 65535 { seen.big += 1; }
            let here = u.len();
            match rng.below(10) {
                0..=5 if here > 0 => {
                    // inside S or inside T, never across
                    let in_s = sl > 0 && (here == sl || rng.pct(50));
                    let (lo, hi) = if in_s { (0, sl) } else { (sl, here) };
                    let l = l.min(hi - lo);
                    let mut a = rng.range(lo, hi - l);
                    if !recent.is_empty() && rng.pct(40) { let r = *rng.pick(&recent) as usize + if rng.pct(50) { 0 } else { rng.below(300) }; if r >= lo && r + l <= hi { a = r; } }
                    if sh.periodic && !in_s && rng.pct(40) {
                        // a period taken from the end of what is there
                        let cap = if rng.pct(80) { 40 } else { 200_000 };
                        let per = rng.range(1, (here - sl).min(cap));
                        let rep = crate::gen::len(rng, sh.max_inst).max(1);
                        let a = here - per;
                        for x in 0..rep { let b = u[a + x % per]; u.push(b); }
                        insts.push(VI::Copy { addr: a as u32, len: (per + rep) as u32 });
                        recent.push(a as u32);
                        seen.periodic += 1;
                        continue;
                    }
                    u.extend_from_within(a..a + l);
                    insts.push(VI::Copy { addr: a as u32, len: l as u32 });
                    recent.push(a as u32);
                    if recent.len() > 6 { recent.remove(0); }
                }
                6 => { let b = rng.byte(); u.resize(here + l, b); insts.push(VI::Run(b, l as u32)); }
                _ => { let b = rng.vec(l); u.extend_from_slice(&b); insts.push(VI::Add(b)); }
            }
        }
        let out = |v: &VI, here: u32| match v { VI::Add(b) => b.len() as u32, VI::Run(_, n) => *n, VI::Copy { addr, len } => if addr + len > here { addr + len - here } else { *len } };
        window(&mut file, rng, ind, seg, &insts, (u.len() - sl) as u64, out, seen);
        t.extend_from_slice(&u[sl..]);
    }
    (file, t)
}
/// One instruction per opcode with explicit sizes, copies in address mode 0.
pub fn window_plain(o: &mut Vec<u8>, ind: u8, seg: Option<(u64, u64)>, insts: &[VI], target_len: u64) {
    let (mut data, mut inst, mut addr) = (vec![], vec![], vec![]);
    for v in insts { match v {
        VI::Add(b) => { inst.push(1); put_int(&mut inst, b.len() as u64); data.extend_from_slice(b); }
        VI::Run(b, n) => { inst.push(0); put_int(&mut inst, *n as u64); data.push(*b); }
        VI::Copy { addr: a, len } => { inst.push(19); put_int(&mut inst, *len as u64); put_int(&mut addr, *a as u64); }
    } }
    o.push(ind);
    if let Some((size, pos)) = seg { put_int(o, size); put_int(o, pos); }
    let mut body = vec![];
    put_int(&mut body, target_len);
    body.push(0);
    put_int(&mut body, data.len() as u64);
    put_int(&mut body, inst.len() as u64);
    put_int(&mut body, addr.len() as u64);
    body.extend_from_slice(&data); body.extend_from_slice(&inst); body.extend_from_slice(&addr);
    put_int(o, body.len() as u64);
    o.extend_from_slice(&body);
}
