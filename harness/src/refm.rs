//! An independent model of the patch format, written from spec.md (with the operation byte laid out
//! as the published implementation and its test vectors have it: type in the two high bits):
//! a strict parser, a reference decoder and a free-form builder. Shares no code with the library.
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ROp { D { addr: u64, len: u16 }, O { addr: u64, len: u16 }, Add(Vec<u8>), Run { byte: u8, len: u8 } }
impl ROp {
    pub fn len(&self) -> u64 { match self { ROp::D { len, .. } | ROp::O { len, .. } => *len as u64, ROp::Add(b) => b.len() as u64, ROp::Run { len, .. } => *len as u64 } }
    pub fn kind(&self) -> u8 { match self { ROp::D { .. } => 0, ROp::O { .. } => 1, ROp::Add(_) => 2, ROp::Run { .. } => 3 } }
    pub fn short(&self) -> String { match self { ROp::D { addr, len } => format!("D{addr}+{len}"), ROp::O { addr, len } => format!("O{addr}+{len}"), ROp::Add(b) => format!("A{}", b.len()), ROp::Run { byte, len } => format!("R{byte}x{len}") } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Sec { pub algo: u8, pub seg: bool, pub more: bool, pub version: u8, pub ops: Vec<ROp>, pub add_bytes: u64, pub out: u64 }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Patch { pub secs: Vec<Sec>, pub consumed: usize }

pub const MAX_OUT: u64 = (1 << 24) - 1;

pub struct Cur<'a> { pub b: &'a [u8], pub p: usize }
impl<'a> Cur<'a> {
    pub fn new(b: &'a [u8]) -> Self { Cur { b, p: 0 } }
    fn u8(&mut self) -> Result<u8, String> { let v = *self.b.get(self.p).ok_or_else(|| format!("truncated at {}", self.p))?; self.p += 1; Ok(v) }
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> { if self.b.len() - self.p < n { return Err(format!("truncated: need {n} at {}", self.p)); } let s = &self.b[self.p..self.p + n]; self.p += n; Ok(s) }
    pub fn uvar(&mut self) -> Result<u64, String> {
        let mut v: u128 = 0;
        for i in 0..10 {
            let b = self.u8()?;
            v |= ((b & 0x7f) as u128) << (7 * i);
            if b & 0x80 == 0 { return u64::try_from(v).map_err(|_| "varint exceeds 64 bits".into()); }
        }
        Err("varint too long".into())
    }
    pub fn ivar(&mut self) -> Result<i128, String> { let z = self.uvar()? as i128; Ok(if z & 1 == 0 { z / 2 } else { -(z / 2) - 1 }) }
}

fn parse_ops(c: &mut Cur, n: u64, seg: bool) -> Result<(Vec<ROp>, u64), String> {
    let (mut da, mut oa) = (0i128, 0i128);
    let mut ops = Vec::new();
    let mut adds: Vec<(usize, usize)> = vec![];
    let mut add_total = 0u64;
    for _ in 0..n {
        let b = c.u8()?;
        let sz = match b & 0x3f { 0 => { let l = c.u8()? as usize; let h = c.u8()? as usize; l | h << 8 } 63 => c.u8()? as usize + 62, x => x as usize };
        match b >> 6 {
            k @ (0 | 1) => {
                let d = c.ivar()?;
                let a = if k == 0 { &mut da } else { &mut oa };
                *a += d;
                // 64-bit modular addresses: a difference may wrap
                let addr = (*a).rem_euclid(1i128 << 64) as u64;
                *a = addr as i128;
                ops.push(if k == 0 { ROp::D { addr, len: sz as u16 } } else { ROp::O { addr, len: sz as u16 } });
            }
            2 => {
                add_total += sz as u64;
                if seg { adds.push((ops.len(), sz)); ops.push(ROp::Add(vec![])); } else { ops.push(ROp::Add(c.take(sz)?.to_vec())); }
            }
            _ => { if !(1..=62).contains(&(b & 0x3f)) { return Err("run with an extended size".into()); } ops.push(ROp::Run { byte: c.u8()?, len: sz as u8 }); }
        }
    }
    for (i, sz) in adds { let s = c.take(sz)?.to_vec(); ops[i] = ROp::Add(s); }
    Ok((ops, add_total))
}

fn unzstd(b: &[u8]) -> Result<(Vec<u8>, usize), String> {
    let n = zstd::zstd_safe::find_frame_compressed_size(b).map_err(|e| format!("zstd frame size error {e}"))?;
    let v = zstd::stream::decode_all(&b[..n]).map_err(|e| format!("zstd: {e}"))?;
    Ok((v, n))
}
fn unbrotli(b: &[u8]) -> Result<(Vec<u8>, usize), String> {
    use brotlic::decode::{BrotliDecoder, DecoderInfo};
    let mut d = BrotliDecoder::new();
    let mut out = Vec::new();
    let mut p = 0;
    let mut buf = vec![0u8; 1 << 16];
    loop {
        let r = d.decompress(&b[p..], &mut buf).map_err(|e| format!("brotli: {e:?}"))?;
        p += r.bytes_read;
        out.extend_from_slice(&buf[..r.bytes_written]);
        match r.info { DecoderInfo::Finished => return Ok((out, p)), DecoderInfo::NeedsMoreInput if p >= b.len() => return Err("brotli: truncated".into()), _ => {} }
    }
}

/// Parses a whole patch (up to and including its terminal section).
pub fn parse(b: &[u8]) -> Result<Patch, String> { parse_depth(b, 0) }
fn parse_depth(b: &[u8], depth: u32) -> Result<Patch, String> {
    let mut c = Cur::new(b);
    let mut secs = vec![];
    loop {
        let h = c.u8()?;
        let (more, seg, algo, version) = (h & 0x80 != 0, h & 0x40 != 0, (h >> 3) & 7, h & 7);
        let n = c.uvar()?;
        let adds = if seg { c.uvar()? } else { 0 };
        let out = c.uvar()?.checked_add(adds).ok_or("output size overflow")?;
        if out > MAX_OUT { return Err(format!("section output {out} exceeds the limit")); }
        let (ops, add_total) = match algo {
            0 => parse_ops(&mut c, n, seg)?,
            1 | 2 | 3 => {
                let rest = &b[c.p..];
                let (data, used) = match algo {
                    1 => { if depth > 0 { return Err("nested secondary compression".into()); } let ip = parse_depth(rest, 1)?; let d = apply(&ip, &[], 1 << 31)?; (d, ip.consumed) }
                    2 => unzstd(rest)?,
                    _ => unbrotli(rest)?,
                };
                c.p += used;
                let mut ic = Cur::new(&data);
                let r = parse_ops(&mut ic, n, seg)?;
                if ic.p != data.len() { return Err(format!("{} bytes left over in the compressed section", data.len() - ic.p)); }
                r
            }
            a => return Err(format!("unknown compression {a}")),
        };
        let sum: u64 = ops.iter().map(|o| o.len()).sum();
        if sum != out { return Err(format!("header output size {out} but operations produce {sum}")); }
        if seg && add_total != adds { return Err(format!("header add bytes {adds} but operations carry {add_total}")); }
        secs.push(Sec { algo, seg, more, version, ops, add_bytes: add_total, out });
        if !more { return Ok(Patch { secs, consumed: c.p }); }
    }
}

/// Size 0 has no meaning for any operation.
pub fn legal_sizes(p: &Patch) -> Result<(), String> {
    for (i, s) in p.secs.iter().enumerate() { for (j, o) in s.ops.iter().enumerate() { if o.len() == 0 { return Err(format!("operation {j} of section {i} has length 0: {}", o.short())); } } }
    Ok(())
}
/// Reference decoder.
pub fn apply(p: &Patch, src: &[u8], cap: usize) -> Result<Vec<u8>, String> {
    let mut o = Vec::new();
    for s in &p.secs { apply_ops(&s.ops, src, &mut o, cap)?; }
    Ok(o)
}
pub fn apply_ops(ops: &[ROp], src: &[u8], o: &mut Vec<u8>, cap: usize) -> Result<(), String> {
    for op in ops {
        match op {
            ROp::D { addr, len } => { let e = addr.checked_add(*len as u64).ok_or("address overflow")?; if e > src.len() as u64 { return Err(format!("source copy {addr}+{len} beyond source length {}", src.len())); } o.extend_from_slice(&src[*addr as usize..e as usize]); }
            ROp::O { addr, len } => { let e = addr.checked_add(*len as u64).ok_or("address overflow")?; if e > o.len() as u64 { return Err(format!("output copy {addr}+{len} beyond output so far {}", o.len())); } o.extend_from_within(*addr as usize..e as usize); }
            ROp::Add(b) => o.extend_from_slice(b),
            ROp::Run { byte, len } => o.resize(o.len() + *len as usize, *byte),
        }
        if o.len() > cap { return Err("output exceeds the model's cap".into()); }
    }
    Ok(())
}

// ------------------------------------------------------------------ builder
pub fn put_uvar(o: &mut Vec<u8>, mut v: u64) { loop { let b = (v & 0x7f) as u8; v >>= 7; if v == 0 { o.push(b); return; } o.push(b | 0x80); } }
pub fn put_ivar(o: &mut Vec<u8>, v: i64) { let z = if v >= 0 { (v as u64) << 1 } else { (((-(v + 1)) as u64) << 1) | 1 }; put_uvar(o, z) }

#[derive(Clone, Copy, Debug)]
pub enum SizeForm { Canon, AnyOf(u64) }

/// Serialises the operations of one section (uncompressed body). With `alt` the size form is chosen at random among all legal ones.
pub fn body(ops: &[ROp], seg: bool, alt: Option<&mut Rng>) -> Vec<u8> {
    let mut o = Vec::new();
    let mut tail = Vec::new();
    let (mut da, mut oa) = (0u64, 0u64);
    let mut alt = alt;
    for op in ops {
        let l = op.len() as usize;
        let k = op.kind() << 6;
        let mut forms: Vec<u8> = vec![];
        if op.kind() == 3 { forms.push(0) } else {
            if (1..=62).contains(&l) { forms.push(0) }
            if (62..=317).contains(&l) { forms.push(1) }
            forms.push(2);
        }
        let f = match alt.as_mut() { Some(r) => *r.pick(&forms), None => forms[0] };
        match f { 0 => o.push(k | l as u8), 1 => { o.push(k | 63); o.push((l - 62) as u8) } _ => { o.push(k); o.extend_from_slice(&(l as u16).to_le_bytes()) } }
        match op {
            ROp::D { addr, .. } => { put_ivar(&mut o, addr.wrapping_sub(da) as i64); da = *addr; }
            ROp::O { addr, .. } => { put_ivar(&mut o, addr.wrapping_sub(oa) as i64); oa = *addr; }
            ROp::Add(b) => if seg { tail.extend_from_slice(b) } else { o.extend_from_slice(b) },
            ROp::Run { byte, .. } => o.push(*byte),
        }
    }
    o.extend_from_slice(&tail);
    o
}
pub fn header(o: &mut Vec<u8>, algo: u8, seg: bool, more: bool, nops: u64, adds: u64, out: u64) {
    o.push(algo << 3 | (seg as u8) << 6 | (more as u8) << 7);
    put_uvar(o, nops);
    if seg { put_uvar(o, adds); put_uvar(o, out - adds); } else { put_uvar(o, out); }
}
/// Compresses a section body with algorithm `algo` using settings drawn from `rng`.
pub fn squeeze(rng: &mut Rng, algo: u8, data: &[u8]) -> Vec<u8> {
    match algo {
        0 => data.to_vec(),
        1 => { // inner smdiff patch without source; literal and self-copy operations
            let mut secs: Vec<Vec<ROp>> = vec![];
            let mut ops = vec![]; let mut p = 0; let mut sec_out = 0usize;
            while p < data.len() {
                let rem = data.len() - p;
                let b = data[p];
                let runl = data[p..].iter().take(62).take_while(|x| **x == b).count();
                let (op, l) = if runl >= 3 && rng.pct(70) { (ROp::Run { byte: b, len: runl as u8 }, runl) }
                else {
                    let mut found = None;
                    if p > 8 && rem > 4 && rng.pct(60) { for _ in 0..6 { let a = rng.below(p - 4); let m = data[a..p].iter().zip(&data[p..]).take(65535).take_while(|(x, y)| x == y).count(); if m >= 3 { found = Some((a, m)); break; } } }
                    match found { Some((a, m)) => (ROp::O { addr: a as u64, len: m as u16 }, m), None => { let l = crate::gen::len(rng, 3000).clamp(1, rem.min(65535)); (ROp::Add(data[p..p + l].to_vec()), l) } }
                };
                p += l; sec_out += l; ops.push(op);
                if rng.pct(2) || sec_out > 10_000_000 { secs.push(std::mem::take(&mut ops)); sec_out = 0; }
            }
            secs.push(ops);
            let n = secs.len();
            let mut o = vec![];
            for (i, ops) in secs.iter().enumerate() { let seg = rng.pct(50); build_section(&mut o, rng, ops, 0, seg, i + 1 < n, true); }
            o
        }
        2 => {
            use std::io::Write;
            let lvl = rng.range(1, if data.len() > 50_000 { 5 } else { 19 }) as i32;
            let mut e = zstd::Encoder::new(Vec::new(), lvl).unwrap();
            if rng.pct(50) { e.include_checksum(true).unwrap(); }
            if rng.pct(50) { e.set_pledged_src_size(Some(data.len() as u64)).unwrap(); e.include_contentsize(rng.pct(70)).unwrap(); }
            // several blocks
            let step = if rng.pct(50) { data.len().max(1) } else { rng.range(1, data.len().max(1)) };
            for c in data.chunks(step.max(data.len() / 20).max(1)) { e.write_all(c).unwrap(); if rng.pct(20) { e.flush().unwrap(); } }
            e.finish().unwrap()
        }
        _ => {
            use std::io::Write;
            let (o, _) = crate::gen::brotli_opts(rng, data.len() < 50_000);
            let mut w = brotlic::CompressorWriter::with_encoder(o.build().unwrap(), Vec::new());
            let step = if rng.pct(50) { data.len().max(1) } else { rng.range(1, data.len().max(1)) };
            for c in data.chunks(step.max(data.len() / 20).max(1)) { w.write_all(c).unwrap(); if rng.pct(20) { w.flush().unwrap(); } }
            w.into_inner().unwrap()
        }
    }
}
pub fn build_section(o: &mut Vec<u8>, rng: &mut Rng, ops: &[ROp], algo: u8, seg: bool, more: bool, alt: bool) {
    let adds: u64 = ops.iter().map(|x| if let ROp::Add(b) = x { b.len() as u64 } else { 0 }).sum();
    let out: u64 = ops.iter().map(|x| x.len()).sum();
    header(o, algo, seg, more, ops.len() as u64, adds, out);
    let b = if alt { body(ops, seg, Some(rng)) } else { body(ops, seg, None) };
    let z = squeeze(rng, algo, &b);
    o.extend_from_slice(&z);
}

/// A random valid operation list for the given source; extends `out` with what the operations produce.
/// `max_op` caps single operation lengths, `limit` caps the bytes produced.
pub fn random_ops(rng: &mut Rng, src: &[u8], out: &mut Vec<u8>, n: usize, max_op: usize, limit: usize) -> Vec<ROp> {
    let mut ops: Vec<ROp> = Vec::new();
    let start = out.len();
    let bias = rng.below(6);
    for _ in 0..n {
        let room = limit.saturating_sub(out.len() - start);
        if room == 0 { break; }
        let l = crate::gen::len(rng, max_op.min(room).min(65535)).max(1);
        let k = match bias { 0 => 2, 1 if rng.pct(60) => 0, 2 if rng.pct(60) => 1, 3 if rng.pct(60) => 3, _ => rng.below(4) };
        let op = match k {
            0 if !src.is_empty() => { let l = l.min(src.len()); let a = match rng.below(5) { 0 => 0, 1 => src.len() - l, _ => rng.range(0, src.len() - l) }; ROp::D { addr: a as u64, len: l as u16 } }
            1 if !out.is_empty() => { let l = l.min(out.len()); let a = match rng.below(5) { 0 => 0, 1 => out.len() - l, _ => rng.range(0, out.len() - l) }; ROp::O { addr: a as u64, len: l as u16 } }
            3 => { let b = match (rng.below(3), ops.last()) { (0, Some(ROp::Run { byte, .. })) => *byte, _ => rng.byte() & 3 }; let l = if rng.pct(40) { 62 } else { l.min(62) }; ROp::Run { byte: b, len: l.min(room) as u8 } }
            _ => ROp::Add(rng.vec(l)),
        };
        apply_ops(std::slice::from_ref(&op), src, out, usize::MAX).expect("generator made an invalid op");
        ops.push(op);
    }
    ops
}
/// A random valid patch in any mixture of sections, layouts, size forms and compression. Returns (bytes, sections' ops with (algo, seg), target).
pub fn random_patch(rng: &mut Rng, src: &[u8], max_out: usize, comp: bool, algos: &[u8]) -> (Vec<u8>, Vec<(Vec<ROp>, u8, bool)>, Vec<u8>) {
    let ns = if rng.pct(45) { 1 } else { rng.range(1, 6) };
    let mut out = vec![];
    let mut bytes = vec![];
    let mut secs = vec![];
    let alt = rng.pct(70);
    for i in 0..ns {
        let n = if rng.pct(6) { 0 } else { rng.lrange(1, 40) };
        let ops = random_ops(rng, src, &mut out, n, max_out, max_out / ns + 1);
        let algo = if comp && rng.pct(60) { *rng.pick(algos) } else { 0 };
        let seg = rng.pct(50);
        build_section(&mut bytes, rng, &ops, algo, seg, i + 1 < ns, alt);
        secs.push((ops, algo, seg));
    }
    (bytes, secs, out)
}
/// A patch with very many small operations and a rare large one, anywhere in the section.
pub fn many_patch(rng: &mut Rng, src: &[u8], nops: usize, comp: bool) -> (Vec<u8>, Vec<(Vec<ROp>, u8, bool)>, Vec<u8>) {
    let ns = rng.range(1, 3);
    let (mut out, mut bytes, mut secs) = (vec![], vec![], vec![]);
    let alt = rng.pct(50);
    for i in 0..ns {
        let n = rng.lrange(nops / 20 + 1, nops);
        let small = rng.range(1, 9);
        let every = rng.lrange(200, 2 * n.max(200));
        let kinds: &[u8] = *rng.pick(&[&[0u8, 1, 2, 3][..], &[0][..], &[1][..], &[2][..], &[3][..], &[0, 1][..], &[2, 3][..]]);
        let mut ops = Vec::with_capacity(n);
        let late = rng.below(n);
        for j in 0..n {
            let l = if j == late || rng.below(every) == 0 { rng.lrange(10, 65535) } else { rng.range(1, small) };
            let op = match *rng.pick(kinds) {
                0 if !src.is_empty() => { let l = l.min(src.len()); ROp::D { addr: rng.range(0, src.len() - l) as u64, len: l as u16 } }
                1 if !out.is_empty() => { let l = l.min(out.len()); ROp::O { addr: rng.range(0, out.len() - l) as u64, len: l as u16 } }
                3 => ROp::Run { byte: rng.byte(), len: l.min(62) as u8 },
                _ => ROp::Add(rng.vec(l)),
            };
            apply_ops(std::slice::from_ref(&op), src, &mut out, usize::MAX).expect("generator made an invalid op");
            ops.push(op);
        }
        let algo = if comp && rng.pct(60) { rng.range(1, 3) as u8 } else { 0 };
        let seg = rng.pct(50);
        build_section(&mut bytes, rng, &ops, algo, seg, i + 1 < ns, alt);
        secs.push((ops, algo, seg));
    }
    (bytes, secs, out)
}
/// A patch of very many sections of few operations each, without compression, with it in a few places, or throughout.
pub fn multi_patch(rng: &mut Rng, src: &[u8], ns: usize, comp: bool) -> (Vec<u8>, Vec<(Vec<ROp>, u8, bool)>, Vec<u8>) {
    let (mut out, mut bytes, mut secs) = (vec![], vec![], vec![]);
    let (few, alt) = (rng.below(4), rng.pct(50));
    let often = if !comp { 0 } else if ns > 5000 { rng.below(2) as u64 * 1000 / ns as u64 } else { *rng.pick(&[0u64, 3, 100]) };
    let one = if rng.pct(40) { Some(rng.range(1, 3) as u8) } else { None };
    let fixed_seg = if rng.pct(40) { Some(rng.pct(50)) } else { None };
    for i in 0..ns {
        let n = match few { 0 => 1, 1 => rng.below(2), _ => rng.below(5) };
        let m = if rng.pct(1) { 3000 } else { 9 };
        let ops = random_ops(rng, src, &mut out, n, m, 4000);
        let algo = if rng.below64(100) < often { one.unwrap_or_else(|| rng.range(1, 3) as u8) } else { 0 };
        let seg = fixed_seg.unwrap_or_else(|| rng.pct(50));
        build_section(&mut bytes, rng, &ops, algo, seg, i + 1 < ns, alt);
        secs.push((ops, algo, seg));
    }
    (bytes, secs, out)
}
/// How many sections: around powers of two, and past 16 bits.
pub fn multi_count(rng: &mut Rng, big: usize) -> usize {
    if rng.pct(35) { let p = 1usize << rng.range(4, 12); return p - 1 + rng.below(3); }
    if rng.pct(30) { return rng.range(65_530, 65_600).min(big); }
    rng.lrange(10, big)
}
/// A patch whose output is about `total` bytes, mostly large operations, in sections as large as allowed or smaller.
pub fn bulk_patch(rng: &mut Rng, src: &[u8], total: usize, comp: bool) -> (Vec<u8>, Vec<ROp>, Vec<u8>) {
    let (mut out, mut bytes, mut all) = (Vec::with_capacity(total + 65536), vec![], vec![]);
    let per = if rng.pct(60) { MAX_OUT as usize } else { rng.range(200_000, MAX_OUT as usize) };
    loop {
        let room = per.min(total.saturating_sub(out.len()).max(1));
        let (mut ops, start) = (vec![], out.len());
        while out.len() - start < room {
            let left = room - (out.len() - start);
            let l = match rng.below(6) { 0..=3 => 65535, 4 => rng.range(1, 65535), _ => rng.lrange(1, 65535) }.min(left);
            let op = match rng.below(8) {
                0..=3 if !src.is_empty() => { let l = l.min(src.len()); ROp::D { addr: rng.range(0, src.len() - l) as u64, len: l as u16 } }
                4..=5 if !out.is_empty() => { let l = l.min(out.len()); ROp::O { addr: if rng.pct(30) { out.len() - l } else { rng.range(0, out.len() - l) } as u64, len: l as u16 } }
                6 => ROp::Run { byte: rng.byte(), len: l.min(62) as u8 },
                _ => { let l = if src.is_empty() && out.is_empty() || rng.pct(20) { l } else { l.min(3000) }; ROp::Add(rng.vec(l)) }
            };
            apply_ops(std::slice::from_ref(&op), src, &mut out, usize::MAX).expect("generator made an invalid op");
            ops.push(op);
        }
        let algo = if comp && rng.pct(50) { rng.range(1, 3) as u8 } else { 0 };
        let (seg, more) = (rng.pct(50), out.len() < total);
        build_section(&mut bytes, rng, &ops, algo, seg, more, false);
        all.extend(ops);
        if !more { return (bytes, all, out); }
    }
}
/// A patch with an output of more than 4 GiB, without large memory: most operations copy from anywhere in a 62-bit source.
pub fn far_patch(rng: &mut Rng) -> (Vec<u8>, Vec<ROp>, u64) {
    let past = (1u64 << 32) + 1_000_000 + rng.below64(400_000_000);
    let (mut ops, mut patch, mut pos): (Vec<ROp>, Vec<u8>, u64) = (vec![], vec![], 0);
    let mut s = 0;
    while pos < past {
        let mut v = vec![];
        let mut room = MAX_OUT;
        while room > 0 && v.len() < 257 {
            let l = room.min(if rng.pct(97) { 65535 } else { 1 + rng.below64(65535) });
            v.push(match rng.below(20) { 0 => ROp::Run { byte: 7, len: l.min(62) as u8 }, 1 => ROp::Add(rng.vec(l.min(50) as usize)), 2 if pos > l => ROp::O { addr: if rng.pct(50) { pos - l } else { rng.below64(pos - l) }, len: l as u16 }, _ => ROp::D { addr: rng.ulog() >> 2, len: l as u16 } });
            let l = v.last().unwrap().len();
            room -= l; pos += l;
        }
        build_section(&mut patch, rng, &v, 0, s % 2 == 1, pos < past, false);
        ops.extend(v);
        s += 1;
    }
    (patch, ops, pos)
}
/// An operation list as maximal pieces, independent of how it is cut: source copies joined where they continue each other.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Piece { Src(u64, u64), Out(u64, u64), Lit(Vec<u8>) }
pub fn pieces(ops: impl IntoIterator<Item = ROp>) -> Vec<Piece> {
    let mut v: Vec<Piece> = vec![];
    for o in ops { match (v.last_mut(), o) {
        (Some(Piece::Src(a, l)), ROp::D { addr, len }) if *a + *l == addr => *l += len as u64,
        (Some(Piece::Out(a, l)), ROp::O { addr, len }) if *a + *l == addr => *l += len as u64,
        (Some(Piece::Lit(b)), ROp::Add(x)) => b.extend(x),
        (Some(Piece::Lit(b)), ROp::Run { byte, len }) => b.resize(b.len() + len as usize, byte),
        (_, ROp::D { addr, len }) => v.push(Piece::Src(addr, len as u64)),
        (_, ROp::O { addr, len }) => v.push(Piece::Out(addr, len as u64)),
        (_, ROp::Add(x)) => v.push(Piece::Lit(x)),
        (_, ROp::Run { byte, len }) => v.push(Piece::Lit(vec![byte; len as usize])),
    } }
    v
}
/// The piece of an operation list covering [a, b); `starts` are the positions where the operations begin.
pub fn clip(ops: &[ROp], starts: &[u64], a: u64, b: u64) -> Vec<ROp> {
    let mut i = starts.partition_point(|p| *p <= a).saturating_sub(1);
    let mut v = vec![];
    while i < ops.len() && starts[i] < b {
        let (o, at) = (&ops[i], starts[i]);
        let (s, e) = (at.max(a), (at + o.len()).min(b));
        if s < e { let (k, l) = (s - at, e - s); v.push(match o { ROp::D { addr, .. } => ROp::D { addr: addr + k, len: l as u16 }, ROp::O { addr, .. } => ROp::O { addr: addr + k, len: l as u16 }, ROp::Add(x) => ROp::Add(x[k as usize..(k + l) as usize].to_vec()), ROp::Run { byte, .. } => ROp::Run { byte: *byte, len: l as u8 } }); }
        i += 1;
    }
    v
}
pub fn starts(ops: &[ROp]) -> Vec<u64> { let mut at = 0; ops.iter().map(|o| { let p = at; at += o.len(); p }).collect() }
/// The operations producing [a, b), with output copies followed down.
pub fn resolve(ops: &[ROp], st: &[u64], a: u64, b: u64, out: &mut Vec<ROp>) { for o in clip(ops, st, a, b) { match o { ROp::O { addr, len } => resolve(ops, st, addr, addr + len as u64, out), o => out.push(o) } } }

// ------------------------------------------------------------------ bridging to the library's own types
pub fn from_op(op: &smdiff_reader::Op) -> ROp {
    match op {
        smdiff_common::Op::Run(r) => ROp::Run { byte: r.byte, len: r.len },
        smdiff_common::Op::Add(a) => ROp::Add(a.bytes.clone()),
        smdiff_common::Op::Copy(c) => match c.src { smdiff_common::CopySrc::Dict => ROp::D { addr: c.addr, len: c.len }, smdiff_common::CopySrc::Output => ROp::O { addr: c.addr, len: c.len } },
    }
}
pub fn to_op(op: &ROp) -> smdiff_reader::Op {
    use smdiff_common::{Copy, CopySrc, Op, Run};
    match op {
        ROp::Run { byte, len } => Op::Run(Run { byte: *byte, len: *len }),
        ROp::Add(b) => Op::Add(smdiff_reader::Add { bytes: b.clone() }),
        ROp::D { addr, len } => Op::Copy(Copy { src: CopySrc::Dict, addr: *addr, len: *len }),
        ROp::O { addr, len } => Op::Copy(Copy { src: CopySrc::Output, addr: *addr, len: *len }),
    }
}
pub fn show(ops: &[ROp]) -> String { let mut s: Vec<String> = ops.iter().take(24).map(|o| o.short()).collect(); if ops.len() > 24 { s.push(format!("...({} ops)", ops.len())); } s.join(" ") }

/// Where one byte of an output comes from.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum B { Src(u64), Out(u64), Lit(u8) }
/// The bytes an operation list describes, one by one.
pub fn bytes_of(ops: &[ROp]) -> Vec<B> {
    let mut v = vec![];
    for o in ops { match o {
        ROp::D { addr, len } => v.extend((0..*len as u64).map(|i| B::Src(addr.wrapping_add(i)))),
        ROp::O { addr, len } => v.extend((0..*len as u64).map(|i| B::Out(addr.wrapping_add(i)))),
        ROp::Add(b) => v.extend(b.iter().map(|x| B::Lit(*x))),
        ROp::Run { byte, len } => v.resize(v.len() + *len as usize, B::Lit(*byte)),
    } }
    v
}
/// Resolves copies from the own output; every byte is then literal or from the source.
pub fn origins(ops: &[ROp]) -> Vec<B> {
    let mut v: Vec<B> = bytes_of(ops);
    for i in 0..v.len() { if let B::Out(a) = v[i] { assert!((a as usize) < i); v[i] = v[a as usize]; } }
    v
}
/// Random operations restricted to the given kinds (0 source copy, 1 output copy, 2 add, 3 run); falls back to an add.
pub fn ops_of_kinds(rng: &mut Rng, src: &[u8], out: &mut Vec<u8>, n: usize, max_op: usize, kinds: &[u8]) -> Vec<ROp> {
    let mut ops = vec![];
    for _ in 0..n {
        let l = crate::gen::len(rng, max_op.min(65535)).max(1);
        let op = match *rng.pick(kinds) {
            0 if !src.is_empty() => { let l = l.min(src.len()); ROp::D { addr: rng.range(0, src.len() - l) as u64, len: l as u16 } }
            1 if !out.is_empty() => { let l = l.min(out.len()); ROp::O { addr: rng.range(0, out.len() - l) as u64, len: l as u16 } }
            3 => ROp::Run { byte: rng.byte() & 7, len: l.min(62) as u8 },
            _ => ROp::Add(rng.vec(l)),
        };
        apply_ops(std::slice::from_ref(&op), src, out, usize::MAX).unwrap();
        ops.push(op);
    }
    ops
}
/// Splits a list at random into sections with random layout and compression.
pub fn pack(rng: &mut Rng, ops: &[ROp], comp: bool) -> Vec<u8> {
    let mut cuts: Vec<usize> = (0..rng.below(3)).map(|_| rng.below(ops.len() + 1)).collect();
    cuts.push(0); cuts.push(ops.len()); cuts.sort();
    let mut b = vec![];
    let n = cuts.len() - 1;
    for i in 0..n {
        let algo = if comp && rng.pct(40) { rng.below(4) as u8 } else { 0 };
        let seg = rng.pct(50);
        build_section(&mut b, rng, &ops[cuts[i]..cuts[i + 1]], algo, seg, i + 1 < n, true);
    }
    b
}
