//! P11: memory is bounded by the data present, not by what headers claim.
use super::hostile::{self, NullSink};
use crate::mon::{measure, Ctx, R};
use crate::refm::{self, ROp};
use crate::rng::Rng;
use crate::{ensure, gen, Scen};
use std::io::Cursor;

/// Fixed part of the allowance: one section of output that was claimed but not delivered, and codec state.
const FIXED: usize = 40 << 20;
/// Multiple of the bytes present: an operation of two bytes becomes some 40 bytes in memory, in a vector that doubles.
const PER_BYTE: usize = 160;

/// Calls every reader of patches and checks the high-water mark of the heap during each call.
/// `present` is the size of the patch after decompression.
fn watch(ctx: &mut Ctx, p: &[u8], src: &[u8], present: usize, window: usize) -> R {
    let allow = FIXED + window + PER_BYTE * present;
    let mut go = |name: &str, f: &mut dyn FnMut()| -> R {
        let (_, peak, largest) = measure(f);
        ctx.max("max_peak_bytes", peak as u64);
        ctx.max("max_single_request", largest as u64);
        ctx.count("calls_measured", 1);
        ensure!(peak <= allow, &format!("memory:{name}"), "{name} held {peak} bytes at once for a patch of {} bytes ({present} decompressed), allowance {allow} [{}]", p.len(), ctx.desc);
        Ok(())
    };
    go("read_section", &mut || { let mut v = vec![]; let _ = smdiff_reader::read_section(&mut Cursor::new(p), &mut v); })?;
    go("reader iterator", &mut || { for r in smdiff_reader::SectionIterator::new(Cursor::new(p)) { if r.is_err() { break; } } })?;
    go("decoder iterator", &mut || { for r in smdiff_decoder::reader::SectionIterator::new(Cursor::new(p)) { if r.is_err() { break; } } })?;
    go("decoder borrowed", &mut || { let mut it = smdiff_decoder::reader::SectionIterator::new(Cursor::new(p)); while let Some(r) = it.next_borrowed() { if r.is_err() { break; } } })?;
    go("apply", &mut || { let mut s = NullSink { pos: 0, len: 0 }; let _ = smdiff_decoder::apply_patch(&mut Cursor::new(p), Some(&mut Cursor::new(src)), &mut s); })?;
    go("apply without source", &mut || { let mut s = NullSink { pos: 0, len: 0 }; let _ = smdiff_decoder::apply_patch::<_, Cursor<&[u8]>, _>(&mut Cursor::new(p), None, &mut s); })?;
    go("extract", &mut || { let _ = smdiff_merger::extract_patch_instructions(Cursor::new(p)); })?;
    Ok(())
}
/// headers with huge claims over little data
fn claims(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let src = rng.vec(64);
    let k = rng.below(6);
    let ops = hostile::wild_ops(rng, k);
    let big = |rng: &mut Rng| match rng.below(8) { 0 => u64::MAX, 1 => u32::MAX as u64, 2 => (1 << 32) + 5, 3 => (1u64 << 24) - 1, 4 => 1 << 24, 5 => 1 << 28, 6 => 1 << 31, _ => rng.ulog() };
    let seg = rng.pct(60);
    let algo = if rng.pct(60) { 0 } else { rng.below(4) as u8 };
    let (nops, adds, out) = (big(rng), if rng.pct(50) { big(rng) } else { 0 }, big(rng));
    let mut b = vec![algo << 3 | (seg as u8) << 6 | (rng.pct(20) as u8) << 7];
    refm::put_uvar(&mut b, nops);
    if seg { refm::put_uvar(&mut b, adds); }
    refm::put_uvar(&mut b, out);
    let mut body = refm::body(&ops, seg, None);
    if rng.pct(60) { // operations that claim the most per byte present
        body.clear();
        for _ in 0..rng.lrange(1, 3000) { match rng.below(4) { 0 => body.extend_from_slice(&[0x80, 0xff, 0xff]), 1 => body.extend_from_slice(&[0xbf, 0xff]), 2 => body.extend_from_slice(&[0xfe, 1]), _ => body.extend_from_slice(&[0x00, 0xff, 0xff, 0]) } }
        if rng.pct(60) { let o: &[u8] = *rng.pick(&[&[0x80u8, 0xff, 0xff][..], &[0xfe, 0], &[0xc1, 0], &[0x01, 0], &[0x41, 0], &[0x81, 9]]); body = o.repeat(rng.lrange(1, 40_000)); }
    }
    let z = refm::squeeze(rng, algo, &body);
    b.extend_from_slice(&z);
    ctx.desc = format!("claims ops {nops} adds {adds} out {out} seg {seg} algo {algo} body {} bytes", body.len());
    ctx.sign(&b);
    ctx.blob("patch", &b);
    ctx.nontrivial = true;
    ctx.count("claim_patches", 1);
    watch(ctx, &b, &src, b.len() + body.len(), if algo == 0 { 0 } else { 32 << 20 })
}
/// more output claimed for one section than the format allows is refused, whatever follows
fn limit(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let over = match rng.below(4) { 0 => 1, 1 => rng.range(1, 65535) as u64, 2 => rng.ulog().max(1) >> 1, _ => 1u64 << rng.range(0, 40) };
    let out = refm::MAX_OUT.saturating_add(over.max(1));
    let seg = rng.pct(50);
    let adds = if seg { match rng.below(3) { 0 => 0, 1 => out, _ => out / 2 } } else { 0 };
    // a body that delivers exactly what is claimed when that is feasible
    let deliver = out < 40_000_000 && rng.pct(20);
    let mut ops = vec![];
    let (mut left_o, mut left_a) = (out - adds, adds);
    if deliver { while left_a > 0 { let l = left_a.min(65535); ops.push(ROp::Add(vec![1; l as usize])); left_a -= l; } while left_o > 0 { let l = left_o.min(65535); ops.push(ROp::D { addr: 0, len: l as u16 }); left_o -= l; } }
    else { ops.push(ROp::D { addr: 0, len: 10 }) }
    let mut b = vec![(seg as u8) << 6];
    refm::put_uvar(&mut b, ops.len() as u64);
    if seg { refm::put_uvar(&mut b, adds); refm::put_uvar(&mut b, out - adds); } else { refm::put_uvar(&mut b, out); }
    b.extend(refm::body(&ops, seg, None));
    let src = vec![3u8; 65536];
    ctx.desc = format!("one section of {out} bytes, {adds} of them add bytes, delivered {deliver}, seg {seg}");
    ctx.signs(&ctx.desc.clone());
    ctx.nontrivial = true;
    let mut s = NullSink { pos: 0, len: 0 };
    let r = smdiff_decoder::apply_patch(&mut Cursor::new(&b), Some(&mut Cursor::new(&src)), &mut s);
    ensure!(r.is_err(), "limit", "a section that claims {out} bytes was accepted [{}]", ctx.desc);
    ensure!(smdiff_reader::read_section_header(&mut Cursor::new(&b)).is_err() || smdiff_reader::read_section(&mut Cursor::new(&b), &mut vec![]).is_err(), "limit-read", "read_section accepts {out} bytes");
    ensure!(smdiff_merger::extract_patch_instructions(Cursor::new(&b)).is_err(), "limit-extract", "extract accepts {out} bytes");
    ctx.count("over_limit_refused", 1);
    Ok(())
}
/// compressed sections: bombs whose decompressed body is far longer than the header describes, and inner patches with claims
fn bombs(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> R {
    let n = rng.range(1, 60) << 20;
    let body = match rng.below(3) { 0 => vec![0u8; n], 1 => [0xfeu8, 1].repeat(n / 2), _ => [0x80u8, 0xff, 0xff].repeat(n / 3) };
    let algo = [2u8, 3, 1][idx as usize % 3];
    let z = match algo {
        2 => zstd::stream::encode_all(&body[..], 3).unwrap(),
        3 => { use std::io::Write; let mut o = smdiff_encoder::brotli::BrotliEncoderOptions::default(); o.quality(smdiff_encoder::brotli::Quality::new(2).unwrap()); let mut w = brotlic::CompressorWriter::with_encoder(o.build().unwrap(), vec![]); w.write_all(&body).unwrap(); w.into_inner().unwrap() }
        _ => { // an inner patch that expands by copying itself, in many sections
            let mut z = vec![]; let mut len = 0u64; let k = rng.range(2, 300);
            refm::build_section(&mut z, rng, &[ROp::Add(vec![1; 65535])], 0, false, true, false); len += 65535;
            for i in 0..k { let ops: Vec<ROp> = (0..rng.range(1, 20)).map(|_| ROp::O { addr: len - 65535, len: 65535 }).collect(); len += 0; refm::build_section(&mut z, rng, &ops, 0, false, i + 1 < k, false); }
            z }
    };
    let mut b = vec![algo << 3 | (rng.pct(50) as u8) << 6];
    let seg = b[0] & 0x40 != 0;
    refm::put_uvar(&mut b, *rng.pick(&[0u64, 1, 3, u32::MAX as u64]));
    if seg { refm::put_uvar(&mut b, *rng.pick(&[0u64, 9, 16_777_215])); }
    refm::put_uvar(&mut b, *rng.pick(&[0u64, 1, 62, 65535]));
    b.extend_from_slice(&z);
    ctx.desc = format!("algo {algo} bomb: {} bytes to {}", b.len(), body.len());
    ctx.sign(&b);
    ctx.nontrivial = true;
    ctx.count("bombs", 1);
    // nothing of the surplus has to be kept: the allowance for data present is that of the compressed patch plus what the
    // header admits (one section); an inner patch is delivered in full
    let present = if algo == 1 { 300 * 20 * 65535 / 100 } else { 1 << 18 };
    watch(ctx, &b, &[0; 64], present, 32 << 20)
}
/// mutated and crafted patches
fn any(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let n = gen::len(rng, 500);
    let src = gen::content(rng, n);
    let (p, kind) = hostile::patch(rng, &src);
    ctx.desc = format!("{kind} {} bytes: {:02x?}", p.len(), &p[..p.len().min(40)]);
    ctx.sign(&p);
    ctx.blob("patch", &p);
    ctx.nontrivial = true;
    // a damaged zstd frame may ask for a window of up to 100 MiB, the decoder's own limit
    watch(ctx, &p, &src, p.len() + (1 << 16), 128 << 20)
}
/// zstd frames that ask for large windows
fn windows(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let exp = rng.below(32) as u8; let man = rng.below(8) as u8;
    let mut z = vec![0x28, 0xB5, 0x2F, 0xFD, 0x00, exp << 3 | man];
    if rng.pct(40) { z = vec![0x28, 0xB5, 0x2F, 0xFD, 0xE0]; z.extend_from_slice(&rng.ulog().to_le_bytes()); }
    for i in 0..rng.range(1, 3) { let last = i == 2 || rng.pct(50); let kind = rng.below(4) as u32; let size = rng.lrange(0, (1 << 21) - 1) as u32; let h = last as u32 | kind << 1 | size << 3; z.extend_from_slice(&h.to_le_bytes()[..3]); let x = rng.rvec(0, 40); z.extend(x); }
    let mut b = vec![2 << 3]; refm::put_uvar(&mut b, 1); refm::put_uvar(&mut b, 10); b.extend_from_slice(&z);
    ctx.desc = format!("zstd window exponent {exp} mantissa {man}");
    ctx.sign(&b);
    ctx.blob("patch", &b);
    ctx.nontrivial = true;
    ctx.count("window_claims", 1);
    watch(ctx, &b, &[1; 32], b.len() + (1 << 17) * 3, 128 << 20)
}
pub fn scens() -> Vec<Scen> {
    vec![
        Scen { name: "claims", weight: 20, min: (3_000, 60_000), cpu_limit: 60, run: claims },
        Scen { name: "limit", weight: 5, min: (1_000, 20_000), cpu_limit: 60, run: limit },
        Scen { name: "bombs", weight: 0, min: (36, 400), cpu_limit: 120, run: bombs },
        Scen { name: "any", weight: 20, min: (5_000, 100_000), cpu_limit: 60, run: any },
        Scen { name: "windows", weight: 5, min: (1_000, 20_000), cpu_limit: 60, run: windows },
    ]
}
