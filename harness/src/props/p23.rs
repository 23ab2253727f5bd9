//! P23: time follows the data in hand: processor time per call, against an allowance in proportion to bytes and operations.
use super::hostile::NullSink;
use super::util::*;
use crate::mon::{Ctx, R};
use crate::refm::{self, ROp};
use crate::rng::Rng;
use crate::{ensure, gen, vcd, Scen};
use smdiff_encoder::{EncoderConfig, SecondaryCompression, SrcMatcherConfig, TrgtMatcherConfig};
use std::io::{Cursor, Write};

/// takes anything
struct Void(u64);
impl Write for Void { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0 += b.len() as u64; Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
fn cpu() -> u64 {
    extern "C" { fn clock_gettime(id: i32, t: *mut [i64; 2]) -> i32; }
    let mut t = [0i64; 2];
    unsafe { clock_gettime(3, &mut t) }; // of this thread
    t[0] as u64 * 1_000_000_000 + t[1] as u64
}
const MS: u64 = 1_000_000;
/// Runs `f` and judges the processor time it took; a call beyond its allowance is repeated twice and its best time counts.
fn within<T>(ctx: &mut Ctx, key: &'static str, units: u64, allow_ns: u64, mut f: impl FnMut() -> T) -> Result<T, crate::mon::Viol> {
    let allow = 200 * MS + allow_ns;
    let mut best = u64::MAX;
    let mut r;
    let mut tries = 0;
    loop {
        let a = cpu();
        r = f();
        best = best.min(cpu() - a);
        tries += 1;
        if best <= allow || tries == 3 || best > 4 * allow { break; }
    }
    if tries > 1 { ctx.count("calls_repeated", 1); }
    ctx.max(key, best * 100 / allow);
    ctx.count("calls_timed", 1);
    ctx.max("max_units_in_a_call", units);
    ensure!(best <= allow, &format!("time:{}", &key[25..]), "{} took {} ms of processor time for {units} bytes and operations, allowance {} ms [{}]", &key[25..], best / MS, allow / MS, ctx.desc);
    Ok(r)
}
const SHAPES: &[&str] = &["period", "edited period", "few letters", "fibonacci", "thue", "one prefix", "sparse", "records", "counter", "words", "noise", "nested", "mirrored runs"];
/// data that is hard on matchers
fn hard(rng: &mut Rng, shape: usize, n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::with_capacity(n + 5000);
    match shape {
        0 => { let p = *rng.pick(&[2usize, 3, 4, 5, 7, 8, 9, 10, 16, 50, 89, 90, 91, 100, 255, 300, 512, 4096]); let b = rng.vec(p); while v.len() < n { v.extend_from_slice(&b); } }
        1 => { let p = *rng.pick(&[2usize, 3, 4, 5, 9, 10, 50, 100, 300, 512, 4096]); let b = rng.vec(p); let k = *rng.pick(&[10usize, 50, 90, 95, 100, 130, 200, 1000, 20_000]); while v.len() < n { v.extend_from_slice(&b); } for i in (k / 2..n).step_by(k) { v[i] = rng.byte(); } }
        2 => { let k = rng.range(2, 4); for _ in 0..n { v.push(b'a' + rng.below(k) as u8); } }
        3 => { let (mut a, mut b) = (vec![b'a'], vec![b'a', b'b']); while b.len() < n { let c = [&b[..], &a[..]].concat(); a = b; b = c; } v = b; }
        4 => { for i in 0..n { v.push(b'0' + (i.count_ones() & 1) as u8); } }
        5 => { let l = *rng.pick(&[4usize, 4, 5, 8, 9, 10, 60, 88]); let b = rng.vec(l); let k = rng.range(1, 4); while v.len() < n { v.extend_from_slice(&b); for _ in 0..k { v.push(rng.byte()); } } }
        6 => { v.resize(n, 0); let k = *rng.pick(&[5usize, 9, 12, 64, 91, 1000]); let mut i = 0; while i < n { v[i] = rng.byte(); i += rng.range(1, 2 * k); } }
        7 => { let l = *rng.pick(&[8usize, 16, 32, 100, 512]); let b = rng.vec(l); let mut c = 0u32; while v.len() < n { let at = v.len(); v.extend_from_slice(&b); let x = c.to_le_bytes(); v[at + l / 2..at + l / 2 + 4].copy_from_slice(&x); c = c.wrapping_add(1 + rng.below(2) as u32); } }
        8 => { let mut c = 0u64; while v.len() < n { v.extend_from_slice(format!("{c:010},0,\"x\"\n").as_bytes()); c += rng.range(1, 3) as u64; } }
        9 => { while v.len() < n { v.extend_from_slice(*rng.pick(&[&b"the "[..], b"quick ", b"file", b"\n", b" = ", b"0000", b"return ", b"aaaa", b"  "])); } }
        10 => { v = rng.vec(n); }
        11 => { let mut b = rng.vec(12); while v.len() < n { v.extend_from_slice(&b); if b.len() < 3000 { let x = rng.byte(); b.push(x); } else { b.truncate(12); } } }
        _ => { let mut l = 1; while v.len() < n { let (a, b) = (rng.below(2) as u8, rng.below(2) as u8); v.resize(v.len() + l, a); v.resize(v.len() + 200usize.saturating_sub(l), b); l = l % 200 + 1; } }
    }
    v.truncate(n);
    v
}
fn encode(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> R {
    let shape = (idx % SHAPES.len() as u64) as usize;
    // now and then a large pair
    let most = if idx % 43 == 42 { 9_000_000 } else { 2_000_000 };
    let big = rng.range(300_000, most);
    let (n, m) = match rng.below(5) { 0 => (0, big), 1 => (big, rng.range(100, 30_000)), 2 => (rng.range(100, 30_000), big), _ => (big, rng.range(300_000, most)) };
    let seed = rng.u64();
    let src = hard(&mut Rng::new(seed), shape, n);
    let how = *rng.pick(&["same", "other", "shape", "shifted", "pieces", "reversed blocks"]);
    let t = match how {
        "same" => hard(&mut Rng::new(seed), shape, m),
        "other" => { let s = rng.below(SHAPES.len()); hard(rng, s, m) }
        "shape" => hard(rng, shape, m),
        "shifted" => { let mut t = rng.rvec(1, 50); t.extend(hard(&mut Rng::new(seed), shape, m)); for i in (0..t.len()).step_by(rng.range(90, 100_000)) { t[i] ^= 1; } t }
        "pieces" if n > 200 => { let mut t = vec![]; let l = rng.lrange(20, 2000).min(n / 2); while t.len() < m { let a = rng.below(n - l); t.extend_from_slice(&src[a..a + l]); t.push(rng.byte()); } t }
        _ => { let b = hard(&mut Rng::new(seed), shape, m); let l = rng.lrange(50, 70_000); b.chunks(l).rev().flatten().copied().collect() }
    };
    let mut c = EncoderConfig::default();
    let mut d = String::new();
    let mut chain = 0usize;
    if rng.pct(10) { c = c.no_match_src(); d += "nosrc "; } else {
        let step = *rng.pick(&[1usize, 2, 3, 8, 9, 16, 26]);
        let win = if rng.pct(70) { None } else { Some(rng.range(0, 1 << 21)) };
        c = c.set_match_src(SrcMatcherConfig::new(step, win)); d += &format!("src({step},{win:?}) ");
    }
    if rng.pct(75) {
        let l = rng.below(10);
        let mut k = TrgtMatcherConfig::comp_level(l);
        if rng.pct(20) { let z = rng.range(1, 1 << 19); k = k.with_table_capacity(z); d += &format!("table{z} "); }
        chain = k.chain_check;
        d += &format!("trgt({l}) ");
        c = c.set_match_target(k);
    }
    if rng.pct(30) { c = c.format_segregated(); d += "seg "; }
    if rng.pct(50) { let z = *rng.pick(gen::SEG); c = c.set_output_segment_size(z); d += &format!("win{z} "); }
    if rng.pct(40) { c = c.set_naive_tests(Default::default()); d += "naive "; }
    if rng.pct(40) { let z = *rng.pick(&[0usize, 4, 45, 90, 200]); c = c.set_lazy_escape_len(z); d += &format!("lazy{z} "); }
    let mut inner = 0;
    if rng.pct(20) { let l = rng.below(4); let k = TrgtMatcherConfig::comp_level(l); inner = k.chain_check; c = c.set_sec_comp(SecondaryCompression::Smdiff(k)); d += &format!("smdiff{l} "); }
    ctx.desc = format!("encode {} ({how}) source {n}B target {}B cfg[{}]", SHAPES[shape], t.len(), d.trim());
    ctx.sign(&src); ctx.sign(&t); ctx.signs(&d);
    ctx.blob("src", &src); ctx.blob("trgt", &t);
    ctx.nontrivial = true;
    let allow = 300 * n as u64 + t.len() as u64 * (1500 + 150 * (chain + inner) as u64);
    let r = within(ctx, "max_percent_of_allowance:encode", (n + t.len()) as u64, allow, || smdiff_encoder::encode(if n > 0 { Some(Cursor::new(&src)) } else { None }.as_mut(), &mut Cursor::new(&t), &mut Void(0), &c))?;
    ensure!(r.is_ok(), "encode-err", "encode: {:?} [{}]", r.err(), ctx.desc);
    ctx.count("encodes_timed", 1);
    if how == "pieces" || how == "shifted" { ctx.count("encodes_of_rearranged_content", 1); }
    Ok(())
}
/// Reading, applying, extracting, looking up, slicing, writing and transcoding: many operations.
fn lists(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> R {
    let src = rng.rvec(100, 200_000);
    let (n, m) = (rng.range(60_000, 300_000), *rng.pick(&[1usize, 2, 8, 40]));
    let kinds: &[u8] = [&[0u8, 1, 2, 3][..], &[2], &[3], &[2, 3], &[0], &[0, 1], &[0, 0, 0, 2], &[1, 2]][(idx % 8) as usize];
    let mut out = vec![];
    if kinds[0] != 2 && kinds[0] != 3 { out = rng.vec(50); }
    let mut ops: Vec<ROp> = if out.is_empty() { vec![] } else { vec![ROp::Add(out.clone())] };
    ops.extend(refm::ops_of_kinds(rng, &src, &mut out, n, m, kinds));
    // rows that lie next to each other, or pieces from all over
    if rng.pct(40) { let mut at = 0u64; for o in ops.iter_mut() { if let ROp::D { addr, len } = o { if at + *len as u64 > src.len() as u64 { at = 0; } *addr = at; at += *len as u64; } } }
    let total: u64 = ops.iter().map(|o| o.len()).sum();
    let per = rng.lrange(20, ops.len());
    let (seg, mut p) = (rng.pct(50), vec![]);
    for (i, c) in ops.chunks(per).enumerate() { refm::build_section(&mut p, rng, c, 0, seg, (i + 1) * per < ops.len(), false); }
    ctx.desc = format!("{} operations of kinds {kinds:?} up to {m}B, {} to a section, seg {seg}, output {total}B", ops.len(), per);
    ctx.sign(&p);
    ctx.nontrivial = true;
    let k = ops.len() as u64;
    let units = k + total;
    let r = within(ctx, "max_percent_of_allowance:apply", units, 1000 * k + 10 * total, || smdiff_decoder::apply_patch(&mut Cursor::new(&p), Some(&mut Cursor::new(&src)), &mut NullSink { pos: 0, len: 0 }))?;
    ensure!(r.is_ok(), "apply-err", "apply: {:?} [{}]", r.err(), ctx.desc);
    within(ctx, "max_percent_of_allowance:decoder_sections", units, 400 * k, || { for r in smdiff_decoder::reader::SectionIterator::new(Cursor::new(&p)) { if r.is_err() { break; } } })?;
    within(ctx, "max_percent_of_allowance:decoder_borrowed", units, 400 * k, || { let mut it = smdiff_decoder::reader::SectionIterator::new(Cursor::new(&p)); while let Some(r) = it.next_borrowed() { if r.is_err() { break; } } })?;
    within(ctx, "max_percent_of_allowance:reader_sections", units, 400 * k, || { for r in smdiff_reader::SectionIterator::new(Cursor::new(&p)) { if r.is_err() { break; } } })?;
    within(ctx, "max_percent_of_allowance:reader_borrowed", units, 400 * k, || { let mut it = smdiff_reader::SectionIterator::new(Cursor::new(&p)); while let Some(r) = it.next_borrowed() { if r.is_err() { break; } } })?;
    let (sp, _) = within(ctx, "max_percent_of_allowance:extract", units, 600 * k, || smdiff_merger::extract_patch_instructions(Cursor::new(&p)))?.map_err(|e| crate::mon::Viol::new("extract-err", format!("extract: {e} [{}]", ctx.desc)))?;
    let q = rng.range(50_000, 150_000) as u64;
    let seed = rng.u64();
    within(ctx, "max_percent_of_allowance:look_up", q, 1500 * q, || { let mut r = Rng::new(seed); for _ in 0..q { std::hint::black_box(smdiff_merger::find_controlling_op(&sp, r.below64(total + 5))); } })?;
    let l = rng.range(1, 30) as u64;
    within(ctx, "max_percent_of_allowance:slice", q, (1500 + 300 * l) * q, || { let mut r = Rng::new(seed); for _ in 0..q { std::hint::black_box(smdiff_merger::get_exact_slice(&sp, r.below64(total), l as u32)); } })?;
    let fmt = *rng.pick(&[smdiff_common::Format::Interleaved, smdiff_common::Format::Segregated]);
    let o = OutOpts { win: if rng.pct(50) { None } else { Some(*rng.pick(gen::SEG)) }, fmt: Some(fmt), sec: None, algo: 0, seg: false, desc: String::new() };
    let plain: Vec<smdiff_reader::Op> = sp.iter().map(|x| x.1.clone()).collect();
    within(ctx, "max_percent_of_allowance:make_sections", k, 400 * k, || smdiff_writer::make_sections(&plain, o.win.unwrap_or(1 << 24).clamp(65_535, (1 << 24) - 1)).len())?;
    // one section of as much as one may hold
    let most = smdiff_writer::make_sections(&plain, (1 << 24) - 1);
    for f in [smdiff_common::Format::Interleaved, smdiff_common::Format::Segregated] {
        let Some((ops, mut h)) = most.iter().max_by_key(|x| x.0.len()).cloned() else { break };
        h.format = f;
        let j = ops.len() as u64;
        let r = within(ctx, "max_percent_of_allowance:write_ops", j, 400 * j + 5 * total, || { smdiff_writer::write_section_header(&h, &mut Void(0))?; smdiff_writer::write_ops(ops, &h, &mut Void(0)) })?;
        ensure!(r.is_ok(), "write-err", "write: {:?} [{}]", r.err(), ctx.desc);
    }
    if let Ok(Err(s)) | Ok(Ok(s)) = smdiff_merger::Merger::new(Cursor::new(&p)).map(|r| r.map(|m| m.finish())) {
        let w = s.take_ops();
        let j = w.len() as u64;
        if j < 4_000_000 {
            let mut once = smdiff_merger::Merger::new(Cursor::new(&p)).ok().map(|r| match r { Ok(m) => m.finish(), Err(s) => s });
            // it can be written only once
            let r = within(ctx, "max_percent_of_allowance:write", j, 600 * j, || once.take().map(|s| s.write(&mut Void(0), o.win, o.fmt, None)))?;
            if let Some(Err(e)) = r { return Err(crate::mon::Viol::new("write-err", format!("write: {e} [{}]", ctx.desc))); }
        }
    }
    let r = within(ctx, "max_percent_of_allowance:transcode", units, 1500 * k + 20 * total, || smdiff_merger::transcoder::transcode(&mut Cursor::new(&p), &mut Void(0), fmt, None, o.win.unwrap_or(1 << 24)))?;
    ensure!(r.is_ok(), "transcode-err", "transcode: {:?} [{}]", r.err(), ctx.desc);
    ctx.count("lists_timed", 1);
    Ok(())
}
fn count(e: End) -> u64 { e.summary().take_ops().len() as u64 }
/// Merging chains of patches of many operations.
fn merge(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let mut outs: Vec<Vec<u8>> = vec![rng.rvec(100, 50_000)];
    let (mut patches, mut lens, mut desc) = (vec![], vec![], String::new());
    for _ in 0..rng.range(2, 4) {
        let src = outs.last().unwrap().clone();
        let (mut out, n, m) = (vec![], rng.range(20_000, 90_000), rng.lrange(1, 12));
        let kinds: &[u8] = *rng.pick(&[&[0u8, 2, 3][..], &[0, 0, 0, 2], &[0], &[0, 1, 2, 3], &[2, 3]]);
        let mut ops = vec![];
        if kinds.len() == 4 { out = rng.vec(20); ops.push(ROp::Add(out.clone())); }
        ops.extend(refm::ops_of_kinds(rng, &src, &mut out, n, m, kinds));
        desc += &format!("{}ops->{}B ", ops.len(), out.len());
        lens.push(ops.len() as u64);
        patches.push(refm::pack(rng, &ops, false));
        outs.push(out);
    }
    ctx.desc = format!("merging {desc}");
    for p in &patches { ctx.sign(p); }
    ctx.nontrivial = true;
    let mut it = patches.iter().zip(&lens).rev();
    let (p, k) = it.next().unwrap();
    let Ok(own) = merge_start(p) else { return Ok(()) };
    let mut w = count(own);
    let Ok(mut e) = within(ctx, "max_percent_of_allowance:merger_new", w + k, 1200 * (w + k), || merge_start(p))? else { return Ok(()) };
    for (p, k) in it {
        let m = match e { End::Done(_) => break, End::More(m) => m };
        let after = match merge_step(m.clone(), p) { Ok(x) => count(x), Err(_) => return Ok(()) };
        let Ok(own) = merge_start(p) else { return Ok(()) };
        let u = w + k + count(own) + after;
        let Ok(x) = within(ctx, "max_percent_of_allowance:merge", u, 1200 * u, || merge_step(m.clone(), p))? else { return Ok(()) };
        (e, w) = (x, after);
        ctx.count("merge_steps_timed", 1);
    }
    let mut s = Some(e.summary());
    let r = within(ctx, "max_percent_of_allowance:write", w, 600 * w, || s.take().map(|s| s.write(&mut Void(0), None, None, None)))?;
    if let Some(Err(e)) = r { return Err(crate::mon::Viol::new("write-err", format!("write: {e} [{}]", ctx.desc))); }
    Ok(())
}
/// Converting deltas of many instructions, many windows, or long runs and copies.
fn convert(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let src = rng.rvec(1_000, 100_000);
    let mut v = vcd::HEADER.to_vec();
    let mut seen = vcd::Seen::default();
    let per = rng.lrange(1, 3000);
    let m = rng.lrange(1, 60);
    let (mut units, mut insts) = (0u64, 0u64);
    let proto: Vec<(Vec<u8>, u64)> = (0..4).map(|_| {
        let ins: Vec<vcd::VI> = (0..per).map(|_| { let l = rng.range(1, m); match rng.below(3) { 0 => vcd::VI::Add(rng.vec(l)), 1 => vcd::VI::Run(rng.byte(), l as u32 * if m > 20 { 9 } else { 1 }), _ => { let l = l.min(src.len()); let at = rng.range(0, src.len() - l); vcd::VI::Copy { addr: at as u32, len: l as u32 } } } }).collect();
        let n: u64 = ins.iter().map(|i| match i { vcd::VI::Add(b) => b.len() as u64, vcd::VI::Copy { len, .. } => *len as u64, vcd::VI::Run(_, n) => *n as u64 }).sum();
        let mut w = vec![];
        vcd::window(&mut w, rng, 1, Some((src.len() as u64, 0)), &ins, n, |i, _| match i { vcd::VI::Add(b) => b.len() as u32, vcd::VI::Copy { len, .. } => *len, vcd::VI::Run(_, n) => *n }, &mut seen);
        (w, n)
    }).collect();
    let want = rng.range(60_000, 400_000) as u64;
    while insts < want { let (w, n) = rng.pick(&proto); v.extend_from_slice(w); units += n; insts += per as u64; }
    let windows = insts / per as u64;
    ctx.desc = format!("converting {insts} instructions in {windows} windows, delta {}B to {units}B", v.len());
    ctx.signs(&ctx.desc.clone());
    ctx.nontrivial = true;
    let r = within(ctx, "max_percent_of_allowance:convert", insts + units, 1500 * insts + 3000 * windows + 40 * units, || smdiff_vcdiff::convert_vcdiff_to_smdiff(Cursor::new(&v), &mut Void(0)))?;
    ensure!(r.is_ok(), "convert-err", "convert: {:?} [{}]", r.err(), ctx.desc);
    ctx.count("conversions_timed", 1);
    Ok(())
}
pub fn scens() -> Vec<Scen> {
    vec![
        Scen { name: "encode", weight: 12, min: (130, 6_000), cpu_limit: 100, run: encode },
        Scen { name: "lists", weight: 8, min: (48, 2_000), cpu_limit: 100, run: lists },
        Scen { name: "merge", weight: 6, min: (48, 2_000), cpu_limit: 100, run: merge },
        Scen { name: "convert", weight: 2, min: (32, 800), cpu_limit: 100, run: convert },
    ]
}
