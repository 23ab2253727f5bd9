//! P20: memory follows the data in hand: files for the encoder, one section for the decoder, operations for merger and transcoder.
use super::hostile::NullSink;
use super::util::*;
use crate::mon::{measure, Ctx, R};
use crate::refm::{self, ROp};
use crate::rng::Rng;
use crate::{ensure, gen, vcd, Scen};
use smdiff_encoder::{EncoderConfig, SecondaryCompression, SrcMatcherConfig, TrgtMatcherConfig};
use std::io::{Cursor, Write};

const MB: usize = 1 << 20;
/// counts what is written
struct Count(u64);
impl Write for Count { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0 += b.len() as u64; Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
/// runs `f` and judges the growth of the heap it caused
fn within<T>(ctx: &mut Ctx, what: &'static str, allow: usize, f: impl FnOnce() -> T) -> Result<T, crate::mon::Viol> {
    let (r, peak, largest) = measure(f);
    // recorded under the name of the call: the highest share of the allowance, in percent
    ctx.max(what, (peak as u64).saturating_mul(100) / allow as u64);
    ctx.max("max_single_request", largest as u64);
    ctx.count("calls_measured", 1);
    ensure!(peak <= allow, &format!("memory:{}", &what[25..]), "{} held {peak} bytes at once (largest request {largest}), allowance {allow} [{}]", &what[25..], ctx.desc);
    Ok(r)
}
/// The encoder, under settings that would allow for far larger files.
fn settings(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let max = *rng.pick(&[100usize, 3_000, 60_000, 600_000]);
    let n = if rng.pct(15) { 0 } else { gen::len(rng, max) };
    let src = gen::content(rng, n);
    let t = match rng.below(4) { 0 => { let m = gen::len(rng, max); gen::content(rng, m) } 1 => { let m = gen::len(rng, max); rng.vec(m) } _ => gen::target_for(rng, &src, max).0 };
    let mut c = EncoderConfig::default();
    let mut d = String::new();
    let mut extra = 0;
    if rng.pct(15) { c = c.no_match_src(); d += "nosrc "; } else {
        let step = *rng.pick(&[1usize, 1, 2, 3, 8, 9, 26, 1000, 1 << 20, usize::MAX]);
        let win = match rng.below(5) { 0 => None, 1 => Some(usize::MAX), 2 => Some(rng.range(0, 1 << 22)), _ => Some(1usize << rng.range(20, 63)) };
        c = c.set_match_src(SrcMatcherConfig::new(step, win)); d += &format!("src({step},{win:?}) ");
    }
    if rng.pct(60) {
        let mut m = TrgtMatcherConfig::comp_level(rng.below(10));
        d += "trgt";
        if rng.pct(40) { let k = rng.below(1 << 16); m = m.with_table_capacity(k); extra = 40 * k.next_power_of_two(); d += &format!("({k})"); }
        c = c.set_match_target(m); d += " ";
    }
    if rng.pct(40) { c = c.format_segregated(); d += "seg "; }
    if rng.pct(60) { let z = *rng.pick(gen::SEG); c = c.set_output_segment_size(z); d += &format!("win{z} "); }
    if rng.pct(30) { c = c.set_naive_tests(Default::default()); d += "naive "; }
    if rng.pct(50) { let (sec, sd, _) = gen::sec_comp(rng, max <= 3000); if let Some(s) = sec { if let SecondaryCompression::Smdiff(ref m) = s { extra += 40 * m.prev_table_capacity.unwrap_or(0).next_power_of_two(); } c = c.set_sec_comp(s); d += &sd; } }
    ctx.desc = format!("encode source {n}B target {}B cfg[{}]", t.len(), d.trim());
    ctx.sign(&src); ctx.sign(&t); ctx.signs(&d);
    ctx.blob("src", &src); ctx.blob("trgt", &t);
    ctx.nontrivial = true;
    let with = n > 0 || rng.pct(50);
    let (mut a, mut b) = (Cursor::new(&src), Cursor::new(&t));
    let allow = MB + extra + 200 * (n + t.len());
    let r = within(ctx, "max_percent_of_allowance:encode", allow, || smdiff_encoder::encode(if with { Some(&mut a) } else { None }, &mut b, &mut Count(0), &c))?;
    ensure!(r.is_ok(), "encode-err", "encode: {:?} [{}]", r.err(), ctx.desc);
    ctx.count("encodes_measured", 1);
    Ok(())
}
/// Reading and applying patches of many sections: one section at a time.
fn stream(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let src = rng.rvec(70_000, 90_000);
    let far = 48 * MB; // the source is longer than that
    let per = rng.lrange(1_000, 120_000);
    let ns = (rng.range(15, 30) * MB / per).clamp(30, 20_000);
    let algo = if rng.pct(50) { 0 } else { rng.range(1, 3) as u8 };
    let kinds: &[u8] = *rng.pick(&[&[2u8][..], &[2, 0, 1, 3], &[0, 1], &[0, 2], &[3]]);
    let seg = rng.pct(50);
    let mut b = vec![];
    let (mut out, mut most, mut all) = (vec![], 0usize, 0usize);
    // a few sections, again and again (copies refer to the front of the output)
    let few: Vec<(Vec<u8>, usize)> = (0..6).map(|i| {
        let mut o = out.clone();
        let mut ops: Vec<ROp> = vec![];
        let lim = if i == 0 { per } else { rng.range(per / 2, per) };
        let big = rng.lrange(8, 65_535);
        let mut got = 0;
        while got < lim {
            let l = rng.range(1, big).min(lim - got);
            let op = match *rng.pick(kinds) { 0 => { let l = l.min(src.len()); ROp::D { addr: rng.range(0, src.len() - l) as u64, len: l as u16 } } 1 if o.len() >= l => ROp::O { addr: rng.range(0, o.len() - l) as u64, len: l as u16 }, 3 => ROp::Run { byte: rng.byte(), len: l.min(62) as u8 }, _ => ROp::Add(rng.vec(l)) };
            got += op.len() as usize;
            refm::apply_ops(std::slice::from_ref(&op), &src, &mut o, usize::MAX).expect("generator made an invalid op");
            ops.push(if let ROp::D { addr, len } = op { ROp::D { addr: addr + rng.below(far) as u64, len } } else { op });
        }
        if i == 0 { out = o; }
        let mut s = vec![];
        refm::build_section(&mut s, rng, &ops, algo, seg, true, false);
        let body = refm::body(&ops, seg, None).len();
        // operations in a vector that doubles, their bytes, and the decompressed (and inner) section
        (s, ops.len() * 200 + body * if algo == 1 { 110 } else { 6 })
    }).collect();
    for i in 0..ns { let (s, m) = &few[if i == 0 { 0 } else { rng.below(few.len()) }]; b.extend_from_slice(s); most = most.max(*m); all += *m; }
    refm::build_section(&mut b, rng, &[ROp::Add(vec![9; 5])], 0, false, false, false);
    ctx.desc = format!("{ns} sections of up to {per}B, algo {algo} seg {seg} kinds {kinds:?}, patch {}B", b.len());
    ctx.sign(&b);
    ctx.nontrivial = true;
    ctx.count("sections_streamed", ns as u64);
    ctx.max("max_total_to_one_section", (all / most.max(1)) as u64);
    let allow = 3 * MB / 2 + most + if algo == 2 { MB } else { 0 };
    let good = within(ctx, "max_percent_of_allowance:apply", allow, || { let mut s = NullSink { pos: 0, len: 0 }; smdiff_decoder::apply_patch(&mut Cursor::new(&b), Some(&mut NullSink { pos: 0, len: 49 << 20 }), &mut s) })?;
    ensure!(good.is_ok(), "apply-err", "apply: {:?} [{}]", good.err(), ctx.desc);
    within(ctx, "max_percent_of_allowance:decoder_iterator", allow, || { for r in smdiff_decoder::reader::SectionIterator::new(Cursor::new(&b)) { if r.is_err() { break; } } })?;
    within(ctx, "max_percent_of_allowance:decoder_borrowed", allow, || { let mut it = smdiff_decoder::reader::SectionIterator::new(Cursor::new(&b)); while let Some(r) = it.next_borrowed() { if r.is_err() { break; } } })?;
    if algo == 0 {
        within(ctx, "max_percent_of_allowance:reader_iterator", allow, || { for r in smdiff_reader::SectionIterator::new(Cursor::new(&b)) { if r.is_err() { break; } } })?;
        within(ctx, "max_percent_of_allowance:reader_borrowed", allow, || { let mut it = smdiff_reader::SectionIterator::new(Cursor::new(&b)); while let Some(r) = it.next_borrowed() { if r.is_err() { break; } } })?;
    }
    ctx.count("streams_measured", 1);
    Ok(())
}
/// what a list of operations needs at least
fn weight(e: End) -> usize {
    e.summary().take_ops().iter().map(|o| 64 + if let smdiff_common::Op::Add(a) = o { a.bytes.len() } else { 0 }).sum()
}
/// Merging, writing and transcoding: in proportion to the operations.
fn lists(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let mut outs: Vec<Vec<u8>> = vec![rng.rvec(100, 50_000)];
    let mut patches = vec![];
    let (mut costs, mut desc) = (vec![], String::new());
    for _ in 0..rng.range(1, 4) {
        let src = outs.last().unwrap().clone();
        let (mut out, n, m) = (vec![], rng.lrange(1, 6000), rng.lrange(1, 3000));
        let ops = if rng.pct(40) {
            // a few large pieces and many small parts of them
            let mut v: Vec<ROp> = vec![];
            for _ in 0..rng.range(1, 3) { let l = rng.range(20_000, 65_535); out.extend(rng.vec(l)); v.push(ROp::Add(out[out.len() - l..].to_vec())); }
            for _ in 0..n {
                let of = if rng.pct(50) { src.len() } else { out.len() };
                let dict = of == src.len();
                let l = rng.range(1, 12).min(of);
                let at = *rng.pick(&[0, of - l, rng.clone().range(0, of - l), 1.min(of - l)]);
                let op = if dict { ROp::D { addr: at as u64, len: l as u16 } } else { ROp::O { addr: at as u64, len: l as u16 } };
                refm::apply_ops(std::slice::from_ref(&op), &src, &mut out, usize::MAX).expect("generator made an invalid op");
                v.push(op);
            }
            // and one that takes all there is
            if rng.pct(60) {
                let l = src.len().min(65_535);
                let op = ROp::D { addr: 0, len: l as u16 };
                out.extend_from_slice(&src[..l]);
                v.push(op);
            }
            desc += "parts:";
            v
        } else {
            let kinds: &[u8] = *rng.pick(&[&[0u8, 2, 3][..], &[0, 0, 0, 2], &[2], &[3]]);
            refm::ops_of_kinds(rng, &src, &mut out, n, m, kinds)
        };
        let comp = rng.pct(30);
        let p = refm::pack(rng, &ops, comp);
        costs.push(ops.len() * 64 + ops.iter().map(|o| if let ROp::Add(b) = o { b.len() } else { 0 }).sum::<usize>());
        desc += &format!("{}ops->{}B ", ops.len(), out.len());
        outs.push(out);
        patches.push((p, comp));
    }
    ctx.desc = format!("merging {desc}");
    for p in &patches { ctx.sign(&p.0); }
    ctx.nontrivial = true;
    let o = OutOpts { win: if rng.pct(50) { None } else { Some(*rng.pick(gen::SEG)) }, fmt: None, sec: None, algo: 0, seg: false, desc: String::new() };
    // reading compressed sections: the window of the codec
    let codec = |comp: bool| if comp { 12 * MB } else { 3 * MB / 2 };
    let mut it = patches.iter().zip(&costs).rev();
    let ((p, comp), cost) = it.next().unwrap();
    let (r, peak, _) = measure(|| merge_start(p));
    let Ok(mut e) = r else { return Ok(()) };
    let mut w = merge_start(p).map_or(0, weight);
    let mut judge = |ctx: &mut Ctx, key, what: &str, peak: usize, allow: usize| -> R {
        ctx.max(key, peak as u64 * 100 / allow as u64);
        ctx.count("calls_measured", 1);
        ensure!(peak <= allow, &format!("memory:{what}"), "{what} held {peak} bytes at once, allowance {allow} [{}]", ctx.desc);
        Ok(())
    };
    judge(ctx, "max_percent_of_allowance:merger_new", "merger_new", peak, codec(*comp) + 12 * (cost + w))?;
    for ((p, comp), cost) in it {
        let m = match e { End::Done(_) => break, End::More(m) => m };
        let again = m.clone();
        let (r, peak, _) = measure(|| merge_step(m, p));
        let Ok(x) = r else { return Ok(()) };
        let (before, after) = (w, merge_step(again, p).map_or(0, weight));
        // the predecessor's own copies from its output are resolved on the way
        let Ok(own) = merge_start(p) else { return Ok(()) };
        judge(ctx, "max_percent_of_allowance:merge", "merge", peak, codec(*comp) + 12 * (cost + weight(own) + before + after))?;
        (e, w) = (x, after);
    }
    let s = e.summary();
    let r = within(ctx, "max_percent_of_allowance:write", 4 * MB + 6 * w, || s.write(&mut Count(0), o.win, o.fmt, None))?;
    ensure!(r.is_ok(), "write-err", "write: {:?} [{}]", r.err(), ctx.desc);
    let i = rng.below(patches.len());
    let (p, comp) = &patches[i];
    let r = within(ctx, "max_percent_of_allowance:transcode", codec(*comp) + 12 * costs[i], || smdiff_merger::transcoder::transcode(&mut Cursor::new(p), &mut Count(0), o.fmt.unwrap_or_default(), None, o.win.unwrap_or(1 << 24)))?;
    ensure!(r.is_ok(), "transcode-err", "transcode: {:?} [{}]", r.err(), ctx.desc);
    ctx.count("lists_measured", 1);
    Ok(())
}
/// Converting deltas of many windows and of far more output than a section may have.
fn convert(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> R {
    let src = rng.rvec(70_000, 300_000);
    let mut v = vcd::HEADER.to_vec();
    let mut seen = vcd::Seen::default();
    let (adds, nw) = (idx % 2 == 0, rng.range(30, 80));
    let mut total = 0u64;
    let proto: Vec<(Vec<u8>, u64)> = (0..4).map(|_| {
        let ins: Vec<vcd::VI> = (0..rng.range(4, 12)).map(|_| { let l = rng.range(50_000, 70_000); if adds { vcd::VI::Add(rng.vec(l)) } else { let at = rng.range(0, src.len() - l.min(src.len())); vcd::VI::Copy { addr: at as u32, len: l.min(src.len() - at) as u32 } } }).collect();
        let n: u64 = ins.iter().map(|i| match i { vcd::VI::Add(b) => b.len() as u64, vcd::VI::Copy { len, .. } => *len as u64, vcd::VI::Run(_, n) => *n as u64 }).sum();
        let mut w = vec![];
        vcd::window(&mut w, rng, 1, Some((src.len() as u64, 0)), &ins, n, |i, _| match i { vcd::VI::Add(b) => b.len() as u32, vcd::VI::Copy { len, .. } => *len, vcd::VI::Run(_, n) => *n }, &mut seen);
        (w, n)
    }).collect();
    let mut count = 0;
    while count < nw || total < if adds { 60 << 20 } else { 500 << 20 } { let (w, n) = rng.pick(&proto); v.extend_from_slice(w); total += n; count += 1; }
    ctx.desc = format!("converting {count} windows of {} to {total}B, delta {}B", if adds { "adds" } else { "copies" }, v.len());
    ctx.signs(&ctx.desc.clone());
    ctx.nontrivial = true;
    // the operations (and add bytes) of a section, twice (of more than 60 MB, or of 500 MB of copies)
    let allow = 4 * MB + if adds { 36 * MB } else { 0 };
    let mut sink = Count(0);
    let r = within(ctx, if adds { "max_percent_of_allowance:convert_adds" } else { "max_percent_of_allowance:convert_copies" }, allow, || smdiff_vcdiff::convert_vcdiff_to_smdiff(Cursor::new(&v), &mut sink))?;
    ensure!(r.is_ok(), "convert-err", "convert: {:?} [{}]", r.err(), ctx.desc);
    ctx.count("conversions_measured", 1);
    Ok(())
}
pub fn scens() -> Vec<Scen> {
    vec![
        Scen { name: "settings", weight: 20, min: (3_000, 60_000), cpu_limit: 90, run: settings },
        Scen { name: "stream", weight: 4, min: (60, 2_000), cpu_limit: 120, run: stream },
        Scen { name: "lists", weight: 10, min: (600, 20_000), cpu_limit: 90, run: lists },
        Scen { name: "convert", weight: 1, min: (10, 200), cpu_limit: 120, run: convert },
    ]
}
