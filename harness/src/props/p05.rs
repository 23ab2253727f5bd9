//! P05: splitting into sections loses nothing and respects limits; a header that does not describe the operations is refused.
use super::p04::{free_ops, header_of};
use super::util::limit;
use crate::mon::{Ctx, R};
use crate::refm::{self, ROp};
use crate::rng::Rng;
use crate::{ensure, gen, Scen};
use smdiff_common::{Format, MAX_WIN_SIZE};
use smdiff_writer::{make_sections, write_ops, write_section_header};

fn split(ctx: &mut Ctx, rng: &mut Rng, ops: Vec<ROp>) -> R {
    let want_limit = match rng.below(4) { 0 => *rng.pick(gen::SEG), 1 => rng.lrange(0, 1 << 25), _ => rng.range(65_000, 400_000) };
    let lim = limit(Some(want_limit));
    let lops: Vec<_> = ops.iter().map(refm::to_op).collect();
    ctx.desc = format!("{} ops, limit {want_limit}", ops.len());
    ctx.signs(&refm::show(&ops)); ctx.sign(&(want_limit as u64).to_le_bytes()); ctx.sign(&(ops.len() as u64).to_le_bytes());
    ctx.nontrivial = !ops.is_empty();
    let secs = make_sections(&lops, want_limit);
    ensure!(!secs.is_empty(), "no-section", "no section at all for {} ops", ops.len());
    let mut at = 0;
    for (i, (s, h)) in secs.iter().enumerate() {
        let last = i + 1 == secs.len();
        ensure!(at + s.len() <= lops.len() && **s == lops[at..at + s.len()], "ops", "section {i} does not continue the list at operation {at} [{}]", ctx.desc);
        at += s.len();
        let out: u64 = s.iter().map(|o| o.oal() as u64).sum();
        let adds: u64 = s.iter().filter(|o| o.is_add()).map(|o| o.oal() as u64).sum();
        ensure!(out <= lim, "limit", "section {i} produces {out} bytes, limit {lim} [{}]", ctx.desc);
        ensure!(h.num_operations as usize == s.len() && h.output_size as u64 == out && h.num_add_bytes as u64 == adds, "counts", "section {i}: header {h:?}, actual ops {} out {out} adds {adds} [{}]", s.len(), ctx.desc);
        ensure!(h.more_sections != last, "more", "section {i} of {}: continuation {} [{}]", secs.len(), h.more_sections, ctx.desc);
    }
    ensure!(at == lops.len(), "lost", "{at} of {} operations [{}]", lops.len(), ctx.desc);
    ctx.count("splits", 1);
    ctx.count("sections", secs.len() as u64);
    ctx.max("max_sections_in_split", secs.len() as u64);
    if secs.len() > 1 { ctx.max("max_ops_in_a_continued_section", secs[..secs.len() - 1].iter().map(|s| s.0.len()).max().unwrap() as u64); }
    // what comes out can be written and conforms
    if ops.len() < 3000 && rng.pct(30) {
        let seg = rng.pct(50);
        let mut b = vec![];
        for (s, h) in &secs {
            let mut h = *h; h.format = if seg { Format::Segregated } else { Format::Interleaved };
            crate::ok!(write_section_header(&h, &mut b), "write-err", "[{}]", ctx.desc);
            crate::ok!(write_ops(s, &h, &mut b), "write-err", "[{}]", ctx.desc);
        }
        let m = super::util::parse("make_sections + write", &b)?;
        let all: Vec<ROp> = m.secs.into_iter().flat_map(|s| s.ops).collect();
        ensure!(all == ops, "written", "the written sections hold other operations [{}]", ctx.desc);
        ctx.count("splits_written", 1);
    }
    Ok(())
}
fn few(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { let n = rng.below(40); let o = free_ops(rng, n, 65535, usize::MAX); split(ctx, rng, o) }
fn many(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { let big = rng.pct(25); let n = if big { rng.range(70_000, 300_000) } else { rng.range(1000, 40_000) }; let m = if big { *rng.pick(&[1usize, 2, 5, 30]) } else { *rng.pick(&[3usize, 100, 2000]) }; let o = free_ops(rng, n, m, usize::MAX); split(ctx, rng, o) }
/// long stretches of one kind of operation, and lists of one kind only
fn runs(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let mut ops = vec![];
    let (mut out, src) = (vec![], rng.vec(70_000));
    for _ in 0..rng.range(1, 4) {
        let kinds: &[u8] = *rng.pick(&[&[0u8][..], &[1], &[2], &[3], &[2], &[0, 2], &[1, 2], &[0, 1], &[2, 3], &[2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 0]]);
        let n = *rng.pick(&[3usize, 70, 130, 300, 1100]);
        let n = rng.range(n / 2, n);
        let (m, fixed) = (*rng.pick(&[1usize, 60, 800, 5_000, 5_000, 20_000, 65_535]), rng.pct(60));
        if out.is_empty() { out = vec![7; 66_000]; }
        let mut size = 0;
        for _ in 0..n {
            if size > 3_000_000 { break; }
            let l = if fixed { m - rng.below(m / 8 + 1) } else { gen::len(rng, m).max(1) };
            let o = match *rng.pick(kinds) { 0 => ROp::D { addr: rng.range(0, src.len() - l) as u64, len: l as u16 }, 1 => ROp::O { addr: rng.range(0, out.len() - l) as u64, len: l as u16 }, 3 => ROp::Run { byte: rng.byte(), len: l.min(62) as u8 }, _ => ROp::Add(rng.vec(l)) };
            size += o.len() as usize;
            ops.push(o);
        }
    }
    ctx.count("splits_of_long_stretches", 1);
    split(ctx, rng, ops)
}
/// operations that fill the limit exactly, miss it by one, or exceed it by one
fn exact(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let lim = *rng.pick(&[65535u64, 65536, 70_000, 131_070, 16_777_215, 16_777_216, 0, u64::MAX]);
    let l = limit(Some(lim as usize));
    let mut ops = vec![];
    for _ in 0..rng.range(1, 3) {
        let mut left = (l + rng.below(3) as u64).saturating_sub(1);
        while left > 0 { let s = if left > 65535 { if rng.pct(90) { 65535 } else { rng.range(1, 65535) as u64 } } else { left }; let s = s.min(left); ops.push(ROp::D { addr: rng.ulog(), len: s as u16 }); left -= s; }
    }
    let lops: Vec<_> = ops.iter().map(refm::to_op).collect();
    let secs = make_sections(&lops, lim as usize);
    let mut at = 0;
    for (i, (s, h)) in secs.iter().enumerate() {
        let out: u64 = s.iter().map(|o| o.oal() as u64).sum();
        ensure!(**s == lops[at..at + s.len()], "ops", "section {i}");
        at += s.len();
        ensure!(out <= l && h.output_size as u64 == out && h.num_operations as usize == s.len() && h.num_add_bytes == 0 && h.more_sections == (i + 1 < secs.len()), "counts", "limit {lim}: section {i} {h:?} actual {out}");
    }
    ensure!(at == lops.len(), "lost", "{at} of {}", lops.len());
    ctx.desc = format!("limit {lim}, {} ops around it, {} sections", ops.len(), secs.len());
    ctx.signs(&ctx.desc.clone());
    ctx.nontrivial = true;
    ctx.count("splits", 1);
    Ok(())
}
/// headers that do not describe the operations, or operations that cannot be represented
fn refuse(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let n = rng.range(1, 12);
    let mut ops = free_ops(rng, n, 300, 10_000);
    let seg = rng.pct(50);
    let mut h = header_of(&ops, seg, rng.pct(50));
    let k = 1 + rng.lrange(0, 1000) as u32;
    let mut lops: Vec<smdiff_reader::Op> = ops.iter().map(refm::to_op).collect();
    let what = match rng.below(9) {
        0 => { h.num_operations = h.num_operations.wrapping_add(k); "more operations claimed" }
        1 => { h.num_operations -= 1; "fewer operations claimed" }
        2 => { h.output_size += k; "larger output claimed" }
        3 => { h.output_size -= k.min(h.output_size); "smaller output claimed" }
        4 if seg => { h.num_add_bytes += k; if rng.pct(50) { h.output_size += k; } "more add bytes claimed" }
        5 if seg && h.num_add_bytes > 0 => { h.num_add_bytes -= k.min(h.num_add_bytes); "fewer add bytes claimed" }
        6 => { // above the largest section, consistently
            ops.clear(); let mut left = MAX_WIN_SIZE as u64 + k as u64; while left > 0 { let s = left.min(65535); ops.push(ROp::O { addr: 0, len: s as u16 }); left -= s; }
            h = header_of(&ops, seg, false); lops = ops.iter().map(refm::to_op).collect(); "section above the limit" }
        7 => { h.compression_algo = 8 + rng.below(248) as u8; "compression above 7" }
        _ => {
            let at = rng.below(lops.len() + 1);
            let bad: smdiff_reader::Op = match rng.below(6) {
                0 => smdiff_common::Op::Add(smdiff_reader::Add { bytes: vec![] }),
                1 => smdiff_common::Op::Copy(smdiff_common::Copy { src: smdiff_common::CopySrc::Dict, addr: 0, len: 0 }),
                2 => smdiff_common::Op::Run(smdiff_common::Run { byte: 1, len: 0 }),
                3 => smdiff_common::Op::Run(smdiff_common::Run { byte: 1, len: 63 + rng.below(193) as u8 }),
                4 => smdiff_common::Op::Add(smdiff_reader::Add { bytes: vec![1; 65536] }),
                _ => smdiff_common::Op::Add(smdiff_reader::Add { bytes: vec![1; 65536 + rng.lrange(1, 100_000)] }),
            };
            // header consistent with the true sizes, and with what a truncating reader of sizes sees
            let true_len = match &bad { smdiff_common::Op::Add(a) => a.bytes.len() as u32, o => o.oal() as u32 };
            let seen = if rng.pct(50) { true_len } else { bad.oal() as u32 };
            h.num_operations += 1; h.output_size += seen; if bad.is_add() { h.num_add_bytes += seen; }
            lops.insert(at, bad);
            "operation of an illegal size" }
    };
    ctx.desc = format!("{what}: {h:?} for {}", refm::show(&ops));
    ctx.signs(what); ctx.signs(&refm::show(&ops));
    ctx.nontrivial = true;
    let mut b = vec![];
    let r1 = write_section_header(&h, &mut b);
    let r2 = if r1.is_ok() { write_ops(&lops, &h, &mut b) } else { Ok(()) };
    ensure!(r1.is_err() || r2.is_err(), "accepted", "accepted although {what}: {}", ctx.desc);
    let key: &'static str = match what { "more operations claimed" => "refused_more_ops", "fewer operations claimed" => "refused_fewer_ops", "larger output claimed" => "refused_larger_output", "smaller output claimed" => "refused_smaller_output", "more add bytes claimed" => "refused_more_adds", "fewer add bytes claimed" => "refused_fewer_adds", "section above the limit" => "refused_over_limit", "compression above 7" => "refused_algo", _ => "refused_op_size" };
    ctx.count(key, 1);
    Ok(())
}
pub fn scens() -> Vec<Scen> {
    vec![
        Scen { name: "few", weight: 20, min: (3_000, 60_000), cpu_limit: 60, run: few },
        Scen { name: "many", weight: 3, min: (60, 1_500), cpu_limit: 60, run: many },
        Scen { name: "runs", weight: 6, min: (300, 8_000), cpu_limit: 60, run: runs },
        Scen { name: "exact", weight: 10, min: (2_000, 30_000), cpu_limit: 60, run: exact },
        Scen { name: "refuse", weight: 30, min: (20_000, 400_000), cpu_limit: 60, run: refuse },
    ]
}
