//! P09: transcoding keeps the meaning of a patch.
use super::util::*;
use crate::mon::{Ctx, R};
use crate::refm::{self, ROp};
use crate::rng::Rng;
use crate::{ensure, gen, ok, Scen};

/// Source ranges an operation list reads, as disjoint sorted intervals.
fn needs(ops: impl Iterator<Item = ROp>) -> Vec<(u64, u64)> {
    let mut v: Vec<(u64, u64)> = ops.filter_map(|o| if let ROp::D { addr, len } = o { Some((addr, addr + len as u64)) } else { None }).collect();
    v.sort();
    let mut r: Vec<(u64, u64)> = vec![];
    for (a, b) in v { match r.last_mut() { Some(l) if a <= l.1 => l.1 = l.1.max(b), _ => r.push((a, b)) } }
    r
}
fn covered(a: &[(u64, u64)], b: &[(u64, u64)]) -> bool { a.iter().all(|x| b.iter().any(|y| y.0 <= x.0 && x.1 <= y.1)) }

fn judge(ctx: &mut Ctx, rng: &mut Rng, p: &[u8], src: &[u8], t: &[u8], max: usize) -> R {
    ctx.sign(p);
    ctx.blob("patch", p); ctx.blob("src", src);
    ctx.nontrivial = true;
    let orig = refm::parse(p).unwrap_or_else(|e| panic!("model and builder disagree: {e}"));
    let n0 = needs(orig.secs.iter().flat_map(|s| s.ops.clone()));
    let mut cur = p.to_vec();
    for round in 0..rng.range(1, 3) {
        let o = out_opts(rng, max);
        ctx.signs(&o.desc);
        let d = format!("round {round} -> {} [{}]", o.desc, ctx.desc);
        let b = ok!(transcode(&cur, &o), "transcode-err", "{d}");
        ctx.blob("transcoded", &b);
        let m = conforms(ctx, "transcoded patch", &b, src, t, o.seg, o.algo, limit(o.win))?;
        let got = ok!(apply(&b, Some(src)), "apply-err", "{d}");
        ensure!(got == t, "apply", "{}: {d}", diff_at(&got, t));
        let n1 = needs(m.secs.iter().flat_map(|s| s.ops.clone()));
        ensure!(covered(&n1, &n0), "needs-more", "the transcoded patch reads source ranges {n1:?}, the original {n0:?}: {d}");
        if n0.is_empty() { ok!(apply(&b, None), "apply-none", "the original needs no source: {d}"); }
        ctx.count("transcoded", 1);
        if round > 0 { ctx.count("transcoded_again", 1); }
        cur = b;
    }
    Ok(())
}
fn built(ctx: &mut Ctx, rng: &mut Rng, max: usize) -> R {
    let n = gen::len(rng, max);
    let src = gen::content(rng, n);
    let (p, secs, t) = refm::random_patch(rng, &src, max, true, &[1, 2, 3]);
    ctx.desc = format!("{} sections, {} ops, {} bytes", secs.len(), secs.iter().map(|s| s.0.len()).sum::<usize>(), t.len());
    judge(ctx, rng, &p, &src, &t, max)
}
fn small(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { built(ctx, rng, 1200) }
fn large(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { built(ctx, rng, 300_000) }
fn many(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let n = rng.lrange(1, 100_000);
    let src = gen::content(rng, n);
    let k = rng.lrange(2000, 40_000);
    let (p, secs, t) = refm::many_patch(rng, &src, k, true);
    ctx.desc = format!("{} sections, {} ops, {} bytes", secs.len(), secs.iter().map(|s| s.0.len()).sum::<usize>(), t.len());
    judge(ctx, rng, &p, &src, &t, 300_000)
}
/// patches of thousands of sections
fn sections(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let n = rng.lrange(1, 5_000);
    let src = gen::content(rng, n);
    let k = refm::multi_count(rng, 80_000);
    let (p, secs, t) = refm::multi_patch(rng, &src, k, true);
    ctx.desc = format!("{} sections, {} ops, {} bytes", secs.len(), secs.iter().map(|s| s.0.len()).sum::<usize>(), t.len());
    ctx.max("max_sections_in_a_patch", k as u64);
    judge(ctx, rng, &p, &src, &t, 300_000)
}
/// outputs of several sections of the largest size
fn huge(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let n = rng.lrange(1, 2_000_000);
    let src = rng.vec(n);
    let total = rng.range(10_000_000, 36_000_000);
    let (p, ops, t) = refm::bulk_patch(rng, &src, total, true);
    ctx.desc = format!("{} ops, {} bytes", ops.len(), t.len());
    judge(ctx, rng, &p, &src, &t, 300_000)
}
/// source addresses over 63 bits: compared as operations, since no such source can be supplied
fn addresses(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let n = rng.range(1, 60);
    let (mut ops, mut l) = (vec![], 0u64);
    let mut prev = 0u64;
    for _ in 0..n {
        let len = gen::len(rng, 3000).max(1) as u16;
        let top = (1u64 << 63) - 1 - len as u64;
        let op = match rng.below(6) {
            0 if l > 0 => { let len = (len as u64).min(l); ROp::O { addr: rng.below64(l - len + 1), len: len as u16 } }
            1 => { let k = rng.range(1, 70); ROp::Add(rng.vec(k)) }
            2 => ROp::Run { byte: rng.byte() & 1, len: len.min(62) as u8 },
            _ => ROp::D { addr: match rng.below(6) { 0 => top, 1 => 0, 2 => prev, 3 => (1 << 32) - rng.below64(4), 4 => rng.ulog() >> 1, _ => rng.below64(1 << 40) }.min(top), len },
        };
        if let ROp::D { addr, len } = op { prev = addr + len as u64; }
        l += op.len();
        ops.push(op);
    }
    let p = refm::pack(rng, &ops, true);
    ctx.desc = format!("addresses: {}", refm::show(&ops));
    ctx.sign(&p);
    ctx.nontrivial = true;
    ctx.blob("patch", &p);
    let o = out_opts(rng, 6000);
    let b = ok!(transcode(&p, &o), "transcode-err", "{} [{}]", o.desc, ctx.desc);
    let got: Vec<ROp> = parse("transcoded patch", &b)?.secs.into_iter().flat_map(|s| { assert!(s.ops.len() < 1 << 20); s.ops }).collect();
    let flat = |v: &[ROp]| { let mut f = vec![]; refm::resolve(v, &refm::starts(v), 0, v.iter().map(|o| o.len()).sum(), &mut f); refm::pieces(f) };
    let (g, w) = (flat(&got), flat(&ops));
    ensure!(g == w, "ops", "transcoding {} changes piece {:?}: {} [{}]", o.desc, g.iter().zip(&w).position(|(a, b)| a != b), refm::show(&got), ctx.desc);
    ctx.count("far_addresses_transcoded", 1);
    Ok(())
}
/// trains of adjacent adds and of adjacent runs (equal and different bytes), and copies in between
fn trains(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let n = rng.range(1, 300);
    let src = rng.vec(n);
    let (mut ops, mut out) = (vec![], vec![]);
    for _ in 0..rng.range(1, 8) {
        let k = rng.lrange(1, 24);
        let b = rng.byte();
        let kind = rng.below(5);
        for _ in 0..k {
            let op = match kind {
                0 => { let l = *rng.pick(&[1usize, 1, 2, 3, 62, 63]); ROp::Add(rng.vec(l)) }
                1 => { let l = rng.lrange(1, 300); ROp::Add(rng.vec(l)) }
                2 => ROp::Run { byte: b, len: if rng.pct(70) { 62 } else { rng.range(1, 62) as u8 } },
                3 => ROp::Run { byte: b.wrapping_add(rng.below(2) as u8), len: rng.range(1, 62) as u8 },
                _ => { if rng.pct(50) || out.is_empty() { let l = rng.range(1, n); ROp::D { addr: rng.range(0, n - l) as u64, len: l as u16 } } else { let l = rng.range(1, out.len().min(500)); ROp::O { addr: rng.range(0, out.len() - l) as u64, len: l as u16 } } }
            };
            refm::apply_ops(std::slice::from_ref(&op), &src, &mut out, CAP).unwrap();
            ops.push(op);
        }
    }
    let p = refm::pack(rng, &ops, true);
    ctx.desc = format!("trains: {}", refm::show(&ops));
    judge(ctx, rng, &p, &src, &out, 3000)
}
/// adds whose joint length is next to the largest operation
fn big_adds(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let (mut ops, mut out) = (vec![], vec![]);
    for _ in 0..rng.range(1, 7) {
        let l = match rng.below(5) { 0 => 65535, 1 => 65534, 2 => rng.range(1, 3), 3 => 32768, _ => rng.range(1, 65535) };
        ops.push(ROp::Add(rng.vec(l)));
        if rng.pct(15) { ops.push(ROp::Run { byte: 3, len: rng.range(1, 62) as u8 }); }
    }
    refm::apply_ops(&ops, &[], &mut out, CAP).unwrap();
    let p = refm::pack(rng, &ops, rng.clone().pct(30));
    ctx.desc = format!("big adds: {}", refm::show(&ops));
    judge(ctx, rng, &p, &[], &out, 300_000)
}
fn encoded(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let pr = gen::pair(rng, 2000);
    let c = gen::config(rng, 2000);
    describe(ctx, &pr, &c);
    let p = ok!(encode(Some(&pr.src), &pr.trgt, &c.cfg), "encode-err", "encode");
    judge(ctx, rng, &p, &pr.src, &pr.trgt, 2000)
}
/// the public helper that cuts literal bytes into operations
fn add_ops(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let l = match rng.below(4) { 0 => rng.below(4), 1 => 65533 + rng.below(5), 2 => 131_068 + rng.below(5), _ => rng.lrange(0, 400_000) };
    let b = rng.vec(l);
    let mut o = vec![];
    smdiff_merger::transcoder::make_add_ops(b.clone(), &mut o);
    let ops: Vec<ROp> = o.iter().map(refm::from_op).collect();
    let mut out = vec![];
    refm::apply_ops(&ops, &[], &mut out, CAP).map_err(|e| crate::mon::Viol::new("add-ops", e))?;
    ensure!(out == b && ops.iter().all(|x| (1..=65535).contains(&x.len())), "add-ops", "{l} bytes became {}", refm::show(&ops));
    ctx.desc = format!("{l} bytes into add operations");
    ctx.signs(&ctx.desc.clone());
    ctx.nontrivial = true;
    Ok(())
}
/// long rows of additions and runs, which are grouped and written with growing copies
fn rows(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> R {
    let n = rng.range(1, 2000);
    let src = gen::content(rng, n);
    let (longest, total) = if idx % 8 == 0 { (10_000, 700_000) } else { (200, 60_000) };
    let (ops, t) = super::p22::rows(rng, &src, longest, total);
    let p = super::p22::pack(rng, &ops, t.len());
    ctx.desc = format!("rows: {} ops, {} bytes", ops.len(), t.len());
    ctx.count("patches_with_long_rows", 1);
    judge(ctx, rng, &p, &src, &t, t.len().max(7000))
}
/// the same beyond 4 GiB of output
fn far(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let (_, mut ops, pos) = refm::far_patch(rng);
    let src = rng.vec(3000);
    let (tail, _) = super::p22::rows(rng, &src, 500, 100_000);
    // copies from the own output now belong further back; and some of the first stretch as well
    for o in tail { ops.push(match o { ROp::O { addr, len } => ROp::O { addr: pos + addr, len }, o => o }); if rng.pct(2) { let len = 1 + rng.below64(3000); ops.push(ROp::O { addr: match rng.below(3) { 0 => pos - len, 1 => (1u64 << 32) - rng.below64(len + 2), _ => rng.below64(pos - len) }, len: len as u16 }); break; } }
    let end: u64 = ops.iter().map(|o| o.len()).sum();
    let p = super::p22::pack(rng, &ops, usize::MAX);
    let o = out_opts(rng, 300_000);
    ctx.desc = format!("{} operations, {end} bytes, the last {} after a row beyond 4 GiB, {}", ops.len(), end - pos, o.desc);
    ctx.sign(&p);
    ctx.nontrivial = true;
    let b = ok!(transcode(&p, &o), "transcode-err", "[{}]", ctx.desc);
    let got: Vec<ROp> = parse("transcoded patch", &b)?.secs.into_iter().flat_map(|s| s.ops).collect();
    let (gs, ws) = (refm::starts(&got), refm::starts(&ops));
    let gl: u64 = got.iter().map(|o| o.len()).sum();
    ensure!(gl == end, "length", "{gl} bytes instead of {end} [{}]", ctx.desc);
    let mut ranges = vec![(pos - 70_000, end)];
    for _ in 0..30 { let l = 1 + rng.below64(100_000); let a = rng.below64(end - l); ranges.push((a, a + l)); }
    for (a, z) in ranges {
        let (mut g, mut w) = (vec![], vec![]);
        refm::resolve(&got, &gs, a, z, &mut g);
        refm::resolve(&ops, &ws, a, z, &mut w);
        let (g, w) = (refm::pieces(g), refm::pieces(w));
        ensure!(g == w, "ops", "output {a}..{z} is made of something else: piece {:?} [{}]", g.iter().zip(&w).position(|(a, b)| a != b), ctx.desc);
    }
    ctx.max("max_transcoded_output", end);
    ctx.count("far_patches_transcoded", 1);
    Ok(())
}
pub fn scens() -> Vec<Scen> {
    vec![
        Scen { name: "small", weight: 20, min: (4_000, 80_000), cpu_limit: 60, run: small },
        Scen { name: "trains", weight: 30, min: (6_000, 100_000), cpu_limit: 60, run: trains },
        Scen { name: "encoded", weight: 10, min: (2_000, 40_000), cpu_limit: 60, run: encoded },
        Scen { name: "big_adds", weight: 3, min: (200, 3_000), cpu_limit: 100, run: big_adds },
        Scen { name: "large", weight: 1, min: (24, 400), cpu_limit: 300, run: large },
        Scen { name: "many", weight: 1, min: (24, 400), cpu_limit: 300, run: many },
        Scen { name: "sections", weight: 1, min: (32, 600), cpu_limit: 300, run: sections },
        Scen { name: "huge", weight: 0, min: (16, 200), cpu_limit: 300, run: huge },
        Scen { name: "rows", weight: 8, min: (400, 8_000), cpu_limit: 100, run: rows },
        Scen { name: "far", weight: 0, min: (24, 600), cpu_limit: 300, run: far },
        Scen { name: "addresses", weight: 10, min: (2_000, 40_000), cpu_limit: 60, run: addresses },
        Scen { name: "add_ops", weight: 2, min: (400, 4_000), cpu_limit: 60, run: add_ops },
    ]
}
