//! P22: transcoding compacts a patch the way it documents.
use super::util::*;
use crate::mon::{Ctx, R};
use crate::refm::{self, ROp};
use crate::rng::Rng;
use crate::{ensure, gen, ok, Scen};

/// A stretch of neighbouring additions, a stretch of neighbouring runs of one byte, or a copy: where its output starts and ends, its first operation.
struct Stretch { start: u64, end: u64, first: ROp, ops: usize }
fn stretches(ops: &[ROp]) -> Vec<Stretch> {
    let mut v: Vec<Stretch> = vec![];
    let mut pos = 0;
    for o in ops {
        let end = pos + o.len();
        let joins = match (v.last().map(|s| &s.first), o) { (Some(ROp::Add(_)), ROp::Add(_)) => true, (Some(ROp::Run { byte: a, .. }), ROp::Run { byte: b, .. }) => a == b, _ => false };
        if joins { let s = v.last_mut().unwrap(); s.end = end; s.ops += 1; } else { v.push(Stretch { start: pos, end, first: o.clone(), ops: 1 }); }
        pos = end;
    }
    v
}
/// additions and runs in long rows, between copies
pub fn rows(rng: &mut Rng, src: &[u8], longest: usize, total: usize) -> (Vec<ROp>, Vec<u8>) {
    let (mut ops, mut out) = (vec![], vec![]);
    for _ in 0..rng.range(1, 9) {
        if out.len() > total { break; }
        let n = if rng.pct(40) { rng.range(1, 4) } else { rng.lrange(1, longest) };
        let k = rng.below(10);
        let at = ops.len();
        match k {
            0..=3 => {
                let m = *rng.pick(&[1usize, 2, 9, 70, 300, 3000, 40_000, 65_535]);
                let m = m.min(total / n + 1).min(65_535);
                let fixed = rng.pct(40);
                for _ in 0..n { let l = if fixed { m } else { rng.range(1, m) }; let b = if rng.pct(10) { vec![7; l] } else { rng.vec(l) }; ops.push(ROp::Add(b)); }
            }
            4..=7 => {
                let (b, full) = (rng.byte() & 3, rng.pct(50));
                for _ in 0..n { ops.push(ROp::Run { byte: b, len: if full { 62 } else { rng.range(1, 62) as u8 } }); }
                if rng.pct(40) { let c = rng.byte() & 3; for _ in 0..rng.range(1, n) { ops.push(ROp::Run { byte: c, len: rng.range(1, 62) as u8 }); } }
            }
            8 => for _ in 0..n.min(6) { ops.extend(refm::ops_of_kinds(rng, src, &mut out.clone(), 1, 900, &[0, 1])); },
            _ => for _ in 0..n.min(20) { if rng.pct(50) { ops.push(ROp::Run { byte: rng.byte() & 1, len: rng.range(1, 62) as u8 }); } else { let l = rng.range(1, 3); ops.push(ROp::Add(rng.vec(l))); } },
        }
        refm::apply_ops(&ops[at..], src, &mut out, usize::MAX).unwrap();
    }
    (ops, out)
}
fn judge(ctx: &mut Ctx, rng: &mut Rng, src: &[u8], ops: &[ROp], t: &[u8], p: &[u8]) -> R {
    let o = out_opts(rng, t.len().max(7000));
    ctx.desc = format!("{} operations, {} bytes, {} {}", ops.len(), t.len(), refm::show(ops).chars().take(160).collect::<String>(), o.desc);
    ctx.sign(p); ctx.signs(&o.desc);
    ctx.blob("patch", p);
    ctx.nontrivial = !ops.is_empty();
    let b = ok!(transcode(p, &o), "transcode-err", "[{}]", ctx.desc);
    let m = conforms(ctx, "transcoded patch", &b, src, t, o.seg, o.algo, limit(o.win))?;
    let got: Vec<ROp> = m.secs.into_iter().flat_map(|s| s.ops).collect();
    ensure!(got.len() <= ops.len(), "more-operations", "{} operations became {} [{}]", ops.len(), got.len(), ctx.desc);
    // what of the result lies in which stretch of the original
    let mut at = 0;
    let mut pos = 0u64;
    for s in stretches(ops) {
        let from = at;
        while at < got.len() && pos < s.end { pos += got[at].len(); at += 1; }
        ensure!(pos == s.end, "across", "an operation of the result crosses output position {}, where a {} ends [{}]", s.end, ["source copy", "output copy", "row of additions", "row of runs"][s.first.kind() as usize], ctx.desc);
        let (g, l) = (&got[from..at], s.end - s.start);
        match s.first {
            ROp::Add(_) => {
                let most = l.div_ceil(65_535);
                ensure!(g.len() as u64 <= most, "additions", "{} neighbouring additions of {l} bytes at {} became {} operations, {most} are enough [{}]", s.ops, s.start, g.len(), ctx.desc);
                if s.ops > 2 { ctx.count("rows_of_additions", 1); }
                ctx.max("max_additions_in_a_row", s.ops as u64);
            }
            ROp::Run { byte, .. } => {
                let most = if l < 372 { l.div_ceil(62) } else { 14 + l.div_ceil(65_535) };
                ensure!(g.len() as u64 <= most, "runs", "{} neighbouring runs of {l} times byte {byte} at {} became {} operations, {most} are enough [{}]", s.ops, s.start, g.len(), ctx.desc);
                if s.ops > 2 { ctx.count("rows_of_runs", 1); }
                if l >= 372 { ctx.count("rows_of_runs_long_enough_for_copies", 1); }
                ctx.max("max_runs_in_a_row", s.ops as u64);
            }
            _ => { ensure!(g.len() == 1 && g[0] == s.first, "copy", "copy {} at {} became {} [{}]", refm::show(std::slice::from_ref(&s.first)), s.start, refm::show(g), ctx.desc); ctx.count("copies_kept", 1); }
        }
    }
    ensure!(at == got.len(), "more", "the result goes on after the end [{}]", ctx.desc);
    ctx.count("compacted", 1);
    Ok(())
}
fn case(ctx: &mut Ctx, rng: &mut Rng, longest: usize, total: usize) -> R {
    let n = rng.range(1, 2000);
    let src = gen::content(rng, n);
    let (ops, t) = rows(rng, &src, longest, total);
    let p = pack(rng, &ops, t.len());
    judge(ctx, rng, &src, &ops, &t, &p)
}
/// the operations in sections cut anywhere, also within a row; no section larger than allowed
pub fn pack(rng: &mut Rng, ops: &[ROp], len: usize) -> Vec<u8> {
    let per = if rng.pct(40) { ops.len() + 1 } else { rng.range(1, ops.len() + 1) };
    let per = per.min(200_000).max(ops.len() / 500);
    let mut secs: Vec<&[ROp]> = vec![];
    for c in ops.chunks(per) {
        let (mut from, mut size) = (0, 0);
        for (i, o) in c.iter().enumerate() { if size + o.len() > refm::MAX_OUT { secs.push(&c[from..i]); from = i; size = 0; } size += o.len(); }
        secs.push(&c[from..]);
    }
    if secs.is_empty() { secs.push(&[]); }
    let mut b = vec![];
    let n = secs.len();
    for (i, s) in secs.into_iter().enumerate() {
        let algo = if len < 3_000_000 && rng.pct(30) { 1 + rng.below(3) as u8 } else { 0 };
        let seg = rng.pct(50);
        refm::build_section(&mut b, rng, s, algo, seg, i + 1 < n, true);
    }
    b
}
fn small(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { case(ctx, rng, 30, 20_000) }
fn long(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { case(ctx, rng, 20_000, 2_000_000) }
/// patches as the writer of the library makes them: merged ones, where operations were cut up
fn merged(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let max = *rng.pick(&[300usize, 5000, 60_000]);
    let k = rng.range(2, 4);
    let h = history(rng, k, max)?;
    let mut e = ok!(merge_start(&h.patches[k - 1]), "merge-err", "{}", h.desc);
    for i in (0..k - 1).rev() { if let End::More(m) = e { e = ok!(merge_step(m, &h.patches[i]), "merge-err", "{}", h.desc); } }
    let p = ok!(write_summary(e.summary(), &out_opts(rng, max)), "write-err", "{}", h.desc);
    let m = parse("merged patch", &p)?;
    let ops: Vec<ROp> = m.secs.into_iter().flat_map(|s| s.ops).collect();
    let mut t = vec![];
    refm::apply_ops(&ops, &h.files[0], &mut t, usize::MAX).unwrap_or_else(|e| panic!("{e}"));
    judge(ctx, rng, &h.files[0], &ops, &t, &p)
}
pub fn scens() -> Vec<Scen> {
    vec![
        Scen { name: "small", weight: 20, min: (4_000, 80_000), cpu_limit: 60, run: small },
        Scen { name: "long", weight: 8, min: (200, 4_000), cpu_limit: 120, run: long },
        Scen { name: "merged", weight: 8, min: (400, 10_000), cpu_limit: 120, run: merged },
    ]
}
