//! P07: a merged chain of patches equals applying them one after the other.
use super::util::*;
use crate::mon::{Ctx, R};
use crate::refm::{self, ROp};
use crate::rng::Rng;
use crate::{ensure, ok, Scen};

fn chain(ctx: &mut Ctx, rng: &mut Rng, links: usize, max: usize) -> R {
    let h = history(rng, links, max)?;
    judge(ctx, rng, &h, max)
}
fn judge(ctx: &mut Ctx, rng: &mut Rng, h: &History, max: usize) -> R {
    let links = h.patches.len();
    ctx.desc = format!("{links} links:{}", h.desc);
    for p in &h.patches { ctx.sign(p); }
    ctx.sign(&h.files[0]);
    for (i, p) in h.patches.iter().enumerate() { ctx.blob(&format!("patch{i}"), p); }
    ctx.blob("v0", &h.files[0]);
    ctx.nontrivial = !h.files.last().unwrap().is_empty();
    // the chain applied in order, by the library
    let mut cur = h.files[0].clone();
    for (i, p) in h.patches.iter().enumerate() {
        cur = ok!(apply(p, Some(&cur)), "apply-err", "patch {i} [{}]", ctx.desc);
        ensure!(cur == h.files[i + 1], "chain", "version {}: {} [{}]", i + 1, diff_at(&cur, &h.files[i + 1]), ctx.desc);
    }
    let mut e = ok!(merge_start(&h.patches[links - 1]), "merge-err", "Merger::new [{}]", ctx.desc);
    let mut at = links - 1;
    while at > 0 {
        match e {
            End::More(m) => { at -= 1; e = ok!(merge_step(m, &h.patches[at]), "merge-err", "merging patch {at} [{}]", ctx.desc); ctx.count("merges", 1); }
            End::Done(_) => { ctx.count("ended_early", 1); break }
        }
    }
    let done = e.done();
    ctx.max("max_links_merged", (links - at) as u64);
    let s = e.summary();
    let o = out_opts(rng, max);
    ctx.signs(&o.desc);
    if rng.pct(30) {
        let ops: Vec<_> = s.take_ops().iter().map(refm::from_op).collect();
        let mut out = vec![];
        crate::refm::apply_ops(&ops, if done { &[] } else { &h.files[0] }, &mut out, CAP).map_err(|e| crate::mon::Viol::new("ops-illegal", format!("take_ops: {e} [{}]", ctx.desc)))?;
        ensure!(out == cur, "ops", "merged operations: {} [{}]", diff_at(&out, &cur), ctx.desc);
        ctx.count("op_lists_judged", 1);
        return Ok(());
    }
    let b = ok!(write_summary(s, &o), "write-err", "{} [{}]", o.desc, ctx.desc);
    ctx.blob("merged", &b);
    let src = if done { if rng.pct(50) { None } else { Some(&h.files[0][..]) } } else { Some(&h.files[0][..]) };
    let got = ok!(apply(&b, src), "merged-apply-err", "{} [{}]", o.desc, ctx.desc);
    ensure!(got == cur, "merged", "{}: {} [{}]", o.desc, diff_at(&got, &cur), ctx.desc);
    ctx.count("merged_patches_judged", 1);
    Ok(())
}
fn short(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { let n = rng.range(2, 3); chain(ctx, rng, n, 800) }
fn long(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { let n = rng.range(4, 10); chain(ctx, rng, n, 600) }
fn big(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { let n = rng.range(2, 4); chain(ctx, rng, n, 200_000) }
/// small edits on a text-like file, so copies survive the whole chain
fn edits(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let n = rng.range(200, 5000);
    let mut files = vec![crate::gen::content(rng, n)];
    let (mut patches, mut desc) = (vec![], String::from(" edits"));
    for _ in 0..rng.range(2, 9) {
        let prev = files.last().unwrap().clone();
        let mut t = prev.clone();
        for _ in 0..rng.range(1, 4) {
            let p = rng.below(t.len() + 1);
            match rng.below(4) {
                0 => { let b = rng.rvec(0, 60); t.splice(p..p, b); }
                1 => { let e = (p + rng.below(60)).min(t.len()); t.drain(p..e); }
                2 => { let e = (p + rng.below(200)).min(t.len()); let x = t[p..e].to_vec(); let q = rng.below(t.len() + 1); t.splice(q..q, x); }
                _ => { let e = (p + rng.below(70)).min(t.len()); let b = rng.byte(); t[p..e].fill(b); }
            }
        }
        let c = crate::gen::config(rng, 5000);
        patches.push(ok!(encode(Some(&prev), &t, &c.cfg), "encode-err", "encode"));
        desc += &format!(":{}", t.len());
        files.push(t);
    }
    judge(ctx, rng, &History { files, patches, desc }, 5000)
}
/// copies that straddle operation boundaries of the predecessor, by construction
fn seams(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let n = rng.range(1, 500);
    let mut files = vec![rng.vec(n)];
    let (mut patches, mut desc) = (vec![], String::from(" seams"));
    for i in 0..rng.range(2, 6) {
        let prev = files.last().unwrap().clone();
        let mut out = vec![];
        let k = rng.range(1, 25);
        let kinds: &[u8] = if i == 0 { &[0, 1, 2, 3] } else { &[0, 0, 0, 1, 1, 2, 3] };
        let max_op = *rng.pick(&[20usize, 70, 400]);
        let ops = refm::ops_of_kinds(rng, &prev, &mut out, k, max_op, kinds);
        patches.push(refm::pack(rng, &ops, true));
        desc += &format!(":{}ops/{}B", ops.len(), out.len());
        files.push(out);
    }
    judge(ctx, rng, &History { files, patches, desc }, 2000)
}
/// patches of thousands of small operations in the chain
fn many(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let n = rng.lrange(1, 60_000);
    let mut files = vec![crate::gen::content(rng, n)];
    let (mut patches, mut desc) = (vec![], String::from(" many"));
    for _ in 0..rng.range(2, 3) {
        let prev = files.last().unwrap().clone();
        let k = rng.lrange(40, 9_000);
        let (p, secs, t) = refm::many_patch(rng, &prev, k, true);
        desc += &format!(":{}ops/{}B", secs.iter().map(|s| s.0.len()).sum::<usize>(), t.len());
        patches.push(p);
        files.push(t);
    }
    judge(ctx, rng, &History { files, patches, desc }, 300_000)
}
/// patches of thousands of sections in the chain
fn sections(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let n = rng.lrange(1, 5_000);
    let mut files = vec![crate::gen::content(rng, n)];
    let (mut patches, mut desc) = (vec![], String::from(" sections"));
    for _ in 0..2 {
        let prev = files.last().unwrap().clone();
        let k = if rng.pct(15) { 1 } else { refm::multi_count(rng, 70_000) };
        let (p, _, t) = if k == 1 { refm::many_patch(rng, &prev, 3000, true) } else { refm::multi_patch(rng, &prev, k, true) };
        desc += &format!(":{k}secs/{}B", t.len());
        ctx.max("max_sections_in_a_patch", k as u64);
        patches.push(p);
        files.push(t);
    }
    judge(ctx, rng, &History { files, patches, desc }, 300_000)
}
/// outputs of several sections of the largest size
fn huge(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let n = rng.lrange(1, 3_000_000);
    let mut files = vec![rng.vec(n)];
    let (mut patches, mut desc) = (vec![], String::from(" huge"));
    for i in 0..2 {
        let prev = files.last().unwrap().clone();
        let total = if i == 1 || rng.pct(40) { rng.range(16_000_000, 36_000_000) } else { rng.lrange(1000, 3_000_000) };
        let (p, ops, t) = refm::bulk_patch(rng, &prev, total, true);
        desc += &format!(":{}ops/{}B", ops.len(), t.len());
        patches.push(p);
        files.push(t);
    }
    judge(ctx, rng, &History { files, patches, desc }, 300_000)
}
/// a predecessor with an output of more than 4 GiB and source addresses of 62 bits: the merged operations are compared as operations
fn far(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let (before, ops, pos) = refm::far_patch(rng);
    let st = refm::starts(&ops);
    let (mut last, mut l) = (vec![], 0u64);
    for _ in 0..rng.range(20, 200) {
        let n = 1 + rng.below64(65535);
        let a = match rng.below(5) { 0 => pos - n, 1 => (1u64 << 32).saturating_sub(rng.below64(n + 2)), 2 => (st[rng.below(st.len())] + rng.below64(3)).saturating_sub(1).min(pos - n), _ => rng.below64(pos - n + 1) };
        last.push(match rng.below(8) { 0 if l > 0 => { let n = n.min(l); ROp::O { addr: rng.below64(l - n + 1), len: n as u16 } } 1 => ROp::Add(rng.vec(30)), _ => ROp::D { addr: a, len: n as u16 } });
        l += last.last().unwrap().len();
    }
    if l > refm::MAX_OUT { return Ok(()); }
    let pl = refm::pack(rng, &last, false);
    ctx.desc = format!("{} operations on an output of {pos}B, merged with {} operations", ops.len(), last.len());
    ctx.sign(&before); ctx.sign(&pl);
    ctx.nontrivial = true;
    // what it should be: the last patch's own copies resolved, then every source copy replaced by what the first patch does there
    let (mut own, mut want) = (vec![], vec![]);
    refm::resolve(&last, &refm::starts(&last), 0, l, &mut own);
    for o in own { match o { ROp::D { addr, len } => refm::resolve(&ops, &st, addr, addr + len as u64, &mut want), o => want.push(o) } }
    let e = ok!(merge_start(&pl), "merge-err", "Merger::new [{}]", ctx.desc);
    let End::More(m) = e else { return Ok(()) };
    let e = ok!(merge_step(m, &before), "merge-err", "merge [{}]", ctx.desc);
    ensure!(e.done() != want.iter().any(|o| o.kind() == 0), "variant", "finished: {} [{}]", e.done(), ctx.desc);
    let s = e.summary();
    let got: Vec<ROp> = if rng.pct(50) { s.take_ops().iter().map(refm::from_op).collect() } else { let o = out_opts(rng, 300_000); let b = ok!(write_summary(s, &o), "write-err", "{}", o.desc); let m = parse("merged", &b)?; m.secs.into_iter().flat_map(|s| s.ops).collect() };
    // a written patch may copy from its own output again
    let (mut flat, gs) = (vec![], refm::starts(&got));
    let gl: u64 = got.iter().map(|o| o.len()).sum();
    ensure!(gl == l, "length", "the merged operations produce {gl} bytes instead of {l} [{}]", ctx.desc);
    refm::resolve(&got, &gs, 0, gl, &mut flat);
    let (g, w) = (refm::pieces(flat), refm::pieces(want));
    ensure!(g == w, "ops", "merged operations differ: piece {:?} [{}]", g.iter().zip(&w).position(|(a, b)| a != b), ctx.desc);
    ctx.max("max_predecessor_output", pos);
    ctx.count("far_merges", 1);
    Ok(())
}
pub fn scens() -> Vec<Scen> {
    vec![
        Scen { name: "short", weight: 20, min: (4_000, 80_000), cpu_limit: 60, run: short },
        Scen { name: "long", weight: 15, min: (1_500, 30_000), cpu_limit: 60, run: long },
        Scen { name: "edits", weight: 15, min: (800, 20_000), cpu_limit: 60, run: edits },
        Scen { name: "seams", weight: 30, min: (6_000, 100_000), cpu_limit: 60, run: seams },
        Scen { name: "sections", weight: 1, min: (24, 400), cpu_limit: 300, run: sections },
        Scen { name: "huge", weight: 0, min: (16, 200), cpu_limit: 300, run: huge },
        Scen { name: "far", weight: 0, min: (80, 1500), cpu_limit: 300, run: far },
        Scen { name: "many", weight: 1, min: (16, 300), cpu_limit: 300, run: many },
        Scen { name: "big", weight: 1, min: (24, 500), cpu_limit: 300, run: big },
    ]
}
