//! P17: extraction, statistics, range lookup, slicing and the resolution of output copies, against a byte-origin model.
use super::util::*;
use crate::mon::{Ctx, Viol, R};
use crate::refm::{self, ROp, B};
use crate::rng::Rng;
use crate::{ensure, gen, ok, viol, Scen};
use smdiff_merger::{deref_copy_o, extract_patch_instructions, find_controlling_op, get_exact_slice, MergeOp, SparseOp, Stats};
use std::io::Cursor;

fn stats_of(ops: &[ROp]) -> Stats {
    let mut s = Stats::default();
    for o in ops { let l = o.len() as usize; s.output_size += l; match o { ROp::D { .. } => { s.copy_bytes += l; s.copy_d_cnt += 1 } ROp::O { .. } => { s.copy_bytes += l; s.copy_o_cnt += 1 } ROp::Add(_) => { s.add_bytes += l; s.add_cnt += 1 } ROp::Run { .. } => { s.run_bytes += l; s.run_cnt += 1 } } }
    s
}
/// The listed operations and positions are those of the patch, and the statistics count each once.
fn check_extract(ctx: &mut Ctx, patch: &[u8], want: &[ROp]) -> Result<Vec<SparseOp>, Viol> {
    let e = |k: &str, m: String| Viol::new(k, m);
    let (ops, st) = extract_patch_instructions(Cursor::new(patch)).map_err(|x| e("extract-err", format!("extract: {x} [{}]", ctx.desc)))?;
    let got: Vec<ROp> = ops.iter().map(|x| refm::from_op(&x.1)).collect();
    if got != want { return Err(e("extract-ops", format!("extracted {} operations, the patch has {}: {} / {} [{}]", got.len(), want.len(), refm::show(&got), refm::show(want), ctx.desc))); }
    let mut at = 0u64;
    for (i, (p, o)) in ops.iter().zip(want).enumerate() { if p.0 != at { return Err(e("extract-pos", format!("operation {i} is listed at {} but its bytes begin at {at} [{}]", p.0, ctx.desc))); } at += o.len(); }
    let w = stats_of(want);
    if st != w { return Err(e("stats", format!("statistics {st:?}, the operations say {w:?} [{}]", ctx.desc))); }
    if st.has_copy() != want.iter().any(|o| o.kind() < 2) { return Err(e("has-copy", format!("has_copy() = {} [{}]", st.has_copy(), ctx.desc))); }
    ctx.count("patches_extracted", 1);
    ctx.count("operations_extracted", want.len() as u64);
    Ok(ops)
}
/// The piece of an operation list covering [a, b), by the model.
fn clip(ops: &[ROp], a: u64, b: u64) -> Vec<(u64, ROp)> {
    let (mut at, mut v) = (0u64, vec![]);
    for o in ops {
        let (s, e) = (at.max(a), (at + o.len()).min(b));
        if s < e { let (k, l) = (s - at, e - s); v.push((s, match o { ROp::D { addr, .. } => ROp::D { addr: addr + k, len: l as u16 }, ROp::O { addr, .. } => ROp::O { addr: addr + k, len: l as u16 }, ROp::Add(x) => ROp::Add(x[k as usize..(k + l) as usize].to_vec()), ROp::Run { byte, .. } => ROp::Run { byte: *byte, len: l as u8 } })); }
        at += o.len();
        if at >= b { break; }
    }
    v
}
fn check_slice(ctx: &mut Ctx, sp: &[SparseOp], ops: &[ROp], total: u64, a: u64, len: u32) -> R {
    ctx.count("ranges_sliced", 1);
    let got = get_exact_slice(sp, a, len);
    let covered = a.checked_add(len as u64).map(|e| e <= total).unwrap_or(false);
    match got {
        None => ensure!(!covered, "slice-missing", "bytes {a}+{len} of {total} are covered but no slice is returned: {} [{}]", refm::show(ops), ctx.desc),
        Some(s) => {
            ensure!(covered, "slice-phantom", "bytes {a}+{len} of {total} are not all covered but a slice of {} operations is returned: {} [{}]", s.len(), refm::show(ops), ctx.desc);
            let mut at = a;
            for (p, o) in &s { ensure!(*p == at, "slice-pos", "slice {a}+{len}: an operation is listed at {p}, its bytes begin at {at}: {} [{}]", refm::show(ops), ctx.desc); at += o.oal() as u64; }
            let got: Vec<ROp> = s.iter().map(|x| refm::from_op(&x.1)).collect();
            let want: Vec<ROp> = clip(ops, a, a + len as u64).into_iter().map(|x| x.1).collect();
            // one operation per piece is not demanded, only the same bytes
            if got != want { ensure!(refm::bytes_of(&got) == refm::bytes_of(&want), "slice-bytes", "slice {a}+{len} describes {} instead of {} in {} [{}]", refm::show(&got), refm::show(&want), refm::show(ops), ctx.desc); }
        }
    }
    Ok(())
}
fn check_lookup(ctx: &mut Ctx, sp: &[SparseOp], ops: &[ROp], total: u64, pos: u64) -> R {
    ctx.count("positions_looked_up", 1);
    match find_controlling_op(sp, pos) {
        Some(i) => { ensure!(i < sp.len(), "lookup", "position {pos}: index {i} of {}", sp.len()); let (s, l) = (sp[i].0, ops[i].len()); ensure!(pos < total && s <= pos && pos < s + l, "lookup", "position {pos} of {total} is given to operation {i} at {s}+{l} [{}]", ctx.desc) }
        None => ensure!(pos >= total, "lookup-missing", "position {pos} of {total} has no controlling operation [{}]", ctx.desc),
    }
    Ok(())
}
fn with_pos(ops: &[ROp]) -> Vec<SparseOp> { let mut at = 0; ops.iter().map(|o| { let p = at; at += o.len(); (p, refm::to_op(o)) }).collect() }
fn check_deref(ctx: &mut Ctx, sp: Vec<SparseOp>, ops: &[ROp]) -> R {
    let d = deref_copy_o(sp);
    let got: Vec<ROp> = d.iter().map(|x| refm::from_op(&x.1)).collect();
    ensure!(got.iter().all(|o| o.kind() != 1), "deref-kind", "an output copy is left after resolving: {} [{}]", refm::show(&got), ctx.desc);
    ensure!(got.iter().all(|o| o.len() > 0), "deref-empty", "an empty operation after resolving: {} [{}]", refm::show(&got), ctx.desc);
    let mut at = 0;
    for (i, (p, _)) in d.iter().enumerate() { ensure!(*p == at, "deref-pos", "resolved operation {i} is listed at {p}, its bytes begin at {at} [{}]", ctx.desc); at += got[i].len(); }
    let (g, w) = (refm::bytes_of(&got), refm::origins(ops));
    if g != w { let i = g.iter().zip(&w).position(|(x, y)| x != y); viol!("deref-bytes", "resolved list describes other bytes: byte {i:?} is {:?} instead of {:?}, lengths {}/{}: {} -> {} [{}]", i.map(|i| g[i]), i.map(|i| w[i]), g.len(), w.len(), refm::show(ops), refm::show(&got), ctx.desc) }
    ctx.count("lists_resolved", 1);
    if ops.iter().any(|o| o.kind() == 1) { ctx.count("lists_with_output_copies_resolved", 1); }
    Ok(())
}
fn whole(ctx: &mut Ctx, rng: &mut Rng, patch: &[u8], want: &[ROp], ranges: usize) -> R {
    let sp = check_extract(ctx, patch, want)?;
    let total: u64 = want.iter().map(|o| o.len()).sum();
    // boundaries of operations are where lookups and slices go wrong
    let cut = |rng: &mut Rng| -> u64 { if sp.is_empty() || rng.pct(30) { rng.below64(total + 3) } else { let i = rng.below(sp.len()); let p = sp[i].0 + if rng.pct(30) { want[i].len() } else { 0 }; (p + rng.below64(3)).saturating_sub(1) } };
    for _ in 0..ranges {
        let (a, b) = (cut(rng), cut(rng));
        let (a, b) = (a.min(b), a.max(b));
        check_lookup(ctx, &sp, want, total, a)?;
        let l = (b - a).clamp(1, u32::MAX as u64) as u32;
        check_slice(ctx, &sp, want, total, a, l)?;
    }
    for p in [0, total.saturating_sub(1), total, total + 1, u64::MAX] { check_lookup(ctx, &sp, want, total, p)?; }
    for (a, l) in [(0, total.clamp(1, 1 << 31) as u32), (0, total.clamp(1, 1 << 31) as u32 + 1), (total, 1), (total.saturating_sub(1), 1), (total.saturating_sub(1), 2), (u64::MAX, 1), (0, u32::MAX), (total / 2, u32::MAX)] { if total > 0 || a > 0 { check_slice(ctx, &sp, want, total, a, l)?; } }
    check_deref(ctx, sp, want)
}
fn built(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let max = *rng.pick(&[30usize, 300, 3000]);
    let n = gen::len(rng, max);
    let src = gen::content(rng, n);
    let (patch, secs, t) = refm::random_patch(rng, &src, max, true, &[1, 2, 3]);
    let ops: Vec<ROp> = secs.into_iter().flat_map(|s| s.0).collect();
    ctx.desc = format!("built patch, {} operations, output {}B", ops.len(), t.len());
    ctx.sign(&patch);
    ctx.nontrivial = !ops.is_empty();
    ctx.blob("patch", &patch);
    whole(ctx, rng, &patch, &ops, 40)
}
/// patches of thousands of sections, and sections of thousands of operations
fn sections(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> R {
    let n = rng.lrange(1, 5_000);
    let src = gen::content(rng, n);
    let k = refm::multi_count(rng, 70_000);
    let (patch, secs, t) = if idx % 3 < 2 { refm::multi_patch(rng, &src, k, true) } else { refm::many_patch(rng, &src, k.max(2000), true) };
    ctx.max("max_sections_in_a_patch", secs.len() as u64);
    let ops: Vec<ROp> = secs.into_iter().flat_map(|s| s.0).collect();
    ctx.desc = format!("{k} sections or operations, {} operations, output {}B", ops.len(), t.len());
    ctx.sign(&patch);
    ctx.nontrivial = !ops.is_empty();
    ctx.blob("patch", &patch);
    whole(ctx, rng, &patch, &ops, 40)
}
fn encoded(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let max = *rng.pick(&[300usize, 3000, 100_000]);
    let p = gen::pair(rng, max);
    let c = gen::config(rng, max);
    describe(ctx, &p, &c);
    let b = ok!(encode(Some(&p.src), &p.trgt, &c.cfg), "encode-err", "encode [{}]", ctx.desc);
    ctx.blob("patch", &b);
    ctx.nontrivial = !p.trgt.is_empty();
    let model = parse("encoder", &b)?;
    let ops: Vec<ROp> = model.secs.into_iter().flat_map(|s| s.ops).collect();
    whole(ctx, rng, &b, &ops, 25)
}
/// every position and every range of a short list
fn exhaustive(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let srcb = rng.vec(30);
    let mut out = vec![];
    let n = rng.range(1, 8);
    let ops = refm::random_ops(rng, &srcb, &mut out, n, 9, 40);
    let sp = with_pos(&ops);
    let total = out.len() as u64;
    ctx.desc = format!("all ranges of {}", refm::show(&ops));
    ctx.signs(&format!("{ops:?}"));
    ctx.nontrivial = true;
    for a in 0..total + 3 {
        check_lookup(ctx, &sp, &ops, total, a)?;
        for l in 1..total + 4 { check_slice(ctx, &sp, &ops, total, a, l as u32)?; }
    }
    ctx.count("lists_sliced_exhaustively", 1);
    // a list that does not begin at zero: positions before it are not covered
    let base = rng.ulog() >> 1;
    let moved: Vec<SparseOp> = sp.iter().map(|(p, o)| (p + base, o.clone())).collect();
    for a in 0..total + 2 {
        let f = find_controlling_op(&moved, base + a);
        ensure!(f.is_some() == (a < total), "lookup-moved", "list at {base}: position +{a} of {total}: {f:?}");
        for l in 1..total + 3 { let g = get_exact_slice(&moved, base + a, l as u32); let w = get_exact_slice(&sp, a, l as u32);
            ensure!(g.is_some() == w.is_some(), "slice-moved", "list at {base}: slice +{a}+{l} of {total}");
            if let (Some(g), Some(w)) = (g, w) { ensure!(g.len() == w.len() && g.iter().zip(&w).all(|(x, y)| x.0 == y.0 + base && x.1 == y.1), "slice-moved", "list at {base}: slice +{a}+{l} differs from the same slice of the list at 0"); } }
    }
    if base > 0 { ensure!(find_controlling_op(&moved, base - 1).is_none() && get_exact_slice(&moved, base - 1, 1).is_none() && get_exact_slice(&moved, base - 1, 2).is_none(), "lookup-before", "a position before the list is covered"); }
    check_deref(ctx, sp, &ops)
}
/// shortening single operations at both ends
fn clipping(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    ctx.nontrivial = true;
    for _ in 0..30 {
        let l = gen::len(rng, 65535).max(1) as u16;
        let addr = match rng.below(3) { 0 => 0, 1 => rng.ulog() >> 1, _ => u64::MAX - l as u64 };
        let op = match rng.below(4) { 0 => ROp::D { addr, len: l }, 1 => ROp::O { addr, len: l }, 2 => { let n = (l as usize).min(3000); ROp::Add(rng.vec(n)) } _ => ROp::Run { byte: rng.byte(), len: l.min(62) as u8 } };
        let n = op.len();
        let skip = if rng.pct(20) { 0 } else { rng.below64(n) };
        let trunc = if rng.pct(20) { 0 } else { rng.below64(n - skip) };
        ctx.sign(&n.to_le_bytes()); ctx.sign(&skip.to_le_bytes()); ctx.sign(&trunc.to_le_bytes());
        ctx.desc = format!("{} skip {skip} trunc {trunc}", op.short());
        let mut o = refm::to_op(&op);
        if rng.pct(50) { o.skip(skip as u32); o.trunc(trunc as u32) } else { o.trunc(trunc as u32); o.skip(skip as u32) }
        let want = clip(std::slice::from_ref(&op), skip, n - trunc);
        ensure!(refm::from_op(&o) == want[0].1, "clip", "{} becomes {} instead of {}", ctx.desc, refm::from_op(&o).short(), want[0].1.short());
        ctx.count("operations_clipped", 1);
    }
    Ok(())
}
/// chains of output copies of output copies, across sections
fn nested(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let srcb = rng.vec(500);
    let mut out = vec![];
    let n = rng.range(3, 30);
    let mut ops = refm::ops_of_kinds(rng, &srcb, &mut out, 3, 40, &[0, 2, 3]);
    while ops.len() < n && out.len() < 4000 { let k = if rng.pct(75) { vec![1u8] } else { vec![0, 2, 3] }; let m = rng.range(5, 700); ops.extend(refm::ops_of_kinds(rng, &srcb, &mut out, 1, m, &k)); }
    let patch = refm::pack(rng, &ops, true);
    ctx.desc = format!("nested copies: {}", refm::show(&ops));
    ctx.sign(&patch);
    ctx.nontrivial = true;
    ctx.blob("patch", &patch);
    whole(ctx, rng, &patch, &ops, 30)
}
/// outputs beyond 4 GiB: positions are 64 bits wide
fn far(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let (patch, ops, pos) = refm::far_patch(rng);
    ctx.desc = format!("{} operations, output {pos}B", ops.len());
    ctx.sign(&patch);
    ctx.nontrivial = pos > 1 << 32;
    let sp = check_extract(ctx, &patch, &ops)?;
    for _ in 0..120 {
        let i = rng.below(ops.len());
        let a = (sp[i].0 + rng.below64(ops[i].len() + 1)).saturating_sub(1);
        check_lookup(ctx, &sp, &ops, pos, a)?;
        let l = match rng.below(3) { 0 => 1 + rng.below(10), 1 => 1 + rng.below(65535), _ => 1 + rng.below(400_000) };
        check_slice(ctx, &sp, &ops, pos, a, l as u32)?;
    }
    for p in [pos - 1, pos, pos + 1, 1 << 32, (1 << 32) - 1] { check_lookup(ctx, &sp, &ops, pos, p)?; }
    // resolving: sampled stretches against a model that follows the copies down
    fn resolve(ops: &[ROp], a: u64, b: u64, out: &mut Vec<B>) { for (_, o) in clip(ops, a, b) { match o { ROp::O { addr, len } => resolve(ops, addr, addr + len as u64, out), o => out.extend(refm::bytes_of(&[o])) } } }
    let probes: Vec<u64> = (0..40).map(|_| { let i = rng.below(ops.len()); sp[i].0 }).chain(ops.iter().zip(&sp).filter(|x| x.0.kind() == 1).map(|x| x.1 .0).rev().take(40)).collect();
    let d = deref_copy_o(sp);
    let got: Vec<ROp> = d.iter().map(|x| refm::from_op(&x.1)).collect();
    ensure!(got.iter().all(|o| o.kind() != 1 && o.len() > 0), "deref-kind", "an output copy or an empty operation is left after resolving [{}]", ctx.desc);
    let mut at = 0;
    for (i, (p, _)) in d.iter().enumerate() { ensure!(*p == at, "deref-pos", "resolved operation {i} is listed at {p}, its bytes begin at {at} [{}]", ctx.desc); at += got[i].len(); }
    ensure!(at == pos, "deref-length", "the resolved list produces {at} bytes instead of {pos} [{}]", ctx.desc);
    for a in probes {
        let b = (a + 1 + rng.below64(3000)).min(pos);
        let (mut w, g) = (vec![], refm::bytes_of(&clip(&got, a, b).into_iter().map(|x| x.1).collect::<Vec<_>>()));
        resolve(&ops, a, b, &mut w);
        ensure!(g == w, "deref-bytes", "resolved list describes other bytes in {a}..{b} [{}]", ctx.desc);
    }
    ctx.max("max_output_position", pos);
    ctx.count("far_patches", 1);
    let _: Option<B> = None;
    Ok(())
}
/// lists of which operations lie exactly 4 GiB, or a multiple of it, behind others
fn vast(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let n = rng.range(135_000, 280_000);
    let odd = rng.pct(50);
    let ops: Vec<ROp> = (0..n).map(|_| ROp::D { addr: rng.u64() >> rng.range(1, 40), len: if odd && rng.pct(5) { rng.range(1, 65535) as u16 } else { 65535 - odd as u16 * rng.below(2) as u16 } as _ }).collect();
    let sp = with_pos(&ops);
    let total: u64 = ops.iter().map(|o| o.len()).sum();
    ctx.desc = format!("{n} operations, output {total}B");
    ctx.nontrivial = total > 1 << 33;
    ctx.signs(&ctx.desc.clone());
    for i in 0..n {
        let near = sp[i].0 + rng.below64(ops[i].len());
        for d in [1u64 << 32, 1 << 33, 3 << 32] { for p in [sp[i].0 + d, sp[i].0.wrapping_sub(d), near + d, near.wrapping_sub(d)] { if p < total { check_lookup(ctx, &sp, &ops, total, p)?; } } }
    }
    for _ in 0..60 {
        let i = rng.below(n);
        let a = sp[i].0 + rng.below64(ops[i].len());
        check_slice(ctx, &sp, &ops, total, a, rng.lrange(1, 300_000) as u32)?;
    }
    // ranges that are as long as ranges can be
    for l in [u32::MAX, 1 << 31, u32::MAX - 65535] {
        let a = rng.below64(total);
        let got = get_exact_slice(&sp, a, l);
        ensure!(got.is_some() == (a + l as u64 <= total), "slice-long", "bytes {a}+{l} of {total}: {} [{}]", if got.is_some() { "a slice" } else { "no slice" }, ctx.desc);
        if let Some(g) = got {
            let mut at = a;
            for (p, o) in &g { ensure!(*p == at, "slice-pos", "slice {a}+{l}: an operation is listed at {p}, its bytes begin at {at} [{}]", ctx.desc); at += o.oal() as u64; }
            ensure!(at == a + l as u64, "slice-length", "slice {a}+{l} covers {} bytes [{}]", at - a, ctx.desc);
        }
    }
    ctx.max("max_output_position", total);
    ctx.count("vast_lists", 1);
    Ok(())
}
pub fn scens() -> Vec<Scen> {
    vec![
        Scen { name: "built", weight: 20, min: (4_000, 80_000), cpu_limit: 60, run: built },
        Scen { name: "encoded", weight: 10, min: (800, 20_000), cpu_limit: 120, run: encoded },
        Scen { name: "exhaustive", weight: 10, min: (1_500, 30_000), cpu_limit: 60, run: exhaustive },
        Scen { name: "clipping", weight: 5, min: (2_000, 40_000), cpu_limit: 60, run: clipping },
        Scen { name: "nested", weight: 10, min: (2_000, 40_000), cpu_limit: 60, run: nested },
        Scen { name: "sections", weight: 1, min: (45, 800), cpu_limit: 200, run: sections },
        Scen { name: "far", weight: 1, min: (8, 200), cpu_limit: 200, run: far },
        Scen { name: "vast", weight: 1, min: (5, 150), cpu_limit: 200, run: vast },
    ]
}
