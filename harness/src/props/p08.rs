//! P08: a merge reports itself finished exactly when the merged operations no longer copy from a source.
use super::util::*;
use crate::mon::{Ctx, R};
use crate::refm::{self, ROp, B};
use crate::rng::Rng;
use crate::{ensure, ok, Scen};

/// Follows every byte of the final file back to the version the merge has reached.
fn follow(fin: &[B], prev: &[B]) -> Vec<B> { fin.iter().map(|b| if let B::Src(a) = b { prev[*a as usize] } else { *b }).collect() }

fn run(ctx: &mut Ctx, rng: &mut Rng, files: &[Vec<u8>], lists: &[Vec<ROp>], patches: &[Vec<u8>]) -> R {
    let n = patches.len();
    for p in patches { ctx.sign(p); }
    for (i, p) in patches.iter().enumerate() { ctx.blob(&format!("patch{i}"), p); }
    let fin = files.last().unwrap();
    ctx.nontrivial = true;
    let mut org = refm::origins(&lists[n - 1]);
    let mut at = n - 1;
    let mut e = ok!(merge_start(&patches[at]), "merge-err", "Merger::new [{}]", ctx.desc);
    loop {
        let needs = org.iter().any(|b| matches!(b, B::Src(_)));
        ensure!(e.done() != needs, "variant", "after merging patches {at}..{n} the result {} a source, but {} was returned [{}]", if needs { "still needs" } else { "no longer needs" }, if e.done() { "a finished summary" } else { "a merger" }, ctx.desc);
        ctx.count(if needs { "mergers_returned" } else { "summaries_returned" }, 1);
        match e {
            End::Done(s) => {
                let o = out_opts(rng, 1000);
                let list: Vec<ROp> = if rng.pct(50) { s.take_ops().iter().map(refm::from_op).collect() } else {
                    let b = ok!(write_summary(s, &o), "write-err", "{} [{}]", o.desc, ctx.desc);
                    let got = ok!(apply(&b, None), "summary-apply", "a finished summary applied without a source, {} [{}]", o.desc, ctx.desc);
                    ensure!(got == *fin, "summary", "{} [{}]", diff_at(&got, fin), ctx.desc);
                    return Ok(());
                };
                ensure!(!list.iter().any(|o| o.kind() == 0), "summary-copies", "a finished summary copies from a source: {} [{}]", refm::show(&list), ctx.desc);
                let mut out = vec![];
                refm::apply_ops(&list, &[], &mut out, CAP).map_err(|e| crate::mon::Viol::new("summary-illegal", format!("{e} [{}]", ctx.desc)))?;
                ensure!(out == *fin, "summary", "{} [{}]", diff_at(&out, fin), ctx.desc);
                return Ok(());
            }
            End::More(m) => {
                // stopping here gives the final file from this version
                let o = out_opts(rng, 1000);
                let b = ok!(write_summary(m.clone().finish(), &o), "write-err", "{} [{}]", o.desc, ctx.desc);
                let got = ok!(apply(&b, Some(&files[at])), "stop-apply", "stopped at version {at}, {} [{}]", o.desc, ctx.desc);
                ensure!(got == *fin, "stop", "stopped at version {at}: {} [{}]", diff_at(&got, fin), ctx.desc);
                ctx.count("stops_judged", 1);
                if at == 0 { return Ok(()); }
                at -= 1;
                org = follow(&org, &refm::origins(&lists[at]));
                e = ok!(merge_step(m, &patches[at]), "merge-err", "merging patch {at} [{}]", ctx.desc);
            }
        }
    }
}
fn built(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let n = rng.range(0, 400);
    let mut files = vec![rng.vec(n)];
    let (mut lists, mut patches) = (vec![], vec![]);
    let links = rng.range(1, 6);
    let mut desc = String::new();
    for _ in 0..links {
        let prev = files.last().unwrap().clone();
        let mut out = vec![];
        let kinds: &[u8] = *rng.pick(&[&[2u8, 3][..], &[1, 2][..], &[1, 3][..], &[0][..], &[0, 2, 3][..], &[0, 1][..], &[0, 1, 2, 3][..], &[1, 2, 2, 2, 2, 2, 2, 0][..], &[2][..], &[3][..]]);
        let k = if rng.pct(7) { 0 } else { rng.lrange(1, 12) };
        let max_op = *rng.pick(&[4usize, 40, 300]);
        let ops = refm::ops_of_kinds(rng, &prev, &mut out, k, max_op, kinds);
        desc += &format!(" {kinds:?}x{k}");
        patches.push(refm::pack(rng, &ops, true));
        lists.push(ops);
        files.push(out);
    }
    ctx.desc = format!("built chain{desc}");
    run(ctx, rng, &files, &lists, &patches)
}
/// patches made by the encoder; what they copy is read with the independent parser
fn encoded(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let h = { let l = rng.range(1, 5); history(rng, l, 600)? };
    let mut lists = vec![];
    for p in &h.patches { lists.push(refm::parse(p).map_err(|e| crate::mon::Viol::new("format", e))?.secs.into_iter().flat_map(|s| s.ops).collect::<Vec<_>>()); }
    ctx.desc = h.desc.clone();
    run(ctx, rng, &h.files, &lists, &h.patches)
}
/// Many operations of which one or none copies from a source, each aimed at the edges of what the predecessor copies.
fn needle(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let n = rng.range(1, 5000);
    let mut files = vec![rng.vec(n)];
    let (mut lists, mut patches): (Vec<Vec<ROp>>, Vec<Vec<u8>>) = (vec![], vec![]);
    let mut desc = String::new();
    let mut marks: Vec<(u64, u64)> = vec![];
    for _ in 0..rng.range(2, 5) {
        let prev = files.last().unwrap().clone();
        let (mut ops, mut out): (Vec<ROp>, Vec<u8>) = (vec![], vec![]);
        let count = rng.lrange(1, 4000);
        let small = *rng.pick(&[1usize, 4, 60, 2000]);
        let mut at: Vec<usize> = (0..rng.below(4)).map(|_| match rng.below(4) { 0 => 0, 1 => count, _ => rng.below(count + 1) }).collect();
        at.sort();
        let mut next = vec![];
        for j in 0..=count {
            while at.first() == Some(&j) {
                at.remove(0);
                if prev.is_empty() { continue; }
                let len = prev.len() as u64;
                // before, on or over the edge of a mark
                let (a, b) = match (rng.below(5), marks.is_empty()) {
                    (0, _) | (_, true) => { let a = rng.below64(len); (a, a + 1 + rng.below64(40)) }
                    (k, _) => { let (s, e) = *rng.pick(&marks); let l = 1 + rng.below64(30); match k { 1 => (s.saturating_sub(l), s), 2 => (e, e + l), 3 => { let d = rng.below64(2); (s.saturating_sub(l), s + d) } _ => (e - rng.below64(2).min(e), e + l) } }
                };
                let b = b.min(len).min(a + 65535);
                if a >= b { continue; }
                next.push((out.len() as u64, out.len() as u64 + b - a));
                let op = ROp::D { addr: a, len: (b - a) as u16 };
                refm::apply_ops(std::slice::from_ref(&op), &prev, &mut out, CAP).unwrap();
                ops.push(op);
            }
            if j == count || out.len() > 1_500_000 { break; }
            let l = rng.range(1, small);
            let op = match rng.below(4) { 0 if !out.is_empty() && next.iter().all(|m: &(u64, u64)| m.1 < out.len() as u64) => { let l = l.min(out.len()); let from = if rng.pct(30) { 0 } else { next.last().map_or(0, |m| m.1 as usize) }; let l = l.min(out.len() - from); ROp::O { addr: rng.range(from, out.len() - l) as u64, len: l as u16 } } 1 => ROp::Run { byte: rng.byte(), len: l.min(62) as u8 }, _ => ROp::Add(rng.vec(l)) };
            refm::apply_ops(std::slice::from_ref(&op), &prev, &mut out, CAP).unwrap();
            ops.push(op);
        }
        desc += &format!(" {}ops({} from the source)/{}B", ops.len(), next.len(), out.len());
        patches.push(refm::pack(rng, &ops, true));
        lists.push(ops);
        files.push(out);
        marks = next;
    }
    ctx.desc = format!("needles{desc}");
    run(ctx, rng, &files, &lists, &patches)
}
/// chains of dozens of links that keep needing their source, or stop needing it at some link
fn long(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let n = rng.range(50, 3000);
    let mut files = vec![rng.vec(n)];
    let (mut lists, mut patches) = (vec![], vec![]);
    let links = rng.range(8, 48);
    let last = if rng.pct(50) { links } else { rng.below(links) };
    for i in 0..links {
        let prev = files.last().unwrap().clone();
        let mut out = vec![];
        let kinds: &[u8] = if i == last { &[1, 2, 3] } else { &[0, 0, 0, 0, 0, 1, 2] };
        let ops = { let k = rng.range(3, 14); refm::ops_of_kinds(rng, &prev, &mut out, k, 400, kinds) };
        patches.push(refm::pack(rng, &ops, true));
        lists.push(ops);
        files.push(out);
    }
    ctx.desc = format!("a chain of {links} links, the source-free one is {last}");
    ctx.max("max_links", links as u64);
    run(ctx, rng, &files, &lists, &patches)
}
/// sections of the largest size; the only copy from the source may stand in the last of them
fn huge(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let n = rng.lrange(1, 500_000);
    let mut files = vec![rng.vec(n)];
    let (mut lists, mut patches) = (vec![], vec![]);
    let mut desc = String::new();
    for i in 0..2 {
        let prev = files.last().unwrap().clone();
        let total = if i == 1 { rng.range(17_000_000, 21_000_000) } else { rng.lrange(1000, 1_000_000) };
        let from: &[u8] = if rng.pct(70) { &[] } else { &prev };
        let (mut p, mut ops, mut out) = refm::bulk_patch(rng, from, total, true);
        if rng.pct(50) {
            // a copy at the very end
            let len = rng.range(1, prev.len().min(300));
            let op = ROp::D { addr: rng.range(0, prev.len() - len) as u64, len: len as u16 };
            refm::apply_ops(std::slice::from_ref(&op), &prev, &mut out, CAP).unwrap();
            ops.push(op);
            let (mut a, mut room, mut from) = (vec![], refm::MAX_OUT, 0);
            for (j, o) in ops.iter().enumerate() { if o.len() > room { refm::build_section(&mut a, rng, &ops[from..j], 0, j % 2 == 0, true, false); from = j; room = refm::MAX_OUT; } room -= o.len(); }
            { let seg = rng.pct(50); refm::build_section(&mut a, rng, &ops[from..], 0, seg, false, false) };
            p = a;
        }
        desc += &format!(" {}ops/{}B", ops.len(), out.len());
        patches.push(p); lists.push(ops); files.push(out);
    }
    ctx.desc = format!("huge{desc}");
    run(ctx, rng, &files, &lists, &patches)
}
/// Patches whose copies add up to, or count, exactly a number next to the edge of an integer size.
fn totals(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> R {
    let d = rng.below(3) as u64;
    let d = if d == 2 || rng.pct(60) { 0 } else { 1 - 2 * d as i64 };
    // (bytes to copy, or number of copies)
    let (bytes, count) = match idx % 8 { 0 | 1 => (1i64 << 32, 0), 2 => (1 << 33, 0), 3 => (1 << 31, 0), 4 => (1 << *rng.pick(&[8u32, 15, 16, 24]), 0), 5 => (0, 1i64 << 16), 6 => (0, 1 << *rng.pick(&[8u32, 15, 17])), _ => (rng.lrange(1, 1 << 27) as i64, 0) };
    let (mut left, mut n) = ((bytes + d).max(1) as u64, (count + d).max(1) as u64);
    let max = if count > 0 { *rng.pick(&[1u64, 9]) } else { 65535 };
    let rest = rng.below(3); // 0: all from the source, 1: all but the first from the output, 2: mixed
    let other = if rng.pct(50) { 0 } else { rng.below(40) };
    let mut ops: Vec<ROp> = vec![];
    let mut want: Vec<(u64, Option<u64>, u64)> = vec![]; // output position, source address of the bytes there, length
    let mut pos = 0u64;
    let a0 = rng.below64(1 << 40);
    while if count > 0 { n > 0 } else { left > 0 } {
        let l = if count > 0 { 1 + rng.below64(max) } else if left > 65535 { 65535 } else { left };
        let first = want.is_empty();
        let op = if first || rest == 0 || rest == 2 && rng.pct(50) { let a = if first { a0 } else { rng.below64(1 << 40) }; want.push((pos, Some(a), l)); ROp::D { addr: a, len: l as u16 } }
            else { let l0 = want[0].2; let l2 = l.min(l0); want.push((pos, Some(a0), l2)); ROp::O { addr: 0, len: l2 as u16 } };
        let l = op.len();
        pos += l; left = left.saturating_sub(l); n = n.saturating_sub(1);
        ops.push(op);
        if ops.len() < 2 * other && rng.pct(50) { let l = rng.range(1, 62); want.push((pos, None, l as u64)); ops.push(ROp::Run { byte: 3, len: l as u8 }); pos += l as u64; }
    }
    let mut p = vec![];
    let (mut from, mut room) = (0, refm::MAX_OUT);
    for (j, o) in ops.iter().enumerate() { if o.len() > room { refm::build_section(&mut p, rng, &ops[from..j], 0, j % 2 == 0, true, false); from = j; room = refm::MAX_OUT; } room -= o.len(); }
    refm::build_section(&mut p, rng, &ops[from..], 0, true, false, false);
    let copied: u64 = ops.iter().filter(|o| o.kind() < 2).map(|o| o.len()).sum();
    ctx.desc = format!("{} operations, {} copies of {copied} bytes together, {} of them from the source", ops.len(), ops.iter().filter(|o| o.kind() < 2).count(), ops.iter().filter(|o| o.kind() == 0).count());
    ctx.sign(&p); ctx.nontrivial = true;
    ctx.max("max_bytes_copied", copied);
    // contiguous pieces joined, so that the way operations are cut does not matter
    fn joined(v: impl Iterator<Item = (u64, Option<u64>, u64)>) -> Vec<(u64, Option<u64>, u64)> {
        let mut o: Vec<(u64, Option<u64>, u64)> = vec![];
        for (p, a, l) in v { match o.last_mut() { Some(q) if q.0 + q.2 == p && (q.1.is_none() && a.is_none() || q.1.is_some_and(|x| a == Some(x + q.2))) => q.2 += l, _ => o.push((p, a, l)) } }
        o
    }
    let seen = |ops: Vec<smdiff_reader::Op>| -> Result<Vec<(u64, Option<u64>, u64)>, crate::mon::Viol> {
        let (mut v, mut p) = (vec![], 0);
        for o in ops { let o = refm::from_op(&o); let l = o.len(); v.push((p, match o { ROp::D { addr, .. } => Some(addr), ROp::O { .. } => return Err(crate::mon::Viol::new("output-copy", "the merged operations copy from the output".into())), _ => None }, l)); p += l; }
        Ok(joined(v.into_iter()))
    };
    let e = ok!(merge_start(&p), "merge-err", "Merger::new [{}]", ctx.desc);
    ensure!(!e.done(), "variant", "the result still needs a source, but a finished summary was returned [{}]", ctx.desc);
    ctx.count("mergers_returned", 1);
    let got = seen(e.summary().take_ops())?;
    ensure!(got == joined(want.iter().copied()), "operations", "the merged operations take their bytes from other places [{}]", ctx.desc);
    // and as the predecessor of a patch that takes a few stretches of it
    let (mut t, mut w, mut q) = (vec![], vec![], 0u64);
    for _ in 0..rng.range(1, 6) {
        let x = match rng.below(3) { 0 => want[0], 1 => want[want.len() - 1], _ => *rng.pick(&want) };
        let l = 1 + rng.below64(x.2.min(500)); let o = rng.below64(x.2 - l + 1);
        t.push(ROp::D { addr: x.0 + o, len: l as u16 }); w.push((q, x.1.map(|a| a + o), l)); q += l;
    }
    let last = refm::pack(rng, &t, true);
    let End::More(m) = ok!(merge_start(&last), "merge-err", "Merger::new") else { return Err(crate::mon::Viol::new("variant", format!("a patch of copies is finished [{}]", ctx.desc))) };
    let e = ok!(merge_step(m, &p), "merge-err", "merge [{}]", ctx.desc);
    let needs = w.iter().any(|x| x.1.is_some());
    ensure!(e.done() != needs, "variant", "merged with {} the result {} a source, but {} was returned [{}]", refm::show(&t), if needs { "still needs" } else { "no longer needs" }, if e.done() { "a finished summary" } else { "a merger" }, ctx.desc);
    ctx.count(if needs { "mergers_returned" } else { "summaries_returned" }, 1);
    let got = seen(e.summary().take_ops())?;
    ensure!(got == joined(w.into_iter()), "operations", "merged with {} the operations take their bytes from other places [{}]", refm::show(&t), ctx.desc);
    Ok(())
}
pub fn scens() -> Vec<Scen> {
    vec![
        Scen { name: "built", weight: 30, min: (10_000, 200_000), cpu_limit: 60, run: built },
        Scen { name: "needle", weight: 10, min: (1_000, 20_000), cpu_limit: 60, run: needle },
        Scen { name: "long", weight: 6, min: (600, 10_000), cpu_limit: 60, run: long },
        Scen { name: "huge", weight: 0, min: (6, 100), cpu_limit: 300, run: huge },
        Scen { name: "totals", weight: 0, min: (160, 2000), cpu_limit: 120, run: totals },
        Scen { name: "encoded", weight: 10, min: (2_000, 40_000), cpu_limit: 60, run: encoded },
    ]
}
