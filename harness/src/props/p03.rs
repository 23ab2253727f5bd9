//! P03: the decoder applies any valid patch as the format prescribes, and section readers return what was encoded.
use super::util::*;
use crate::iox::{Pattern, VirtSink, VirtSrc};
use crate::mon::{Ctx, R};
use crate::refm::{self, ROp};
use crate::rng::Rng;
use crate::{ensure, gen, ok, Scen};
use std::cell::Cell;
use std::rc::Rc;

fn same_sections(ctx: &mut Ctx, bytes: &[u8], secs: &[(Vec<ROp>, u8, bool)]) -> R {
    for mode in 0..4 {
        // the reader crate's own iterator reads patches without compression
        if mode > 1 && secs.iter().any(|s| s.1 != 0) { break; }
        let got = ok!(if mode < 2 { lib_sections(bytes, mode == 1) } else { plain_sections(bytes, mode == 3) }, "section-err", "reading sections, mode {mode} [{}]", ctx.desc);
        ensure!(got.len() == secs.len(), "section-count", "{} sections read, {} built [{}]", got.len(), secs.len(), ctx.desc);
        for (i, ((ops, h), (want, algo, seg))) in got.iter().zip(secs).enumerate() {
            ensure!(ops == want, "section-ops", "section {i} (algo {algo}, mode {mode}): read {} want {} [{}]", refm::show(ops), refm::show(want), ctx.desc);
            let out: u64 = want.iter().map(|o| o.len()).sum();
            let adds: u64 = want.iter().map(|o| if let ROp::Add(b) = o { b.len() as u64 } else { 0 }).sum();
            ensure!(h.output_size as u64 == out && h.num_operations as usize == want.len() && h.num_add_bytes as u64 == adds && h.format.is_segregated() == *seg && h.compression_algo == *algo && h.more_sections == (i + 1 < secs.len()),
                "section-header", "section {i} header {h:?}, expected out {out} ops {} adds {adds} seg {seg} algo {algo} more {} [{}]", want.len(), i + 1 < secs.len(), ctx.desc);
            ctx.count("sections_read", 1);
        }
    }
    Ok(())
}
fn built(ctx: &mut Ctx, rng: &mut Rng, max: usize, algos: &[u8]) -> R {
    let n = gen::len(rng, max);
    let src = gen::content(rng, n);
    let b = refm::random_patch(rng, &src, max, !algos.is_empty(), algos);
    judge(ctx, rng, &src, b)
}
/// sections of thousands of small operations with a rare large one
fn many(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let n = rng.lrange(1, 200_000);
    let src = gen::content(rng, n);
    let k = if rng.pct(15) { rng.range(70_000, 140_000) } else { rng.lrange(2000, 60_000) };
    let b = refm::many_patch(rng, &src, k, true);
    ctx.max("max_ops_in_a_section", b.1.iter().map(|s| s.0.len()).max().unwrap() as u64);
    judge(ctx, rng, &src, b)
}
/// patches of thousands of sections
fn sections(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let n = rng.lrange(1, 5_000);
    let src = gen::content(rng, n);
    let k = refm::multi_count(rng, 80_000);
    let b = refm::multi_patch(rng, &src, k, true);
    ctx.max("max_sections_in_a_patch", k as u64);
    judge(ctx, rng, &src, b)
}
fn judge(ctx: &mut Ctx, rng: &mut Rng, src: &[u8], (p, secs, t): (Vec<u8>, Vec<(Vec<ROp>, u8, bool)>, Vec<u8>)) -> R {
    ctx.desc = format!("built patch {}B sections {:?} src {}B out {}B", p.len(), secs.iter().take(12).map(|s| (s.0.len(), s.1, s.2)).collect::<Vec<_>>(), src.len(), t.len());
    ctx.sign(&p); ctx.sign(src);
    ctx.blob("patch", &p); ctx.blob("src", src);
    ctx.nontrivial = !t.is_empty();
    let m = refm::parse(&p).map_err(|e| crate::mon::Viol { key: "model".into(), what: e });
    match m { Ok(m) => observe(ctx, &m), Err(e) => panic!("model and builder disagree: {} [{}]", e.what, ctx.desc) }
    let no_d = !secs.iter().any(|s| s.0.iter().any(|o| o.kind() == 0));
    let s = if no_d && rng.pct(30) { None } else { Some(src) };
    let got = ok!(apply(&p, s), "apply-err", "a valid patch was refused [{}]", ctx.desc);
    ensure!(got == t, "apply", "output differs: {} [{}]", diff_at(&got, &t), ctx.desc);
    ctx.count("applied", 1);
    same_sections(ctx, &p, &secs)
}
fn plain(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { built(ctx, rng, 1500, &[]) }
fn comp(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { built(ctx, rng, 1500, &[1, 2, 3]) }
fn big(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { built(ctx, rng, 400_000, &[1, 2, 3]) }
/// zig-zag address patterns: large jumps to and fro, restarting in every section, in both address spaces
fn addresses(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let n = rng.range(300, 70_000);
    let src = rng.vec(n);
    let mut bytes = vec![]; let mut out = vec![]; let mut secs = vec![];
    let ns = rng.range(1, 4);
    for i in 0..ns {
        let mut ops = vec![];
        let mut push = |op: ROp, out: &mut Vec<u8>| { refm::apply_ops(std::slice::from_ref(&op), &src, out, CAP).unwrap(); ops.push(op); };
        if out.is_empty() { let l = rng.range(1, 3000); push(ROp::Add(rng.vec(l)), &mut out); }
        let mut flip = false;
        for _ in 0..rng.range(2, 25) {
            let dict = rng.pct(50);
            let m = if dict { src.len() } else { out.len() };
            let l = rng.lrange(1, m.min(3000));
            let edge = [0, 1, 63, 64, 127, 128, 8191, 8192, 16383];
            let a = if flip { *rng.pick(&edge) } else { (m - l).saturating_sub(*rng.pick(&edge)) }.min(m - l);
            flip = !flip;
            push(if dict { ROp::D { addr: a as u64, len: l as u16 } } else { ROp::O { addr: a as u64, len: l as u16 } }, &mut out);
        }
        let seg = rng.pct(50);
        let algo = if rng.pct(30) { rng.below(4) as u8 } else { 0 };
        refm::build_section(&mut bytes, rng, &ops, algo, seg, i + 1 < ns, true);
        secs.push((ops, algo, seg));
    }
    ctx.desc = format!("addresses {} sections src {}B out {}B", ns, src.len(), out.len());
    ctx.sign(&bytes);
    ctx.nontrivial = true;
    let got = ok!(apply(&bytes, Some(&src)), "apply-err", "a valid patch was refused [{}]", ctx.desc);
    ensure!(got == out, "apply", "output differs: {} [{}]", diff_at(&got, &out), ctx.desc);
    ctx.count("applied", 1);
    same_sections(ctx, &bytes, &secs)
}
/// every size form of every operation kind at every size boundary, one operation at a time
fn forms(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> R {
    let sizes = [1u64, 2, 61, 62, 63, 64, 255, 256, 316, 317, 318, 319, 32767, 32768, 65534, 65535];
    let l = sizes[(idx % 16) as usize];
    let kind = (idx / 16 % 4) as u8;
    let form = (idx / 64 % 3) as u8;
    let seg = idx / 192 % 2 == 1;
    let src = rng.vec(65535 + 10);
    let a = rng.below(11) as u64;
    let legal = match (kind, form) { (3, 0) => l <= 62, (3, _) => false, (_, 0) => l <= 62, (_, 1) => (62..=317).contains(&l), _ => true };
    ctx.desc = format!("form kind {kind} size {l} form {form} seg {seg}");
    ctx.signs(&ctx.desc.clone());
    if !legal { return Ok(()); }
    ctx.nontrivial = true;
    let pre = ROp::Add(rng.vec(65535));
    let op = match kind { 0 => ROp::D { addr: a, len: l as u16 }, 1 => ROp::O { addr: 65535 - l, len: l as u16 }, 2 => ROp::Add(rng.vec(l as usize)), _ => ROp::Run { byte: 7, len: l as u8 } };
    let ops = vec![pre, op.clone(), ROp::Add(vec![1, 2, 3])];
    let mut body = refm::body(&ops[..1], seg, None);
    let mut tail = vec![];
    if seg { tail = body.split_off(3); }
    body.push(kind << 6 | match form { 0 => l as u8, 1 => 63, _ => 0 });
    match form { 0 => {} 1 => body.push((l - 62) as u8), _ => body.extend_from_slice(&(l as u16).to_le_bytes()) }
    match &op { ROp::D { addr, .. } | ROp::O { addr, .. } => refm::put_ivar(&mut body, *addr as i64), ROp::Add(b) => if seg { tail.extend_from_slice(b) } else { body.extend_from_slice(b) }, ROp::Run { byte, .. } => body.push(*byte) }
    body.push(2 << 6 | 3);
    if seg { tail.extend_from_slice(&[1, 2, 3]); } else { body.extend_from_slice(&[1, 2, 3]); }
    body.extend_from_slice(&tail);
    let mut p = vec![];
    let adds: u64 = ops.iter().map(|o| if let ROp::Add(b) = o { b.len() as u64 } else { 0 }).sum();
    refm::header(&mut p, 0, seg, false, 3, adds, ops.iter().map(|o| o.len()).sum());
    p.extend_from_slice(&body);
    let mut want = vec![];
    refm::apply_ops(&ops, &src, &mut want, CAP).unwrap();
    let got = ok!(apply(&p, Some(&src)), "apply-err", "a valid patch was refused [{}]", ctx.desc);
    ensure!(got == want, "apply", "{} [{}]", diff_at(&got, &want), ctx.desc);
    ctx.count("applied", 1);
    ctx.count("size_forms_checked", 1);
    same_sections(ctx, &p, &[(ops, 0, seg)])
}
/// sources of up to 2^63 bytes, addressed at random and at the edges of 32 and 63 bits
fn virt_src(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let pat = Rc::new(Pattern::new(rng));
    let len = match rng.below(3) { 0 => 1u64 << 33, 1 => 1 << 40, _ => (1 << 63) - 1 };
    let (mut bytes, mut want, mut shown) = (vec![], vec![], vec![]);
    let ns = rng.range(1, 3);
    for i in 0..ns {
        let mut ops = vec![];
        for _ in 0..rng.range(1, 12) {
            let l = gen::len(rng, 65535).max(1);
            let max = len - l as u64;
            let a = match rng.below(6) { 0 => max, 1 => (1u64 << 32) - rng.below(3) as u64, 2 => (1u64 << 31) + rng.below(3) as u64 - 1, 3 => 0, _ => rng.ulog() % (max + 1) };
            want.extend_from_slice(pat.slice(a, l));
            ops.push(ROp::D { addr: a, len: l as u16 });
        }
        shown.push(refm::show(&ops));
        let seg = rng.pct(50); let algo = rng.below(4) as u8;
        refm::build_section(&mut bytes, rng, &ops, algo, seg, i + 1 < ns, true);
    }
    ctx.desc = format!("virtual source of {len} bytes: {}", shown.join(" | "));
    ctx.sign(&bytes);
    ctx.nontrivial = true;
    let mut src = VirtSrc { pat, len, pos: 0 };
    let mut sink = std::io::Cursor::new(vec![]);
    ok!(smdiff_decoder::apply_patch(&mut std::io::Cursor::new(&bytes), Some(&mut src), &mut sink), "apply-err", "a valid patch was refused [{}]", ctx.desc);
    ensure!(sink.get_ref() == &want, "apply", "{} [{}]", diff_at(sink.get_ref(), &want), ctx.desc);
    ctx.count("virtual_sources", 1);
    Ok(())
}
/// outputs beyond 4 GiB, with copies from output positions below and above 4 GiB
fn virt_out(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let pat = Rc::new(Pattern::new(rng));
    let total = (1u64 << 32) + 40_000_000;
    let (mut bytes, mut pos) = (vec![], 0u64);
    // expected output: the pattern, except that the tail repeats earlier stretches
    let mut spots: Vec<(u64, u64, u64)> = vec![]; // (start, len, pattern offset)
    let mut nsec = 0;
    while pos < total {
        let mut ops = vec![]; let mut left = 16_777_215u64;
        while left >= 65535 && pos < total {
            ops.push(ROp::D { addr: pos, len: 65535 });
            pos += 65535; left -= 65535;
        }
        if pos >= total { // final section: copies across the 32-bit boundary
            if left < 65535 * 8 { refm::build_section(&mut bytes, rng, &ops, 0, true, true, false); nsec += 1; ops = vec![]; }
            for a in [0u64, (1 << 32) - 5, 1 << 32, (1 << 32) + 7, pos - 65535, (1 << 31) - 3] {
                let l = rng.range(1, 65535) as u64;
                let a = a.min(pos - l);
                ops.push(ROp::O { addr: a, len: l as u16 });
                let off = spots.iter().find(|s| s.0 <= a && a + l <= s.0 + s.1).map(|s| s.2 + (a - s.0));
                let straddles = spots.iter().any(|s| a < s.0 + s.1 && a + l > s.0) && off.is_none();
                if straddles { ops.pop(); continue; }
                spots.push((pos, l, off.unwrap_or(a)));
                pos += l;
            }
            refm::build_section(&mut bytes, rng, &ops, 0, false, false, false);
        } else { refm::build_section(&mut bytes, rng, &ops, 0, true, true, false); }
        nsec += 1;
    }
    ctx.desc = format!("output of {pos} bytes in {nsec} sections; copies {spots:?}");
    ctx.sign(&bytes);
    ctx.nontrivial = true;
    let bad = Rc::new(Cell::new(None));
    let (p2, sp) = (pat.clone(), spots.clone());
    let base_end = sp.first().map(|s| s.0).unwrap_or(pos);
    let expect = move |at: u64, n: usize| -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        let mut q = at;
        while v.len() < n {
            let rem = n - v.len();
            if q < base_end { let k = rem.min((base_end - q) as usize).min(Pattern::MAX); v.extend_from_slice(p2.slice(q, k)); q += k as u64; }
            else if let Some(s) = sp.iter().find(|s| q >= s.0 && q < s.0 + s.1) { let k = rem.min((s.0 + s.1 - q) as usize).min(Pattern::MAX); v.extend_from_slice(p2.slice(s.2 + (q - s.0), k)); q += k as u64; }
            else { v.push(0xEE); q += 1; }
        }
        v
    };
    let mut sink = VirtSink { expect: Box::new(expect), pos: 0, len: 0, bad: bad.clone(), writes: 0 };
    let mut src = VirtSrc { pat, len: u64::MAX >> 1, pos: 0 };
    ok!(smdiff_decoder::apply_patch(&mut std::io::Cursor::new(&bytes), Some(&mut src), &mut sink), "apply-err", "a valid patch was refused [{}]", ctx.desc);
    ensure!(bad.get().is_none(), "apply", "wrong bytes written at output position {:?} [{}]", bad.get(), ctx.desc);
    ensure!(sink.len == pos, "apply-len", "{} bytes written, {} expected", sink.len, pos);
    ctx.count("virtual_outputs", 1);
    ctx.max("max_output_bytes", pos);
    Ok(())
}
/// the sink may hold older, longer contents, and neither it nor the source need be at its start
fn stale_sink(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let n = gen::len(rng, 400);
    let src = gen::content(rng, n);
    let (p, _, t) = refm::random_patch(rng, &src, 600, true, &[1, 2, 3]);
    let old = rng.rvec(0, 1500);
    ctx.desc = format!("stale sink of {} bytes, output {} bytes", old.len(), t.len());
    ctx.sign(&p); ctx.sign(&old);
    ctx.nontrivial = !old.is_empty() && !t.is_empty();
    // both start where they were last used: at the front, in the middle, at or behind the end
    let at = |rng: &mut Rng, n: usize| match rng.below(4) { 0 => 0, 1 => n as u64, 2 => (n + rng.below(50)) as u64, _ => rng.below(n + 1) as u64 };
    let mut sink = std::io::Cursor::new(old.clone());
    sink.set_position(at(rng, old.len()));
    let mut from = std::io::Cursor::new(&src);
    from.set_position(at(rng, src.len()));
    ok!(smdiff_decoder::apply_patch(&mut std::io::Cursor::new(&p), Some(&mut from), &mut sink), "apply-err", "a valid patch was refused [{}]", ctx.desc);
    let got = sink.into_inner();
    ensure!(got.len() == t.len().max(old.len()) && got[..t.len()] == t[..], "apply", "{} [{}]", diff_at(&got[..t.len().min(got.len())], &t), ctx.desc);
    ensure!(got[t.len()..] == old[t.len().min(old.len())..], "beyond", "bytes past the output were changed");
    ctx.count("applied", 1);
    Ok(())
}
pub fn scens() -> Vec<Scen> {
    vec![
        Scen { name: "plain", weight: 30, min: (10_000, 200_000), cpu_limit: 60, run: plain },
        Scen { name: "comp", weight: 30, min: (6_000, 100_000), cpu_limit: 60, run: comp },
        Scen { name: "addresses", weight: 15, min: (2_000, 40_000), cpu_limit: 60, run: addresses },
        Scen { name: "forms", weight: 2, min: (384, 3840), cpu_limit: 60, run: forms },
        Scen { name: "stale_sink", weight: 5, min: (1_000, 10_000), cpu_limit: 60, run: stale_sink },
        Scen { name: "many", weight: 1, min: (40, 800), cpu_limit: 200, run: many },
        Scen { name: "sections", weight: 1, min: (60, 1200), cpu_limit: 200, run: sections },
        Scen { name: "big", weight: 2, min: (40, 1500), cpu_limit: 200, run: big },
        Scen { name: "virt_src", weight: 2, min: (60, 2000), cpu_limit: 120, run: virt_src },
        Scen { name: "virt_out", weight: 0, min: (2, 16), cpu_limit: 400, run: virt_out },
    ]
}
