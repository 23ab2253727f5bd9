//! P02: everything the four producers emit conforms to the published format.
use super::util::*;
use crate::gen;
use crate::mon::{Ctx, R};
use crate::rng::Rng;
use crate::{ensure, ok, refm, vcd, Scen};

fn enc_case(ctx: &mut Ctx, rng: &mut Rng, p: &gen::Pair, c: &gen::Cfg) -> R {
    describe(ctx, p, c);
    ctx.nontrivial = true;
    let src = if p.src.is_empty() && rng.pct(50) { None } else { Some(&p.src[..]) };
    let b = ok!(encode(src, &p.trgt, &c.cfg), "encode-err", "encode [{}]", ctx.desc);
    ctx.blob("patch", &b);
    // judged by what the configuration was asked for, not by what its fields say
    conforms(ctx, "encoder", &b, &p.src, &p.trgt, c.seg, c.comp, limit(c.win))?;
    if c.nosrc {
        let m = refm::parse(&b).map_err(|e| crate::mon::Viol::new("format", format!("{e}")))?;
        ensure!(!m.secs.iter().any(|s| s.ops.iter().any(|o| o.kind() == 0)), "source-copy", "source matching is off, but the patch copies from the source [{}]", ctx.desc);
        ctx.count("without_source_matching", 1);
    }
    ctx.count("from_encoder", 1);
    Ok(())
}
fn enc_tiny(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { let p = gen::pair(rng, 60); let c = gen::config(rng, 60); enc_case(ctx, rng, &p, &c) }
fn enc_small(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { let p = gen::pair(rng, 1500); let c = gen::config(rng, 1500); enc_case(ctx, rng, &p, &c) }
fn enc_big(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { let p = if rng.pct(50) { gen::pair_big_ops(rng) } else { gen::pair(rng, 300_000) }; let c = gen::config_large(rng); enc_case(ctx, rng, &p, &c) }
/// targets around and above the largest section
fn enc_huge(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> R {
    let n = [(1usize << 24) - 1, 1 << 24, (1 << 24) + 65535, (1 << 25) + 70_000, (1 << 24) - 65535][idx as usize % 5];
    let src = rng.vec(200_000);
    let trgt = match idx % 3 { 0 => rng.vec(n), 1 => { let mut t = src.clone(); while t.len() < n { let l = rng.range(1000, 65535); let a = rng.below(src.len() - l); t.extend_from_slice(&src[a..a + l]); t.push(rng.byte()); } t.truncate(n); t } _ => { let mut t = rng.vec(n / 3); t.resize(n, 9); t } };
    let mut c = gen::config_large(rng);
    if rng.pct(50) { let z = *rng.pick(&[usize::MAX, (1 << 24) - 1, 1 << 24]); c.cfg = c.cfg.set_output_segment_size(z); c.win = Some(z); }
    enc_case(ctx, rng, &gen::Pair { src, trgt, tag: "bigops" }, &c)
}
fn merge_case(ctx: &mut Ctx, rng: &mut Rng, links: usize, max: usize) -> R {
    let h = history(rng, links, max)?;
    let o = out_opts(rng, max);
    ctx.desc = format!("merge{} {}", h.desc, o.desc);
    for p in &h.patches { ctx.sign(p); }
    ctx.signs(&o.desc);
    ctx.nontrivial = true;
    let mut e = ok!(merge_start(h.patches.last().unwrap()), "merge-err", "Merger::new [{}]", ctx.desc);
    let mut base = h.patches.len() - 1;
    let stop = if rng.pct(30) { rng.below(links) } else { 0 };
    while base > stop { match e { End::More(m) => { base -= 1; e = ok!(merge_step(m, &h.patches[base]), "merge-err", "merge [{}]", ctx.desc); } End::Done(_) => break } }
    let b = ok!(write_summary(e.summary(), &o), "write-err", "write summary [{}]", ctx.desc);
    ctx.blob("patch", &b);
    conforms(ctx, "merger", &b, &h.files[base], h.files.last().unwrap(), o.seg, o.algo, limit(o.win))?;
    ctx.count("from_merger", 1);
    Ok(())
}
fn merged(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { let n = rng.range(1, 4); merge_case(ctx, rng, n, 1200) }
fn merged_big(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { let n = rng.range(1, 3); merge_case(ctx, rng, n, 150_000) }
fn trans_case(ctx: &mut Ctx, rng: &mut Rng, max: usize) -> R {
    let n = gen::len(rng, max);
    let src = gen::content(rng, n);
    let (p, secs, t) = refm::random_patch(rng, &src, max, true, &[1, 2, 3]);
    let o = out_opts(rng, max);
    ctx.desc = format!("transcode {} sections {} bytes -> {}", secs.len(), t.len(), o.desc);
    ctx.sign(&p); ctx.signs(&o.desc);
    ctx.nontrivial = true;
    let b = ok!(transcode(&p, &o), "transcode-err", "transcode [{}]", ctx.desc);
    ctx.blob("patch", &b);
    conforms(ctx, "transcoder", &b, &src, &t, o.seg, o.algo, limit(o.win))?;
    ctx.count("from_transcoder", 1);
    Ok(())
}
fn trans(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { trans_case(ctx, rng, 1500) }
fn trans_big(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { trans_case(ctx, rng, 300_000) }
fn conv(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let n = gen::len(rng, 3000);
    let src = gen::content(rng, n);
    let mut seen = vcd::Seen::default();
    let sh = vcd::Shape { windows: rng.range(1, 4), insts: 30, max_inst: if rng.pct(5) { 200_000 } else { 2000 }, max_win: 300_000, periodic: false };
    let (v, t) = vcd::random(rng, &src, sh, &mut seen);
    ctx.desc = format!("vcdiff {} windows -> {} bytes", sh.windows, t.len());
    ctx.sign(&v);
    ctx.nontrivial = true;
    let b = ok!(convert(&v), "convert-err", "convert [{}]", ctx.desc);
    ctx.blob("vcdiff", &v); ctx.blob("patch", &b);
    conforms(ctx, "vcdiff converter", &b, &src, &t, false, 0, refm::MAX_OUT)?;
    ctx.count("from_converter", 1);
    Ok(())
}
/// producer output concatenated: the second patch starts where the first one's terminal section ends
fn two(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let (p, q) = (gen::pair(rng, 300), gen::pair(rng, 300));
    let (c, d) = (gen::config(rng, 300), gen::config(rng, 300));
    describe(ctx, &p, &c);
    ctx.signs(&d.desc); ctx.sign(&q.trgt);
    ctx.nontrivial = true;
    let mut b = ok!(encode(Some(&p.src), &p.trgt, &c.cfg), "encode-err", "encode");
    let cut = b.len();
    b.extend(ok!(encode(Some(&q.src), &q.trgt, &d.cfg), "encode-err", "encode"));
    let m = refm::parse(&b).map_err(|e| crate::mon::Viol::new("format", format!("first of two patches: {e}")))?;
    ensure!(m.consumed == cut, "self-delimiting", "a patch of {cut} bytes followed by another one was parsed up to byte {}", m.consumed);
    ctx.count("patches_judged", 1);
    Ok(())
}
pub fn scens() -> Vec<Scen> {
    vec![
        Scen { name: "enc_tiny", weight: 12, min: (6_000, 100_000), cpu_limit: 60, run: enc_tiny },
        Scen { name: "enc_small", weight: 25, min: (5_000, 80_000), cpu_limit: 60, run: enc_small },
        Scen { name: "enc_big", weight: 2, min: (40, 900), cpu_limit: 200, run: enc_big },
        Scen { name: "enc_huge", weight: 0, min: (5, 40), cpu_limit: 300, run: enc_huge },
        Scen { name: "merged", weight: 15, min: (3_000, 50_000), cpu_limit: 60, run: merged },
        Scen { name: "merged_big", weight: 1, min: (16, 300), cpu_limit: 200, run: merged_big },
        Scen { name: "trans", weight: 15, min: (3_000, 50_000), cpu_limit: 60, run: trans },
        Scen { name: "trans_big", weight: 1, min: (24, 400), cpu_limit: 200, run: trans_big },
        Scen { name: "conv", weight: 10, min: (2_000, 40_000), cpu_limit: 60, run: conv },
        Scen { name: "two", weight: 5, min: (1_000, 10_000), cpu_limit: 60, run: two },
    ]
}
