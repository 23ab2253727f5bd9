//! P06: secondary compression changes the size of a patch only, and every reader ends up at the next section.
use super::util::*;
use crate::gen::{self, Pair};
use crate::mon::{Ctx, R};
use crate::refm::{self, ROp};
use crate::rng::Rng;
use crate::{ensure, ok, Scen};
use smdiff_common::Format;
use smdiff_encoder::writer::section_writer;

fn with_and_without(ctx: &mut Ctx, rng: &mut Rng, p: &Pair, max: usize) -> R {
    let mut c = gen::config(rng, max);
    c.cfg.sec_comp = None;
    if rng.pct(50) { c.cfg.output_segment_size = 65535; }
    describe(ctx, p, &c);
    ctx.nontrivial = !p.trgt.is_empty();
    let base = ok!(encode(Some(&p.src), &p.trgt, &c.cfg), "encode-err", "encode");
    let want = ok!(lib_sections(&base, true), "section-err", "plain sections [{}]", ctx.desc);
    for _ in 0..3 {
        let (s, sd, algo) = gen::sec_comp(rng, max <= 6000);
        if s.is_none() { continue; }
        c.cfg.sec_comp = s;
        ctx.signs(&sd);
        let z = ok!(encode(Some(&p.src), &p.trgt, &c.cfg), "encode-err", "encode with {sd} [{}]", ctx.desc);
        let got = ok!(lib_sections(&z, rng.pct(50)), "section-err", "{sd} sections [{}]", ctx.desc);
        ensure!(got.len() == want.len(), "count", "{sd}: {} sections, {} uncompressed [{}]", got.len(), want.len(), ctx.desc);
        for (i, ((o, h), (wo, wh))) in got.iter().zip(&want).enumerate() {
            ensure!(o == wo, "ops", "{sd}: section {i} holds {} instead of {} [{}]", refm::show(o), refm::show(wo), ctx.desc);
            let mut h2 = *h; h2.compression_algo = 0;
            ensure!(h2 == *wh && h.compression_algo == algo, "header", "{sd}: section {i} header {h:?} vs {wh:?}");
        }
        let out = ok!(apply(&z, Some(&p.src)), "apply-err", "{sd} [{}]", ctx.desc);
        ensure!(out == p.trgt, "apply", "{sd}: {} [{}]", diff_at(&out, &p.trgt), ctx.desc);
        // and independently: what the sections decompress to
        let m = parse("compressed patch", &z)?;
        for (i, (s, (wo, _))) in m.secs.iter().zip(&want).enumerate() { ensure!(&s.ops == wo, "ref-ops", "{sd}: section {i} really holds {} [{}]", refm::show(&s.ops), ctx.desc); }
        observe(ctx, &m);
        ctx.count("compressed_patches_compared", 1);
    }
    Ok(())
}
fn small(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { let p = gen::pair(rng, 2000); with_and_without(ctx, rng, &p, 2000) }
fn large(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { let p = if rng.pct(40) { gen::pair_big_ops(rng) } else { gen::pair(rng, 300_000) }; with_and_without(ctx, rng, &p, 300_000) }
/// patches of few bytes: empty and almost empty section bodies
fn tiny(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { let p = gen::pair(rng, 12); with_and_without(ctx, rng, &p, 12) }
/// every section with its own compression (written by section_writer), followed by foreign bytes
fn mixed(ctx: &mut Ctx, rng: &mut Rng, max: usize) -> R {
    let n = gen::len(rng, max);
    let src = gen::content(rng, n);
    let ns = if max == 300 { rng.lrange(100, 3000) } else { rng.range(1, 6) };
    let (mut bytes, mut want, mut buf, mut out, mut desc) = (vec![], vec![], vec![], vec![], String::new());
    for i in 0..ns {
        let k = if rng.pct(8) { 0 } else { rng.lrange(1, 30) };
        let ops = refm::random_ops(rng, &src, &mut out, k, max, max);
        let (s, sd, algo) = gen::sec_comp(rng, max <= 6000);
        let seg = rng.pct(50);
        let mut h = super::p04::header_of(&ops, seg, i + 1 < ns);
        h.format = if seg { Format::Segregated } else { Format::Interleaved };
        let lops: Vec<_> = ops.iter().map(refm::to_op).collect();
        ok!(section_writer(&s, h, &mut bytes, &lops, &mut buf), "write-err", "section_writer {sd}");
        desc += &format!("{}:{sd} ", ops.len());
        h.compression_algo = algo;
        want.push((ops, h));
    }
    ctx.desc = format!("mixed sections {desc}");
    ctx.sign(&bytes);
    ctx.blob("patch", &bytes); ctx.blob("src", &src);
    ctx.nontrivial = !out.is_empty();
    let m = parse("section_writer", &bytes)?;
    for (i, (s, w)) in m.secs.iter().zip(&want).enumerate() { ensure!(s.ops == w.0, "ref-ops", "section {i} holds {} instead of {} [{}]", refm::show(&s.ops), refm::show(&w.0), ctx.desc); }
    ensure!(m.secs.len() == want.len(), "count", "{} of {} sections", m.secs.len(), want.len());
    observe(ctx, &m);
    let tail = rng.rvec(0, 40);
    bytes.extend_from_slice(&tail);
    for b in [false, true] {
        let got: Vec<(Vec<ROp>, _)> = ok!(lib_sections(&bytes, b), "section-err", "[{}]", ctx.desc);
        ensure!(got == want, "sections", "read {} want {} [{}]", got.iter().map(|g| refm::show(&g.0)).collect::<Vec<_>>().join(" | "), want.iter().map(|g| refm::show(&g.0)).collect::<Vec<_>>().join(" | "), ctx.desc);
    }
    let got = ok!(apply(&bytes, Some(&src)), "apply-err", "[{}]", ctx.desc);
    ensure!(got == out, "apply", "{} [{}]", diff_at(&got, &out), ctx.desc);
    ctx.count("mixed_patches", 1);
    Ok(())
}
fn mixed_small(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { mixed(ctx, rng, 1500) }
/// hundreds of sections
fn mixed_many(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { mixed(ctx, rng, 300) }
fn mixed_large(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { mixed(ctx, rng, 200_000) }
/// section bodies of up to 16 MiB
fn huge(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> R {
    let (mut bytes, mut want, mut buf, mut desc, mut far) = (vec![], vec![], vec![], String::new(), false);
    let ns = rng.range(1, 3);
    for i in 0..ns {
        // every third round: as much as a section may hold of what cannot be compressed, and operations that take far more than they produce
        let special = if i > 0 { 0 } else { (idx / 3) % 3 };
        let total = match special { 1 => refm::MAX_OUT as usize - rng.below(3), 2 => rng.range(1_750_000, 2_200_000), _ if i == 0 => rng.range(1 << 20, refm::MAX_OUT as usize), _ => rng.lrange(1, 300_000) };
        let texture = if special == 1 { 0 } else { rng.below(3) };
        let mut ops = vec![];
        let mut left = total;
        if special == 2 {
            ops.extend((0..left).map(|_| ROp::D { addr: rng.u64() >> 2, len: 1 }));
            left = 0;
            far = true;
            desc += "far-copies:";
        }
        while left > 0 {
            let l = if rng.pct(80) { 65535 } else { rng.lrange(1, 65535) }.min(left);
            let b = match texture { 0 => rng.vec(l), 1 => gen::content(rng, l), _ => { let mut b = rng.vec(l.min(64)); b.resize(l, 5); b } };
            ops.push(ROp::Add(b));
            left -= l;
        }
        let (s, sd, algo) = match idx % 3 { 0 => (Some(smdiff_encoder::SecondaryCompression::Zstd { level: 1 + rng.below(4) as i32 }), "zstd".to_string(), 2u8), 1 => { let (o, d) = gen::brotli_opts(rng, false); (Some(smdiff_encoder::SecondaryCompression::Brotli { options: o }), format!("brotli-{d}"), 3) } _ => { let l = rng.below(4); (Some(smdiff_encoder::SecondaryCompression::Smdiff(smdiff_encoder::TrgtMatcherConfig::comp_level(l))), format!("smdiff{l}"), 1) } };
        let seg = rng.pct(50);
        let mut h = super::p04::header_of(&ops, seg, i + 1 < ns);
        let lops: Vec<_> = ops.iter().map(refm::to_op).collect();
        ok!(section_writer(&s, h, &mut bytes, &lops, &mut buf), "write-err", "section_writer {sd}");
        desc += &format!("{total}:{sd} ");
        h.compression_algo = algo;
        want.push((ops, h));
    }
    ctx.desc = format!("huge sections {desc}");
    ctx.sign(&bytes);
    ctx.nontrivial = true;
    let m = parse("section_writer", &bytes)?;
    ensure!(m.secs.len() == want.len() && m.secs.iter().zip(&want).all(|(s, w)| s.ops == w.0), "ref-ops", "the independent decoder finds other operations [{}]", ctx.desc);
    let got: Vec<(Vec<ROp>, _)> = ok!(lib_sections(&bytes, rng.pct(50)), "section-err", "[{}]", ctx.desc);
    ensure!(got == want, "sections", "other sections are read [{}]", ctx.desc);
    if !far { // there is no source that large
        let mut out = vec![];
        for w in &want { refm::apply_ops(&w.0, &[], &mut out, CAP).unwrap(); }
        let got = ok!(apply(&bytes, None), "apply-err", "[{}]", ctx.desc);
        ensure!(got == out, "apply", "{} [{}]", diff_at(&got, &out), ctx.desc);
    }
    ctx.max("max_section_operations", want[0].0.len() as u64);
    ctx.max("max_section_output", want[0].1.output_size as u64);
    ctx.count("huge_sections", 1);
    Ok(())
}
/// sections compressed by foreign encoders with settings of their own (frame checksums, many blocks, flushes, other levels)
fn foreign(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let n = gen::len(rng, 3000);
    let src = gen::content(rng, n);
    let (p, secs, t) = refm::random_patch(rng, &src, 6000, true, &[1, 2, 3]);
    ctx.desc = format!("foreign compression {:?}", secs.iter().map(|s| (s.0.len(), s.1)).collect::<Vec<_>>());
    ctx.sign(&p);
    ctx.nontrivial = !t.is_empty();
    let got = ok!(lib_sections(&p, rng.pct(50)), "section-err", "[{}]", ctx.desc);
    for (i, ((o, h), w)) in got.iter().zip(&secs).enumerate() { ensure!(*o == w.0 && h.compression_algo == w.1, "sections", "section {i}: {} want {} [{}]", refm::show(o), refm::show(&w.0), ctx.desc); }
    let out = ok!(apply(&p, Some(&src)), "apply-err", "[{}]", ctx.desc);
    ensure!(out == t, "apply", "{} [{}]", diff_at(&out, &t), ctx.desc);
    ctx.count("mixed_patches", 1);
    Ok(())
}
/// every zstd level and every brotli quality and window
fn settings(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> R {
    use smdiff_encoder::brotli::*;
    use smdiff_encoder::{EncoderConfig, SecondaryCompression as S, TrgtMatcherConfig};
    let (s, d, algo) = match idx % 74 {
        i @ 0..=21 => (S::Zstd { level: i as i32 + 1 }, format!("zstd {}", i + 1), 2),
        i @ 22..=33 => { let mut o = BrotliEncoderOptions::default(); o.quality(Quality::new((i - 22) as u8).unwrap()); (S::Brotli { options: o }, format!("brotli quality {}", i - 22), 3) }
        i @ 34..=48 => { let mut o = BrotliEncoderOptions::default(); o.quality(Quality::new(4).unwrap()).window_size(WindowSize::new((i - 24) as u8).unwrap()); (S::Brotli { options: o }, format!("brotli window {}", i - 24), 3) }
        i @ 49..=57 => { let mut o = BrotliEncoderOptions::default(); o.quality(Quality::new(5).unwrap()).block_size(BlockSize::new((i - 33) as u8).unwrap()); (S::Brotli { options: o }, format!("brotli block {}", i - 33), 3) }
        i @ 58..=60 => { let mut o = BrotliEncoderOptions::default(); o.mode([CompressionMode::Generic, CompressionMode::Text, CompressionMode::Font][i as usize - 58]); (S::Brotli { options: o }, format!("brotli mode {}", i - 58), 3) }
        61 => (S::new_brotli_default(), "brotli default".into(), 3), 62 => (S::new_zstd_default(), "zstd default".into(), 2), 63 => (S::new_smdiff_default(), "smdiff default".into(), 1),
        i => (S::Smdiff(TrgtMatcherConfig::comp_level(i as usize - 64)), format!("smdiff level {}", i - 64), 1),
    };
    let n = rng.range(1, 60_000);
    let mut p = Pair { src: gen::content(rng, 20_000), trgt: gen::content(rng, n), tag: "unrelated" };
    if rng.pct(40) { let a = rng.below(10_000); let x = p.src[a..].to_vec(); p.trgt.extend(x); }
    let mut cfg = EncoderConfig::comp_level(3, true, Some(s));
    if rng.pct(50) { cfg = cfg.format_interleaved(); }
    ctx.desc = format!("{d} on {} bytes", p.trgt.len());
    ctx.signs(&d); ctx.sign(&p.trgt);
    ctx.nontrivial = true;
    ensure!(cfg.sec_comp.as_ref().unwrap().algo_value() == algo, "algo", "{d} is announced as {}", cfg.sec_comp.as_ref().unwrap().algo_value());
    let z = ok!(encode(Some(&p.src), &p.trgt, &cfg), "encode-err", "{d}");
    conforms(ctx, &d, &z, &p.src, &p.trgt, cfg.format.is_segregated(), algo, limit(None))?;
    let out = ok!(apply(&z, Some(&p.src)), "apply-err", "{d}");
    ensure!(out == p.trgt, "apply", "{d}: {}", diff_at(&out, &p.trgt));
    ctx.count("settings_tried", 1);
    Ok(())
}
pub fn scens() -> Vec<Scen> {
    vec![
        Scen { name: "tiny", weight: 10, min: (2_000, 40_000), cpu_limit: 60, run: tiny },
        Scen { name: "small", weight: 20, min: (2_000, 40_000), cpu_limit: 60, run: small },
        Scen { name: "large", weight: 1, min: (24, 400), cpu_limit: 200, run: large },
        Scen { name: "mixed", weight: 20, min: (4_000, 60_000), cpu_limit: 60, run: mixed_small },
        Scen { name: "mixed_large", weight: 1, min: (24, 400), cpu_limit: 200, run: mixed_large },
        Scen { name: "mixed_many", weight: 1, min: (16, 300), cpu_limit: 200, run: mixed_many },
        Scen { name: "huge", weight: 0, min: (18, 180), cpu_limit: 300, run: huge },
        Scen { name: "foreign", weight: 15, min: (3_000, 60_000), cpu_limit: 60, run: foreign },
        Scen { name: "settings", weight: 1, min: (148, 1480), cpu_limit: 200, run: settings },
    ]
}
