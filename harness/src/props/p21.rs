//! P21: every option has its documented effect and no other.
use super::util::*;
use crate::mon::{Ctx, Viol, R};
use crate::refm::{self, ROp};
use crate::rng::Rng;
use crate::{ensure, gen, ok, Scen};
use smdiff_common::{Format, MAX_INST_SIZE, MAX_WIN_SIZE};
use smdiff_encoder::{EncoderConfig, SecondaryCompression, SrcMatcherConfig, TrgtMatcherConfig};

fn ops(what: &str, b: &[u8]) -> Result<Vec<ROp>, Viol> { Ok(parse(what, b)?.secs.into_iter().flat_map(|s| s.ops).collect()) }
/// The operations, of a patch that is packed as asked for.
fn packed(ctx: &mut Ctx, what: &str, b: &[u8], seg: bool, algo: u8, most: u64) -> Result<Vec<ROp>, Viol> {
    let mut v = vec![];
    for (i, s) in parse(what, b)?.secs.into_iter().enumerate() {
        ensure!(s.seg == seg, "layout", "{what}: section {i} is {}, the other layout is asked for [{}]", if s.seg { "segregated" } else { "interleaved" }, ctx.desc);
        ensure!(s.algo == algo, "algo", "{what}: section {i} has compression {} instead of {algo} [{}]", s.algo, ctx.desc);
        ensure!(s.out <= most, "limit", "{what}: section {i} produces {} bytes, limit {most} [{}]", s.out, ctx.desc);
        ctx.count("sections_packed_as_asked", 1);
        v.extend(s.ops);
    }
    Ok(v)
}
fn first_difference(a: &[ROp], b: &[ROp]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("operation {i}: {} instead of {} (of {} and {})", refm::show(&a[i..(i + 1).min(a.len())]), refm::show(&b[i..(i + 1).min(b.len())]), a.len(), b.len())
}
/// Layout, section size and compression leave the operations of the encoder as they are.
fn packaging(ctx: &mut Ctx, rng: &mut Rng, max: usize) -> R {
    let p = if max > 6000 && rng.pct(50) { gen::pair_big_ops(rng) } else { gen::pair(rng, max) };
    let c = gen::config(rng, max);
    describe(ctx, &p, &c);
    ctx.nontrivial = !p.trgt.is_empty();
    let base = ok!(encode(Some(&p.src), &p.trgt, &c.cfg), "encode-err", "encode [{}]", ctx.desc);
    let want = ops("patch", &base)?;
    for _ in 0..3 {
        let o = out_opts(rng, max);
        let mut v = c.cfg.clone();
        if let Some(f) = o.fmt { v = if f == Format::Segregated { v.format_segregated() } else { v.format_interleaved() }; }
        if let Some(w) = o.win { v = v.set_output_segment_size(w); }
        let mut algo = o.algo;
        v = match o.sec.clone() { Some(s) => v.set_sec_comp(s), None if rng.pct(50) => v.no_sec_comp(), None => { algo = c.comp; v } };
        ctx.signs(&o.desc);
        let b = ok!(encode(Some(&p.src), &p.trgt, &v), "encode-err", "encode as {} [{}]", o.desc, ctx.desc);
        let got = packed(ctx, "patch", &b, if o.fmt.is_none() { c.seg } else { o.seg }, algo, limit(if o.win.is_none() { c.win } else { o.win }))?;
        ensure!(got == want, "encoder-ops", "as {}: {} [{}]", o.desc, first_difference(&got, &want), ctx.desc);
        ctx.count("packagings_compared", 1);
    }
    // section sizes outside the limits are the limits
    let mut v = c.cfg.clone();
    let (z, l) = if rng.pct(50) { (rng.below(MAX_INST_SIZE), MAX_INST_SIZE) } else { (*rng.pick(&[MAX_WIN_SIZE + 1, 1 << 25, 1 << 40, usize::MAX]), MAX_WIN_SIZE) };
    v.output_segment_size = z;
    let a = ok!(encode(Some(&p.src), &p.trgt, &v), "encode-err", "encode with sections of {z} [{}]", ctx.desc);
    v.output_segment_size = l;
    let b = ok!(encode(Some(&p.src), &p.trgt, &v), "encode-err", "encode with sections of {l} [{}]", ctx.desc);
    ensure!(a == b, "clamp", "sections of {z}: {} [{}]", diff_at(&a, &b), ctx.desc);
    ctx.count("section_limits_compared", 1);
    // no source and an empty one are the same
    if rng.pct(30) {
        let a = ok!(encode(None, &p.trgt, &c.cfg), "encode-err", "encode without source [{}]", ctx.desc);
        let b = ok!(encode(Some(&[]), &p.trgt, &c.cfg), "encode-err", "encode with an empty source [{}]", ctx.desc);
        ensure!(a == b, "no-source", "without source and with an empty one: {} [{}]", diff_at(&a, &b), ctx.desc);
        ctx.count("absent_and_empty_sources_compared", 1);
    }
    Ok(())
}
fn small(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { packaging(ctx, rng, 1500) }
fn large(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { packaging(ctx, rng, 250_000) }
/// Which copies may occur, and when the naive tests may matter.
fn matching(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let max = *rng.pick(&[200usize, 3000, 40_000]);
    let p = gen::pair(rng, max);
    let mut c = gen::config(rng, max);
    c.cfg.naive_tests = None;
    describe(ctx, &p, &c);
    ctx.nontrivial = !p.trgt.is_empty();
    let (nosrc, notrgt) = (c.cfg.clone().no_match_src(), c.cfg.clone().no_match_target());
    let a = ok!(encode(Some(&p.src), &p.trgt, &nosrc), "encode-err", "encode without source matching [{}]", ctx.desc);
    ensure!(!ops("patch", &a)?.iter().any(|o| matches!(o, ROp::D { .. })), "copy-source", "source matching is off but the source is copied from [{}]", ctx.desc);
    let n = gen::len(rng, max);
    let other = if rng.pct(50) { gen::content(rng, n) } else { p.trgt.clone() };
    let b = ok!(encode(if rng.pct(30) { None } else { Some(&other) }, &p.trgt, &nosrc), "encode-err", "encode with another source [{}]", ctx.desc);
    ensure!(a == b, "other-source", "source matching is off but the source matters: {} [{}]", diff_at(&b, &a), ctx.desc);
    ctx.count("patches_without_source_matching", 1);
    let a = ok!(encode(Some(&p.src), &p.trgt, &notrgt), "encode-err", "encode without target matching [{}]", ctx.desc);
    // long runs are spelled with copies of the output
    let mut at = 0;
    for o in ops("patch", &a)? {
        let t = &p.trgt[at..(at + o.len() as usize).min(p.trgt.len())];
        ensure!(!matches!(o, ROp::O { .. }) || t.iter().all(|b| *b == t[0]), "copy-output", "target matching is off but the output is copied from, at {at} [{}]", ctx.desc);
        at += o.len() as usize;
    }
    ctx.count("patches_without_target_matching", 1);
    // the naive tests are for larger targets that begin or end with the source
    let d = if rng.pct(70) { gen::target_for(rng, &p.src, max).0 } else { p.trgt.clone() };
    if !p.src.is_empty() && (d.len() <= p.src.len() || !(d.starts_with(&p.src) || d.ends_with(&p.src))) {
        let a = ok!(encode(Some(&p.src), &d, &c.cfg), "encode-err", "encode [{}]", ctx.desc);
        let b = ok!(encode(Some(&p.src), &d, &c.cfg.clone().set_naive_tests(Default::default())), "encode-err", "encode with naive tests [{}]", ctx.desc);
        ensure!(a == b, "naive", "naive tests that do not apply: {} [{}]", diff_at(&b, &a), ctx.desc);
        ctx.count("naive_tests_that_do_not_apply", 1);
    }
    Ok(())
}
/// Defaults, levels and the order in which options are set.
fn builder(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> R {
    let max = *rng.pick(&[300usize, 3000, 20_000]);
    let p = gen::pair(rng, max);
    ctx.sign(&p.src); ctx.sign(&p.trgt);
    ctx.nontrivial = !p.trgt.is_empty();
    let level = rng.below(10);
    let (sec, sd, _) = gen::sec_comp(rng, max <= 3000);
    let mt = rng.pct(50);
    let lazy = EncoderConfig::default().lazy_escape_len;
    let plain = || EncoderConfig { match_src: Some(SrcMatcherConfig::comp_level(3)), match_trgt: None, sec_comp: None, format: Format::Interleaved, output_segment_size: MAX_WIN_SIZE, naive_tests: None, lazy_escape_len: lazy };
    let (what, a, b) = match idx % 8 {
        0 => ("the default", EncoderConfig::default(), plain()),
        1 => ("new", EncoderConfig::new(), plain()),
        2 => ("comp_level", EncoderConfig::comp_level(level, mt, sec.clone()), EncoderConfig {
            match_src: Some(SrcMatcherConfig::comp_level(level)), match_trgt: if mt { Some(TrgtMatcherConfig::comp_level(level)) } else { None },
            format: if sec.is_some() { Format::Segregated } else { Format::Interleaved }, sec_comp: sec.clone(), ..plain() }),
        3 => ("the default compression", plain().set_sec_comp(SecondaryCompression::default()), plain().set_sec_comp(SecondaryCompression::Zstd { level: 3 })),
        4 => ("the default smdiff compression", plain().set_sec_comp(SecondaryCompression::new_smdiff_default()), plain().set_sec_comp(SecondaryCompression::Smdiff(TrgtMatcherConfig::comp_level(3)))),
        5 => ("the default matchers", plain().set_match_src(SrcMatcherConfig::default()).set_match_target(TrgtMatcherConfig::default()), plain().set_match_src(SrcMatcherConfig::comp_level(3)).set_match_target(TrgtMatcherConfig::comp_level(3))),
        6 => ("the default brotli compression", plain().set_sec_comp(SecondaryCompression::new_brotli_default()), plain().set_sec_comp(SecondaryCompression::Brotli { options: Default::default() })),
        _ => {
            // the same options in two orders, with others set and taken back in between
            let (s, t, z, l) = (gen::src_cfg(rng), gen::trgt_cfg(rng, true), *rng.pick(gen::SEG), rng.below(200));
            let (seg, naive) = (rng.pct(50), rng.pct(50));
            let build = |rng: &mut Rng| {
                let mut order: Vec<u8> = (0..7).collect();
                for i in (1..7).rev() { order.swap(i, rng.below(i + 1)); }
                let mut c = EncoderConfig::new();
                for k in order {
                    if rng.pct(30) { c = match k { 0 => c.no_match_src(), 1 => c.no_match_target(), 2 => c.no_sec_comp(), 3 => c.set_output_segment_size(1), 4 => c.format_segregated(), 5 => c.format_interleaved(), _ => c.set_lazy_escape_len(3) }; }
                    c = match k { 0 => c.set_match_src(s.clone()), 1 => if mt { c.set_match_target(t.clone()) } else { c.no_match_target() }, 2 => match &sec { Some(x) => c.set_sec_comp(x.clone()), None => c.no_sec_comp() }, 3 => c.set_output_segment_size(z), 4 | 5 => if seg { c.format_segregated() } else { c.format_interleaved() }, _ => c.set_lazy_escape_len(l) };
                    if k == 0 && naive { c = c.set_naive_tests(Default::default()); }
                }
                // what was taken back above may have come after its setting (layout has two settings)
                c
            };
            ("settings in another order", build(rng), build(rng))
        }
    };
    ctx.desc = format!("{what}: level {level} target matching {mt} compression {sd}; source {}B target {}B", p.src.len(), p.trgt.len());
    ctx.signs(&ctx.desc.clone());
    let x = ok!(encode(Some(&p.src), &p.trgt, &a), "encode-err", "encode [{}]", ctx.desc);
    let y = ok!(encode(Some(&p.src), &p.trgt, &b), "encode-err", "encode [{}]", ctx.desc);
    ensure!(x == y, "builder", "{what} and the same options spelled out: {} [{}]", diff_at(&x, &y), ctx.desc);
    ctx.count("configurations_compared", 1);
    Ok(())
}
/// Layout, section size and compression leave the operations of merger and transcoder as they are.
fn outputs(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let max = *rng.pick(&[300usize, 3000, 100_000]);
    let links = rng.range(1, 3);
    let mut h = history(rng, links, max)?;
    // one more link, of many small operations of whatever kind
    if rng.pct(25) {
        let src = h.files.last().unwrap().clone();
        let (mut out, n) = (vec![], rng.lrange(200, 6000));
        let kinds: &[u8] = *rng.pick(&[&[0u8, 1, 2, 3][..], &[2, 3], &[2, 2, 2, 0], &[3, 3, 1], &[2]]);
        let l = rng.lrange(1, 60);
        let ops = refm::ops_of_kinds(rng, &src, &mut out, n, l, kinds);
        h.desc += &format!(" many:{}ops:{}", ops.len(), out.len());
        let comp = rng.pct(30);
        h.patches.push(refm::pack(rng, &ops, comp));
        h.files.push(out);
        ctx.count("long_lists_compared", 1);
    }
    ctx.desc = format!("{links} links{}", h.desc);
    for p in &h.patches { ctx.sign(p); }
    ctx.nontrivial = true;
    let last = h.patches.last().unwrap();
    let merged = |o: &OutOpts| -> std::io::Result<Vec<u8>> {
        let mut e = merge_start(last)?;
        for p in h.patches.iter().rev().skip(1) { e = match e { End::More(m) => merge_step(m, p)?, e => e }; }
        write_summary(e.summary(), o)
    };
    let (o1, o2) = (out_opts(rng, max), out_opts(rng, max));
    ctx.signs(&o1.desc); ctx.signs(&o2.desc);
    for (what, a, b) in [("merged", merged(&o1), merged(&o2)), ("transcoded", transcode(last, &o1), transcode(last, &o2))] {
        let (a, b) = (ok!(a, "output-err", "{what} as {} [{}]", o1.desc, ctx.desc), ok!(b, "output-err", "{what} as {} [{}]", o2.desc, ctx.desc));
        let (a, b) = (packed(ctx, what, &a, o1.seg, o1.algo, limit(o1.win))?, packed(ctx, what, &b, o2.seg, o2.algo, limit(o2.win))?);
        ensure!(a == b, "output-ops", "{what} as {} and as {}: {} [{}]", o1.desc, o2.desc, first_difference(&a, &b), ctx.desc);
    }
    ctx.count("outputs_compared", 1);
    Ok(())
}
pub fn scens() -> Vec<Scen> {
    vec![
        Scen { name: "small", weight: 8, min: (4_000, 100_000), cpu_limit: 60, run: small },
        Scen { name: "large", weight: 6, min: (300, 6_000), cpu_limit: 120, run: large },
        Scen { name: "matching", weight: 6, min: (2_000, 40_000), cpu_limit: 60, run: matching },
        Scen { name: "builder", weight: 4, min: (2_000, 40_000), cpu_limit: 60, run: builder },
        Scen { name: "outputs", weight: 5, min: (500, 10_000), cpu_limit: 90, run: outputs },
    ]
}
