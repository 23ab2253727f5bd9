//! P01: encode then apply reproduces the target exactly.
use super::util::*;
use crate::gen::{self, Cfg, Pair};
use crate::mon::{Ctx, R};
use crate::rng::Rng;
use crate::{ensure, ok, refm, Scen};

fn roundtrip(ctx: &mut Ctx, rng: &mut Rng, p: &Pair, c: &Cfg) -> R {
    describe(ctx, p, c);
    ctx.nontrivial = !p.trgt.is_empty();
    let with_src = !(p.src.is_empty() && rng.pct(50));
    let src = if with_src { Some(&p.src[..]) } else { None };
    let patch = ok!(encode(src, &p.trgt, &c.cfg), "encode-err", "encode [{}]", ctx.desc);
    ctx.blob("patch", &patch);
    ctx.count("patch_bytes", patch.len() as u64);
    // the configuration without a source must also survive applying with one
    let asrc = if with_src || rng.pct(50) { Some(&p.src[..]) } else { None };
    let got = ok!(apply(&patch, asrc), "apply-err", "apply [{}]", ctx.desc);
    ensure!(got == p.trgt, "roundtrip", "decoded output differs from the target: {} [{}]", diff_at(&got, &p.trgt), ctx.desc);
    ctx.count("roundtrips", 1);
    if let Ok(m) = refm::parse(&patch) { if p.trgt.len() < 200_000 { observe(ctx, &m); } }
    Ok(())
}
fn tiny(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { let p = gen::pair(rng, 40); let c = gen::config(rng, 40); roundtrip(ctx, rng, &p, &c) }
fn small(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { let p = gen::pair(rng, 700); let c = gen::config(rng, 700); roundtrip(ctx, rng, &p, &c) }
fn medium(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { let p = gen::pair(rng, 20_000); let c = gen::config(rng, 20_000); roundtrip(ctx, rng, &p, &c) }
fn large(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { let p = gen::pair(rng, 400_000); let c = gen::config_large(rng); roundtrip(ctx, rng, &p, &c) }
fn bigops(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { let p = gen::pair_big_ops(rng); let c = if rng.pct(50) { gen::config_large(rng) } else { gen::config(rng, 300_000) }; roundtrip(ctx, rng, &p, &c) }
/// a long match (past any lazy escape) that ends a chosen distance before the end of the target
fn tails(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> R {
    let tail = (idx % 16) as usize;
    let m = [90usize, 91, 100, 128, 200, 1000, 65535, 65544][(idx / 16 % 8) as usize] + rng.below(8);
    let src = rng.rvec(m, m + 29);
    let mut t = rng.rvec(0, 19);
    let from_src = rng.pct(70);
    if from_src { let a = src.len() - m; let a = rng.range(0, a); t.extend_from_slice(&src[a..a + m]); } else { let x = rng.vec(m); t.extend_from_slice(&x); t.extend_from_slice(&x); }
    let x = if rng.pct(30) { vec![rng.byte(); tail] } else { rng.vec(tail) };
    t.extend_from_slice(&x);
    let c = gen::config(rng, 700);
    roundtrip(ctx, rng, &Pair { src, trgt: t, tag: "edits" }, &c)
}
/// sources beyond the minimum window of 1 MiB, so the hashed source window has to slide, and targets beyond the chain table
fn window(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let n = rng.range(1_300_000, 4_500_000);
    let src = if rng.pct(80) { rng.vec(n) } else { gen::content(rng, n) };
    let mut t = Vec::new();
    let lim = rng.range(600_000, 5_000_000);
    while t.len() < lim {
        match rng.below(5) {
            0..=2 => { let l = rng.lrange(10, 300_000).min(src.len()); let a = if rng.pct(60) { (t.len()).min(src.len() - l) } else { rng.range(0, src.len() - l) }; t.extend_from_slice(&src[a..a + l]); }
            3 => { let l = rng.lrange(1, 3000); let b = rng.vec(l); t.extend_from_slice(&b); }
            _ => { if !t.is_empty() { let l = rng.lrange(1, 100_000).min(t.len()); let a = rng.range(0, t.len() - l); t.extend_from_within(a..a + l); } }
        }
    }
    let c = gen::config_large(rng);
    roundtrip(ctx, rng, &Pair { src, trgt: t, tag: "moved" }, &c)
}
/// source and target of several MiB that agree for long stretches: appended to, prepended to, identical, cut, or with a few edits anywhere
fn mega(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> R {
    let n = rng.range(1 << 20, 5 << 20) + *rng.pick(&[0usize, 1, 4096]) - rng.below(2);
    let src = if rng.pct(70) { rng.vec(n) } else { gen::content(rng, n) };
    let extra = { let l = rng.lrange(1, 200_000); gen::content(rng, l) };
    let mut t = match idx % 4 { 0 | 1 => src.clone(), 2 => extra.clone(), _ => src[..rng.range(n / 2, n)].to_vec() };
    match idx % 4 { 0 | 1 => if rng.pct(75) { t.extend_from_slice(&extra) }, 2 => t.extend_from_slice(&src), _ => {} }
    let alone = rng.pct(35); // one byte, close to an edge of the source's bytes in the target
    if alone {
        let (a, b) = match idx % 4 { 0 | 1 => (0, n), 2 => (extra.len(), t.len()), _ => (0, t.len()) };
        let d = if rng.pct(30) { rng.below(3) } else { rng.lrange(1, 200_000) }.min(b - a - 1);
        let p = if rng.pct(60) { b - 1 - d } else { a + d };
        t[p] ^= 1 + rng.byte() % 255;
    }
    let edits = if alone || rng.pct(30) { 0 } else { rng.range(1, 8) };
    for _ in 0..edits {
        // anywhere, or next to a multiple of the common buffer sizes
        let unit = 1usize << rng.range(12, 21);
        let p = if rng.pct(50) { rng.below(t.len()) } else { (rng.range(0, t.len() / unit) * unit + rng.below(5)).saturating_sub(2).min(t.len() - 1) };
        match rng.below(4) { 0 | 1 => t[p] ^= 1 + rng.byte() % 255, 2 => { let e = (p + rng.lrange(1, 3000)).min(t.len() - 1); t.drain(p..e); } _ => { let l = rng.lrange(1, 3000); let b = rng.vec(l); t.splice(p..p, b); } }
    }
    let mut c = gen::config_large(rng);
    if idx / 4 % 2 == 0 { c.cfg = c.cfg.set_naive_tests(Default::default()); c.desc += " naive"; }
    roundtrip(ctx, rng, &Pair { src, trgt: t, tag: "edits" }, &c)
}
/// targets beyond one section (16 MiB - 1)
fn sections(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let base = (1usize << 24) - 1;
    let n = base * rng.range(1, 2) + *rng.pick(&[0usize, 1, 2, 65534, 65535, 65536, 400_000]) - rng.below(3);
    let kind = rng.below(3);
    let src = rng.vec(if kind == 0 { n } else { 300_000 });
    let t = match kind {
        0 => { let mut t = src.clone(); for _ in 0..20 { let i = rng.below(t.len()); t[i] ^= 1; } t }
        1 => { let mut t = vec![7u8; n / 2]; let x = rng.vec(n - t.len()); t.extend_from_slice(&x); t }
        _ => { let mut t = Vec::new(); while t.len() < n { let l = rng.lrange(100, 200_000); let a = rng.range(0, src.len() - l); t.extend_from_slice(&src[a..a + l]); let x = rng.below(1000); let b = rng.vec(x); t.extend_from_slice(&b); } t.truncate(n); t }
    };
    let c = gen::config_large(rng);
    roundtrip(ctx, rng, &Pair { src, trgt: t, tag: "bigops" }, &c)
}
/// Differences of byte strings of 9 (4) bytes that the encoder's hash does not see: b and b + d have the same hash.
const TWINS9: &[[i16; 9]] = &[
    [18, -42, 20, 14, 27, -1, -66, 18, -48], [36, 8, -20, -27, 37, 11, 20, 66, 77], [9, 77, 63, -19, -45, -25, 47, 59, 26],
    [27, -69, -83, -8, 82, 36, -27, 7, 51], [27, 35, 83, -5, -18, -26, -19, 77, -22], [79, 84, -84, 17, 76, -46, 47, -10, -79],
    [54, -34, 0, -13, 64, 10, -46, 84, 29], [83, -88, -85, 60, 81, -93, 47, -14, 93], [0, 57, -45, -98, -4, -144, -91, -52, -155],
    [57, -45, -98, -4, -144, -91, -52, -155, 0], [149, -105, -153, -21, -131, 61, -22, 18, 0],
];
const TWINS4: &[[i16; 4]] = &[[160, -7, -43, -18], [191, 220, -25, -34], [31, 227, 18, -16], [129, -234, -61, -2]];
/// strings whose hashes collide, in places where the match before or after them goes on
fn collide(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> R {
    let small = idx % 2 == 1;
    let pairs: Vec<(Vec<u8>, Vec<u8>)> = (0..rng.range(1, 6)).map(|_| {
        let d: &[i16] = if small { rng.pick(TWINS4) } else { rng.pick(TWINS9) };
        let s = if rng.pct(50) { 1 } else { -1 };
        d.iter().map(|&x| { let x = x * s; let lo = (-x).max(0); let hi = (255 - x).min(255); let a = rng.range(lo as usize, hi as usize) as i16; (a as u8, (a + x) as u8) }).unzip()
    }).collect();
    let ctxs: Vec<(Vec<u8>, Vec<u8>)> = pairs.iter().map(|_| (rng.rvec(0, 60), rng.rvec(0, 120))).collect();
    // first and second member in the same or in different surroundings
    let mut put = |rng: &mut Rng, v: &mut Vec<u8>, second: bool| {
        let i = rng.below(pairs.len());
        let (a, b) = &pairs[i];
        let same = rng.pct(70);
        if same { v.extend_from_slice(&ctxs[i].0) } else { let x = rng.rvec(0, 40); v.extend_from_slice(&x) }
        v.extend_from_slice(if second { b } else { a });
        if same || rng.pct(50) { v.extend_from_slice(&ctxs[i].1) } else { let x = rng.rvec(0, 40); v.extend_from_slice(&x) }
    };
    let (mut src, mut t) = (vec![], vec![]);
    for _ in 0..rng.range(1, 12) { let s = rng.pct(25); put(rng, &mut src, s); }
    if small { t = src.clone(); if rng.pct(60) { src = rng.rvec(0, 30) } }
    for _ in 0..rng.range(1, 12) { let s = rng.pct(75); put(rng, &mut t, s); }
    let mut c = gen::config(rng, 3000);
    if small { if c.cfg.match_trgt.is_none() || rng.pct(50) { c.cfg = c.cfg.set_match_target(smdiff_encoder::TrgtMatcherConfig::comp_level(rng.below(10))); c.desc += " +trgt"; } }
    else if c.cfg.match_src.is_none() || rng.pct(70) { let st = rng.range(1, 3); c.cfg = c.cfg.set_match_src(smdiff_encoder::SrcMatcherConfig::new(st, None)); c.desc += &format!(" +src{st}"); }
    ctx.count("colliding_pairs", pairs.len() as u64);
    roundtrip(ctx, rng, &Pair { src, trgt: t, tag: "collisions" }, &c)
}
/// real files of more than 4 GiB: matched beyond it in the source, in the target, and appended to
fn vast(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> R { crate::mon::with_cap(20 << 30, || vast_in(ctx, rng, idx)) }
fn vast_in(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> R {
    use crate::iox::{Sparse, VirtSink};
    use smdiff_encoder::{EncoderConfig, SrcMatcherConfig, TrgtMatcherConfig};
    static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
    if ctx.profile != "release" { return Ok(()); }
    let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    let free = std::fs::read_to_string("/proc/meminfo").ok().and_then(|m| m.lines().find(|l| l.starts_with("MemAvailable:")).and_then(|l| l.split_whitespace().nth(1).and_then(|n| n.parse::<u64>().ok()))).unwrap_or(0);
    if free < 16 << 20 { ctx.count("skipped_for_lack_of_memory", 1); return Ok(()); }
    const G4: u64 = 1 << 32;
    let (a, b) = (rng.vec(60_000), rng.vec(60_000));
    let base = G4 + 30_000_000 + rng.below64(9_000_000);
    let (src, trgt, cfg) = match idx % 3 {
        0 => {
            let s = Sparse::new(base + 200_000, 0, vec![(70, a.clone()), (G4 - 30_000, b.clone()), (base, rng.vec(90_000))]);
            let mut t = rng.vec(100);
            for (at, l) in [(base + 1000, 80_000usize), (G4 - 28_000, 50_000), (200, 50_000), (G4 + 11, 20_000)] { let mut x = vec![0; l]; s.at(at, &mut x); t.extend_from_slice(&x); let y = rng.rvec(1, 50); t.extend_from_slice(&y); }
            (s, Sparse::new(t.len() as u64, 0, vec![(0, t)]), EncoderConfig::default().set_match_src(SrcMatcherConfig::new(2048, Some(1 << 33))))
        }
        1 => {
            let mut t = a.clone(); t.extend_from_slice(&b); t.extend_from_slice(&a); t.extend(rng.vec(33)); t.extend_from_slice(&b[5..]);
            let l = base + t.len() as u64;
            (Sparse::new(0, 0, vec![]), Sparse::new(l, 9, vec![(base, t)]), EncoderConfig::default().no_match_src().set_match_target(TrgtMatcherConfig::comp_level(3)))
        }
        _ => {
            let s = Sparse::new(base, 0, vec![(70, a.clone()), (G4 - 3, b.clone())]);
            (s.clone(), Sparse::new(base + 40_000, 0, vec![(70, a.clone()), (G4 - 3, b.clone()), (base, b[10..40_010].to_vec())]), EncoderConfig::default().set_naive_tests(Default::default()).set_match_src(SrcMatcherConfig::new(4096, Some(1 << 33))))
        }
    };
    let kind = ["source beyond 4 GiB", "target beyond 4 GiB", "appended to 4 GiB"][idx as usize % 3];
    ctx.desc = format!("{kind}: source {}B target {}B", src.len, trgt.len);
    ctx.signs(&ctx.desc.clone());
    ctx.nontrivial = true;
    let mut patch = vec![];
    ok!(if src.len == 0 { smdiff_encoder::encode(None, &mut trgt.clone(), &mut patch, &cfg) } else { smdiff_encoder::encode(Some(&mut src.clone()), &mut trgt.clone(), &mut patch, &cfg) }, "encode-err", "encode [{}]", ctx.desc);
    ctx.max("max_target_bytes", trgt.len);
    ctx.max("max_source_bytes", src.len);
    let bad = std::rc::Rc::new(std::cell::Cell::new(None));
    let want = trgt.clone();
    let mut sink = VirtSink { expect: Box::new(move |p, n| { let mut v = vec![0; n]; want.at(p, &mut v); v }), pos: 0, len: 0, bad: bad.clone(), writes: 0 };
    ok!(smdiff_decoder::apply_patch(&mut std::io::Cursor::new(&patch), Some(&mut src.clone()), &mut sink), "apply-err", "apply [{}]", ctx.desc);
    ensure!(bad.get().is_none(), "roundtrip", "decoded output differs from the target at or after byte {} [{}]", bad.get().unwrap(), ctx.desc);
    ensure!(sink.len == trgt.len, "roundtrip", "{} bytes decoded [{}]", sink.len, ctx.desc);
    if let Ok(m) = refm::parse(&patch) {
        let far = m.secs.iter().flat_map(|s| &s.ops).filter(|o| matches!(o, refm::ROp::D { addr, .. } | refm::ROp::O { addr, .. } if *addr >= G4)).count();
        ctx.count("copies_from_beyond_4GiB", far as u64);
    }
    ctx.count("roundtrips", 1);
    Ok(())
}
pub fn scens() -> Vec<Scen> {
    vec![
        Scen { name: "tiny", weight: 20, min: (20_000, 200_000), cpu_limit: 60, run: tiny },
        Scen { name: "small", weight: 40, min: (10_000, 100_000), cpu_limit: 60, run: small },
        Scen { name: "tails", weight: 10, min: (512, 4096), cpu_limit: 60, run: tails },
        Scen { name: "medium", weight: 12, min: (400, 8000), cpu_limit: 120, run: medium },
        Scen { name: "bigops", weight: 3, min: (60, 600), cpu_limit: 200, run: bigops },
        Scen { name: "large", weight: 2, min: (40, 800), cpu_limit: 200, run: large },
        Scen { name: "window", weight: 0, min: (32, 1000), cpu_limit: 300, run: window },
        Scen { name: "mega", weight: 0, min: (600, 8000), cpu_limit: 300, run: mega },
        Scen { name: "collide", weight: 4, min: (4_000, 40_000), cpu_limit: 60, run: collide },
        Scen { name: "vast", weight: 0, min: (3, 9), cpu_limit: 600, run: vast },
        Scen { name: "sections", weight: 0, min: (24, 400), cpu_limit: 300, run: sections },
    ]
}
