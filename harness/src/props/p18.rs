//! P18: content the source (or the earlier target) already holds is referred to, not sent again; nothing to share costs little.
use super::util::*;
use crate::mon::{Ctx, Viol, R};
use crate::refm::{Patch, ROp};
use crate::rng::Rng;
use crate::{ensure, gen, ok, Scen};
use smdiff_encoder::{EncoderConfig, SrcMatcherConfig, TrgtMatcherConfig};

/// A target assembled from pieces; `shared` pieces occur in the source or earlier in the target.
struct Plan { src: Vec<u8>, trgt: Vec<u8>, pieces: Vec<(usize, usize, bool)>, spare: usize }
impl Plan {
    fn new(src: Vec<u8>) -> Self { Plan { src, trgt: vec![], pieces: vec![], spare: 0 } }
    fn fresh(&mut self, rng: &mut Rng, n: usize) { let s = self.trgt.len(); let b = rng.vec(n); self.trgt.extend_from_slice(&b); self.pieces.push((s, n, false)); }
    fn from_src(&mut self, a: usize, n: usize) { let s = self.trgt.len(); self.trgt.extend_from_slice(&self.src[a..a + n]); self.pieces.push((s, n, true)); }
    /// shared, but the encoder may miss it
    fn maybe_src(&mut self, a: usize, n: usize) { self.trgt.extend_from_slice(&self.src[a..a + n]); self.spare += n; }
    fn from_trgt(&mut self, a: usize, n: usize) { let s = self.trgt.len(); self.trgt.extend_from_within(a..a + n); self.pieces.push((s, n, true)); }
}
/// Output positions whose bytes the patch spells out (as an add or a run).
fn literal_mask(p: &Patch, n: usize) -> Vec<bool> {
    let mut m = Vec::with_capacity(n);
    for o in p.secs.iter().flat_map(|s| &s.ops) { let lit = matches!(o, ROp::Add(_) | ROp::Run { .. }); m.resize(m.len() + o.len() as usize, lit); }
    m
}
/// Options that do not matter for what is found.
fn around(rng: &mut Rng, mut c: EncoderConfig, d: &mut String) -> EncoderConfig {
    if rng.pct(30) { c = c.format_segregated(); *d += "seg "; }
    if rng.pct(30) { let z = *rng.pick(&[65535usize, 70_000, 1 << 20]); c = c.set_output_segment_size(z); *d += &format!("win{z} "); }
    if rng.pct(30) { c = c.set_naive_tests(Default::default()); *d += "naive "; }
    if rng.pct(40) { let z = *rng.pick(&[9usize, 45, 90, 200]); c = c.set_lazy_escape_len(z); *d += &format!("lazy{z} "); }
    c
}
/// `block`: what may be spelled out of each shared piece; `total`: of all shared pieces together.
/// `rivals`: matches with the earlier target may take part of a piece and leave a rest too short to be certain of
fn judge(ctx: &mut Ctx, p: &Plan, cfg: &EncoderConfig, block: usize, per_piece: usize, rivals: bool) -> R {
    ctx.sign(&p.trgt); ctx.signs(&ctx.desc.clone());
    ctx.blob("src", &p.src); ctx.blob("trgt", &p.trgt);
    ctx.nontrivial = true;
    let b = ok!(encode(Some(&p.src), &p.trgt, cfg), "encode-err", "encode [{}]", ctx.desc);
    ctx.blob("patch", &b);
    let m = literal_mask(&parse("encoder", &b)?, p.trgt.len());
    ensure!(m.len() == p.trgt.len(), "length", "the patch produces {} of {} bytes [{}]", m.len(), p.trgt.len(), ctx.desc);
    let (mut sent, mut shared, mut n, mut fresh) = (0usize, 0usize, 0usize, 0usize);
    for &(s, l, sh) in &p.pieces {
        if !sh { fresh += l; continue; }
        let lit = m[s..s + l].iter().filter(|x| **x).count();
        ctx.max(if rivals { "max_spelled_out_of_one_rivalled_piece" } else { "max_spelled_out_of_one_shared_piece" }, lit as u64);
        let block = if rivals { block + l * 2 / 3 } else { block };
        ensure!(lit <= block, "resent", "{lit} of {l} bytes at {s}, which are already known to the receiver, are sent again (allowed {block}) [{}]", ctx.desc);
        sent += lit; shared += l; n += 1;
    }
    if n > 0 && !rivals { ctx.max("max_mean_spelled_out_per_shared_piece", (sent / n) as u64); }
    if n > 4 && !rivals { ctx.max("max_mean_spelled_out_of_five_or_more", (sent / n) as u64); }
    let total = 40 + per_piece * n + if rivals { 500 + shared / 3 } else { 0 };
    ensure!(sent <= total, "resent-total", "{sent} of {shared} shared bytes in {n} pieces are sent again (allowed {total}) [{}]", ctx.desc);
    // the patch itself
    if cfg.sec_comp.is_none() {
        let bound = 64 + p.spare + fresh + fresh / 100 + sent + p.pieces.len() * 24 + p.trgt.len() / 4000;
        ensure!(b.len() <= bound, "patch-size", "the patch has {} bytes for {fresh} fresh and {shared} shared bytes in {} pieces (allowed {bound}) [{}]", b.len(), p.pieces.len(), ctx.desc);
    }
    ctx.count("shared_bytes", shared as u64);
    ctx.count("shared_bytes_sent_again", sent as u64);
    ctx.count("shared_pieces", n as u64);
    ctx.count("shared_bytes_that_may_be_missed", p.spare as u64);
    ctx.count("patches_weighed", 1);
    Ok(())
}
/// the shortest piece that must be found with the given step: enough anchors that hash collisions cannot hide all of them
fn least(step: usize) -> usize { 64 + 40 * step.max(1) }
/// Is it certain (but for one chance in 10^10) that a block of `len` at `a` in a random source of `n` bytes is found?
/// Anchors lie `step` apart; the table may hold as few as a quarter of them, and an anchor gives way to those before it.
fn certain(a: usize, len: usize, n: usize, step: usize) -> bool {
    let (end, slots) = (n.saturating_sub(24) / step, (n / step / 4).max(4) as f64);
    let mut ln = 0f64;
    for r in a.div_ceil(step)..((a + len).saturating_sub(9) / step).min(end) { ln += (1.0 - (-(r as f64 + 1.0) / slots).exp()).ln(); if ln < -30.0 { return true; } }
    false
}
fn src_cfg(rng: &mut Rng) -> (SrcMatcherConfig, String) {
    let s = match rng.below(4) { 0 => SrcMatcherConfig::comp_level(rng.below(10)), 1 => SrcMatcherConfig::default(), _ => SrcMatcherConfig::new(*rng.pick(&[1usize, 2, 3, 4, 5, 7, 8, 9, 10, 12, 16, 20, 26, 31]), if rng.pct(50) { None } else { Some(1 << rng.range(18, 24)) }) };
    let d = format!("src({},{:?}) ", s.l_step, s.max_src_win_size);
    (s, d)
}
/// blocks of the source moved, repeated, dropped, with fresh stretches between
fn moves_case(ctx: &mut Ctx, rng: &mut Rng, max: usize) -> R {
    let (mut s, mut d) = src_cfg(rng);
    let step = s.l_step;
    let l = least(step);
    let n = rng.lrange(l, max.max(l));
    if s.max_src_win_size.is_some_and(|w| w.max(1 << 20) < n) { s.max_src_win_size = Some(n); d += &format!("win({n}) "); }
    let mut p = Plan::new(rng.vec(n));
    let k = rng.lrange(1, 40.min((n / l).max(1)));
    for _ in 0..k {
        if rng.pct(70) { let f = if rng.pct(30) { rng.below(10) } else { gen::len(rng, 2000) }; p.fresh(rng, f); }
        if p.trgt.len() > max { break; }
        let len = match rng.below(4) { 0 => l, 1 => rng.lrange(l, n), 2 => rng.range(l, n), _ => rng.range(l, (4 * l).min(n)) };
        let mut a = match rng.below(5) { 0 => 0, 1 => n - len, _ => rng.range(0, n - len) };
        for _ in 0..5 { if certain(a, len, n, step) { break; } a /= 2; }
        if certain(a, len, n, step) { p.from_src(a, len); } else { p.maybe_src(a, len); }
    }
    if rng.pct(50) { let f = rng.below(300); p.fresh(rng, f); }
    let mut c = EncoderConfig::default().set_match_src(s);
    let self_match = rng.pct(40);
    if self_match { let lv = rng.below(10); c = c.set_match_target(TrgtMatcherConfig::comp_level(lv)); d += &format!("trgt(l{lv}) "); }
    c = around(rng, c, &mut d);
    ctx.desc = format!("moved blocks: source {n}B, {} pieces, target {}B cfg[{}]", p.pieces.len(), p.trgt.len(), d.trim());
    ctx.count("moved_block_targets", 1);
    judge(ctx, &p, &c, 8, 2, self_match)
}
fn moves(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { let m = *rng.pick(&[3_000usize, 20_000, 120_000]); moves_case(ctx, rng, m) }
fn moves_big(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { moves_case(ctx, rng, 6_000_000) }
/// one block in an otherwise fresh target: at chosen places, of the smallest size
fn single(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let (s, mut d) = src_cfg(rng);
    let l = least(s.l_step);
    let n = l + rng.lrange(0, 30_000);
    let mut p = Plan::new(rng.vec(n));
    let f = match rng.below(3) { 0 => 0, 1 => rng.below(20), _ => rng.below(30_000) };
    p.fresh(rng, f);
    let a = match rng.below(4) { 0 => 0, 1 => n - l, _ => rng.range(0, n - l) };
    if certain(a, l, n, s.l_step) { p.from_src(a, l); } else { p.maybe_src(a, l); }
    let f = match rng.below(3) { 0 => 0, 1 => rng.below(20), _ => rng.below(30_000) };
    p.fresh(rng, f);
    let c = around(rng, EncoderConfig::default().set_match_src(s), &mut d);
    ctx.desc = format!("one block of {l} at {a} of {n}, target {}B cfg[{}]", p.trgt.len(), d.trim());
    judge(ctx, &p, &c, 8, 8, false)
}
/// repeats of earlier parts of the target
fn selfs_case(ctx: &mut Ctx, rng: &mut Rng, max: usize) -> R {
    let with_src = rng.pct(30);
    let n = if with_src { rng.lrange(1, 5_000) } else { 0 };
    let mut p = Plan::new(rng.vec(n));
    let l = 100;
    let f = rng.lrange(l, max / 3);
    p.fresh(rng, f);
    for _ in 0..rng.lrange(1, 30) {
        if p.trgt.len() > max { break; }
        let t = p.trgt.len();
        let len = match rng.below(3) { 0 => l, 1 => rng.lrange(l, t), _ => rng.range(l, (4 * l).min(t)) };
        let a = match rng.below(5) { 0 => 0, 1 => t - len, _ => rng.range(0, t - len) };
        p.from_trgt(a, len);
        if rng.pct(60) { let f = if rng.pct(50) { rng.below(10) } else { rng.below(2000) }; p.fresh(rng, f); }
    }
    let lv = rng.below(10);
    let (mut c, mut d) = (EncoderConfig::default().set_match_target(TrgtMatcherConfig::comp_level(lv)), format!("trgt(l{lv}) "));
    if rng.pct(40) { c = c.no_match_src(); d += "nosrc "; }
    c = around(rng, c, &mut d);
    ctx.desc = format!("repeats: source {n}B, {} pieces, target {}B cfg[{}]", p.pieces.len(), p.trgt.len(), d.trim());
    ctx.count("repeating_targets", 1);
    judge(ctx, &p, &c, 48, 8, false)
}
/// a target that begins with the whole source (which the naive tests find) and goes on with parts of its end, while only the target
/// itself is searched: what lies before the searched part must have been entered, too
fn appended(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let n = rng.lrange(200, 60_000);
    let mut p = Plan::new(rng.vec(n));
    p.from_src(0, n);
    let l = 100;
    let tail = rng.lrange(400, 60_000);
    let near = n.min(tail / 4).max(l);
    while p.trgt.len() < n + tail {
        let len = (if rng.pct(50) { l } else { rng.lrange(l, near) }).min(near);
        let a = n - near + rng.range(0, near - len);
        if rng.pct(70) { p.from_trgt(a, len); } else { let t = p.trgt.len(); p.from_trgt(t - len, len); }
        let f = if rng.pct(50) { rng.below(10) } else { rng.below(2000) };
        p.fresh(rng, f);
    }
    let lv = rng.below(10);
    let (mut c, mut d) = (EncoderConfig::default().no_match_src().set_match_target(TrgtMatcherConfig::comp_level(lv)), format!("trgt(l{lv}) nosrc "));
    c = around(rng, c, &mut d);
    c = c.set_naive_tests(Default::default());
    ctx.desc = format!("appended: source {n}B, {} pieces, target {}B, repeats from the last {near}B of the source, cfg[{} naive]", p.pieces.len(), p.trgt.len(), d.trim());
    ctx.count("targets_beginning_with_the_source", 1);
    judge(ctx, &p, &c, 48, 8, false)
}
fn selfs(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { let m = *rng.pick(&[1_000usize, 10_000, 100_000]); selfs_case(ctx, rng, m) }
fn selfs_big(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { selfs_case(ctx, rng, 3_000_000) }
/// repeats and moved blocks that come tens of megabytes into the target (and the source)
fn late(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> R {
    let lead = rng.range(1 << 20, 18 << 20) + if rng.pct(70) { 16 << 20 } else { 0 };
    let n = if idx % 3 == 2 { rng.range(1000, 400_000) } else { 0 };
    let mut p = Plan::new(rng.vec(n));
    let kind = ["one run", "bytes in rotation", "noise"][(idx % 5).saturating_sub(2) as usize];
    match kind {
        "one run" => p.trgt = vec![rng.below(256) as u8; lead],
        "noise" => { let l = lead.min(18 << 20); let b = rng.vec(l); p.trgt = b; p.spare = l + l / 20 }
        _ => { let r = rng.rvec(300, 3000); while p.trgt.len() < lead { p.trgt.extend_from_slice(&r) } p.spare = 4000 }
    }
    let lead = p.trgt.len();
    p.fresh(rng, 20_000);
    for _ in 0..rng.range(3, 30) {
        let (t, l) = (p.trgt.len(), 100);
        let near = (t - lead).min(200_000);
        let len = if rng.pct(30) { l } else { rng.lrange(l, near) };
        let a = t - near + rng.range(0, near - len);
        p.from_trgt(a, len);
        let f = if rng.pct(50) { rng.below(10) } else { rng.below(2000) };
        p.fresh(rng, f);
    }
    let lv = rng.below(10);
    let (mut c, mut d) = (EncoderConfig::default().no_match_src().set_match_target(TrgtMatcherConfig::comp_level(lv)), format!("trgt(l{lv}) nosrc "));
    c = around(rng, c, &mut d);
    ctx.desc = format!("repeats behind {lead}B of {kind}: source {n}B, {} pieces, target {}B cfg[{}]", p.pieces.len(), p.trgt.len(), d.trim());
    ctx.max("max_repeats_behind_bytes", lead as u64);
    judge(ctx, &p, &c, 48, if kind == "noise" { 16 } else { 8 }, false)
}
/// a source several times the configured window, edited in place: what lies in the window behind the corresponding place is found
fn window(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let (step, half) = (*rng.pick(&[4usize, 8, 9, 16, 26]), 1usize << 19);
    let n = rng.range(2_500_000, 6_000_000);
    let mut p = Plan::new(rng.vec(n));
    let (mut at, mut parts, mut big) = (0, vec![], rng.pct(50));
    let grow = rng.pct(70);
    while n - at >= 4_000 {
        let len = rng.lrange(4_000, 600_000).min(n - at);
        parts.push((p.trgt.len(), len, at));
        p.trgt.extend_from_slice(&p.src[at..at + len]);
        at += len;
        if big && at > n / 4 { big = false; let f = rng.range(300_000, 1_300_000); p.fresh(rng, f); }
        else if rng.pct(if grow { 90 } else { 50 }) { let f = rng.below(3_000); p.fresh(rng, f); } else { at += rng.below(3_000).min(n - at); }
    }
    let t = p.trgt.len();
    let mut behind = 0;
    for (o, len, a) in parts {
        // the window was last placed at most half a window before this point, around the place that corresponds to it
        let (mid, low) = ((o as u128 * n as u128 / t as u128) as usize, (o.saturating_sub(half) as u128 * n as u128 / t as u128) as usize);
        let seen = a + half >= mid + 1000 && a + 4_000 <= if o < half { 2 * half } else { low + half };
        if seen { p.pieces.push((o, len, true)); behind += 1; } else { p.spare += len; }
    }
    let c = EncoderConfig::default().set_match_src(SrcMatcherConfig::new(step, Some(1 << 20)));
    ctx.desc = format!("edited in place: source {n}B, window 1 MiB, step {step}, {} pieces, {behind} in the window, target {}B", p.pieces.len(), p.trgt.len());
    ctx.count("windowed_sources", 1);
    ctx.count("pieces_in_the_window", behind);
    judge(ctx, &p, &c, 16, 2, false)
}
/// nothing to share, under any options
fn fresh_case(ctx: &mut Ctx, rng: &mut Rng, max: usize) -> R {
    let (n, t) = (gen::len(rng, max), gen::len(rng, max));
    let (src, trgt) = (rng.vec(n), rng.vec(t));
    let c = if max > 10_000 { gen::config_large(rng) } else { gen::config(rng, max) };
    ctx.desc = format!("nothing to share: source {n}B, target {t}B cfg[{}]", c.desc.trim());
    ctx.sign(&trgt); ctx.signs(&c.desc);
    ctx.nontrivial = t > 0;
    ctx.blob("src", &src); ctx.blob("trgt", &trgt);
    let b = ok!(encode(Some(&src), &trgt, &c.cfg), "encode-err", "encode [{}]", ctx.desc);
    let over = b.len().saturating_sub(t) as u64;
    ctx.max("max_overhead_bytes_up_to_4k", if t <= 4096 { over } else { 0 });
    ctx.max("max_overhead_bytes_above_4k", if t > 4096 { over } else { 0 });
    let bound = t + t / 200 + 64;
    ensure!(b.len() <= bound, "overhead", "a target of {t} bytes with nothing to share becomes a patch of {} bytes (allowed {bound}) [{}]", b.len(), ctx.desc);
    ctx.count("incompressible_targets", 1);
    Ok(())
}
fn fresh(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { let m = *rng.pick(&[30usize, 300, 5000]); fresh_case(ctx, rng, m) }
fn fresh_big(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { fresh_case(ctx, rng, 400_000) }
/// files of any texture, unchanged or with one small change
fn nearly(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let n = rng.lrange(200, 60_000);
    let src = gen::content(rng, n);
    let mut t = src.clone();
    let f = match rng.below(3) { 0 => 0, _ => rng.below(200) };
    let at = match rng.below(4) { 0 => 0, 1 => n, _ => rng.below(n + 1) };
    let ins = rng.vec(f);
    let what = match rng.below(3) {
        0 => { t.splice(at..at, ins); "insertion" }
        1 => { let e = (at + f).min(n); t.drain(at..e); "deletion" }
        _ => { let e = (at + f).min(n); t.splice(at..e, ins); "replacement" }
    };
    let (s, mut d) = src_cfg(rng);
    let step = s.l_step;
    let mut c = EncoderConfig::default().set_match_src(s);
    if rng.pct(40) { let lv = rng.below(10); c = c.set_match_target(TrgtMatcherConfig::comp_level(lv)); d += &format!("trgt(l{lv}) "); }
    c = around(rng, c, &mut d);
    ctx.desc = format!("{what} of {f} bytes at {at} of {n} cfg[{}]", d.trim());
    ctx.sign(&t); ctx.signs(&d);
    ctx.nontrivial = true;
    ctx.blob("src", &src); ctx.blob("trgt", &t);
    let b = ok!(encode(Some(&src), &t, &c), "encode-err", "encode [{}]", ctx.desc);
    // repetitive data makes places of the source indistinguishable; what comes before the change is found all the same
    let grams: std::collections::HashSet<&[u8]> = src.windows(9).collect();
    let plain = grams.len() * 100 >= (n - 8) * 97;
    let bound = if plain { f + 300 + 20 * step + n / 3 }
        else if at > 200 && src[..4].iter().any(|b| *b != src[0]) && src[0] != 0 { t.len() - at.min(t.len()) + f + 200 + t.len() / 200 }
        else { t.len() + t.len() / 200 + 64 };
    if plain { ctx.count("slightly_changed_distinct_files", 1); }
    ctx.max("max_slightly_changed_patch_over_change", (b.len().saturating_sub(f)) as u64);
    ctx.max("max_slightly_changed_permille_of_bound", (b.len() * 1000 / bound) as u64);
    ensure!(b.len() <= bound, "edit-size", "a change of {f} bytes in {n} becomes a patch of {} bytes (allowed {bound}) [{}]", b.len(), ctx.desc);
    ctx.count("slightly_changed_files", 1);
    Ok(())
}
#[allow(dead_code)] fn _v() -> Option<Viol> { None }
pub fn scens() -> Vec<Scen> {
    vec![
        Scen { name: "moves", weight: 20, min: (2_000, 40_000), cpu_limit: 90, run: moves },
        Scen { name: "moves_big", weight: 1, min: (12, 300), cpu_limit: 300, run: moves_big },
        Scen { name: "single", weight: 10, min: (2_000, 40_000), cpu_limit: 60, run: single },
        Scen { name: "selfs", weight: 12, min: (1_500, 30_000), cpu_limit: 90, run: selfs },
        Scen { name: "selfs_big", weight: 1, min: (12, 300), cpu_limit: 300, run: selfs_big },
        Scen { name: "appended", weight: 6, min: (600, 12_000), cpu_limit: 90, run: appended },
        Scen { name: "late", weight: 0, min: (12, 200), cpu_limit: 300, run: late },
        Scen { name: "window", weight: 1, min: (12, 200), cpu_limit: 300, run: window },
        Scen { name: "fresh", weight: 8, min: (3_000, 60_000), cpu_limit: 60, run: fresh },
        Scen { name: "fresh_big", weight: 2, min: (60, 1_000), cpu_limit: 120, run: fresh_big },
        Scen { name: "nearly", weight: 8, min: (2_000, 40_000), cpu_limit: 60, run: nearly },
    ]
}
