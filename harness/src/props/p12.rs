//! P12: damaged or mismatched patches are reported, and whatever is accepted is decoded as the format says.
use super::hostile;
use super::util::*;
use crate::mon::{Ctx, R};
use crate::refm::{self, ROp};
use crate::rng::Rng;
use crate::{ensure, gen, Scen};
use std::io::Cursor;

fn base(rng: &mut Rng, max: usize) -> (Vec<u8>, Vec<u8>, Vec<(Vec<ROp>, u8, bool)>, Vec<u8>) {
    let n = gen::len(rng, max);
    let src = gen::content(rng, n);
    let (p, s, t) = refm::random_patch(rng, &src, max, true, &[1, 2, 3]);
    (src, p, s, t)
}
/// every strict prefix of a valid patch
fn prefixes(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let (src, p) = if rng.pct(70) { let (s, p, ..) = base(rng, 500); (s, p) } else { let pr = gen::pair(rng, 500); let c = gen::config(rng, 500); let p = crate::ok!(encode(Some(&pr.src), &pr.trgt, &c.cfg), "encode-err", "encode"); (pr.src, p) };
    ctx.desc = format!("prefixes of a patch of {} bytes, first {:02x?}", p.len(), &p[..p.len().min(16)]);
    ctx.sign(&p);
    ctx.blob("patch", &p); ctx.blob("src", &src);
    ctx.nontrivial = p.len() > 2;
    let dense = p.len() <= 300;
    for n in 0..p.len() {
        if !dense && n > 40 && n + 40 < p.len() && !rng.pct((20_000 / p.len()).clamp(2, 100) as u32) { continue; }
        ensure!(apply(&p[..n], Some(&src)).is_err(), "prefix", "a patch of {} bytes cut to {n} bytes was applied without an error [{}]", p.len(), ctx.desc);
        ctx.count("prefixes_refused", 1);
        if rng.pct(5) { ensure!(smdiff_merger::extract_patch_instructions(Cursor::new(&p[..n])).is_err(), "prefix-extract", "operations were extracted from a patch cut to {n} of {} bytes", p.len()); }
    }
    Ok(())
}
/// large patches cut near their end, near section ends and near multiples of common buffer sizes
fn prefixes_big(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let n = rng.lrange(1, 100_000);
    let src = gen::content(rng, n);
    let p = match rng.below(4) { 3 => { let k = refm::multi_count(rng, 20_000); refm::multi_patch(rng, &src, k, true).0 } 0 => { let k = rng.lrange(2000, 20_000); refm::many_patch(rng, &src, k, true).0 } 1 => { let t = rng.lrange(10_000, 3_000_000); refm::bulk_patch(rng, &src, t, true).0 } _ => refm::random_patch(rng, &src, 300_000, true, &[1, 2, 3]).0 };
    ctx.desc = format!("prefixes of a patch of {} bytes, first {:02x?}", p.len(), &p[..p.len().min(16)]);
    ctx.sign(&p);
    ctx.blob("patch", &p); ctx.blob("src", &src);
    ctx.nontrivial = true;
    for _ in 0..40 {
        let n = match rng.below(4) { 0 => p.len() - 1 - rng.below(p.len().min(40)), 1 => rng.below(p.len()), _ => { let u = 1usize << rng.range(9, 20); (rng.range(0, p.len() / u) * u + rng.below(3)).saturating_sub(1) } }.min(p.len() - 1);
        ensure!(apply(&p[..n], Some(&src)).is_err(), "prefix", "a patch of {} bytes cut to {n} bytes was applied without an error [{}]", p.len(), ctx.desc);
        ctx.count("prefixes_refused", 1);
    }
    Ok(())
}
/// what needs no source to be seen is also reported by whatever else takes the patch
fn unread(ctx: &mut Ctx, b: &[u8], what: &str) -> R {
    let desc = ctx.desc.clone();
    let no = |who: &str| crate::mon::Viol::new(&format!("{who}-accepts:{}", what.replace(' ', "-")), format!("{who} reports no error although the patch has an injury ({what}) [{desc}]"));
    if smdiff_decoder::reader::SectionIterator::new(Cursor::new(b)).all(|r| r.is_ok()) { return Err(no("section iterator")); }
    let mut it = smdiff_decoder::reader::SectionIterator::new(Cursor::new(b));
    let mut bad = false;
    while let Some(r) = it.next_borrowed() { if r.is_err() { bad = true; break; } }
    if !bad { return Err(no("borrowing iterator")); }
    if smdiff_merger::extract_patch_instructions(Cursor::new(b)).is_ok() { return Err(no("extract")); }
    if smdiff_merger::Merger::new(Cursor::new(b)).is_ok() { return Err(no("merger")); }
    let mut o = vec![];
    if smdiff_merger::transcoder::transcode(&mut Cursor::new(b), &mut o, smdiff_common::Format::Interleaved, None, 1 << 20).is_ok() { return Err(no("transcode")); }
    ctx.count("injuries_refused_by_all_takers", 1);
    Ok(())
}
/// one inconsistency at a time, in any section, layout and compression
fn injuries(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let n = rng.range(1, 400);
    let src = rng.vec(n);
    let ns = rng.range(1, 4);
    let mut out = vec![];
    let mut lists: Vec<Vec<ROp>> = (0..ns).map(|_| { let k = rng.range(1, 10); refm::random_ops(rng, &src, &mut out, k, 300, 4000) }).collect();
    // sections of the builder may come out empty when the limit is hit: not here
    let at = rng.below(ns);
    let mut have_src = true;
    let start: u64 = lists[..at].iter().flatten().map(|o| o.len()).sum();
    let j = rng.below(lists[at].len() + 1);
    let pos: u64 = start + lists[at][..j].iter().map(|o| o.len()).sum::<u64>();
    let k = 1 + if rng.pct(60) { rng.below(3) as u64 } else { rng.ulog() >> 1 };
    let small_k = (k % 60_000).max(1);
    // an operation to slip in
    let what = match rng.below(11) {
        0 => { let l = rng.range(1, 65535) as u64; let end = (src.len() as u64).saturating_add(k.min(1 << 62)); lists[at].insert(j, ROp::D { addr: end.saturating_sub(l), len: l.min(end) as u16 }); "copy beyond the source" }
        1 => { lists[at].insert(j, ROp::D { addr: u64::MAX - rng.below(70_000) as u64, len: rng.range(1, 65535) as u16 }); "copy at the end of the address range" }
        2 => { let l = rng.range(1, 65535) as u64; let end = pos.saturating_add(k.min(1 << 62)); lists[at].insert(j, ROp::O { addr: end.saturating_sub(l), len: l.min(end) as u16 }); "copy of output not yet produced" }
        3 => { lists[at].insert(j, ROp::O { addr: u64::MAX - rng.below(70_000) as u64, len: rng.range(1, 65535) as u16 }); "output copy at the end of the address range" }
        4 => { let l = rng.range(1, n) as u16; lists[at].insert(j, ROp::D { addr: 0, len: l }); have_src = false; "source copy without a source" }
        5 => "operation count", 6 => "output size", 7 => "add bytes", 8 => "unknown compression", 9 => "continuation on the last section", _ => "continuation missing",
    };
    let mut b = vec![];
    let mut sizes = vec![];
    for (i, ops) in lists.iter().enumerate() {
        let seg = if what == "add bytes" && i == at { true } else { rng.pct(50) };
        let mut algo = if rng.pct(50) { rng.below(4) as u8 } else { 0 };
        let (mut nops, mut adds, mut out) = (ops.len() as u64, ops.iter().map(|x| if let ROp::Add(b) = x { b.len() as u64 } else { 0 }).sum::<u64>(), ops.iter().map(|x| x.len()).sum::<u64>());
        let mut more = i + 1 < ns;
        let body = refm::body(ops, seg, Some(rng));
        let zalgo = algo;
        if i == at {
            match what {
                "operation count" => nops = if rng.pct(50) { nops + small_k } else { nops - 1 },
                "output size" => if rng.pct(50) { out += small_k } else { out -= small_k.min(out - adds).max(if out > adds { 1 } else { 0 }); if out == ops.iter().map(|x| x.len()).sum::<u64>() { out += 1 } },
                "add bytes" => { let d = 1 + rng.below(20) as u64; if rng.pct(50) || adds == 0 { adds += d; if rng.pct(50) { out += d } else { out = out.max(adds) } } else { adds -= d.min(adds) } }
                "unknown compression" => algo = 4 + rng.below(4) as u8,
                _ => {}
            }
        }
        if what == "continuation on the last section" && i + 1 == ns { more = true; }
        refm::header(&mut b, algo, seg, more, nops, adds, out);
        let z = refm::squeeze(rng, zalgo, &body);
        b.extend_from_slice(&z);
        sizes.push(b.len());
    }
    if what == "continuation missing" { // the patch is cut at a section boundary with the flag still saying more follows
        if ns == 1 { return Ok(()); }
        b.truncate(sizes[rng.below(ns - 1)]);
    }
    ctx.desc = format!("{what} in section {at} of {ns}: {}", lists.iter().map(|l| refm::show(l)).collect::<Vec<_>>().join(" | ").chars().take(300).collect::<String>());
    ctx.sign(&b);
    ctx.blob("patch", &b); ctx.blob("src", &src);
    ctx.nontrivial = true;
    let r = apply(&b, if have_src { Some(&src) } else { None });
    ensure!(r.is_err(), &format!("accepted:{}", what.replace(' ', "-")), "applied without an error although it has an injury ({what}) [{}]", ctx.desc);
    if matches!(what, "operation count" | "output size" | "add bytes" | "unknown compression" | "continuation on the last section" | "continuation missing") { unread(ctx, &b, what)?; }
    let key: &'static str = match what { "copy beyond the source" => "refused_source_range", "copy at the end of the address range" => "refused_source_wrap", "copy of output not yet produced" => "refused_output_range", "output copy at the end of the address range" => "refused_output_wrap", "source copy without a source" => "refused_no_source", "operation count" => "refused_count", "output size" => "refused_output_size", "add bytes" => "refused_add_bytes", "unknown compression" => "refused_algo", "continuation on the last section" => "refused_continuation", _ => "refused_cut_at_section" };
    ctx.count(key, 1);
    Ok(())
}
/// one inconsistency inside the inner patch of a section compressed with smdiff
fn inner_injuries(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let n = rng.range(1, 300);
    let src = rng.vec(n);
    let ns = rng.range(1, 3);
    let mut out = vec![];
    let lists: Vec<Vec<ROp>> = (0..ns).map(|_| { let k = rng.range(1, 8); refm::random_ops(rng, &src, &mut out, k, 300, 3000) }).collect();
    let at = rng.below(ns);
    let mut b = vec![];
    let mut what = "";
    for (i, ops) in lists.iter().enumerate() {
        let seg = rng.pct(50);
        let algo = if i == at { 1 } else { rng.below(4) as u8 };
        let adds = ops.iter().map(|x| if let ROp::Add(b) = x { b.len() as u64 } else { 0 }).sum::<u64>();
        let body = refm::body(ops, seg, Some(rng));
        refm::header(&mut b, algo, seg, i + 1 < ns, ops.len() as u64, adds, ops.iter().map(|x| x.len()).sum::<u64>());
        if i != at { let z = refm::squeeze(rng, algo, &body); b.extend_from_slice(&z); continue; }
        // operations that make the section's bytes, in a few inner sections
        let mut flat: Vec<(ROp, usize)> = vec![];
        let mut p = 0;
        while p < body.len() {
            let l = rng.range(1, 60).min(body.len() - p);
            let seen = if p >= l { body[..p].windows(l).position(|w| *w == body[p..p + l]) } else { None };
            flat.push((match seen { Some(a) if rng.pct(60) => ROp::O { addr: a as u64, len: l as u16 }, _ => ROp::Add(body[p..p + l].to_vec()) }, p));
            p += l;
        }
        let k = rng.range(1, 3).min(flat.len().max(1));
        let mut cuts: Vec<usize> = (1..k).map(|_| rng.below(flat.len() + 1)).collect();
        cuts.sort();
        let kind = rng.below(9);
        // one more is only sure to be wrong at the end, where bytes are left over
        let j = if kind == 3 { flat.len() } else { rng.below(flat.len() + 1) };
        let pos = if j < flat.len() { flat[j].1 } else { body.len() } as u64;
        let far = 1 + if rng.pct(60) { rng.below(3) as u64 } else { rng.ulog() >> 2 };
        let bad = match kind {
            0 => { what = "source copy"; let l = rng.range(1, 65535) as u16; Some(ROp::D { addr: if rng.pct(50) { 0 } else { rng.ulog() }, len: l }) }
            1 => { what = "copy of output not yet produced"; let l = rng.range(1, 65535) as u64; let end = pos.saturating_add(far); Some(ROp::O { addr: end.saturating_sub(l), len: l.min(end) as u16 }) }
            2 => { what = "copy at the end of the address range"; Some(ROp::O { addr: u64::MAX - rng.below(70_000) as u64, len: rng.range(1, 65535) as u16 }) }
            3 => { what = "one operation more"; Some(ROp::Add(rng.rvec(1, 5))) }
            4 => { what = "operation count"; None }
            5 => { what = "output size"; None }
            6 => { what = "add bytes"; None }
            7 => { what = "nested compression"; None }
            _ => { what = if i + 1 == ns { "continuation on the last section" } else { "nested compression" }; None }
        };
        let mut plain: Vec<ROp> = flat.into_iter().map(|x| x.0).collect();
        let mut hurt = cuts.iter().filter(|c| **c <= j).count();
        if let Some(o) = bad { plain.insert(j, o); for c in cuts.iter_mut() { if *c > j { *c += 1; } } }
        hurt = hurt.min(k - 1);
        cuts.insert(0, 0); cuts.push(plain.len());
        for q in 0..k {
            let part = &plain[cuts[q]..cuts[q + 1]];
            let mut seg = rng.pct(50);
            let (mut c, mut a, mut o, mut algo) = (part.len() as u64, part.iter().map(|x| if let ROp::Add(b) = x { b.len() as u64 } else { 0 }).sum::<u64>(), part.iter().map(|x| x.len()).sum::<u64>(), 0);
            let mut more = q + 1 < k;
            if q == hurt { match what {
                "operation count" => if rng.pct(50) || c == 0 { c += 1 + rng.below(3) as u64 } else { c -= 1 },
                "output size" => if rng.pct(50) || o == a { o += 1 + rng.below(9) as u64 } else { o -= 1 },
                "add bytes" => { seg = true; let d = 1 + rng.below(9) as u64; if rng.pct(50) || a == 0 { a += d; if rng.pct(50) || o < a { o += d } } else { a -= d.min(a) } }
                "nested compression" => algo = 1 + rng.below(7) as u8,
                _ => {}
            } }
            if what == "continuation on the last section" { more = true; }
            refm::header(&mut b, algo, seg, more, c, a, o);
            let z = refm::body(part, seg, None);
            b.extend_from_slice(&if (1..4).contains(&algo) && rng.pct(80) { refm::squeeze(rng, algo, &z) } else { z });
        }
    }
    ctx.desc = format!("inner patch of section {at} of {ns}: {what}; {} bytes: {:02x?}", b.len(), &b[..b.len().min(80)]);
    ctx.sign(&b);
    ctx.blob("patch", &b); ctx.blob("src", &src);
    ctx.nontrivial = true;
    let r = apply(&b, Some(&src));
    ensure!(r.is_err(), &format!("accepted-inner:{}", what.replace(' ', "-")), "applied without an error although a compressed section's inner patch has an injury ({what}) [{}]", ctx.desc);
    unread(ctx, &b, what)?;
    ctx.count("inner_injuries_refused", 1);
    Ok(())
}
/// Whatever is accepted decodes to what the independent model says; whatever the model refuses is refused.
fn differential(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let n = gen::len(rng, 600);
    let src = gen::content(rng, n);
    let (p, kind) = hostile::patch(rng, &src);
    ctx.desc = format!("{kind} {} bytes: {:02x?}", p.len(), &p[..p.len().min(60)]);
    ctx.sign(&p);
    ctx.blob("patch", &p); ctx.blob("src", &src);
    ctx.nontrivial = true;
    let got = apply(&p, Some(&src));
    let model = refm::parse(&p).and_then(|m| { refm::legal_sizes(&m)?; let t = refm::apply(&m, &src, CAP)?; Ok((m, t)) });
    match (&got, &model) {
        (Ok(g), Ok((_, t))) => { ensure!(g == t, "differs", "accepted, but {} [{}]", diff_at(g, t), ctx.desc); ctx.count("both_accept", 1); }
        // what counts as damage inside a compressed stream, beyond a wrong checksum, is up to the codec
        (Ok(_), Err(e)) if e.starts_with("zstd") && !e.contains("checksum") => ctx.count("codec_lenient", 1),
        (Ok(g), Err(e)) => {
            crate::viol!("accepted-bad", "accepted with {} bytes of output although it is malformed: {e} [{}]", g.len(), ctx.desc) }
        (Err(_), Ok((m, _))) => { // refusing something valid is judged where only plain sections are involved
            ensure!(m.secs.iter().any(|s| s.algo != 0), "refused-good", "refused ({}) although it is well-formed [{}]", got.as_ref().unwrap_err(), ctx.desc); ctx.count("refused_compressed_only", 1); }
        (Err(_), Err(_)) => ctx.count("both_refuse", 1),
    }
    Ok(())
}
/// a section whose compressed data fails its own checksum
fn checksum(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let (k, mut out) = (rng.range(1, 12), vec![]);
    let ops = refm::random_ops(rng, &[], &mut out, k, 300, 3000);
    let seg = rng.pct(50);
    let adds: u64 = ops.iter().map(|x| if let ROp::Add(b) = x { b.len() as u64 } else { 0 }).sum();
    let mut b = vec![];
    refm::header(&mut b, 2, seg, false, ops.len() as u64, adds, out.len() as u64);
    let mut e = zstd::Encoder::new(Vec::new(), 1 + rng.below(9) as i32).unwrap();
    e.include_checksum(true).unwrap();
    std::io::Write::write_all(&mut e, &refm::body(&ops, seg, Some(rng))).unwrap();
    b.extend(e.finish().unwrap());
    ctx.desc = format!("zstd section with a checksum, {} operations", ops.len());
    ctx.sign(&b);
    ctx.nontrivial = true;
    let good = crate::ok!(apply(&b, None), "checksum-good", "a correct checksum [{}]", ctx.desc);
    ensure!(good == out, "differs", "{}", diff_at(&good, &out));
    let n = b.len();
    b[n - 1 - rng.below(4)] ^= 1 << rng.below(8);
    ctx.blob("patch", &b);
    ensure!(apply(&b, None).is_err(), "accepted:checksum", "applied although the checksum of the compressed section is wrong [{}]", ctx.desc);
    ctx.count("refused_checksum", 1);
    Ok(())
}
/// the right patch on the wrong source: shorter, or none
fn wrong_source(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let pr = gen::pair(rng, 800);
    let c = gen::config(rng, 800);
    describe(ctx, &pr, &c);
    let p = crate::ok!(encode(Some(&pr.src), &pr.trgt, &c.cfg), "encode-err", "encode");
    let m = refm::parse(&p).map_err(|e| crate::mon::Viol::new("format", e))?;
    let need = m.secs.iter().flat_map(|s| &s.ops).filter_map(|o| if let ROp::D { addr, len } = o { Some(addr + *len as u64) } else { None }).max();
    let Some(need) = need else { return Ok(()) };
    ctx.nontrivial = true;
    let cut = if rng.pct(50) { need as usize - 1 } else { rng.below(need as usize) };
    ensure!(apply(&p, Some(&pr.src[..cut])).is_err(), "short-source", "a source cut to {cut} bytes was accepted, {need} are needed [{}]", ctx.desc);
    ensure!(apply(&p, None).is_err(), "no-source", "accepted without a source [{}]", ctx.desc);
    // a predecessor whose output is too short for what the terminal patch copies
    let (short, _, t) = refm::random_patch(rng, &[], cut.max(1), false, &[]);
    if (t.len() as u64) < need {
        if let Ok(End::More(mg)) = merge_start(&p) { ensure!(merge_step(mg, &short).is_err(), "merge-short", "a predecessor with {} bytes of output was merged, {need} are needed [{}]", t.len(), ctx.desc); ctx.count("merges_refused", 1); }
    }
    ctx.count("wrong_sources_refused", 2);
    Ok(())
}
pub fn scens() -> Vec<Scen> {
    vec![
        Scen { name: "prefixes", weight: 10, min: (1_000, 20_000), cpu_limit: 60, run: prefixes },
        Scen { name: "prefixes_big", weight: 1, min: (40, 1000), cpu_limit: 200, run: prefixes_big },
        Scen { name: "injuries", weight: 30, min: (25_000, 400_000), cpu_limit: 60, run: injuries },
        Scen { name: "inner_injuries", weight: 10, min: (8_000, 100_000), cpu_limit: 60, run: inner_injuries },
        Scen { name: "checksum", weight: 3, min: (500, 10_000), cpu_limit: 60, run: checksum },
        Scen { name: "differential", weight: 30, min: (20_000, 500_000), cpu_limit: 60, run: differential },
        Scen { name: "wrong_source", weight: 10, min: (3_000, 60_000), cpu_limit: 60, run: wrong_source },
    ]
}
