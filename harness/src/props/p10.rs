//! P10: whatever bytes are presented as a patch, every entry point returns (a result or an error).
use super::hostile;
use super::util::*;
use crate::mon::{self, Ctx, R};
use crate::refm;
use crate::rng::Rng;
use crate::{gen, viol, Scen};
use std::io::Cursor;

/// Runs every consumer of patches on `p`. Panics are caught here so that each one is named after its entry point.
pub fn all_entry_points(ctx: &mut Ctx, rng: &mut Rng, p: &[u8], src: &[u8]) -> R {
    let mut verdicts: Vec<(&'static str, bool)> = vec![];
    let mut out_len = u64::MAX;
    macro_rules! go { ($name:expr, $body:expr) => { match mon::catch(|| -> bool { $body }) { Ok(okk) => verdicts.push(($name, okk)), Err(i) => { if i.ours() { panic!("{}:{} {}", i.file, i.line, i.msg); } viol!(&format!("panic:{}:{}", $name, i.site()), "{} panicked at {}:{}: {} [{}]", $name, i.file, i.line, i.msg, ctx.desc) } } } }
    // what is left in the caller's buffer after a failure is the caller's to look at
    go!("read_section", { let mut v = vec![]; let k = smdiff_reader::read_section(&mut Cursor::new(p), &mut v).is_ok(); mon::look_ops(&v); k });
    go!("read_ops_no_comp", { let mut c = Cursor::new(p); match smdiff_reader::read_section_header(&mut c) { Err(_) => false, Ok(mut h) => {
        let mut v = vec![smdiff_common::Op::Run(smdiff_common::Run { byte: 1, len: 1 })];
        let k = smdiff_reader::read_ops_no_comp(&mut c, &mut h, &mut v).is_ok();
        mon::look_ops(&v);
        k
    } } });
    go!("reader iterator", { let mut k = true; for r in smdiff_reader::SectionIterator::new(Cursor::new(p)) { match r { Ok((o, _)) => mon::look_ops(&o), Err(_) => { k = false; break; } } } k });
    go!("reader borrowed", { let mut it = smdiff_reader::SectionIterator::new(Cursor::new(p)); let mut k = true; while let Some(r) = it.next_borrowed() { match r { Ok((o, _)) => mon::look_ops(o), Err(_) => { k = false; break; } } } k });
    go!("decoder iterator", { let mut k = true; for r in smdiff_decoder::reader::SectionIterator::new(Cursor::new(p)) { match r { Ok((o, _)) => mon::look_ops(&o), Err(_) => { k = false; break; } } } k });
    go!("decoder borrowed", { let mut it = smdiff_decoder::reader::SectionIterator::new(Cursor::new(p)); let mut k = true; while let Some(r) = it.next_borrowed() { match r { Ok((o, _)) => mon::look_ops(o), Err(_) => { k = false; break; } } } k });
    // a caller that skips what it cannot read still comes to the end: every section takes at least three bytes
    let most = p.len() + 4;
    macro_rules! drain { ($name:expr, $next:expr) => {{ let mut it = $next; let mut n = 0usize; go!($name, { while n <= most && it() { n += 1; } n <= most }); if n > most { viol!(concat!("endless:", $name), "{}: more than {most} items from {} bytes, the end is never reached [{}]", $name, p.len(), ctx.desc) } }} }
    drain!("drain reader iterator", { let mut it = smdiff_reader::SectionIterator::new(Cursor::new(p)); move || it.next().is_some() });
    drain!("drain reader borrowed", { let mut it = smdiff_reader::SectionIterator::new(Cursor::new(p)); move || it.next_borrowed().is_some() });
    drain!("drain decoder iterator", { let mut it = smdiff_decoder::reader::SectionIterator::new(Cursor::new(p)); move || it.next().is_some() });
    drain!("drain decoder borrowed", { let mut it = smdiff_decoder::reader::SectionIterator::new(Cursor::new(p)); move || it.next_borrowed().is_some() });
    go!("apply with source", { let mut s = hostile::NullSink { pos: 0, len: 0 }; smdiff_decoder::apply_patch(&mut Cursor::new(p), Some(&mut Cursor::new(src)), &mut s).is_ok() });
    go!("apply without source", { let mut s = hostile::NullSink { pos: 0, len: 0 }; smdiff_decoder::apply_patch::<_, Cursor<&[u8]>, _>(&mut Cursor::new(p), None, &mut s).is_ok() });
    go!("apply to a vector", { if p.len() < 6000 { let mut s = Cursor::new(vec![1u8; rng.below(200)]); let k = smdiff_decoder::apply_patch(&mut Cursor::new(p), Some(&mut Cursor::new(src)), &mut s).is_ok(); mon::look(s.get_ref()); k } else { false } });
    go!("extract", { match smdiff_merger::extract_patch_instructions(Cursor::new(p)) { Ok((_, s)) => { out_len = s.output_size as u64; true } Err(_) => false } });
    // resolving output copies may multiply operations; that is finite, and kept small here
    if out_len == u64::MAX || out_len < 60_000 {
        let (good, _, _) = refm::random_patch(rng, src, 300, false, &[]);
        go!("merger new+finish", { match merge_start(p) { Ok(e) => { let o = out_opts(rng, 300); if let Ok(b) = write_summary(e.summary(), &o) { mon::look(&b); } true } Err(_) => false } });
        go!("merge into it", { match merge_start(p) { Ok(End::More(m)) => { match merge_step(m, &good) { Ok(e) => { mon::look_ops(&e.summary().take_ops()); true } Err(_) => false } } Ok(_) => true, Err(_) => false } });
        go!("merge it in", { match merge_start(&good) { Ok(End::More(m)) => match merge_step(m, p) { Ok(e) => { mon::look_ops(&e.summary().take_ops()); true } Err(_) => false }, _ => true } });
        go!("merge with itself", { match merge_start(p) { Ok(End::More(m)) => match merge_step(m, p) { Ok(e) => { mon::look_ops(&e.summary().take_ops()); true } Err(_) => false }, Ok(_) => true, Err(_) => false } });
        go!("transcode", { let o = out_opts(rng, 300); match transcode(p, &o) { Ok(b) => { mon::look(&b); true } Err(_) => false } });
    }
    for (_, k) in &verdicts { ctx.count(if *k { "calls_ok" } else { "calls_refused" }, 1); }
    let mask = verdicts.iter().fold(0u64, |m, v| m << 1 | v.1 as u64);
    ctx.sign(&mask.to_le_bytes());
    Ok(())
}
fn any(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let n = gen::len(rng, 1500);
    let src = gen::content(rng, n);
    let (p, kind) = hostile::patch(rng, &src);
    ctx.desc = format!("{kind} {} bytes: {:02x?}", p.len(), &p[..p.len().min(40)]);
    ctx.sign(&p);
    ctx.blob("patch", &p); ctx.blob("src", &src);
    ctx.nontrivial = !p.is_empty();
    ctx.count(match kind { "mutated" => "in_mutated", "spliced" => "in_spliced", "truncated" => "in_truncated", "crafted" => "in_crafted", _ => "in_noise" }, 1);
    all_entry_points(ctx, rng, &p, &src)
}
/// corrupted compressed payloads, deep inside the compressed streams
fn payload(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let n = gen::len(rng, 3000);
    let src = gen::content(rng, n);
    let algo = rng.range(1, 3) as u8;
    let mut out = vec![];
    let k = rng.lrange(1, 60);
    let ops = refm::random_ops(rng, &src, &mut out, k, 2000, 30_000);
    let seg = rng.pct(50);
    let (mut h, body) = (vec![], refm::body(&ops, seg, None));
    let adds: u64 = ops.iter().map(|x| if let refm::ROp::Add(b) = x { b.len() as u64 } else { 0 }).sum();
    refm::header(&mut h, algo, seg, false, ops.len() as u64, adds, out.len() as u64);
    let z = refm::squeeze(rng, algo, &body);
    for _ in 0..8 {
        let mut z = z.clone();
        hostile::mutate(rng, &mut z);
        let mut p = h.clone(); p.extend_from_slice(&z);
        ctx.desc = format!("algo {algo} payload of {} bytes damaged: {:02x?}", z.len(), &p[..p.len().min(40)]);
        ctx.sign(&p);
        ctx.nontrivial = true;
        ctx.blob("patch", &p); ctx.blob("src", &src);
        ctx.count("in_payload", 1);
        all_entry_points(ctx, rng, &p, &src)?;
    }
    Ok(())
}
/// all patches of up to three bytes, and short ones over an alphabet of telling bytes
fn exhaustive(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> R {
    let telling = [0u8, 1, 2, 3, 4, 0x3e, 0x3f, 0x40, 0x41, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xc1, 0xfe, 0xff, 0x08, 0x10, 0x18, 0x20, 0x88, 0x50];
    let src = [5u8; 20];
    for j in 0..23u64 {
        for _ in 0..20 {
            let n = rng.range(1, 9);
            let mut p: Vec<u8> = (0..n).map(|_| *rng.pick(&telling)).collect();
            p[0] = telling[j as usize];
            if n > 1 { p[1] = telling[(idx % 23) as usize]; }
            if n > 2 { p[2] = telling[(idx / 23 % 23) as usize]; }
            ctx.desc = format!("short {:02x?}", p);
            ctx.sign(&p);
            ctx.blob("patch", &p);
            all_entry_points(ctx, rng, &p, &src)?;
            ctx.count("in_short", 1);
        }
    }
    ctx.nontrivial = true;
    Ok(())
}
/// operations read one at a time from noise, and number readers
fn primitives(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let b = rng.rvec(0, 60);
    ctx.sign(&b);
    ctx.desc = format!("noise {:02x?}", b);
    ctx.nontrivial = true;
    let (mut d, mut o) = (rng.ulog(), rng.ulog());
    let mut c = Cursor::new(&b);
    let il = rng.pct(50);
    for _ in 0..30 { if smdiff_reader::read_op(&mut c, &mut d, &mut o, il).is_err() { break; } ctx.count("ops_read", 1); }
    let mut c = Cursor::new(&b);
    while smdiff_common::read_u_varint(&mut c).is_ok() {}
    let mut c = Cursor::new(&b);
    while smdiff_common::read_i_varint(&mut c).is_ok() {}
    let mut c = Cursor::new(&b);
    while smdiff_reader::read_section_header(&mut c).is_ok() { ctx.count("headers_read", 1); }
    Ok(())
}
/// the same thing over and over: very many sections, operations or references from one operation to the one before
fn repeated(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> R {
    let src = rng.vec(200);
    let mut p = vec![];
    let kind = idx % 5;
    let what = ["empty sections", "small sections", "compressed sections", "chained copies", "one operation"][kind as usize];
    let n;
    match kind {
        0 | 1 => {
            n = if rng.pct(50) { rng.range(100_000, 300_000) } else { rng.lrange(100, 100_000) };
            let mut unit = vec![];
            for _ in 0..rng.range(1, 3) { let k = rng.range(1, 2) * kind as usize; let ops = refm::ops_of_kinds(rng, &src, &mut vec![], k, 3, &[0, 2, 3]); let seg = rng.pct(30); refm::build_section(&mut unit, rng, &ops, 0, seg, true, false); }
            for _ in 0..n { p.extend_from_slice(&unit); }
        }
        2 => {
            n = rng.lrange(100, 6_000);
            let (algo, k) = (1 + rng.below(3) as u8, rng.below(3));
            let ops = refm::ops_of_kinds(rng, &src, &mut vec![], k, 9, &[0, 2, 3]);
            let mut unit = vec![]; refm::build_section(&mut unit, rng, &ops, algo, false, true, false);
            for _ in 0..n { p.extend_from_slice(&unit); }
        }
        3 => {
            // each copy takes what the copy before it gave; below the size that is still resolved for merging
            let l = *rng.pick(&[1usize, 1, 2, 7]);
            n = rng.range(40_000, 59_000) / l;
            let mut ops = vec![if rng.pct(50) { refm::ROp::D { addr: 5, len: l as u16 } } else { refm::ROp::Add(rng.vec(l)) }];
            for i in 0..n - 1 { ops.push(refm::ROp::O { addr: (i * l) as u64, len: l as u16 }); }
            let seg = rng.pct(30);
            for c in ops.chunks(rng.range(1, ops.len())) { refm::build_section(&mut p, rng, c, 0, seg, true, false); }
        }
        _ => {
            n = rng.lrange(1000, 400_000);
            let l = rng.range(1, 3) as u16;
            let op = match rng.below(3) { 0 => refm::ROp::D { addr: 7, len: l }, 1 => refm::ROp::Run { byte: 3, len: l as u8 }, _ => refm::ROp::Add(rng.vec(l as usize)) };
            let algo = if rng.pct(40) { 1 + rng.below(3) as u8 } else { 0 };
            let seg = rng.pct(40);
            refm::build_section(&mut p, rng, &vec![op; n], algo, seg, true, false);
        }
    }
    let end = *rng.pick(&["whole", "whole", "whole", "no end", "cut", "noise"]);
    match end { "whole" => refm::build_section(&mut p, rng, &[], 0, false, false, false), "cut" => { let k = rng.below(p.len()); p.truncate(k); } "noise" => { let x = rng.rvec(1, 20); p.extend(x); } _ => {} }
    ctx.desc = format!("{n} times {what}, {end}, {} bytes: {:02x?}", p.len(), &p[..p.len().min(20)]);
    ctx.sign(&p);
    ctx.nontrivial = true;
    ctx.count("in_repeated", 1);
    ctx.max("max_repetitions", n as u64);
    all_entry_points(ctx, rng, &p, &src)
}
pub fn scens() -> Vec<Scen> {
    vec![
        Scen { name: "repeated", weight: 5, min: (60, 1_500), cpu_limit: 120, run: repeated },
        Scen { name: "any", weight: 50, min: (25_000, 500_000), cpu_limit: 40, run: any },
        Scen { name: "payload", weight: 15, min: (1_500, 40_000), cpu_limit: 60, run: payload },
        Scen { name: "short", weight: 1, min: (529, 5290), cpu_limit: 60, run: exhaustive },
        Scen { name: "primitives", weight: 5, min: (10_000, 100_000), cpu_limit: 40, run: primitives },
    ]
}
