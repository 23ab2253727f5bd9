//! P16: results depend on nothing but the inputs: not on repetition, earlier calls, other threads or buffering.
use super::p13::{job, run, Chunks, Faults, Job, Plain, Wrap, KINDS};
use super::util::*;
use crate::mon::{self, Ctx, R};
use crate::rng::Rng;
use crate::iox::Plan;
use crate::refm;
use smdiff_encoder::writer::section_writer;
use crate::{ensure, gen, ok, viol, Scen};
use std::io::{BufReader, BufWriter, Cursor, Read, Seek, Write};

/// std's buffering in front of every reader and writer.
struct Buffered { rng: Rng }
impl Wrap for Buffered {
    type S<T: Read + Seek> = BufReader<T>;
    type W<T: Write> = BufWriter<T>;
    type B<T: Read + Write + Seek> = T;
    fn r<T: Read + Seek>(&mut self, t: T) -> BufReader<T> { let n = *self.rng.pick(&[1usize, 2, 7, 64, 513, 8192, 1 << 17]); BufReader::with_capacity(n, t) }
    fn w<T: Write>(&mut self, t: T) -> BufWriter<T> { let n = *self.rng.pick(&[1usize, 2, 7, 64, 513, 8192, 1 << 17]); BufWriter::with_capacity(n, t) }
    fn b<T: Read + Write + Seek>(&mut self, t: T) -> T { t }
}
fn cfg_repr(j: &Job) -> String { match j { Job::Encode { cfg, .. } => format!("{:?}", cfg.cfg), Job::Merge { o, .. } | Job::Transcode { o, .. } => format!("{:?} {:?} {:?}", o.fmt, o.sec, o.win), _ => String::new() } }
/// Result of a job, errors included.
pub fn outcome<X: Wrap>(j: &Job, x: &mut X) -> Result<Vec<u8>, String> {
    match mon::catch(|| run(j, x)) { Ok(Ok(v)) => Ok(v), Ok(Err(e)) => Err(format!("error {e}")), Err(p) if p.ours() => panic!("{}:{} {}", p.file, p.line, p.msg), Err(p) => Err(format!("panic at {}: {}", p.file, p.msg)) }
}
fn same(a: &Result<Vec<u8>, String>, b: &Result<Vec<u8>, String>) -> Option<String> {
    match (a, b) { (Ok(x), Ok(y)) if x == y => None, (Ok(x), Ok(y)) => Some(diff_at(x, y)), (Err(x), Err(y)) => if x == y { None } else { Some(format!("{x} / {y}")) }, (Ok(_), Err(e)) => Some(format!("success / {e}")), (Err(e), Ok(_)) => Some(format!("{e} / success")) }
}
/// a draft of one job whose kind is drawn with encode favoured
pub fn draft(ctx: &mut Ctx, rng: &mut Rng, max: usize) -> Result<(Job, String), mon::Viol> {
    let k = if rng.pct(35) { 0 } else { rng.below(KINDS.len() - 2) };
    let j = job(rng, ctx, k, max)?;
    Ok((j, ctx.desc.clone()))
}
fn repeat_case(ctx: &mut Ctx, rng: &mut Rng, max: usize) -> R {
    let (j, d) = draft(ctx, rng, max)?;
    let (other, _) = draft(ctx, rng, max.min(400))?;
    ctx.desc = d;
    ctx.signs(&ctx.desc.clone());
    ctx.nontrivial = true;
    let before = cfg_repr(&j);
    let first = outcome(&j, &mut Plain);
    for n in 0..3 {
        if n == 1 { let _ = outcome(&other, &mut Plain); }
        let again = outcome(&j, &mut Plain);
        if let Some(d) = same(&again, &first) { viol!("repeat", "call {} gave something else than the first one: {d} [{}]", n + 2, ctx.desc) }
        ctx.count("repetitions_compared", 1);
    }
    let b = outcome(&j, &mut Buffered { rng: rng.fork() });
    if let Some(d) = same(&b, &first) { viol!("buffering", "buffered streams gave something else: {d} [{}]", ctx.desc) }
    let m = *rng.pick(&[1usize, 3, 100, 5000]);
    let b = outcome(&j, &mut Chunks { rng: rng.fork(), max: m, intr: 0, calls: Default::default() });
    if let Some(d) = same(&b, &first) { viol!("buffering", "streams handing out at most {m} bytes a call gave something else: {d} [{}]", ctx.desc) }
    ctx.count("rebuffered_compared", 2);
    ensure!(cfg_repr(&j) == before, "config-changed", "the call changed its options: {} -> {} [{}]", before, cfg_repr(&j), ctx.desc);
    Ok(())
}
fn repeat(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { let m = *rng.pick(&[60usize, 400, 4000]); repeat_case(ctx, rng, m) }
fn repeat_big(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { repeat_case(ctx, rng, 300_000) }
/// files on disk instead of memory
fn files(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let m = *rng.pick(&[400usize, 4000, 60_000]);
    let p = gen::pair(rng, m);
    let c = gen::config(rng, m);
    describe(ctx, &p, &c);
    ctx.nontrivial = !p.trgt.is_empty();
    let want = ok!(encode(Some(&p.src), &p.trgt, &c.cfg), "encode-err", "encode [{}]", ctx.desc);
    let dir = std::env::current_dir().unwrap().join(format!("files-{}-{}", std::process::id(), mon::gettid()));
    std::fs::create_dir_all(&dir).unwrap();
    let f = |n: &str| dir.join(n);
    std::fs::write(f("src"), &p.src).unwrap(); std::fs::write(f("trgt"), &p.trgt).unwrap();
    let open = |n: &str| std::fs::File::open(f(n)).unwrap();
    let r = (|| -> std::io::Result<(Vec<u8>, Vec<u8>)> {
        let mut out = std::fs::File::create(f("patch"))?;
        smdiff_encoder::encode(Some(&mut open("src")), &mut open("trgt"), &mut out, &c.cfg)?;
        drop(out);
        let mut sink = std::fs::OpenOptions::new().create(true).read(true).write(true).truncate(true).open(f("out"))?;
        smdiff_decoder::apply_patch(&mut open("patch"), Some(&mut open("src")), &mut sink)?;
        drop(sink);
        Ok((std::fs::read(f("patch"))?, std::fs::read(f("out"))?))
    })();
    for n in ["src", "trgt", "patch", "out"] { let _ = std::fs::remove_file(f(n)); }
    let _ = std::fs::remove_dir(&dir);
    let (patch, out) = ok!(r, "files-err", "encode and apply on files [{}]", ctx.desc);
    ensure!(patch == want, "files-differ", "encoding from files to a file gave something else: {} [{}]", diff_at(&patch, &want), ctx.desc);
    ensure!(out == p.trgt, "files-differ", "applying on files gave something else: {} [{}]", diff_at(&out, &p.trgt), ctx.desc);
    ctx.count("file_backed_compared", 1);
    Ok(())
}
/// many calls at the same time
fn threads(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let max = *rng.pick(&[100usize, 600, 4000, 30_000]);
    let n = rng.range(3, 8);
    let mut jobs = vec![];
    let mut d = String::new();
    for _ in 0..n { let (j, s) = draft(ctx, rng, max)?; d += &s.chars().take(60).collect::<String>(); d.push_str("; "); jobs.push(j); }
    ctx.desc = format!("{n} operations: {d}");
    ctx.signs(&ctx.desc.clone());
    ctx.nontrivial = true;
    let want: Vec<_> = jobs.iter().map(|j| outcome(j, &mut Plain)).collect();
    let nt = rng.range(2, 6);
    let barrier = std::sync::Barrier::new(nt);
    let seeds: Vec<Rng> = (0..nt).map(|_| rng.fork()).collect();
    let (jobs, want, barrier) = (&jobs, &want, &barrier);
    let bad: Vec<String> = std::thread::scope(|s| {
        let hs: Vec<_> = seeds.into_iter().map(|mut r| s.spawn(move || {
            let mut bad = vec![];
            // the same order everywhere at first, so that equal calls overlap, then each thread its own
            let mut order: Vec<usize> = (0..jobs.len()).collect();
            for round in 0..3 {
                if round > 0 { for i in (1..order.len()).rev() { order.swap(i, r.below(i + 1)); } }
                barrier.wait();
                for &i in &order {
                    let got = outcome(&jobs[i], &mut Plain);
                    if let Some(d) = same(&got, &want[i]) { bad.push(format!("operation {i}, round {round}: {d}")); }
                }
            }
            bad
        })).collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    ctx.count("concurrent_calls_compared", (nt * 3 * jobs.len()) as u64);
    ctx.max("max_threads", nt as u64);
    if !bad.is_empty() { viol!("threads", "calls running at the same time on {nt} threads gave something else than alone: {} [{}]", bad[0], ctx.desc) }
    Ok(())
}
/// the same call where the clock, the environment, system randomness, the processors and fresh memory are different
fn worlds(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> R {
    let max = if idx % 4 == 0 { 120_000 } else { *rng.pick(&[60usize, 400, 4000, 30_000]) };
    let (j, d) = draft(ctx, rng, max)?;
    ctx.desc = d;
    ctx.signs(&ctx.desc.clone());
    ctx.nontrivial = true;
    let first = outcome(&j, &mut Plain);
    let asked = |i: usize| crate::world::ASKED[i].load(std::sync::atomic::Ordering::Relaxed);
    let before: Vec<u64> = (0..6).map(asked).collect();
    let steps = [0u64, 1_000, 1_000_000, 200_000_000, 1_000_000_000, 3_600_000_000_000];
    for n in 0..3 {
        let (seed, step) = (rng.u64(), if n == 0 { *rng.pick(&steps[3..]) } else { *rng.pick(&steps) });
        // a thread of its own, so that whatever a thread draws at its start is drawn there
        let got = std::thread::scope(|s| s.spawn(|| crate::world::within(seed, step, || outcome(&j, &mut Plain))).join().unwrap());
        if let Some(d) = same(&got, &first) { viol!("world", "the same call gave something else with another clock ({step} ns a look), environment, randomness, processor count and memory filling: {d} [{}]", ctx.desc) }
        ctx.count("worlds_compared", 1);
    }
    for (i, name) in crate::world::ASKED_NAMES.iter().enumerate() { ctx.count(name, asked(i) - before[i]); }
    Ok(())
}
/// a call leaves nothing behind when it fails: the same call afterwards, with the same options and scratch space, gives what it gives first
fn afterwards(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> R {
    if idx % 3 == 0 { return scratch(ctx, rng); }
    let m = *rng.pick(&[60usize, 400, 4000]);
    let (j, d) = draft(ctx, rng, m)?;
    ctx.desc = d;
    ctx.signs(&ctx.desc.clone());
    let first = outcome(&j, &mut Plain);
    let counting = Plan::new(u64::MAX, 0, false);
    let _ = outcome(&j, &mut Faults { plan: counting.clone(), id: 0 });
    let n = counting.n.get();
    ctx.nontrivial = n > 0;
    for _ in 0..4 {
        let failed = outcome(&j, &mut Faults { plan: Plan::new(rng.below64(n.max(1)), *rng.pick(&[0u8, 1, 3, 4, 9]), rng.pct(50)), id: 0 });
        if failed.is_err() { ctx.count("failed_calls", 1); }
        let again = outcome(&j, &mut Plain);
        if let Some(d) = same(&again, &first) { viol!("afterwards", "after a call that failed, the same call gave something else: {d} [{}]", ctx.desc) }
        ctx.count("calls_after_failures_compared", 1);
    }
    Ok(())
}
/// the section writer's scratch buffer, reused after sections that could and that could not be written
fn scratch(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let (mut scratch, n) = (if rng.pct(20) { rng.rvec(1, 100) } else { vec![] }, rng.range(2, 6));
    ctx.desc = format!("{n} sections with one scratch buffer ({}B in it)", scratch.len());
    ctx.nontrivial = true;
    for i in 0..n {
        let (m, k) = (*rng.pick(&[5usize, 100, 5000]), rng.range(0, 12));
        let src = rng.rvec(0, m);
        let ops: Vec<_> = refm::random_ops(rng, &src, &mut vec![], k, m, m);
        let seg = rng.pct(50);
        let h = super::p04::header_of(&ops, seg, rng.pct(50));
        let (s, sd, _) = gen::sec_comp(rng, true);
        ctx.desc += &format!(" {}ops:{sd}", ops.len());
        let lops: Vec<_> = ops.iter().map(refm::to_op).collect();
        let mut want = vec![];
        ok!(section_writer(&s, h, &mut want, &lops, &mut vec![]), "write-err", "section_writer [{}]", ctx.desc);
        if rng.pct(60) {
            let room = rng.below(want.len());
            let mut small = vec![0u8; room];
            let r = section_writer(&s, h, &mut Cursor::new(&mut small[..]), &lops, &mut scratch);
            ensure!(r.is_err(), "no-room", "a section of {} bytes was written where {room} fit [{}]", want.len(), ctx.desc);
            ctx.desc += "(failed first)";
            ctx.count("failed_calls", 1);
        }
        let mut got = vec![];
        ok!(section_writer(&s, h, &mut got, &lops, &mut scratch), "write-err", "section_writer with a used scratch buffer [{}]", ctx.desc);
        if got != want { viol!("scratch", "section {i} was written differently with a scratch buffer that was used before: {} [{}]", diff_at(&got, &want), ctx.desc) }
        ctx.count("sections_with_used_scratch_compared", 1);
    }
    ctx.signs(&ctx.desc.clone());
    Ok(())
}
/// data that differs from `v` in a few bytes only: same length, and mostly the same beginning, end, or both
fn sibling(rng: &mut Rng, v: &[u8]) -> Vec<u8> {
    let mut w = v.to_vec();
    if w.is_empty() { return w; }
    let n = w.len();
    let (lo, hi) = match rng.below(6) { 0 => (n / 2, n), 1 => (0, n.div_ceil(2)), 2 => (n - 1, n), 3 => (0, 1), _ => (n / 4, (n - n / 4).max(n / 4 + 1)) };
    match rng.below(5) {
        // a stretch of other bytes, long enough to matter to a matcher
        0 | 1 => { let l = rng.range(1, hi - lo); let at = rng.range(lo, hi - l); for x in &mut w[at..at + l] { *x ^= 1 + (rng.byte() & 0x3f); } }
        2 if hi - lo > 1 => { let (a, b) = (rng.range(lo, hi - 1), rng.range(lo, hi - 1)); w.swap(a, b); let c = rng.range(lo, hi - 1); w[c] ^= 1; }
        // the same bytes in another order
        3 if hi - lo > 3 => { let k = rng.range(1, hi - lo - 1); w[lo..hi].rotate_left(k); }
        _ => for _ in 0..rng.range(1, 3) { let at = rng.range(lo, hi - 1); w[at] ^= 1 << rng.below(8); },
    }
    w
}
/// calls whose inputs resemble each other, on one thread, compared with each call on a thread of its own
fn siblings(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> R {
    let n = match rng.below(4) { 0 => rng.range(1, 300), 1 => rng.range(300, 5000), 2 => rng.range(4000, 20_000), _ => rng.lrange(5_000, 150_000) };
    let (g, per) = (gen::len(rng, n), rng.pct(15));
    let a = if per { gen::content(rng, g) } else { rng.vec(n) };
    let mut family = vec![a.clone()];
    for _ in 0..rng.range(1, 2) { let of = rng.pick(&family).clone(); family.push(sibling(rng, &of)); }
    if rng.pct(30) { let mut l = a.clone(); let x = rng.rvec(1, 40); l.extend(x); family.push(l); }
    let kind = idx % 4;
    let what = ["encode, other sources", "encode, other targets", "apply", "merge"][kind as usize];
    let mut jobs = vec![];
    let cfg = gen::config(rng, n);
    let o = out_opts(rng, n);
    // one member is cut up for the target, or for the operations
    let mut out = vec![];
    let ops = refm::ops_of_kinds(rng, &a, &mut out, n.div_ceil(800).min(60) + 2, n.min(3000), &[0, 0, 2, 3]);
    let whole = rng.pct(50);
    match kind {
        0 => { let t = if whole { a.clone() } else { out }; for s in &family { jobs.push(Job::Encode { src: Some(s.clone()), trgt: t.clone(), cfg: cfg.clone() }); } }
        1 => for t in &family { jobs.push(Job::Encode { src: if whole { Some(a.clone()) } else { None }, trgt: t.clone(), cfg: cfg.clone() }); },
        2 => { let p = refm::pack(rng, &ops, true); for s in &family { jobs.push(Job::Apply { patch: p.clone(), src: Some(s.clone()), sink: vec![] }); } }
        _ => {
            // patches that hold one member each, and one that copies from what they give
            let mut x = vec![];
            let last = refm::ops_of_kinds(rng, &a, &mut x, 8, n.min(3000), &[0, 0, 0, 3]);
            let last = refm::pack(rng, &last, false);
            let r0 = rng.clone();
            for t in &family {
                let whole: Vec<refm::ROp> = t.chunks(60_000).map(|c| refm::ROp::Add(c.to_vec())).collect();
                let before = refm::pack(&mut r0.clone(), &whole, false);
                jobs.push(Job::Merge { last: last.clone(), before: before.clone(), o: o.clone() });
                jobs.push(Job::Transcode { patch: before.clone(), o: o.clone() });
                jobs.push(Job::Extract { patch: before });
            }
        }
    }
    ctx.desc = format!("{what}: {} calls on inputs of about {n} bytes, cfg[{}] {}", jobs.len(), cfg.desc, o.desc);
    ctx.sign(&a); ctx.signs(&ctx.desc.clone());
    ctx.nontrivial = true;
    let alone: Vec<_> = jobs.iter().map(|j| std::thread::scope(|s| s.spawn(|| outcome(j, &mut Plain)).join().unwrap())).collect();
    let mut order: Vec<usize> = (0..jobs.len()).collect();
    for round in 0..2 {
        for &i in &order {
            let got = outcome(&jobs[i], &mut Plain);
            if let Some(d) = same(&got, &alone[i]) { viol!("siblings", "call {i} after calls on data that resembles its own (round {round}) gave something else than on a thread of its own: {d} [{}]", ctx.desc) }
            ctx.count("sibling_calls_compared", 1);
        }
        for i in (1..order.len()).rev() { order.swap(i, rng.below(i + 1)); }
    }
    if alone.iter().any(|r| *r != alone[0]) { ctx.count("families_with_different_results", 1); }
    Ok(())
}
/// one configuration for many files
fn reuse(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let max = *rng.pick(&[60usize, 400, 3000]);
    let c = gen::config(rng, max);
    ctx.desc = format!("one configuration for several files cfg[{}]", c.desc);
    let before = format!("{:?}", c.cfg);
    for k in 0..rng.range(2, 6) {
        let p = gen::pair(rng, max);
        ctx.sign(&p.src); ctx.sign(&p.trgt);
        ctx.nontrivial |= !p.trgt.is_empty();
        let src = if rng.pct(80) { Some(&p.src[..]) } else { None };
        let fresh = c.cfg.clone();
        let a = ok!(encode(src, &p.trgt, &c.cfg), "encode-err", "encode {k} [{}]", ctx.desc);
        let b = ok!(encode(src, &p.trgt, &fresh), "encode-err", "encode {k} [{}]", ctx.desc);
        ensure!(a == b, "config-state", "file {k}: the reused configuration gave something else than a copy of it: {} [{}]", diff_at(&a, &b), ctx.desc);
        let now = format!("{:?}", c.cfg);
        ensure!(now == before, "config-changed", "file {k}: encoding changed the configuration from {before} to {now}");
        ctx.count("reused_configurations_compared", 1);
    }
    Ok(())
}
/// readers that are asked for the same thing in different ways agree
fn views(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let n = gen::len(rng, 800);
    let src = gen::content(rng, n);
    let (patch, secs, _) = crate::refm::random_patch(rng, &src, 800, true, &[1, 2, 3]);
    ctx.desc = format!("{} sections, patch {}B", secs.len(), patch.len());
    ctx.sign(&patch);
    ctx.nontrivial = true;
    ctx.blob("patch", &patch);
    let a = ok!(lib_sections(&patch, true), "read-err", "borrowed sections [{}]", ctx.desc);
    let b = ok!(lib_sections(&patch, false), "read-err", "owned sections [{}]", ctx.desc);
    ensure!(a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| x.0 == y.0 && format!("{:?}", x.1) == format!("{:?}", y.1)), "views", "borrowed and owned iteration of the same patch differ [{}]", ctx.desc);
    let mut pos = Cursor::new(&patch[..]);
    let x = ok!(smdiff_merger::extract_patch_instructions(&mut pos), "extract-err", "extract [{}]", ctx.desc);
    let y = ok!(smdiff_merger::extract_patch_instructions(BufReader::with_capacity(rng.range(1, 50), Cursor::new(&patch[..]))), "extract-err", "extract [{}]", ctx.desc);
    ensure!(format!("{x:?}") == format!("{y:?}"), "views", "extracting twice gave different results [{}]", ctx.desc);
    ctx.count("views_compared", 1);
    Ok(())
}
/// Digests of the results of operations drawn from the seed alone, for comparison between processes and builds. `order`: "fwd", "rev", "shuf<k>"
/// or "one<i>" (only the i-th operation, as the first and only one of its process). Lines are printed in index order.
pub fn digest(seed: u64, n: u64, order: &str) {
    let mut ctx = Ctx::new("digest", false, false);
    let mut idx: Vec<u64> = (0..n).collect();
    if let Some(k) = order.strip_prefix("shuf") { let mut r = Rng::new(crate::rng::mix(seed ^ 77) ^ k.parse::<u64>().unwrap()); for i in (1..idx.len()).rev() { idx.swap(i, r.below(i + 1)); } }
    if order == "rev" { idx.reverse(); }
    if let Some(k) = order.strip_prefix("one") { idx = vec![k.parse().unwrap()]; }
    let mut lines = vec![];
    for i in idx {
        let mut rng = Rng::new(crate::rng::mix(seed ^ crate::rng::mix(i)));
        let max = *rng.pick(&[60usize, 400, 4000, 40_000, 40_000, 400_000, 400_000]);
        let Ok((j, d)) = draft(&mut ctx, &mut rng, max) else { lines.push((i, format!("{i} none"))); continue };
        let r = match outcome(&j, &mut Plain) { Ok(v) => format!("{}:{:016x}", v.len(), crate::rng::hash_bytes(1, &v)), Err(e) => format!("error {e}").replace('\n', " ") };
        lines.push((i, format!("{i} {r} {}", d.replace('\n', " "))));
    }
    lines.sort();
    for l in lines { println!("{}", l.1); }
}
pub fn scens() -> Vec<Scen> {
    vec![
        Scen { name: "repeat", weight: 20, min: (3_000, 60_000), cpu_limit: 90, run: repeat },
        Scen { name: "repeat_big", weight: 2, min: (60, 2_000), cpu_limit: 200, run: repeat_big },
        Scen { name: "files", weight: 5, min: (300, 5_000), cpu_limit: 90, run: files },
        Scen { name: "threads", weight: 10, min: (400, 8_000), cpu_limit: 120, run: threads },
        Scen { name: "worlds", weight: 8, min: (500, 12_000), cpu_limit: 120, run: worlds },
        Scen { name: "afterwards", weight: 8, min: (900, 20_000), cpu_limit: 60, run: afterwards },
        Scen { name: "siblings", weight: 10, min: (600, 12_000), cpu_limit: 120, run: siblings },
        Scen { name: "reuse", weight: 8, min: (1_000, 20_000), cpu_limit: 90, run: reuse },
        Scen { name: "views", weight: 6, min: (1_500, 30_000), cpu_limit: 60, run: views },
    ]
}
