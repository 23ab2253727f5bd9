//! P13: a failing read, write or seek is reported as an error, at whatever call it happens; short and interrupted
//! transfers change nothing.
use super::util::*;
use crate::iox::{Chunky, Faulty, Plan};
use crate::mon::{self, Ctx, R};
use crate::refm;
use crate::rng::Rng;
use crate::vcd;
use crate::{ensure, gen, ok, viol, Scen};
use smdiff_merger::Merger;
use std::io::{Cursor, Result, Write};

/// One operation with all its inputs; `run` performs it on streams made by a wrapper.
pub enum Job {
    Encode { src: Option<Vec<u8>>, trgt: Vec<u8>, cfg: gen::Cfg },
    Apply { patch: Vec<u8>, src: Option<Vec<u8>>, sink: Vec<u8> },
    Read { patch: Vec<u8>, dec: bool },
    Extract { patch: Vec<u8> },
    Merge { last: Vec<u8>, before: Vec<u8>, o: OutOpts },
    Transcode { patch: Vec<u8>, o: OutOpts },
    Convert { v: Vec<u8> },
    Write { secs: Vec<(Vec<refm::ROp>, bool)> },
    Numbers { bytes: Vec<u8> },
}
pub const KINDS: [&str; 9] = ["encode", "apply", "read", "extract", "merge", "transcode", "convert", "write", "numbers"];

/// Stream wrapper: the fault plan or the chunking schedule.
pub trait Wrap {
    type S<T: std::io::Read + std::io::Seek>: std::io::Read + std::io::Seek;
    type W<T: Write>: Write;
    type B<T: std::io::Read + std::io::Write + std::io::Seek>: std::io::Read + Write + std::io::Seek;
    fn r<T: std::io::Read + std::io::Seek>(&mut self, t: T) -> Self::S<T>;
    fn w<T: Write>(&mut self, t: T) -> Self::W<T>;
    fn b<T: std::io::Read + std::io::Write + std::io::Seek>(&mut self, t: T) -> Self::B<T>;
}
pub struct Plain;
impl Wrap for Plain {
    type S<T: std::io::Read + std::io::Seek> = T;
    type W<T: Write> = T;
    type B<T: std::io::Read + std::io::Write + std::io::Seek> = T;
    fn r<T: std::io::Read + std::io::Seek>(&mut self, t: T) -> T { t }
    fn w<T: Write>(&mut self, t: T) -> T { t }
    fn b<T: std::io::Read + std::io::Write + std::io::Seek>(&mut self, t: T) -> T { t }
}
pub struct Faults { pub plan: Plan, pub id: u8 }
impl Wrap for Faults {
    type S<T: std::io::Read + std::io::Seek> = Faulty<T>;
    type W<T: Write> = Faulty<T>;
    type B<T: std::io::Read + std::io::Write + std::io::Seek> = Faulty<T>;
    fn r<T: std::io::Read + std::io::Seek>(&mut self, t: T) -> Faulty<T> { self.id += 1; Faulty { inner: t, plan: self.plan.clone(), id: self.id } }
    fn w<T: Write>(&mut self, t: T) -> Faulty<T> { self.id += 1; Faulty { inner: t, plan: self.plan.clone(), id: self.id } }
    fn b<T: std::io::Read + std::io::Write + std::io::Seek>(&mut self, t: T) -> Faulty<T> { self.id += 1; Faulty { inner: t, plan: self.plan.clone(), id: self.id } }
}
pub struct Chunks { pub rng: Rng, pub max: usize, pub intr: u32, pub calls: std::rc::Rc<std::cell::Cell<u64>> }
impl Chunks { fn mk<T>(&mut self, t: T) -> Chunky<T> { let mut c = Chunky::new(t, Rng::new(self.rng.u64()), self.max, self.intr); c.calls = self.calls.clone(); c } }
impl Wrap for Chunks {
    type S<T: std::io::Read + std::io::Seek> = Chunky<T>;
    type W<T: Write> = Chunky<T>;
    type B<T: std::io::Read + std::io::Write + std::io::Seek> = Chunky<T>;
    fn r<T: std::io::Read + std::io::Seek>(&mut self, t: T) -> Chunky<T> { self.mk(t) }
    fn w<T: Write>(&mut self, t: T) -> Chunky<T> { self.mk(t) }
    fn b<T: std::io::Read + std::io::Write + std::io::Seek>(&mut self, t: T) -> Chunky<T> { self.mk(t) }
}

pub fn run<X: Wrap>(j: &Job, x: &mut X) -> Result<Vec<u8>> {
    let mut out = Vec::new();
    match j {
        Job::Encode { src, trgt, cfg } => {
            let mut t = x.r(Cursor::new(&trgt[..]));
            let mut s = src.as_ref().map(|s| x.r(Cursor::new(&s[..])));
            smdiff_encoder::encode(s.as_mut(), &mut t, &mut x.w(&mut out), &cfg.cfg)?;
        }
        Job::Apply { patch, src, sink } => {
            let mut s = src.as_ref().map(|s| x.r(Cursor::new(&s[..])));
            let mut o = Cursor::new(sink.clone());
            smdiff_decoder::apply_patch(&mut x.r(Cursor::new(&patch[..])), s.as_mut(), &mut x.b(&mut o))?;
            out = o.into_inner();
        }
        Job::Read { patch, dec } => {
            let c = x.r(Cursor::new(&patch[..]));
            let secs: Vec<_> = if *dec { smdiff_decoder::reader::SectionIterator::new(c).collect::<Result<Vec<_>>>()? } else { smdiff_reader::SectionIterator::new(c).collect::<Result<Vec<_>>>()? };
            out = format!("{secs:?}").into_bytes();
        }
        Job::Extract { patch } => { let (ops, st) = smdiff_merger::extract_patch_instructions(x.r(Cursor::new(&patch[..])))?; out = format!("{ops:?}{st:?}").into_bytes(); }
        Job::Merge { last, before, o } => {
            let s = match Merger::new(x.r(Cursor::new(&last[..])))? { Err(s) => s, Ok(m) => match m.merge(x.r(Cursor::new(&before[..])))? { Ok(m) => m.finish(), Err(s) => s } };
            s.write(&mut x.w(&mut out), o.win, o.fmt, o.sec.clone())?;
        }
        Job::Transcode { patch, o } => smdiff_merger::transcoder::transcode(&mut x.r(Cursor::new(&patch[..])), &mut x.w(&mut out), o.fmt.unwrap_or_default(), o.sec.clone(), o.win.unwrap_or(smdiff_common::MAX_WIN_SIZE))?,
        Job::Convert { v } => { let (r, w) = (x.r(Cursor::new(&v[..])), x.w(&mut out)); smdiff_vcdiff::convert_vcdiff_to_smdiff(r, w)? }
        Job::Write { secs } => {
            let mut w = x.w(&mut out);
            for (i, (ops, seg)) in secs.iter().enumerate() {
                let ops: Vec<_> = ops.iter().map(refm::to_op).collect();
                let adds: u32 = ops.iter().map(|o| if let smdiff_common::Op::Add(a) = o { a.bytes.len() as u32 } else { 0 }).sum();
                let h = smdiff_common::SectionHeader::new(ops.len() as u32, adds, ops.iter().map(|o| o.oal() as u32).sum()).set_format(if *seg { smdiff_common::Format::Segregated } else { smdiff_common::Format::Interleaved }).set_more_sections(i + 1 < secs.len());
                smdiff_writer::write_section_header(&h, &mut w)?;
                smdiff_writer::write_ops(&ops, &h, &mut w)?;
            }
        }
        Job::Numbers { bytes } => {
            let mut r = x.r(Cursor::new(&bytes[..]));
            let u = smdiff_common::read_u_varint(&mut r)?; let i = smdiff_common::read_i_varint(&mut r)?; let a = smdiff_common::read_u8(&mut r)?; let b = smdiff_common::read_u16(&mut r)?;
            let mut w = x.w(&mut out);
            smdiff_common::write_u_varint(&mut w, u)?; smdiff_common::write_i_varint(&mut w, i)?; smdiff_common::write_u8(&mut w, a)?; smdiff_common::write_u16(&mut w, b)?;
        }
    }
    Ok(out)
}
pub fn job(rng: &mut Rng, ctx: &mut Ctx, k: usize, max: usize) -> std::result::Result<Job, mon::Viol> {
    let n = gen::len(rng, max);
    let src = gen::content(rng, n);
    Ok(match KINDS[k] {
        "encode" => { let (trgt, tag) = gen::target_for(rng, &src, max); let cfg = gen::config(rng, max); ctx.desc = format!("encode {tag} {}B -> {}B cfg[{}]", src.len(), trgt.len(), cfg.desc); Job::Encode { src: if rng.pct(85) { Some(src) } else { None }, trgt, cfg } }
        "apply" => { let (patch, secs, t) = refm::random_patch(rng, &src, max, true, &[1, 2, 3]); ctx.desc = format!("apply {} sections, patch {}B -> {}B", secs.len(), patch.len(), t.len());
            let needs = secs.iter().flat_map(|s| &s.0).any(|o| o.kind() == 0);
            let stale = if rng.pct(20) { rng.rvec(0, 300) } else { vec![] };
            Job::Apply { patch, src: if needs || rng.pct(50) { Some(src) } else { None }, sink: stale } }
        "read" => { let dec = rng.pct(60); let (patch, ..) = refm::random_patch(rng, &src, max, dec, &[1, 2, 3]); ctx.desc = format!("read (dec {dec}) {}B", patch.len()); Job::Read { patch, dec } }
        "extract" => { let (patch, ..) = refm::random_patch(rng, &src, max, true, &[1, 2, 3]); ctx.desc = format!("extract {}B", patch.len()); Job::Extract { patch } }
        "merge" => { let h = history(rng, 2, max)?; let o = out_opts(rng, max); ctx.desc = format!("merge{} {}", h.desc, o.desc); Job::Merge { last: h.patches[1].clone(), before: h.patches[0].clone(), o } }
        "transcode" => { let (patch, ..) = refm::random_patch(rng, &src, max, true, &[1, 2, 3]); let o = out_opts(rng, max); ctx.desc = format!("transcode {}B {}", patch.len(), o.desc); Job::Transcode { patch, o } }
        "convert" => { let sh = vcd::Shape { windows: rng.range(1, 3), insts: 12, max_inst: max, max_win: max, periodic: false }; let (v, t) = vcd::random(rng, &src, sh, &mut Default::default()); ctx.desc = format!("convert {}B -> {}B", v.len(), t.len()); Job::Convert { v } }
        "write" => { let mut out = vec![]; let ns = rng.range(1, 3); let secs: Vec<_> = (0..ns).map(|_| { let k = rng.range(0, 12); let seg = rng.pct(50); (refm::random_ops(rng, &src, &mut out, k, max, max), seg) }).collect(); ctx.desc = format!("write {ns} sections"); Job::Write { secs } }
        _ => { let mut b = vec![]; refm::put_uvar(&mut b, rng.ulog()); refm::put_ivar(&mut b, rng.u64() as i64); let t = rng.vec(3); b.extend(t); ctx.desc = format!("numbers {b:02x?}"); Job::Numbers { bytes: b } }
    })
}
/// every I/O call of one operation fails in turn
fn faults(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> R {
    let k = (idx % KINDS.len() as u64) as usize;
    let max = *rng.pick(&[40usize, 300, 1500]);
    let j = job(rng, ctx, k, max)?;
    fail_each(ctx, rng, k, j, if ctx.thorough { 2000 } else { 250 })
}
/// files of hundreds of kilobytes to megabytes: a sample of the calls fails
fn faults_big(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> R {
    let k = (idx % (KINDS.len() as u64 - 1)) as usize;
    if k > 0 { let j = job(rng, ctx, k, 300_000)?; return fail_each(ctx, rng, k, j, 40); }
    let n = rng.lrange(100_000, 3_000_000);
    let src = rng.vec(n);
    let mut t = src.clone();
    for _ in 0..rng.below(6) { let i = rng.below(t.len()); t[i] ^= 1; }
    if rng.pct(50) { let x = rng.rvec(0, 100_000); t.extend(x); } else if rng.pct(50) { let mut x = rng.rvec(0, 100_000); x.extend_from_slice(&t); t = x; }
    let cfg = gen::config_large(rng);
    ctx.desc = format!("encode {n}B -> {}B cfg[{}]", t.len(), cfg.desc);
    fail_each(ctx, rng, 0, Job::Encode { src: Some(src), trgt: t, cfg }, 40)
}
fn fail_each(ctx: &mut Ctx, rng: &mut Rng, k: usize, j: Job, cap: u64) -> R {
    ctx.signs(&ctx.desc.clone());
    let plan = Plan::new(u64::MAX, 0, false);
    let base = ok!(run(&j, &mut Faults { plan: plan.clone(), id: 0 }), "fault-free", "{}", ctx.desc);
    let plain = ok!(run(&j, &mut Plain), "fault-free", "{}", ctx.desc);
    ensure!(base == plain, "wrapper", "the same operation gave different results through a counting stream [{}]", ctx.desc);
    let n = plan.n.get();
    ctx.nontrivial = n > 0;
    ctx.max("max_io_calls", n);
    let every = n <= cap;
    let mut at = 0;
    while at < n {
        if !every && at > cap / 4 && at + cap / 4 < n && !(rng.below64(n) < cap / 2) { at += 1; continue; }
        // a write that takes nothing, an ordinary error, a full disk, end of file where there is none, ...
        let kind = match rng.below(7) { 0 => 9, 1 => 1, 2 if KINDS[k] != "convert" => 2, 3 => 3, 4 => 4, _ => 0 };
        let plan = Plan::new(at, kind, rng.pct(30));
        match mon::catch(|| run(&j, &mut Faults { plan: plan.clone(), id: 0 })) {
            Err(p) => { if p.ours() { panic!("{}:{} {}", p.file, p.line, p.msg) } viol!(&format!("panic:{}", KINDS[k]), "{} panicked at {}:{} ({}) when I/O call {at} of {n} failed (kind {kind}) [{}]", KINDS[k], p.file, p.line, p.msg, ctx.desc) }
            Ok(Ok(_)) => {
                let f = plan.fired.get();
                ensure!(f != 0, "not-reached", "{}: call {at} of {n} was not made again, or not reported [{}]", KINDS[k], ctx.desc);
                let op = match f & 7 { 1 => "read", 2 => "write", _ => "seek" };
                viol!(&format!("swallowed:{}:{op}", KINDS[k]), "{} reported success although the {op} at I/O call {at} of {n} (stream {}) failed (kind {kind}, sticky {}) [{}]", KINDS[k], f >> 3, plan.sticky, ctx.desc)
            }
            Ok(Err(_)) => { let f = plan.fired.get() & 7; ctx.count(match f { 1 => "failed_reads_reported", 2 => "failed_writes_reported", 3 => "failed_seeks_reported", _ => "error_without_fault" }, 1);
                ensure!(f != 0, "error-without-fault", "{} failed although no fault was injected [{}]", KINDS[k], ctx.desc); }
        }
        ctx.count(match KINDS[k] { "encode" => "faults_encode", "apply" => "faults_apply", "read" => "faults_read", "extract" => "faults_extract", "merge" => "faults_merge", "transcode" => "faults_transcode", "convert" => "faults_convert", "write" => "faults_write", _ => "faults_numbers" }, 1);
        at += 1;
    }
    ctx.count(if every { "operations_with_every_call_failed" } else { "operations_with_sampled_faults" }, 1);
    Ok(())
}
fn short_case(ctx: &mut Ctx, rng: &mut Rng, idx: u64, max: usize) -> R {
    let k = (idx % KINDS.len() as u64) as usize;
    let j = job(rng, ctx, k, max)?;
    ctx.signs(&ctx.desc.clone());
    let plain = ok!(run(&j, &mut Plain), "fault-free", "{}", ctx.desc);
    for _ in 0..4 {
        let (m, intr) = (*rng.pick(&[1usize, 2, 3, 7, 64, 4000]), *rng.pick(&[0u32, 5, 30, 60]));
        let mut c = Chunks { rng: Rng::new(rng.u64()), max: m, intr, calls: Default::default() };
        match mon::catch(|| run(&j, &mut c)) {
            Err(p) => { if p.ours() { panic!("{}:{} {}", p.file, p.line, p.msg) } viol!(&format!("panic:{}", KINDS[k]), "{} panicked at {}:{} ({}) on streams transferring at most {m} bytes a call, {intr}% interrupted [{}]", KINDS[k], p.file, p.line, p.msg, ctx.desc) }
            Ok(Err(e)) => viol!(&format!("short-error:{}", KINDS[k]), "{} failed ({e}) on streams transferring at most {m} bytes a call, {intr}% interrupted [{}]", KINDS[k], ctx.desc),
            Ok(Ok(o)) => ensure!(o == plain, &format!("short-differs:{}", KINDS[k]), "{} gave something else on streams transferring at most {m} bytes a call, {intr}% interrupted: {} [{}]", KINDS[k], diff_at(&o, &plain), ctx.desc),
        }
        ctx.count("chunked_runs", 1);
        ctx.count("chunked_calls", c.calls.get());
        if c.calls.get() > 2 { ctx.nontrivial = true; }
    }
    Ok(())
}
fn short(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> R { let m = *rng.pick(&[40usize, 400, 3000]); short_case(ctx, rng, idx, m) }
fn short_big(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> R { short_case(ctx, rng, idx, 200_000) }
pub fn scens() -> Vec<Scen> {
    vec![
        Scen { name: "faults", weight: 30, min: (2_700, 60_000), cpu_limit: 120, run: faults },
        Scen { name: "faults_big", weight: 0, min: (32, 800), cpu_limit: 300, run: faults_big },
        Scen { name: "short", weight: 20, min: (3_600, 60_000), cpu_limit: 60, run: short },
        Scen { name: "short_big", weight: 1, min: (45, 900), cpu_limit: 200, run: short_big },
    ]
}
