//! P19: workloads of the other properties, run under sanitizers. Only what a sanitizer, the standard library's undefined-
//! behaviour checks or the process itself reports counts here; the other oracles are switched off.
use super::util::*;
use crate::mon::{self, Ctx, R};
use crate::rng::Rng;
use crate::{gen, viol, Scen};
use std::io::Cursor;
use std::sync::{Arc, Barrier};

/// runs a case of another property and forgets its verdict
fn quietly(s: &Scen, ctx: &mut Ctx, rng: &mut Rng, i: u64) -> R {
    let r = crate::mon::catch(|| (s.run)(ctx, rng, i));
    match r { Ok(Ok(())) => ctx.count("cases_that_met_their_own_oracle", 1), Ok(Err(_)) => ctx.count("cases_the_other_property_judges", 1), Err(_) => ctx.count("cases_that_panicked", 1) }
    ctx.nontrivial = true;
    Ok(())
}
macro_rules! borrowed {
    ($($name:ident = $p:ident . $scen:literal;)*) => { $(fn $name(ctx: &mut Ctx, rng: &mut Rng, i: u64) -> R {
        thread_local!(static S: Scen = super::$p::scens().into_iter().find(|s| s.name == $scen).expect($scen));
        S.with(|s| quietly(s, ctx, rng, i))
    })* }
}
borrowed! {
    enc_tiny = p01."tiny"; enc_small = p01."small"; enc_tails = p01."tails"; enc_medium = p01."medium"; enc_bigops = p01."bigops";
    dec_plain = p03."plain"; dec_comp = p03."comp"; dec_addr = p03."addresses"; dec_big = p03."big";
    io_small = p04."small"; io_wide = p04."wide";
    sec_small = p06."small"; sec_mixed = p06."mixed"; sec_large = p06."mixed_large"; sec_foreign = p06."foreign"; sec_settings = p06."settings";
    mrg_short = p07."short"; mrg_seams = p07."seams";
    trn_trains = p09."trains"; trn_big = p09."big_adds";
    any = p10."any"; payload = p10."payload"; primitives = p10."primitives";
    claims = p11."claims"; prefixes = p12."prefixes"; injuries = p12."injuries"; faults = p13."faults"; cnv = p14."small"; cnv_medium = p14."medium";
    nums = p15."malformed"; threads = p16."threads"; files = p16."files"; ranges = p17."exhaustive"; far = p17."far";
}
/// several threads at once on the codecs and the encoder, sharing only what the API lets them share
fn crowd(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let n = gen::len(rng, 20_000);
    let src = Arc::new(gen::content(rng, n));
    let jobs: Vec<(Vec<u8>, gen::Cfg)> = (0..4).map(|_| { let m = gen::len(rng, 20_000); (gen::target_for(rng, &src, m).0, gen::config(rng, 20_000)) }).collect();
    for (t, c) in &jobs { ctx.sign(t); ctx.signs(&c.desc); }
    ctx.nontrivial = true;
    ctx.desc = format!("four threads encode and apply at once, source {n}B");
    let gate = Arc::new(Barrier::new(jobs.len()));
    let hs: Vec<_> = jobs.into_iter().map(|(t, c)| {
        let (src, gate) = (src.clone(), gate.clone());
        std::thread::spawn(move || {
            gate.wait();
            for _ in 0..2 { if let Ok(Ok(p)) = crate::mon::catch(|| encode(Some(&src), &t, &c.cfg)) { let _ = crate::mon::catch(|| apply(&p, Some(&src))); } }
        })
    }).collect();
    for h in hs { let _ = h.join(); }
    ctx.count("crowds", 1);
    Ok(())
}
/// the same call over and over: whatever it leaves allocated, it leaves each time
fn leaks(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    ctx.nontrivial = true;
    let mut left = [0i64; 4];
    let what;
    if rng.pct(50) {
        let (j, _) = super::p16::draft(ctx, rng, 3000)?;
        what = format!("a job ({})", ctx.desc);
        for l in left.iter_mut() { let b = mon::live(); drop(super::p16::outcome(&j, &mut super::p13::Plain)); *l = mon::live() - b; }
        ctx.count("jobs_repeated_for_leaks", 1);
    } else {
        let n = gen::len(rng, 1500);
        let src = gen::content(rng, n);
        let (p, kind) = super::hostile::patch(rng, &src);
        ctx.sign(&p); ctx.blob("patch", &p); ctx.blob("src", &src);
        ctx.desc = format!("{kind} {} bytes: {:02x?}", p.len(), &p[..p.len().min(40)]);
        what = format!("a hostile patch ({})", ctx.desc);
        let out = mon::catch(|| smdiff_merger::extract_patch_instructions(Cursor::new(&p)).map(|x| x.1.output_size as u64).unwrap_or(u64::MAX)).unwrap_or(u64::MAX);
        let all = || {
            for b in [false, true] { let _ = lib_sections(&p, b); }
            let mut s = super::hostile::NullSink { pos: 0, len: 0 };
            let _ = smdiff_decoder::apply_patch(&mut Cursor::new(&p), Some(&mut Cursor::new(&src)), &mut s);
            let _ = smdiff_decoder::apply_patch::<_, Cursor<&[u8]>, _>(&mut Cursor::new(&p), None, &mut s);
            let _ = smdiff_merger::extract_patch_instructions(Cursor::new(&p));
            if out == u64::MAX || out < 60_000 { let _ = merge_start(&p).map(|e| e.summary()); let _ = transcode(&p, &OutOpts { win: None, fmt: None, sec: None, algo: 0, seg: false, desc: String::new() }); }
        };
        for l in left.iter_mut() { let b = mon::live(); let _ = mon::catch(all); *l = mon::live() - b; }
        ctx.count("hostile_patches_repeated_for_leaks", 1);
    }
    if left[1] > 0 && left[2] > 0 && left[3] > 0 { viol!("leak", "{what}: each call leaves memory allocated: {left:?} bytes"); }
    Ok(())
}
pub fn scens() -> Vec<Scen> {
    macro_rules! list { ($($f:ident $w:literal $min:literal $deep:literal;)*) => { vec![$(Scen { name: stringify!($f), weight: $w, min: ($min, $deep), cpu_limit: 600, run: $f }),*] } }
    list! {
        enc_tiny 4 1500 60000; enc_small 8 800 40000; enc_tails 2 128 2000; enc_medium 1 16 1000; enc_bigops 0 2 60;
        dec_plain 6 800 40000; dec_comp 8 800 40000; dec_addr 3 200 8000; dec_big 1 4 200;
        io_small 4 1000 40000; io_wide 1 30 1000;
        sec_small 6 150 5000; sec_mixed 6 300 10000; sec_large 0 4 80; sec_foreign 6 300 10000; sec_settings 0 30 148;
        mrg_short 5 250 10000; mrg_seams 6 400 20000;
        trn_trains 6 400 20000; trn_big 1 8 300;
        any 20 3000 150000; payload 10 200 10000; primitives 3 600 20000;
        claims 4 200 10000; prefixes 3 60 3000; injuries 8 1500 80000; faults 4 150 6000; cnv 6 300 10000; cnv_medium 1 6 300;
        nums 2 100 5000; threads 4 30 1500; files 1 20 600; ranges 3 150 6000; far 0 2 20; crowd 6 120 6000; leaks 6 400 20000;
    }
}
