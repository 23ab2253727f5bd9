//! P14: a converted VCDIFF delta describes the same target, as a conforming patch, and nothing else is written.
use super::util::*;
use crate::mon::{self, Ctx, R};
use crate::refm;
use crate::rng::Rng;
use crate::vcd::{self, Seen, Shape, VI};
use crate::{ensure, gen, ok, viol, Scen};

fn note(ctx: &mut Ctx, s: &Seen) {
    const M: [&str; 9] = ["mode_self", "mode_here", "mode_near0", "mode_near1", "mode_near2", "mode_near3", "mode_same0", "mode_same1", "mode_same2"];
    for (k, n) in M.iter().zip(s.modes) { ctx.count(k, n); }
    for (k, n) in ["windows_without_source", "windows_on_source", "windows_on_target"].iter().zip(s.wins) { ctx.count(k, n); }
    ctx.count("paired_instructions", s.pairs);
    ctx.count("instructions_over_65535", s.big);
    ctx.count("periodic_copies", s.periodic);
}
/// Converts and judges: conforming, and both decoders give the target.
fn judge(ctx: &mut Ctx, v: &[u8], src: &[u8], t: &[u8]) -> R {
    ctx.sign(v); ctx.sign(src);
    ctx.blob("vcdiff", v); ctx.blob("src", src); ctx.blob("target", t);
    ctx.nontrivial |= !t.is_empty();
    let b = ok!(convert(v), "convert-err", "conversion [{}]", ctx.desc);
    ctx.blob("patch", &b);
    let p = conforms(ctx, "converted patch", &b, src, t, false, 0, refm::MAX_OUT)?;
    let got = ok!(apply(&b, Some(src)), "apply-err", "applying the converted patch [{}]", ctx.desc);
    ensure!(got == t, "apply-differs", "applying the converted patch gives something else: {} [{}]", diff_at(&got, t), ctx.desc);
    ctx.count("deltas_converted", 1);
    if p.secs.len() > 1 { ctx.count("converted_into_several_sections", 1); }
    Ok(())
}
fn gen_case(ctx: &mut Ctx, rng: &mut Rng, srcmax: usize, sh: Shape) -> R {
    let n = gen::len(rng, srcmax);
    let src = gen::content(rng, n);
    let mut seen = Seen::default();
    let (v, t) = vcd::random(rng, &src, sh, &mut seen);
    ctx.desc = format!("src {}B, delta {}B, {} windows, target {}B", src.len(), v.len(), sh.windows, t.len());
    note(ctx, &seen);
    judge(ctx, &v, &src, &t)
}
fn small(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let m = *rng.pick(&[30usize, 300, 2000]);
    let sh = Shape { windows: rng.range(0, 6), insts: 25, max_inst: m, max_win: 20_000, periodic: false };
    gen_case(ctx, rng, 3000, sh)
}
fn periodic(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let m = *rng.pick(&[30usize, 300, 2000, 200_000]);
    let sh = Shape { windows: rng.range(1, 4), insts: 15, max_inst: m, max_win: 400_000, periodic: true };
    gen_case(ctx, rng, 3000, sh)
}
fn medium(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let sh = Shape { windows: rng.range(1, 4), insts: 12, max_inst: 270_000, max_win: 900_000, periodic: false };
    gen_case(ctx, rng, 300_000, sh)
}
/// deltas of thousands of windows
fn windows(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let k = refm::multi_count(rng, 70_000);
    let sh = Shape { windows: k, insts: rng.range(1, 3), max_inst: rng.range(4, 12), max_win: 60, periodic: false };
    ctx.max("max_windows_in_a_delta", k as u64);
    gen_case(ctx, rng, 60, sh)
}
/// Each opcode used at least once, after copies that make its address mode possible.
fn with_code(rng: &mut Rng, code: usize) -> (Vec<u8>, Vec<u8>, Vec<u8>) {
    let src = rng.vec(2000);
    let (a, b) = vcd::table()[code];
    let mut u = src.clone();
    let mut ins = vec![];
    let base = rng.range(0, 255);
    // seeds of the caches: a copy per bank of the same-cache
    let bank = |m: u8| base + (m as usize - 6) * 256;
    for m in [a, b].iter().filter(|h| h.0 == 3 && h.2 >= 6).map(|h| h.2) { let l = rng.range(20, 30); u.extend_from_within(bank(m)..bank(m) + l); ins.push(VI::Copy { addr: bank(m) as u32, len: l as u32 }); }
    let rounds = rng.range(1, 4);
    for _ in 0..rounds { for h in [a, b] {
        let l = if h.1 > 0 { h.1 as usize } else { rng.range(1, 300) };
        match h.0 {
            1 => { let x = rng.vec(l); u.extend_from_slice(&x); ins.push(VI::Add(x)); }
            2 => { let x = rng.byte(); u.resize(u.len() + l, x); ins.push(VI::Run(x, l as u32)); }
            3 => { let at = if h.2 >= 6 { bank(h.2) } else { rng.range(0, src.len() - l) }; u.extend_from_within(at..at + l); ins.push(VI::Copy { addr: at as u32, len: l as u32 }); }
            _ => {}
        }
    } }
    let t = u[src.len()..].to_vec();
    let mut v = vcd::HEADER.to_vec();
    let out = |v: &VI, _: u32| match v { VI::Add(b) => b.len() as u32, VI::Run(_, n) => *n, VI::Copy { len, .. } => *len };
    vcd::window_with(&mut v, rng, 1, Some((src.len() as u64, 0)), &ins, t.len() as u64, out, &mut Seen::default(), Some(code));
    (src, v, t)
}
fn codes(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> R {
    let code = (idx % 256) as usize;
    if !vcd::shared_code(code) { return Ok(()); }
    let (src, v, t) = with_code(rng, code);
    ctx.desc = format!("opcode {code}, delta {}B, target {}B", v.len(), t.len());
    ctx.count("opcodes_exercised", 1);
    judge(ctx, &v, &src, &t)
}
/// The target crosses the section limit inside one instruction of the chosen kind.
fn cross(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> R {
    let src = rng.rvec(70_000, 400_000);
    let lim = refm::MAX_OUT as usize;
    let mut seen = Seen::default();
    let mut v = vcd::HEADER.to_vec();
    let mut t: Vec<u8> = vec![];
    let kind = idx % 5;
    let crossings = rng.range(1, 2);
    for c in 1..=crossings {
        // windows on the source up to just below the limit
        // (a run is cut into pieces of 62, other instructions into pieces of 65535: every position of the limit in a piece occurs)
        let left = if kind == 1 { rng.range(0, 200) } else if rng.pct(50) { rng.range(0, 70_000) } else { (65535 * rng.below(3) + rng.below(7)).saturating_sub(3) };
        let goal = c * lim - left;
        let (mut ins, mut u) = (vec![], src.clone());
        // often there are already more instructions than 16 bits can count
        if idx / 5 % 3 == 0 { for _ in 0..rng.range(66_000, 72_000) { let l = rng.range(1, 200); let at = rng.range(0, src.len() - l); u.extend_from_within(at..at + l); ins.push(VI::Copy { addr: at as u32, len: l as u32 }); } ctx.count("limits_behind_70000_instructions", 1); }
        while t.len() + u.len() - src.len() < goal {
            let l = rng.range(1, src.len()).min(goal - (t.len() + u.len() - src.len()));
            let at = rng.range(0, src.len() - l);
            u.extend_from_within(at..at + l);
            ins.push(VI::Copy { addr: at as u32, len: l as u32 });
            if rng.pct(30) && t.len() + u.len() - src.len() + 300 < goal { let l = rng.range(1, 300); let x = rng.vec(l); u.extend_from_slice(&x); ins.push(VI::Add(x)); }
        }
        let own = u.len() - src.len();
        // how far the instruction reaches past the limit: hardly, or far
        let l = left + if rng.pct(60) { rng.range(0, 70) } else { rng.range(0, 140_000) };
        match kind {
            0 => { let x = rng.vec(l.max(1)); u.extend_from_slice(&x); ins.push(VI::Add(x)); }
            1 => { let x = rng.byte(); let l = l.max(1); u.resize(u.len() + l, x); ins.push(VI::Run(x, l as u32)); }
            2 => { let l = l.clamp(1, src.len()); let at = rng.range(0, src.len() - l); u.extend_from_within(at..at + l); ins.push(VI::Copy { addr: at as u32, len: l as u32 }); }
            3 => { let l = l.clamp(1, own); let at = rng.range(src.len(), u.len() - l); u.extend_from_within(at..at + l); ins.push(VI::Copy { addr: at as u32, len: l as u32 }); }
            _ => { // repeats of the last bytes, in the reader's dialect
                let per = rng.lrange(1, 140_000.min(own)); let here = u.len(); let l = l.max(1);
                for x in 0..l { let b = u[here - per + x % per]; u.push(b); }
                ins.push(VI::Copy { addr: (here - per) as u32, len: (per + l) as u32 });
                seen.periodic += 1;
            }
        }
        // what follows copies from the output, near and far
        for _ in 0..rng.range(0, 3) { let l = rng.lrange(1, 5000).min(u.len() - src.len()); let at = if rng.pct(50) { u.len() - l } else { rng.range(src.len(), u.len() - l) }; u.extend_from_within(at..at + l); ins.push(VI::Copy { addr: at as u32, len: l as u32 }); ctx.count("target_copies_after_the_limit", 1); }
        for _ in 0..rng.range(0, 5) { let l = rng.range(1, 200); let x = rng.vec(l); u.extend_from_slice(&x); ins.push(VI::Add(x)); let at = rng.range(0, u.len() - l - src.len()).min(src.len() - l); u.extend_from_within(at..at + l); ins.push(VI::Copy { addr: at as u32, len: l as u32 }); }
        let out = |v: &VI, here: u32| match v { VI::Add(b) => b.len() as u32, VI::Run(_, n) => *n, VI::Copy { addr, len } => if addr + len > here { addr + len - here } else { *len } };
        vcd::window(&mut v, rng, 1, Some((src.len() as u64, 0)), &ins, (u.len() - src.len()) as u64, out, &mut seen);
        t.extend_from_slice(&u[src.len()..]);
    }
    // and a window copying far back in the target
    if rng.pct(60) {
        let l = rng.range(1, 100_000);
        let at = rng.range(0, t.len() - l);
        let whole = rng.pct(50);
        let (pos, sl) = if whole { (0, t.len()) } else { (at, l) };
        vcd::window(&mut v, rng, 2, Some((sl as u64, pos as u64)), &[VI::Copy { addr: (at - pos) as u32, len: l as u32 }], l as u64, |_, _| l as u32, &mut seen);
        t.extend_from_within(at..at + l);
    }
    ctx.desc = format!("limit crossed {crossings} times inside an instruction of kind {kind}, delta {}B, target {}B", v.len(), t.len());
    ctx.count(["limit_crossed_in_add", "limit_crossed_in_run", "limit_crossed_in_source_copy", "limit_crossed_in_target_copy", "limit_crossed_in_periodic_copy"][kind as usize], crossings as u64);
    note(ctx, &seen);
    judge(ctx, &v, &src, &t)
}

/// Targets of more than 4 GiB and source positions of 62 bits: the converted operations are compared as operations.
fn far(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    use crate::refm::ROp;
    let past = (1u64 << 32) + rng.below64(400_000_000);
    let mut v = vcd::HEADER.to_vec();
    let (mut want, mut pos, mut after): (Vec<ROp>, u64, u32) = (vec![], 0, 0);
    fn copy(want: &mut Vec<ROp>, out: bool, mut a: u64, mut n: u64) { while n > 0 { let l = n.min(65535); want.push(if out { ROp::O { addr: a, len: l as u16 } } else { ROp::D { addr: a, len: l as u16 } }); a += l; n -= l; } }
    let mut nwin = 0;
    while after < 6 && nwin < 60 {
        let big = pos < past;
        if !big { after += 1; }
        nwin += 1;
        let ind = match rng.below(6) { 0 => 0u8, 1..=2 if pos > 0 => 2, _ => 1 };
        let (sl, sp) = match ind {
            0 => (0, 0),
            1 => (if rng.pct(30) { 1 + rng.below64(100_000) } else { 1 + rng.below64(1 << 29) }, rng.ulog() >> 2),
            _ => { let l = 1 + rng.below64(pos.min(1 << 29)); (l, match rng.below(4) { 0 => pos - l, 1 => (pos - l).min((1u64 << 32).saturating_sub(rng.below64(l + 1))), _ => rng.below64(pos - l + 1) }) }
        };
        let (start, mut ins) = (pos, vec![]);
        for _ in 0..rng.range(1, 7) {
            let max = if big { 1 << 28 } else { 200_000 };
            let here = pos - start;
            match rng.below(8) {
                0 => { let n = rng.range(1, 60); let b = rng.vec(n); pos += n as u64; want.push(ROp::Add(b.clone())); ins.push(VI::Add(b)); }
                1 => { let (b, n) = (rng.byte(), rng.range(1, 200)); pos += n as u64; want.push(ROp::Add(vec![b; n])); ins.push(VI::Run(b, n as u32)); }
                2 if here > 0 => { let n = (1 + rng.below64(max)).min(here); let a = rng.below64(here - n + 1); copy(&mut want, true, start + a, n); pos += n; ins.push(VI::Copy { addr: (sl + a) as u32, len: n as u32 }); }
                _ if sl > 0 => { let n = (1 + rng.below64(max)).min(sl); let a = rng.below64(sl - n + 1); copy(&mut want, ind == 2, sp + a, n); pos += n; ins.push(VI::Copy { addr: a as u32, len: n as u32 }); }
                _ => {}
            }
        }
        if ins.is_empty() { continue; }
        vcd::window_plain(&mut v, ind, (ind > 0).then_some((sl, sp)), &ins, pos - start);
    }
    ctx.desc = format!("{nwin} windows, target {pos}B");
    ctx.sign(&v);
    ctx.blob("vcdiff", &v);
    ctx.nontrivial = true;
    let b = ok!(convert(&v), "convert-err", "conversion [{}]", ctx.desc);
    let p = parse("converted patch", &b)?;
    ensure!(p.secs.iter().all(|s| s.ops.iter().map(|o| o.len()).sum::<u64>() <= refm::MAX_OUT), "section-size", "a section describes more than {} bytes [{}]", refm::MAX_OUT, ctx.desc);
    let got: Vec<ROp> = p.secs.into_iter().flat_map(|s| s.ops).collect();
    let gs = refm::starts(&got);
    let gl: u64 = got.iter().map(|o| o.len()).sum();
    ensure!(gl == pos, "length", "the converted patch produces {gl} bytes instead of {pos} [{}]", ctx.desc);
    for (o, at) in got.iter().zip(&gs) { if let ROp::O { addr, len } = o { ensure!(addr.checked_add(*len as u64).is_some_and(|e| e <= *at), "output-copy", "a copy of {len} bytes at {addr} of the output stands at {at} [{}]", ctx.desc); } }
    let (mut g, mut w) = (vec![], vec![]);
    refm::resolve(&got, &gs, 0, gl, &mut g);
    refm::resolve(&want, &refm::starts(&want), 0, pos, &mut w);
    let (g, w) = (refm::pieces(g), refm::pieces(w));
    ensure!(g == w, "ops", "the converted operations differ: piece {:?} [{}]", g.iter().zip(&w).position(|(a, b)| a != b), ctx.desc);
    ctx.max("max_target", pos);
    ctx.count("far_deltas_converted", 1);
    Ok(())
}

// ------------------------------------------------------------------ nothing but the patch is written
unsafe extern "C" { fn dup(fd: i32) -> i32; fn dup2(a: i32, b: i32) -> i32; fn close(fd: i32) -> i32; fn memfd_create(n: *const core::ffi::c_char, f: u32) -> i32; fn lseek(fd: i32, o: i64, w: i32) -> i64; }
static FDS: std::sync::Mutex<()> = std::sync::Mutex::new(());
/// Runs `f` with standard output and error captured; what it (or a conversion on another thread) printed is counted.
fn captured<T>(f: impl FnOnce() -> T) -> (Result<T, mon::PanicInfo>, i64) {
    use std::io::Write;
    let _g = FDS.lock().unwrap_or_else(|e| e.into_inner());
    let _ = std::io::stdout().flush();
    unsafe {
        let m = memfd_create(c"noise".as_ptr(), 0);
        let (o, e) = (dup(1), dup(2));
        dup2(m, 1); dup2(m, 2);
        let r = mon::catch(f);
        let _ = std::io::stdout().flush();
        let n = lseek(m, 0, 1);
        dup2(o, 1); dup2(e, 2);
        close(o); close(e); close(m);
        (r, n)
    }
}
fn quiet(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let n = gen::len(rng, 3000);
    let src = gen::content(rng, n);
    let max_inst = *rng.pick(&[30usize, 300, 70_000]);
    let sh = Shape { windows: rng.range(0, 5), insts: 15, max_inst, max_win: 200_000, periodic: rng.pct(40) };
    let (v, t) = vcd::random(rng, &src, sh, &mut Seen::default());
    ctx.desc = format!("quiet: src {}B, delta {}B, target {}B", src.len(), v.len(), t.len());
    ctx.sign(&v);
    ctx.nontrivial = !t.is_empty();
    let (r, n) = captured(|| { let mut out = vec![]; smdiff_vcdiff::convert_vcdiff_to_smdiff(std::io::Cursor::new(&v[..]), &mut out).map(|_| out) });
    let r = match r { Ok(r) => r, Err(p) => viol!(&format!("panic {}", p.site()), "panic at {}:{}: {} [{}]", p.file, p.line, p.msg, ctx.desc) };
    let b = ok!(r, "convert-err", "conversion [{}]", ctx.desc);
    ensure!(n == 0, "noise", "the conversion printed {n} bytes to standard output or error [{}]", ctx.desc);
    ctx.count("conversions_with_output_captured", 1);
    conforms(ctx, "converted patch", &b, &src, &t, false, 0, refm::MAX_OUT)?;
    Ok(())
}

// ------------------------------------------------------------------ recorded findings: fixed inputs, keyed by exactly what fails
fn status(v: &[u8], src: &[u8], want: &[u8]) -> Option<&'static str> {
    match mon::catch(|| convert(v)) {
        Err(p) if p.ours() => panic!("{}:{} {}", p.file, p.line, p.msg),
        Err(_) => Some("panic"),
        Ok(Err(_)) => Some("err"),
        Ok(Ok(b)) => match refm::parse(&b).and_then(|p| refm::apply(&p, src, CAP)) { Ok(t) if t == want => None, Ok(_) => Some("wrong"), Err(_) => Some("invalid") },
    }
}
fn ranges(v: &[usize]) -> String {
    let mut s: Vec<String> = vec![];
    let mut i = 0;
    while i < v.len() { let a = v[i]; while i + 1 < v.len() && v[i + 1] == v[i] + 1 { i += 1; } s.push(if v[i] > a { format!("{a}..{}", v[i]) } else { a.to_string() }); i += 1; }
    s.join(",")
}
/// What RFC 3284 says a window yields.
fn rfc(s: &[u8], ins: &[VI]) -> Vec<u8> {
    let mut u = s.to_vec();
    for i in ins { match i { VI::Add(b) => u.extend_from_slice(b), VI::Run(b, n) => u.resize(u.len() + *n as usize, *b), VI::Copy { addr, len } => for k in 0..*len { let b = u[(addr + k) as usize]; u.push(b); } } }
    u[s.len()..].to_vec()
}
fn fixed(ctx: &mut Ctx, name: &str, cases: &[(&[u8], Vec<VI>)]) -> R {
    let mut bad = String::new();
    for (i, (s, ins)) in cases.iter().enumerate() {
        let t = rfc(s, ins);
        let mut v = vcd::HEADER.to_vec();
        let seg = if s.is_empty() { None } else { Some((s.len() as u64, 0)) };
        // a fixed serialisation: single instructions, address mode 0
        vcd::window_plain(&mut v, seg.is_some() as u8, seg, ins, t.len() as u64);
        if let Some(x) = status(&v, s, &t) { bad += &format!("-{i}{x}"); }
        ctx.count("recorded_inputs_tried", 1);
    }
    ctx.desc = format!("{} fixed inputs", cases.len());
    ctx.nontrivial = true;
    ctx.signs(name);
    if !bad.is_empty() { viol!(&format!("{name}{bad}"), "fixed VCDIFF inputs are not converted as RFC 3284 prescribes: {name}{bad}") }
    Ok(())
}
fn add(s: &str) -> VI { VI::Add(s.as_bytes().to_vec()) }
fn cp(addr: u32, len: u32) -> VI { VI::Copy { addr, len } }
fn overlap(ctx: &mut Ctx, _: &mut Rng, _: u64) -> R {
    fixed(ctx, "overlap", &[(b"", vec![add("ab"), cp(0, 6)]), (b"", vec![add("x"), cp(0, 9)]), (b"source", vec![add("abc"), cp(7, 8), add("!")]), (b"", vec![add("abcd"), cp(2, 4), cp(0, 8)])])
}
fn straddle(ctx: &mut Ctx, _: &mut Rng, _: u64) -> R { fixed(ctx, "straddle", &[(b"source", vec![add("abcdef"), cp(4, 5)]), (b"0123456789", vec![cp(0, 4), cp(8, 4)])]) }
fn empty_window(ctx: &mut Ctx, _: &mut Rng, _: u64) -> R { fixed(ctx, "empty", &[(b"", vec![]), (b"source", vec![])]) }
fn addcopy_codes(ctx: &mut Ctx, _: &mut Rng, _: u64) -> R {
    let bad: Vec<usize> = (163..256).filter(|&c| (0..6).any(|k| { let (s, v, t) = with_code(&mut Rng::new(c as u64 * 100 + k), c); status(&v, &s, &t).is_some() })).collect();
    ctx.desc = "every paired opcode, six fixed inputs each".into();
    ctx.nontrivial = true;
    ctx.signs("codes");
    ctx.count("recorded_inputs_tried", 93 * 6);
    if !bad.is_empty() { viol!(&format!("addcopy-codes-{}", ranges(&bad)), "opcodes {} are not converted as the default code table of RFC 3284 prescribes", ranges(&bad)) }
    Ok(())
}
pub fn scens() -> Vec<Scen> {
    vec![
        Scen { name: "small", weight: 40, min: (4_000, 60_000), cpu_limit: 60, run: small },
        Scen { name: "codes", weight: 6, min: (1_024, 20_000), cpu_limit: 60, run: codes },
        Scen { name: "periodic", weight: 12, min: (1_200, 12_000), cpu_limit: 60, run: periodic },
        Scen { name: "medium", weight: 6, min: (120, 3_000), cpu_limit: 90, run: medium },
        Scen { name: "windows", weight: 1, min: (40, 800), cpu_limit: 200, run: windows },
        Scen { name: "cross", weight: 1, min: (120, 3000), cpu_limit: 200, run: cross },
        Scen { name: "far", weight: 0, min: (150, 3000), cpu_limit: 200, run: far },
        Scen { name: "quiet", weight: 3, min: (400, 5_000), cpu_limit: 60, run: quiet },
        Scen { name: "overlap", weight: 0, min: (1, 1), cpu_limit: 60, run: overlap },
        Scen { name: "straddle", weight: 0, min: (1, 1), cpu_limit: 60, run: straddle },
        Scen { name: "empty_window", weight: 0, min: (1, 1), cpu_limit: 60, run: empty_window },
        Scen { name: "addcopy_codes", weight: 0, min: (1, 1), cpu_limit: 60, run: addcopy_codes },
    ]
}
