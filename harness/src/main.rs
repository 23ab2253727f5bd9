//! Workload runner. One process runs one property in one build; it drives the real library under generated
//! workloads on all cores, with the monitors of `mon` installed, and reports what it observed as JSON.
mod gen;
mod iox;
mod mon;
mod props;
mod refm;
mod rng;
mod vcd;
mod world;

use mon::{Ctx, PanicInfo, R, SLOTS};
use rng::{hash_bytes, mix, Rng};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static A: mon::Tracking = mon::Tracking;

/// One family of cases.
pub struct Scen {
    pub name: &'static str,
    /// share of the random phase
    pub weight: u32,
    /// cases always run in quick / thorough mode, whatever the time budget
    pub min: (u64, u64),
    /// CPU seconds after which a case counts as not terminating
    pub cpu_limit: u64,
    pub run: fn(&mut Ctx, &mut Rng, u64) -> R,
}

fn arg(args: &[String], k: &str) -> Option<String> { args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned()) }
fn profile() -> &'static str { if cfg!(miri) { "miri" } else if cfg!(sanitize_asan) { "asan" } else if cfg!(sanitize_msan) { "msan" } else if cfg!(sanitize_tsan) { "tsan" } else if cfg!(debug_assertions) { "checked" } else { "release" } }

pub struct Outcome { pub scen: usize, pub idx: u64, pub seed: u64, pub key: String, pub what: String, pub desc: String, pub harness: bool }

fn case_seed(master: u64, prop: &str, scen: &str, idx: u64) -> u64 {
    mix(hash_bytes(master, prop.as_bytes()) ^ hash_bytes(7, scen.as_bytes()) ^ mix(idx) ^ hash_bytes(3, profile().as_bytes()))
}

fn run_case(s: &Scen, ctx: &mut Ctx, seed: u64, idx: u64) -> Result<(), (String, String, bool)> {
    let mut rng = Rng::new(seed);
    match mon::catch(|| (s.run)(ctx, &mut rng, idx)) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(v)) => Err((v.key, v.what, false)),
        Err(p) => { let ours = p.ours(); Err((format!("panic {}", p.site()), format!("panic at {}:{}: {}", p.file, p.line, p.msg), ours)) }
    }
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\r' => o += "\\r", '\t' => o += "\\t", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } }
    o.push('"');
    o
}

fn main() {
    mon::install_hook();
    let args: Vec<String> = std::env::args().collect();
    let mode = args.get(1).cloned().unwrap_or_default();
    match mode.as_str() {
        "run" => run(&args),
        "case" => case(&args),
        "digest" => props::p16::digest(args[2].parse().unwrap(), args[3].parse().unwrap(), args.get(4).map_or("fwd", |s| s)),
        "slow" => slow(&args),
        "canary" => canary(&args[2]),
        "list" => { for (p, ss) in props::all() { println!("{p}: {}", ss.iter().map(|s| s.name).collect::<Vec<_>>().join(" ")); } }
        _ => { eprintln!("usage: h run PROP --seed N --secs S --tier quick|thorough --out DIR | h case PROP SCEN SEED IDX [--tier T] [--dump DIR]"); std::process::exit(2) }
    }
}

/// Replays one case: exit 0 held, 1 violated, 3 harness error.
fn case(args: &[String]) {
    let prop = &args[2];
    let scens = props::get(prop);
    let s = scens.iter().find(|s| s.name == args[3]).unwrap_or_else(|| { eprintln!("no scenario {}", args[3]); std::process::exit(3) });
    let seed: u64 = args[4].parse().unwrap();
    let idx: u64 = args[5].parse().unwrap();
    let thorough = arg(args, "--tier").as_deref() == Some("thorough");
    let dump = arg(args, "--dump");
    let mut ctx = Ctx::new(profile(), thorough, dump.is_some());
    let (slot, limit) = (0, s.cpu_limit);
    SLOTS[slot].tid.store(mon::gettid(), SeqCst);
    let name = s.name;
    let p2 = prop.clone();
    mon::watchdog(move |_| { println!("CASE-VIOLATION key=hang property={p2} scenario={name}: not finished after {limit} CPU seconds"); std::process::exit(1) });
    mon::begin(slot, 0, seed, limit, idx);
    let r = run_case(s, &mut ctx, seed, idx);
    mon::end(slot);
    if let Some(d) = dump { let _ = std::fs::create_dir_all(&d); for (n, b) in &ctx.blobs { let _ = std::fs::write(format!("{d}/{n}"), b); } }
    println!("case {} {}: {}", prop, s.name, ctx.desc);
    match r {
        Ok(()) => println!("CASE-OK"),
        Err((k, w, false)) => { println!("CASE-VIOLATION key={k} property={prop} scenario={}: {w}", s.name); std::process::exit(1) }
        Err((k, w, true)) => { println!("HARNESS-ERROR {k}: {w}"); std::process::exit(3) }
    }
}

/// One case after another on this thread, without watchdog or files: what an interpreter can run. `h slow PROP SEED SECS [SCEN..]`
fn slow(args: &[String]) {
    let (prop, master, secs) = (&args[2], args[3].parse::<u64>().unwrap(), args[4].parse::<u64>().unwrap());
    let scens: Vec<Scen> = props::get(prop).into_iter().filter(|s| args.len() < 6 || args[5..].iter().any(|a| a == s.name)).collect();
    let (t0, mut pick, mut counters) = (Instant::now(), Rng::new(mix(master)), BTreeMap::<&str, u64>::new());
    let mut i = 0;
    // every scenario once, in an order of this process's own, then at random while time is left
    while (i as usize) < scens.len() || t0.elapsed().as_secs() < secs {
        if t0.elapsed().as_secs() > secs * 2 { break; }
        let s = if (i as usize) < scens.len() { &scens[(i as usize + master as usize * 7) % scens.len()] } else { &scens[pick.below(scens.len())] };
        let seed = case_seed(master, prop, s.name, i);
        eprintln!("CASE {} {seed} {i}", s.name);
        let t1 = Instant::now();
        let mut ctx = Ctx::new(profile(), false, false);
        if let Err((k, w, ours)) = run_case(s, &mut ctx, seed, i) { if ours { eprintln!("HARNESS-ERROR {k} {w}"); } else { println!("SLOW-VIOLATION {} {seed} {i} {k}: {w}", s.name); } }
        eprintln!("TOOK {} {}", s.name, t1.elapsed().as_millis());
        *counters.entry(s.name).or_insert(0) += 1;
        i += 1;
    }
    println!("SLOW-DONE {}", counters.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" "));
}
/// Deliberate errors, to show that the build this runs in reports them.
fn canary(what: &str) {
    let v: Vec<u8> = (0..16u8).map(|x| x.wrapping_mul(std::process::id() as u8)).collect();
    let p = std::hint::black_box(v.as_ptr());
    match what {
        "read" => println!("{}", unsafe { p.add(std::hint::black_box(16)).read_volatile() }),
        "leak" => { std::mem::forget(std::hint::black_box(vec![1u8; 4242])); }
        "uninit" => { let mut u: Vec<u8> = Vec::with_capacity(64); unsafe { u.set_len(64) }; let u = std::hint::black_box(u); if u[7] == 3 { println!("three"); } else { println!("not three"); } }
        "race" => { static mut N: u64 = 0; let t: Vec<_> = (0..2).map(|_| std::thread::spawn(|| for _ in 0..1000 { unsafe { let q = &raw mut N; q.write(q.read() + 1); } })).collect(); for t in t { t.join().unwrap(); } }
        "check" => println!("{}", unsafe { v.get_unchecked(std::hint::black_box(17)) }),
        _ => std::process::exit(3),
    }
}

struct Shared {
    counters: BTreeMap<String, u64>,
    per_scen: Vec<(u64, u64)>,
    samples: Vec<Vec<String>>,
    sigs: HashSet<u64>,
    evals: u64,
    nontrivial: u64,
    bad: Vec<Outcome>,
    bad_total: u64,
}

fn run(args: &[String]) {
    let prop = args[2].clone();
    let master: u64 = arg(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = arg(args, "--secs").and_then(|s| s.parse().ok()).unwrap_or(20.0);
    let hard: f64 = arg(args, "--hard").and_then(|s| s.parse().ok()).unwrap_or(secs + 300.0);
    let thorough = arg(args, "--tier").as_deref() == Some("thorough");
    let threads: usize = arg(args, "--threads").and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
    let out = arg(args, "--out").expect("--out DIR");
    let only = arg(args, "--scen");
    let mins_scale: f64 = arg(args, "--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    std::fs::create_dir_all(&out).unwrap();
    let scens: Vec<Scen> = props::get(&prop).into_iter().filter(|s| only.as_deref().map(|o| o == s.name).unwrap_or(true)).collect();
    if scens.is_empty() { eprintln!("no scenarios for {prop}"); std::process::exit(3); }
    let scens: &'static Vec<Scen> = Box::leak(Box::new(scens));

    // the guaranteed cases, long ones first so that they overlap with the rest
    let mut queue: Vec<(usize, u64)> = vec![];
    for (i, s) in scens.iter().enumerate() {
        let n = if thorough { s.min.1 } else { s.min.0 };
        let n = if n == 0 { 0 } else { ((n as f64 * mins_scale).ceil() as u64).max(1) };
        for k in 0..n { queue.push((i, k)); }
    }
    queue.sort_by_key(|&(i, k)| (std::cmp::Reverse(scens[i].cpu_limit), k));
    let mut next_idx: Vec<AtomicU64> = vec![];
    for (i, _) in scens.iter().enumerate() { next_idx.push(AtomicU64::new(queue.iter().filter(|q| q.0 == i).count() as u64)); }
    let qpos = AtomicU64::new(0);
    let total_w: u32 = scens.iter().map(|s| s.weight).sum();
    let t0 = Instant::now();
    let soft = Duration::from_secs_f64(secs);
    let hard = Duration::from_secs_f64(hard);
    let stop = AtomicBool::new(false);
    let guaranteed_left = AtomicU64::new(queue.len() as u64);
    let sh = Mutex::new(Shared { counters: BTreeMap::new(), per_scen: vec![(0, 0); scens.len()], samples: vec![vec![]; scens.len()], sigs: HashSet::new(), evals: 0, nontrivial: 0, bad: vec![], bad_total: 0 });

    // current case of every thread, for the driver, should the process die
    let cur_path = format!("{out}/current");
    let cur = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(&cur_path).unwrap();
    let hang_out = out.clone();
    let hp = prop.clone();
    mon::watchdog(move |i| {
        let s = &SLOTS[i];
        let sc = &scens[s.scen.load(SeqCst)];
        let idx = s.idx.load(SeqCst);
        let _ = std::fs::write(format!("{hang_out}/hang"), format!("{} {} {} {}\n", hp, sc.name, s.seed.load(SeqCst), idx));
        std::process::exit(7);
    });

    std::thread::scope(|sc| {
        for slot in 0..threads.min(mon::MAXT) {
            let (sh, stop, qpos, queue, next_idx, cur, guaranteed_left) = (&sh, &stop, &qpos, &queue, &next_idx, &cur, &guaranteed_left);
            let prop = prop.clone();
            std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, move || {
                use std::os::unix::fs::FileExt;
                SLOTS[slot].tid.store(mon::gettid(), SeqCst);
                let mut pick = Rng::new(mix(master ^ 0x5eed ^ (slot as u64) << 32));
                let (mut evals, mut nontriv) = (0u64, 0u64);
                let mut counters: BTreeMap<&'static str, u64> = BTreeMap::new();
                let mut sigs: HashSet<u64> = HashSet::new();
                loop {
                    let el = t0.elapsed();
                    if stop.load(SeqCst) || el > hard { break; }
                    let q = qpos.fetch_add(1, SeqCst) as usize;
                    let (si, idx, fixed) = if q < queue.len() { (queue[q].0, queue[q].1, true) } else {
                        if el > soft || total_w == 0 { break; }
                        let mut w = pick.below(total_w as usize) as u32;
                        let mut si = 0;
                        for (i, s) in scens.iter().enumerate() { if w < s.weight { si = i; break; } w -= s.weight; }
                        (si, next_idx[si].fetch_add(1, SeqCst), false)
                    };
                    let s = &scens[si];
                    let seed = case_seed(master, &prop, s.name, idx);
                    let line = format!("{:<24} {:>20} {:>20}\n", s.name, seed, idx);
                    let _ = cur.write_at(line.as_bytes(), (slot * line.len()) as u64);
                    let mut ctx = Ctx::new(profile(), thorough, false);
                    mon::begin(slot, si, seed, s.cpu_limit, idx);
                    let r = run_case(s, &mut ctx, seed, idx);
                    mon::end(slot);
                    if fixed { guaranteed_left.fetch_sub(1, SeqCst); }
                    evals += 1;
                    if ctx.nontrivial { nontriv += 1; sigs.insert(ctx.sig); }
                    for (k, v) in &ctx.counters { if k.starts_with("max_") { let e = counters.entry(k).or_insert(0); *e = (*e).max(*v) } else { *counters.entry(k).or_insert(0) += v } }
                    let mut g = None;
                    if let Err((key, what, harness)) = r {
                        let mut l = sh.lock().unwrap();
                        l.bad_total += 1;
                        if l.bad.iter().filter(|b| b.key == key).count() < 3 && l.bad.len() < 60 { l.bad.push(Outcome { scen: si, idx, seed, key, what, desc: ctx.desc.clone(), harness }); }
                        if l.bad_total > if prop == "P23" { 5 } else { 200 } { stop.store(true, SeqCst); }
                        g = Some(l);
                    }
                    let mut l = match g { Some(l) => l, None => sh.lock().unwrap() };
                    l.per_scen[si].0 += 1;
                    if ctx.nontrivial { l.per_scen[si].1 += 1; }
                    if l.samples[si].len() < 2 && ctx.nontrivial { let d = format!("{}: {}", s.name, ctx.desc); l.samples[si].push(d); }
                }
                let mut l = sh.lock().unwrap();
                l.evals += evals;
                l.nontrivial += nontriv;
                l.sigs.extend(sigs);
                for (k, v) in counters { if k.starts_with("max_") { let e = l.counters.entry(k.into()).or_insert(0); *e = (*e).max(v) } else { *l.counters.entry(k.into()).or_insert(0) += v } }
            }).unwrap();
        }
    });

    let l = sh.into_inner().unwrap();
    let mut j = String::from("{");
    j += &format!("\"property\":{},\"profile\":{},\"seed\":{},\"wall_s\":{:.3},\"evaluations\":{},\"nontrivial\":{},\"distinct\":{},\"guaranteed_left\":{},", jstr(&prop), jstr(profile()), master, t0.elapsed().as_secs_f64(), l.evals, l.nontrivial, l.sigs.len(), guaranteed_left.load(SeqCst));
    j += &format!("\"violations_total\":{},", l.bad_total);
    j += "\"counters\":{";
    j += &l.counters.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(",");
    j += "},\"scenarios\":{";
    j += &scens.iter().zip(&l.per_scen).map(|(s, c)| format!("{}:[{},{}]", jstr(s.name), c.0, c.1)).collect::<Vec<_>>().join(",");
    j += "},\"samples\":[";
    j += &l.samples.iter().flatten().map(|s| jstr(&s.chars().take(400).collect::<String>())).collect::<Vec<_>>().join(",");
    j += "],\"bad\":[";
    j += &l.bad.iter().map(|b| format!("{{\"scenario\":{},\"seed\":{},\"idx\":{},\"key\":{},\"what\":{},\"desc\":{},\"harness\":{}}}", jstr(scens[b.scen].name), b.seed, b.idx, jstr(&b.key), jstr(&b.what.chars().take(1500).collect::<String>()), jstr(&b.desc.chars().take(600).collect::<String>()), b.harness)).collect::<Vec<_>>().join(",");
    j += "]}";
    std::fs::write(format!("{out}/result.json"), j).unwrap();
    let mut f = std::io::BufWriter::new(std::fs::File::create(format!("{out}/sigs.bin")).unwrap());
    for s in &l.sigs { f.write_all(&s.to_le_bytes()).unwrap(); }
    let _ = std::fs::remove_file(cur_path);
    let _: Option<PanicInfo> = None;
}
