#!/usr/bin/env python3
"""Decides one property: builds the harness and the library from /repo's working tree, runs the property's
workloads in every build listed for it with the monitors installed, judges what the monitors reported and
writes evidence/<id>.json.

  check.py PROP                 tier and seed from VERIF_TIER (quick) and VERIF_SEED (1)
  check.py --setup              builds everything once
  check.py --replay FILE        re-runs the case a replay file describes
exit 0 held, 1 violated (with a VIOLATION line), 2 the check itself could not run
"""
import json, os, re, shutil, signal, struct, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from registry import PROPS  # noqa: E402

ENV = dict(os.environ)
ENV.update(CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_TERM_COLOR="never")
ENV.setdefault("HOME", "/root")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR"):
    ENV.pop(k, None)
TARGET = os.path.join(HERE, "target")
WORK = os.path.join(HERE, "work")
REPLAYS = os.path.join(HERE, "replays")
FINDINGS = os.path.join(HERE, "known_findings.txt")
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}


def die(msg, rc=2):
    print("CHECK-ERROR " + msg, flush=True)
    sys.exit(rc)


# ----------------------------------------------------------------- builds
SAN = dict(asan="address", msan="memory", tsan="thread")
SANITIZER_REPORT = r"(ERROR: (?:Leak|Address)Sanitizer: .*|WARNING: MemorySanitizer: .*|WARNING: ThreadSanitizer: .*|unsafe precondition\(s\) violated.*|thread caused non-unwinding panic.*)"


def build_cmd(build):
    """command, environment and binary of one build of harness + library"""
    env = dict(ENV)
    env["CARGO_TARGET_DIR"] = os.path.join(TARGET, build)
    cmd = ["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(HERE, "harness", "Cargo.toml")]
    if build in ("checked", "release"):
        cmd += ["--profile", build]
        return cmd, env, os.path.join(TARGET, build, build, "h")
    if build in SAN:
        # the native codecs are compiled by clang with the same sanitizer; memory and thread sanitizer need std rebuilt as well
        env["RUSTUP_TOOLCHAIN"] = "nightly"
        env["RUSTFLAGS"] = f"-Zsanitizer={SAN[build]} --cfg sanitize_{build} -Cforce-frame-pointers=yes"
        env["CC"] = "clang"
        env["CXX"] = "clang++"
        env["CFLAGS"] = f"-fsanitize={SAN[build]} -fno-omit-frame-pointer -g1"
        cmd += ["--profile", "checked", "--target", "x86_64-unknown-linux-gnu"]
        if build != "asan":
            cmd += ["-Zbuild-std"]
        return cmd, env, os.path.join(TARGET, build, "x86_64-unknown-linux-gnu", "checked", "h")
    raise ValueError(build)


def build(builds):
    procs = []
    for b in builds:
        cmd, env, binary = build_cmd(b)
        os.makedirs(env["CARGO_TARGET_DIR"], exist_ok=True)
        log = open(os.path.join(env["CARGO_TARGET_DIR"], "build.log"), "w")
        procs.append((b, subprocess.Popen(cmd, env=env, stdout=log, stderr=subprocess.STDOUT, cwd=HERE), log.name, binary))
    bins = {}
    failed = False
    for b, p, log, binary in procs:
        if p.wait() != 0:
            failed = True
            print(open(log).read()[-6000:])
            print(f"CHECK-ERROR build {b} failed")
        bins[b] = binary
    if failed:
        sys.exit(2)
    return bins


def run_env(b):
    env = dict(ENV)
    if b not in SAN:  # fewer page faults, hence more cases
        env.update(MALLOC_MMAP_THRESHOLD_="1073741824", MALLOC_TRIM_THRESHOLD_="4294967295")
    if b == "asan":
        env["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=1:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=1:max_allocation_size_mb=6000:symbolize=1:quarantine_size_mb=64"
    if b in SAN:
        env["MSAN_OPTIONS"] = env["TSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:symbolize=1:allocator_may_return_null=1"
        env["ASAN_SYMBOLIZER_PATH"] = env["MSAN_SYMBOLIZER_PATH"] = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18") or ""
    return env


# ----------------------------------------------------------------- findings
def load_findings(prop):
    known = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r"known: property=(\S+) scenario=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                known.append(dict(scenario=m.group(2), key=m.group(3), what=m.group(4)))
    return known


# ----------------------------------------------------------------- runs
def replay_case(binary, b, prop, scen, seed, idx, tier, dump=None, timeout=900):
    cmd = [binary, "case", prop, scen, str(seed), str(idx), "--tier", tier]
    if dump:
        cmd += ["--dump", dump]
    try:
        p = subprocess.run(cmd, env=run_env(b), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or "")


def write_replay(prop, build_name, scen, seed, idx, tier, key, what, n):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f"{prop}-{n}.json")
    json.dump(dict(property=prop, build=build_name, scenario=scen, seed=seed, idx=idx, tier=tier, key=key, what=what,
                   rerun=f"python3 {HERE}/check.py --replay {path}"), open(path, "w"), indent=1)
    return path


def run_build(prop, b, binary, seed, tier, secs, hard, extra=()):
    out = os.path.join(WORK, f"{prop}-{b}")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    cmd = [binary, "run", prop, "--seed", str(seed), "--secs", str(secs), "--hard", str(hard), "--tier", tier, "--out", out, *extra]
    with open(os.path.join(out, "log"), "w") as log:
        p = subprocess.Popen(cmd, env=run_env(b), stdout=log, stderr=subprocess.STDOUT, cwd=out)
        try:
            rc = p.wait(timeout=hard + 240)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = "timeout"
    return rc, out


def judge(prop, b, binary, rc, out, tier):
    """-> (result or None, [violation dicts], [harness errors])"""
    viols, errs, res = [], [], None
    log = open(os.path.join(out, "log"), errors="replace").read()
    if rc == 0:
        res = json.load(open(os.path.join(out, "result.json")))
        for v in res["bad"]:
            v["build"] = b
            (errs if v["harness"] else viols).append(v)
        return res, viols, errs
    if rc == 7:
        p, scen, seed, idx = open(os.path.join(out, "hang")).read().split()
        viols.append(dict(build=b, scenario=scen, seed=int(seed), idx=int(idx), key="hang", what="the case did not finish within its CPU-time limit", desc=""))
        return None, viols, errs
    if isinstance(rc, int) and rc < 0 and -rc in CRASH or rc in (134, 139):
        # the process died: find the case
        cases = []
        try:
            for line in open(os.path.join(out, "current")).read().split("\n"):
                f = line.split()
                if len(f) == 3:
                    cases.append((f[0], int(f[1]), int(f[2])))
        except OSError:
            pass
        for scen, seed, idx in cases:
            crc, cout = replay_case(binary, b, prop, scen, seed, idx, tier)
            if crc is None or crc < 0 or crc == 1 or crc >= 128:
                m = re.search(SANITIZER_REPORT, cout) or re.search(r"(ALLOC-CAP.*|fatal runtime error.*|memory allocation of \d+ bytes failed|panic in a function that cannot unwind|CASE-VIOLATION.*)", cout)
                viols.append(dict(build=b, scenario=scen, seed=seed, idx=idx, key="crash", what=f"the process died (status {crc}): {m.group(1) if m else cout[-400:]}", desc=""))
                break
        else:
            m = re.search(SANITIZER_REPORT, log)
            scen, seed, idx = cases[0] if cases else ("?", 0, 0)
            viols.append(dict(build=b, scenario=scen, seed=seed, idx=idx, key="crash", what=f"the process died (status {rc}), not reproduced case by case; running: {cases}; {m.group(1) if m else log[-400:]}", desc=""))
        return None, viols, errs
    m = re.search(SANITIZER_REPORT, log)
    if b in SAN and rc != 0 and m:
        viols.append(dict(build=b, scenario="?", seed=0, idx=0, key="sanitizer", what=m.group(0) + " " + log[-1500:], desc=""))
        return None, viols, errs
    errs.append(dict(build=b, what=f"runner ended with {rc}: {log[-1500:]}", key="runner", scenario="?", seed=0, idx=0))
    return None, viols, errs


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    spec = PROPS[prop]
    known = load_findings(prop)
    bins = build(spec["builds"])
    tb = time.time() - t0
    secs = spec["secs"][0 if tier == "quick" else 1]
    total_hard = 560 if tier == "quick" else 6 * 3600
    all_v, all_e, results, raw_sigs = [], [], {}, set()
    nb = len(spec["builds"])
    for i, b in enumerate(spec["builds"]):
        # only an emergency stop: cases planned for this run are all executed unless the machine is far too slow
        left = total_hard - (time.time() - t0 - tb)
        rc, out = run_build(prop, b, bins[b], seed, tier, secs / nb, max(30, left / (nb - i)))
        res, v, e = judge(prop, b, bins[b], rc, out, tier)
        all_v += v
        all_e += e
        if res:
            results[b] = res
            data = open(os.path.join(out, "sigs.bin"), "rb").read()
            raw_sigs.update(struct.unpack(f"<{len(data) // 8}Q", data))
    extra_cov = {}
    if spec.get("extra"):
        import extras
        xv, xe, extra_cov = getattr(extras, spec["extra"])(prop, seed, tier, ENV, bins)
        all_v += xv
        all_e += xe
    # listed findings are matched by scenario and exact key, anything else is a violation
    fresh, hit = [], set()
    for v in all_v:
        k = next((i for i, f in enumerate(known) if f["scenario"] == v["scenario"] and f["key"] == v["key"]), None)
        if k is None:
            fresh.append(v)
        else:
            hit.add(k)
    for f in known:
        print(f"KNOWN-FINDING: property={prop} {f['what']}", flush=True)
    counters = {}
    for b, r in results.items():
        for k, n in r["counters"].items():
            counters[k] = max(counters.get(k, 0), n) if k.startswith("max_") else counters.get(k, 0) + n
    samples, evals, per = [], 0, {}
    for b, r in results.items():
        evals += r["evaluations"]
        per[b] = {k: v[0] for k, v in r["scenarios"].items()}
        samples += r["samples"][:12]
    cov = dict(evaluations=evals, distinct_nontrivial=len(raw_sigs), rule=spec["rule"], samples=samples[:24] or ["none: the run did not complete"],
               cases_per_build_and_scenario=per, observed=counters, builds=spec["builds"],
               planned_cases_not_run=sum(r["guaranteed_left"] for r in results.values()),
               known_findings_seen=sorted(known[i]["what"] for i in hit), build_seconds=round(tb, 1))
    cov.update(extra_cov)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(dict(property=prop, tier=tier, seed=seed, level=spec["level"], coverage=cov, assumptions=spec["assumptions"],
                   wall_s=round(time.time() - t0, 2), violations=len(fresh)),
              open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    if fresh:
        seen = set()
        for n, v in enumerate(fresh):
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            path = write_replay(prop, v["build"], v["scenario"], v["seed"], v["idx"], tier, v["key"], v["what"], n)
            print(f"  [{v['build']}] {v['scenario']} seed={v['seed']} idx={v['idx']} key={v['key']}: {v['what'][:600]} {v.get('desc', '')[:300]}")
            print(f"VIOLATION property={prop} replay={path}", flush=True)
            if len(seen) >= 5:
                break
        return 1
    if all_e:
        for e in all_e[:5]:
            print(f"CHECK-ERROR [{e['build']}] {e['scenario']} seed={e['seed']} idx={e['idx']} {e['key']}: {e['what'][:1500]}")
        return 2
    need = spec.get("require", [])
    missing = [k for k in need if counters.get(k, 0) == 0]
    if missing:
        print(f"CHECK-ERROR the workload never produced: {missing}")
        return 2
    print(f"{prop} held: {evals} cases ({len(raw_sigs)} distinct) in {time.time() - t0:.0f}s, builds {spec['builds']}")
    return 0


def replay(path):
    r = json.load(open(path))
    if r["scenario"] == "digest":
        import extras
        bins = build(["checked", "release"])
        v, e, _ = extras.p16_processes(r["property"], r["seed"], r["tier"], ENV, bins)
        for x in v:
            print(x["what"])
        if v:
            print(f"VIOLATION property={r['property']} replay={path}")
        return 1 if v else 2 if e else 0
    if r["build"] == "miri":
        import extras
        v, e = extras.miri_case(r["property"], r["scenario"], r["seed"], r["idx"], ENV)
        print(v or e or "held")
        if v:
            print(f"VIOLATION property={r['property']} replay={path}")
        return 1 if v else 2 if e else 0
    if r["scenario"] == "?":
        print(json.dumps(r, indent=1))
        return 2
    bins = build([r["build"]])
    rc, out = replay_case(bins[r["build"]], r["build"], r["property"], r["scenario"], r["seed"], r["idx"], r["tier"], dump=os.path.join(WORK, "replay-dump"))
    print(out)
    if rc == 0:
        return 0
    if rc == 1 or rc is None or rc < 0 or rc >= 128:
        print(f"VIOLATION property={r['property']} replay={path}")
        return 1
    return 2


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[:1] == ["--setup"]:
        build(["checked", "release"])
        build(["asan", "msan", "tsan"])
        import extras
        extras.miri_build(ENV)
        print("setup done")
    elif a[:1] == ["--manifest"]:
        from registry import NOT_YET
        cmd = "python3 /verif/check.py "
        json.dump(dict(version=1, setup_cmd=cmd + "--setup",
                       checks=[dict(property=k, quick_cmd=cmd + k, thorough_cmd="env VERIF_TIER=thorough " + cmd + k, technique=v["technique"],
                                    level=v["level"], level_note=v["note"]) for k, v in sorted(PROPS.items())],
                       not_applicable=[dict(property=k, reason="check not built yet") for k in NOT_YET]),
                  open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    elif a[:1] == ["--replay"] and len(a) == 2:
        sys.exit(replay(a[1]))
    elif len(a) == 1 and a[0] in PROPS:
        sys.exit(check(a[0]))
    else:
        print(__doc__)
        sys.exit(2)
