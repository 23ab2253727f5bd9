"""Parts of checks that are not workloads inside one harness process."""
import os, re, subprocess
from concurrent.futures import ThreadPoolExecutor


def p16_processes(prop, seed, tier, env, bins):
    """The same operations in several processes and both builds, in different directories and environments, in different orders, and some of
    them each as the only operation of a process."""
    n, singles = (1500, 160) if tier == "quick" else (40000, 4000)
    runs = [("release", {}, "fwd"), ("release", {"SMDIFF_NOISE": "x" * 3000, "TZ": "Asia/Tokyo", "LC_ALL": "C"}, "rev"), ("release", {}, "shuf1"), ("release", {}, "shuf2"),
            ("checked", {}, "fwd"), ("checked", {"RUST_BACKTRACE": "1"}, "shuf3")]
    runs += [("release" if i % 2 else "checked", {}, f"one{i * (n // singles)}") for i in range(singles)]

    def one(a):
        i, (b, extra, order) = a
        p = subprocess.run([bins[b], "digest", str(seed), str(n), order], env={**env, **extra}, cwd=["/", "/tmp"][i % 2], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        return b, order, p.returncode, p.stdout, p.stderr
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, enumerate(runs)))
    errs, viols = [], []
    want = dict(l.split(" ", 1) for l in outs[0][3].split("\n") if l)
    for b, order, rc, o, e in outs:
        if rc != 0:
            errs.append(dict(build=b, scenario="digest", seed=seed, idx=0, key="digest", what=f"digest run {order} ended with {rc}: {e[-500:]}"))
            continue
        got = dict(l.split(" ", 1) for l in o.split("\n") if l)
        if len(got) != (1 if order.startswith("one") else n):
            errs.append(dict(build=b, scenario="digest", seed=seed, idx=0, key="digest", what=f"digest run {order} printed {len(got)} lines"))
        d = [k for k in got if got[k] != want.get(k)]
        if d and not viols:
            viols.append(dict(build=b, scenario="digest", seed=seed, idx=int(d[0]), key="process", what=f"{len(d)} of {len(got)} operations gave different results in another process: [release, in order] {want.get(d[0], '')[:300]} | [{b}, {order}] {got[d[0]][:300]}", desc=""))
    return viols, errs, dict(operations_compared_between_processes=n, processes_running_all_operations=6, orders_of_operations=5, processes_running_one_operation=singles)


# ------------------------------------------------------------------ P19
HERE = os.path.dirname(os.path.abspath(__file__))
MIRI_SCENARIOS = "enc_tiny enc_small enc_tails dec_plain dec_comp dec_addr io_small sec_mixed sec_foreign mrg_short mrg_seams trn_trains any primitives claims injuries faults cnv crowd leaks".split()
CANARIES = dict(asan=["read", "leak", "check"], msan=["uninit"], tsan=["race"], checked=["check"])


def miri_env(env, seed=0):
    e = dict(env)
    e.update(RUSTUP_TOOLCHAIN="nightly", CARGO_TARGET_DIR=os.path.join(HERE, "target", "miri"), MIRIFLAGS=f"-Zmiri-disable-isolation -Zmiri-seed={seed}", CARGO_NET_OFFLINE="true")
    return e


def miri(env, args, seed=0, **kw):
    return subprocess.Popen(["cargo", "miri", "run", "--offline", "--locked", "--manifest-path", os.path.join(HERE, "miri", "Cargo.toml"), "--", *args],
                            env=miri_env(env, seed), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


def miri_build(env):
    """Builds by running a deliberate error, which Miri must report. -> reason why Miri cannot be used, or None"""
    p = miri(env, ["canary", "read"])
    o, e = p.communicate()
    return None if "Undefined Behavior" in e else f"Miri could not be used: {e[-400:]}"


def miri_case(prop, scen, seed, idx, env):
    p = miri(env, ["case", prop, scen, str(seed), str(idx)], seed & 0xffff)
    o, e = p.communicate()
    m = re.search(r"error: (Undefined Behavior|memory leaked|abnormal termination).*", e)
    return (m.group(0) + "\n" + e[e.find(m.group(0)):][:3000] if m else None), (None if p.returncode in (0, 1) or m else e[-1000:])


def p19_sanitizers(prop, seed, tier, env, bins):
    import check
    viols, errs, seen = [], [], {}
    # every monitor has to report a deliberate error
    for b, kinds in CANARIES.items():
        for k in kinds:
            p = subprocess.run([bins[b], "canary", k], env=check.run_env(b), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors="replace", text=True)
            m = re.search(check.SANITIZER_REPORT, p.stdout)
            if p.returncode == 0 or not m:
                errs.append(dict(build=b, scenario="canary", seed=seed, idx=0, key="canary", what=f"the {b} build does not report a deliberate {k} error: {p.stdout[-300:]}"))
            else:
                seen[f"{b}/{k}"] = m.group(1)[:120]
    why = miri_build(env)
    cases = {}
    if why is None:
        secs, procs = (45, 8) if tier == "quick" else (1500, 8)
        runs = [(s, miri(env, ["slow", "P19", str(s), str(secs), *MIRI_SCENARIOS], s)) for s in (seed * 100 + i for i in range(procs))]
        for s, p in runs:
            try:
                o, e = p.communicate(timeout=secs * 4 + 200)
            except subprocess.TimeoutExpired:
                p.kill()
                o, e = p.communicate()
            last = [l.split()[1:] for l in e.split("\n") if l.startswith("CASE ")]
            scen, cs, idx = last[-1] if last else ("?", "0", "0")
            m = re.search(r"error: (Undefined Behavior|memory leaked|abnormal termination).*", e)
            for l in o.split("\n"):
                if l.startswith("SLOW-VIOLATION"):
                    f = l.split(" ", 4)
                    viols.append(dict(build="miri", scenario=f[1], seed=int(f[2]), idx=int(f[3]), key="miri-case", what=f[4], desc=""))
            if m:
                where = e[e.find(m.group(0)):]
                at = re.search(r"--> (\S+)", where)
                viols.append(dict(build="miri", scenario=scen, seed=int(cs), idx=int(idx), key="miri " + m.group(0)[:80], what=m.group(0) + (" at " + at.group(1) if at else ""), desc=where[:1500]))
            for l in last:
                cases[l[0]] = cases.get(l[0], 0) + 1
    return viols, errs, dict(deliberate_errors_reported=seen, miri=why or "used", miri_processes=0 if why else len(runs), miri_cases=cases, miri_cases_total=sum(cases.values()))
