#!/usr/bin/env python3
"""Driver for the deterministic-simulation checks.

  check.py PROPERTY              decide one property (VERIF_SEED, VERIF_TIER)
  check.py replay FILE           re-execute a replay file
  check.py explore SCENARIO N    run N seeds of one scenario, print a summary
  check.py one SCENARIO SEED     run one seed, print the result
"""
import json, os, re, subprocess, sys, threading, time, hashlib, tempfile, shutil, collections
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
TARGET = os.environ.get("VERIF_TARGET", os.path.join(HERE, "target"))
BIN = os.path.join(TARGET, "x86_64-unknown-linux-gnu", "release", "dst")
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
sys.path.insert(0, HERE)
from plan import PROPS, COMMON_REAL, COMMON_STUB  # noqa: E402


class Server:
    """One fork server: every run is a fresh forked process."""

    def __init__(self, scenario, cov="-"):
        self.p = subprocess.Popen([BIN, "serve", scenario] + ["."] * 60, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env={"LANG": "C", "VERIF_COV": cov}, cwd="/")

    def run(self, seed, replay="-", trace="-", timeout_ms=60000):
        self.p.stdin.write(f"{seed} {replay} {trace} {timeout_ms}\n".encode())
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("fork server died")
        return json.loads(line, strict=False)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=60)
        except Exception:
            self.p.kill()


def build():
    t = time.time()
    log = os.path.join(TARGET, "build.log")
    os.makedirs(TARGET, exist_ok=True)
    with open(log, "wb") as f:
        rc = subprocess.call([os.path.join(HERE, "build.sh"), "-q"], stdout=f, stderr=subprocess.STDOUT)
    if rc != 0:
        sys.stderr.write(open(log, errors="replace").read()[-6000:])
        print("ERROR: harness does not build against /repo's working tree")
        sys.exit(2)
    return time.time() - t


def verdict(r):
    """-> (status, kind, msg)"""
    res = r.get("result")
    if r.get("timed_out"):
        return "inconclusive", "wall-timeout", ""
    if res is None:
        if r.get("signal") in (9,):
            return "inconclusive", "killed", ""
        if r.get("signal") and r.get("guarded"):
            return "skip", f"premise-crash-{r['signal']}", ""
        if r.get("signal"):
            return "violation", f"crash-signal-{r['signal']}", "the simulated program died"
        return "harness", "no-result", f"exit {r.get('exit')}"
    return res["status"], res.get("kind", ""), res.get("msg", "")


def fingerprint(r):
    res = r.get("result") or {}
    return json.dumps([r.get("exit"), r.get("signal"), res.get("status"), res.get("kind"), res.get("msg"), res.get("ticks"),
                       res.get("vtime_ns"), res.get("switches"), res.get("hash"), res.get("faults"), res.get("probes")], sort_keys=True)


class Minimiser:
    def __init__(self, scenario, seed, kind, timeout_ms, deadline):
        self.sc, self.seed, self.kind, self.tmo, self.deadline = scenario, seed, kind, timeout_ms, deadline
        self.dir = tempfile.mkdtemp(prefix="vmin", dir="/tmp")
        self.servers = [Server(scenario) for _ in range(WORKERS)]
        self.pool = ThreadPoolExecutor(WORKERS)
        self.free = collections.deque(range(WORKERS))
        self.lock = threading.Lock()
        self.tries = 0

    def close(self):
        for s in self.servers:
            s.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def attempt(self, lines, trace="-"):
        with self.lock:
            i = self.free.popleft()
            self.tries += 1
        try:
            f = os.path.join(self.dir, f"r{i}")
            open(f, "w").write("mode trace\n" + "".join(l + "\n" for l in lines))
            return self.servers[i].run(self.seed, f, trace, self.tmo)
        finally:
            with self.lock:
                self.free.append(i)

    def fails(self, lines):
        if time.time() > self.deadline:
            return False
        st, k, _ = verdict(self.attempt(lines))
        return st == "violation" and k == self.kind

    def many(self, cands):
        """index of the first failing candidate, else None"""
        for i in range(0, len(cands), WORKERS):
            res = list(self.pool.map(self.fails, cands[i:i + WORKERS]))
            for j, ok in enumerate(res):
                if ok:
                    return i + j
            if time.time() > self.deadline:
                return None
        return None

    def ddmin(self, keep, lines):
        """minimise `lines` given fixed `keep`"""
        n = 2
        if self.fails(keep):
            return []
        while len(lines) >= 2 and time.time() < self.deadline:
            size = max(1, len(lines) // n)
            chunks = [(i, min(i + size, len(lines))) for i in range(0, len(lines), size)]
            cands = [keep + lines[:a] + lines[b:] for a, b in chunks]
            j = self.many(cands)
            if j is not None:
                a, b = chunks[j]
                lines = lines[:a] + lines[b:]
                n = max(2, n - 1)
            elif n >= len(lines):
                break
            else:
                n = min(len(lines), n * 2)
        return lines

    def minimise(self, trace_lines, nops):
        ev = [l for l in trace_lines if l and l[0] in "SMBF"]
        drops = []
        if not self.fails(ev):
            return None
        # operations first: drop ever larger groups of generated operations
        if nops:
            lo = 0
            size = max(1, nops // 2)
            live = list(range(nops))
            while size >= 1 and time.time() < self.deadline:
                i, progress = 0, False
                while i < len(live) and time.time() < self.deadline:
                    groups = [live[k:k + size] for k in range(i, min(len(live), i + size * WORKERS), size)]
                    cands = [ev + drops + [f"D {o}" for o in g] for g in groups]
                    j = self.many(cands)
                    if j is None:
                        i += size * WORKERS
                    else:
                        drops += [f"D {o}" for o in groups[j]]
                        gone = set(groups[j])
                        live = [o for o in live if o not in gone]
                        progress = True
                if size == 1 and not progress:
                    break
                size = size // 2 if size > 1 else (1 if progress else 0)
        faults = [l for l in ev if l[0] == "F"]
        sched = [l for l in ev if l[0] != "F"]
        sched = self.ddmin(drops + faults, sched)
        faults = self.ddmin(drops + sched, faults)
        return drops + faults + sched


def report_violation(prop, sc, seed, timeout_ms, min_secs):
    """Record, minimise, verify in fresh processes; returns (path, result) or None if it does not replay."""
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    tf = tempfile.mktemp(prefix="vtrace", dir="/tmp")
    s = Server(sc)
    r = s.run(seed, "-", tf, timeout_ms)
    s.close()
    st, kind, msg = verdict(r)
    if st != "violation":
        return None
    lines = open(tf).read().split("\n")
    os.unlink(tf)
    m = Minimiser(sc, seed, kind, timeout_ms, time.time() + min_secs)
    nops = r.get("nops", 0)
    small = None
    if not r.get("log_overflow"):
        small = m.minimise(lines, nops)
    tries = m.tries
    m.close()
    path = os.path.join(HERE, "replays", f"{prop}-{sc}-{seed}.replay")
    if small is None:
        small = [l for l in lines if l and l[0] in "SMBF"]
        seed_only = True
    else:
        seed_only = False

    def write(body, res, v):
        with open(path, "w") as f:
            f.write(f"# property {prop}\n# scenario {sc}\n# seed {seed}\n# kind {v[1]}\n")
            f.write(f"# minimised in {tries} attempts: {len(body)} entries of {len([l for l in lines if l and l[0] in 'SMBF'])}\n")
            for l in (v[2] or "").split("\n")[:200]:
                f.write(f"# | {l}\n")
            if seed_only:
                f.write("# mode seed\n")
            else:
                f.write("mode trace\n" + "".join(l + "\n" for l in body))
    write(small, r, (st, kind, msg))
    # exact reproduction: two fresh server processes must agree on everything
    outs = []
    for _ in range(2):
        s = Server(sc)
        outs.append(s.run(seed, "-" if seed_only else path, "-", timeout_ms))
        s.close()
    v = verdict(outs[0])
    if v[0] != "violation" or v[1] != kind or fingerprint(outs[0]) != fingerprint(outs[1]):
        return None
    write(small, outs[0], v)
    return path, outs[0], kind, v[2], len(small)


def known_findings():
    f = os.path.join(HERE, "known_findings.json")
    return json.load(open(f)) if os.path.exists(f) else []


def match_known(prop, sc, kind, msg):
    for k in known_findings():
        if k.get("status") == "known" and k["property"] == prop and k.get("scenario") in (None, sc) and k.get("kind") in (None, kind) \
                and re.search(k["match"], msg or "", re.S):
            return k
    return None


def explore(scenarios, budget_s, base_seed, max_runs, timeout_ms, stop_on=None, det_every=40, want_cov=True):
    """Run seeds round-robin over `scenarios` for budget_s. Returns a stats dict."""
    st = dict(runs=0, ok=0, skip=0, inconclusive=0, harness=0, ticks=0, vtime=0, switches=0, preempts=0, threads=0, procs=0,
              faults={}, probes={}, hashes=set(), nontrivial=0, violations=[], samples=[], det=0, det_bad=[], per={}, inc=[])
    lock = threading.Lock()
    t0 = time.time()
    stop = threading.Event()
    tmpd = tempfile.mkdtemp(prefix="vcov", dir="/tmp")
    total_w = sum(w for _, w in scenarios)
    # deterministic seed -> scenario assignment
    slots = []
    for sc, w in scenarios:
        slots += [sc] * w
    counter = {"i": 0}
    covs = {}

    def worker(w):
        servers = {}
        def srv(sc):
            if sc not in servers:
                servers[sc] = Server(sc, os.path.join(tmpd, f"{w}.{sc}"))
            return servers[sc]
        pending = None
        while not stop.is_set() and time.time() - t0 < budget_s:
            with lock:
                i = counter["i"]
                if i >= max_runs:
                    break
                counter["i"] += 1
            sc = slots[i % len(slots)]
            seed = base_seed * 1_000_003 + i
            try:
                r = srv(sc).run(seed, "-", "-", timeout_ms)
            except Exception as e:  # noqa
                servers.pop(sc, None)
                with lock:
                    st["harness"] += 1
                    st["inc"].append((sc, seed, f"server: {e}"))
                continue
            v = verdict(r)
            bad_det = None
            if i % det_every == 0 and v[0] != "inconclusive":
                s2 = Server(sc)
                r2 = s2.run(seed, "-", "-", timeout_ms * 2)
                s2.close()
                if verdict(r2)[0] != "inconclusive":
                    bad_det = fingerprint(r) != fingerprint(r2)
            with lock:
                st["runs"] += 1
                if bad_det is not None:
                    st["det"] += 1
                    if bad_det:
                        st["det_bad"].append((sc, seed))
                p = st["per"].setdefault(sc, dict(runs=0, ok=0, skip=0, inconclusive=0, violation=0, harness=0))
                p["runs"] += 1
                p[v[0]] = p.get(v[0], 0) + 1
                res = r.get("result") or {}
                if v[0] in ("ok", "skip", "inconclusive", "harness"):
                    st[v[0]] += 1
                if v[0] in ("inconclusive", "harness"):
                    st["inc"].append((sc, seed, v[1] + " " + v[2][:300]))
                if v[0] == "violation":
                    st["violations"].append((sc, seed, v[1], v[2]))
                    if stop_on is None or stop_on(sc, v[1], v[2]):
                        stop.set()
                for k in ("ticks", "switches", "preempts", "threads", "procs"):
                    st[k] += res.get(k, 0)
                st["vtime"] += res.get("vtime_ns", 0)
                fired = 0
                for k, (f, s) in (res.get("faults") or {}).items():
                    a = st["faults"].setdefault(k, [0, 0, 0])
                    a[0] += f
                    a[1] += s
                    a[2] += 1 if f else 0
                    fired += f
                for k, n in (res.get("probes") or {}).items():
                    a = st["probes"].setdefault(k, [0, 0])
                    a[0] += n
                    a[1] += 1
                if v[0] in ("ok", "violation"):
                    h = (sc, res.get("hash"))
                    if h not in st["hashes"]:
                        st["hashes"].add(h)
                        if fired or res.get("preempts") or res.get("probes"):
                            st["nontrivial"] += 1
                    if len(st["samples"]) < 6 and (i % 7 == 0 or v[0] == "violation"):
                        st["samples"].append(dict(scenario=sc, seed=seed, cfg=res.get("cfg"), schedule_hash=res.get("hash"), ticks=res.get("ticks"),
                                                  switches=res.get("switches"), faults={k: x[0] for k, x in (res.get("faults") or {}).items() if x[0]},
                                                  probes=res.get("probes"), case=res.get("sample")))
        for s in servers.values():
            s.close()

    ths = [threading.Thread(target=worker, args=(w,)) for w in range(WORKERS)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    st["wall"] = time.time() - t0
    edges = {}
    for f in os.listdir(tmpd):
        b = open(os.path.join(tmpd, f), "rb").read()
        sc = f.split(".", 1)[1]
        a = int.from_bytes(b, "little")
        covs[sc] = covs.get(sc, 0) | a
    st["edges"] = {sc: bin(a).count("1") // 1 for sc, a in covs.items()}
    shutil.rmtree(tmpd, ignore_errors=True)
    return st


def cmd_check(prop):
    if prop not in PROPS:
        print("unknown property", prop)
        sys.exit(2)
    P = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t_start = time.time()
    build_s = build()
    budget = P.get("quick_s", 40) if tier == "quick" else P.get("thorough_s", 600)
    if "VERIF_BUDGET" in os.environ:
        budget = float(os.environ["VERIF_BUDGET"])
    tmo = P.get("timeout_ms", 20000)

    def stop_on(sc, kind, msg):
        return match_known(prop, sc, kind, msg) is None
    st = explore(P["scenarios"], budget, seed, P.get("max_runs", 10**9), tmo, stop_on)
    known = {}
    fresh = []
    for v in st["violations"]:
        k = match_known(prop, v[0], v[2], v[3])
        if k:
            known.setdefault(k["id"], [0, k])[0] += 1
        else:
            fresh.append(v)
    # every listed finding is announced, reached this time or not
    for k in known_findings():
        if k.get("status") == "known" and k["property"] == prop:
            n = known.get(k["id"], [0])[0]
            print(f"KNOWN-FINDING: property={prop} {k['what']} (met in {n} of {st['runs']} runs)")
    confirmed = None
    unconfirmed = []
    for v in sorted(fresh, key=lambda v: v[1])[:4]:
        got = report_violation(prop, v[0], v[1], tmo * 3, P.get("min_s", 60) if tier == "quick" else 300)
        if got:
            # the minimised execution may turn out to be a listed finding
            if match_known(prop, v[0], got[2], got[3]) and not match_known(prop, v[0], v[2], v[3]):
                got = (got[0], got[1], v[2], v[3], got[4])
            confirmed = (v, got)
            break
        unconfirmed.append(v[:3])
    wall = time.time() - t_start
    runs = st["runs"]
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": st["nontrivial"],
        "rule": "One evaluation is one simulated run: a fresh process started from one seed, which draws workload, configuration, schedule and faults. "
                "Two runs are distinct if the hash over their whole schedule (every context switch with the instant it happened) and fault sequence differs; "
                "a run is non-trivial if at least one preemption, one injected fault or one rare-state probe fired. " + P.get("rule", ""),
        "samples": st["samples"] or [{"note": "no sample"}],
        "runs_per_hour_one_seed_each": int(runs / max(st["wall"], 0.001) * 3600),
        "seed_range": [seed * 1_000_003, seed * 1_000_003 + runs - 1],
        "simulated_seconds": round(st["vtime"] / 1e9, 3),
        "simulated_steps": st["ticks"],
        "context_switches": st["switches"],
        "preemptions": st["preempts"],
        "threads_started": st["threads"],
        "simulated_processes": st["procs"],
        "distinct_schedules": len(st["hashes"]),
        "distinct_measure": "64-bit hash of (thread, step) at every context switch plus every injected fault",
        "code_edges_reached": st["edges"],
        "faults_injected": {k: {"fired": a[0], "opportunities": a[1], "runs_with": a[2]} for k, a in sorted(st["faults"].items())},
        "probes": {k: {"hits": a[0], "runs_with": a[1]} for k, a in sorted(st["probes"].items())},
        "fault_kinds_never_fired": sorted(k for k, a in st["faults"].items() if a[0] == 0),
        "per_scenario": st["per"],
        "inconclusive_runs": st["inconclusive"],
        "skipped_runs": st["skip"],
        "harness_errors": st["harness"],
        "determinism_reruns": st["det"],
        "determinism_mismatches": len(st["det_bad"]),
        "real_components": P.get("real", []) + COMMON_REAL,
        "stub_components": P.get("stub", []) + COMMON_STUB,
        "build_s": round(build_s, 1),
        "known_findings_met": {k: v[0] for k, v in known.items()},
        "unconfirmed": unconfirmed,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": P["level"], "coverage": cov, "wall_s": round(wall, 1),
          "violations": [], "assumptions": P.get("assumptions", [])}
    if confirmed:
        v, got = confirmed
        ev["violations"] = [f"{v[0]} seed {v[1]} {got[2]}: {got[3][:2000]}"]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {runs} runs, {len(st['hashes'])} distinct schedules, {round(st['vtime']/1e9,2)} simulated s, "
          f"{st['inconclusive']} inconclusive, {st['det']} determinism re-runs ({len(st['det_bad'])} mismatches), {wall:.0f}s")
    if st["inc"][:3]:
        for x in st["inc"][:3]:
            print("  note:", x)
    if confirmed:
        v, got = confirmed
        print(f"  {got[2]}: {got[3][:1500]}")
        print(f"  minimised to {got[4]} schedule/fault/operation entries; replay: ./check.py replay {got[0]}")
        print(f"VIOLATION property={prop} replay={got[0]}")
        sys.exit(1)
    if runs == 0 or st["ok"] == 0:
        print("ERROR: no conclusive run")
        sys.exit(2)
    sys.exit(0)


def cmd_replay(path):
    build()
    h = dict(re.findall(r"^# (property|scenario|seed|kind) (.*)$", open(path).read(), re.M))
    seed_only = "# mode seed" in open(path).read()
    outs = []
    for _ in range(2):
        s = Server(h["scenario"])
        outs.append(s.run(int(h["seed"]), "-" if seed_only else os.path.abspath(path), "-", 120000))
        s.close()
    v = verdict(outs[0])
    print(json.dumps(outs[0], indent=1)[:6000])
    same = fingerprint(outs[0]) == fingerprint(outs[1])
    print("two fresh processes agree exactly:", same)
    if v[0] == "violation":
        print(f"VIOLATION property={h['property']} replay={path}")
        sys.exit(1)
    sys.exit(0)


def cmd_explore(sc, n, base):
    st = explore([(sc, 1)], 10**6, base, n, 60000, stop_on=lambda *a: False)
    kinds = collections.Counter((v[0], v[2]) for v in st["violations"])
    print(json.dumps({k: v for k, v in st.items() if k not in ("hashes", "violations", "samples", "inc")}, indent=1, default=str))
    print("distinct", len(st["hashes"]), kinds)
    seen = collections.Counter()
    for v in st["violations"]:
        if seen[v[2]] < int(os.environ.get("SHOW", "3")):
            seen[v[2]] += 1
            print("==", v[1], v[2], v[3][:int(os.environ.get("LEN", "1500"))])
    for x in st["inc"][:5]:
        print("inc", x)


if __name__ == "__main__":
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        sys.exit(2)
    if a[0] == "replay":
        cmd_replay(a[1])
    elif a[0] == "explore":
        cmd_explore(a[1], int(a[2]), int(a[3]) if len(a) > 3 else 1)
    elif a[0] == "one":
        s = Server(a[1])
        tr = a[3] if len(a) > 3 else "-"
        r = s.run(int(a[2]), "-", tr)
        s.close()
        m = (r.get("result") or {}).pop("msg", "")
        print(json.dumps(r, indent=1))
        print(m)
    else:
        cmd_check(a[0])
