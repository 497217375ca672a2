#!/usr/bin/env python3
"""Runs one check:  run.py C01            (VERIF_SEED, VERIF_TIER from the environment)
Replays a failure:  run.py --replay FILE
Builds everything:  run.py --setup
"""
import json, os, re, subprocess, sys, threading, time, queue

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "sim"))
sys.path.insert(0, VERIF)
import build
import checks

REPLAYS = os.path.join(VERIF, "replays")
EVID = os.path.join(VERIF, "evidence")
WORKERS = 8


def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "exitcode=77:detect_leaks=0:abort_on_error=0:handle_abort=0:handle_segv=0:handle_sigbus=0:handle_sigill=0:handle_sigfpe=0:allocator_may_return_null=1:detect_stack_use_after_return=1:detect_odr_violation=0:allow_user_segv_handler=1"
    e["UBSAN_OPTIONS"] = "exitcode=77:print_stacktrace=0:halt_on_error=1"
    return e


class Sim:
    """Command lines of the simulator for one check."""

    def __init__(self, pid, thorough=False, seed=1):
        self.pid, self.c, self.thorough, self.seed = pid, checks.CHECKS[pid], thorough, seed
        want = list(self.c.get("vars", []))
        asan = list(self.c.get("asan", []))
        if not build.has_avx2():
            want = [v for v in want if v != "avx2"]
        libs = build.build_variants(list(dict.fromkeys(want + asan + ["ref"])))
        self.ref = libs["ref"]
        self.groups = {}
        if want or not asan:
            self.groups["sim"] = (build.build_sim(False), [(v, libs[v]) for v in want])
        if asan:
            self.groups["asan"] = (build.build_sim(True), [(v, libs[v]) for v in asan])
        self.aux = build.build_aux(self.c["aux"]) if self.c.get("aux") else {}

    def argv(self, group, *more):
        exe, libs = self.groups[group]
        a = [exe, "--prop", self.pid, "--seed", str(self.seed), "--var", "ref=" + self.ref]
        for n, p in libs:
            a += ["--var", "%s=%s" % (n, p)]
        for n, p in self.aux.items():
            a += ["--aux", "%s=%s" % (n, p)]
        if self.thorough:
            a.append("--thorough")
        return a + [str(x) for x in more]

    def call(self, group, *more, timeout=400):
        try:
            r = subprocess.run(self.argv(group, *more), env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise SystemExit("simulator did not finish: " + " ".join(map(str, more)))
        return r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")

    def replay(self, group, path):
        rc, out, err = self.call(group, "--replay", path)
        if rc not in (0, 1):
            raise SystemExit("replay failed: rc %d\n%s%s" % (rc, out, err))
        return json.loads(out.strip().splitlines()[-1])

    def plan(self, group, idx):
        rc, out, err = self.call(group, "--gen", idx)
        if rc:
            raise SystemExit("cannot regenerate run %d: %s" % (idx, err))
        return [l for l in out.splitlines() if l.strip()]

    def explore(self, secs, say):
        """Runs the workers; returns (violations, nondets, done records, samples, hashes)."""
        names = []
        gs = list(self.groups)
        for i in range(WORKERS):
            names.append(gs[i % len(gs)])
        per = {g: names.count(g) for g in gs}
        seen = {g: 0 for g in gs}
        q = queue.Queue()
        procs = []

        def pump(i, p, g):
            for l in p.stdout:
                q.put((i, g, l.decode(errors="replace")))
            q.put((i, g, None))

        for i, g in enumerate(names):
            errf = open(os.path.join(build.BUILD, "stderr.%s.%d" % (self.pid, i)), "wb")
            p = subprocess.Popen(self.argv(g, "--first", seen[g], "--stride", per[g], "--secs", secs, "--recheck", 16),
                                 env=env(), stdout=subprocess.PIPE, stderr=errf)
            errf.close()
            seen[g] += 1
            procs.append(p)
            threading.Thread(target=pump, args=(i, p, g), daemon=True).start()
        viol, nondet, done, samples, hashes = [], [], [], [], []
        live = len(procs)
        deadline = time.time() + secs + 300
        stopping = False
        while live:
            try:
                i, g, l = q.get(timeout=max(0.1, deadline - time.time()))
            except queue.Empty:
                for p in procs:
                    p.kill()
                raise SystemExit("workers did not finish in time")
            if l is None:
                live -= 1
                continue
            try:
                m = json.loads(l)
            except ValueError:
                continue
            m["group"] = g
            if "violation" in m:
                viol.append(m)
                if not stopping:  # one failure is enough; give the others a moment
                    stopping = True
                    for p in procs:
                        threading.Timer(3, p.terminate).start()
            elif "nondet" in m:
                nondet.append(m)
            elif "done" in m:
                done.append(m)
            elif "sample" in m:
                samples.append(m)
            elif "hashof" in m:
                hashes.append(m)
        for i, p in enumerate(procs):
            rc = p.wait()
            f = os.path.join(build.BUILD, "stderr.%s.%d" % (self.pid, i))
            err = open(f, errors="replace").read()[-3000:]
            os.unlink(f)
            if rc not in (0,) and not stopping and not (rc == 2 and nondet):
                raise SystemExit("worker %d ended with %d: %s" % (i, rc, err))
        return viol, nondet, done, samples, hashes


def write_plan(path, lines, head=()):
    with open(path, "w") as f:
        f.write("".join("# %s\n" % h for h in head) + "\n".join(lines) + "\n")


SHRINK = ["mlen", "dup", "delay", "bad", "at", "n", "reps", "rho_len", "off", "edit", "threads", "preempt", "extra"]


def minimise(test, lines, budget):
    """ddmin over the operations of a plan, then over numeric fields.  test(lines) -> still the same violation?"""
    end = time.time() + budget
    n = 2
    while len(lines) >= 2 and time.time() < end:
        size = max(1, len(lines) // n)
        ok = False
        for i in range(0, len(lines), size):
            cand = lines[:i] + lines[i + size:]
            if cand and time.time() < end and test(cand):
                lines, n, ok = cand, max(2, n - 1), True
                break
        if not ok:
            if size == 1:
                break
            n = min(len(lines), n * 2)
    for i in range(len(lines)):
        for m in list(re.finditer(r" (\w+)=(\d+)", lines[i])):
            if m.group(1) in SHRINK and int(m.group(2)) and time.time() < end:
                for v in (0, 1, int(m.group(2)) // 2):
                    if v >= int(m.group(2)):
                        break
                    c = re.sub(r" %s=\d+" % m.group(1), " %s=%d" % (m.group(1), v), lines[i])
                    if test(lines[:i] + [c] + lines[i + 1:]):
                        lines = lines[:i] + [c] + lines[i + 1:]
                        break
    return lines


def report(sim, v, budget):
    """Confirms, minimises and stores one violation; returns the replay path or None if it does not reproduce."""
    os.makedirs(REPLAYS, exist_ok=True)
    g = v["group"]
    lines = sim.plan(g, v["idx"])
    tmp = os.path.join(REPLAYS, ".tmp.%s.%d" % (sim.pid, os.getpid()))

    def run(ls):
        write_plan(tmp, ls)
        return sim.replay(g, tmp)
    a, b = run(lines), run(lines)
    if a["cls"] != v["cls"] or b["cls"] != v["cls"]:
        os.unlink(tmp)
        return None
    if a["hash"] != b["hash"] or a["hash"] != v["hash"]:
        print("note: the violation repeats, but the traces differ (%s %s %s)" % (v["hash"], a["hash"], b["hash"]))
    small = minimise(lambda ls: run(ls)["cls"] == v["cls"], lines, budget)
    f = run(small)
    if f["cls"] != v["cls"]:
        small, f = lines, a
    os.unlink(tmp)
    path = os.path.join(REPLAYS, "%s-%s-%d.replay" % (sim.pid, v["cls"], v["idx"]))
    write_plan(path, small, ["property=%s" % sim.pid, "group=%s" % g, "seed=%d index=%d%s" % (sim.seed, v["idx"], " thorough" if sim.thorough else ""),
                             "class=%s" % f["cls"], "hash=%s" % f["hash"], "message=%s" % f["msg"],
                             "operations=%d of %d before minimisation" % (len(small), len(lines))])
    print("violation class: %s" % f["cls"])
    print("violation: %s" % f["msg"])
    print("seed %d, run %d; minimised from %d to %d operations:" % (sim.seed, v["idx"], len(lines), len(small)))
    for l in small:
        print("  " + l[:300])
    return path


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\w+) key=(\S+) (.*)", l)
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3)))
    return out


def run_check(pid):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = os.environ.get("VERIF_TIER", "quick") == "thorough"
    c = checks.CHECKS[pid]
    if "python" in c:
        import importlib
        return importlib.import_module(c["python"]).main(pid, seed, thorough)
    try:
        sim = Sim(pid, thorough, seed)
    except build.BuildError as e:
        print("the tree cannot be built for simulation: %s" % e)
        return 2
    tb = time.time() - t0
    secs = c.get("thorough_secs", 900) if thorough else c.get("secs", 40)
    if os.environ.get("SIM_SECS"):
        secs = float(os.environ["SIM_SECS"])
    viol, nondet, done, samples, hashes = sim.explore(secs, print)
    rc = 0
    path = None
    if viol:
        unrepeated = []
        for v in sorted(viol, key=lambda v: (len(v["cls"]) and v["cls"] == "hang", v["idx"])):
            path = report(sim, v, 120 if thorough else 60)
            if path:
                break
            unrepeated.append(v)
        if path:
            rc = 1
        else:
            print("HARNESS: violation did not repeat: %s" % unrepeated[:3])
            rc = 2
    elif nondet:
        print("HARNESS: the same seed gave two different executions: %s" % nondet[:3])
        rc = 2
    fresh = 0
    if rc == 0:
        # the same seeds once more, each in a process of its own
        pool = [s for s in samples + hashes if not s.get("plan", "").startswith("huge")]
        step = max(1, len(pool) // (24 if thorough else 6))
        jobs = pool[::step][:24 if thorough else 6]

        def one(s):
            idx = s.get("sample", s.get("hashof"))
            _, out, err = sim.call(s["group"], "--first", idx, "--runs", 1, "--recheck", 0, "--secs", 1000)
            h = [json.loads(l) for l in out.splitlines() if l.startswith("{")]
            return s, [x for x in h if "sample" in x], err
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(WORKERS) as ex:
            for s, r, err in ex.map(one, jobs):
                fresh += 1
                if not r or r[0]["hash"] != s["hash"]:
                    print("HARNESS: seed %s differs in a fresh process (%s, %s) %s" % (s, s["hash"], r and r[0]["hash"], err[-500:]))
                    rc = 2
    for key, what in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    evidence(pid, c, sim, seed, thorough, t0, tb, secs, done, samples, fresh, 1 if rc == 1 else 0)
    build.prune()
    runs = sum(d["runs"] for d in done)
    print("%s: %d simulated runs in %.0f s (build %.0f s), exit %d" % (pid, runs, time.time() - t0, tb, rc))
    if rc == 1:
        print("VIOLATION property=%s replay=%s" % (pid, path))
    return rc


def evidence(pid, c, sim, seed, thorough, t0, tb, secs, done, samples, fresh, violations):
    runs = sum(d["runs"] for d in done)
    stats, cover, hashes = {}, set(), set()
    for d in done:
        for k, v in d["stats"].items():
            stats[k] = stats.get(k, 0) + v
        cover.update(d["cover"])
        hashes.update(d["hashes"])
    wall = time.time() - t0
    active = max([d["wall"] for d in done] or [1])
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(hashes),
        "rule": c["rule"],
        "samples": [s["plan"] for s in samples[:3]],
        "runs_per_hour": int(runs / max(active, 0.01) * 3600),
        "seeds_per_hour": int(runs / max(active, 0.01) * 3600),
        "simulated_seconds": sum(d["sim_us"] for d in done) / 1e6,
        "simulated_steps": sum(d["steps"] for d in done),
        "faults_injected": {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")},
        "operations": {k: v for k, v in sorted(stats.items()) if not k.startswith("fault:")},
        "distinct_states": len(cover),
        "distinct_states_measure": c["measure"],
        "same_seed_rechecked_in_process": sum(d["rechecked"] for d in done),
        "same_seed_rechecked_in_fresh_process": fresh,
        "real_components": c["real"],
        "stubbed_components": c["stub"],
        "builds_simulated": [n for g in sim.groups.values() for n, _ in g[1]] + list(sim.aux),
        "workers": WORKERS,
    }
    ev = {"property": pid, "tier": "thorough" if thorough else "quick", "seed": seed, "level": c.get("level", "exploration"), "coverage": cov,
          "assumptions": c["assumptions"], "wall_s": round(wall, 1), "violations": violations}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json.tmp"), "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(os.path.join(EVID, pid + ".json.tmp"), os.path.join(EVID, pid + ".json"))


def replay(path):
    head = dict(re.findall(r"^# (\w+)=(.*)$", open(path).read(), re.M))
    pid = head["property"]
    c = checks.CHECKS[pid]
    if "python" in c:
        import importlib
        return importlib.import_module(c["python"]).replay(path)
    sim = Sim(pid, "thorough" in head.get("seed", ""), int(head.get("seed", "1").split()[0]))
    rc, out, err = sim.call(head.get("group", "sim"), "--replay", path, "-v")
    sys.stderr.write(err)
    r = json.loads(out.strip().splitlines()[-1])
    print(json.dumps(r, indent=1))
    if r["cls"]:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("identical to the recorded execution" if r["hash"] == head.get("hash") else "the trace differs from the recorded one")
        return 1
    print("no violation")
    return 0


def setup():
    t = time.time()
    names = set(["ref"])
    aux = set()
    for c in checks.CHECKS.values():
        names.update(c.get("vars", []))
        names.update(c.get("asan", []))
        if c.get("aux"):
            aux.add(c["aux"])
    if not build.has_avx2():
        names.discard("avx2")
    build.build_variants(sorted(names))
    build.build_sim(False)
    build.build_sim(True)
    for a in aux:
        build.build_aux(a)
    if "C11" in checks.CHECKS:
        import kat
        kat.setup()
    print("built in %.0f s" % (time.time() - t))
    return 0


if __name__ == "__main__":
    try:
        if sys.argv[1:] == ["--setup"]:
            sys.exit(setup())
        if sys.argv[1] == "--replay":
            sys.exit(replay(sys.argv[2]))
        sys.exit(run_check(sys.argv[1]))
    except SystemExit as e:
        if isinstance(e.code, str):
            print("HARNESS: " + e.code)
            sys.exit(2)
        raise
