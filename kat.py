"""C11: the known-answer generators over a simulated disk with failing files, provider and crypto layer.

One run is a history of 1..3 generator processes on one disk: faulty executions (fault plan below), possibly killed by their
faults, then a fault-free execution on whatever they left behind.  Every process is the real program of the tree; all its
file system calls are answered by sim/kat/sim.cpp.
"""
import ctypes, hashlib, json, mmap, multiprocessing as mp, os, random, re, shutil, signal, subprocess, sys, tempfile, time

import build, checks

VERIF = build.VERIF
CLASSES = ["open", "write", "read", "close", "seek", "sync", "stat", "name", "keypair", "sign", "verify", "evp", "alloc"]
KINDS = ["err", "torn", "short", "eof", "lose", "ret", "len", "msg"]
ERRNO = {"ENOSPC": 28, "EIO": 5, "EDQUOT": 122, "EINTR": 4, "EACCES": 13, "EMFILE": 24, "ENFILE": 23, "ENOENT": 2, "EROFS": 30, "EFBIG": 27,
         "EPERM": 1, "ENOMEM": 12, "ESTALE": 116, "EISDIR": 21}
NFILES, FMAX, NF, NE = 8, 24 << 20, 64, 4096


class Fault(ctypes.Structure):
    _fields_ = [("cls", ctypes.c_uint32), ("nth", ctypes.c_uint32), ("burst", ctypes.c_uint32), ("kind", ctypes.c_uint32), ("a", ctypes.c_int64), ("b", ctypes.c_int64)]


class File(ctypes.Structure):
    _fields_ = [("name", ctypes.c_char * 64), ("used", ctypes.c_uint32), ("live", ctypes.c_uint32), ("size", ctypes.c_uint64), ("lost", ctypes.c_uint64)]


class Event(ctypes.Structure):
    _fields_ = [("cls", ctypes.c_uint32), ("kind", ctypes.c_uint32), ("obj", ctypes.c_int64), ("arg", ctypes.c_int64), ("res", ctypes.c_int64)]


class Shared(ctypes.Structure):
    _fields_ = [("capacity", ctypes.c_uint64), ("nfaults", ctypes.c_uint32), ("armed", ctypes.c_uint32), ("started", ctypes.c_uint32), ("exited", ctypes.c_uint32),
                ("hash", ctypes.c_uint64), ("steps", ctypes.c_uint64), ("nevents", ctypes.c_uint64), ("overflow", ctypes.c_uint64), ("full", ctypes.c_uint64),
                ("fired", ctypes.c_uint64 * 8 * 13), ("calls", ctypes.c_uint64 * 13),
                ("fault", Fault * NF), ("file", File * NFILES), ("event", Event * NE)]


class Disk:
    def __init__(self, scratch):
        self.path = os.path.join(scratch, "disk")
        with open(self.path, "wb") as f:
            f.truncate((1 << 20) + NFILES * FMAX)
        self.f = open(self.path, "r+b")
        self.m = mmap.mmap(self.f.fileno(), (1 << 20) + NFILES * FMAX)
        self.s = Shared.from_buffer(self.m)

    def wipe(self):
        ctypes.memset(ctypes.addressof(self.s), 0, ctypes.sizeof(Shared))

    def files(self):
        r = {}
        for i in range(NFILES):
            f = self.s.file[i]
            if f.used and f.live:
                o = (1 << 20) + i * FMAX
                r[f.name.decode()] = bytes(self.m[o:o + f.size])
        return r

    def put(self, name, data):
        for i in range(NFILES):
            f = self.s.file[i]
            if not f.used:
                f.name, f.used, f.live, f.size, f.lost = name.encode(), 1, 1, len(data), 0
                o = (1 << 20) + i * FMAX
                self.m[o:o + len(data)] = data
                return


NOCAP = 1 << 40


class World:
    def __init__(self, progs, scratch):
        self.progs, self.scratch, self.gold, self.sizes = progs, scratch, {}, {}
        self.disk = Disk(scratch)
        self.cwd = os.path.join(scratch, "cwd")
        os.makedirs(self.cwd, exist_ok=True)

    def start(self, prog, st, plan, capacity, limit):
        """One process.  Returns exit status (negative: signal) or None (did not end)."""
        s = self.disk.s
        s.capacity, s.nfaults, s.started, s.exited, s.overflow = capacity, len(plan), 0, 0, 0
        s.armed = 1
        for i in range(13):
            s.calls[i] = 0
        for i, (cls, nth, burst, kind, a, b) in enumerate(plan):
            s.fault[i] = Fault(CLASSES.index(cls), nth, burst, KINDS.index(kind), a, b)
        p = subprocess.Popen([self.progs[prog, st]], cwd=self.cwd, env={"KATSIM": self.disk.path, "PATH": "/usr/bin:/bin", "LC_ALL": "C"},
                             stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        try:
            rc = p.wait(limit)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            return None
        if not s.started:
            raise SystemExit("the simulated generator did not start (exit %d)" % rc)
        return rc

    def limit(self, st):
        return 30 if st == "stub" else 120

    def golden(self, prog, st):
        """Bytes of a fault-free run, after comparing them with the model's."""
        if (prog, st) in self.gold:
            return self.gold[prog, st]
        self.disk.wipe()
        rc = self.start(prog, st, [], NOCAP, self.limit(st))
        files = self.disk.files()
        self.sizes[prog, st] = {c: int(self.disk.s.calls[i]) for i, c in enumerate(CLASSES)}
        q, r = os.path.join(self.scratch, "m.req"), os.path.join(self.scratch, "m.rsp")
        if subprocess.run([self.progs["model", st], q, r]).returncode:
            raise SystemExit("the model failed")
        want = {}
        for k, p in ((".req", q), (".rsp", r)):
            want[k] = normal(open(p, "rb").read())
            os.unlink(p)
        err = None
        if rc is None:
            err = ("hang", "%s generator (%s) does not end without any fault" % (prog, st))
        elif rc != 0:
            err = ("no-success", "%s generator (%s) ended with status %d without any fault" % (prog, st, rc))
        else:
            for k in want:
                n = [f for f in files if f.endswith(k)]
                if len(n) != 1:
                    err = ("missing-file", "%s generator (%s) left %d %s files" % (prog, st, len(n), k))
                elif normal(files[n[0]]) != want[k]:
                    err = ("wrong-records", "%s generator (%s), %s: %s" % (prog, st, n[0], differ(want[k], normal(files[n[0]]))))
                elif not files[n[0]].endswith(b"\n"):
                    err = ("wrong-records", "%s generator (%s), %s does not end with a complete line" % (prog, st, n[0]))
        self.gold[prog, st] = (files, err)
        return self.gold[prog, st]


def normal(b):
    out = []
    for l in b.split(b"\n"):
        l = re.sub(rb"\s*=\s*", b"=", l.strip())
        if l:
            out.append(l)
    return out


def differ(want, got):
    for i, w in enumerate(want):
        g = got[i] if i < len(got) else b"(end of file)"
        if g != w:
            k = next((j for j in range(min(len(g), len(w))) if g[j] != w[j]), min(len(g), len(w)))
            return "line %d should be %r.., is %r.. (first difference at column %d)" % (i + 1, w[:60].decode(), g[:60].decode(errors="replace"), k)
    return "%d lines too many" % (len(got) - len(want))


# ---------------------------------------------------------------- plans
# lines:  process prog=cpp set=stub armed=1 capacity=N | fault cls=write nth=3 burst=1 kind=err a=28 b=0 | litter name=.. size=..
def gen(seed, index, thorough, real, sizes):
    r = random.Random("%d/%d" % (seed, index))
    lines = []
    own = r.choice(real) if real and r.random() < 0.02 else None
    st = own[1] if own else "stub"
    if r.random() < 0.25:
        lines.append("litter ext=%s size=%d data=%d" % (r.choice([".req", ".rsp", ".both"]), r.choice([1, 100, 5000, 2000000]), r.randrange(1 << 30)))
    prog = own[0] if own else r.choice(["cpp", "c"])
    n = 1 if st != "stub" else r.choice([1, 1, 2, 3])
    for i in range(n):
        if not own and r.random() < 0.2:
            prog = r.choice(["cpp", "c"])
        sz = sizes[prog, st]
        total = sz["bytes"]
        cap = NOCAP
        nf = r.choice([1, 1, 1, 2, 3, 6])
        if r.random() < 0.2:
            k = r.random()
            cap = r.randrange(total + 1) if k < 0.5 else total - r.randrange(1, 40) if k < 0.8 else sz["req"] + r.randrange(-20, 40)
            nf = r.choice([0, 0, 1])
        lines.append("process prog=%s set=%s capacity=%d" % (prog, st, cap))
        k = r.random()
        if k < 0.12 and st == "stub":  # faults aimed at the seams of the format: a tail of a few bytes, the space between two records
            if k < 0.04:
                lines.append("fault cls=close nth=%d burst=1 kind=lose a=5 b=%d" % (r.randrange(3), -r.randrange(1, 40)))
            elif k < 0.08:
                nth = sz["reqwrites"] - 1 if r.random() < 0.6 else max(0, sz["calls"]["write"] - 1)
                lines.append("fault cls=write nth=%d burst=%d kind=torn a=%d b=%d" % (nth, r.choice([1, 1, 0]), r.choice([5, 28, 122]), -r.randrange(1, 40)))
            else:
                lo, hi = r.choice(sz["gaps"])
                at = r.randrange(lo, hi + 1)
                if at % 4096:
                    lines.append("fault cls=read nth=%d burst=1 kind=short a=0 b=%d" % (at // 4096, -(at % 4096)))
                lines.append("fault cls=read nth=%d burst=%d kind=%s a=5 b=0" % ((at + 4095) // 4096, r.choice([1, 0, 0]), r.choice(["err", "eof"])))
            nf = r.choice([0, 0, 0, 1])
        harmless = r.random() < 0.15  # only faults the system later makes good
        for _ in range(nf):
            c = r.choice(["write"] * 8 + ["open"] * 2 + ["read"] * (3 if prog == "c" else 1) + ["close"] * 3 + ["seek", "sync", "stat"] + ["keypair", "sign"] + ["verify"] * 4 + ["evp", "evp", "alloc"] + (["name"] * 6 if sz["calls"]["name"] else []))
            if harmless:
                c = r.choice(["write", "write", "read"])
            top = max(1, sz["calls"][c])
            k = r.random()
            nth = r.randrange(top) if k < 0.7 else max(0, top - 1 - r.randrange(3)) if k < 0.9 else r.randrange(min(3, top))
            burst = r.choice([1, 1, 1, 2, 5, 0])
            kind, a, b = "err", 0, 0
            if harmless:
                kind, b = "short", r.choice([0, 1, 50, 99, r.randrange(100)])
                burst = r.choice([1, 3, 0])
            elif c == "write":
                e = r.choice(["ENOSPC", "ENOSPC", "EIO", "EDQUOT", "EINTR", "EFBIG", "EPERM", "ENOMEM"])
                kind = r.choice(["err", "err", "err", "torn", "short"])
                a, b = ERRNO[e], r.choice([0, 50, 99, r.randrange(100)])
                if kind in ("err", "torn") and e == "EINTR":
                    burst = r.choice([1, 2, 5, 9])
            elif c == "open":
                a = ERRNO[r.choice(["ENOSPC", "EACCES", "EMFILE", "ENFILE", "EROFS", "EDQUOT", "EINTR", "EISDIR", "ENOENT", "EIO"])]
                nth = r.randrange(3)
            elif c == "read":
                kind = r.choice(["err", "err", "eof", "eof", "short"])
                a, b = ERRNO[r.choice(["EIO", "EINTR", "ESTALE"])], r.randrange(100)
                if kind == "err" and a == 4:
                    burst = r.choice([1, 2, 5, 9])
            elif c in ("close", "sync"):
                kind = r.choice(["err", "lose", "lose"]) if c == "close" else "lose"
                a, b = ERRNO[r.choice(["EIO", "ENOSPC", "EDQUOT"])], r.choice([0, 99, 50, r.randrange(100)])
                nth = r.randrange(3)
                if kind == "err":
                    a = ERRNO[r.choice(["EIO", "EINTR", "ENOSPC", "EDQUOT"])]
            elif c in ("seek", "stat", "name"):
                a, nth = ERRNO["EIO"], r.randrange(4)
                if c == "name":
                    a, nth = ERRNO[r.choice(["EIO", "ENOSPC", "EACCES", "EROFS"])], r.randrange(top)
            elif c in ("keypair", "sign"):
                kind, a, b = "ret", r.choice([1, -1, 2, -2, 255, 256, 65536, -256, 1 << 24, -(1 << 31)]), r.randrange(3)
            elif c == "verify":
                kind = r.choice(["ret", "len", "msg"])
                if kind == "ret":
                    a, b = r.choice([1, -1, 2, -2, 255, 256, 65536, -256, 1 << 24, -(1 << 31)]), r.randrange(2)
                elif kind == "len":
                    a = r.choice([1, -1, 33, -33, 72, 256, 1 << 16, 1 << 32, 1 << 31, 1 << 63, -(1 << 32), r.randrange(1, 4000)])
                    if a >= 1 << 63:
                        a -= 1 << 64
                else:
                    a, b = r.choice([1, 128, 255, 1 << r.randrange(8)]), r.choice([0, 100, 50, r.randrange(101)])
            elif c == "evp":
                b = r.randrange(2)
            if kind == "short" and burst == 0:
                b = max(b, 20)
            lines.append("fault cls=%s nth=%d burst=%d kind=%s a=%d b=%d" % (c, nth, burst, kind, a, b))
    if st == "stub" or r.random() < 0.3:
        lines.append("process prog=%s set=%s capacity=%d" % (prog, st, NOCAP))
    return lines


def fields(l):
    return dict(x.split("=", 1) for x in l.split()[1:])


def execute(world, lines):
    """Returns dict(cls, msg, hash, steps, stats, cover)."""
    w, d = world, world.disk
    h = hashlib.sha256()
    stats, cover, fail, steps = {}, set(), None, 0

    def count(k, n=1):
        stats[k] = stats.get(k, 0) + n
    procs, litter = [], []
    for l in lines:
        n, f = l.split()[0], fields(l)
        if n == "process":
            procs.append((f["prog"], f["set"], int(f["capacity"]), []))
        elif n == "fault" and procs:
            procs[-1][3].append((f["cls"], int(f["nth"]), int(f["burst"]), f["kind"], int(f["a"]), int(f["b"])))
        elif n == "litter":
            litter.append(f)
    for prog, st, _, _ in procs:
        _, err = w.golden(prog, st)
        if err and fail is None:
            fail = err
    d.wipe()
    if fail is None and procs:
        names = list(w.golden(procs[0][0], procs[0][1])[0])
        for f in litter:
            for n in names:
                if f["ext"] == ".both" or n.endswith(f["ext"]):
                    d.put(n, random.Random(int(f["data"])).randbytes(int(f["size"])))
                    count("fault:leftover-file")
    for i, (prog, st, cap, plan) in enumerate(procs):
        if fail:
            break
        gold = w.golden(prog, st)[0]
        s = d.s
        s.hash = s.steps = s.nevents = s.full = 0
        for a in range(13):
            for b in range(8):
                s.fired[a][b] = 0
        rc = w.start(prog, st, plan[:NF], cap, w.limit(st))
        files = d.files()
        fired = sorted((CLASSES[a], KINDS[b], int(s.fired[a][b])) for a in range(13) for b in range(8) if s.fired[a][b])
        for c, k, n in fired:
            count("fault:%s-%s" % (c, k), n)
        lines_hash = "%s %s %s %d %d %s" % (prog, st, rc, s.hash, s.steps, sorted((n, hashlib.sha256(b).hexdigest()) for n, b in files.items()))
        full = s.full > 0
        if full:
            count("fault:disk-full")
        h.update(lines_hash.encode())
        steps += int(s.steps)
        count("process-" + prog)
        count("outcome:" + ("success" if rc == 0 else "hang" if rc is None else "failure" if rc > 0 else "killed"))
        good = all(files.get(n) == b for n, b in gold.items())
        cover.add((prog, st == "stub", tuple(sorted(set((c, k) for c, k, _ in fired))), full, rc, good, tuple(min(p[1], 40) // 3 for p in plan)[:2]))
        where = "process %d (%s generator, %s)" % (i, prog, st)
        desc = ", ".join("%s %s" % (c, k) for c, k, _ in fired) + (" full disk" if full else "")
        benign = all(k == "short" for _, k, _ in fired) and not full
        if rc is None:
            fail = ("hang", "%s does not end (%s)" % (where, desc))
        elif rc == 0 and not good:
            n = next(n for n, b in gold.items() if files.get(n) != b)
            got = files.get(n)
            what = "does not exist" if got is None else "has %d of %d bytes" % (len(got), len(gold[n])) if len(got) != len(gold[n]) else "has wrong contents"
            fail = ("false-success", "%s exits with success, but %s %s (%s)" % (where, n, what, desc or "no fault"))
        elif rc == 0 and any(c in ("keypair", "sign", "verify") for c, _, _ in fired):
            fail = ("crypto-ignored", "%s exits with success although a crypto call failed or misbehaved (%s)" % (where, desc))
        elif rc != 0 and benign:
            fail = ("no-success", "%s ends with status %d although every write was completed (%s)" % (where, rc, desc or "no fault"))
        if s.overflow:
            raise SystemExit("simulated disk too small")
    return dict(cls=fail[0] if fail else "", msg=fail[1] if fail else "", hash=h.hexdigest()[:16], steps=steps, stats=stats, cover=cover)


def sizes_of(world, pairs):
    r = {}
    for prog, st in pairs:
        files, err = world.golden(prog, st)
        if err:
            return None, prog, st, err
        req = b"".join(b for n, b in files.items() if n.endswith(".req"))
        gaps = [(m.start(), m.end()) for m in re.finditer(rb"\npk[^#]*?count = (?=\d)", req)] or [(0, len(req))]
        r[prog, st] = dict(gaps=gaps, reqwrites=max(1, (len(req) + 4095) // 4096), calls=world.sizes[prog, st], bytes=sum(map(len, files.values())), req=sum(len(b) for n, b in files.items() if n.endswith(".req")))
    return r, None, None, None


def worker(k, n, seed, secs, thorough, progs, sets, scratch, q):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        sc = os.path.join(scratch, "w%d" % k)
        os.makedirs(sc)
        w = World(progs, sc)
        t0, i = time.time(), k
        own = [(p, st) for j, (p, st) in enumerate((p, st) for st in sets if st != "stub" for p in ("cpp", "c")) if j % n == k]
        sizes, prog, st, err = sizes_of(w, [("cpp", "stub"), ("c", "stub")] + own)
        out = dict(runs=0, steps=0, stats={}, cover=set(), hashes=set(), samples=[], rechecked=0, viol=None, nondet=None)
        if err:
            out["viol"] = (-1, ["process prog=%s set=%s capacity=%d" % (prog, st, NOCAP)], err[0], err[1], "")
            q.put(out)
            return
        while time.time() - t0 < secs:
            lines = gen(seed, i, thorough, own, sizes)
            res = execute(w, lines)
            out["runs"] += 1
            out["steps"] += res["steps"]
            for a, b in res["stats"].items():
                out["stats"][a] = out["stats"].get(a, 0) + b
            out["cover"] |= res["cover"]
            out["hashes"].add(res["hash"])
            if len(out["samples"]) < 1:
                out["samples"].append("\n".join(lines))
            if res["cls"]:
                out["viol"] = (i, lines, res["cls"], res["msg"], res["hash"])
                break
            if out["runs"] % 16 == 1:
                out["rechecked"] += 1
                if execute(w, lines)["hash"] != res["hash"]:
                    out["nondet"] = (i, lines)
                    break
            i += n
        q.put(out)
    except BaseException as e:
        q.put(dict(error=repr(e)))


QUICK_SETS = ["128f", "em_192f"]


def setup(thorough=False):
    return build.build_kat(build.SETS if thorough else QUICK_SETS)


def main(pid, seed, thorough):
    import run
    c = checks.CHECKS[pid]
    t0 = time.time()
    try:
        progs = setup(thorough)
    except build.BuildError as e:
        print("the generators cannot be built for simulation: %s" % e)
        return 2
    tb = time.time() - t0
    secs = c.get("thorough_secs", 900) if thorough else c["secs"]
    secs = float(os.environ.get("SIM_SECS", secs))
    sets = ["stub"] + (build.SETS if thorough else QUICK_SETS)
    scratch = tempfile.mkdtemp(prefix="katsim.")
    rc, path = 0, None
    try:
        q = mp.Queue()
        ps = [mp.Process(target=worker, args=(k, 8, seed, secs, thorough, progs, sets, scratch, q)) for k in range(8)]
        for p in ps:
            p.start()
        outs = [q.get(timeout=secs + 600) for _ in ps]
        for p in ps:
            p.join()
        bad = [o for o in outs if "error" in o]
        if bad:
            print("HARNESS: worker failed: %s" % bad[0]["error"])
            return 2
        viol = sorted((o["viol"] for o in outs if o["viol"]), key=lambda v: v[0])
        nondet = [o["nondet"] for o in outs if o["nondet"]]
        if viol:
            path = report(pid, seed, viol[0], progs, os.path.join(scratch, "r"), run, 60)
            rc = 1 if path else 2
        elif nondet:
            print("HARNESS: the same plan gave two different executions: %s" % (nondet[0],))
            rc = 2
        stats = {}
        for o in outs:
            for a, b in o["stats"].items():
                stats[a] = stats.get(a, 0) + b
        runs = sum(o["runs"] for o in outs)
        cov = {
            "evaluations": runs, "distinct_nontrivial": len(set().union(*(o["hashes"] for o in outs))), "rule": c["rule"],
            "samples": sum((o["samples"] for o in outs), [])[:3],
            "runs_per_hour": int(runs / max(secs, 1) * 3600), "seeds_per_hour": int(runs / max(secs, 1) * 3600),
            "simulated_seconds": 0, "simulated_seconds_note": "the generators use no clock; simulated progress is counted in system and crypto calls",
            "simulated_steps": sum(o["steps"] for o in outs),
            "faults_injected": {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")},
            "operations": {k: v for k, v in sorted(stats.items()) if not k.startswith("fault:")},
            "distinct_states": len(set().union(*(o["cover"] for o in outs))), "distinct_states_measure": c["measure"],
            "same_seed_rechecked_in_fresh_process": sum(o["rechecked"] for o in outs),
            "real_components": c["real"], "stubbed_components": c["stub"], "parameter_sets": sets, "workers": 8,
        }
        ev = {"property": pid, "tier": "thorough" if thorough else "quick", "seed": seed, "level": c["level"], "coverage": cov, "assumptions": c["assumptions"],
              "wall_s": round(time.time() - t0, 1), "violations": 1 if rc == 1 else 0}
        os.makedirs(run.EVID, exist_ok=True)
        with open(os.path.join(run.EVID, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for key, what in run.known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    build.prune()
    print("%s: %d simulated histories in %.0f s (build %.0f s), exit %d" % (pid, runs, time.time() - t0, tb, rc))
    if rc == 1:
        print("VIOLATION property=%s replay=%s" % (pid, path))
    return rc


def report(pid, seed, v, progs, scratch, run, budget):
    os.makedirs(run.REPLAYS, exist_ok=True)
    os.makedirs(scratch)
    idx, lines, cls, msg, _ = v
    w = World(progs, scratch)
    a, b = execute(w, lines), execute(w, lines)
    if a["cls"] != cls or b["cls"] != cls:
        print("HARNESS: violation did not repeat: %s %s" % (cls, msg))
        return None
    small = run.minimise(lambda ls: execute(w, ls)["cls"] == cls, lines, budget if cls != "hang" else 4 * budget)
    f = execute(w, small)
    if f["cls"] != cls:
        small, f = lines, a
    path = os.path.join(run.REPLAYS, "%s-%s-%d.replay" % (pid, cls, max(idx, 0)))
    run.write_plan(path, small, ["property=%s" % pid, "seed=%d index=%d" % (seed, idx), "class=%s" % f["cls"], "hash=%s" % f["hash"], "message=%s" % f["msg"],
                                 "operations=%d of %d before minimisation" % (len(small), len(lines))])
    print("violation class: %s" % f["cls"])
    print("violation: %s" % f["msg"])
    for l in small:
        print("  " + l[:300])
    return path


def replay(path):
    lines = [l.strip() for l in open(path) if l.strip() and not l.startswith("#")]
    sets = sorted(set(fields(l)["set"] for l in lines if l.startswith("process")) - {"stub"})
    scratch = tempfile.mkdtemp(prefix="katsim.")
    try:
        r = execute(World(build.build_kat(sets), scratch), lines)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print(json.dumps({k: r[k] for k in ("cls", "msg", "hash", "steps")}))
    return 1 if r["cls"] else 0
