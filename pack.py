"""C15: the submission packager over faulted file operations and sub-processes.

One run is a history of packager executions on one target directory (scratch): faulty or crashing ones, the project possibly
edited in between, then a fault-free one on what is left.  The script of the tree runs unmodified in this process; the
operating-system calls below shutil, pathlib and subprocess are seams.  make is either a model or the real GNU make on the
tree's Makefile with stand-in tools.
"""
import builtins, errno, gc, hashlib, io, json, multiprocessing as mp, os, random, re, runpy, shutil, signal, subprocess, sys, tempfile, time

import build, checks, kat

VERIF = build.VERIF
TOOL = os.path.join(build.SIM, "pack", "faketool.c")
EPOCH = 1600000000
REAL = dict(open=io.open, os_open=os.open, mkdir=os.mkdir, sendfile=os.sendfile, chmod=os.chmod, utime=os.utime, scandir=os.scandir, listdir=os.listdir,
            Popen=subprocess.Popen, system=os.system, write=os.write, cfr=os.copy_file_range, rename=os.rename, replace=os.replace, link=os.link, symlink=os.symlink)
ERR = {"ENOSPC": errno.ENOSPC, "EIO": errno.EIO, "EACCES": errno.EACCES, "EDQUOT": errno.EDQUOT, "EMFILE": errno.EMFILE, "EROFS": errno.EROFS,
       "EPERM": errno.EPERM, "ENOMEM": errno.ENOMEM, "EAGAIN": errno.EAGAIN, "ENOENT": errno.ENOENT,
       "EEXIST": errno.EEXIST, "ENOTDIR": errno.ENOTDIR, "EISDIR": errno.EISDIR, "ELOOP": errno.ELOOP}


class SimCrash(BaseException):
    pass


def fnv(h, b):
    for x in hashlib.sha256(b).digest():
        h = ((h ^ x) * 0x100000001B3) & (1 << 64) - 1
    return h


class World:
    """The simulated machine: clock, directory order, faults."""

    def __init__(self, root):
        self.root, self.now, self.armed = root, EPOCH + 5000, False
        self.trace, self.fired, self.calls, self.procs = hashlib.sha256(), {}, {}, []
        self.faults, self.dead, self.order, self.steps, self.fds = [], False, random.Random(0), 0, {}
        self.mode, self.tools = "model", None

    def inside(self, p):
        try:
            p = os.fspath(p)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return self.armed and os.path.abspath(p).startswith(self.root + "/")

    def rel(self, p):
        return os.path.relpath(os.path.abspath(os.fspath(p)), self.root)

    def note(self, *a):
        self.trace.update(repr(a).encode())
        self.steps += 1

    def step(self, cls, what):
        """Returns the fault that hits this operation, if any."""
        if self.dead:
            raise SimCrash()
        n = self.calls[cls] = self.calls.get(cls, 0) + 1
        self.now += 1
        for f in self.faults:
            if f["cls"] == cls and (n - 1 >= f["nth"] and (f["burst"] == 0 or n - 1 < f["nth"] + f["burst"])):
                k = cls + "-" + f["kind"]
                self.fired[k] = self.fired.get(k, 0) + 1
                self.note("fault", cls, n, f["kind"], what)
                if f["kind"] == "crash":
                    self.dead = True
                    raise SimCrash()
                return f
        self.note(cls, what)
        return None

    def fail(self, f, p):
        raise OSError(f["errno"], os.strerror(f["errno"]), str(p))


W = None


class SimFile(io.FileIO):
    def __init__(self, path, mode, opener=None):
        self.sim_path, self.sim_w, self.sim_done = os.path.abspath(os.fspath(path)), any(c in mode for c in "wax+"), False
        super().__init__(path, mode.replace("b", "").replace("t", ""), opener=opener)
        if self.sim_w:
            W.fds[self.fileno()] = self.sim_path

    def write(self, b):
        if not W.armed:
            return super().write(b)
        f = W.step("write", W.rel(self.sim_path))
        if f:
            b = bytes(b)
            if f["kind"] == "short":
                return super().write(b[:max(1, len(b) * f["b"] // 100)])
            if f["kind"] == "torn":
                super().write(b[:len(b) * f["b"] // 100])
            W.fail(f, self.sim_path)
        return super().write(b)

    def readinto(self, b):
        f = W.step("read", W.rel(self.sim_path))
        if f:
            if f["kind"] == "short" and len(b) > 1:
                return super().readinto(memoryview(b)[:max(1, len(b) * f["b"] // 100)])
            W.fail(f, self.sim_path)
        return super().readinto(b)

    def readall(self):
        f = W.step("read", W.rel(self.sim_path))
        if f and f["kind"] != "short":
            W.fail(f, self.sim_path)
        return super().readall()

    def close(self):
        if not self.sim_done and not self.closed and W.armed:
            self.sim_done = True
            if self.sim_w:
                W.fds.pop(self.fileno(), None)
                if not W.dead:
                    REAL["utime"](self.fileno(), (W.now, W.now))
                try:
                    f = W.step("close", W.rel(self.sim_path))
                except SimCrash:
                    super().close()
                    raise
                if f:
                    if f["kind"] == "lose":
                        os.ftruncate(self.fileno(), os.fstat(self.fileno()).st_size * f["b"] // 100)
                    super().close()
                    W.fail(f, self.sim_path)
        super().close()


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if isinstance(file, int) or not W or not W.inside(file):
        return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    w = any(c in mode for c in "wax+")
    f = W.step("create" if w else "open", W.rel(file))
    if f:
        W.fail(f, file)
    raw = SimFile(file, mode, opener)
    if "b" in mode and buffering == 0:
        return raw
    b = io.BufferedRandom(raw) if "+" in mode else io.BufferedWriter(raw) if w else io.BufferedReader(raw)
    return b if "b" in mode else io.TextIOWrapper(b, encoding, errors, newline)


def sim_mkdir(path, mode=0o777, *, dir_fd=None):
    if W.inside(path) and not os.path.isdir(path):
        f = W.step("mkdir", W.rel(path))
        if f:
            W.fail(f, path)
    return REAL["mkdir"](path, mode)


def sim_sendfile(out, inp, offset, count, *a, **k):
    if out in W.fds:
        f = W.step("sendfile", W.rel(W.fds[out]))
        if f and not (f["errno"] == errno.ENOTSOCK and offset):  # a kernel says so at once or never
            if f["kind"] == "short":
                return REAL["sendfile"](out, inp, offset, max(1, min(count, 300000) * f["b"] // 100))
            if f["kind"] == "torn":
                REAL["sendfile"](out, inp, offset, max(1, min(count, 300000) * f["b"] // 100))
            W.fail(f, W.fds[out])
    return REAL["sendfile"](out, inp, offset, count, *a, **k)


def sim_cfr(src, dst, count, *a, **k):
    if dst in W.fds:
        f = W.step("sendfile", W.rel(W.fds[dst]))
        if f:
            if f["kind"] == "short":
                return REAL["cfr"](src, dst, max(1, min(count, 300000) * f["b"] // 100), *a, **k)
            W.fail(f, W.fds[dst])
    return REAL["cfr"](src, dst, count, *a, **k)


def simple(cls, name):
    def call(path, *a, **k):
        if not isinstance(path, int) and W.inside(path):
            f = W.step(cls, W.rel(path))
            if f:
                W.fail(f, path)
        return REAL[name](path, *a, **k)
    return call


class Entries:
    def __init__(self, l):
        self.l = iter(l)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.l)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def sim_scandir(path="."):
    if isinstance(path, int) or not W.inside(path):
        return REAL["scandir"](path)
    f = W.step("list", W.rel(path))
    if f:
        W.fail(f, path)
    with REAL["scandir"](path) as it:
        l = sorted(it, key=lambda e: e.name)
    W.order.shuffle(l)
    return Entries(l)


def sim_listdir(path="."):
    if isinstance(path, int) or not W.inside(path):
        return REAL["listdir"](path)
    f = W.step("list", W.rel(path))
    if f:
        W.fail(f, path)
    l = sorted(REAL["listdir"](path))
    W.order.shuffle(l)
    return l


# ---------------------------------------------------------------- sub-processes
def read(p):
    with REAL["open"](p, "rb") as f:
        return f.read()


def put(p, data, when):
    with REAL["open"](p, "wb") as f:
        f.write(data)
    REAL["utime"](p, (when, when))


def names(d, exts):
    return sorted(os.path.join(d, n) for n in (REAL["listdir"](d) if os.path.isdir(d) else []) if n.endswith(exts))


def model_make(d, fault):
    """What GNU make does on a complete package; 2 on anything missing."""
    if not os.path.exists(os.path.join(d, "Makefile")):
        return 2
    srcs = names(d, ".c") + names(os.path.join(d, "sha3"), ".c") + names(os.path.join(d, "NIST-KATs"), ".c") + names(os.path.join(d, "tests"), ".c")
    hdrs = names(d, ".h") + names(os.path.join(d, "sha3"), (".h", ".inc", ".macros")) + names(os.path.join(d, "NIST-KATs"), ".h")
    miss = [n for n in W.need if not os.path.exists(os.path.join(d, n)) or os.path.getsize(os.path.join(d, n)) == 0]
    h = 7
    for x in hdrs:
        h = fnv(h, x[len(d):].encode() + read(x))
    exe = 11
    for i, s in enumerate(srcs):
        if fault and fault["kind"] != "late" and i >= len(srcs) * fault["b"] // 100:
            return None
        o = s + ".o"
        if not os.path.exists(o) or os.stat(s).st_mtime > os.stat(o).st_mtime:
            put(o, b"OBJ %016x" % fnv(h, read(s)), W.now)
        exe = fnv(exe, read(o))
    if miss:
        return 2
    kats = os.path.join(d, "NIST-KATs", "PQCgenKAT_sign")
    newest = max(os.stat(s + ".o").st_mtime for s in srcs)
    for p in (os.path.join(d, "libfaest.a"), kats, os.path.join(d, "tests", "api_test")):
        if not os.path.exists(p) or os.stat(p).st_mtime < newest:
            put(p, b"EXE %016x\n" % exe, W.now)
            REAL["chmod"](p, 0o755)
    return None if fault else 0


def model_clean(d, fault):
    l = sum((names(os.path.join(d, s), ".o") for s in ("", "sha3", "NIST-KATs", "tests")), []) + [os.path.join(d, x) for x in ("libfaest.a", "NIST-KATs/PQCgenKAT_sign", "tests/api_test")]
    for i, x in enumerate(l):
        if fault and i >= len(l) * fault["b"] // 100:
            return None
        if os.path.exists(x):
            os.unlink(x)
    return None if fault else 0


class SimPopen:
    """A finished process by the time the constructor returns."""

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None, **kw):
        self.args, self.pid, self.stdin = args, 4242, None
        text = kw.get("text") or kw.get("universal_newlines") or kw.get("encoding")
        empty = lambda x: (io.StringIO() if text else io.BytesIO()) if x == subprocess.PIPE else None
        self.stdout, self.stderr, self.text = empty(stdout), empty(stderr), text
        argv = args if isinstance(args, (list, tuple)) else ["/bin/sh", "-c", args] if shell else [args]
        argv = [os.fspath(a) for a in argv]
        if shell or argv[:2] == ["/bin/sh", "-c"]:
            import shlex
            argv = shlex.split(argv[-1] if argv[:2] == ["/bin/sh", "-c"] else " ".join(argv))
            while argv and argv[0] == "cd" and len(argv) > 2 and argv[2] == "&&":
                cwd, argv = os.path.join(cwd or ".", argv[1]), argv[3:]
        if cwd is not None and not os.path.isdir(cwd):
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", str(cwd))
        self.returncode = self.sim(argv, os.path.abspath(os.fspath(cwd) if cwd is not None else os.getcwd()), env)

    def sim(self, argv, cwd, env):
        base = os.path.basename(argv[0])
        if base in ("make", "gmake"):
            for i, a in enumerate(argv):
                if a == "-C" or a == "--directory":
                    cwd = os.path.join(cwd, argv[i + 1])
                elif a.startswith("-C") and len(a) > 2:
                    cwd = os.path.join(cwd, a[2:])
            kind = "clean" if "clean" in argv[1:] else "build"
        elif base == "PQCgenKAT_sign":
            kind = "kat"
        else:
            f = W.step("other", base)
            if f:
                W.fail(f, base)
            return REAL["Popen"](argv, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).wait()
        where = W.rel(cwd)
        f = W.step(kind, where)
        if f and f["kind"] == "spawn":
            W.procs.append((kind, where, "spawn"))
            W.fail(f, argv[0])
        rc = getattr(self, kind)(argv, cwd, f)
        modelled = rc is None or W.mode != "make"
        if rc is None:
            rc = f["rc"]
        W.now += 50
        W.procs.append((kind, where, rc))
        W.note("exit", kind, where, rc)
        if kind != "kat" and modelled and rc > 0 and any(x == "--ignore-errors" or re.fullmatch("-[kinsBqrRw]*i[kinsBqrRw]*", x) for x in argv[1:]):
            return 0  # what make would say
        return rc

    def make(self, argv, cwd, f):
        e = dict(os.environ, PATH=W.tools + ":" + os.environ.get("PATH", "/usr/bin:/bin"), FAKE_TIME=str(W.now), LC_ALL="C")
        for v in ("CC", "CXX", "CFLAGS", "CPPFLAGS", "LDFLAGS", "MAKEFLAGS", "MFLAGS"):
            e.pop(v, None)
        e.pop("FAKE_FAULT", None)
        if f:
            e["FAKE_FAULT"] = f["tool"]
        rc = REAL["Popen"](argv + ["-j1"], cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).wait()  # one order
        if f and rc == 0:
            return 0  # the fault did not matter to make
        return rc

    def build(self, argv, cwd, f):
        if W.mode == "make" and (not f or "tool" in f):
            return self.make(argv, cwd, f)
        return model_make(cwd, f)

    def clean(self, argv, cwd, f):
        if W.mode == "make" and (not f or "tool" in f):
            return self.make(argv, cwd, f)
        return model_clean(cwd, f)

    def kat(self, argv, cwd, f):
        exe = argv[0] if os.path.isabs(argv[0]) else os.path.join(cwd, argv[0])
        if not os.path.exists(exe):
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", argv[0])
        b = read(exe)
        if not re.fullmatch(rb"EXE [0-9a-f]{16}\n", b):
            raise OSError(errno.ENOEXEC, "Exec format error", argv[0])
        part = 1 if not f else f["b"] / 100
        for i, ext in enumerate((".req", ".rsp")):
            t = (b + ext.encode()) * 40
            if f and f["kind"] == "late":
                pass
            elif f and part < (i + 1) / 2:
                t = t[:int(len(t) * max(0, 2 * part - i))]
                if not t:
                    continue
            put(os.path.join(cwd, "PQCsignKAT_" + os.path.basename(cwd) + ext), t, W.now)
        return None if f else 0

    def wait(self, timeout=None):
        return self.returncode

    def poll(self):
        return self.returncode

    def communicate(self, input=None, timeout=None):
        e = "" if self.text else b""
        return (e if self.stdout is not None else None, e if self.stderr is not None else None)

    def kill(self):
        pass
    terminate = kill

    def send_signal(self, s):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def sim_system(cmd):
    rc = SimPopen(cmd, shell=True).returncode
    return (-rc) if rc < 0 else rc << 8


def patch(on):
    if on:
        builtins.open = io.open = sim_open
        os.mkdir, os.sendfile, os.copy_file_range, os.scandir, os.listdir, os.system = sim_mkdir, sim_sendfile, sim_cfr, sim_scandir, sim_listdir, sim_system
        os.chmod, os.utime, os.rename, os.replace, os.link, os.symlink = simple("chmod", "chmod"), simple("utime", "utime"), simple("rename", "rename"), simple("rename", "replace"), simple("link", "link"), simple("link", "symlink")
        subprocess.Popen = SimPopen
    else:
        builtins.open = io.open = REAL["open"]
        for n in ("mkdir", "sendfile", "scandir", "listdir", "system", "chmod", "utime", "rename", "replace", "link", "symlink"):
            setattr(os, n, REAL[n])
        os.copy_file_range = REAL["cfr"]
        subprocess.Popen = REAL["Popen"]


# ---------------------------------------------------------------- project
PARAMS = ["faest_" + s for s in build.SETS]


class Project:
    """A shrunken copy of the tree: the same file names, short contents; Makefile and packager are the real ones."""

    def __init__(self, base):
        self.base, self.root, self.build = base, os.path.join(base, "project"), os.path.join(base, "build")
        R = build.REPO
        pick = [n for n in sorted(os.listdir(R)) if n.endswith((".c", ".h"))]
        for d in ("sha3",) + tuple("sha3/" + x for x in sorted(os.listdir(os.path.join(R, "sha3"))) if os.path.isdir(os.path.join(R, "sha3", x))) + ("tests", "tools"):
            pick += [d + "/" + n for n in sorted(os.listdir(os.path.join(R, d))) if os.path.isfile(os.path.join(R, d, n))]
        self.src = {}
        for n in pick:
            b = read(os.path.join(R, n))
            self.src[n] = b if n in ("tools/Makefile",) or n.endswith(".py") else b"// " + n.encode() + b"\n" + b[:200 + len(n) * 37 % 500]
        big = max((n for n in self.src if n.endswith(".c")), key=len)
        self.src[big] += b"x" * 300000
        self.gen = {}
        for p in PARAMS:
            for e in (".c", ".h"):
                self.gen[p + e] = b"// " + p.encode() + e.encode()
            for n in ("crypto_sign.c", "crypto_sign.h", "api.h"):
                self.gen[p + "/" + n] = b"// " + p.encode() + b" " + n.encode()
        self.gen["parameters.h"] = b"// parameters"
        self.version = None

    def write(self, edits):
        """edits: tuple of (file index, date)"""
        if self.version == edits:
            return
        shutil.rmtree(self.base, ignore_errors=True)
        for d, files in ((self.root, self.src), (self.build, self.gen)):
            for n, b in files.items():
                p = os.path.join(d, n)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                put(p, b, EPOCH)
        for i, when in edits:
            n = self.editable()[i % len(self.editable())]
            d = self.root if n in self.src else self.build
            put(os.path.join(d, n), read(os.path.join(d, n)) + b"\n// edited %d\n" % when, EPOCH + when)
        self.version = edits

    def editable(self):
        return [n for n in sorted(self.src) if n.endswith((".c", ".h", ".inc", ".macros")) and not n.startswith(("tools/b", "sha3/a", "sha3/p", "tests/"))] + sorted(self.gen)

    def required(self, param):
        """package file -> source file"""
        r = {}
        for n in self.src:
            d, f = os.path.split(n)
            if d == "" and f.endswith((".c", ".h")):
                r[f] = os.path.join(self.root, n)
            elif d in ("sha3", "sha3/opt64") and f.endswith((".c", ".h", ".macros", ".inc")):
                r["sha3/" + f] = os.path.join(self.root, n)
        for f in (param + ".c", param + ".h", "parameters.h"):
            r[f] = os.path.join(self.build, f)
        for f in ("crypto_sign.c", "crypto_sign.h", "api.h"):
            r[f] = os.path.join(self.build, param, f)
        r["tests/api_test.c"] = os.path.join(self.root, "tests/api_test.c")
        for f in ("rng.c", "rng.h", "PQCgenKAT_sign.c"):
            r["NIST-KATs/" + f] = os.path.join(self.root, "tools", f)
        r["Makefile"] = os.path.join(self.root, "tools/Makefile")
        return r


def tree(d):
    r = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(b, f)
            r[os.path.relpath(p, d)] = hashlib.sha256(read(p)).hexdigest()
    return r


# ---------------------------------------------------------------- plans
# lines:  package params=a,b mode=model edits=i@t,... order=N | fault cls=.. nth=.. burst=.. kind=.. errno=.. b=.. rc=.. tool=..
def gen(seed, index, thorough):
    r = random.Random("%d/%d" % (seed, index))
    lines = []
    n = r.choice([1, 1, 2, 2, 3])
    mode = "make" if r.random() < 0.12 else "model"
    params = r.sample(PARAMS, r.choice([1, 1, 2, 3] if mode == "model" else [1, 1, 2]))
    if mode == "model" and r.random() < 0.05:
        params = PARAMS[:]
    edits = ""
    for i in range(n):
        if i and r.random() < 0.5:
            edits = ",".join("%d@%d" % (r.randrange(200), r.choice([1, 4000, 10, 100000])) for _ in range(r.choice([1, 1, 3])))
        if i and r.random() < 0.15:
            params = r.sample(PARAMS, r.choice([1, 2]))
        lines.append("package params=%s mode=%s edits=%s order=%d" % (",".join(params), mode, edits, r.randrange(1 << 30)))
        k = len(params)
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            c = r.choice(["build"] * 5 + ["kat"] * 5 + ["clean"] * 4 + ["sendfile"] * 5 + ["create"] * 2 + ["open"] * 2 + ["write"] * 2 + ["read", "close", "close", "mkdir", "mkdir", "chmod", "list", "list", "utime", "rename"])
            per = {"build": 1, "kat": 1, "clean": 1, "mkdir": 7, "list": 12}.get(c, 62)
            nth = r.randrange(max(1, per * k)) if r.random() < 0.8 else max(0, per * k - 1 - r.randrange(3))
            f = dict(cls=c, nth=nth, burst=r.choice([1, 1, 1, 2, 0]), kind="err", errno=ERR[r.choice(["ENOSPC", "EIO", "EACCES", "EDQUOT", "EMFILE", "EROFS", "EPERM"])], b=r.choice([0, 50, 99, 100, r.randrange(101)]), rc=0)
            if c == "mkdir" and r.random() < 0.5:  # what is left in the way by somebody else
                f["errno"] = ERR[r.choice(["EEXIST", "EEXIST", "ENOTDIR", "ELOOP"])]
            elif c in ("create", "open") and r.random() < 0.3:
                f["errno"] = ERR[r.choice(["ENOENT", "EISDIR", "ENOTDIR", "EEXIST"])]
            if c in ("build", "kat", "clean"):
                f["kind"] = r.choice(["exit", "exit", "late", "late", "kill", "spawn"])
                f["rc"] = {"kill": r.choice([-9, -11, -15])}.get(f["kind"], r.choice([1, 2, 127, 254, 255]))
                f["errno"] = ERR[r.choice(["ENOENT", "ENOMEM", "EAGAIN", "EACCES"])]
                if mode == "make" and c != "kat" and f["kind"] != "spawn" and r.random() < 0.8:
                    tool = r.choice(["cc", "cc", "ar"]) if c == "build" else "rm"
                    text = "*" if tool != "cc" else r.choice(["aes.c", "KeccakSponge.c", "vc.c", "-c -I", "PQCgenKAT_sign.c.o", "rng.c.o", "api_test", "-lcrypto", "randomness", "crypto_sign.c.o", "fields.c", "*"])
                    f["tool"] = "%s:%s:%s" % (tool, text, r.choice(["exit", "torn", "late", "kill"]))
                    f["tool"] = f["tool"].replace(" ", "")
            elif c == "sendfile":
                f["kind"] = r.choice(["err", "err", "torn", "short"])
                if r.random() < 0.3 and f["kind"] == "err":
                    f["errno"] = errno.ENOTSOCK
                if f["kind"] == "short" and f["burst"] == 0:
                    f["b"] = max(f["b"], 10)
                if r.random() < 0.3:  # userspace copying instead
                    lines.append(fmt(dict(cls="sendfile", nth=0, burst=0, kind="err", errno=errno.ENOTSOCK, b=0, rc=0)))
            elif c in ("write", "read"):
                f["kind"] = r.choice(["err", "torn", "short"] if c == "write" else ["err", "short"])
                f["b"] = max(10, f["b"])
                lines.append(fmt(dict(cls="sendfile", nth=0, burst=0, kind="err", errno=errno.ENOTSOCK, b=0, rc=0)))
            elif c == "close":
                f["kind"] = r.choice(["err", "lose"])
            if r.random() < 0.12:
                f["kind"] = "crash"
                f.pop("tool", None)
            lines.append(fmt(f))
    lines.append("package params=%s mode=%s edits=%s order=%d" % (",".join(params), mode, edits, r.randrange(1 << 30)))
    return lines


def fmt(f):
    return "fault " + " ".join("%s=%s" % (k, v) for k, v in f.items())


def fields(l):
    return {k: int(v) if re.fullmatch(r"-?\d+", v) and k != "edits" else v for k, v in (x.split("=", 1) for x in l.split()[1:])}


class Sim:
    def __init__(self, scratch, tools):
        self.scratch, self.tools = scratch, tools
        self.work = os.path.join(scratch, "w")
        os.makedirs(self.work)
        self.project = Project(os.path.join(self.work, "src"))
        self.gold = {}

    def package(self, params, mode, order, faults, target):
        """One execution of the packager; (exit status, World)"""
        global W
        W = World(self.work)
        W.faults, W.order, W.mode, W.tools = faults, random.Random(order), mode, self.tools
        W.need = self.need
        W.now = self.clock
        argv, out, err, cwd = sys.argv, sys.stdout, sys.stderr, os.getcwd()
        script = os.path.join(self.project.root, "tools", "prepare_nist.py")
        code = compile(read(script), script, "exec")
        cpus = os.cpu_count
        rc, why = 0, ""
        os.chdir(self.work)
        sys.argv = [script, self.project.root, self.project.build, target] + params
        sys.stdout = sys.stderr = io.StringIO()
        n = [4, 4, 1, None, 2, 64][order % 6]  # None: cannot be determined
        os.cpu_count = lambda: n
        if hasattr(shutil, "_USE_CP_SENDFILE"):
            shutil._USE_CP_SENDFILE = True  # cleared for the whole process by ENOTSOCK
        gc.collect()
        gc.disable()
        patch(True)
        W.armed = True
        try:
            exec(code, {"__name__": "__main__", "__file__": script, "__builtins__": builtins})
        except SystemExit as e:
            rc = 0 if e.code is None else e.code & 255 if isinstance(e.code, int) else 1
            why = "exit %s" % (e.code,)
        except SimCrash:
            rc, why = -9, "crash"
        except KeyboardInterrupt:
            raise
        except BaseException as e:
            rc, why = 1, "%s: %s" % (type(e).__name__, e)
        finally:
            W.armed = False
            patch(False)
            gc.enable()
            sys.argv, sys.stdout, sys.stderr, os.cpu_count = argv, out, err, cpus
            os.chdir(cwd)
            self.clock = W.now + 100
        if W.dead:
            rc = -9
        self.why = why
        return rc, W

    def golden(self, params, mode, edits, order):
        """Package trees of a fault-free run into an empty directory; (trees, error)"""
        r = {}
        for p in params:
            k = (p, mode, edits)
            if k not in self.gold:
                self.project.write(edits)
                self.need = [x for x in self.project.required(p)]
                t = os.path.join(self.work, "golden")
                shutil.rmtree(t, ignore_errors=True)
                keep = getattr(self, "clock", EPOCH + 5000)
                self.clock = EPOCH + 200000
                rc, w = self.package([p], mode, order, [], t)
                self.clock = keep
                err = None
                if rc:
                    err = ("no-success", "packaging %s fails without any fault: %s" % (p, self.why))
                else:
                    err = self.state(p, t, w, None, "without any fault")
                self.gold[k] = (tree(t), err)
                shutil.rmtree(t, ignore_errors=True)
                if len(self.gold) > 400:
                    self.gold.clear()
                    return self.golden(params, mode, edits, order)
            if self.gold[k][1]:
                return None, self.gold[k][1]
            r[p] = self.gold[k][0]
        return r, None

    def state(self, p, target, w, gold, how):
        """Is the package of p complete, built, tested and cleaned after a reported success?"""
        d = os.path.join(target, "Reference_Implementation", p)
        rd, rk = os.path.relpath(d, self.work), os.path.relpath(os.path.join(target, "KAT", p), self.work)
        for n, s in self.project.required(p).items():
            f = os.path.join(d, n)
            if not os.path.exists(f):
                return ("missing-file", "success, but %s of the %s package is missing (%s)" % (n, p, how))
            if os.path.islink(f) or os.path.samefile(f, s):
                return ("not-copied", "success, but %s of the %s package is only a link to the source (%s)" % (n, p, how))
            if read(f) != read(s):
                return ("damaged-file", "success, but %s of the %s package differs from the source (%s)" % (n, p, how))
        stage = 0
        for kind, where, rc in w.procs:
            if kind == "build" and where == rd:
                stage = 1 if rc == 0 else 0
            elif kind == "kat" and where == rk:
                stage = (2 if stage >= 1 else 0) if rc == 0 else min(stage, 1)
            elif kind == "clean" and where == rd:
                stage = 3 if rc == 0 and stage == 2 else min(stage, 2)
        if stage != 3:
            return ("skipped-step", "success, but the %s package was %s (%s)" % (p, ["not built", "built, but its known answers were not generated", "built and tested, but not cleaned up"][stage], how))
        for n in ("PQCsignKAT_%s.req" % p, "PQCsignKAT_%s.rsp" % p):
            if not os.path.exists(os.path.join(target, "KAT", p, n)):
                return ("missing-file", "success, but %s does not exist (%s)" % (n, how))
        if gold is not None:
            now = tree(target)
            for n, h in gold.items():
                if now.get(n) != h:
                    return ("wrong-tree", "success, but %s %s (%s)" % (n, "is missing" if n not in now else "is not what a fresh packaging gives", how))
        return None

    def execute(self, lines):
        h, stats, cover, fail, steps = hashlib.sha256(), {}, set(), None, 0

        def count(k, n=1):
            stats[k] = stats.get(k, 0) + n
        runs = []
        for l in lines:
            f = fields(l)
            if l.startswith("package"):
                runs.append((f["params"].split(","), f["mode"], tuple(tuple(map(int, e.split("@"))) for e in str(f["edits"]).split(",") if e), f["order"], []))
            elif runs:
                runs[-1][4].append(f)
        self.clock = EPOCH + 5000
        target = os.path.join(self.work, "target")
        shutil.rmtree(target, ignore_errors=True)
        for i, (params, mode, edits, order, faults) in enumerate(runs):
            gold, err = self.golden(params, mode, edits, 1)
            if err:
                fail = err
                break
            self.project.write(edits)
            self.need = [x for x in self.project.required(params[0]) if not x.startswith(params[0])]
            rc, w = self.package(params, mode, order, faults, target)
            steps += w.steps
            fired = sorted(w.fired)
            for k, v in w.fired.items():
                count("fault:" + k, v)
            t = tree(target)
            h.update(repr((i, rc, w.trace.hexdigest(), sorted(t.items()))).encode())
            count("packaging")
            count("make-" + mode)
            count("outcome:" + ("success" if rc == 0 else "crash" if rc == -9 else "failure"))
            how = "execution %d: %s" % (i, ", ".join(fired) or "no fault")
            cover.add((mode, len(params), tuple(fired), rc, i, tuple(f["nth"] // 4 for f in faults)[:2], bool(edits)))
            if rc == 0:
                for p in params:
                    fail = fail or self.state(p, target, w, gold[p], how)
                bad = [x for x in w.procs if x[2] != 0]
                if bad and not fail:
                    fail = ("failure-ignored", "success although %s in %s failed (%s)" % (bad[0][0], bad[0][1], how))
            elif not fired:
                fail = ("no-success", "packaging fails without any fault on the leftovers of an earlier one: %s (%s)" % (self.why, how))
            if fail:
                break
        return dict(cls=fail[0] if fail else "", msg=fail[1] if fail else "", hash=h.hexdigest()[:16], steps=steps, stats=stats, cover=cover)


# ---------------------------------------------------------------- the real thing once: real make, real compiler, real known answers
def real_run(scratch, s, model):
    """Packages one parameter set for real; error or None."""
    gen = os.path.join(scratch, "gen")
    build.generate(build.REPO, gen, None)
    b = os.path.join(scratch, "build")
    p = "faest_" + s
    os.makedirs(os.path.join(b, p))
    for n in (p + ".c", p + ".h", "parameters.h"):
        shutil.copy(os.path.join(gen, n), b)
    for n in ("crypto_sign.c", "crypto_sign.h", "api.h"):
        shutil.copy(os.path.join(gen, "cs_" + s, n), os.path.join(b, p))
    t = os.path.join(scratch, "target")
    e = dict(os.environ, LC_ALL="C")
    for v in ("CC", "CXX", "CFLAGS", "CPPFLAGS", "LDFLAGS", "MAKEFLAGS", "MFLAGS"):
        e.pop(v, None)
    r = subprocess.run([sys.executable, os.path.join(build.REPO, "tools", "prepare_nist.py"), build.REPO, b, t, p], env=e, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=scratch)
    if r.returncode:
        return ("no-success", "really packaging %s fails without any fault: %s" % (p, r.stdout.decode(errors="replace")[-600:]))
    q, k = os.path.join(scratch, "m.req"), os.path.join(scratch, "m.rsp")
    if subprocess.run([model, q, k]).returncode:
        raise SystemExit("the model failed")
    for ext, m in ((".req", q), (".rsp", k)):
        f = os.path.join(t, "KAT", p, "PQCsignKAT_%s%s" % (p, ext))
        if not os.path.exists(f):
            return ("missing-file", "really packaging %s: success, but %s does not exist" % (p, os.path.basename(f)))
        want, got = kat.normal(read(m)), kat.normal(read(f))
        if want != got:
            return ("wrong-records", "really packaging %s: %s: %s" % (p, os.path.basename(f), kat.differ(want, got)))
    left = [os.path.join(x, f) for x, _, fs in os.walk(t) for f in fs if f.endswith((".o", ".a"))]
    if left:
        return ("not-clean", "really packaging %s: %s is left behind" % (p, os.path.relpath(left[0], t)))
    return None


def make_tools(d):
    os.makedirs(d)
    build.sh(["gcc", "-O2", "-w", TOOL, "-o", os.path.join(d, "cc")])
    for n in ("gcc", "ar", "rm"):
        os.link(os.path.join(d, "cc"), os.path.join(d, n))


def worker(k, n, seed, secs, thorough, scratch, real, q):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    out = dict(runs=0, steps=0, stats={}, cover=set(), hashes=set(), samples=[], rechecked=0, viol=None, nondet=None, real=0)
    try:
        t0, i = time.time(), k
        for s, model in real:
            d = os.path.join(scratch, "real-" + s)
            os.makedirs(d)
            err = real_run(d, s, model)
            shutil.rmtree(d)
            out["real"] += 1
            if err:
                out["viol"] = (-1, ["real set=%s" % s], err[0], err[1], "")
                q.put(out)
                return
        sim = Sim(os.path.join(scratch, "w%d" % k), os.path.join(scratch, "bin"))
        while time.time() - t0 < secs or out["runs"] < 3:
            lines = gen(seed, i, thorough)
            r = sim.execute(lines)
            out["runs"] += 1
            out["steps"] += r["steps"]
            for a, b in r["stats"].items():
                out["stats"][a] = out["stats"].get(a, 0) + b
            out["cover"] |= r["cover"]
            out["hashes"].add(r["hash"])
            if not out["samples"]:
                out["samples"].append("\n".join(lines))
            if r["cls"]:
                out["viol"] = (i, lines, r["cls"], r["msg"], r["hash"])
                break
            if out["runs"] % 16 == 1:
                out["rechecked"] += 1
                if sim.execute(lines)["hash"] != r["hash"]:
                    out["nondet"] = (i, lines)
                    break
            i += n
        q.put(out)
    except BaseException as e:
        import traceback
        q.put(dict(error=repr(e) + traceback.format_exc()))


def scratch_dir():
    ok = os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK)
    return tempfile.mkdtemp(prefix="packsim.", dir="/dev/shm" if ok else None)


def main(pid, seed, thorough):
    import run
    c = checks.CHECKS[pid]
    t0 = time.time()
    sets = build.SETS if thorough else kat.QUICK_SETS
    try:
        progs = build.build_kat(sets)
    except build.BuildError as e:
        print("the generators cannot be built: %s" % e)
        return 2
    tb = time.time() - t0
    secs = c.get("thorough_secs", 900) if thorough else c["secs"]
    secs = float(os.environ.get("SIM_SECS", secs))
    scratch = scratch_dir()
    rc, path = 0, None
    try:
        make_tools(os.path.join(scratch, "bin"))
        real = [(s, progs["model", s]) for s in sets]
        q = mp.Queue()
        ps = [mp.Process(target=worker, args=(k, 8, seed, secs, thorough, scratch, real[k::8], q)) for k in range(8)]
        for p in ps:
            p.start()
        outs = [q.get(timeout=secs + 800) for _ in ps]
        for p in ps:
            p.join()
        bad = [o for o in outs if "error" in o]
        if bad:
            print("HARNESS: worker failed: %s" % bad[0]["error"])
            return 2
        viol = sorted((o["viol"] for o in outs if o["viol"]), key=lambda v: -v[0])
        nondet = [o["nondet"] for o in outs if o["nondet"]]
        if viol:
            path = report(pid, seed, viol[0], scratch, run, 40)
            rc = 1 if path else 2
        elif nondet:
            print("HARNESS: the same plan gave two different executions: %s" % (nondet[0],))
            rc = 2
        stats = {}
        for o in outs:
            for a, b in o["stats"].items():
                stats[a] = stats.get(a, 0) + b
        runs = sum(o["runs"] for o in outs)
        cov = {
            "evaluations": runs, "distinct_nontrivial": len(set().union(*(o["hashes"] for o in outs))), "rule": c["rule"],
            "samples": sum((o["samples"] for o in outs), [])[:3],
            "runs_per_hour": int(runs / max(secs, 1) * 3600), "seeds_per_hour": int(runs / max(secs, 1) * 3600),
            "simulated_seconds": sum(o["steps"] for o in outs), "simulated_seconds_note": "the simulated clock advances one second per file operation",
            "simulated_steps": sum(o["steps"] for o in outs), "real_packagings": sum(o["real"] for o in outs), "real_packagings_sets": sets,
            "faults_injected": {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")},
            "operations": {k: v for k, v in sorted(stats.items()) if not k.startswith("fault:")},
            "distinct_states": len(set().union(*(o["cover"] for o in outs))), "distinct_states_measure": c["measure"],
            "same_seed_rechecked": sum(o["rechecked"] for o in outs),
            "real_components": c["real"], "stubbed_components": c["stub"], "workers": 8,
        }
        ev = {"property": pid, "tier": "thorough" if thorough else "quick", "seed": seed, "level": c["level"], "coverage": cov, "assumptions": c["assumptions"],
              "wall_s": round(time.time() - t0, 1), "violations": 1 if rc == 1 else 0}
        os.makedirs(run.EVID, exist_ok=True)
        with open(os.path.join(run.EVID, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for key, what in run.known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    build.prune()
    print("%s: %d simulated histories in %.0f s (build %.0f s), exit %d" % (pid, runs, time.time() - t0, tb, rc))
    if rc == 1:
        print("VIOLATION property=%s replay=%s" % (pid, path))
    return rc


def one(scratch, lines):
    """Executes a plan in a fresh directory."""
    d = tempfile.mkdtemp(dir=scratch)
    try:
        if lines and lines[0].startswith("real"):
            s = fields(lines[0])["set"]
            err = real_run(d, s, build.build_kat([s])["model", s])
            return dict(cls=err[0] if err else "", msg=err[1] if err else "", hash="", steps=0)
        return Sim(os.path.join(d, "s"), os.path.join(scratch, "bin")).execute(lines)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def report(pid, seed, v, scratch, run, budget):
    os.makedirs(run.REPLAYS, exist_ok=True)
    idx, lines, cls, msg, _ = v
    a, b = one(scratch, lines), one(scratch, lines)
    if a["cls"] != cls or b["cls"] != cls:
        print("HARNESS: violation did not repeat: %s %s" % (cls, msg))
        return None
    small = lines if lines[0].startswith("real") else run.minimise(lambda ls: one(scratch, ls)["cls"] == cls, lines, budget)
    f = one(scratch, small)
    if f["cls"] != cls:
        small, f = lines, a
    path = os.path.join(run.REPLAYS, "%s-%s-%d.replay" % (pid, cls, max(idx, 0)))
    run.write_plan(path, small, ["property=%s" % pid, "seed=%d index=%d" % (seed, idx), "class=%s" % f["cls"], "hash=%s" % f["hash"], "message=%s" % f["msg"].replace("\n", " "),
                                 "operations=%d of %d before minimisation" % (len(small), len(lines))])
    print("violation class: %s" % f["cls"])
    print("violation: %s" % f["msg"])
    for l in small:
        print("  " + l[:300])
    return path


def replay(path):
    lines = [l.strip() for l in open(path) if l.strip() and not l.startswith("#")]
    scratch = scratch_dir()
    try:
        make_tools(os.path.join(scratch, "bin"))
        r = one(scratch, lines)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print(json.dumps({k: r[k] for k in ("cls", "msg", "hash", "steps")}))
    return 1 if r["cls"] else 0
