#!/usr/bin/env python3
"""Builds simulated variants of the library straight from a source tree (default /repo).

No file of the source tree is written.  Objects go to <verif>/build/<key>/, where <key> is a hash of
every input (sources, flags, this file), so an unchanged tree is not rebuilt.
"""
import concurrent.futures as cf
import hashlib, os, re, shutil, subprocess, sys, time, fcntl

SIM = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(SIM)
REPO = os.environ.get("FAEST_REPO", "/repo")
REF = os.path.join(VERIF, "ref")
BUILD = os.path.join(VERIF, "build")
JOBS = max(2, os.cpu_count() or 2)

SETS = ["128s", "128f", "192s", "192f", "256s", "256f",
        "em_128s", "em_128f", "em_192s", "em_192f", "em_256s", "em_256f"]


class BuildError(Exception):
    pass


def sh(cmd, cwd=None, env=None):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))
    return r.stdout


# ---------------------------------------------------------------- meson.build
def parse_meson(root):
    txt = open(os.path.join(root, "meson.build")).read()
    params = {}
    for m in re.finditer(r"param_(\w+)\.set\(\s*'(\w+)'\s*,\s*('([^']*)'|[-\d]+)\s*\)", txt):
        v = m.group(4) if m.group(4) is not None else m.group(3)
        params.setdefault(m.group(1), {})[m.group(2)] = v
    params = {p["PARAM_L"]: p for p in params.values() if "PARAM_L" in p}

    def files_in(block):
        return re.findall(r"'([^']+)'", block)

    common = files_in(re.search(r"faest_sources\s*=\s*files\(([^)]*)\)", txt).group(1))
    sha3_common, sha3 = [], {}
    rest = txt[txt.index("SHA3 implementation"):txt.index("generate files for parameter sets")]
    for m in re.finditer(r"(?:(?:if|elif) sha3 == '([\w-]+)'\s*)?faest_sources \+= files\(([^)]*)\)", rest):
        if m.group(1):
            sha3[m.group(1)] = files_in(m.group(2))
        else:
            sha3_common += files_in(m.group(2))
    return params, common, sha3_common, sha3


def subst(txt, conf):
    return re.sub(r"@(\w+)@", lambda m: str(conf[m.group(1)]) if m.group(1) in conf else m.group(0), txt)


CONF_ALL = ["HAVE_SYS_RANDOM_H", "HAVE_ALIGNED_ALLOC", "HAVE_POSIX_MEMALIGN", "HAVE_MEMALIGN", "HAVE_GETRANDOM",
            "HAVE_ARC4RANDOM_BUF", "HAVE_EXPLICIT_BZERO", "HAVE_CONSTTIME_MEMEQUAL", "HAVE_TIMINGSAFE_BCMP",
            "HAVE_PTHREAD_SETAFFINITY_NP"]
CONF_HOST = {"HAVE_SYS_RANDOM_H", "HAVE_ALIGNED_ALLOC", "HAVE_POSIX_MEMALIGN", "HAVE_MEMALIGN", "HAVE_GETRANDOM",
             "HAVE_ARC4RANDOM_BUF", "HAVE_EXPLICIT_BZERO", "HAVE_PTHREAD_SETAFFINITY_NP"}


def write(path, s):
    with open(path, "w") as f:
        f.write(s)


def generate(root, gen, conf):
    """What meson's configure_file steps produce."""
    params = parse_meson(root)[0]
    os.makedirs(gen, exist_ok=True)
    if conf is not None:
        write(os.path.join(gen, "config.h"), "#pragma once\n" + "".join(
            ("#define %s\n" if k in conf else "#undef %s\n") % k for k in CONF_ALL))
    write(os.path.join(gen, "parameters.h"), "#pragma once\n" + "".join(
        "#define FAEST_%s_%s %s\n" % (p["PARAM"], k, v) for p in params.values() for k, v in p.items()))
    srcs = {}
    tc = open(os.path.join(root, "faest_param.c.in")).read()
    th = open(os.path.join(root, "faest_param.h.in")).read()
    cc = open(os.path.join(root, "crypto_sign.c.in")).read()
    ch = open(os.path.join(root, "crypto_sign.h.in")).read()
    for s in SETS:
        p = params[s]
        write(os.path.join(gen, "faest_%s.c" % s), subst(tc, p))
        write(os.path.join(gen, "faest_%s.h" % s), subst(th, p))
        d = os.path.join(gen, "cs_%s" % s)
        os.makedirs(d, exist_ok=True)
        write(os.path.join(d, "crypto_sign.c"), subst(cc, p))
        write(os.path.join(d, "crypto_sign.h"), subst(ch, p))
        write(os.path.join(d, "api.h"), subst(ch, p))
        srcs[s] = (os.path.join(gen, "faest_%s.c" % s), os.path.join(d, "crypto_sign.c"))
    return params, srcs


# ---------------------------------------------------------------- seams
ALLOC = ["malloc", "calloc", "realloc", "reallocarray", "free", "aligned_alloc", "posix_memalign", "memalign", "valloc", "strdup"]
ENTROPY = ["getrandom", "getentropy", "arc4random_buf", "open", "open64", "read", "close", "ioctl", "fcntl", "fopen", "poll",
           "fread", "fclose", "syscall", "nanosleep", "usleep", "sleep", "sched_yield", "getpid", "randombytes"]
EVP = ["EVP_CIPHER_CTX_new", "EVP_CIPHER_CTX_free", "EVP_CIPHER_CTX_reset", "EVP_EncryptInit_ex", "EVP_EncryptInit",
       "EVP_EncryptInit_ex2", "EVP_EncryptUpdate", "EVP_EncryptFinal_ex", "EVP_EncryptFinal", "EVP_CipherInit_ex",
       "EVP_CipherUpdate", "EVP_CipherFinal_ex", "EVP_aes_128_ctr", "EVP_aes_192_ctr", "EVP_aes_256_ctr",
       "EVP_CIPHER_CTX_set_padding"]
MEM = ["memcpy", "memmove", "memset", "memcmp", "bcmp", "explicit_bzero"]
SYNC = ["pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_once", "call_once",
        "mtx_lock", "mtx_trylock", "mtx_unlock", "thrd_yield", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock"]
HASH = ["Keccak_HashSqueeze"]

# name -> (compiler, flags, conf (None: no config.h), sha3 back end, defines, extra seams, force include)
SAN = ["-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"]
D_X4 = ["-DWITH_KECCAK_X4"]
D_SSL = ["-DHAVE_OPENSSL"]
VARIANTS = {
    # the configuration meson picks here
    "ossl": ("gcc", ["-O2"], CONF_HOST, "opt64", D_SSL + D_X4, [], None),
    # own AES, 32-bit Keccak; same memcpy and memcmp
    "port": ("gcc", ["-O3", "-march=native"], CONF_HOST, "plain32", D_X4, ["memcpy", "memcmp"], None),
    # minimal libc: generic aligned allocator, own bzero; own AES; one-lane hashing; assertions off
    "mini": ("clang", ["-O2"], {"HAVE_SYS_RANDOM_H", "HAVE_GETRANDOM"}, "opt64", ["-DNDEBUG"], [], None),
    # AVX2 hash, clang, OpenSSL, posix_memalign, assertions off
    "avx2": ("clang", ["-O3", "-march=native"], CONF_HOST - {"HAVE_ALIGNED_ALLOC"}, "avx2", D_SSL + D_X4 + ["-DNDEBUG"], [], None),
    # tools/Makefile (NIST submission): no config.h
    "nist": ("gcc", ["-O3", "-march=native"], None, "opt64", D_SSL + ["-DNDEBUG"], [], None),
    # struct instead of vector field elements, memalign; unsigned plain char, poisoned automatic variables; a memcpy
    # that does not tolerate overlapping blocks, a memcmp whose answer is only a sign
    "novec": ("gcc", ["-O2", "-funsigned-char", "-ftrivial-auto-var-init=pattern"], CONF_HOST - {"HAVE_ALIGNED_ALLOC", "HAVE_POSIX_MEMALIGN"}, "opt64", D_SSL + D_X4, ["memcpy", "memcmp"], "novec.h"),
    # preemption points for the thread scheduler
    "cov": ("clang", ["-O1"] + SAN, CONF_HOST, "opt64", D_SSL + D_X4, MEM + SYNC, None),
    "covp": ("clang", ["-O1"] + SAN, {"HAVE_SYS_RANDOM_H", "HAVE_GETRANDOM"}, "plain32", D_X4, MEM + SYNC, None),
    # the same with struct field elements, one-lane hashing, fallback libc functions
    "covn": ("clang", ["-O1"] + SAN + ["-fsanitize-coverage=trace-gep"], {"HAVE_SYS_RANDOM_H", "HAVE_GETRANDOM"}, "opt64", D_SSL + ["-DNDEBUG"], MEM + SYNC, "novec.h"),
    # traced for C16: unoptimised, every branch of the source is one of the program; array indices recorded
    "cov0": ("clang", ["-O0"] + SAN + ["-fsanitize-coverage=trace-gep"], CONF_HOST, "opt64", D_SSL + D_X4, MEM + SYNC, None),
    # address and undefined-behaviour sanitizers
    "asan": ("clang", ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-shared-libasan"], CONF_HOST, "opt64", D_SSL + D_X4, [], None),
    "asanp": ("clang", ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-shared-libasan"], {"HAVE_SYS_RANDOM_H", "HAVE_GETRANDOM"}, "plain32", D_X4, [], "novec.h"),
    # frozen 1.0.1 release
    "ref": ("gcc", ["-O2", "-march=native"], CONF_HOST, "opt64", D_SSL + D_X4, [], None),
}
MEMO = {"port", "mini", "covp", "asanp"}
BASEFLAGS = ["-std=gnu11", "-fPIC", "-w", "-U_FORTIFY_SOURCE", "-D_GNU_SOURCE", "-DFAEST_EXPORT=", "-DFAEST_STATIC",
             "-fno-stack-protector", "-fvisibility=default"]


def hash_tree(root, h):
    for base, dirs, files in os.walk(root):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "_build", "tests", "catch2", "armv8a-neon", "__pycache__"))
        for f in sorted(files):
            if f.endswith((".c", ".h", ".in", ".inc", ".macros", ".s", ".S", ".cpp", ".hpp", ".build", ".py", ".txt", "Makefile")):
                p = os.path.join(base, f)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                h.update(open(p, "rb").read())


_keys = {}
def tree_key(root):
    if root not in _keys:
        h = hashlib.sha256()
        hash_tree(root, h)
        for f in ("build.py", "novec.h", "glue.c"):
            h.update(open(os.path.join(SIM, f), "rb").read())
        _keys[root] = h.hexdigest()[:16]
    return _keys[root]


def compile_all(jobs):
    """jobs: list of argv lists"""
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(sh, jobs))


def variant_dir(name):
    root = REF if name == "ref" else REPO
    return os.path.join(BUILD, "%s-%s" % (name, tree_key(root)))


def variant_jobs(name, d):
    comp, flags, conf, sha3, defs, seams, force = VARIANTS[name]
    root = REF if name == "ref" else REPO
    params, common, sha3c, sha3b = parse_meson(root)
    gen = os.path.join(d, "gen")
    _, srcs = generate(root, gen, conf)
    cflags = BASEFLAGS + flags + defs
    if conf is not None:
        cflags += ["-DHAVE_CONFIG_H", "-DFAEST_TESTS"]
    inc = ["-I", gen, "-I", root, "-I", os.path.join(root, "sha3"), "-I", os.path.join(root, "sha3", sha3)]
    if force:
        cflags += ["-include", os.path.join(SIM, force)]
    jobs, objs = [], []

    def add(src, obj, extra=(), incs=()):
        o = os.path.join(d, "o", obj)
        if src.endswith((".s", ".S")):
            jobs.append(["gcc", "-c", "-fPIC", src, "-o", o])
        else:
            jobs.append([comp] + cflags + list(extra) + list(incs) + inc + ["-c", src, "-o", o])
        objs.append(o)
        return o
    os.makedirs(os.path.join(d, "o"), exist_ok=True)
    for f in common + sha3c + sha3b[sha3] + ["randomness.c"]:
        add(os.path.join(root, f), f.replace("/", "_") + ".o")
    for s in SETS:
        add(srcs[s][0], "faest_%s.o" % s)
        add(srcs[s][1], "cs_%s.o" % s, ["-D%s=%s_%s" % (n, n, s) for n in ("crypto_sign_keypair", "crypto_sign", "crypto_sign_open")],
            ["-I", os.path.dirname(srcs[s][1])])
    return jobs, objs, comp, flags, seams, gen


def link_variant(name, d, objs, comp, flags, seams):
    names = ALLOC + ENTROPY + EVP + seams + HASH
    redef = os.path.join(d, "redef.txt")
    write(redef, "".join("%s sim_%s\n" % (n, n) for n in names))
    redef_k = os.path.join(d, "redef_k.txt")  # Keccak's own objects keep defining the real squeeze
    write(redef_k, "".join("%s sim_%s\n" % (n, n) for n in names if n not in HASH))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(lambda o: sh(["objcopy", "--redefine-syms=" + (redef_k if os.path.basename(o).startswith("sha3_") else redef), o]), objs))
    memo = name in MEMO
    if memo:
        sh(["objcopy", "--redefine-sym", "bf8_inv=sim_memo_bf8_inv", os.path.join(d, "o", "aes.c.o")])
    glue = os.path.join(d, "o", "glue.o")
    sh(["gcc", "-O2", "-fPIC", "-w"] + (["-DSIM_MEMO"] if memo else []) + ["-c", os.path.join(SIM, "glue.c"), "-o", glue])
    so = os.path.join(d, "lib.so.tmp")
    ld = [f for f in flags if f.startswith("-fsanitize=") or f == "-shared-libasan"]
    sh([comp, "-shared", "-Wl,-Bsymbolic", "-Wl,-z,now", "-o", so] + ld + objs + [glue, "-lcrypto"])
    os.rename(so, os.path.join(d, "lib.so"))


def build_variants(names):
    """Returns {name: path of lib.so}"""
    os.makedirs(BUILD, exist_ok=True)
    todo = []
    for n in names:
        d = variant_dir(n)
        if not os.path.exists(os.path.join(d, "lib.so")):
            tmp = d + ".tmp%d" % os.getpid()
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            todo.append((n, d, tmp) + variant_jobs(n, tmp))
    alljobs = [j for t in todo for j in t[3]]
    # long compilations first
    alljobs.sort(key=lambda j: 0 if any(x.endswith(("faest_aes.c", "fields.c", "KeccakP-1600-opt64.c", "times4-on1.c", "SIMD256.c", "32BI.c")) for x in j) else 1)
    compile_all(alljobs)
    for (n, d, tmp, jobs, objs, comp, flags, seams, gen) in todo:
        link_variant(n, tmp, objs, comp, flags, seams)
        shutil.rmtree(os.path.join(tmp, "o"))
        try:
            os.rename(tmp, d)
        except OSError:  # somebody else was faster
            shutil.rmtree(tmp)
    return {n: os.path.join(variant_dir(n), "lib.so") for n in names}


def has_avx2():
    try:
        return " avx2 " in open("/proc/cpuinfo").read()
    except OSError:
        return False


# entropy adapters: name -> (defines, contents of a header included first)
NOGLIBC = '#include <features.h>\n#include "macros.h"\n#undef GLIBC_CHECK\n#define GLIBC_CHECK(a, b) 0\n'
RNG = {
    "getrandom": (["-DHAVE_SYS_RANDOM_H", "-DHAVE_GETRANDOM"], NOGLIBC),
    "glibc": ([], "#include <features.h>\n"),
    "bare": ([], ""),
    "arc4random": (["-DHAVE_ARC4RANDOM_BUF"], NOGLIBC),
    "urandom": ([], NOGLIBC),
    "urandom_nocloexec": ([], NOGLIBC + "#include <fcntl.h>\n#undef O_CLOEXEC\n#undef O_NOFOLLOW\n"),
    "urandom_bsd": (["-U__linux__", "-D__NETBSD__"], NOGLIBC),
    "randombytes": (["-DHAVE_RANDOMBYTES"], ""),
    "supercop": (["-DSUPERCOP"], ""),
    "pqclean": (["-DHAVE_RANDOMBYTES", "-DPQCLEAN"], ""),
    "oqs": (["-DOQS"], ""),
    "apple": (["-U__linux__", "-D__APPLE__", "-DHAVE_APPLE_FRAMEWORK"], ""),
    "windows": (["-U__linux__", "-D_WIN32", "-D_WIN64"], NOGLIBC),
}
RNG_STUBS = {
    "oqs/rand.h": "#include <stddef.h>\n#include <stdint.h>\nvoid OQS_randombytes(uint8_t*, size_t);\n",
    "crypto_declassify.h": "static inline void crypto_declassify(void* p, unsigned long long n) { (void)p; (void)n; }\n",
    "Availability.h": "#define __MAC_OS_X_VERSION_MIN_REQUIRED 110000\n",
    "Security/Security.h": "#include <stddef.h>\n#define errSecSuccess 0\n#define kSecRandomDefault ((void*)0)\nint SecRandomCopyBytes(void*, size_t, void*);\n",
    "windows.h": "#include <stdint.h>\n#include <limits.h>\n#undef ULONG_MAX\n#define ULONG_MAX 0xffffffffu\ntypedef uint32_t ULONG;\ntypedef int32_t NTSTATUS;\n"
                 "#define BCRYPT_SUCCESS(s) ((NTSTATUS)(s) >= 0)\n#define BCRYPT_USE_SYSTEM_PREFERRED_RNG 2\nNTSTATUS BCryptGenRandom(void*, uint8_t*, ULONG, ULONG);\n",
}


def aux_dir(kind):
    h = hashlib.sha256(tree_key(REPO).encode())
    for base, dirs, files in os.walk(SIM):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".c") or f.endswith(".h") and "oqs" in base:
                h.update(open(os.path.join(base, f), "rb").read())
    return os.path.join(BUILD, "aux_%s-%s" % (kind, h.hexdigest()[:16]))


def build_rng(tmp):
    stubs = os.path.join(tmp, "stubs")
    for n, t in RNG_STUBS.items():
        os.makedirs(os.path.dirname(os.path.join(stubs, n)), exist_ok=True)
        write(os.path.join(stubs, n), t)
    redef = os.path.join(tmp, "redef.txt")
    write(redef, "".join("%s sim_%s\n" % (n, n) for n in ENTROPY + ALLOC + ["OQS_randombytes", "SecRandomCopyBytes", "BCryptGenRandom"]))

    def one(item):
        name, (defs, head) = item
        write(os.path.join(tmp, name + ".h"), head)
        o = os.path.join(tmp, name + ".o")
        try:
            one_rng(name, defs, o)
        except BuildError as e:
            if name not in OPTIONAL:
                raise
            left_out(name, e)

    def one_rng(name, defs, o):
        sh(["gcc", "-O2"] + BASEFLAGS + defs + ["-I", stubs, "-I", REPO, "-include", os.path.join(tmp, name + ".h"),
                                                "-c", os.path.join(REPO, "randomness.c"), "-o", o])
        sh(["objcopy", "--redefine-syms=" + redef, o])
        sh(["gcc", "-shared", "-Wl,-Bsymbolic", "-Wl,-z,now", "-o", os.path.join(tmp, name + ".so"), o])
        os.unlink(o)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, RNG.items()))
    return list(RNG)


# hash drivers: name -> (compiler, flags, back end, defines)
HASHES = {
    "opt64x4": ("gcc", ["-O2"], "opt64", D_X4),
    "opt64x1": ("clang", ["-O2"], "opt64", ["-DNDEBUG"]),
    "plain32x4": ("gcc", ["-O3", "-march=native"], "plain32", D_X4),
    "plain32x1": ("clang", ["-O1"], "plain32", []),
    "avx2x4": ("clang", ["-O3", "-march=native"], "avx2", D_X4 + ["-DNDEBUG"]),
    "avx2gcc": ("gcc", ["-O2", "-mavx2"], "avx2", D_X4),
    "oqs": ("gcc", ["-O2"], "oqs", []),
}
# these are built against stand-in headers; if the tree comes to need more of them, they are left out
OPTIONAL = {"oqs", "windows", "apple", "supercop", "pqclean", "urandom_bsd"}


def left_out(name, e):
    print("note: build %r left out: %s" % (name, str(e).splitlines()[-1][:200] if str(e) else ""))


OQS = os.path.join(SIM, "oqs")


def oqs_objects(tmp, prefix):
    """liboqs stand-in over the frozen release's Keccak; (jobs, objects)"""
    inc = ["-I", OQS, "-I", os.path.join(REF, "sha3"), "-I", os.path.join(REF, "sha3", "opt64")]
    jobs, objs = [], []
    for f in (os.path.join(REF, "sha3", "KeccakHash.c"), os.path.join(REF, "sha3", "KeccakSponge.c"),
              os.path.join(REF, "sha3", "opt64", "KeccakP-1600-opt64.c"), os.path.join(OQS, "shim.c")):
        o = os.path.join(tmp, prefix + os.path.basename(f) + ".o")
        jobs.append(["gcc", "-O2", "-fPIC", "-w", "-D_GNU_SOURCE"] + inc + ["-c", f, "-o", o])
        objs.append(o)
    return jobs, objs


def have_helpers():
    """the helpers of the hash layer that nothing calls need not be there"""
    text = "".join(open(os.path.join(REPO, f), errors="replace").read() for f in sorted(os.listdir(REPO)) if f.endswith(".h"))
    return ["-DHD_" + n for n in ("hash_init_prefix", "hash_init_prefix_x4", "hash_update_uint16_le", "hash_update_x4_uint16_le", "hash_update_x4_uint16s_le",
                                  "hash_update_x4_1", "hash_update_x4_4", "hash_squeeze_x4_4") if re.search(r"\b%s\b" % n, text)]


def build_hash(tmp):
    helpers = have_helpers()
    _, _, sha3c, sha3b = parse_meson(REPO)
    names = [n for n in HASHES if has_avx2() or "avx2" not in n]
    jobs, objs = [], {}
    try:
        jobs, objs["oqs"] = oqs_objects(tmp, "oqs_")
        o = os.path.join(tmp, "oqs_drv_%s.o")
        gen = os.path.join(tmp, "gen_oqs")
        generate(REPO, gen, None)
        for f in (os.path.join(REPO, "random_oracle.c"), os.path.join(SIM, "hashdrv.c")):
            sh(["gcc", "-O2"] + BASEFLAGS + helpers + ["-DOQS", "-include", os.path.join(OQS, "force.h"), "-I", OQS, "-I", gen, "-I", REPO, "-c", f,
                                             "-o", o % os.path.basename(f)])
            objs["oqs"].append(o % os.path.basename(f))
    except BuildError as e:
        left_out("oqs", e)
        jobs, objs = [], {}
        names.remove("oqs")
    for n in names:
        comp, flags, back, defs = HASHES[n]
        if n == "oqs":
            continue
        gen = os.path.join(tmp, "gen_" + n)
        generate(REPO, gen, CONF_HOST)
        objs[n] = []
        for f in sha3c + sha3b[back] + ["random_oracle.c", os.path.join(SIM, "hashdrv.c")]:
            src = f if f.startswith("/") else os.path.join(REPO, f)
            o = os.path.join(tmp, n + "_" + os.path.basename(f) + ".o")
            objs[n].append(o)
            if f.endswith((".s", ".S")):
                jobs.append(["gcc", "-c", "-fPIC", src, "-o", o])
            else:
                jobs.append([comp] + BASEFLAGS + flags + defs + helpers + ["-DHAVE_CONFIG_H", "-I", gen, "-I", REPO, "-I", os.path.join(REPO, "sha3"),
                                                                 "-I", os.path.join(REPO, "sha3", back), "-c", src, "-o", o])
    compile_all(jobs)
    redef = os.path.join(tmp, "redef.txt")
    write(redef, "".join("%s sim_%s\n" % (n, n) for n in ALLOC))
    for n in names:
        for o in objs[n]:
            sh(["objcopy", "--redefine-syms=" + redef, o])
        sh([HASHES[n][0], "-shared", "-Wl,-Bsymbolic", "-Wl,-z,now", "-o", os.path.join(tmp, n + ".so")] + objs[n])
        for o in objs[n]:
            os.unlink(o)
    return names


def build_aux(kind):
    """Small shared objects made from single parts of the tree; {name: path}"""
    d = aux_dir(kind)
    if not os.path.isdir(d):
        tmp = d + ".tmp%d" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        {"rng": build_rng, "hash": build_hash}[kind](tmp)
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp)
    return {f[:-3]: os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".so")}


def gen_sets(path):
    """Table of the parameter sets of the frozen release."""
    params = parse_meson(REF)[0]
    rows = []
    for s in SETS:
        p = {k: v for k, v in params[s].items()}
        g = lambda *ks: next(int(p[k]) for k in ks if k in p)
        rows.append('{"%s", %d, %d, %d, %d, %d, %d, %d, %d, %d, %d, %d},' % (
            s, g("LAMBDA"), 1 if s.startswith("em") else 0, g("TAU"), g("K0"), g("K1"), g("T0", "TAU0"), g("T1", "TAU1"), g("L"),
            g("PK_SIZE"), g("SK_SIZE"), g("SIG_SIZE")))
    write(path, "\n".join(rows) + "\n")


def build_sim(asan=False):
    """The simulator executable."""
    h = hashlib.sha256()
    srcs = sorted(f for f in os.listdir(SIM) if f.endswith((".cpp", ".h")))
    for f in srcs + ["build.py"]:
        h.update(f.encode() + open(os.path.join(SIM, f), "rb").read())
    name = "simasan" if asan else "sim"
    d = os.path.join(BUILD, "%s-%s" % (name, h.hexdigest()[:16]))
    exe = os.path.join(d, name)
    if os.path.exists(exe):
        return exe
    tmp = d + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    gen_sets(os.path.join(tmp, "sets.inc"))
    cc = ["clang++", "-fsanitize=address", "-shared-libasan", "-DSIM_ASAN", "-O1", "-g"] if asan else ["g++", "-O2", "-g1"]
    cpps = [f for f in srcs if f.endswith(".cpp")]
    compile_all([cc + ["-std=c++17", "-Wall", "-Wno-unused-function", "-fno-strict-aliasing", "-I", tmp, "-I", SIM, "-c", os.path.join(SIM, f), "-o",
                       os.path.join(tmp, f + ".o")] for f in cpps])
    ld = ["-Wl,-rpath," + os.path.dirname(sh(["clang", "-print-file-name=libclang_rt.asan-x86_64.so"]).decode().strip())] if asan else []
    sh(cc + ["-rdynamic", "-o", os.path.join(tmp, name)] + [os.path.join(tmp, f + ".o") for f in cpps] + ld + ["-ldl", "-lcrypto", "-lpthread"])
    for f in cpps:
        os.unlink(os.path.join(tmp, f + ".o"))
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp)
    return exe


# ---------------------------------------------------------------- known-answer generators
KAT = os.path.join(SIM, "kat")
KAT_REDEF = (["%s sim_cs_%s" % (a, b) for a, b in (("crypto_sign_keypair", "keypair"), ("crypto_sign", "sign"), ("crypto_sign_open", "open"))]
             + ["%s sim_%s" % (n, n) for n in ("EVP_CIPHER_CTX_new", "EVP_EncryptInit_ex", "EVP_EncryptUpdate", "EVP_EncryptFinal_ex", "malloc", "calloc", "realloc")])


def kat_dir():
    h = hashlib.sha256(tree_key(REPO).encode())
    for f in sorted(os.listdir(KAT)):
        h.update(open(os.path.join(KAT, f), "rb").read())
    return os.path.join(BUILD, "kat-" + h.hexdigest()[:16])


def build_kat(sets):
    """Both generator programs of the tree over the simulated disk and the independent models, for a stand-in scheme ("stub") and real
    parameter sets; {(program, set): path} with program in cpp, c, model."""
    d = kat_dir()
    os.makedirs(d, exist_ok=True)
    todo = [s for s in ["stub"] + list(sets) if not os.path.exists(os.path.join(d, s, "ok"))]
    if todo:
        tmp = os.path.join(d, "tmp%d" % os.getpid())
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        redef = os.path.join(tmp, "redef.txt")
        write(redef, "\n".join(KAT_REDEF) + "\n")
        tools = os.path.join(REPO, "tools")
        jobs, lib = [], {}
        real = [s for s in todo if s != "stub"]
        for side, root in (("new", REPO), ("old", REF)) if real else ():
            gen = os.path.join(tmp, "gen_" + side)
            _, srcs = generate(root, gen, None)
            _, common, sha3c, sha3b = parse_meson(root)
            flags = BASEFLAGS + ["-O3", "-march=native", "-DNDEBUG", "-DHAVE_OPENSSL", "-DHAVE_RANDOMBYTES", "-I", gen, "-I", root,
                                 "-I", os.path.join(root, "sha3"), "-I", os.path.join(root, "sha3", "opt64")]
            objs = []
            for f in common + sha3c + sha3b["opt64"] + ["randomness.c"]:
                o = os.path.join(tmp, side + "_" + f.replace("/", "_") + ".o")
                jobs.append(["gcc", "-c", "-fPIC", os.path.join(root, f), "-o", o] if f.endswith((".s", ".S")) else ["gcc"] + flags + ["-c", os.path.join(root, f), "-o", o])
                objs.append(o)
            for s in real:
                one = []
                for k in (0, 1):
                    o = os.path.join(tmp, "%s_%s_%d.o" % (side, s, k))
                    jobs.append(["gcc"] + flags + ["-I", os.path.dirname(srcs[s][1]), "-c", srcs[s][k], "-o", o])
                    one.append(o)
                lib[side, s] = one + objs
        api = {}
        for s in todo:
            b = os.path.join(tmp, s)
            os.makedirs(b)
            a = api[s] = os.path.join(b, "api")
            os.makedirs(a)
            shutil.copy(os.path.join(KAT, "stub_api.h") if s == "stub" else os.path.join(tmp, "gen_new", "cs_" + s, "api.h"), os.path.join(a, "api.h"))
            inc = ["-I", a, "-I", tools]
            jobs.append(["g++", "-std=c++17", "-O2", "-w"] + inc + ["-c", os.path.join(tools, "PQCgenKAT_sign.cpp"), "-o", os.path.join(b, "cpp.o")])
            jobs.append(["gcc", "-std=gnu11", "-O3", "-march=native", "-w", "-DNDEBUG"] + inc + ["-c", os.path.join(tools, "PQCgenKAT_sign.c"), "-o", os.path.join(b, "c.o")])
            jobs.append(["gcc", "-std=gnu11", "-O3", "-march=native", "-w", "-DNDEBUG"] + inc + ["-c", os.path.join(tools, "rng.c"), "-o", os.path.join(b, "rng.o")])
            jobs.append(["g++", "-std=c++17", "-O2", "-w", "-I", a, "-c", os.path.join(KAT, "sim.cpp"), "-o", os.path.join(b, "sim.o")])
            jobs.append(["gcc", "-std=gnu11", "-O2", "-w", "-I", a, "-c", os.path.join(KAT, "model.c"), "-o", os.path.join(b, "model.o")])
            if s == "stub":
                jobs.append(["gcc", "-std=gnu11", "-O2", "-w", "-I", a, "-c", os.path.join(KAT, "stub.c"), "-o", os.path.join(b, "stub.o")])
                lib["new", s] = lib["old", s] = [os.path.join(b, "stub.o")]
        compile_all(jobs)
        links = []
        for s in todo:
            b = os.path.join(tmp, s)
            for o in ("cpp", "c", "rng"):
                sh(["objcopy", "--redefine-syms=" + redef, os.path.join(b, o + ".o")])
            for prog in ("cpp", "c"):
                links.append(["g++", "-o", os.path.join(b, prog)] + [os.path.join(b, x + ".o") for x in (prog, "rng", "sim")] + lib["new", s] + ["-lcrypto"])
            links.append(["gcc", "-o", os.path.join(b, "model"), os.path.join(b, "model.o")] + lib["old", s] + ["-lcrypto"])
        compile_all(links)
        for s in todo:
            b = os.path.join(tmp, s)
            for f in os.listdir(b):
                if f.endswith(".o"):
                    os.unlink(os.path.join(b, f))
            write(os.path.join(b, "ok"), "")
            try:
                os.rename(b, os.path.join(d, s))
            except OSError:
                pass
        shutil.rmtree(tmp)
    return {(p, s): os.path.join(d, s, p) for s in ["stub"] + list(sets) for p in ("cpp", "c", "model")}


def prune(keep=6):
    """Keep the build directory small: drop all but the newest few builds of each variant."""
    groups = {}
    for e in os.listdir(BUILD) if os.path.isdir(BUILD) else []:
        p = os.path.join(BUILD, e)
        if os.path.isdir(p):
            groups.setdefault(e.split("-")[0], []).append((os.path.getmtime(p), p))
    for g in groups.values():
        for _, p in sorted(g)[:-keep]:
            shutil.rmtree(p, ignore_errors=True)


if __name__ == "__main__":
    t = time.time()
    names = sys.argv[1:] or list(VARIANTS)
    print(build_variants(names), build_sim(), build_sim(True), "%.1fs" % (time.time() - t))
