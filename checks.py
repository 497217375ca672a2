"""What each check runs and how it describes itself."""

FAST = ["ossl", "avx2", "novec", "nist"]
ALL = ["ossl", "port", "mini", "avx2", "novec", "nist"]
REAL = ("the whole library of /repo's working tree (key generation, signing, verification, vole/vc/universal hashing, field arithmetic, SHAKE, "
        "AES or OpenSSL, randomness.c, crypto_sign wrappers), built in several configurations")
REFPEER = "reference peer: frozen 1.0.1 release sources under /verif/ref"
MEMO = "builds with own AES (port, mini): GF(2^8) inversion looked up in a table filled by the tree's own inversion at load"
SEAMS = "libc heap, entropy device (getrandom, /dev/urandom, ...), OpenSSL EVP entry points routed through simulator seams that fault or forward to the real implementation"
BASE_ASSUME = ["the frozen reference release computes the specified signatures (checked by its own KATs upstream)",
               "properties of the C compilers and of OpenSSL's AES"]

CHECKS = {
    "C01": dict(
        vars=ALL, secs=40, level="exploration",
        technique="deterministic simulation, seeded entropy-fault scripts",
        note="Seeded exploration of entropy-fault scripts (error, EINTR/EAGAIN, short, EOF, permanent, open/ioctl failure, at every request incl. retries after rejected candidates) under key generation and signing, native and crypto_sign API, six builds. Success is accepted only if key or signature is shown to come from bytes the simulated source delivered in this call. Assumes the frozen reference release as signing oracle and an independent Rijndael model.",
        rule="one run = 2..10 key generations and randomised signings, each under a fault script drawn from the seed; distinct = distinct trace hash (calls, results, deliveries)",
        measure="(build, parameter set, faults fired, result, retries) combinations",
        real=[REAL], stub=[SEAMS, REFPEER, MEMO], assumptions=BASE_ASSUME),
    "C02": dict(
        vars=[], aux="rng", secs=25, level="exploration",
        technique="deterministic simulation of entropy devices with injected system-call faults",
        note="randomness.c is compiled for thirteen entropy interfaces (getrandom, glibc, configuration-less, arc4random, /dev/urandom in three flavours, randombytes in three flavours, OQS, Apple, Windows) over a simulated device. Seeded scripts of EINTR, EAGAIN, errors, short and empty reads, refused opens, failing ioctl and close, permanent failures. Success counts only if the device delivered every byte in place; descriptors, canaries and the number of system calls are checked. Windows/Apple/BSD headers are stand-ins.",
        rule="one run = 8..80 requests (200 thorough) to random adapters, each under its own fault script; distinct = distinct trace hash",
        measure="(adapter, prefix of fault kinds, request size class, result, permanent/open/ioctl/close faults)",
        real=["randomness.c of /repo's working tree, compiled once per entropy interface"],
        stub=["entropy device and descriptor table: simulated", "Windows, Apple, OQS, SUPERCOP headers: minimal stand-ins declaring the entry point"],
        assumptions=["the stand-in headers declare what the platforms' real headers declare"]),
    "C06": dict(
        vars=["cov", "covp", "ossl"], secs=45, level="exploration",
        technique="deterministic simulation, seeded thread scheduler with preemption at memory accesses",
        note="2..6 threads generate keys, sign, verify, open on shared or separate keys, messages and parameter sets. A seeded scheduler decides at every instrumented memory access, allocation, provider and entropy call which thread runs; context switches are placed at accesses to writable memory several threads touch (plus random ones). Every call must return what it returns alone. Two instrumented builds (OpenSSL; own AES with 32-bit Keccak); the AVX2 back end is not interleaved. Sequentially consistent interleavings only: no weak-memory reordering.",
        rule="one run = one program of 2..6 threads under one schedule; distinct = distinct trace hash (context switches included)",
        measure="(parameter sets, operations, switch sites) combinations",
        real=[REAL], stub=[SEAMS, "thread scheduler, mutexes, once-flags: simulated", MEMO],
        assumptions=BASE_ASSUME + ["compiler-inserted instrumentation sees every shared memory access of the library (assembly and libcrypto excepted)"]),
    "C03": dict(
        vars=ALL, secs=40, level="exploration",
        technique="deterministic simulation with programmed entropy source",
        note="Every S-box position of every parameter set is visited in turn with a candidate whose only zero S-box input is there; biased, stuck and repeating sources in between. Oracle: an independently written Rijndael model. Seeded search, no proof for all streams.",
        rule="one run = 24 candidates with a single zero S-box input at consecutive positions plus biased streams; distinct = distinct trace hash",
        measure="(parameter set, S-box position, build) hit by an unusable candidate",
        real=[REAL], stub=[SEAMS, REFPEER, MEMO], assumptions=BASE_ASSUME),
    "C14": dict(
        vars=ALL, secs=40, level="exploration",
        technique="deterministic simulation, faulty entropy devices (stuck, rollback, fork, bias)",
        note="Sequences of randomised signings under healthy, stuck, rolled-back, fork-duplicated, biased and periodic entropy devices, with build restarts. Each signature must equal the reference's deterministic signature for exactly the bytes delivered in the call; no two signatures on different inputs may share IV, opened seeds or commitments.",
        rule="one run = 3..7 signatures on related messages with one device; distinct = distinct trace hash",
        measure="(parameter set, device behaviour, message edit, build)",
        real=[REAL], stub=[SEAMS, REFPEER, MEMO], assumptions=BASE_ASSUME),
    "C04": dict(
        vars=ALL, secs=45, level="exploration",
        technique="deterministic simulation of a fleet of mixed builds with message faults and crash/restart",
        note="Signers and verifiers of six different builds plus the frozen 1.0.1 release exchange signatures over a simulated network that delays, reorders, duplicates and drops, while nodes crash and restart from stored keys. Every delivered undamaged signature must verify everywhere and equal the reference's bytes. Steered rare inputs (wrapping counters, extreme challenges, boundary and >4 GiB lengths). Seeded search, not exhaustive.",
        rule="one run = one fleet history of sign/deliver/crash/restart events; distinct = distinct trace hash",
        measure="(event, parameter set, signer build, verifier build, size class) combinations",
        real=[REAL], stub=[SEAMS, REFPEER, MEMO, "network and key store: simulated"], assumptions=BASE_ASSUME),
    "C05": dict(
        vars=ALL, secs=45, level="exploration",
        technique="deterministic simulation with corrupting, splicing and misrouting channel",
        note="Honest triples pass through a channel that flips bits, truncates, extends, splices, swaps fields, misroutes across keys, messages and parameter sets; verification and open of every build must reject and release nothing. Also single faults in the recomputed challenge. Positions are stratified over all signature segments. Seeded search.",
        rule="one run = several honest triples, each damaged in many ways; distinct = distinct trace hash",
        measure="(damage kind, parameter set, signature segment or field, build)",
        real=[REAL], stub=[SEAMS, REFPEER, MEMO, "channel: simulated"], assumptions=BASE_ASSUME + ["second preimages of SHAKE are not found by chance"]),
    "C07": dict(
        vars=ALL, secs=45, level="exploration",
        technique="deterministic simulation of call histories over dirty memory with injected failures",
        note="Seeded histories of succeeding, rejected and failing calls with related keys and messages, arguments at the same or different addresses and alignments, dirty heap, stack and output buffers; each result must equal the frozen reference's result for the same argument bytes.",
        rule="one run = 4..24 calls in one process; distinct = distinct trace hash",
        measure="(call, parameter set, build, argument placement, heap content, alignment)",
        real=[REAL], stub=[SEAMS, REFPEER, MEMO], assumptions=BASE_ASSUME),
    "C10": dict(
        vars=ALL, secs=45, level="exploration",
        technique="deterministic simulation with guarded caller buffers and injected failures",
        note="Calls with buffers between canaries or inaccessible pages, read-only inputs, every overlap relation of message and signed message, boundary capacities, missing arguments, unusable keys and entropy failures; every byte outside the promised output must be unchanged.",
        rule="one run = 4..20 calls; distinct = distinct trace hash",
        measure="(call, parameter set, build, guard placement, overlap kind)",
        real=[REAL], stub=[SEAMS, REFPEER, MEMO], assumptions=BASE_ASSUME),
    "C13": dict(
        vars=ALL, secs=40, level="exploration",
        technique="deterministic simulation of a crashing disk holding the key files",
        note="A key store on a simulated disk (crash at any point, torn, lost, stale, misdirected sectors, bit rot) is read back and validated by every build; the answer must agree with an independent one-way-function model. Seeded search over crash points, sector sizes and byte positions.",
        rule="one run = several store/crash/read-back episodes; distinct = distinct trace hash",
        measure="(damage kind, parameter set, build, byte position class)",
        real=[REAL], stub=[SEAMS, REFPEER, MEMO, "disk: simulated"], assumptions=BASE_ASSUME),
    "C08": dict(
        vars=ALL, secs=45, level="exploration",
        technique="deterministic simulation with injected heap and crypto-provider failures",
        note="For each call (key generation, signing, verification, opening, validation; valid and damaged input) one clean execution counts its allocations and provider calls; then seeded faulty executions (k-th allocation or provider call, bursts, all from k on, size and budget limits, every n-th) over dirty heap. Allowed: error, stop (abort or null-page access), correct result. A wrong success, accepted damaged input, wild access, heap corruption, hang, or a wrong later call is a violation. Seeded choice of failure points, not all of them.",
        rule="one run = 1..3 calls, each executed under 4..14 fault plans (40 thorough); distinct = distinct trace hash",
        measure="(build, parameter set, call, fault kind, failure point, outcome)",
        real=[REAL], stub=[SEAMS, REFPEER, MEMO], assumptions=BASE_ASSUME + ["the EVP cipher getters of OpenSSL do not fail"]),
    "C09": dict(
        vars=["ossl", "avx2", "novec", "nist", "mini", "port"], asan=["asan", "asanp"], secs=50, level="exploration",
        technique="deterministic simulation over a guarded heap and sanitizer builds, hostile input, injected failures",
        note="Seeded call sequences with honest, hostile (random or patterned keys and signatures, wrong lengths), failing (entropy, heap, provider) calls, executed over a heap of guard pages, poisoned released blocks and exact-size caller buffers, and in address+undefined-behaviour sanitizer builds. The sequence is repeated; live heap blocks and provider contexts may not grow from repetition to repetition.",
        rule="one run = one call sequence executed two to four times; distinct = distinct trace hash",
        measure="(build, parameter set, call, hostility, heap and buffer guard kind, result)",
        real=[REAL], stub=[SEAMS, REFPEER, MEMO], assumptions=BASE_ASSUME),
    "C12": dict(
        vars=[], aux="hash", secs=35, level="exploration",
        technique="deterministic simulation of interleaved hash streams over dirty memory",
        note="Up to five hash streams (plain SHAKE128/256, prefixed, H0..H3, one and four lanes) on seven builds of the hash layer (64-bit, 32-bit, AVX2 and liboqs back ends, gcc and clang) are opened, fed, closed and drained in seeded pieces and interleavings, contexts and outputs in dirty memory between canaries or at inaccessible pages, lanes at unrelated addresses and alignments. Every output byte is compared with a FIPS-202 model; lengths beyond 2^32 bits are included; contexts must give back their memory. liboqs is a stand-in over the frozen Keccak; the Arm assembly and s390 back ends cannot run here.",
        rule="one run = one interleaving of 1..5 streams with up to 14 input and 12 output pieces each; distinct = distinct trace hash",
        measure="(build, stream kind, lanes, rate, position in block, piece size class)",
        real=["hash_shake.h, random_oracle.c and sha3/ of /repo's working tree with each back end that runs on this machine"],
        stub=["liboqs: stand-in headers and SHAKE from the frozen release", "heap: simulated"],
        assumptions=["the FIPS-202 model is right (two known answers checked at start)"]),
    "C11": dict(
        python="kat", secs=40, level="exploration",
        technique="deterministic simulation of a failing disk under the real generator programs",
        note="Both generator programs run as real processes whose file system calls all trap into a simulated disk (seccomp). Seeded histories of 1..3 processes on one disk, with leftovers of earlier ones: errors, torn, short, interrupted and lost writes, refused opens, failing or early-ending reads, failing closes, full disks of every size, failing or misbehaving crypto calls, failing provider and heap. Success is accepted only with both files byte-equal to the fault-free ones, which are compared with an independently written DRBG and record model. Most runs use a small stand-in signature scheme, some the real library.",
        rule="one run = one history of generator processes under a seeded fault plan; distinct = distinct hash of all system calls, results, exit codes and files",
        measure="(program, scheme, fault kinds fired, full disk, exit status, files complete, positions)",
        real=["tools/PQCgenKAT_sign.cpp, tools/PQCgenKAT_sign.c, tools/rng.c and, in some runs, the whole library of /repo's working tree", "the machine's C and C++ standard libraries"],
        stub=["disk: simulated behind the system calls", "signature scheme: a small stand-in in most runs"],
        assumptions=["the two programs may not distinguish records by spacing: files are compared with the model up to spacing and with the fault-free run byte by byte"]),
    "C15": dict(
        python="pack", secs=40, level="exploration",
        technique="deterministic simulation of failing file operations and sub-processes under the real packager",
        note="The packager runs unmodified in-process on a shrunken copy of the tree; the calls below shutil, pathlib and subprocess (directory order, mkdir, open, sendfile, read, write, close, chmod, spawn) are faulted or made to crash by a seeded plan. make, generator and clean-up are models with a simulated clock, or the real GNU make on the tree's Makefile with stand-in cc, ar and rm that fail. Histories of 2..4 executions share a target, with edited sources in between. Success is accepted only if every required file is intact, the package was built, tested and cleaned in this order, and the result equals a fresh packaging. Two parameter sets (thorough: all) are also packaged for real once, known answers checked against the model.",
        rule="one run = one history of packager executions on one target directory; distinct = distinct hash of all operations, results and trees",
        measure="(make mode, number of parameter sets, faults fired, exit status, execution number, positions, edited)",
        real=["tools/prepare_nist.py and tools/Makefile of /repo's working tree, Python's shutil and pathlib, GNU make; for two parameter sets everything"],
        stub=["make (most runs), compiler, archiver, generator: models", "file contents: shrunken"],
        assumptions=["required files: all C sources and headers, the generated files of the set, sha3 and its 64-bit back end, API test, generator, Makefile"]),
    "C16": dict(
        vars=["cov", "covn", "cov0", "covp", "ossl"], secs=60, level="exploration",
        technique="deterministic simulation: seeded pairs of executions that differ only in secrets, machine histories compared event by event",
        note="Each call (signing, randomised and crypto_sign signing, key generation, key validation) is simulated twice from one process image: same message, one-way function input, entropy faults, rejected candidates, heap contents and addresses, IV and challenges forced to the same (random or extreme) values at the hash seam; different secret key, signing randomness or root key. Four instrumented builds (optimised, unoptimised, struct field elements with one-lane hashing, own AES with 32-bit Keccak) record every basic block, load and store address, array index, block operation, comparison length, allocation and provider call; the two histories must be equal. Seeded pairs, not all secrets; instruction latencies, libcrypto, assembly and the binaries of other compilers are not seen.",
        rule="one run = 4..6 calls, each simulated twice; distinct = distinct trace hash",
        measure="(call, parameter set, kinds of the two keys, varied secret, IV and challenge kinds)",
        real=["the whole library of /repo's working tree in four instrumented builds"], stub=[SEAMS, "IV, challenges and root key: programmed at the hash seam", "covp: " + MEMO],
        assumptions=["one-way function outputs and signature fields, which are public and differ between the two executions, are allowed to influence nothing either", "compiler instrumentation sees every branch and address of the builds it is in"]),
}
