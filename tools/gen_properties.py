#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None, hook=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Entropy failure never yields a key pair or a signature",
 "If the system's entropy source fails or delivers fewer bytes than requested at any point of a key generation or a randomised signing call (including any retry of key generation), that call reports failure; it never reports success with a key pair or a signature derived from bytes the source did not deliver. Once the source works again the same calls succeed.",
 ["fault_sequences", "histories"],
 "every position, kind (error, short delivery, would-block, interrupted) and sequence of entropy faults across a caller's history of key generation and signing calls, for all 12 parameter sets and both the native and the SUPERCOP/NIST style API",
 "Existing tests always run with a healthy getrandom; no test injects an entropy failure, and the failing call may be any of the (geometrically many) retries inside key generation.",
 ["faest_param.c.in", "crypto_sign.c.in", "randomness.c"],
 [("result of the entropy request is checked before the candidate key / rho is used", "faest_param.c.in: *_keygen, *_sign"),
  ("failure propagated through the combined API", "crypto_sign.c.in: crypto_sign_keypair, crypto_sign"),
  ("a short delivery counts as failure", "randomness.c: rand_bytes")],
 observe=["return value, *signature_len, pk/sk buffers of keygen, sign, crypto_sign_keypair, crypto_sign"])

prop("C02", "Entropy adapters return success only with a completely filled buffer",
 "Whichever operating-system interface the library is built for, a request for random bytes reports success only if every requested byte was delivered by the source during this request and in the right place, touches nothing outside the requested buffer, and leaks no descriptor. Interrupted, would-block, short and end-of-file results are either retried or reported as failure, and every request finishes within a bounded number of system calls once the source stops faulting or reports a permanent failure.",
 ["fault_sequences", "configurations", "inputs"],
 "every sequence of EINTR/EAGAIN/short/EOF/EIO results of open, ioctl, read, close and getrandom, every request size, in the getrandom, arc4random, /dev/urandom and randombytes configurations",
 "Only the getrandom path is compiled by the two tested configurations, and neither sees a fault; the retry loops of the other adapters never run in a test.",
 ["randomness.c"],
 [("retry loop on open/read, permanent errors reported, descriptor closed on every path", "randomness.c: rand_bytes (/dev/urandom)"),
  ("length of the getrandom result compared with the request", "randomness.c: rand_bytes (getrandom)")],
 observe=["return value and buffer of the library's random byte request; simulated descriptor table"])

prop("C03", "Key generation yields only consistent, provable, freshly drawn key pairs",
 "For every stream of bytes the entropy source may deliver (random, biased, stuck, repeating), a successful key generation returns a pair whose public key is the one-way image of exactly the secret key returned, whose key material was delivered by the entropy source during this call, and for which the encryption never feeds a zero byte to an S-box, so that signing with it succeeds; candidates violating this are never returned. Two generations fed different usable entropy never return the same pair, whatever happened before in the process.",
 ["inputs", "fault_sequences", "histories"],
 "every entropy stream, including those crafted so that many consecutive candidates are unusable in a chosen round, key-schedule or block position, and every history of earlier calls, for all 12 parameter sets",
 "Tests draw a few healthy random keys; a zero in one particular S-box position (200 to 500 of them), especially in the second block or in the key schedule, is hit with probability 1/256 each and no test asserts the rejection for all positions or sets.",
 ["faest_param.c.in", "owf.c", "aes.c"],
 [("candidate loop until the one-way function reports a usable key", "faest_param.c.in: *_keygen"),
  ("zero S-box input flag accumulated over key schedule and all blocks", "owf.c: owf_*; aes.c: expand_key, sub_bytes")],
 observe=["keygen result vs. independent AES/Rijndael model fed with the simulated entropy stream"])

prop("C04", "Every build interoperates: same signature bytes, accepted by every peer",
 "A signature made by any build of the library for an honest key pair, message and randomness is accepted by every build for as long as it arrives undamaged, however delayed, duplicated or reordered, and after any crash and restart of signer or verifier from their stored keys. For identical inputs all builds (crypto provider or own AES, any hash back end, any memory-allocation fallback, any compiler or optimisation level, this version or the 1.0.1 release) produce the identical bytes.",
 ["configurations", "inputs", "histories", "schedules"],
 "every parameter set, pair of builds, key, message (any length from 0 to beyond 4 GiB), signing randomness (any length), IV and challenge value, including rare ones such as counters about to wrap",
 "The tests run each configuration alone and compare a handful of fixed vectors; builds never exchange signatures, boundary message lengths, wrap-around IVs and extreme challenges are not sampled, and the alloc/AVX2/NDEBUG/clang configurations are not built at all.",
 ["faest.c", "faest_aes.c", "aes.c", "vc.c", "vole.c", "universal_hashing.c", "fields.c", "fields.h", "hash_shake.h", "compat.c", "compat.h", "sha3/KeccakHash.c", "sha3/KeccakHashtimes4.c", "instances.c", "faest_param.c.in"],
 [("deterministic signing from (key, message, rho)", "faest.c: faest_sign"),
  ("CTR key stream through OpenSSL or own AES", "aes.c: prg, aes_increment_iv"),
  ("four-lane and single-lane hashing", "hash_shake.h, sha3/*"),
  ("vector and struct field arithmetic", "fields.h, fields.c")],
 observe=["signature bytes and verification results of every simulated node"])

prop("C05", "Damaged or substituted traffic is never accepted",
 "If anything about a received triple of public key, message and signature differs from what an honest signer emitted (any flipped bit, truncation, extension, splice of two valid signatures, swapped field, message of another length, another key or another parameter set), verification rejects it, and opening a signed message then reports failure without releasing a message or a message length. A single fault in the challenge the verifier recomputes also leads to rejection, never to acceptance.",
 ["inputs", "fault_sequences", "histories"],
 "every fault a channel or store can apply to the triple, at every byte and bit position, for every parameter set and message length (0 to beyond 4 GiB), in any history of earlier accepted and rejected traffic",
 "The tests flip a fixed position or use a wrong message once per set; they do not range over positions, lengths, splices, cross-set or cross-key traffic, nor over faults in the final comparison.",
 ["faest.c", "faest_param.c.in", "crypto_sign.c.in", "vole.c", "vc.c", "faest_aes.c", "random_oracle.c"],
 [("recomputed challenge compared with the received one in full length", "faest.c: faest_verify"),
  ("exact length check", "faest_param.c.in: *_verify; crypto_sign.c.in: crypto_sign_open"),
  ("every signature byte and the complete message enter a hash or the witness check", "faest.c: hash_mu, hash_challenge_*")],
 observe=["return value of verify and crypto_sign_open, released message and length"])

prop("C06", "Concurrent calls behave as if each ran alone",
 "Any number of threads may generate keys, sign and verify at the same time, with the same or different keys and parameter sets and on shared read-only inputs; under every interleaving each call returns exactly what it would return had it run alone.",
 ["schedules", "histories"],
 "every interleaving, at the granularity of basic blocks and accesses to shared memory, of concurrent calls of keygen, validate_keypair, sign, verify, crypto_sign and crypto_sign_open, including stalls of one thread inside any call and across first use",
 "The whole test suite is single-threaded: no interleaving other than the sequential one is ever executed.",
 ["faest.c", "faest_aes.c", "aes.c", "vc.c", "vole.c", "universal_hashing.c", "fields.c", "owf.c", "instances.c", "random_oracle.c", "compat.c", "randomness.c", "faest_param.c.in", "crypto_sign.c.in"],
 [("no mutable static storage; every call works on its own stack and heap", "all library sources"),
  ("per-call cipher context", "aes.c: prg")],
 observe=["results of each thread's calls compared with the isolated run"])

prop("C07", "Sign and verify depend on their arguments only, not on history or memory",
 "Deterministic signing, verification, opening and key validation return the same result for the same argument bytes whatever the process did before (successful, rejected or failed calls, with the same or other keys, messages, parameter sets), whatever the arguments' addresses and alignments are, and whatever old contents heap, stack and output buffers hold.",
 ["histories", "inputs"],
 "every history of calls (including buffer reuse: the same addresses holding new contents), every initial content of heap, stack and output buffers, every buffer alignment",
 "Each test case runs in a fresh process with fresh, mostly zero memory, aligned vectors and one or two calls; stale or dirty memory and long histories are not produced.",
 ["faest.c", "faest_aes.c", "aes.c", "vc.c", "vole.c", "universal_hashing.c", "fields.c", "owf.c", "random_oracle.c", "compat.c", "sha3/KeccakSponge.inc", "sha3/KeccakSpongetimes4.inc"],
 [("buffers zeroed where accumulated into", "faest.c, vole.c, faest_aes.c: calloc/memset before use"),
  ("no caching of anything across calls", "all library sources")],
 observe=["result bytes and return codes vs. the frozen 1.0.1 reference peer in a clean process"])

prop("C08", "Failing memory or crypto provider: correct result, error or stop, never worse",
 "If memory allocation or the underlying crypto provider fails at any point of any call, the call either still returns the correct result, or reports an error, or the process stops at once; it never reports success with a wrong or key-revealing signature or an unusable key, never accepts a signature it would otherwise reject, never hangs and never writes to memory it does not own.",
 ["fault_sequences", "histories"],
 "every subset of allocation and provider calls failing (single failures at every position, bursts, permanent failure, size-dependent failure) during every public call, for valid and for forged input, with and without assertions compiled in",
 "No test makes malloc or an OpenSSL call fail; with hundreds to ten-thousands of such calls per operation, failure positions cannot be covered by hand-written tests.",
 ["aes.c", "faest.c", "vc.c", "vole.c", "faest_aes.c", "compat.c"],
 [("provider results checked; fail-stop", "aes.c: prg"),
  ("null allocation results are touched at a small offset and trap", "faest.c, vc.c, vole.c, faest_aes.c")],
 observe=["exit status / fault address of the simulated process, return code, produced bytes vs. reference"])

prop("C09", "No leak and no out-of-bounds access on any path, for any input",
 "After every call returns (success, rejection or error) all memory and provider objects it acquired have been released exactly once, so a long-running process does not grow with the number of calls; and whatever bytes a key, message or signature contains, no call reads or writes outside the buffers it was given or owns, uses released memory or executes undefined arithmetic.",
 ["inputs", "histories", "fault_sequences"],
 "every history of valid, hostile and failing calls (including entropy failure), every content of pk, sk, message and signature, all parameter sets and allocator configurations",
 "The suite is not run under an address checker in the tested configurations, feeds almost only honest signatures, and never counts live allocations over rejected or failing calls.",
 ["faest.c", "vc.c", "vole.c", "faest_aes.c", "aes.c", "universal_hashing.c", "compat.c", "faest_param.c.in", "crypto_sign.c.in", "sha3/KeccakSponge.inc"],
 [("matching free for every allocation on each return path", "faest.c, vole.c, vc.c, faest_aes.c"),
  ("cipher context freed", "aes.c: prg"),
  ("over-allocation bookkeeping of the generic aligned allocator", "compat.c: faest_aligned_alloc/free")],
 observe=["simulated heap: live blocks, redzones, guard pages; address/UB sanitised build"])

prop("C10", "Calls touch exactly the output they promise; inputs and aliases are respected",
 "A call writes only its documented outputs: inputs are never modified; signing writes exactly the signature and sets the length, refuses a too small capacity without writing anything, and accepts a larger one; the combined API works in place for any overlap of message and signed message; and a failing native signing call (bad arguments, entropy failure, unusable key) leaves the length untouched, as a failing open does with message and length.",
 ["inputs", "histories", "fault_sequences"],
 "every combination of argument presence, capacity, message length, buffer overlap distance and injected failure, in any order of calls, for all 12 parameter sets",
 "The API tests use one fixed non-overlapping layout with exact capacities and one message length; overlap distances, boundary capacities and failing calls are not exercised.",
 ["faest_param.c.in", "crypto_sign.c.in", "faest.c", "faest_param.h.in", "compat.c"],
 [("argument and capacity checks before the first write", "faest_param.c.in"),
  ("memmove before signing and after verification only", "crypto_sign.c.in"),
  ("wipes exactly the private key", "faest_param.c.in: *_clear_private_key")],
 observe=["canary-surrounded caller buffers before/after each call"])

prop("C11", "Known-answer generator succeeds only with complete, correct, reproducible files",
 "The known-answer-test generators exit with success only if both of their files were created and completely stored and contain exactly the records determined by the fixed seed; any failing, short-ending or refused file operation and any failing or misbehaving crypto call leads to a failure exit. Interrupted and short writes that the system later completes do not change the files.",
 ["fault_sequences", "crash_points"],
 "every sequence of open/read/write/close faults (ENOSPC, EIO, EDQUOT, EINTR, short write) and crypto faults at every point of a generator run, for both generator programs",
 "The generators are never run by the tests, and no test simulates a full or failing disk.",
 ["tools/PQCgenKAT_sign.cpp", "tools/PQCgenKAT_sign.c", "tools/rng.c"],
 [("stream state checked after flushing and closing", "tools/PQCgenKAT_sign.cpp: main; tools/PQCgenKAT_sign.c: main"),
  ("results of the crypto calls and the round trip checked", "tools/PQCgenKAT_sign.cpp: main"),
  ("deterministic generator reseeded per record", "tools/rng.c: randombytes_init, randombytes")],
 observe=["exit status and file contents on the simulated disk"])

prop("C12", "Streaming hashes do not depend on how data arrives or on other streams",
 "For every split of the input and of the requested output into pieces, and every interleaving of work on any number of hash streams (single and four-lane), each stream yields the standard SHAKE output of its own input; the domain-separated hashes built on top, and all hash back ends, agree with that.",
 ["schedules", "inputs", "configurations"],
 "every chunking of absorbed and squeezed data around and across block boundaries, every interleaving of several live streams, unaligned sources and sinks, back ends opt64, plain32 and avx2",
 "Tests use a few fixed inputs, each absorbed and squeezed in one piece by one stream at a time; the AVX2 back end is not built.",
 ["hash_shake.h", "random_oracle.c", "sha3/KeccakHash.c", "sha3/KeccakHashtimes4.c", "sha3/KeccakSponge.inc", "sha3/KeccakSpongetimes4.inc", "sha3/opt64/KeccakP-1600-opt64.c", "sha3/plain32/KeccakP-1600-inplace32BI.c", "sha3/avx2/KeccakP-1600-times4-SIMD256.c"],
 [("sponge queue bookkeeping", "sha3/KeccakSponge.inc, sha3/KeccakSpongetimes4.inc"),
  ("all stream state lives in the caller's context", "hash_shake.h")],
 observe=["squeezed bytes vs. independent SHAKE model"])

prop("C13", "Damaged stored keys are always detected by key-pair validation",
 "A stored key pair read back after a crash is accepted by key-pair validation exactly if public and secret key belong together and the key is usable; any torn, lost, stale, misdirected or bit-flipped write of either file is reported. Signing never succeeds with a secret key whose one-way evaluation is unusable, and clearing a private key erases all of it and nothing else.",
 ["crash_points", "fault_sequences", "inputs"],
 "every crash point while storing a new key pair over an old one, every torn/lost/stale sector combination and bit flip of the stored bytes, for all 12 parameter sets",
 "The tests validate one intact pair and a few damaged ones; crash points, sector granularity, byte positions and stale mixtures of two valid pairs are not explored.",
 ["faest_param.c.in", "owf.c", "aes.c", "compat.c"],
 [("recomputes the complete public key and compares all of it", "faest_param.c.in: *_validate_keypair"),
  ("portable full-length comparison", "compat.c: faest_timingsafe_bcmp"),
  ("unusable key refused", "faest_param.c.in: *_sign_with_randomness")],
 observe=["validate_keypair / sign return codes vs. independent one-way function model"])

prop("C14", "Signing is hedged: fresh entropy per call, safe with a broken source",
 "Randomised signing mixes bytes delivered by the entropy source during this very call together with the secret key and the complete message: its result equals deterministic signing with exactly the delivered bytes. Hence even if the source repeats, is stuck, is biased or is rolled back (virtual machine snapshot, fork), signatures on different messages or under different keys never share their IV or any opened seed or commitment, and with a healthy source repeated signatures on one message never do either.",
 ["fault_sequences", "histories", "inputs"],
 "every behaviour of the entropy source (fresh, repeated, constant, rolled back, duplicated by fork), every pair of signing calls in a history, every message and randomness length, all parameter sets",
 "Tests check one signature at a time with a healthy source; reuse relations between signatures under entropy faults are never compared.",
 ["faest_param.c.in", "faest.c", "random_oracle.c", "randomness.c"],
 [("root seed and IV derived from key, message digest and rho", "faest.c: faest_sign (H3)"),
  ("rho drawn in every call", "faest_param.c.in: *_sign")],
 observe=["signature bytes in the recorded history (IV, opened seeds, commitments)"])

prop("C15", "Packaging is all-or-nothing: success only with a complete, tested package",
 "The submission packager reports success only if, for every requested parameter set, each required source file was copied intact, the copied package was built, and its known-answer files were generated by it; any failing copy, directory creation, build, generator run or clean-up makes it fail.",
 ["fault_sequences", "crash_points"],
 "every single or multiple failure of the file-system and sub-process steps of the packager, at every position, over all parameter sets",
 "The packager is never executed by the tests.",
 ["tools/prepare_nist.py", "tools/Makefile"],
 [("checked sub-process calls; exceptions of copy operations propagate", "tools/prepare_nist.py: generate")],
 observe=["exit status of the packager and resulting tree on the simulated disk"])

prop("C16", "Secret-dependent timing: no branch or address depends on secrets",
 "Signing, key generation and key validation take the same control path, touch the same memory addresses and make the same library calls for all secret keys and all signing randomness, except for what the public outputs (signature, public key, result) and the number of rejected key candidates reveal.",
 ["inputs", "histories"],
 "all pairs of secret keys and signing randomness, under any entropy delivery and for any memory contents",
 "The valgrind-based constant-time tests are not part of the suite and fail at this commit; an output comparison cannot see a leak.",
 ["aes.c", "faest_aes.c", "fields.c", "vole.c", "vc.c", "universal_hashing.c", "utils.h", "compat.c", "faest_param.c.in"],
 [("masked arithmetic instead of branches", "utils.h, fields.h, fields.c"), ("comparison without early exit", "compat.c: faest_timingsafe_bcmp"), ("declassification annotations", "macros.h/utils.h: faest_declassify")],
 observe=["basic blocks, addresses, block operations and library calls of two simulated executions that differ in secrets only"])

prop("C17", "Signatures reveal nothing about the key and cannot be forged",
 "Without the secret key nobody can produce an accepted signature on a message the owner did not sign, and signatures leak no information about the secret key, under the scheme's cryptographic assumptions.",
 ["inputs", "programs"],
 "all adversaries",
 "A security reduction is not testable by examples.",
 ["faest.c", "faest_aes.c", "vole.c", "universal_hashing.c"],
 [("VOLE-in-the-head proof system", "faest.c, faest_aes.c, vole.c")])

prop("C18", "Field, S-box and universal-hash arithmetic equals its mathematical definition",
 "Multiplication, inversion, squaring and conversion in every field used, the S-box and its inverse, and the universal hash functions return the mathematically defined value for every operand.",
 ["inputs"],
 "all operands",
 "Tests compare with an independent library on random operands only.",
 ["fields.c", "fields.h", "universal_hashing.c", "aes.c"],
 [("shift-and-reduce multiplication, addition-chain inversion", "fields.c"), ("affine S-box", "aes.c: compute_sbox")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p, s)
    print("valid", len(P))
except ImportError:
    print("written", len(P))
