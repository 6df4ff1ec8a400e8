#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
T = {
 "C01": ("model-based random testing", "Keystream of every ChaCha variant after generated histories (key classes, nonces, seeks to counter edges, batch-boundary lengths) against an independent model, on four builds (auto-detected, portable, SSE2, AVX-512)."),
 "C02": ("model-based random testing", "Subkey functions and extended-nonce ciphers of all round counts against independent models, plus the composition relation between subkey function and underlying cipher."),
 "C03": ("model-based random testing", "Salsa20/8,12,20 keystream after generated histories, including raw states and counter carries, against an independent model."),
 "C04": ("model-based random testing", "Rabbit with and without IV against an independent model, with keys and IVs solved for counter words at carry edges; a few cases run megabytes into the stream."),
 "C05": ("model-based random testing", "HC-256 against an independent model through several table switches; a few cases run megabytes into the stream."),
 "C06": ("model-based random testing", "RC4 for all key lengths 1..=256 against an independent model; a few cases run megabytes into the stream."),
 "C07": ("differential testing between builds", "Block generation, RNG output and cipher histories on nine builds against the model (every forced backend, and run-time detection on CPUs that lack AVX-512, AVX2 or SSE2, by a stand-in for the detection crate), and the same generated cases compared output by output between the builds. NEON is compared under an interpreter by C22."),
 "C08": ("metamorphic testing", "One call against any partition of the message over any mix of entry points, for all ciphers, including position afterwards."),
 "C09": ("metamorphic testing", "Self-inverse, data independence, untouched input, independence of previous output content, for all ciphers."),
 "C10": ("stateful model-based testing", "Histories of seeks (all integer types), reads and position queries against a byte-position model."),
 "C11": ("stateful model-based testing", "Histories around the end of the keystream and invalid arguments: refusals, untouched data and state, correct service otherwise."),
 "C12": ("stateful model-based testing", "Interleavings of RNG read calls against a word-level model built on the ChaCha model; relation to the cipher; seeding; reads across words that occur once in 2^32."),
 "C13": ("stateful model-based testing", "Histories of reads, position and stream changes with queries after each, against exact arithmetic modulo 2^68."),
 "C14": ("round-trip and stateful testing", "Serialise/restore at any point of a history, any 49-byte image, equality of pairs with different histories."),
 "C15": ("metamorphic testing over interleavings", "Interleaved, moved, threaded and repeated histories of all public types against the same history run alone. Thread schedules are whatever the OS gives."),
 "C16": ("noninterference testing of memory", "Memory of dropped values (in place and freed heap memory) compared between runs that differ only in secrets and histories; one documented finding is listed in known-findings.txt."),
 "C17": ("noninterference testing", "Debug output, plain and pretty, compared between values with different secrets and histories."),
 "C18": ("random testing with memory guards", "Every call between guard pages and canaries on six builds; API histories with extreme arguments; the same under AddressSanitizer and, for the SSE2, AVX2 and detecting builds, under Miri."),
 "C19": ("random testing under taint tracking", "Generated histories with secrets marked undefined under valgrind memcheck, which reports branches and addresses depending on them; portable, SSE2 and AVX2 code (AVX-512 is beyond valgrind; data-dependent instruction timing is not seen)."),
 "C20": ("random testing against a specification of lengths", "Constructors with all lengths around the valid ones; single-bit flips of keys and nonces; equivalence of construction routes."),
 "C21": ("stateful model-based testing", "Sequences of block-level operations in one session or several against the byte-level model, with counter edges."),
 "C22": ("differential testing under an interpreter", "Generated histories interpreted by Miri for big-endian, 32-bit, ARM/NEON and x86 targets, compared with the native run and the model; Miri reports undefined behaviour."),
 "C23": ("configuration-matrix testing", "All 32 feature subsets of chacha20 under nine backend selections and five other targets compiled; harness built and its generated checks run for every subset and backend."),
}
checks = []
for p, (t, n) in T.items():
    checks.append(dict(property=p, quick_cmd=f"python3 check.py {p} --tier quick", thorough_cmd=f"python3 check.py {p} --tier thorough", technique="property-based testing: " + t, level="exploration",
        level_note=n + " Trusts the reference models (validated against published vectors at start-up), the compiler and the external crates; inputs that are not generated are not decided."))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=[],
    notes="No hooks: the harness uses only public interfaces of the crates. Replays: python3 check.py --replay FILE.")
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
