"""Which builds and how many cases decide each property."""


def cfg(features="full", profile="dev", rustflags="", **kw):
    return dict(features=features, profile=profile, rustflags=rustflags, **kw)


SOFT = '--cfg chacha20_backend="soft"'
SSE2 = '--cfg chacha20_backend="sse2"'
AVX2 = '--cfg chacha20_backend="avx2" -C target-feature=+avx2'
AVX512 = '--cfg chacha20_avx512'
AVX512F = '--cfg chacha20_backend="avx512" -C target-feature=+avx512f,+avx512vl'
C2, C5 = ["avx2"], ["avx512f", "avx512vl"]
MASK2 = "--cfg vh_mask_avx2 --cfg vh_mask_avx512"
ASAN = "-Zsanitizer=address"
HOST = "x86_64-unknown-linux-gnu"

# dev: overflow checks and debug assertions on, as in a user's debug build; rel: neither.
CONFIGS = {
    "auto-dev": cfg(),
    "auto-rel": cfg(profile="rel"),
    "soft-dev": cfg(rustflags=SOFT),
    "soft-rel": cfg(rustflags=SOFT, profile="rel"),
    "sse2-dev": cfg(rustflags=SSE2),
    "sse2-rel": cfg(rustflags=SSE2, profile="rel"),
    "avx2-dev": cfg(rustflags=AVX2, cpu=C2),
    "avx2-rel": cfg(rustflags=AVX2, profile="rel", cpu=C2),
    # with the cfg, detection at run time picks AVX-512 where the CPU has it
    "avx512-dev": cfg(rustflags=AVX512),
    "avx512-rel": cfg(rustflags=AVX512, profile="rel"),
    "avx512f-dev": cfg(rustflags=AVX512F, cpu=C5),
    "avx512f-rel": cfg(rustflags=AVX512F, profile="rel", cpu=C5),
    "z-dev": cfg("fullz"),
    "z-rel": cfg("fullz", profile="rel"),
    "z-soft-rel": cfg("fullz", profile="rel", rustflags=SOFT),
    "z-avx512-rel": cfg("fullz", profile="rel", rustflags=AVX512),
    "za-rel": cfg("full,cc_zeroize", profile="rel"),
    "zb-rel": cfg("full,others_zeroize", profile="rel"),
    "ct-dev": cfg(valgrind=True),
    "ct-rel": cfg(profile="rel", valgrind=True),
    "ct-soft-rel": cfg(rustflags=SOFT, profile="rel", valgrind=True),
    "ct-soft-dev": cfg(rustflags=SOFT, valgrind=True),
    "ct-sse2-rel": cfg(rustflags=SSE2, profile="rel", valgrind=True),
    # optimisations off: every branch of the source is a branch of the program
    "ct-dbg": cfg(valgrind=True, env={"CARGO_PROFILE_DEV_OPT_LEVEL": "0"}),
    "ct-soft-dbg": cfg(rustflags=SOFT, valgrind=True, env={"CARGO_PROFILE_DEV_OPT_LEVEL": "0"}),
    "ct-sse2-dbg": cfg(rustflags=SSE2, valgrind=True, env={"CARGO_PROFILE_DEV_OPT_LEVEL": "0"}),
    "ct-z-rel": cfg("fullz", profile="rel", valgrind=True),
    # run-time detection with features reported as absent (see shims/cpufeatures): the code which
    # older CPUs run, reached in the way they reach it
    "mask-sse2-dev": cfg(rustflags=MASK2, harness="harness-cpu"),
    "mask-soft-dev": cfg(rustflags=AVX512 + " " + MASK2 + " --cfg vh_mask_sse2", harness="harness-cpu"),
    "mask-avx2-dev": cfg(rustflags=AVX512 + " --cfg vh_mask_avx512", harness="harness-cpu"),
    # AddressSanitizer, with the crates under test instrumented too
    "asan-auto": cfg(rustflags=ASAN, nightly=True, target=HOST),
    "asan-soft": cfg(rustflags=ASAN + " " + SOFT, nightly=True, target=HOST),
    "asan-sse2": cfg(rustflags=ASAN + " " + SSE2, nightly=True, target=HOST),
    "asan-avx512": cfg(rustflags=ASAN + " " + AVX512, nightly=True, target=HOST),
}

MASKED = ["mask-sse2-dev", "mask-soft-dev", "mask-avx2-dev"]
ALLDEV = ["auto-dev", "soft-dev", "sse2-dev", "avx512-dev"]
# every backend, both build modes, and the zeroize feature
WIDE = ["auto-dev", "soft-dev", "sse2-dev", "avx512-dev", "auto-rel", "z-rel"]
ALLREL = ["auto-rel", "soft-rel", "sse2-rel", "avx2-rel", "avx512-rel", "avx512f-rel"]
ALL = ALLDEV + ALLREL + ["z-rel", "z-soft-rel", "z-avx512-rel"]


def on(cfgs, scale=1.0, checks=None):
    return [(c, checks, scale) for c in cfgs]


DIGESTED = ["c07_cipher", "c07_generator", "c07_rng", "c10_history", "c11_end", "c14_any_image", "c12_output", "c20_lengths", "c20_same"]

PLAN = {
    "C01": dict(
        quick=on(["auto-dev"], 40) + on(["soft-dev", "sse2-dev", "avx512-dev", "auto-rel", "z-rel"], 16),
        thorough=on(ALL, 0.5),
    ),
    "C02": dict(
        quick=on(["auto-dev", "soft-dev"], 20) + on(["sse2-dev", "avx512-dev", "auto-rel", "z-rel"], 8),
        thorough=on(ALL, 0.4),
    ),
    "C03": dict(quick=on(["auto-dev", "auto-rel", "z-rel"], 40), thorough=on(["auto-dev", "auto-rel", "z-dev", "z-rel"], 1)),
    "C04": dict(quick=on(["auto-dev", "auto-rel", "z-rel"], 20), thorough=on(["auto-dev", "auto-rel", "z-dev", "z-rel"], 1)),
    "C05": dict(quick=on(["auto-dev", "auto-rel", "z-rel"], 16), thorough=on(["auto-dev", "auto-rel", "z-dev", "z-rel"], 0.5)),
    "C06": dict(quick=on(["auto-dev", "auto-rel", "z-rel"], 12), thorough=on(["auto-dev", "auto-rel", "z-dev", "z-rel"], 1)),
    "C07": dict(
        quick=on(["auto-dev", "soft-dev", "sse2-dev", "avx512-dev", "avx2-rel", "avx512f-rel"] + MASKED, 16),
        thorough=on(ALLDEV + ALLREL + ["avx2-dev", "avx512f-dev"] + MASKED, 0.3),
        digest=[(["auto-dev", "soft-dev", "sse2-dev", "avx512-dev", "avx2-rel", "avx512f-rel"] + MASKED, DIGESTED, 0.5)],
    ),
    "C08": dict(quick=on(WIDE, 16), thorough=on(ALL, 0.4)),
    "C09": dict(quick=on(WIDE, 16), thorough=on(ALL, 0.4)),
    "C10": dict(quick=on(WIDE, 20), thorough=on(ALL, 0.4)),
    "C11": dict(quick=on(WIDE, 4), thorough=on(ALL, 0.4)),
    "C12": dict(quick=on(WIDE, 16), thorough=on(ALL, 0.4)),
    "C13": dict(quick=on(WIDE, 20), thorough=on(ALL, 0.4)),
    "C14": dict(quick=on(WIDE, 16), thorough=on(ALL, 0.4)),
    "C15": dict(quick=on(WIDE, 7), thorough=on(ALL, 0.5)),
    "C16": dict(
        quick=on(["z-dev", "z-rel", "za-rel", "zb-rel"], 2),
        thorough=on(["z-dev", "z-rel", "z-soft-rel", "z-avx512-rel", "za-rel", "zb-rel"], 1),
    ),
    "C17": dict(quick=on(["auto-dev", "z-dev", "auto-rel"], 45), thorough=on(["auto-dev", "z-dev", "auto-rel", "z-rel"], 1)),
    "C18": dict(
        quick=on(WIDE, 2) + on(["asan-auto", "asan-sse2", "asan-avx512"], 1) + on(["asan-auto", "asan-sse2", "asan-avx512"], 0.2, ["c22_any", "c13_account"]),
        miri=[("x86_64-avx2", 0.3), ("x86_64-sse2", 0.3), ("x86_64-auto", 0.2)],
        miri_thorough=[("x86_64-avx2", 1), ("x86_64-sse2", 1), ("x86_64-auto", 1)],
        miri_checks=["c22_any", "c18_calls"],
        thorough=on(["auto-dev", "soft-dev", "sse2-dev", "avx512-dev", "auto-rel", "avx512f-rel"], 0.05)
        + on(["asan-auto", "asan-soft", "asan-sse2", "asan-avx512"], 0.02)
        + on(["asan-auto", "asan-soft", "asan-sse2", "asan-avx512"], 0.05, ["c10_history", "c11_end", "c13_account", "c14_any_image", "c08_chunks", "c21_history", "c15_interleaved"]),
    ),
    "C19": dict(
        quick=on(["ct-dev", "ct-rel", "ct-soft-rel", "ct-sse2-rel"], 75) + on(["ct-dbg", "ct-soft-dbg"], 1),
        thorough=on(["ct-dev", "ct-rel", "ct-soft-rel", "ct-soft-dev", "ct-sse2-rel", "ct-z-rel"], 20) + on(["ct-dbg", "ct-soft-dbg", "ct-sse2-dbg"], 1),
    ),
    "C20": dict(quick=on(WIDE, 14), thorough=on(ALL, 0.4)),
    "C21": dict(quick=on(WIDE, 20), thorough=on(ALL, 0.4)),
    "C22": dict(
        miri_hc=True,
        miri=[("s390x", 0.75), ("powerpc", 0.75), ("aarch64", 0.75), ("i686-sse2", 0.75), ("x86_64-avx2", 0.75),
              ("x86_64-cpu-avx", 0.25), ("x86_64-cpu-avx512f", 0.25), ("x86_64-cpu-avx512vl", 0.4)],
        miri_thorough=[("s390x", 1), ("powerpc", 1), ("aarch64", 1), ("i686-sse2", 1), ("i686-auto", 1), ("x86_64-auto", 1), ("x86_64-sse2", 1), ("x86_64-avx2", 1), ("x86_64-cpu-avx", 0.3), ("x86_64-cpu-avx512f", 0.3), ("x86_64-cpu-avx512vl", 1)],
        quick=on(["auto-dev"], 2),
        thorough=on(["auto-dev", "soft-dev"], 1),
    ),
    "C23": dict(kind="matrix"),
}

MIRI_TARGETS = {
    "s390x": dict(target="s390x-unknown-linux-gnu"),
    "powerpc": dict(target="powerpc-unknown-linux-gnu"),
    "aarch64": dict(target="aarch64-unknown-linux-gnu"),
    "i686-auto": dict(target="i686-unknown-linux-gnu"),
    "i686-sse2": dict(target="i686-unknown-linux-gnu", rustflags=SSE2),
    "x86_64-auto": dict(target=HOST),
    "x86_64-sse2": dict(target=HOST, rustflags=SSE2),
    "x86_64-avx2": dict(target=HOST, rustflags=AVX2),
    # run-time detection on CPUs which have only part of what a backend needs: the interpreter takes the
    # static features for the CPU's, and reports a call of a function which needs others
    "x86_64-cpu-avx": dict(target=HOST, rustflags="-C target-feature=+avx", harness="harness-cpu"),
    "x86_64-cpu-avx512f": dict(target=HOST, rustflags="--cfg chacha20_avx512 -C target-feature=+avx512f", harness="harness-cpu"),
    "x86_64-cpu-avx512vl": dict(target=HOST, rustflags="--cfg chacha20_avx512 -C target-feature=+avx512f,+avx512vl", harness="harness-cpu"),
}

_HOW = "each case draws all its decisions (types, keys, nonces, positions, lengths, histories) from a recorded list of integers seeded by VERIF_SEED; "
_D = "; distinct = different recorded lists, over all builds (each build explores its own cases)"
RULES = {k: _HOW + "non-trivial: " + v + _D for k, v in {
    "C01": "at least one keystream byte compared with the model (c01_big: more than 1000)",
    "C02": "at least one keystream byte or a derived subkey compared with the model",
    "C03": "at least one keystream byte compared with the model",
    "C04": "at least one keystream byte compared with the model (by one stream, by key and IV applied separately, or far into a long stream)",
    "C05": "at least one keystream byte compared with the model",
    "C06": "at least one keystream byte compared with the model, or a key length tried",
    "C07": "at least one block or RNG word compared with the model (RNG histories: with both reads and position changes); the comparisons between builds are counted in evaluations and in histories_compared_between_builds, not as distinct cases",
    "C08": "more than one byte processed in more than one piece (c08_split: both pieces not empty)",
    "C09": "at least one byte processed and at least one data byte not zero",
    "C10": "at least one successful seek and at least one byte read or written (c10_routes: the second route advances, and the keystream compared is not empty)",
    "C11": "at least one request or seek refused, or the last 64 bytes of keystream reached (c11_mismatch: buffers of different lengths)",
    "C12": "output was consumed and compared with the model (c12_seeding: always)",
    "C13": "at least one read and at least one change of position or stream",
    "C14": "a state away from position 0 was serialised and restored (roundtrip); any 49-byte image restored; two states compared that differ or are away from position 0 (equality)",
    "C15": "at least one switch between instances (threads: at least two threads did work)",
    "C16": "two different keys and at least one operation before the drop (markers: always)",
    "C17": "a key that is not all zero and at least one operation before formatting",
    "C18": "at least one byte processed between guard pages (c18_calls: always - a history of calls with arguments near their limits)",
    "C19": "secret bytes marked undefined went through at least one operation",
    "C20": "always - a constructor was called with generated lengths, or one key or nonce bit flipped, or two ways of construction compared",
    "C21": "at least one block produced through the core interface",
    "C22": "at least one output observed on the interpreted target and compared with the native run of the same case, or with the model",
    "C23": "a feature, backend, profile and target combination compiled, or a case of another property's check, non-trivial by that check's rule, run in a harness built for that combination",
}.items()}

ASSUMPTIONS = [
    "the reference models in harness/src/refs.rs, which were written from the published specifications and pass their published vectors at start-up",
    "the compiler, valgrind, Miri and the dependencies outside the repository (cipher, rand_core, block-buffer, zeroize) behave as documented",
    "exploration: inputs outside the generated ones are not decided",
]
