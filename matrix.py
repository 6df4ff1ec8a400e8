"""C23: every feature and backend combination builds, and what it exposes computes right results.

A case is a configuration: a set of crate features, a backend selection, a build profile and a
target. Its oracle is the compiler for all of them, and for those that can run here also the
generated checks of the other properties (against the reference models) in a harness built for
exactly that configuration.
"""
import concurrent.futures as cf
import itertools, os, re, subprocess

REPO = "/repo"
CC = ["cipher", "legacy", "rng", "xchacha", "zeroize"]
SOFT, SSE2 = '--cfg chacha20_backend="soft"', '--cfg chacha20_backend="sse2"'
BACKENDS = {
    "auto": "",
    "soft": SOFT,
    "sse2": SSE2,
    "avx2": '--cfg chacha20_backend="avx2" -C target-feature=+avx2',
    "avx512cfg": "--cfg chacha20_avx512",
    "avx512": '--cfg chacha20_backend="avx512" -C target-feature=+avx512f,+avx512vl',
    "avx512both": '--cfg chacha20_avx512 --cfg chacha20_backend="avx512" -C target-feature=+avx512f,+avx512vl',
    # CPU features the compiler may assume change which code the detection compiles to
    "auto+avx2": "-C target-feature=+avx2",
    "avx512cfg+avx512": "--cfg chacha20_avx512 -C target-feature=+avx512f,+avx512vl",
}
CPUNEEDS = {"avx2": ["avx2"], "auto+avx2": ["avx2"], "avx512": ["avx512f", "avx512vl"], "avx512both": ["avx512f", "avx512vl"], "avx512cfg+avx512": ["avx512f", "avx512vl"]}
CROSS = {
    "aarch64-unknown-linux-gnu": ["auto", "soft"],
    "i686-unknown-linux-gnu": ["auto", "soft", "sse2", "avx2"],
    "s390x-unknown-linux-gnu": ["auto", "soft"],
    "powerpc-unknown-linux-gnu": ["auto"],
    "thumbv7em-none-eabi": ["auto", "soft"],
    # x86 and 64-bit ARM without the vector units which the backends use
    "i586-unknown-linux-gnu": ["auto", "soft"],
    "aarch64-unknown-none-softfloat": ["auto"],
}
OTHERS = ["salsa20", "hc-256", "rabbit", "rc4"]
# what the harness can be built with (a feature that implies another is listed without it too)
SUBSETS = ["rng", "rng,zeroize"] + [
    ",".join(["cipher"] + [x for x, on in zip(("legacy", "rng", "xchacha", "zeroize"), bits) if on])
    for bits in itertools.product((0, 1), repeat=4)
]
CRATES = "chacha20|salsa20|hc-256|rabbit|rc4"
# properties whose checks run in every built configuration: those with a model-based oracle
PROPS = "C01,C02,C03,C04,C05,C06,C07,C08,C09,C10,C11,C12,C13,C14,C15,C17,C18,C20,C21,C22"


def hname(sub, backend, profile):
    return "m-" + sub.replace(",", "_") + "-" + backend + "-" + profile


def hconfig(sub, backend, profile, extra=""):
    f = ",".join("cc_" + x for x in sub.split(",")) + extra
    return dict(features=f, profile=profile, rustflags=BACKENDS[backend], cpu=CPUNEEDS.get(backend, []), shards=1)


MATRIX_CONFIGS = {hname(s, b, p): hconfig(s, b, p) for s in SUBSETS for b in BACKENDS for p in ("dev", "rel")}
MATRIX_CONFIGS.update({hname("all", b, p): hconfig(",".join(CC), b, p, ",others,others_zeroize") for b in BACKENDS for p in ("dev", "rel")})
MATRIX_CONFIGS["m-others-dev"] = dict(features="others", profile="dev", rustflags="", shards=1)
MATRIX_CONFIGS["m-others_zeroize-rel"] = dict(features="others_zeroize", profile="rel", rustflags="", shards=1)


def crate_cmd(verb, crate, feats, tdir, target=None, nightly=False, release=False):
    c = ["cargo"] + (["+nightly"] if nightly else []) + [verb, "-q", "--offline", "--locked", "--lib", "-j", "1", "--manifest-path", f"{REPO}/{crate}/Cargo.toml", "--target-dir", str(tdir), "--no-default-features"]
    if feats:
        c += ["--features", ",".join(feats)]
    if target:
        c += ["--target", target]
    if release:
        c.append("--release")
    return c


def judge(ck, rc, err, what):
    """None = compiled; text = the crate is at fault; raises otherwise."""
    if rc == 0:
        return None
    if rc is not None and "signal: 9" not in err and (re.search(rf"could not compile `({CRATES})`", err) or re.search(rf"package `?({CRATES})\b.*(does not contain|feature)", err) or "does not contain this feature" in err or "does not have feature" in err):
        return err
    raise ck.HarnessError(f"{what}: cargo ended with {rc}\n{err[-3000:]}")


def flags(backend, sysroot=None):
    return ((f"--sysroot {sysroot} " if sysroot else "") + BACKENDS[backend] + " -Awarnings").strip()


def compile_groups(ck, thorough):
    """Groups sharing a target directory; within a group the crate is compiled serially."""
    groups = []
    subsets = [[f for f, b in zip(CC, bits) if b] for bits in itertools.product((0, 1), repeat=5)]
    for b in BACKENDS:
        for rel in ([False, True] if thorough else [False]):
            groups.append(dict(name=f"x-{b}" + ("-rel" if rel else ""), verb="build", backend=b, rel=rel, items=[("chacha20", s) for s in subsets]))
    groups.append(dict(name="x-others", verb="build", backend="auto", rel=False, items=[(c, s) for c in OTHERS for s in ([], ["zeroize"])]))
    groups.append(dict(name="x-others-rel", verb="build", backend="auto", rel=True, items=[(c, s) for c in OTHERS for s in ([], ["zeroize"])]))
    some = [[], ["cipher"], ["rng"], ["legacy"], ["xchacha"], ["cipher", "rng"], ["rng", "zeroize"], ["cipher", "zeroize"], CC]
    for t, bs in CROSS.items():
        for b in bs:
            groups.append(dict(name=f"x-{t}-{b}", verb="check", backend=b, rel=False, target=t, items=[("chacha20", s) for s in (subsets if thorough else some)] + ([(c, s) for c in OTHERS for s in ([], ["zeroize"])] if b == "auto" else [])))
    return groups


def run_group(ck, out, g, sysroot):
    tdir = ck.BUILD / g["name"]
    ck.fresh(tdir)
    t = g.get("target")
    n = 0
    for crate, feats in g["items"]:
        e = dict(RUSTFLAGS=flags(g["backend"], sysroot if t else None))
        cmd = crate_cmd(g["verb"], crate, feats, tdir, t, bool(t), g["rel"])
        rc, o, err = ck.run(cmd, 300, ck.env(**e))
        bad = judge(ck, rc, err, f"{g['name']} {crate} {feats}")
        n += 1
        with out.lock:
            out.evals += 1
            out.nontrivial += 1
            out.hashes.add(ck.fnv(f"{g['name']}/{crate}/{','.join(feats)}"))
            p = out.per.setdefault("compiled: " + g["name"], {}).setdefault(crate, {"evaluations": 0, "nontrivial": 0})
            p["evaluations"] += 1
            p["nontrivial"] += 1
            if n == 3:
                out.samples.append(f"compile {crate} with features [{','.join(feats)}], backend {g['backend']}, target {t or 'host'}: ok" if not bad else f"compile {crate} [{','.join(feats)}]: failed")
        if bad:
            m = re.search(r"^error.*\n(?:.*\n){0,3}", bad, re.M)
            with out.lock:
                out.violations.append(dict(config=g["name"], check="compiles", sig="does not compile: " + crate, msg=f"{crate} with features [{','.join(feats)}], backend {g['backend']}, target {t or 'host'}: " + (m[0] if m else bad[:500]), desc=" ".join(cmd), choices=[], command=cmd, env=e, cross=t))
            return


def run_harness(ck, out, cfg, scale, tmp, props=None):
    """All checks of one configuration in one process each, at a small scale."""
    rc, o, _ = ck.run([str(ck.binary(cfg)), "list"], 60)
    names = [l.split()[1] for l in o.splitlines() if l.split()[0] in (props or PROPS).split(",") and not l.split()[1].endswith(("_long", "_huge", "_big"))]
    seen = set()
    for n in names:
        if n in seen:
            continue
        seen.add(n)
        sc = scale * (0.1 if n in ("c18_bounds", "c15_threads", "c06_stream", "c06_keylen", "c05_stream", "c11_end") else 1)
        ck.shard_run(out, cfg, n, sc, 0, 1, tmp)


def matrix(out, ck, tmp):
    th = out.tier == "thorough"
    ck.CONFIGS.update(MATRIX_CONFIGS)
    # 1. the interpreter's standard libraries serve as sysroots for cargo check on other targets
    sysroot = ck.BUILD / "miri-cache" / "miri"
    if not th:
        hc = [hname(s, "auto", "dev" if i % 2 == 0 else "rel") for i, s in enumerate(SUBSETS)]
        for b in BACKENDS:
            if b in ("avx512both", "auto+avx2", "avx512cfg+avx512"):
                hc += [hname("all", b, "rel" if b == "avx512both" else "dev")]
            elif b != "auto":
                hc += [hname("all", b, "dev" if b in ("soft", "avx2", "avx512cfg+avx512") else "rel"), hname("rng", b, "rel" if b in ("soft", "avx2", "avx512") else "dev")]
        hc += ["m-others-dev", "m-others_zeroize-rel"]
    else:
        hc = list(MATRIX_CONFIGS)
    hc = list(dict.fromkeys(hc))
    skipped = [c for c in hc if not ck.usable(c)]
    if skipped:
        out.notes.append("compiled but not run on this CPU: " + ", ".join(skipped))
    hc = [c for c in hc if c not in skipped]

    def guarded(f, *a):
        try:
            return f(*a)
        except ck.HarnessError as e:
            with out.lock:
                out.errors.append(str(e))

    def harness(cfg):
        e = ck.build(cfg, 1)
        if e:
            # the crate, or only the harness? The harness builds on the full feature set.
            crate_fault = re.search(rf"could not compile `({CRATES})`", e)
            with out.lock:
                out.extra.setdefault("harness_builds_failed", []).append(cfg)
                failed[cfg] = (e, crate_fault[1] if crate_fault else None)
            return
        run_harness(ck, out, cfg, 1.0 if th else 0.05, tmp)
        # keep the disk small: only the binary is needed from here on
        subprocess.run(["find", str(ck.BUILD / cfg), "-mindepth", "2", "-maxdepth", "2", "-type", "d", "-exec", "rm", "-rf", "{}", "+"])

    failed = {}
    groups = compile_groups(ck, th)
    ck.log(f"{sum(len(g['items']) for g in groups)} compilations in {len(groups)} groups, {len(hc)} harness configurations")
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        pre = [ex.submit(guarded, ck.miri_sysroots, [t]) for t in CROSS]
        fs = [ex.submit(guarded, harness, c) for c in hc]
        fs += [ex.submit(guarded, run_group, ck, out, g, sysroot) for g in groups if not g.get("target")]
        for f in pre:
            f.result()
        if not out.errors:
            fs += [ex.submit(guarded, run_group, ck, out, g, sysroot) for g in groups if g.get("target")]
        for f in fs:
            f.result()
    if failed:
        # Does the harness build with everything enabled? Then a subset lacks what it should have.
        e = ck.build("auto-dev", os.cpu_count() or 4)
        for cfg, (err, crate_fault) in sorted(failed.items()):
            if crate_fault or not e:
                c = MATRIX_CONFIGS[cfg]
                m = re.search(r"^error.*\n(?:.*\n){0,3}", err, re.M)
                cmd = ["cargo", "build", "-q", "--offline", "--manifest-path", str(ck.HARNESS / "Cargo.toml"), "--target-dir", str(ck.BUILD / cfg), "--features", c["features"]] + (["--release"] if c["profile"] == "rel" else [])
                out.violations.append(dict(config=cfg, check="harness_builds", sig="a configuration does not offer what others do" if not crate_fault else "does not compile: " + crate_fault, msg=f"features [{c['features']}] flags [{c['rustflags']}]: " + (m[0] if m else err[-500:]), desc=" ".join(cmd), choices=[], command=cmd, env=dict(RUSTFLAGS=(c["rustflags"] + " -Awarnings").strip())))
            else:
                out.errors.append(err)
    out.extra["harness_configurations_run"] = len(hc) - len(failed)
    ck.log("explored")


def replay_command(v):
    import check as ck

    e = v["env"]
    if v.get("cross"):
        ck.miri_sysroots([v["cross"]])
    rc, o, err = ck.run(v["command"], 800, ck.env(**e))
    print(" ".join(f"{k}='{x}'" for k, x in e.items()), " ".join(v["command"]))
    print(o + err[-4000:])
    print("replay:", "pass" if rc == 0 else "fail")
    if rc == 0:
        return 0
    print(f"VIOLATION property={v['property']} replay=(as given)")
    return 1
