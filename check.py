#!/usr/bin/env python3
"""Runs the generated checks of one property against /repo's working tree.

  check.py C01 [--tier quick|thorough] [--seed N]   decide a property (exit 0, 1 or 3)
  check.py --replay FILE                            run one recorded case again
  check.py --setup                                  build the harness once (nothing depends on it)

Exit 0: held on everything explored. Exit 1 with a line `VIOLATION property=<id> replay=<path>`:
broken. Anything else (3) is an error of the check itself: a harness that does not build, a
process that ran out of time or memory.
"""
import concurrent.futures as cf
import functools
import hashlib, json, os, pathlib, re, shutil, signal, subprocess, sys, tempfile, threading, time

V = pathlib.Path(__file__).resolve().parent
REPO = pathlib.Path("/repo")
BUILD = V / "build"
HARNESS = V / "harness"
NCPU = os.cpu_count() or 4
T0 = time.time()
sys.path.insert(0, str(V))
from plan import CONFIGS, PLAN, RULES, MIRI_TARGETS, ASSUMPTIONS  # noqa: E402


class HarnessError(Exception):
    pass


def log(*a):
    print(f"[{time.time() - T0:6.1f}s] " + " ".join(map(str, a)) + "\n", end="", flush=True)


BASE_ENV = {
    k: v
    for k, v in os.environ.items()
    if k not in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "MIRIFLAGS", "RUSTUP_TOOLCHAIN", "CARGO_BUILD_TARGET", "VH_PANIC")
}
BASE_ENV["PATH"] = "/root/.cargo/bin:" + BASE_ENV.get("PATH", "/usr/local/bin:/usr/bin:/bin")
BASE_ENV.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", HOME=BASE_ENV.get("HOME", "/root"))


def env(**kw):
    e = dict(BASE_ENV)
    e.update(kw)
    return e


def run(cmd, timeout, env_=None, cwd=None):
    """Returns (returncode or None on timeout, stdout, stderr)."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env_ or env(), cwd=cwd, text=True, errors="replace", start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return None, o, e


# ---------------------------------------------------------------- building

def cpu_flags():
    try:
        return set(re.search(r"^flags\s*:(.*)$", pathlib.Path("/proc/cpuinfo").read_text(), re.M).group(1).split())
    except Exception:
        return set()


CPU = cpu_flags()


def usable(name):
    return all(f in CPU for f in CONFIGS[name].get("cpu", ()))


def binary(name):
    c = CONFIGS[name]
    d = BUILD / name
    if c.get("target"):
        d = d / c["target"]
    return d / ("release" if c["profile"] == "rel" else "debug") / "vh"


@functools.lru_cache
def source_hash():
    h = hashlib.sha256(b"2")
    for d, ds, fs in os.walk("/repo"):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".lock", ".md")):
                h.update(f"{d}/{f}\0".encode() + (pathlib.Path(d) / f).read_bytes())
    return h.hexdigest()


def fresh(tdir):
    """cargo goes by file times, which a copied or swapped /repo need not move forward: forget what
    was built from other sources."""
    tdir = pathlib.Path(tdir)
    stamp = tdir / ".repo-hash"
    if tdir.exists() and (not stamp.exists() or stamp.read_text() != source_hash()):
        ours = ("chacha20", "salsa20", "hc-256", "rabbit", "rc4", "vh")
        for d, ds, _ in os.walk(tdir):
            p = pathlib.Path(d)
            if p.name == ".fingerprint":  # stable cargo's layout
                gone = [p / x for x in ds if x.rsplit("-", 1)[0] in ours]
                ds[:] = []
            elif p.name == "build":  # the layout of newer cargos: build/<package>/<hash>/fingerprint
                gone = [p / x for x in ds if x in ours]
                ds[:] = []
            else:
                gone = []
                ds[:] = [x for x in ds if x not in ("deps", "incremental", "examples")]
            for x in gone:
                shutil.rmtree(x, ignore_errors=True)
    tdir.mkdir(parents=True, exist_ok=True)
    stamp.write_text(source_hash())


def build_cmd(name, jobs):
    c = CONFIGS[name]
    cmd = ["cargo"] + (["+nightly"] if c.get("nightly") else []) + ["build", "--offline", "-q", "-j", str(jobs), "--manifest-path", str(V / c.get("harness", "harness") / "Cargo.toml"), "--target-dir", str(BUILD / name)]
    if c["profile"] == "rel":
        cmd.append("--release")
    if c["features"]:
        cmd += ["--features", c["features"]]
    if c.get("target"):
        cmd += ["--target", c["target"]]
    return cmd, dict(RUSTFLAGS=(c.get("rustflags", "") + " -Awarnings").strip(), **c.get("env", {}))


def build(name, jobs):
    fresh(BUILD / name)
    cmd, e = build_cmd(name, jobs)
    rc, o, e = run(cmd, 800, env(**e))
    if rc != 0:
        return f"building configuration {name} failed ({rc}):\n{e[-6000:]}"
    return None


def build_all(names):
    names = list(dict.fromkeys(names))
    jobs = max(1, NCPU // max(1, len(names)))
    log(f"building {len(names)} configuration(s): {' '.join(names)}")
    with cf.ThreadPoolExecutor(NCPU) as ex:
        res = dict(zip(names, ex.map(lambda n: build(n, jobs), names)))
    log("built")
    return res


# ---------------------------------------------------------------- known findings

def known_findings():
    """Lines `known: property=ID config=NAME signature="..." text`."""
    out = []
    for l in (V / "known-findings.txt").read_text().splitlines():
        m = re.match(r'known: property=(\S+) config=(\S+) signature="([^"]*)" (.*)', l)
        if m:
            out.append(dict(property=m[1], config=m[2], sig=m[3], what=m[4]))
    return out


# ---------------------------------------------------------------- results

class Outcome:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.lock = threading.Lock()
        self.evals = 0
        self.nontrivial = 0
        self.distinct_sum = 0
        self.hashes = set()
        self.hash_overflow = False
        self.labels = {}
        self.samples = []
        self.per = {}
        self.violations = []
        self.known = {}
        self.errors = []
        self.notes = []
        self.extra = {}

    def add(self, cfg, d, hashes=()):
        with self.lock:
            self.evals += d["evaluations"]
            self.nontrivial += d["nontrivial"]
            self.distinct_sum += d["distinct"]
            if len(self.hashes) < 6_000_000:
                self.hashes.update(hashes)
            else:
                self.hash_overflow = True
            lab = self.labels.setdefault(d["check"], {})
            for k, v in d["labels"].items():
                lab[k] = lab.get(k, 0) + v
            p = self.per.setdefault(cfg, {}).setdefault(d["check"], {"evaluations": 0, "nontrivial": 0})
            p["evaluations"] += d["evaluations"]
            p["nontrivial"] += d["nontrivial"]
            have = sum(1 for s in self.samples if d["check"] in s)
            for s in d["samples"][: max(0, 3 - have)]:
                if d["evaluations"]:
                    self.samples.append(f"[{cfg}] {s}")
            for k in d["known"]:
                e = self.known.setdefault((cfg, k["sig"]), [0, k["msg"]])
                e[0] += k["count"]
            if d["violation"]:
                self.violations.append(dict(config=cfg, **d["violation"]))

    def distinct(self):
        # the union over all processes; a lower bound when there are too many to keep
        return min(len(self.hashes), self.nontrivial)


# ---------------------------------------------------------------- running native checks

SIGNALS = {-signal.SIGSEGV: "SIGSEGV", -signal.SIGBUS: "SIGBUS", -signal.SIGILL: "SIGILL", -signal.SIGFPE: "SIGFPE", -signal.SIGABRT: "SIGABRT", -signal.SIGTRAP: "SIGTRAP"}


def crash_kind(rc, err):
    if "AddressSanitizer" in err or "MemorySanitizer" in err or "ThreadSanitizer" in err:
        m = re.search(r"Sanitizer: ([\w-]+)", err)
        return "sanitizer: " + (m[1] if m else "?")
    if rc in SIGNALS and "memory allocation of" not in err and "HARNESS" not in err:
        return SIGNALS[rc]
    return None


def fnv(s):
    h = 0xCBF29CE484222325
    for b in s.encode():
        h = ((h ^ b) * 0x100000001B3) & (2**64 - 1)
    return h


def wrap(cfg, cmd):
    if CONFIGS[cfg].get("valgrind"):
        return ["valgrind", "-q", "--error-limit=no", "--undef-value-errors=yes", "--track-origins=no"] + cmd
    return cmd


def cfg_seed(out, cfg):
    """Every build explores other cases; only the comparisons between builds share them."""
    return out.seed if cfg is None else (out.seed * 1_000_003 + fnv(cfg) % 1_000_000) % (2**63)


def base_args(out, cfg=None, tier_args=True):
    a = ["--seed", str(cfg_seed(out, cfg))]
    if out.tier == "thorough" and tier_args:
        a.append("--thorough")
    return a


def shard_run(out, cfg, check, scale, shard, shards, tmp, extra=(), timeout=None):
    j = tmp / f"j-{cfg}-{check}-{shard}"
    h = tmp / f"h-{cfg}-{check}-{shard}"
    kn = [k["sig"] for k in known_findings() if k["property"] == out.prop and k["config"] == cfg]
    cmd = [str(binary(cfg)), "run", "--check", check, "--shard", str(shard), "--shards", str(shards), "--scale", repr(scale), "--journal", str(j), "--hashes", str(h)] + base_args(out, cfg) + list(extra)
    if kn:
        cmd += ["--known", ",".join(kn)]
    rc, o, e = run(wrap(cfg, cmd), timeout or (840 if out.tier == "quick" else 7200), env(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=0"))
    got = 0
    for l in o.splitlines():
        if l.startswith("RESULT "):
            d = json.loads(l[7:])
            hs = []
            if h.exists() and not d["violation"]:
                b = h.read_bytes()
                hs = [int.from_bytes(b[i : i + 8], "little") for i in range(0, len(b), 8)] if len(b) < 40_000_000 else []
            out.add(cfg, d, hs)
            got += 1
    if h.exists():
        h.unlink()
    if rc == 0 and got:
        return
    kind = crash_kind(rc if rc is not None else 0, e)
    if kind and j.exists():
        b = j.read_bytes()
        case = int.from_bytes(b[8:16], "little")
        v = crash_case(out, cfg, check, case, kind, tmp)
        if v:
            with out.lock:
                out.violations.append(v)
                out.evals += case // shards + 1
            return
    if rc is None:
        raise HarnessError(f"{cfg}/{check} shard {shard}: out of time")
    raise HarnessError(f"{cfg}/{check} shard {shard}: exit {rc}, {got} results\n{e[-3000:]}")


def one(cfg, check, choices, thorough, sub="replay", timeout=60, small=False):
    """Runs recorded choices; returns (verdict, text): 'pass', ('fail', sig), ('crash', kind) or 'error'."""
    cmd = [str(binary(cfg)), sub, "--check", check, "--choices", "-", "--list", ",".join(map(str, choices)) or " ", "--no-self-test"]
    if thorough:
        cmd.append("--thorough")
    if small:
        cmd.append("--small")
    rc, o, e = run(wrap(cfg, cmd), timeout, env(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0"))
    if rc == 0 and "\nPASS" in o:
        return "pass", o
    if rc == 1 and "\nFAIL sig=" in o:
        return "fail", o
    k = crash_kind(rc if rc is not None else 0, e)
    if k:
        return "crash " + k, o + e
    return "error", o + e


def crash_case(out, cfg, check, case, kind, tmp):
    """A case ended the process: find its choices, shrink them, confirm."""
    tr = tmp / f"trace-{cfg}-{check}-{case}"
    cmd = [str(binary(cfg)), "case", "--check", check, "--case", str(case), "--trace", str(tr), "--no-self-test"] + base_args(out, cfg)
    rc, o, e = run(wrap(cfg, cmd), 300, env(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0"))
    k2 = crash_kind(rc if rc is not None else 0, e)
    if not k2:
        return None
    choices = [int(x) for x in tr.read_text().split()]
    th = out.tier == "thorough"
    want = "crash " + k2
    if one(cfg, check, choices, th)[0] != want:
        return dict(config=cfg, check=check, sig="crash " + k2, msg=f"process ended by {k2}", desc=f"case {case}", choices=choices, original_choices=len(choices), case=case)
    choices = shrink(choices, lambda c: one(cfg, check, c, th, timeout=20)[0] == want, 250, 60)
    text = one(cfg, check, choices, th)[1]
    return dict(config=cfg, check=check, sig="crash " + k2, msg=f"process ended by {k2}" + ("" if "anitizer" not in text else ": " + "\n".join(re.findall(r".*(?:ERROR: |READ of|WRITE of|#[0-4] ).*", text))[:800]), desc=describe(cfg, check, choices, th), choices=choices, original_choices=len(choices), case=case)


def describe(cfg, check, choices, th):
    return f"choices {choices[:60]}"


def shrink(best, fails, budget, seconds):
    """Delete spans, then lower values, while the failure remains."""
    t = time.time()
    left = [budget]

    def attempt(c):
        if left[0] <= 0 or time.time() - t > seconds:
            return False
        left[0] -= 1
        return fails(c)

    k = max(1, len(best) // 2)
    while k >= 1:
        i = len(best) - k
        while i >= 0:
            c = best[:i] + best[i + k :]
            if attempt(c):
                best = c
            i -= k
        k //= 2
    for i in range(len(best)):
        for v in (0, 1, best[i] // 2):
            if v < best[i]:
                c = best[:i] + [v] + best[i + 1 :]
                if attempt(c):
                    best = c
                    break
    return best


def native_jobs(out, plan):
    """plan: list of (config, checks or None, scale)."""
    res = build_all([c for c, _, _ in plan])
    bad = [e for e in res.values() if e]
    for c in [c for c, e in res.items() if e and out.prop == "C15"]:
        # the compiler's judgement that a value cannot move to another thread
        m = re.search(r"^error\[E0277\]: .* cannot be sent between threads safely\n(?:.*\n){0,12}", res[c], re.M)
        if m:
            cmd, e = build_cmd(c, NCPU)
            out.violations.append(dict(config=c, check="threads", sig="a value cannot move to another thread", msg=m[0], desc=" ".join(cmd), choices=[], command=cmd, env=e))
            bad.remove(res[c])
    plan = [p for p in plan if not res[p[0]]]
    if bad:
        raise HarnessError("\n".join(bad))
    jobs = []
    for cfg, checks, scale in plan:
        rc, o, _ = run([str(binary(cfg)), "list"], 60)
        avail = {}
        for l in o.splitlines():
            f = l.split()
            avail.setdefault(f[0], []).append(f[1])
        names = checks if checks is not None else avail.get(out.prop, [])
        allnames = [n for v in avail.values() for n in v]
        for n in names:
            if n not in allnames:
                raise HarnessError(f"{cfg} has no check {n}")
            shards = CONFIGS[cfg].get("shards", NCPU)
            for s in range(shards):
                jobs.append((cfg, n, scale, s, shards))
    # the longest single cases first
    jobs.sort(key=lambda j: not j[1].endswith("_huge"))
    return jobs


def run_jobs(out, jobs, tmp):
    log(f"{len(jobs)} processes")
    errs = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        fs = [ex.submit(shard_run, out, c, n, sc, s, ns, tmp) for c, n, sc, s, ns in jobs]
        for f in cf.as_completed(fs):
            try:
                f.result()
            except HarnessError as e:
                errs.append(str(e))
    out.errors += errs
    log("explored")


# ---------------------------------------------------------------- digests (C07)

def digest_compare(out, cfgs, checks, scale, tmp):
    """The same generated histories in every build: outputs must agree case by case."""

    def one_run(cfg):
        f = tmp / f"digest-{cfg}"
        cmd = [str(binary(cfg)), "run", "--check", ",".join(checks), "--scale", repr(scale), "--digests", str(f)] + base_args(out)
        rc, o, e = run(cmd, 840 if out.tier == "quick" else 7200)
        if rc != 0 or not f.exists():
            k = crash_kind(rc if rc is not None else 0, e)
            if k:
                return None  # reported by the ordinary run of the same checks
            raise HarnessError(f"digests of {cfg}: exit {rc}\n{e[-2000:]}")
        d = {}
        for l in f.read_text().splitlines():
            n, i, x = l.split()
            d[(n, int(i))] = x
        f.unlink()
        return d

    with cf.ThreadPoolExecutor(NCPU) as ex:
        ds = dict(zip(cfgs, ex.map(one_run, cfgs)))
    ref = cfgs[0]
    compared = 0
    for cfg in cfgs[1:]:
        a, b = ds[ref], ds[cfg]
        if a is None or b is None:
            continue
        for k in sorted(a.keys() & b.keys()):
            compared += 1
            if a[k] != b[k]:
                report_digest(out, ref, cfg, *k)
                break
    out.extra["histories_compared_between_builds"] = out.extra.get("histories_compared_between_builds", 0) + compared
    out.extra.setdefault("builds_compared", []).append([ref] + list(cfgs[1:]))
    with out.lock:
        out.evals += compared


def report_digest(out, ref, cfg, check, case):
    th = out.tier == "thorough"
    rc, o, e = run([str(binary(ref)), "case", "--check", check, "--case", str(case), "--no-self-test"] + base_args(out), 60)
    m = re.search(r"^RECORDED (.*)$", o, re.M)
    choices = [int(x) for x in m[1].split(",") if x] if m else []

    def dig(c, cs):
        t = one(c, check, cs, th)[1]
        m = re.search(r"^DIGEST (\w+)", t, re.M)
        return m and m[1]

    def differ(cs):
        return dig(ref, cs) != dig(cfg, cs)

    if choices and differ(choices):
        choices = shrink(choices, differ, 300, 40)
    text = one(ref, check, choices, th)[1]
    m = re.search(r"^CASE (.*)$", text, re.M)
    out.violations.append(dict(config=cfg, against=ref, check=check, case=case, sig="builds differ", msg=f"builds {ref} and {cfg} give different results for the same calls", desc=m[1] if m else "", choices=[str(x) for x in choices]))


# ---------------------------------------------------------------- Miri (C22)

def miri_env(cfg):
    c = MIRI_TARGETS[cfg]
    return env(
        XDG_CACHE_HOME=str(BUILD / "miri-cache"),
        MIRIFLAGS="-Zmiri-disable-stacked-borrows",
        RUSTFLAGS=(c.get("rustflags", "") + " -Awarnings").strip(),
        CARGO_TARGET_DIR=str(BUILD / ("miri-" + cfg)),
    )


def miri_sysroots(targets):
    def setup(t):
        rc, o, e = run(["cargo", "+nightly", "miri", "setup", "--target", t], 600, env(XDG_CACHE_HOME=str(BUILD / "miri-cache")))
        return None if rc == 0 else f"miri setup for {t}: {rc}\n{e[-2000:]}"

    log("preparing the interpreter for " + " ".join(targets))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        bad = [x for x in ex.map(setup, targets) if x]
    if bad:
        raise HarnessError("\n".join(bad))


def miri_cmd(cfg, args):
    c = MIRI_TARGETS[cfg]
    return ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--manifest-path", str(V / c.get("harness", "harness") / "Cargo.toml"), "--features", c.get("features", "full"), "--target", c["target"], "--"] + args + ["--no-self-test"]


def miri_replay(cfg, check, choices, timeout=300):
    rc, o, e = run(miri_cmd(cfg, ["replay", "--check", check, "--choices", "-", "--list", ",".join(map(str, choices)) or " "]), timeout, miri_env(cfg))
    if "error: Undefined Behavior" in e:
        return "ub", o, e
    if rc == 0:
        return "pass", o, e
    if rc == 1 and "FAIL sig=" in o:
        return "fail", o, e
    return "error", o, e


def miri_part(out, cfg, check, shard, shards, scale, native, native_choices):
    rc, o, e = run(miri_cmd(cfg, ["run", "--check", check, "--shard", str(shard), "--shards", str(shards), "--scale", repr(scale)] + base_args(out)), 840 if out.tier == "quick" else 10000, miri_env(cfg))
    digests = {}
    for l in o.splitlines():
        if l.startswith("DIGEST "):
            _, n, i, x = l.split()
            digests[int(i)] = x
    compared = 0
    for i, x in sorted(digests.items()):
        if (check, i) in native:
            compared += 1
            if native[(check, i)] != x and not any(v.get("case") == i for v in out.violations):
                ch = native_choices(check, i)
                if ch is not None:
                    with out.lock:
                        out.violations.append(dict(config=cfg, check=check, case=i, sig="differs from the native result", msg=f"target {cfg} gives another result than the native build", desc=ch[1], choices=[str(c) for c in ch[0]]))
                break
    with out.lock:
        out.extra["cases_compared_with_native"] = out.extra.get("cases_compared_with_native", 0) + compared
    for l in o.splitlines():
        if l.startswith("RESULT "):
            out.add(cfg, json.loads(l[7:]))
    if rc == 0:
        return
    if "error: Undefined Behavior" in e or "error: abnormal termination" in e:
        cases = re.findall(r"^MIRI-CASE (\d+) (\d+)", e, re.M)
        case = int(cases[-1][1]) if cases else 0
        m = re.search(r"error: (Undefined Behavior: .*|abnormal termination.*)\n\s*--> (.*)", e)
        ch = native_choices(check, case)
        choices, desc = ch if ch else ([], "")
        if choices:
            choices = shrink(choices, lambda c: miri_replay(cfg, check, c, 60)[0] == "ub", 12, 60)
        with out.lock:
            out.evals += len(cases)
            out.violations.append(dict(config=cfg, check=check, case=case, sig="undefined behaviour", msg=(f"{m[1]} at {m[2]}" if m else "undefined behaviour")[:600], desc=desc, choices=[str(c) for c in choices]))
        return
    if "unsupported operation" in e:
        m = re.search(r"error: (unsupported operation: .*)\n\s*--> (.*)", e)
        with out.lock:
            out.notes.append(f"{cfg}: the interpreter does not support an operation used there, cases after it not run: {m[1][:200] if m else ''}")
        return
    if rc is None:
        raise HarnessError(f"miri {cfg}: out of time")
    raise HarnessError(f"miri {cfg}/{check}: exit {rc}\n{e[-3000:]}")


def miri_builds(cfgs):
    """Once per target, so that the shards only run."""
    log("building for the interpreter")

    def prep(c):
        fresh(BUILD / ("miri-" + c))
        rc, o, e = run(miri_cmd(c, ["list"]), 600, miri_env(c))
        return None if rc == 0 else f"miri build of {c}: {rc}\n{e[-3000:]}"

    with cf.ThreadPoolExecutor(NCPU) as ex:
        bad = [x for x in ex.map(prep, cfgs) if x]
    if bad:
        raise HarnessError("\n".join(bad))


def check_miri(out, cfgs, checks, hc, tmp):
    """Runs cases of the given checks in the interpreter and compares them with the native build."""
    targets = sorted({MIRI_TARGETS[c]["target"] for c, _ in cfgs})
    with cf.ThreadPoolExecutor(2) as ex:
        a = ex.submit(build_all, ["auto-dev"])
        b = ex.submit(miri_sysroots, targets)
        if a.result()["auto-dev"]:
            raise HarnessError(a.result()["auto-dev"])
        b.result()
    miri_builds([c for c, _ in cfgs])
    f = tmp / "native"
    scale = max(s for _, s in cfgs)
    names = checks + (["c22_hc"] if hc else [])
    rc, o, e = run([str(binary("auto-dev")), "run", "--check", ",".join(names), "--small", "--scale", repr(scale), "--digests", str(f)] + base_args(out), 600)
    if rc != 0:
        raise HarnessError(f"native run: {rc}\n{e[-2000:]}")
    for l in o.splitlines():
        if l.startswith("RESULT "):
            d = json.loads(l[7:])
            if d["violation"]:
                out.add("native (small cases)", d)
    native = {}
    for l in f.read_text().splitlines():
        n, i, x = l.split()
        native[(n, int(i))] = x

    def choices(check, i):
        rc, o, e = run([str(binary("auto-dev")), "case", "--check", check, "--case", str(i), "--small", "--no-self-test"] + base_args(out), 60)
        m = re.search(r"^RECORDED (.*)$", o, re.M)
        d = re.search(r"^CASE (.*)$", o, re.M)
        return ([int(x) for x in m[1].split(",") if x], d[1] if d else "") if m else None

    jobs = []
    for c, sc in cfgs:
        n = max(2, NCPU // 2)
        for k in checks:
            for s in range(n):
                jobs.append((c, k, s, n, sc))
        if hc:
            jobs.append((c, "c22_hc", 0, 1, 1.0))
    log(f"{len(jobs)} interpreter runs over {len(cfgs)} targets")
    with cf.ThreadPoolExecutor(NCPU) as ex:
        fs = [ex.submit(miri_part, out, c, k, s, n, sc, native, choices) for c, k, s, n, sc in jobs]
        for f in cf.as_completed(fs):
            try:
                f.result()
            except HarnessError as x:
                out.errors.append(str(x))
    # the distinct cases are the native ones with the same numbers
    out.extra["interpreted"] = {c: {k: v["evaluations"] for k, v in p.items()} for c, p in out.per.items() if c in MIRI_TARGETS}
    log("interpreted")


# ---------------------------------------------------------------- feature matrix (C23)

def check_matrix(out, spec, tmp):
    from matrix import matrix
    matrix(out, sys.modules[__name__], tmp)


# ---------------------------------------------------------------- main

def decide(prop, tier, seed):
    out = Outcome(prop, tier, seed)
    spec = PLAN[prop]
    th = tier == "thorough"
    BUILD.mkdir(exist_ok=True)
    (V / "evidence").mkdir(exist_ok=True)
    tmp = pathlib.Path(tempfile.mkdtemp(prefix=f"run-{prop}-", dir=BUILD))
    try:
        if spec.get("kind") == "matrix":
            check_matrix(out, spec, tmp)
        else:
            m = spec.get("miri_thorough" if th else "miri")
            if m:
                check_miri(out, m, spec.get("miri_checks", ["c22_any"]), spec.get("miri_hc", False), tmp)
            plan = [p for p in (spec["thorough"] if th and "thorough" in spec else spec["quick"])]
            skipped = [p[0] for p in plan if not usable(p[0])]
            if skipped:
                out.notes.append("not run on this CPU: " + ", ".join(sorted(set(skipped))))
            plan = [p for p in plan if usable(p[0])]
            run_jobs(out, native_jobs(out, plan), tmp)
            if "digest" in spec and not out.errors:
                d = spec["digest"]
                for cfgs, checks, scale in d:
                    cfgs = [c for c in cfgs if usable(c)]
                    res = build_all([c for c in cfgs if not binary(c).exists()]) if any(not binary(c).exists() for c in cfgs) else {}
                    bad = [e for e in res.values() if e]
                    if bad:
                        raise HarnessError("\n".join(bad))
                    digest_compare(out, cfgs, checks, scale * (10 if th else 1), tmp)
                log("builds compared")
    except HarnessError as e:
        out.errors.append(str(e))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return finish(out)


def finish(out):
    prop = out.prop
    rule = RULES[prop]
    ev = dict(
        property=prop,
        tier=out.tier,
        seed=out.seed,
        level="exploration",
        coverage=dict(
            evaluations=out.evals,
            distinct_nontrivial=out.distinct(),
            rule=rule,
            samples=out.samples[:24] or ["(none)"],
            classes={k: dict(sorted(v.items())) for k, v in sorted(out.labels.items())},
            configurations=out.per,
            **out.extra,
        ),
        assumptions=ASSUMPTIONS,
        wall_s=round(time.time() - T0, 1),
        violations=len(out.violations),
    )
    if out.notes:
        ev["coverage"]["notes"] = out.notes
    if out.hash_overflow:
        ev["coverage"]["distinct_is_lower_bound"] = True
    if out.known:
        ev["coverage"]["known_findings"] = [dict(config=c, signature=s, count=n, example=m[:500]) for (c, s), (n, m) in sorted(out.known.items())]
    (V / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1))
    for n in out.notes:
        log("note:", n)
    kf = [k for k in known_findings() if k["property"] == prop]
    for (cfg, sig), (n, msg) in sorted(out.known.items()):
        what = next((k["what"] for k in kf if k["config"] == cfg and k["sig"] == sig), sig)
        print(f"KNOWN-FINDING: property={prop} {what} [{sig}; {n} cases in configuration {cfg}]")
    if out.violations:
        (V / "replays").mkdir(exist_ok=True)
        seen = set()
        for v in out.violations:
            key = (v["check"], v["sig"], v["config"])
            if key in seen:
                continue
            seen.add(key)
            v = dict(property=prop, tier=out.tier, seed=out.seed, **v)
            name = f"{prop}-{v['check']}-{hashlib.sha1(json.dumps(v, sort_keys=True).encode()).hexdigest()[:10]}.json"
            p = V / "replays" / name
            p.write_text(json.dumps(v, indent=1))
            print(f"  {v['check']} [{v['config']}] {v['sig']}: {v['msg'][:1500]}")
            if v.get("desc"):
                print(f"  input: {v['desc'][:1500]}")
            print(f"VIOLATION property={prop} replay={p}")
        if out.errors:
            print("(other parts of this check failed: " + " | ".join(e[:400] for e in out.errors) + ")")
        sys.stdout.flush()
        return 1
    if out.errors:
        print("CHECK-ERROR", "\n".join(out.errors)[:8000], flush=True)
        return 3
    log(f"{prop}: held on {out.evals} cases, {out.distinct()} distinct and non-trivial")
    return 0


def replay(path):
    v = json.loads(pathlib.Path(path).read_text())
    cfg, check = v["config"], v["check"]
    BUILD.mkdir(exist_ok=True)
    choices = [int(x) for x in v.get("choices", [])]
    th = v["tier"] == "thorough"
    if v.get("command"):
        from matrix import replay_command
        return replay_command(v)
    if cfg in MIRI_TARGETS:
        miri_sysroots([MIRI_TARGETS[cfg]["target"]])
        r, o, e = miri_replay(cfg, check, choices)
        print(o, "\n".join(re.findall(r"^error.*\n.*", e, re.M)))
        if r == "pass" and v["sig"].startswith("differs"):
            bad = build_all(["auto-dev"])["auto-dev"]
            if bad:
                print(bad)
                return 3
            n = one("auto-dev", check, choices, th, small=True)[1]
            r = "pass" if re.findall(r"DIGEST (\w+)$", o, re.M)[-1:] == re.findall(r"DIGEST (\w+)$", n, re.M)[-1:] else "fail"
            print(n)
    else:
        from matrix import MATRIX_CONFIGS
        CONFIGS.update(MATRIX_CONFIGS)
        names = [cfg] + ([v["against"]] if v.get("against") else [])
        bad = [e for e in build_all(names).values() if e]
        if bad:
            print("\n".join(bad))
            return 3
        if v.get("against"):
            ds = []
            for c in names:
                t = one(c, check, choices, th)[1]
                print(f"--- {c}\n{t}")
                ds.append(re.findall(r"^DIGEST (\w+)", t, re.M))
            r = "pass" if ds[0] == ds[1] else "fail"
        else:
            r, o = one(cfg, check, choices, th, timeout=600)
            print(o)
    print("replay:", r)
    if r == "pass":
        return 0
    if r == "error":
        return 3
    print(f"VIOLATION property={v['property']} replay={path}")
    return 1


def main():
    a = sys.argv[1:]
    if "--setup" in a:
        BUILD.mkdir(exist_ok=True)
        e = build_all(["auto-dev"])["auto-dev"]
        if e:
            print(e)
            return 1
        return 0
    if "--replay" in a:
        return replay(a[a.index("--replay") + 1])
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    seed = int(a[a.index("--seed") + 1]) if "--seed" in a else int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = a[0]
    return decide(prop, tier, seed)


if __name__ == "__main__":
    try:
        code = main()
    except Exception:  # a fault of the check, never a verdict
        import traceback

        traceback.print_exc()
        code = 3
    sys.exit(code)
