//! A small property-based-testing engine.
//!
//! Every random decision of a property goes through [`Ctx::draw`], which records it. A case is
//! therefore a finite list of integers ("choices"), in which smaller integers mean simpler
//! decisions. Replay feeds a recorded list back, and shrinking deletes and lowers entries of the
//! list while the property still fails (the approach of Hypothesis), so that generators never
//! need shrinkers of their own and every shrunk case is one the generator can produce.

use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;

/// splitmix64 finaliser, used for seeding and expansion of bulk data.
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

/// Deterministic expansion of a seed to bytes.
pub fn expand(seed: u64, out: &mut [u8]) {
    let mut s = seed;
    for c in out.chunks_mut(8) {
        s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let v = mix(s).to_le_bytes();
        c.copy_from_slice(&v[..c.len()]);
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    /// Stable class of the failure, used for matching known findings.
    pub sig: String,
    pub msg: String,
}
pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($sig:expr, $($a:tt)*) => { return Err($crate::engine::Fail { sig: String::from($sig), msg: format!($($a)*) }) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => { if !$c { $crate::fail!($sig, $($a)*) } };
}

enum Mode {
    Random(u64),
    Replay(Vec<u64>, usize),
}

pub struct Ctx {
    mode: Mode,
    pub rec: Vec<u64>,
    pub labels: Vec<String>,
    pub nontrivial: bool,
    pub want_desc: bool,
    pub desc: String,
    /// Multiplier for sizes (Miri and valgrind runs use small ones).
    pub small: bool,
    pub thorough: bool,
    /// Digest of the observable outputs of this case, for comparison between configurations.
    pub digest: u64,
}

impl Ctx {
    fn new(mode: Mode, opt: &Opts) -> Self {
        Ctx {
            mode,
            rec: Vec::new(),
            labels: Vec::new(),
            nontrivial: false,
            want_desc: false,
            desc: String::new(),
            small: opt.small,
            thorough: opt.thorough,
            digest: 0,
        }
    }
    /// Uniform choice in `0..=max`.
    pub fn draw(&mut self, max: u64) -> u64 {
        let v = match &mut self.mode {
            Mode::Random(s) => {
                *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
                let r = mix(*s);
                if max == u64::MAX { r } else { ((r as u128 * (max as u128 + 1)) >> 64) as u64 }
            }
            Mode::Replay(c, i) => {
                let v = c.get(*i).copied().unwrap_or(0);
                *i += 1;
                v.min(max)
            }
        };
        self.rec.push(v);
        if TRACING.load(std::sync::atomic::Ordering::Relaxed) {
            trace(v);
        }
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n as u64 - 1) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.draw((hi - lo) as u64) as usize
    }
    pub fn flag(&mut self) -> bool {
        self.draw(1) == 1
    }
    /// True with probability 1/n.
    pub fn one_in(&mut self, n: u64) -> bool {
        // 0 (the simplest) must mean "no"
        self.draw(n - 1) == n - 1
    }
    /// Index chosen with the given weights; index 0 is the simplest.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut r = self.draw(total as u64 - 1) as u32;
        for (i, &x) in w.iter().enumerate() {
            if r < x {
                return i;
            }
            r -= x;
        }
        unreachable!()
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    pub fn label(&mut self, s: impl Into<String>) {
        self.labels.push(s.into());
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            if self.desc.len() < 4000 {
                let s = f();
                if !self.desc.is_empty() {
                    self.desc.push_str("; ");
                }
                self.desc.push_str(&s);
            } else if !self.desc.ends_with('…') {
                self.desc.push('…');
            }
        }
    }
    pub fn observe(&mut self, b: &[u8]) {
        let mut h = self.digest ^ (b.len() as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        let mut it = b.chunks_exact(8);
        for c in &mut it {
            h = (h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0xff51_afd7_ed55_8ccd);
            h ^= h >> 29;
        }
        for &x in it.remainder() {
            h = (h ^ x as u64).wrapping_mul(0x100_0000_01b3);
        }
        self.digest = mix(h);
    }
    pub fn observe_u(&mut self, v: u128) {
        self.observe(&v.to_le_bytes());
    }
}

pub type PropFn = fn(&mut Ctx) -> Res;

/// One generated check of a property: `cases` executions in the quick tier.
pub struct Check {
    pub prop: &'static str,
    pub name: &'static str,
    pub f: PropFn,
    /// number of cases: quick, thorough, small (interpreter/emulator)
    pub quick: u64,
    pub thorough: u64,
    pub small: u64,
    /// The observable outputs do not depend on the configuration, so digests may be compared.
    pub digest: bool,
}

#[derive(Clone, Default)]
pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub small: bool,
    pub shard: (u64, u64),
    pub scale: f64,
    pub known: Vec<String>,
    pub journal: Option<String>,
    pub hashes: Option<String>,
    pub digests: Option<String>,
    pub only: Option<String>,
    pub shrink_budget: u64,
    pub slow: bool,
}

static TRACING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static TRACE: Mutex<Option<std::fs::File>> = Mutex::new(None);
/// From now on every drawn choice is written to a file at once, so that the choices of a case
/// which ends the process are known.
pub fn trace_to(p: &str) {
    *TRACE.lock().unwrap() = Some(std::fs::File::create(p).expect("HARNESS trace"));
    TRACING.store(true, std::sync::atomic::Ordering::Relaxed);
}
fn trace(v: u64) {
    use std::io::Write as _;
    if let Some(f) = TRACE.lock().unwrap().as_mut() {
        let _ = f.write_all(format!("{v}\n").as_bytes());
    }
}

static PANIC_MSG: Mutex<Option<String>> = Mutex::new(None);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("VH_PANIC").is_some() || m.contains("HARNESS") {
            eprintln!("PANIC {m} at {loc}");
        }
        if let Ok(mut g) = PANIC_MSG.lock() {
            *g = Some(format!("{m} at {loc}"));
        }
    }));
}

pub fn take_panic() -> String {
    PANIC_MSG.lock().ok().and_then(|mut g| g.take()).unwrap_or_else(|| "panic".into())
}

fn exec(f: PropFn, ctx: &mut Ctx) -> Res {
    match catch_unwind(AssertUnwindSafe(|| f(ctx))) {
        Ok(r) => r,
        Err(_) => {
            let m = take_panic();
            // A failed assertion inside the harness itself is an error of the check.
            if m.contains("HARNESS") || m.contains("harness/src") || m.contains(" at src/") {
                eprintln!("HARNESS-ERROR {m}");
                std::process::exit(3);
            }
            Err(Fail { sig: "panic".into(), msg: format!("panicked: {m}") })
        }
    }
}

pub fn run_choices(c: &Check, choices: &[u64], opt: &Opts, desc: bool) -> (Res, Ctx) {
    let mut ctx = Ctx::new(Mode::Replay(choices.to_vec(), 0), opt);
    ctx.want_desc = desc;
    let r = exec(c.f, &mut ctx);
    (r, ctx)
}

fn case_seed(c: &Check, seed: u64, i: u64) -> u64 {
    mix(mix(seed ^ fnv(c.name)) ^ mix(i.wrapping_mul(0xD134_2543_DE82_EF95)))
}

pub fn record_case(c: &Check, seed: u64, i: u64, opt: &Opts) -> Vec<u64> {
    // Regenerates the choices of case i without relying on the property to terminate normally.
    let mut ctx = Ctx::new(Mode::Random(case_seed(c, seed, i)), opt);
    let _ = exec(c.f, &mut ctx);
    ctx.rec
}

/// Random stream for a case, as an explicit list long enough for any prefix, for crash replay.
pub fn raw_choices_mode(c: &Check, seed: u64, i: u64, opt: &Opts, desc: bool) -> (Res, Ctx) {
    let mut ctx = Ctx::new(Mode::Random(case_seed(c, seed, i)), opt);
    ctx.want_desc = desc;
    let r = exec(c.f, &mut ctx);
    (r, ctx)
}

/// Generic shrinker over a "does it still fail" oracle; returns the shortest/lowest list found.
pub fn shrink(mut best: Vec<u64>, budget: u64, mut still: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let mut left = budget;
    // slow cases are shrunk only as far as a minute goes
    let end = std::time::Instant::now() + std::time::Duration::from_secs(60);
    let lower = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    macro_rules! attempt {
        ($cand:expr) => {{
            if left == 0 || std::time::Instant::now() > end {
                return best;
            }
            left -= 1;
            let cand: Vec<u64> = $cand;
            match still(&cand) {
                Some(rec) if lower(&rec, &best) => {
                    best = rec;
                    true
                }
                _ => false,
            }
        }};
    }
    loop {
        let before = best.clone();
        // delete spans
        let mut k = (best.len() / 2).max(1);
        loop {
            let mut i = best.len();
            while i > 0 {
                i = i.saturating_sub(1);
                if i + k <= best.len() {
                    let mut c = best.clone();
                    c.drain(i..i + k);
                    attempt!(c);
                    i = i.min(best.len());
                }
                if k > 4 {
                    i = i.saturating_sub(k - 1);
                }
            }
            if k == 1 {
                break;
            }
            k /= 2;
        }
        // delete a span and lower an earlier count by one (list lengths)
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 && best[i] < 64 {
                for span in [1usize, 2, 3, 4, 5, 6, 8] {
                    let mut j = i + 1;
                    let mut tries = 0;
                    while j + span <= best.len() && tries < 24 {
                        let mut c = best.clone();
                        c[i] -= 1;
                        c.drain(j..j + span);
                        if attempt!(c) {
                            if i >= best.len() || best[i] == 0 {
                                break;
                            }
                        } else {
                            j += span;
                        }
                        tries += 1;
                    }
                    if i >= best.len() || best[i] == 0 {
                        break;
                    }
                }
            }
            i += 1;
        }
        // zero spans
        for k in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i + k <= best.len() {
                if best[i..i + k].iter().any(|&x| x != 0) {
                    let mut c = best.clone();
                    c[i..i + k].fill(0);
                    attempt!(c);
                }
                i += k;
            }
        }
        // minimise values
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            if v > 0 {
                let mut lo = 0u64;
                let mut hi = v;
                // binary search for the smallest failing value (heuristic, not monotone)
                while lo < hi {
                    let mid = lo + (hi - lo) / 2;
                    let mut c = best.clone();
                    if i >= c.len() {
                        break;
                    }
                    c[i] = mid;
                    if attempt!(c) {
                        if i >= best.len() {
                            break;
                        }
                        hi = best[i].min(mid);
                    } else {
                        lo = mid + 1;
                    }
                }
                if i < best.len() && best[i] > 0 {
                    let mut c = best.clone();
                    c[i] -= 1;
                    attempt!(c);
                }
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn choices_json(c: &[u64]) -> String {
    let v: Vec<String> = c.iter().map(|x| format!("\"{x}\"")).collect();
    format!("[{}]", v.join(","))
}

#[cfg(not(miri))]
struct Journal(Option<std::fs::File>);
#[cfg(not(miri))]
impl Journal {
    fn open(p: &Option<String>) -> Self {
        Journal(p.as_ref().map(|p| std::fs::File::create(p).expect("HARNESS journal")))
    }
    fn set(&self, name: u64, i: u64) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.0 {
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&name.to_le_bytes());
            b[8..].copy_from_slice(&i.to_le_bytes());
            let _ = f.write_at(&b, 0);
        }
    }
}
#[cfg(miri)]
struct Journal;
#[cfg(miri)]
impl Journal {
    fn open(_: &Option<String>) -> Self {
        Journal
    }
    fn set(&self, name: u64, i: u64) {
        // Miri ends the process on undefined behaviour: leave a trace on stderr.
        eprintln!("MIRI-CASE {name} {i}");
    }
}

pub fn n_cases(c: &Check, opt: &Opts) -> u64 {
    let n = if opt.small {
        c.small * if opt.thorough { 12 } else { 1 }
    } else if opt.thorough {
        c.thorough
    } else {
        c.quick
    };
    if n == 0 {
        0
    } else if c.name.ends_with("_huge") {
        // each case takes most of a minute
        n
    } else {
        ((n as f64 * opt.scale) as u64).max(1)
    }
}

/// Runs the given checks and prints one JSON object per check on stdout.
pub fn run(checks: &[&Check], opt: &Opts) {
    let journal = Journal::open(&opt.journal);
    let mut hashes: Vec<u64> = Vec::new();
    let mut digests = String::new();
    for c in checks {
        if let Some(o) = &opt.only {
            if !c.name.contains(o.as_str()) {
                continue;
            }
        }
        let n = n_cases(c, opt);
        let mut labels: BTreeMap<String, u64> = BTreeMap::new();
        let mut distinct: HashSet<u64> = HashSet::new();
        let mut evals = 0u64;
        let mut nontrivial = 0u64;
        let mut samples: Vec<String> = Vec::new();
        let mut known_hits: BTreeMap<String, (u64, String)> = BTreeMap::new();
        let mut violation: Option<String> = None;
        let mut choices_total = 0u64;
        let t0 = std::time::Instant::now();
        let name_hash = fnv(c.name);
        for i in 0..n {
            if i % opt.shard.1 != opt.shard.0 {
                continue;
            }
            journal.set(name_hash, i);
            let mut ctx = Ctx::new(Mode::Random(case_seed(c, opt.seed, i)), opt);
            // describe a few cases for the evidence
            ctx.want_desc = samples.len() < 4 && (i / opt.shard.1) % 7 == 3;
            let tc = std::time::Instant::now();
            let r = exec(c.f, &mut ctx);
            if opt.slow && tc.elapsed().as_millis() > 200 {
                eprintln!("slow case {} #{i}: {:?}", c.name, tc.elapsed());
            }
            evals += 1;
            choices_total += ctx.rec.len() as u64;
            for l in &ctx.labels {
                *labels.entry(l.clone()).or_default() += 1;
            }
            if ctx.nontrivial {
                nontrivial += 1;
                let mut h = name_hash;
                for &x in &ctx.rec {
                    h = mix(h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
                }
                distinct.insert(h);
            }
            if ctx.want_desc && !ctx.desc.is_empty() && ctx.nontrivial {
                samples.push(format!("{} #{i}: {}", c.name, ctx.desc));
            }
            #[cfg(miri)]
            if c.digest {
                println!("DIGEST {} {} {:016x}", c.name, i, ctx.digest);
            }
            if c.digest && opt.digests.is_some() {
                let _ = writeln!(digests, "{} {} {:016x}", c.name, i, ctx.digest);
            }
            if let Err(f) = r {
                let (choices, fail) = shrink_fail(c, &ctx.rec, &f, opt);
                let (_, dctx) = run_choices(c, &choices, opt, true);
                if let Some(k) = opt.known.iter().find(|k| **k == fail.sig) {
                    let e = known_hits.entry(k.clone()).or_insert((0, format!("{} [{}]", fail.msg, dctx.desc)));
                    e.0 += 1;
                    continue;
                }
                violation = Some(format!(
                    "{{\"check\":{},\"case\":{},\"sig\":{},\"msg\":{},\"desc\":{},\"choices\":{},\"original_choices\":{}}}",
                    json_str(c.name), i, json_str(&fail.sig), json_str(&fail.msg), json_str(&dctx.desc),
                    choices_json(&choices), ctx.rec.len()
                ));
                break;
            }
        }
        let lab: Vec<String> = labels.iter().map(|(k, v)| format!("{}:{v}", json_str(k))).collect();
        let sam: Vec<String> = samples.iter().map(|s| json_str(s)).collect();
        let kn: Vec<String> = known_hits
            .iter()
            .map(|(k, (n, m))| format!("{{\"sig\":{},\"count\":{n},\"msg\":{}}}", json_str(k), json_str(m)))
            .collect();
        println!(
            "RESULT {{\"check\":{},\"prop\":{},\"evaluations\":{evals},\"nontrivial\":{nontrivial},\"distinct\":{},\"choices\":{choices_total},\"wall_ms\":{},\"labels\":{{{}}},\"samples\":[{}],\"known\":[{}],\"violation\":{}}}",
            json_str(c.name), json_str(c.prop), distinct.len(), t0.elapsed().as_millis(),
            lab.join(","), sam.join(","), kn.join(","), violation.clone().unwrap_or_else(|| "null".into())
        );
        hashes.extend(distinct.iter());
        if violation.is_some() {
            // other checks of the property may still run: each reports its own first violation
        }
    }
    if let Some(p) = &opt.hashes {
        let mut b = Vec::with_capacity(hashes.len() * 8);
        for h in &hashes {
            b.extend_from_slice(&h.to_le_bytes());
        }
        std::fs::write(p, b).expect("HARNESS hashes");
    }
    if let Some(p) = &opt.digests {
        std::fs::write(p, digests).expect("HARNESS digests");
    }
}

pub fn shrink_fail(c: &Check, rec: &[u64], f: &Fail, opt: &Opts) -> (Vec<u64>, Fail) {
    // A failure of the same signature must remain, so that a known finding and a new violation
    // are not confused with each other while shrinking.
    let want = f.sig.clone();
    let choices = shrink(rec.to_vec(), opt.shrink_budget, |cand| {
        let (r, ctx) = run_choices(c, cand, opt, false);
        match r {
            Err(e) if e.sig == want => Some(ctx.rec),
            _ => None,
        }
    });
    let (r, _) = run_choices(c, &choices, opt, false);
    match r {
        Err(e) if e.sig == want => (choices, e),
        _ => (rec.to_vec(), f.clone()),
    }
}
