//! C20 (constructors) and the history part of C18 (no call with valid arguments fails).

use crate::ciphers::*;
use crate::engine::*;
use crate::gens::{self, hex};
use crate::p_core::{Op, cores};
use crate::p_stream::{first_diff, mk};
use crate::p_subj::{self, subjects};
use crate::{ensure, fail};

fn odd_len(ctx: &mut Ctx, good: usize, max: usize) -> usize {
    match ctx.weighted(&[6, 3, 3, 3, 5]) {
        0 => good,
        1 => good + ctx.range(1, 4),
        2 => good.saturating_sub(ctx.range(1, 4)),
        3 => *ctx.pick(&[0usize, 1, 8, 12, 16, 24, 32, 64, 128, 255, 256, 257]),
        _ => ctx.range(0, max),
    }
}

/// Which slice lengths are accepted, on every cipher and core.
pub fn c20_lengths(ctx: &mut Ctx) -> Res {
    let all: Vec<_> = subjects().iter().filter(|s| !s.name.contains("Rng") && !s.name.contains("generator")).collect();
    if all.is_empty() {
        return Ok(());
    }
    let s = all[ctx.below(all.len())];
    if ctx.small && s.name.starts_with("Hc256") {
        return Ok(());
    }
    let kl = if s.klen == 0 {
        match ctx.below(3) {
            0 => ctx.range(0, 300),
            1 => *ctx.pick(&[0usize, 1, 256, 257, 255, 2, 258, 512, 511, 513, 1024]),
            _ => ctx.range(250, 262),
        }
    } else {
        odd_len(ctx, s.klen, 300)
    };
    let il = if s.ivlen == 0 { 0 } else { odd_len(ctx, s.ivlen, 80) };
    let k = gens::bytes(ctx, kl);
    let iv = gens::bytes(ctx, il);
    let want = (if s.klen == 0 { (1..=256).contains(&kl) } else { kl == s.klen }) && il == s.ivlen;
    ctx.note(|| format!("{} from a key of {kl} and a nonce of {il} bytes", s.name));
    let Some(got) = (s.try_new)(&k, &iv) else { return Ok(()) };
    ctx.observe(&[got.is_some() as u8]);
    ctx.label(s.name);
    ctx.label(if want { "documented lengths" } else { "other lengths" });
    ensure!(
        got.is_some() == want,
        "accepted lengths",
        "{}: a key of {kl} and a nonce of {il} bytes is {}",
        s.name,
        if want { "refused" } else { "accepted" }
    );
    #[cfg(feature = "others")]
    if s.name == "RabbitCore" && kl == 16 {
        // the nonce added to a keyed core, as slice
        use cipher::{InnerIvInit, KeyInit};
        let inner = <rabbit::RabbitKeyOnlyCore as KeyInit>::new_from_slice(&k);
        ensure!(inner.is_ok(), "accepted lengths", "RabbitKeyOnlyCore: a 16-byte key is refused");
        let r = rabbit::RabbitCore::inner_iv_slice_init(inner.unwrap(), &iv);
        ensure!(r.is_ok() == (il == 8), "accepted lengths", "RabbitCore: a nonce of {il} bytes added to a keyed core: accepted={}", r.is_ok());
    }
    ctx.nontrivial = true;
    Ok(())
}

/// Construction from slices and from arrays give the same cipher.
pub fn c20_same(ctx: &mut Ctx) -> Res {
    let pool = specs();
    if pool.is_empty() {
        return Ok(());
    }
    let s = ctx.pick(pool);
    if ctx.small && s.name == "Hc256" {
        return Ok(());
    }
    // RC4's array constructor takes keys of one particular length
    let k = if s.klen == 0 { let n = *ctx.pick(&[32usize, 16, 5, 256]); gens::bytes(ctx, n) } else { gens::bytes(ctx, s.klen) };
    let iv = gens::bytes(ctx, s.ivlen);
    let n = gens::small_len(ctx).max(1);
    ctx.note(|| format!("{} key={} nonce={} {n} bytes", s.name, hex(&k), hex(&iv)));
    let Some(mut b) = (s.make_arr)(&k, &iv) else {
        ctx.label("no array constructor for this length");
        ensure!(s.klen == 0, "array constructor", "{}: fixed-size arrays of the documented lengths do not fit", s.name);
        return Ok(());
    };
    let mut a = mk(s, &k, &iv)?;
    ctx.label(s.name);
    let mut x = vec![0u8; n];
    let mut y = vec![0u8; n];
    let mut z = vec![0u8; n];
    ensure!(a.call(9, &[], &mut x) && b.call(9, &[], &mut y), "refused", "{}: {n} bytes refused by a fresh cipher", s.name);
    (s.model)(&k, &iv).fill(0, &mut z);
    ensure!(x == y, "constructors differ", "{}: from slices and from arrays: {}", s.name, first_diff(&x, &y));
    ensure!(x == z, "keystream", "{}: constructed cipher against the model: {}", s.name, first_diff(&x, &z));
    if s.seekable() {
        let (p, _) = gens::pos(ctx, s);
        ensure!(a.seek(3, p) == b.seek(3, p), "constructors differ", "{}: seek({p})", s.name);
        let q = (a.pos(3), b.pos(3));
        ensure!(q.0 == q.1, "constructors differ", "{}: position after seek({p}): {q:?}", s.name);
        let mut x = vec![0u8; n];
        let mut y = vec![0u8; n];
        ensure!(a.call(9, &[], &mut x) == b.call(9, &[], &mut y) && x == y, "constructors differ", "{}: after seek({p})", s.name);
    }
    ctx.observe(&x);
    ctx.nontrivial = true;
    Ok(())
}

/// Every bit of key and nonce takes effect, wherever the algorithm uses it.
pub fn c20_bits(ctx: &mut Ctx) -> Res {
    let pool = specs();
    if pool.is_empty() {
        return Ok(());
    }
    let s = ctx.pick(pool);
    if ctx.small && s.name == "Hc256" {
        return Ok(());
    }
    let k = gens::key(ctx, s);
    let iv = gens::bytes(ctx, s.ivlen);
    let n = if s.klen == 0 { 300 } else { 64 };
    let pos = if s.seekable() { gens::pos(ctx, s).0.min(s.end().unwrap() - 64) } else { 0 };
    ctx.note(|| format!("{} key={} nonce={} position {pos}, every bit flipped", s.name, hex(&k), hex(&iv)));
    ctx.label(s.name);
    let real = |k: &[u8], iv: &[u8]| -> Result<Vec<u8>, Fail> {
        let mut c = mk(s, k, iv)?;
        if s.seekable() {
            ensure_seek(&mut *c, pos)?;
        }
        let mut v = vec![0u8; n];
        if !c.call(9, &[], &mut v) {
            fail!("refused", "{}: {n} bytes refused at {pos}", s.name);
        }
        Ok(v)
    };
    let base = real(&k, &iv)?;
    let bits = (k.len() + iv.len()) * 8;
    // all bits for the short-keyed fast ciphers, a sample where set-up is slow or the key long
    let step = match s.fam {
        Fam::Hc => 41,
        Fam::Rc4 => 1 + bits / 40,
        _ if ctx.small => 97,
        _ => 1,
    };
    let first = ctx.draw(step as u64 - 1) as usize;
    for b in (first..bits).step_by(step) {
        let mut k2 = k.clone();
        let mut iv2 = iv.clone();
        if b < k.len() * 8 {
            k2[b / 8] ^= 1 << (b % 8);
        } else {
            let b = b - k.len() * 8;
            iv2[b / 8] ^= 1 << (b % 8);
        }
        let flipped = real(&k2, &iv2)?;
        if s.klen == 0 {
            // RC4 can have equivalent keys: its definition decides whether this bit matters here
            let mut w = vec![0u8; n];
            (s.model)(&k2, &iv2).fill(0, &mut w);
            ensure!(flipped == w, "bit ignored", "{}: with key bit {b} flipped: {}", s.name, first_diff(&flipped, &w));
        } else {
            ensure!(
                flipped != base,
                "bit ignored",
                "{}: flipping {} bit {} changes nothing at position {pos}",
                s.name,
                if b < k.len() * 8 { "key" } else { "nonce" },
                if b < k.len() * 8 { b } else { b - k.len() * 8 }
            );
        }
    }
    ctx.observe(&base);
    ctx.nontrivial = true;
    Ok(())
}
fn ensure_seek(c: &mut dyn Cip, p: u128) -> Res {
    ensure!(c.seek(3, p) == Some(true), "seek", "seek({p}) refused");
    Ok(())
}

// ------------------------------------------------------------------ C18: no call fails

/// Long sequences of calls with valid but extreme arguments, on everything there is. The oracle
/// is that nothing panics (arithmetic overflow included in this kind of build).
pub fn c18_calls(ctx: &mut Ctx) -> Res {
    match ctx.weighted(&[3, 3, 3, 1]) {
        0 => calls_cipher(ctx),
        1 => calls_core(ctx),
        2 => calls_rng(ctx),
        _ => calls_subkey(ctx),
    }
}

fn extreme(ctx: &mut Ctx) -> u128 {
    match ctx.below(5) {
        0 => ctx.draw(300) as u128,
        1 => {
            let e = ctx.draw(127) as u32;
            (1u128 << e).wrapping_add(ctx.draw(130) as u128).wrapping_sub(65)
        }
        2 => u128::MAX - ctx.draw(300) as u128,
        3 => ((u32::MAX as u128) << 6).wrapping_add(ctx.draw(200) as u128).wrapping_sub(100),
        _ => ((u64::MAX as u128) << 6).wrapping_add(ctx.draw(200) as u128).wrapping_sub(100),
    }
}

fn calls_cipher(ctx: &mut Ctx) -> Res {
    let pool = specs();
    if pool.is_empty() {
        return Ok(());
    }
    let s = ctx.pick(pool);
    if ctx.small && s.name == "Hc256" {
        return Ok(());
    }
    ctx.label(s.name);
    let k = gens::key(ctx, s);
    let iv = gens::bytes(ctx, s.ivlen);
    let mut c = mk(s, &k, &iv)?;
    ctx.note(|| format!("{} key={} nonce={}", s.name, hex(&k), hex(&iv)));
    let n = ctx.range(1, if ctx.small { 5 } else { 14 });
    for _ in 0..n {
        match ctx.below(4) {
            0 if s.seekable() => {
                let ty = ctx.below(5);
                let p = extreme(ctx) % (seek_max(ty).saturating_add(1).max(1));
                ctx.note(|| format!("try_seek::<{}>({p})", SEEK_TYPES[ty]));
                let r = c.seek(ty, p);
                ctx.observe(&[(r == Some(true)) as u8]);
            }
            1 => {
                for ty in 0..5 {
                    let p = c.pos(ty);
                    ctx.observe_u(p.flatten().unwrap_or(77));
                }
            }
            2 => {
                let n = extreme(ctx) as usize;
                ctx.note(|| format!("check_remaining({n})"));
                let r = c.check_remaining(n);
                ctx.observe(&[r as u8]);
            }
            _ => {
                let api = *ctx.pick(&TRY_APIS);
                let len = gens::small_len(ctx);
                ctx.note(|| format!("{}({len})", APIS[api]));
                let inp = vec![7u8; len];
                let mut out = vec![7u8; len];
                let r = c.call(api, &inp, &mut out);
                ctx.observe(&[r as u8]);
                ctx.observe(&out);
            }
        }
    }
    ctx.nontrivial = true;
    Ok(())
}

fn calls_core(ctx: &mut Ctx) -> Res {
    let pool = cores();
    if pool.is_empty() {
        return Ok(());
    }
    let s = &pool[ctx.below(pool.len())];
    if ctx.small && s.name == "Hc256Core" {
        return Ok(());
    }
    ctx.label(s.name);
    let k = gens::bytes(ctx, s.klen);
    let iv = gens::bytes(ctx, s.ivlen);
    let mut c = (s.make)(&k, &iv);
    let bs = c.bs();
    let max = match s.ctr {
        Some(32) => u32::MAX as u64,
        _ => u64::MAX,
    };
    ctx.note(|| format!("{} key={} nonce={}", s.name, hex(&k), hex(&iv)));
    let n = ctx.range(1, if ctx.small { 5 } else { 12 });
    for _ in 0..n {
        match ctx.below(4) {
            0 if s.ctr.is_some() => {
                let p = if ctx.flag() { max - ctx.draw(20) } else { extreme(ctx) as u64 & max };
                ctx.note(|| format!("set_block_pos({p:#x})"));
                c.set_pos(p);
            }
            1 => {
                let r = c.remaining();
                ctx.observe_u(r.map(|x| x as u128).unwrap_or(u128::MAX));
                let p = c.get_pos();
                ctx.observe_u(p.map(|x| x as u128).unwrap_or(u128::MAX));
            }
            2 => {
                let k = ctx.range(0, 5);
                let ops: Vec<Op> = (0..k)
                    .map(|_| match ctx.below(3) {
                        0 => Op::One,
                        1 => Op::Par,
                        _ => Op::Tail(ctx.range(0, 15)),
                    })
                    .collect();
                ctx.note(|| format!("session {ops:?}"));
                let mut out = Vec::new();
                c.session(&ops, &mut out);
            }
            _ => {
                let nb = ctx.range(0, if ctx.small { 6 } else { 40 });
                let kind = ctx.range(0, 4);
                let inp = vec![3u8; nb.max(1) * bs];
                let mut out = vec![3u8; nb.max(1) * bs];
                ctx.note(|| format!("process kind {kind}, {nb} blocks"));
                match kind {
                    0 => c.write_block(&mut out[..bs]),
                    1 => c.apply(1, &inp[..bs], &mut out[..bs]),
                    2 => c.write_blocks(&mut out[..nb * bs]),
                    3 => c.apply(3, &[], &mut out[..nb * bs]),
                    _ => c.apply(4, &inp[..nb * bs], &mut out[..nb * bs]),
                }
                ctx.observe(&out);
            }
        }
    }
    if ctx.flag() {
        let n = gens::small_len(ctx);
        let mut out = vec![0u8; n];
        ctx.note(|| format!("final partial({n})"));
        let r = c.partial(true, &[], &mut out);
        ctx.observe(&[r as u8]);
    } else {
        let mut w = c.into_cipher();
        let n = gens::small_len(ctx);
        let mut out = vec![0u8; n];
        ctx.note(|| format!("from_core, then {n} bytes"));
        let r = w.call(1, &[], &mut out);
        let p = w.pos(3);
        ctx.observe(&[r as u8]);
        ctx.observe_u(p.flatten().unwrap_or(1));
    }
    ctx.nontrivial = true;
    Ok(())
}

#[cfg(not(feature = "cc_rng"))]
fn calls_rng(_: &mut Ctx) -> Res {
    Ok(())
}
#[cfg(feature = "cc_rng")]
fn calls_rng(ctx: &mut Ctx) -> Res {
    use crate::p_rng::RngX;
    use chacha20::rand_core::Rng;
    fn go<G: RngX>(ctx: &mut Ctx) -> Res {
        let mut g = if ctx.flag() {
            let b: [u8; 49] = gens::bytes(ctx, 49).try_into().unwrap();
            ctx.note(|| format!("{} restored from {}", G::NAME, hex(&b)));
            G::deserialize(&b)
        } else {
            let s: [u8; 32] = gens::bytes(ctx, 32).try_into().unwrap();
            ctx.note(|| format!("{} seed={}", G::NAME, hex(&s)));
            G::from_seed(s)
        };
        ctx.label(G::NAME);
        let n = ctx.range(1, if ctx.small { 6 } else { 24 });
        for _ in 0..n {
            match ctx.below(9) {
                0 => {
                    let p = extreme(ctx);
                    ctx.note(|| format!("set_word_pos({p:#x})"));
                    g.set_word_pos(p);
                }
                1 => {
                    let p = extreme(ctx) as u64;
                    ctx.note(|| format!("set_block_pos({p:#x})"));
                    g.set_block_pos(p);
                }
                2 => {
                    let p = extreme(ctx) as u64;
                    ctx.note(|| format!("set_stream({p:#x})"));
                    g.set_stream(p);
                }
                3 => {
                    ctx.note(|| "queries".into());
                    let w = g.get_word_pos();
                    let b = g.get_block_pos();
                    let s = g.get_stream();
                    ctx.observe_u(w);
                    ctx.observe_u(b as u128);
                    ctx.observe_u(s as u128);
                    ctx.observe(&g.get_seed());
                }
                4 => {
                    ctx.note(|| "serialize, deserialize, compare".into());
                    let b = g.serialize();
                    ctx.observe(&b);
                    let h = G::deserialize(&b);
                    let e = h == g;
                    ctx.observe(&[e as u8]);
                    if ctx.flag() {
                        g = h;
                    }
                }
                5 => {
                    ctx.note(|| "u32".into());
                    let v = g.next_u32();
                    ctx.observe_u(v as u128);
                }
                6 => {
                    ctx.note(|| "u64".into());
                    let v = g.next_u64();
                    ctx.observe_u(v as u128);
                }
                _ => {
                    let n = gens::small_len(ctx);
                    ctx.note(|| format!("fill({n})"));
                    let mut v = vec![0u8; n];
                    g.fill_bytes(&mut v);
                    ctx.observe(&v);
                }
            }
        }
        ctx.nontrivial = true;
        Ok(())
    }
    match ctx.below(3) {
        0 => go::<chacha20::ChaCha20Rng>(ctx),
        1 => go::<chacha20::ChaCha12Rng>(ctx),
        _ => go::<chacha20::ChaCha8Rng>(ctx),
    }
}

#[allow(unused_variables)]
fn calls_subkey(ctx: &mut Ctx) -> Res {
    let k: [u8; 32] = gens::bytes(ctx, 32).try_into().unwrap();
    let i: [u8; 16] = gens::bytes(ctx, 16).try_into().unwrap();
    ctx.note(|| format!("subkeys of {} with {}", hex(&k), hex(&i)));
    #[cfg(feature = "cc_xchacha")]
    {
        let x = chacha20::hchacha::<chacha20::R20>(&k.into(), &i.into());
        ctx.observe(&x);
        ctx.nontrivial = true;
    }
    #[cfg(feature = "others")]
    {
        use cipher::{StreamCipherCore, StreamCipherSeekCore};
        let x = salsa20::hsalsa::<cipher::consts::U10>(&k.into(), &i.into());
        ctx.observe(&x);
        // cores from a raw state
        let mut raw = [0u32; 16];
        for w in raw.iter_mut() {
            *w = if ctx.flag() { u32::MAX - ctx.draw(3) as u32 } else { ctx.draw(u32::MAX as u64) as u32 };
        }
        let mut c = salsa20::SalsaCore::<cipher::consts::U4>::from_raw_state(raw);
        ctx.note(|| format!("SalsaCore from raw state {raw:x?}"));
        let mut b = [[0u8; 64].into(); 3];
        c.write_keystream_blocks(&mut b);
        ctx.observe_u(c.get_block_pos() as u128);
        for x in &b {
            ctx.observe(x);
        }
        ctx.nontrivial = true;
    }
    let _ = p_subj::DBG_STYLES;
    Ok(())
}
