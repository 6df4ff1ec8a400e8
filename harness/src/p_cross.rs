//! C22: short histories over everything, cheap enough for an interpreter. Natively every output is
//! compared with the model; on other targets (interpreted) the outputs' digest is compared with
//! the native one of the same case, and the interpreter watches for undefined behaviour.

use crate::ciphers::*;
use crate::engine::*;
use crate::gens::{self, hex};
use crate::p_core::{Op, cores};
use crate::p_stream::first_diff;
use crate::ensure;

const MODEL: bool = !cfg!(miri);

/// Few, short calls: sizes that reach full batches, tails and partly used buffers.
fn size(ctx: &mut Ctx) -> usize {
    match ctx.weighted(&[4, 4, 3, 3]) {
        0 => *ctx.pick(&[1usize, 0, 3, 4, 16, 17, 63, 64, 65]),
        1 => ctx.range(1, 150),
        2 => {
            let n = ctx.range(2, 5) * 64;
            n + ctx.range(0, 2) - 1
        }
        _ => {
            let n = ctx.range(5, 11) * 64;
            n + ctx.range(0, 63)
        }
    }
}

pub fn c22_any(ctx: &mut Ctx) -> Res {
    match ctx.weighted(&[5, 3, 3, 1]) {
        0 => cipher(ctx, |s| s.fam != Fam::Hc, 3),
        1 => core(ctx),
        2 => rng(ctx),
        _ => subkey(ctx),
    }
}
/// HC-256 apart, for its costly set-up.
pub fn c22_hc(ctx: &mut Ctx) -> Res {
    cipher(ctx, |s| s.fam == Fam::Hc, 2)
}

fn cipher(ctx: &mut Ctx, f: fn(&Spec) -> bool, calls: usize) -> Res {
    let pool = select(f);
    if pool.is_empty() {
        return Ok(());
    }
    let s = *ctx.pick(&pool);
    ctx.label(s.name);
    let k = gens::key(ctx, s);
    let iv = gens::iv(ctx, s, &k);
    ctx.note(|| format!("{} key={} nonce={}", s.name, hex(&k), hex(&iv)));
    let Some(mut c) = (s.make)(&k, &iv) else { crate::fail!("constructor", "{}: refused", s.name) };
    let mut m = if MODEL { Some((s.model)(&k, &iv)) } else { None };
    let mut pos = 0u128;
    let n = ctx.range(1, calls);
    for _ in 0..n {
        if s.seekable() && ctx.flag() {
            let (p, _) = gens::pos(ctx, s);
            // every integer type has the same width everywhere, except usize
            let ty = if p <= i32::MAX as u128 { *ctx.pick(&[3usize, 0, 1, 2]) } else { *ctx.pick(&[3usize, 2]) };
            if p <= seek_max(ty) {
                ctx.note(|| format!("seek::<{}>({p})", SEEK_TYPES[ty]));
                ensure!(c.seek(ty, p) == Some(true), "seek", "{}: seek({p}) refused", s.name);
                pos = p;
            }
        }
        let len = size(ctx);
        let api = *ctx.pick(&TRY_APIS);
        let data: Vec<u8> = if api_is_write(api) { vec![0; len] } else { (0..len).map(|i| i as u8).collect() };
        let mut out = data.clone();
        ctx.note(|| format!("{}({len})", APIS[api]));
        let ok = c.call(api, &data, &mut out);
        let fits = s.end().map(|e| len as u128 <= e - pos).unwrap_or(true);
        ensure!(ok == fits, "limit", "{}: {len} bytes at {pos}: ok={ok}", s.name);
        ctx.observe(&[ok as u8]);
        ctx.observe(&out);
        if ok {
            if let Some(m) = &mut m {
                let mut w = vec![0; len];
                m.fill(pos, &mut w);
                for (w, d) in w.iter_mut().zip(&data) {
                    *w ^= d;
                }
                ensure!(out == w, "keystream", "{} at {pos}: {}", s.name, first_diff(&out, &w));
            }
            pos += len as u128;
            ctx.nontrivial |= len > 0;
        }
        if let Some(p) = c.pos(3) {
            ensure!(p == Some(pos), "position", "{}: position {p:?}, want {pos}", s.name);
        }
    }
    ctx.observe_u(pos);
    Ok(())
}

fn core(ctx: &mut Ctx) -> Res {
    let pool: Vec<_> = cores().iter().filter(|c| c.name != "Hc256Core").collect();
    if pool.is_empty() {
        return Ok(());
    }
    let s = pool[ctx.below(pool.len())];
    ctx.label(s.name);
    let k = gens::bytes(ctx, s.klen);
    let iv = gens::bytes(ctx, s.ivlen);
    let mut c = (s.make)(&k, &iv);
    let bs = c.bs();
    let mut pos = 0u64;
    ctx.note(|| format!("{} key={} nonce={}", s.name, hex(&k), hex(&iv)));
    if let Some(b) = s.ctr {
        pos = gens::block_index(ctx, b).0;
        c.set_pos(pos);
        ctx.note(|| format!("set_block_pos({pos:#x})"));
    }
    let mut m = if MODEL { Some((s.model)(&k, &iv)) } else { None };
    let n = ctx.range(1, 3);
    for _ in 0..n {
        let nb = ctx.range(0, 10);
        let mut out = vec![0u8; nb * bs];
        match ctx.below(3) {
            0 => {
                ctx.note(|| format!("write {nb} blocks"));
                c.write_blocks(&mut out)
            }
            1 => {
                ctx.note(|| format!("apply {nb} blocks"));
                let i = out.clone();
                c.apply(4, &i, &mut out)
            }
            _ => {
                // only the single-block and tail calls have the same size for every backend
                let t = ctx.range(0, 3);
                ctx.note(|| format!("session One, Tail({t})"));
                out.clear();
                let mut v = Vec::new();
                let par = c.session(&[Op::One], &mut v);
                if par > 3 {
                    c.session(&[Op::Tail(t)], &mut v);
                } else {
                    for _ in 0..t {
                        c.session(&[Op::One], &mut v);
                    }
                }
                out = v;
            }
        }
        let nb = out.len() / bs;
        ctx.observe(&out);
        if let Some(m) = &mut m {
            let w = crate::p_core::model_blocks(m, s.ctr, bs, pos, nb);
            ensure!(out == w, "keystream", "{}: {nb} blocks from {pos:#x}: {}", s.name, first_diff(&out, &w));
        }
        pos = crate::p_core::adv(pos, nb as u64, s.ctr);
        if s.ctr.is_some() {
            ensure!(c.get_pos() == Some(pos), "block position", "{}: at {:?}, want {pos:#x}", s.name, c.get_pos());
        }
        ctx.nontrivial |= nb > 0;
    }
    Ok(())
}

#[cfg(not(feature = "cc_rng"))]
fn rng(_: &mut Ctx) -> Res {
    Ok(())
}
#[cfg(feature = "cc_rng")]
fn rng(ctx: &mut Ctx) -> Res {
    use crate::p_rng::{RngX, stream, word_pos};
    use crate::refs::{POS_MASK, RngModel};
    use chacha20::rand_core::Rng;
    fn go<G: RngX>(ctx: &mut Ctx) -> Res {
        let seed: [u8; 32] = gens::bytes(ctx, 32).try_into().unwrap();
        let mut g = G::from_seed(seed);
        let mut m = RngModel::new(seed, G::ROUNDS);
        ctx.note(|| format!("{} seed={}", G::NAME, hex(&seed)));
        ctx.label(G::NAME);
        let n = ctx.range(1, 6);
        for _ in 0..n {
            match ctx.below(8) {
                0 => {
                    let (w, _) = word_pos(ctx);
                    ctx.note(|| format!("set_word_pos({w:#x})"));
                    g.set_word_pos(w);
                    m.pos = w & POS_MASK;
                }
                1 => {
                    let s = stream(ctx);
                    ctx.note(|| format!("set_stream({s:#x})"));
                    g.set_stream(s);
                    m.set_stream(s);
                }
                2 => {
                    let b = g.serialize();
                    ctx.note(|| "serialize and restore".into());
                    ctx.observe(&b);
                    let h = G::deserialize(&b);
                    ensure!(h == g, "equality", "{}: restored generator differs", G::NAME);
                    g = h;
                }
                3 => {
                    ctx.note(|| "u32".into());
                    let v = g.next_u32();
                    ctx.observe_u(v as u128);
                    if MODEL {
                        let w = m.word();
                        ensure!(v == w, "output", "{}: u32 {v:#x}, want {w:#x}", G::NAME);
                    } else {
                        m.pos = (m.pos + 1) & POS_MASK;
                    }
                }
                4 => {
                    ctx.note(|| "u64".into());
                    let v = g.next_u64();
                    ctx.observe_u(v as u128);
                    if MODEL {
                        let w = m.u64();
                        ensure!(v == w, "output", "{}: u64 {v:#x}, want {w:#x}", G::NAME);
                    } else {
                        m.pos = (m.pos + 2) & POS_MASK;
                    }
                }
                5 => {
                    let b = gens::block_index(ctx, 64).0;
                    ctx.note(|| format!("set_block_pos({b:#x})"));
                    g.set_block_pos(b);
                    m.pos = b as u128 * 16;
                }
                _ => {
                    let n = size(ctx).min(400);
                    ctx.note(|| format!("fill({n})"));
                    let mut v = vec![0u8; n];
                    g.fill_bytes(&mut v);
                    ctx.observe(&v);
                    if MODEL {
                        let mut w = vec![0u8; n];
                        m.bytes(&mut w);
                        ensure!(v == w, "output", "{}: fill({n}): {}", G::NAME, first_diff(&v, &w));
                    } else {
                        m.pos = (m.pos + n.div_ceil(4) as u128) & POS_MASK;
                    }
                    ctx.nontrivial |= n > 0;
                }
            }
            let (w, b, st) = (g.get_word_pos(), g.get_block_pos(), g.get_stream());
            ctx.observe_u(w);
            ctx.observe_u(b as u128);
            ctx.observe_u(st as u128);
            ensure!(w == m.pos && b == (m.pos / 16) as u64 && st == m.stream, "accounting", "{}: word {w:#x} block {b:#x} stream {st:#x}, want word {:#x} stream {:#x}", G::NAME, m.pos, m.stream);
        }
        let s = g.get_seed();
        ensure!(s == seed, "seed", "{}: seed {}", G::NAME, hex(&s));
        Ok(())
    }
    match ctx.below(4) {
        0 => go::<chacha20::ChaCha20Rng>(ctx),
        1 => go::<chacha20::ChaCha12Rng>(ctx),
        2 => go::<chacha20::ChaCha8Rng>(ctx),
        _ => {
            // the block generator itself
            use chacha20::rand_core::{SeedableRng, block::Generator};
            use chacha20::{ChaChaCore, R8, variants::Legacy};
            let seed: [u8; 32] = gens::bytes(ctx, 32).try_into().unwrap();
            let mut g = ChaChaCore::<R8, Legacy>::from_seed(seed);
            let p = gens::block_index(ctx, 64).0;
            g.set_block_pos(p);
            ctx.note(|| format!("ChaChaCore<R8,Legacy> seed={} set_block_pos({p:#x}), generate", hex(&seed)));
            ctx.label("generator");
            let mut b = [0u32; 64];
            g.generate(&mut b);
            let out: Vec<u8> = b.iter().flat_map(|w| w.to_le_bytes()).collect();
            ctx.observe(&out);
            ctx.observe_u(g.get_block_pos() as u128);
            if MODEL {
                let mut m = RngModel::new(seed, 8);
                m.pos = p as u128 * 16;
                let mut w = vec![0u8; 256];
                m.bytes(&mut w);
                ensure!(out == w, "generator", "generator at {p:#x}: {}", first_diff(&out, &w));
            }
            ctx.nontrivial = true;
            Ok(())
        }
    }
}

#[allow(unused_variables)]
fn subkey(ctx: &mut Ctx) -> Res {
    let k: [u8; 32] = gens::bytes(ctx, 32).try_into().unwrap();
    let i: [u8; 16] = gens::bytes(ctx, 16).try_into().unwrap();
    let r = ctx.below(3);
    ctx.note(|| format!("subkeys ({} rounds) of {} with {}", [20, 12, 8][r], hex(&k), hex(&i)));
    ctx.label("subkey derivation");
    #[cfg(feature = "cc_xchacha")]
    {
        use chacha20::{R8, R12, R20, hchacha};
        let x = match r {
            0 => hchacha::<R20>(&k.into(), &i.into()),
            1 => hchacha::<R12>(&k.into(), &i.into()),
            _ => hchacha::<R8>(&k.into(), &i.into()),
        };
        ctx.observe(&x);
        if MODEL {
            let w = crate::refs::hchacha(&k, &i, [20, 12, 8][r]);
            ensure!(x[..] == w, "subkey", "hchacha: {}", first_diff(&x, &w));
        }
        ctx.nontrivial = true;
    }
    #[cfg(feature = "others")]
    {
        use cipher::consts::{U4, U6, U10};
        use salsa20::hsalsa;
        let x = match r {
            0 => hsalsa::<U10>(&k.into(), &i.into()),
            1 => hsalsa::<U6>(&k.into(), &i.into()),
            _ => hsalsa::<U4>(&k.into(), &i.into()),
        };
        ctx.observe(&x);
        if MODEL {
            let w = crate::refs::hsalsa(&k, &i, [20, 12, 8][r]);
            ensure!(x[..] == w, "subkey", "hsalsa: {}", first_diff(&x, &w));
        }
        ctx.nontrivial = true;
    }
    Ok(())
}
