//! C19: no branch and no memory address of the ChaCha code depends on secrets.
//!
//! Under valgrind's memcheck, secrets are marked as undefined bytes: memcheck follows them
//! through every computation and counts an error whenever a conditional jump or an address
//! depends on one. A generated case is any call history with public lengths and positions.

use crate::engine::*;
#[allow(unused_imports)]
use crate::gens::{self, hex};
use crate::{ensure, fail};

#[cfg(all(target_arch = "x86_64", not(miri)))]
fn request(default: usize, args: [usize; 6]) -> usize {
    let mut r = default;
    unsafe {
        std::arch::asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            inout("rdx") r, in("rax") args.as_ptr(),
        );
    }
    r
}
#[cfg(not(all(target_arch = "x86_64", not(miri))))]
fn request(default: usize, _: [usize; 6]) -> usize {
    default
}
const MC: usize = (b'M' as usize) << 24 | (b'C' as usize) << 16;
pub fn under_valgrind() -> bool {
    request(0, [0x1001, 0, 0, 0, 0, 0]) != 0
}
fn errors() -> usize {
    request(0, [0x1201, 0, 0, 0, 0, 0])
}
fn secret(b: &mut [u8]) {
    request(0, [MC | 1, b.as_ptr() as usize, b.len(), 0, 0, 0]);
}
fn public(b: &mut [u8]) {
    request(0, [MC | 2, b.as_ptr() as usize, b.len(), 0, 0, 0]);
}

/// The detector sees a branch and a table look-up on a secret.
fn control() {
    use std::hint::black_box;
    let mut s = [5u8; 8];
    secret(&mut s);
    let e = errors();
    if unsafe { std::ptr::read_volatile(&s[0]) } > black_box(3) {
        black_box(1);
        eprintln!("control branch");
    }
    let t = black_box([1u8; 256]);
    let e1 = errors();
    let v = t[unsafe { std::ptr::read_volatile(&s[1]) } as usize];
    let mut x = [v];
    public(&mut x);
    let e2 = errors();
    if e1 == e || e2 == e1 {
        eprintln!("HARNESS-ERROR memcheck does not report secret-dependent branches or addresses");
        std::process::exit(3);
    }
    public(&mut s);
}

pub fn c19_secrets(ctx: &mut Ctx) -> Res {
    static ONCE: std::sync::Once = std::sync::Once::new();
    if !under_valgrind() {
        // A replay outside valgrind would prove nothing.
        eprintln!("HARNESS-ERROR this check runs under valgrind");
        std::process::exit(3);
    }
    ONCE.call_once(control);
    let kind = ctx.below(5);
    let before = errors();
    let what = match kind {
        0 | 1 => cipher(ctx)?,
        2 => core(ctx)?,
        3 => rng(ctx)?,
        _ => subkey(ctx)?,
    };
    let n = errors() - before;
    ensure!(n == 0, "secret-dependent branch or address", "{what}: memcheck reports {n} uses of a secret in a branch or address");
    Ok(())
}

fn cipher(ctx: &mut Ctx) -> Result<String, Fail> {
    use crate::ciphers::*;
    let pool = select(|s| matches!(s.fam, Fam::ChaCha | Fam::XChaCha));
    if pool.is_empty() {
        return Ok(String::new());
    }
    let s = *ctx.pick(&pool);
    let mut k = gens::bytes(ctx, s.klen);
    let mut iv = gens::bytes(ctx, s.ivlen);
    let secret_iv = ctx.flag();
    ctx.note(|| format!("{} secret key={} nonce={} (secret: {secret_iv})", s.name, hex(&k), hex(&iv)));
    ctx.label(s.name);
    secret(&mut k);
    if secret_iv {
        secret(&mut iv);
    }
    let Some(mut c) = (if ctx.flag() { s.make } else { s.make_arr })(&k, &iv) else { fail!("construct", "{}: refused", s.name) };
    let n = ctx.range(1, 6);
    let mut at = 0u128;
    let mut work = 0;
    for _ in 0..n {
        match ctx.below(4) {
            0 => {
                let (p, _) = gens::pos(ctx, s);
                ctx.note(|| format!("seek({p})"));
                c.seek(3, p);
                at = p;
            }
            1 => {
                let p = c.pos(3).flatten();
                if p != Some(at) {
                    ctx.label("position differs");
                }
            }
            _ => {
                let mut len = gens::small_len(ctx);
                len = len.min((s.end().unwrap() - at).min(1 << 20) as usize);
                let api = ctx.below(N_API);
                let mut inp = gens::bytes(ctx, len);
                ctx.note(|| format!("{}({len} secret bytes)", APIS[api]));
                let mut out = inp.clone();
                secret(&mut inp);
                secret(&mut out);
                c.call(api, &inp, &mut out);
                public(&mut out);
                at += len as u128;
                work += len;
            }
        }
    }
    drop(c);
    ctx.nontrivial = work > 0;
    Ok(s.name.into())
}

fn core(ctx: &mut Ctx) -> Result<String, Fail> {
    use crate::p_core::{Op, cores};
    let pool: Vec<_> = cores().iter().filter(|c| c.name.contains("ChaCha")).collect();
    if pool.is_empty() {
        return Ok(String::new());
    }
    let s = pool[ctx.below(pool.len())];
    let mut k = gens::bytes(ctx, s.klen);
    let mut iv = gens::bytes(ctx, s.ivlen);
    ctx.note(|| format!("{} secret key={} nonce={}", s.name, hex(&k), hex(&iv)));
    ctx.label(s.name);
    secret(&mut k);
    secret(&mut iv);
    let mut c = (s.make)(&k, &iv);
    let n = ctx.range(1, 5);
    for _ in 0..n {
        match ctx.below(4) {
            0 => {
                let p = gens::block_index(ctx, s.ctr.unwrap()).0;
                c.set_pos(p);
            }
            1 => {
                let ops = [Op::One, Op::Par, Op::Tail(ctx.range(0, 15)), Op::One];
                let mut out = Vec::new();
                // the harness looks at blocks beyond a tail, which hold nothing secret
                c.session(&ops[..ctx.range(1, 4)], &mut out);
                public(&mut out);
            }
            _ => {
                let nb = ctx.range(1, 20);
                let mut v = gens::bytes(ctx, 64 * nb);
                secret(&mut v);
                ctx.note(|| format!("{nb} blocks"));
                c.apply(3, &[], &mut v);
                public(&mut v);
            }
        }
    }
    let p = c.get_pos();
    if p == Some(u64::MAX - 7) {
        ctx.label("position at a particular place");
    }
    ctx.nontrivial = true;
    Ok(s.name.into())
}

#[cfg(not(feature = "cc_rng"))]
fn rng(_: &mut Ctx) -> Result<String, Fail> {
    Ok(String::new())
}
#[cfg(feature = "cc_rng")]
fn rng(ctx: &mut Ctx) -> Result<String, Fail> {
    use crate::p_rng::{RngX, stream, word_pos};
    use chacha20::rand_core::Rng;
    fn go<G: RngX>(ctx: &mut Ctx) -> Result<String, Fail> {
        let mut s: [u8; 32] = gens::bytes(ctx, 32).try_into().unwrap();
        ctx.note(|| format!("{} secret seed={}", G::NAME, hex(&s)));
        ctx.label(G::NAME);
        secret(&mut s);
        let mut g = G::from_seed(s);
        let n = ctx.range(1, 10);
        for _ in 0..n {
            match ctx.below(9) {
                0 => {
                    let (p, _) = word_pos(ctx);
                    ctx.note(|| format!("set_word_pos({p:#x})"));
                    g.set_word_pos(p)
                }
                1 => {
                    let p = stream(ctx);
                    ctx.note(|| format!("set_stream({p:#x})"));
                    g.set_stream(p)
                }
                2 => {
                    let p = gens::block_index(ctx, 64).0;
                    g.set_block_pos(p)
                }
                3 => {
                    // reported positions are public
                    let w = g.get_word_pos();
                    let b = g.get_block_pos();
                    if (w >> 4) as u64 != b || g.get_stream() == 12345 {
                        ctx.label("positions disagree");
                    }
                }
                4 => {
                    let mut v = [g.next_u32()];
                    std::hint::black_box(&mut v);
                }
                5 => {
                    let mut v = [g.next_u64()];
                    std::hint::black_box(&mut v);
                }
                6 => {
                    ctx.note(|| "serialize and restore".into());
                    let b = g.serialize();
                    g = G::deserialize(&b);
                    let mut sd = g.get_seed();
                    public(&mut sd);
                }
                _ => {
                    let n = gens::small_len(ctx);
                    let mut v = vec![0u8; n];
                    ctx.note(|| format!("fill({n})"));
                    g.fill_bytes(&mut v);
                    public(&mut v);
                }
            }
        }
        ctx.nontrivial = true;
        Ok(G::NAME.into())
    }
    match ctx.below(3) {
        0 => go::<chacha20::ChaCha20Rng>(ctx),
        1 => go::<chacha20::ChaCha12Rng>(ctx),
        _ => go::<chacha20::ChaCha8Rng>(ctx),
    }
}

#[cfg(not(feature = "cc_xchacha"))]
fn subkey(_: &mut Ctx) -> Result<String, Fail> {
    Ok(String::new())
}
#[cfg(feature = "cc_xchacha")]
fn subkey(ctx: &mut Ctx) -> Result<String, Fail> {
    let mut k: [u8; 32] = gens::bytes(ctx, 32).try_into().unwrap();
    let mut i: [u8; 16] = gens::bytes(ctx, 16).try_into().unwrap();
    ctx.note(|| format!("subkey of secret {} with secret {}", hex(&k), hex(&i)));
    ctx.label("subkey derivation");
    secret(&mut k);
    secret(&mut i);
    let mut r = match ctx.below(3) {
        0 => chacha20::hchacha::<chacha20::R20>(&k.into(), &i.into()),
        1 => chacha20::hchacha::<chacha20::R12>(&k.into(), &i.into()),
        _ => chacha20::hchacha::<chacha20::R8>(&k.into(), &i.into()),
    };
    public(&mut r);
    ctx.nontrivial = true;
    Ok("subkey derivation".into())
}
