//! C01-C06 (conformance), C08 (chunking), C09 (pure XOR), C10 (seeking), C11 (end of keystream).

use crate::ciphers::*;
use crate::engine::*;
use crate::gens::{self, hex};
use crate::refs;
use crate::{ensure, fail};

pub fn mk(s: &Spec, k: &[u8], i: &[u8]) -> Result<Box<dyn Cip>, Fail> {
    match (s.make)(k, i) {
        Some(c) => Ok(c),
        None => Err(Fail {
            sig: "constructor".into(),
            msg: format!("{}: constructor refused key of {} and nonce of {} bytes", s.name, k.len(), i.len()),
        }),
    }
}

/// Runs one call and returns `input XOR keystream` as the caller would obtain it.
pub fn xform(c: &mut dyn Cip, api: usize, inp: &[u8]) -> Result<Vec<u8>, Fail> {
    let mut out = if api_in_place(api) { inp.to_vec() } else { vec![0xA5u8; inp.len()] };
    if !c.call(api, inp, &mut out) {
        return Err(Fail {
            sig: "refused".into(),
            msg: format!("{} refused a request of {} bytes that fits", APIS[api], inp.len()),
        });
    }
    if api_is_write(api) {
        for (o, x) in out.iter_mut().zip(inp) {
            *o ^= x;
        }
    }
    Ok(out)
}

pub fn first_diff(a: &[u8], b: &[u8]) -> String {
    if a.len() != b.len() {
        return format!("lengths {} and {} differ", a.len(), b.len());
    }
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(i) => {
            let e = (i + 8).min(a.len());
            let n = a.iter().zip(b).filter(|(x, y)| x != y).count();
            format!("first difference at byte {i} ({n} of {} bytes differ): got {} want {}", a.len(), hex(&a[i..e]), hex(&b[i..e]))
        }
        None => "no difference".into(),
    }
}

pub fn seek_to(c: &mut dyn Cip, pos: u128) -> Res {
    let ty = if pos <= u64::MAX as u128 { 2 } else { 3 };
    match c.seek(ty, pos) {
        Some(true) => Ok(()),
        _ => Err(Fail { sig: "seek".into(), msg: format!("seek to valid position {pos} refused") }),
    }
}

/// Conformance of a stream to its model: from a position, a few consecutive reads.
fn conform(ctx: &mut Ctx, pool: &[&'static Spec]) -> Res {
    if pool.is_empty() {
        return Ok(());
    }
    let s = *ctx.pick(pool);
    let k = gens::key(ctx, s);
    let iv = gens::iv(ctx, s, &k);
    let mut c = mk(s, &k, &iv)?;
    let mut m = (s.model)(&k, &iv);
    let mut pos = 0u128;
    let mut at = "start";
    if s.seekable() {
        let (p, l) = gens::pos(ctx, s);
        pos = p;
        at = l;
        if p != 0 || ctx.flag() {
            seek_to(&mut *c, p)?;
        }
    }
    let n = 1 + ctx.weighted(&[5, 3, 2]);
    ctx.note(|| format!("{} key={} nonce={} pos={pos}", s.name, hex(&k), hex(&iv)));
    ctx.label(format!("cipher:{}", s.name));
    ctx.label(format!("at:{at}"));
    let mut total = 0;
    for _ in 0..n {
        let mut len = gens::len(ctx);
        if let Some(e) = s.end() {
            len = len.min((e - pos).min(1 << 20) as usize);
        }
        let api = ctx.below(N_API);
        let data = if ctx.one_in(3) { gens::bytes(ctx, len) } else { vec![0u8; len] };
        ctx.note(|| format!("{}({len})", APIS[api]));
        let got = xform(&mut *c, api, &data)?;
        let mut want = vec![0u8; len];
        m.fill(pos, &mut want);
        for (w, d) in want.iter_mut().zip(&data) {
            *w ^= d;
        }
        ensure!(got == want, "keystream", "{} at position {pos}: {}", s.name, first_diff(&got, &want));
        ctx.label(gens::len_class(len));
        ctx.observe(&got);
        pos += len as u128;
        total += len;
    }
    if let Some(b) = s.ctr {
        let b0 = ((pos - total as u128) / 64) as u64;
        let b1 = (pos / 64) as u64;
        if b == 64 && (b0 >> 32) != (b1 >> 32) {
            ctx.label("low counter half carried during the case");
        }
        if pos == s.end().unwrap() {
            ctx.label("read up to the last byte");
        }
    }
    ctx.nontrivial = total > 0;
    Ok(())
}

pub fn c01_stream(ctx: &mut Ctx) -> Res {
    conform(ctx, &select(|s| s.fam == Fam::ChaCha))
}
pub fn c02_stream(ctx: &mut Ctx) -> Res {
    conform(ctx, &select(|s| matches!(s.fam, Fam::XChaCha | Fam::XSalsa)))
}
pub fn c03_stream(ctx: &mut Ctx) -> Res {
    conform(ctx, &select(|s| s.fam == Fam::Salsa))
}

/// One large request, against the model.
fn big(ctx: &mut Ctx, pool: &[&'static Spec], max: usize) -> Res {
    if pool.is_empty() {
        return Ok(());
    }
    let s = *ctx.pick(pool);
    let k = gens::key(ctx, s);
    let iv = gens::iv(ctx, s, &k);
    let mut c = mk(s, &k, &iv)?;
    let mut m = (s.model)(&k, &iv);
    let mut pos = 0u128;
    if s.seekable() {
        pos = gens::pos(ctx, s).0;
        seek_to(&mut *c, pos)?;
    }
    let mut len = ctx.range(1, max);
    if let Some(e) = s.end() {
        len = len.min((e - pos).min(1 << 30) as usize);
    }
    let api = ctx.below(N_API);
    ctx.note(|| format!("{} key={} nonce={} pos={pos} {}({len})", s.name, hex(&k), hex(&iv), APIS[api]));
    ctx.label(format!("cipher:{}", s.name));
    let got = xform(&mut *c, api, &vec![0u8; len])?;
    let mut want = vec![0u8; len];
    m.fill(pos, &mut want);
    ensure!(got == want, "keystream", "{} at position {pos}, {len} bytes: {}", s.name, first_diff(&got, &want));
    ctx.observe(&got);
    ctx.nontrivial = len > 1000;
    Ok(())
}
pub fn c01_big(ctx: &mut Ctx) -> Res {
    big(ctx, &select(|s| s.fam == Fam::ChaCha), 2 << 20)
}
pub fn c02_big(ctx: &mut Ctx) -> Res {
    big(ctx, &select(|s| matches!(s.fam, Fam::XChaCha | Fam::XSalsa)), 2 << 20)
}
pub fn c03_big(ctx: &mut Ctx) -> Res {
    big(ctx, &select(|s| s.fam == Fam::Salsa), 2 << 20)
}

/// Sequential ciphers: long streams in pieces, against the model.
fn seq(ctx: &mut Ctx, fam: Fam, max_piece: usize) -> Res {
    let pool = select(|s| s.fam == fam);
    if pool.is_empty() {
        return Ok(());
    }
    let s = *ctx.pick(&pool);
    let k = gens::key(ctx, s);
    let iv = gens::iv(ctx, s, &k);
    let mut c = mk(s, &k, &iv)?;
    let mut m = (s.model)(&k, &iv);
    ctx.note(|| format!("{} key={} iv={}", s.name, hex(&k), hex(&iv)));
    ctx.label(format!("cipher:{}", s.name));
    if s.klen == 0 {
        ctx.label(match k.len() {
            1 => "key:1",
            2..=16 => "key:2-16",
            17..=64 => "key:17-64",
            65..=255 => "key:65-255",
            _ => "key:256",
        });
    }
    let n = 1 + ctx.weighted(&[5, 4, 2, 1]);
    let mut pos = 0usize;
    for _ in 0..n {
        let len = match ctx.weighted(&[6, 3, 1]) {
            0 => gens::len(ctx),
            1 => {
                let c = max_piece.min(20000);
                ctx.range(0, c)
            }
            _ => ctx.range(0, max_piece),
        };
        let api = ctx.below(N_API);
        let data = if ctx.one_in(3) { gens::bytes(ctx, len) } else { vec![0u8; len] };
        ctx.note(|| format!("{}({len})", APIS[api]));
        let got = xform(&mut *c, api, &data)?;
        let mut want = vec![0u8; len];
        m.fill(0, &mut want);
        for (w, d) in want.iter_mut().zip(&data) {
            *w ^= d;
        }
        ensure!(got == want, "keystream", "{} at offset {pos}: {}", s.name, first_diff(&got, &want));
        ctx.observe(&got);
        pos += len;
    }
    ctx.label(match pos {
        0..=63 => "stream:<64",
        64..=1023 => "stream:<1K",
        1024..=8191 => "stream:<8K",
        8192..=65535 => "stream:<64K",
        _ => "stream:>=64K",
    });
    ctx.nontrivial = pos > 0;
    Ok(())
}
pub fn c04_stream(ctx: &mut Ctx) -> Res {
    let m = if ctx.small { 600 } else { 200_000 };
    seq(ctx, Fam::Rabbit, m)
}
pub fn c05_stream(ctx: &mut Ctx) -> Res {
    let m = if ctx.small { 300 } else { 200_000 };
    seq(ctx, Fam::Hc, m)
}
pub fn c06_stream(ctx: &mut Ctx) -> Res {
    let m = if ctx.small { 600 } else { 200_000 };
    seq(ctx, Fam::Rc4, m)
}

/// RC4 with every key length from 1 to 256 (the case's index in the enumeration is drawn, so a
/// run of many cases covers all lengths; the evidence counts them).
pub fn c06_keylen(ctx: &mut Ctx) -> Res {
    let pool = select(|s| s.fam == Fam::Rc4);
    if pool.is_empty() {
        return Ok(());
    }
    let s = pool[0];
    let n = ctx.range(1, 256);
    let k = gens::bytes(ctx, n);
    let mut c = mk(s, &k, &[])?;
    let mut m = (s.model)(&k, &[]);
    let len = if ctx.small { 64 } else { 600 };
    let mut a = vec![0u8; len];
    let mut b = vec![0u8; len];
    ctx.note(|| format!("Rc4 key={}", hex(&k)));
    c.call(8, &[], &mut a);
    m.fill(0, &mut b);
    ensure!(a == b, "keystream", "Rc4 with a {n}-byte key: {}", first_diff(&a, &b));
    ctx.label(format!("key length {:03}-{:03}", (n - 1) / 32 * 32 + 1, (n - 1) / 32 * 32 + 32));
    ctx.nontrivial = true;
    Ok(())
}

// ------------------------------------------------------------------ subkey functions (C02)

#[cfg(feature = "cc_xchacha")]
#[derive(Clone, Copy, Debug)]
pub struct CustomRounds<const N: usize>;
#[cfg(feature = "cc_xchacha")]
impl<const N: usize> chacha20::Rounds for CustomRounds<N> {
    const COUNT: usize = N;
}

#[allow(unused_variables)]
pub fn c02_subkey(ctx: &mut Ctx) -> Res {
    let mut which: Vec<(&'static str, usize, fn(&[u8; 32], &[u8; 16]) -> [u8; 32])> = Vec::new();
    #[cfg(feature = "cc_xchacha")]
    {
        use chacha20::hchacha;
        which.push(("hchacha20", 20, |k, i| hchacha::<chacha20::R20>(&(*k).into(), &(*i).into()).into()));
        which.push(("hchacha12", 12, |k, i| hchacha::<chacha20::R12>(&(*k).into(), &(*i).into()).into()));
        which.push(("hchacha8", 8, |k, i| hchacha::<chacha20::R8>(&(*k).into(), &(*i).into()).into()));
        which.push(("hchacha2", 2, |k, i| hchacha::<CustomRounds<1>>(&(*k).into(), &(*i).into()).into()));
        which.push(("hchacha14", 14, |k, i| hchacha::<CustomRounds<7>>(&(*k).into(), &(*i).into()).into()));
    }
    #[cfg(feature = "others")]
    {
        use cipher::consts::{U1, U4, U6, U7, U10};
        use salsa20::hsalsa;
        which.push(("hsalsa20", 20, |k, i| hsalsa::<U10>(&(*k).into(), &(*i).into()).into()));
        which.push(("hsalsa12", 12, |k, i| hsalsa::<U6>(&(*k).into(), &(*i).into()).into()));
        which.push(("hsalsa8", 8, |k, i| hsalsa::<U4>(&(*k).into(), &(*i).into()).into()));
        which.push(("hsalsa2", 2, |k, i| hsalsa::<U1>(&(*k).into(), &(*i).into()).into()));
        which.push(("hsalsa14", 14, |k, i| hsalsa::<U7>(&(*k).into(), &(*i).into()).into()));
    }
    if which.is_empty() {
        return Ok(());
    }
    let (name, r, f) = *ctx.pick(&which);
    let k: [u8; 32] = gens::bytes(ctx, 32).try_into().unwrap();
    let i: [u8; 16] = gens::bytes(ctx, 16).try_into().unwrap();
    ctx.note(|| format!("{name} key={} input={}", hex(&k), hex(&i)));
    let got = f(&k, &i);
    let want = if name.starts_with("hc") { refs::hchacha(&k, &i, r) } else { refs::hsalsa(&k, &i, r) };
    ensure!(got == want, "subkey", "{name}: {}", first_diff(&got, &want));
    ctx.observe(&got);
    ctx.label(name);
    ctx.nontrivial = true;
    Ok(())
}

/// The extended-nonce ciphers are the base cipher under the derived subkey, using only the
/// crate's own functions (no model).
#[allow(unused_variables)]
pub fn c02_compose(ctx: &mut Ctx) -> Res {
    type Sub = fn(&[u8; 32], &[u8; 16]) -> [u8; 32];
    let mut which: Vec<(&'static str, &'static str, usize, Sub)> = Vec::new();
    #[cfg(feature = "cc_xchacha")]
    {
        use chacha20::hchacha;
        which.push(("XChaCha20", "ChaCha20", 4, |k, i| hchacha::<chacha20::R20>(&(*k).into(), &(*i).into()).into()));
        which.push(("XChaCha12", "ChaCha12", 4, |k, i| hchacha::<chacha20::R12>(&(*k).into(), &(*i).into()).into()));
        which.push(("XChaCha8", "ChaCha8", 4, |k, i| hchacha::<chacha20::R8>(&(*k).into(), &(*i).into()).into()));
    }
    #[cfg(feature = "others")]
    {
        use cipher::consts::{U4, U6, U10};
        use salsa20::hsalsa;
        which.push(("XSalsa20", "Salsa20", 0, |k, i| hsalsa::<U10>(&(*k).into(), &(*i).into()).into()));
        which.push(("XSalsa12", "Salsa12", 0, |k, i| hsalsa::<U6>(&(*k).into(), &(*i).into()).into()));
        which.push(("XSalsa8", "Salsa8", 0, |k, i| hsalsa::<U4>(&(*k).into(), &(*i).into()).into()));
    }
    if which.is_empty() {
        return Ok(());
    }
    let (xn, bn, pad, sub) = *ctx.pick(&which);
    let k: [u8; 32] = gens::bytes(ctx, 32).try_into().unwrap();
    let n = gens::bytes(ctx, 24);
    let xs = select(|s| s.name == xn)[0];
    let bs = select(|s| s.name == bn)[0];
    let sk = sub(&k, n[..16].try_into().unwrap());
    let mut bn = vec![0u8; pad];
    bn.extend_from_slice(&n[16..]);
    let (p, _) = gens::pos(ctx, xs);
    let len = gens::small_len(ctx).min((xs.end().unwrap() - p).min(1 << 20) as usize);
    ctx.note(|| format!("{xn} key={} nonce={} pos={p} len={len}", hex(&k), hex(&n)));
    let mut x = mk(xs, &k, &n)?;
    let mut b = mk(bs, &sk, &bn)?;
    seek_to(&mut *x, p)?;
    seek_to(&mut *b, p)?;
    let got = xform(&mut *x, 0, &vec![0; len])?;
    let want = xform(&mut *b, 0, &vec![0; len])?;
    ensure!(got == want, "composition", "{xn} is not its base cipher under the derived key: {}", first_diff(&got, &want));
    ctx.label(xn);
    ctx.nontrivial = len > 0;
    Ok(())
}

// ------------------------------------------------------------------ raw Salsa state (C03)

pub fn c03_raw(ctx: &mut Ctx) -> Res {
    #[cfg(feature = "others")]
    {
        use cipher::consts::{U1, U4, U6, U10};
        use cipher::typenum::Unsigned;
        use cipher::{StreamCipherCore, StreamCipherCoreWrapper, StreamCipherSeekCore};
        use salsa20::SalsaCore;
        fn go<R: Unsigned>(ctx: &mut Ctx, st: [u32; 16], seek: Option<u64>, reads: &[usize], rounds: usize) -> Res {
            let mut core = SalsaCore::<R>::from_raw_state(st);
            let own = (st[8] as u64) | ((st[9] as u64) << 32);
            ensure!(core.get_block_pos() == own, "raw-state", "block position {} after from_raw_state, want {own}", core.get_block_pos());
            let start = seek.unwrap_or(own);
            if seek.is_some() {
                core.set_block_pos(start);
            }
            let _ = core.remaining_blocks();
            let mut w = StreamCipherCoreWrapper::from_core(core);
            let mut words = st;
            words[8] = 0;
            words[9] = 0;
            let m = refs::CtrModel { kind: refs::Kind::Salsa, words, lo: 8, hi: Some(9), rounds };
            let mut pos = start as u128 * 64;
            for &n in reads {
                let n = n.min((u64::MAX as u128 * 64 - pos).min(1 << 20) as usize);
                let mut out = vec![0u8; n];
                use cipher::StreamCipher;
                ensure!(w.try_apply_keystream(&mut out).is_ok(), "refused", "request of {n} bytes refused at {pos}");
                let mut want = vec![0u8; n];
                m.fill(pos, &mut want);
                ensure!(out == want, "keystream", "raw-state Salsa ({rounds} rounds) at {pos}: {}", first_diff(&out, &want));
                ctx.observe(&out);
                pos += n as u128;
            }
            Ok(())
        }
        let raw = gens::bytes(ctx, 64);
        let mut st = [0u32; 16];
        for (w, b) in st.iter_mut().zip(raw.chunks(4)) {
            *w = u32::from_le_bytes(b.try_into().unwrap());
        }
        let seek = if ctx.flag() {
            let (b, _) = gens::block_index(ctx, 64);
            if ctx.flag() {
                st[8] = b as u32;
                st[9] = (b >> 32) as u32;
                None
            } else {
                Some(b)
            }
        } else {
            None
        };
        let n = ctx.range(1, 3);
        let reads: Vec<usize> = (0..n).map(|_| gens::small_len(ctx)).collect();
        let r = ctx.below(4);
        ctx.note(|| format!("from_raw_state({}) rounds#{r} set_block_pos={seek:?} reads={reads:?}", hex(&raw)));
        ctx.nontrivial = reads.iter().any(|&x| x > 0);
        ctx.label(format!("rounds {}", [20, 12, 8, 2][r]));
        return match r {
            0 => go::<U10>(ctx, st, seek, &reads, 20),
            1 => go::<U6>(ctx, st, seek, &reads, 12),
            2 => go::<U4>(ctx, st, seek, &reads, 8),
            _ => go::<U1>(ctx, st, seek, &reads, 2),
        };
    }
    #[cfg(not(feature = "others"))]
    {
        let _ = ctx;
        Ok(())
    }
}

/// Rabbit keyed once, IV applied to the keyed core: same stream as created together.
pub fn c04_inner(ctx: &mut Ctx) -> Res {
    #[cfg(feature = "others")]
    {
        use cipher::{InnerIvInit, KeyInit, StreamCipher, StreamCipherCoreWrapper};
        use rabbit::{RabbitCore, RabbitKeyOnlyCore};
        let k: [u8; 16] = gens::rabbit_key(ctx).try_into().unwrap();
        let iv: [u8; 8] = gens::rabbit_iv(ctx, &k).try_into().unwrap();
        let n = gens::small_len(ctx);
        let by_slice = ctx.flag();
        ctx.note(|| format!("RabbitKeyOnlyCore key={} then iv={} slice={by_slice} read {n}", hex(&k), hex(&iv)));
        let inner = RabbitKeyOnlyCore::new(&k.into());
        let core = if by_slice {
            match RabbitCore::inner_iv_slice_init(inner, &iv) {
                Ok(c) => c,
                Err(_) => fail!("constructor", "inner_iv_slice_init refused an 8-byte IV"),
            }
        } else {
            RabbitCore::inner_iv_init(inner, &iv.into())
        };
        let mut w = StreamCipherCoreWrapper::from_core(core);
        let mut out = vec![0u8; n];
        w.write_keystream(&mut out);
        let mut want = vec![0u8; n];
        use refs::Seq;
        refs::Blocks::new(refs::RabbitRef::new(&k, Some(&iv))).fill(&mut want);
        ensure!(out == want, "keystream", "Rabbit with IV applied to a keyed core: {}", first_diff(&out, &want));
        ctx.nontrivial = n > 0;
    }
    let _ = ctx;
    Ok(())
}

// ------------------------------------------------------------------ C08 chunking

fn pieces(ctx: &mut Ctx, total: usize) -> Vec<usize> {
    // lengths of consecutive pieces adding up to total (with possible empty ones)
    let mut v = Vec::new();
    let mut left = total;
    let style = ctx.weighted(&[5, 2, 2]);
    let fixed = ctx.range(1, 200);
    let mut guard = 0;
    while left > 0 && guard < 400 {
        let p = match style {
            0 => gens::small_len(ctx),
            1 => fixed,
            _ => {
                if ctx.flag() {
                    ctx.range(0, 3)
                } else {
                    gens::len(ctx)
                }
            }
        };
        let p = p.min(left);
        v.push(p);
        left -= p;
        guard += 1;
        if guard > 40 && style == 0 {
            break;
        }
    }
    if left > 0 {
        v.push(left);
    }
    v
}

pub fn c08_chunks(ctx: &mut Ctx) -> Res {
    chunks_over(ctx, specs())
}
fn chunks_over(ctx: &mut Ctx, pool: &[Spec]) -> Res {
    if pool.is_empty() {
        return Ok(());
    }
    let s = &pool[ctx.below(pool.len())];
    let k = gens::key(ctx, s);
    let iv = gens::iv(ctx, s, &k);
    let mut one = mk(s, &k, &iv)?;
    let mut many = mk(s, &k, &iv)?;
    let mut pos = 0u128;
    let mut skip = 0;
    if s.seekable() {
        pos = gens::pos(ctx, s).0;
        seek_to(&mut *one, pos)?;
        seek_to(&mut *many, pos)?;
    } else if ctx.flag() {
        // unaligned start also for the sequential ciphers
        skip = ctx.range(0, 100);
        xform(&mut *one, 0, &vec![0; skip])?;
        xform(&mut *many, 0, &vec![0; skip])?;
    }
    let mut len = gens::len(ctx);
    if let Some(e) = s.end() {
        len = len.min((e - pos).min(1 << 20) as usize);
    }
    let data = gens::bytes(ctx, len);
    let api1 = ctx.below(N_API);
    ctx.note(|| format!("{} key={} nonce={} pos={pos} skip={skip} len={len} once via {}", s.name, hex(&k), hex(&iv), APIS[api1]));
    let want = xform(&mut *one, api1, &data)?;
    let ps = pieces(ctx, len);
    let fixed_api = if ctx.flag() { Some(ctx.below(N_API)) } else { None };
    let mut got = Vec::with_capacity(len);
    let mut off = 0;
    for &p in &ps {
        let api = match fixed_api {
            Some(a) => a,
            None => ctx.below(N_API),
        };
        ctx.note(|| format!("{}({p})", APIS[api]));
        got.extend(xform(&mut *many, api, &data[off..off + p])?);
        off += p;
    }
    ensure!(got == want, "chunking", "{}: output in {} pieces differs from one call: {}", s.name, ps.len(), first_diff(&got, &want));
    // same stream position afterwards
    if s.seekable() {
        let (a, b) = (one.pos(3).flatten(), many.pos(3).flatten());
        ensure!(a == b, "position", "{}: position {b:?} after pieces, {a:?} after one call", s.name);
        ensure!(a == Some(pos + len as u128), "position", "{}: position {a:?} after {len} bytes from {pos}", s.name);
    }
    let mut tail = 90usize;
    if let Some(e) = s.end() {
        tail = tail.min((e - pos - len as u128).min(1 << 20) as usize);
    }
    let a = xform(&mut *one, 0, &vec![0; tail])?;
    let b = xform(&mut *many, 0, &vec![0; tail])?;
    ensure!(a == b, "chunking", "{}: streams differ after the message: {}", s.name, first_diff(&b, &a));
    ctx.observe(&got);
    ctx.observe(&a);
    ctx.label(format!("cipher:{}", s.name));
    ctx.label(gens::len_class(len));
    ctx.label(match ps.len() {
        0 => "pieces:0",
        1 => "pieces:1",
        2..=4 => "pieces:2-4",
        _ => "pieces:>=5",
    });
    if ps.iter().any(|&p| p == 0) {
        ctx.label("has empty piece");
    }
    ctx.nontrivial = ps.len() > 1 && len > 1;
    Ok(())
}

/// Splitting once, at every kind of place, with one large head or tail: finds state that is
/// written back wrongly after a particular number of blocks.
pub fn c08_split(ctx: &mut Ctx) -> Res {
    let pool = specs();
    if pool.is_empty() {
        return Ok(());
    }
    let s = &pool[ctx.below(pool.len())];
    let k = gens::key(ctx, s);
    let iv = gens::iv(ctx, s, &k);
    let mut one = mk(s, &k, &iv)?;
    let mut two = mk(s, &k, &iv)?;
    let pos = if s.seekable() { gens::pos(ctx, s).0 } else { 0 };
    if s.seekable() {
        seek_to(&mut *one, pos)?;
        seek_to(&mut *two, pos)?;
    }
    let room = s.end().map(|e| (e - pos).min(1 << 20) as usize).unwrap_or(1 << 20);
    let a = gens::len(ctx).min(room);
    let b = gens::len(ctx).min(room - a);
    let (x, y, z) = (ctx.below(N_API), ctx.below(N_API), ctx.below(N_API));
    ctx.note(|| format!("{} key={} nonce={} pos={pos} {}({}) vs {}({a})+{}({b})", s.name, hex(&k), hex(&iv), APIS[x], a + b, APIS[y], APIS[z]));
    let want = xform(&mut *one, x, &vec![0; a + b])?;
    let mut got = xform(&mut *two, y, &vec![0; a])?;
    got.extend(xform(&mut *two, z, &vec![0; b])?);
    ensure!(got == want, "chunking", "{}: {a}+{b} differs from {}: {}", s.name, a + b, first_diff(&got, &want));
    ctx.observe(&got);
    ctx.label(format!("cipher:{}", s.name));
    ctx.label(format!("head {}", gens::len_class(a)));
    ctx.nontrivial = a > 0 && b > 0;
    Ok(())
}

// ------------------------------------------------------------------ C09 pure XOR

pub fn c09_xor(ctx: &mut Ctx) -> Res {
    let pool = specs();
    if pool.is_empty() {
        return Ok(());
    }
    let s = &pool[ctx.below(pool.len())];
    let k = gens::key(ctx, s);
    let iv = gens::iv(ctx, s, &k);
    let pos = if s.seekable() { gens::pos(ctx, s).0 } else { 0 };
    let skip = if s.seekable() || ctx.flag() { 0 } else { ctx.range(0, 300) };
    let mut len = gens::len(ctx);
    if let Some(e) = s.end() {
        len = len.min((e - pos).min(1 << 20) as usize);
    }
    let data = gens::bytes(ctx, len);
    let other = gens::bytes(ctx, len);
    let fresh = |s: &Spec| -> Result<Box<dyn Cip>, Fail> {
        let mut c = mk(s, &k, &iv)?;
        if s.seekable() {
            seek_to(&mut *c, pos)?;
        } else {
            xform(&mut *c, 0, &vec![0; skip])?;
        }
        Ok(c)
    };
    let api = ctx.below(N_API);
    let api2 = ctx.below(N_API);
    ctx.note(|| format!("{} key={} nonce={} pos={pos} skip={skip} len={len} data={} via {} / {}", s.name, hex(&k), hex(&iv), hex(&data), APIS[api], APIS[api2]));
    // the keystream on its own
    let mut ks = vec![0x3cu8; len];
    let mut c0 = fresh(s)?;
    ensure!(c0.call(9, &[], &mut ks), "refused", "try_write_keystream refused {len} bytes that fit");
    // writing keystream ignores what the buffer contained
    let mut ks2 = data.clone();
    let mut c1 = fresh(s)?;
    ensure!(c1.call(13, &[], &mut ks2), "refused", "write refused");
    ensure!(ks == ks2, "overwrite", "{}: written keystream depends on the previous buffer content: {}", s.name, first_diff(&ks2, &ks));
    // output = input XOR keystream, for any data and entry point
    let xor = |a: &[u8]| -> Vec<u8> { a.iter().zip(&ks).map(|(x, y)| x ^ y).collect() };
    let mut c2 = fresh(s)?;
    let out = xform(&mut *c2, api, &data)?;
    ensure!(out == xor(&data), "xor", "{}: {} is not XOR with the keystream: {}", s.name, APIS[api], first_diff(&out, &xor(&data)));
    // ... twice is the identity
    let mut c3 = fresh(s)?;
    let back = xform(&mut *c3, api2, &out)?;
    ensure!(back == data, "involution", "{}: applying twice does not restore the data: {}", s.name, first_diff(&back, &data));
    // ... other data, same stream afterwards
    let mut c4 = fresh(s)?;
    let out2 = xform(&mut *c4, api, &other)?;
    ensure!(out2 == xor(&other), "xor", "{}: keystream depends on the data: {}", s.name, first_diff(&out2, &xor(&other)));
    let mut t = 100usize;
    if let Some(e) = s.end() {
        t = t.min((e - pos - len as u128).min(1 << 20) as usize);
    }
    let z = vec![0u8; t];
    let after0 = xform(&mut *c0, 0, &z)?;
    for (i, c) in [&mut c1, &mut c2, &mut c3, &mut c4].into_iter().enumerate() {
        let a = xform(&mut **c, 0, &z)?;
        ensure!(a == after0, "data-dependent state", "{}: keystream after processing differs (run {i}): {}", s.name, first_diff(&a, &after0));
    }
    // two buffers: input untouched, prior output irrelevant
    let two = *ctx.pick(&[2usize, 3, 5, 7, 11, 12]);
    let inp = data.clone();
    let mut dst = other.clone();
    let mut c5 = fresh(s)?;
    ensure!(c5.call(two, &inp, &mut dst), "refused", "{} refused", APIS[two]);
    ensure!(inp == data, "input changed", "{}: {} modified its input", s.name, APIS[two]);
    ensure!(dst == xor(&data), "b2b", "{}: {} depends on the previous output content: {}", s.name, APIS[two], first_diff(&dst, &xor(&data)));
    ctx.observe(&ks);
    ctx.label(format!("cipher:{}", s.name));
    ctx.label(gens::len_class(len));
    ctx.label(format!("api:{}", APIS[api]));
    ctx.nontrivial = len > 0 && data.iter().any(|&x| x != 0);
    Ok(())
}

// ------------------------------------------------------------------ C10 seeking

pub fn c10_history(ctx: &mut Ctx) -> Res {
    let pool = select(|s| s.seekable());
    if pool.is_empty() {
        return Ok(());
    }
    let s = *ctx.pick(&pool);
    let k = gens::key(ctx, s);
    let iv = gens::iv(ctx, s, &k);
    let mut c = mk(s, &k, &iv)?;
    let mut m = (s.model)(&k, &iv);
    let end = s.end().unwrap();
    ctx.note(|| format!("{} key={} nonce={}", s.name, hex(&k), hex(&iv)));
    ctx.label(format!("cipher:{}", s.name));
    let mut pos = 0u128;
    let n = 2 + ctx.weighted(&[3, 3, 3, 3, 2, 2, 1, 1, 1, 1]);
    let mut seeks = 0;
    let mut reads = 0;
    for _ in 0..n {
        match ctx.weighted(&[4, 4, 3]) {
            0 => {
                // process
                let len = gens::small_len(ctx).min((end - pos).min(1 << 20) as usize);
                let api = ctx.below(N_API);
                ctx.note(|| format!("{}({len})", APIS[api]));
                let got = xform(&mut *c, api, &vec![0; len])?;
                let mut want = vec![0u8; len];
                m.fill(pos, &mut want);
                ensure!(got == want, "keystream", "{} at position {pos}: {}", s.name, first_diff(&got, &want));
                ctx.observe(&got);
                pos += len as u128;
                reads += (len > 0) as usize;
            }
            1 => {
                // seek
                let (mut p, kind) = match ctx.weighted(&[5, 2, 2, 2, 1]) {
                    0 => {
                        let (p, _) = gens::pos(ctx, s);
                        (p, "seek:anywhere")
                    }
                    1 => (pos.saturating_sub(ctx.draw(200) as u128), "seek:little back"),
                    2 => ((pos + ctx.draw(200) as u128).min(end), "seek:little forward"),
                    3 => (pos, "seek:same"),
                    _ => (end - ctx.draw(130) as u128, "seek:near end"),
                };
                let mut ty = ctx.below(5);
                if p > seek_max(ty) {
                    if ctx.flag() {
                        p %= seek_max(ty) + 1;
                    } else {
                        ty = 3;
                    }
                }
                ctx.note(|| format!("seek::<{}>({p})", SEEK_TYPES[ty]));
                if ctx.one_in(4) {
                    c.seek_panicking(ty, p);
                } else {
                    let ok = c.seek(ty, p);
                    ensure!(ok == Some(true), "seek", "{}: seek::<{}>({p}) refused, end is {end}", s.name, SEEK_TYPES[ty]);
                }
                ctx.label(kind);
                ctx.label(format!("seek type {}", SEEK_TYPES[ty]));
                pos = p;
                seeks += 1;
            }
            _ => {}
        }
        // query in a drawn type, and always in the widest
        let ty = ctx.below(5);
        let ceil = pos.div_ceil(64) * 64;
        let got = c.pos(ty).flatten();
        if ceil <= seek_max(ty) {
            ensure!(got == Some(pos), "position", "{}: current_pos::<{}>() is {got:?}, want {pos}", s.name, SEEK_TYPES[ty]);
        } else if let Some(g) = got {
            ensure!(g == pos, "position", "{}: current_pos::<{}>() is {g}, want {pos}", s.name, SEEK_TYPES[ty]);
        }
        let got = c.pos(3).flatten();
        ensure!(got == Some(pos), "position", "{}: current_pos::<u128>() is {got:?}, want {pos}", s.name);
        ctx.observe_u(got.unwrap_or(0));
    }
    // whatever happened, the next bytes are the right ones
    let len = 130.min((end - pos).min(1 << 20) as usize);
    let got = xform(&mut *c, 0, &vec![0; len])?;
    let mut want = vec![0u8; len];
    m.fill(pos, &mut want);
    ensure!(got == want, "keystream", "{} at position {pos} (final read): {}", s.name, first_diff(&got, &want));
    ctx.nontrivial = seeks > 0 && (reads > 0 || len > 0);
    Ok(())
}

/// Metamorphic: any two routes to the same position give the same bytes (no model).
pub fn c10_routes(ctx: &mut Ctx) -> Res {
    let pool = select(|s| s.seekable());
    if pool.is_empty() {
        return Ok(());
    }
    let s = *ctx.pick(&pool);
    let k = gens::key(ctx, s);
    let iv = gens::iv(ctx, s, &k);
    let end = s.end().unwrap();
    let (p0, _) = gens::pos(ctx, s);
    let adv = gens::len(ctx).min((end - p0).min(1 << 20) as usize);
    let p = p0 + adv as u128;
    let len = gens::small_len(ctx).min((end - p).min(1 << 20) as usize);
    ctx.note(|| format!("{} key={} nonce={} p0={p0} adv={adv} len={len}", s.name, hex(&k), hex(&iv)));
    // route A: seek straight
    let mut a = mk(s, &k, &iv)?;
    seek_to(&mut *a, p)?;
    let ra = xform(&mut *a, 0, &vec![0; len])?;
    // route B: seek before it and read up to it
    let mut b = mk(s, &k, &iv)?;
    seek_to(&mut *b, p0)?;
    let api = ctx.below(N_API);
    xform(&mut *b, api, &vec![0; adv])?;
    let rb = xform(&mut *b, 0, &vec![0; len])?;
    ensure!(ra == rb, "routes", "{}: reading to {p} and seeking to it give different bytes: {}", s.name, first_diff(&rb, &ra));
    // route C: on the used instance, seek back
    seek_to(&mut *b, p)?;
    let rc = xform(&mut *b, 0, &vec![0; len])?;
    ensure!(ra == rc, "routes", "{}: seeking back to {p} gives different bytes: {}", s.name, first_diff(&rc, &ra));
    ensure!(a.pos(3) == b.pos(3), "position", "{}: positions differ: {:?} {:?}", s.name, a.pos(3), b.pos(3));
    ctx.observe(&ra);
    ctx.label(format!("cipher:{}", s.name));
    ctx.nontrivial = adv > 0 && len > 0;
    Ok(())
}

// ------------------------------------------------------------------ C11 end of keystream

pub fn c11_end(ctx: &mut Ctx) -> Res {
    let pool = select(|s| s.seekable());
    if pool.is_empty() {
        return Ok(());
    }
    let s = *ctx.pick(&pool);
    let k = gens::key(ctx, s);
    let iv = gens::iv(ctx, s, &k);
    let mut c = mk(s, &k, &iv)?;
    let mut m = (s.model)(&k, &iv);
    let end = s.end().unwrap();
    ctx.note(|| format!("{} key={} nonce={} end={end}", s.name, hex(&k), hex(&iv)));
    ctx.label(format!("cipher:{}", s.name));
    // 32-bit machines: a 64-bit block count that does not fit the machine word means "no limit known"
    let mut pos = 0u128;
    let mut refused = 0;
    let mut served = 0;
    let n = 2 + ctx.weighted(&[2, 3, 3, 2, 2, 1, 1]);
    // usually start near the end
    if !ctx.one_in(6) {
        let back = match ctx.weighted(&[3, 3, 2, 2]) {
            0 => ctx.draw(130),
            1 => ctx.draw(70) * 64,
            2 => ctx.draw(5000),
            // any magnitude
            _ => ((ctx.draw(u64::MAX) >> ctx.below(64)) as u128 % end) as u64,
        };
        pos = end - back as u128;
        seek_to(&mut *c, pos)?;
        ctx.note(|| format!("seek(end-{back})"));
    }
    for _ in 0..n {
        match ctx.weighted(&[5, 2, 2, 2, 3]) {
            0 | 3 => {
                // a request around what is left
                let left = end - pos;
                let near = left.min(1 << 16) as usize;
                let len = match ctx.weighted(&[3, 2, 2, 2]) {
                    0 => near + ctx.range(0, 3) * if ctx.flag() { 64 } else { 1 },
                    1 => near.saturating_sub(ctx.range(0, 140)),
                    2 => near + ctx.range(1, 2000),
                    _ => gens::small_len(ctx),
                };
                let fits = len as u128 <= left;
                let api = *ctx.pick(&TRY_APIS);
                let data = gens::bytes(ctx, len);
                let prior = if api_in_place(api) { data.clone() } else { vec![0x5au8; len] };
                let mut out = prior.clone();
                ctx.note(|| format!("{}({len}) left={left}", APIS[api]));
                let cr = c.check_remaining(len);
                ensure!(cr == fits, "limit", "{}: check_remaining({len}) says {cr} at {pos}, {left} bytes are left", s.name);
                let ok = c.call(api, &data, &mut out);
                ensure!(ok == fits, "limit", "{}: {}({len}) returned ok={ok} at {pos}, {left} bytes are left", s.name, APIS[api]);
                if ok {
                    let mut want = vec![0u8; len];
                    m.fill(pos, &mut want);
                    if !api_is_write(api) {
                        for (w, d) in want.iter_mut().zip(&data) {
                            *w ^= d;
                        }
                    }
                    ensure!(out == want, "keystream", "{} at {pos}: {}", s.name, first_diff(&out, &want));
                    pos += len as u128;
                    served += (len > 0) as usize;
                    if pos == end {
                        ctx.label("served up to the last byte");
                    }
                } else {
                    ensure!(out == prior, "buffer changed on error", "{}: refused {}({len}) changed the buffer: {}", s.name, APIS[api], first_diff(&out, &prior));
                    refused += 1;
                }
                ctx.observe(&out);
            }
            1 => {
                // seek beyond the counter range must be refused and leave the state alone
                let beyond = match ctx.weighted(&[3, 3, 2, 1]) {
                    0 => end + 1 + ctx.draw(62) as u128,
                    1 => end + 64 + ctx.draw(300) as u128,
                    2 => end + ctx.draw(u64::MAX) as u128 * 64 + 64,
                    _ => u128::MAX - ctx.draw(1000) as u128,
                };
                let ty = if beyond <= u64::MAX as u128 && ctx.flag() { 2 } else { 3 };
                ctx.note(|| format!("seek::<{}>({beyond})", SEEK_TYPES[ty]));
                let r = c.seek(ty, beyond);
                ensure!(r == Some(false), "seek beyond end", "{}: seek({beyond}) past the end {end} returned {r:?}", s.name);
                refused += 1;
            }
            2 => {
                let back = match ctx.weighted(&[3, 3, 1]) {
                    0 => ctx.draw(130),
                    1 => ctx.draw(40) * 64,
                    _ => ctx.draw(100_000),
                };
                pos = end - back as u128;
                ctx.note(|| format!("seek(end-{back})"));
                let r = c.seek(3, pos);
                ensure!(r == Some(true), "seek", "{}: seek({pos}) refused although the end is {end}", s.name);
            }
            _ => {
                // enormous requests are judged without a buffer
                let left = end - pos;
                let len = match ctx.below(4) {
                    0 => *ctx.pick(&[usize::MAX, usize::MAX - 63, usize::MAX / 2, 1usize << (usize::BITS - 8)]),
                    // exactly what is left, or a little less or more
                    1 => (left + 130).saturating_sub(ctx.draw(260) as u128).min(usize::MAX as u128) as usize,
                    2 => (left + 128).saturating_sub(64 * ctx.draw(4) as u128).min(usize::MAX as u128) as usize,
                    // any magnitude
                    _ => ctx.draw(u64::MAX) as usize >> ctx.below(usize::BITS as usize),
                };
                ctx.note(|| format!("check_remaining({len})"));
                let fits = len as u128 <= end - pos;
                // when the remaining block count does not fit into the machine word no limit is known
                let known = ((end - pos) / 64) <= usize::MAX as u128;
                let cr = c.check_remaining(len);
                if known {
                    ensure!(cr == fits, "limit", "{}: check_remaining({len}) says {cr} at {pos}, end {end}", s.name);
                }
            }
        }
        let got = c.pos(3).flatten();
        ensure!(got == Some(pos), "position", "{}: position {got:?}, want {pos}", s.name);
    }
    // the stream continues correctly from where it was
    let len = (end - pos).min(70) as usize;
    let got = xform(&mut *c, 1, &vec![0; len])?;
    let mut want = vec![0u8; len];
    m.fill(pos, &mut want);
    ensure!(got == want, "keystream", "{} at {pos} after refusals: {}", s.name, first_diff(&got, &want));
    if refused > 0 {
        ctx.label("has refused request");
    }
    if refused > 0 && served > 0 {
        ctx.label("refused and served in one history");
    }
    ctx.nontrivial = refused > 0 || pos + 64 > end;
    Ok(())
}

/// Mismatched buffer lengths are refused without touching anything (two-buffer entry points).
pub fn c11_mismatch(ctx: &mut Ctx) -> Res {
    let pool = specs();
    if pool.is_empty() {
        return Ok(());
    }
    let s = &pool[ctx.below(pool.len())];
    let k = gens::key(ctx, s);
    let iv = gens::iv(ctx, s, &k);
    let mut c = mk(s, &k, &iv)?;
    let mut m = (s.model)(&k, &iv);
    let pre = gens::small_len(ctx);
    let mut want = vec![0u8; pre];
    m.fill(0, &mut want);
    let got = xform(&mut *c, 0, &vec![0; pre])?;
    ensure!(got == want, "keystream", "{}: {}", s.name, first_diff(&got, &want));
    let a = gens::small_len(ctx);
    let b = gens::small_len(ctx);
    let api = *ctx.pick(&[3usize, 11]);
    ctx.note(|| format!("{} key={} read {pre}; {} in {a} out {b}", s.name, hex(&k), APIS[api]));
    let data = vec![7u8; a];
    let mut out = vec![9u8; b];
    let ok = c.call(api, &data, &mut out);
    ensure!(ok == (a == b), "mismatch", "{}: {} with {a} and {b} bytes returned ok={ok}", s.name, APIS[api]);
    let mut pos = pre as u128;
    if ok {
        let mut w = vec![0u8; a];
        m.fill(pos, &mut w);
        pos += a as u128;
    } else {
        ensure!(out == vec![9u8; b], "buffer changed on error", "{}: refused call changed the output", s.name);
    }
    // unlimited ciphers never report exhaustion
    if !s.seekable() {
        let big = *ctx.pick(&[usize::MAX, 1 << 20, usize::MAX / 2, 0]);
        ensure!(c.check_remaining(big), "limit", "{}: check_remaining({big}) reports exhaustion", s.name);
    }
    let got = xform(&mut *c, 0, &[0; 100])?;
    let mut want = vec![0u8; 100];
    m.fill(pos, &mut want);
    ensure!(got == want, "keystream", "{} after a refused call: {}", s.name, first_diff(&got, &want));
    ctx.label(format!("cipher:{}", s.name));
    ctx.nontrivial = a != b;
    Ok(())
}
