//! Properties about whole values, decided on every concrete type: C15 (independence), C16 (wiping
//! on drop) and C17 (debug output).
#![allow(dead_code)]

use crate::engine::*;
use crate::gens::{self, hex};
use crate::{ensure, fail};
#[allow(unused_imports)]
use cipher::{
    Array, Block, BlockSizeUser, KeyInit, KeyIvInit, StreamCipher, StreamCipherCore, StreamCipherCoreWrapper, StreamCipherSeek,
    StreamCipherSeekCore, typenum::Unsigned,
};

/// One step of a value's life; every type gives its own meaning to `kind`.
#[derive(Clone, Debug)]
pub struct Act {
    pub kind: u8,
    pub a: u64,
    pub n: usize,
}

pub trait Subject: Sized + Send + 'static {
    const NAME: &'static str;
    /// 0: RC4, any length from 1 to 256
    const KLEN: usize;
    const IVLEN: usize;
    /// Construction from slices of any length; `None` if there is no such constructor.
    fn try_make(k: &[u8], iv: &[u8]) -> Option<Option<Self>>;
    fn make(k: &[u8], iv: &[u8]) -> Self;
    fn act(&mut self, a: &Act, out: &mut Vec<u8>);
}

fn byte_act<C: StreamCipher>(c: &mut C, a: &Act, out: &mut Vec<u8>) {
    let mut v = vec![0u8; a.n];
    match a.kind % 3 {
        0 => out.push(c.try_write_keystream(&mut v).is_ok() as u8),
        1 => {
            expand(a.a, &mut v);
            out.push(c.try_apply_keystream(&mut v).is_ok() as u8)
        }
        _ => {
            expand(a.a, &mut v);
            let i = v.clone();
            out.push(c.try_apply_keystream_b2b(&i, &mut v).is_ok() as u8)
        }
    }
    out.extend_from_slice(&v);
}
fn seek_act<C: StreamCipher + StreamCipherSeek>(c: &mut C, a: &Act, out: &mut Vec<u8>) {
    match a.kind % 6 {
        0..=3 => byte_act(c, a, out),
        4 => {
            // positions near the start, a far one, or near the end
            let p = match a.a % 4 {
                0 => (a.a >> 2) % 5000,
                1 => (u32::MAX as u64) * 64 - (a.a >> 2) % 5000,
                2 => (a.a >> 2) % ((u32::MAX as u64) * 64),
                _ => ((a.a >> 2) % 64) * 64,
            };
            out.push(c.try_seek(p).is_ok() as u8);
        }
        _ => match c.try_current_pos::<u128>() {
            Ok(p) => out.extend_from_slice(&p.to_le_bytes()),
            Err(_) => out.push(0xEE),
        },
    }
}
fn core_act<C: StreamCipherCore>(c: &mut C, a: &Act, out: &mut Vec<u8>) {
    let bs = C::BlockSize::USIZE;
    let n = a.n / bs;
    let mut v = vec![0u8; n * bs];
    if a.kind % 2 == 1 {
        expand(a.a, &mut v);
    }
    let (b, _) = Array::slice_as_chunks_mut(&mut v);
    if a.kind % 2 == 1 { c.apply_keystream_blocks(b) } else { c.write_keystream_blocks(b) }
    out.extend_from_slice(&v);
}
fn core_seek_act<C: StreamCipherSeekCore>(c: &mut C, a: &Act, out: &mut Vec<u8>)
where
    C::Counter: TryFrom<u64> + TryInto<u64>,
{
    match a.kind % 5 {
        0..=2 => core_act(c, a, out),
        3 => {
            let p = if a.a & 1 == 0 { a.a >> 1 & 0xff } else { a.a >> 1 & 0xffff_ffff };
            if let Ok(x) = C::Counter::try_from(p) {
                c.set_block_pos(x);
            }
        }
        _ => {
            let p: Option<u64> = c.get_block_pos().try_into().ok();
            out.extend_from_slice(&p.unwrap_or(u64::MAX).to_le_bytes());
        }
    }
}
#[cfg(feature = "cc_rng")]
fn rng_act<G: crate::p_rng::RngX>(g: &mut G, a: &Act, out: &mut Vec<u8>) {
    use chacha20::rand_core::Rng;
    match a.kind % 9 {
        0 | 1 => {
            let mut v = vec![0u8; a.n];
            g.fill_bytes(&mut v);
            out.extend_from_slice(&v);
        }
        2 => out.extend_from_slice(&g.next_u32().to_le_bytes()),
        3 => out.extend_from_slice(&g.next_u64().to_le_bytes()),
        4 => g.set_word_pos(if a.a & 1 == 0 { (a.a >> 1) as u128 % 300 } else { (a.a as u128) << 4 }),
        5 => g.set_stream(a.a >> (a.n % 64)),
        6 => g.set_block_pos(if a.a & 1 == 0 { a.a >> 1 & 0xff } else { a.a }),
        7 => {
            out.extend_from_slice(&g.get_word_pos().to_le_bytes());
            out.extend_from_slice(&g.get_block_pos().to_le_bytes());
            out.extend_from_slice(&g.get_stream().to_le_bytes());
        }
        _ => out.extend_from_slice(&g.serialize()),
    }
}
#[cfg(feature = "cc_rng")]
fn gen_act<R: chacha20::Rounds, V: chacha20::variants::Variant>(c: &mut chacha20::ChaChaCore<R, V>, _: &Act, out: &mut Vec<u8>) {
    use chacha20::rand_core::block::Generator;
    let mut b = [0u32; 64];
    c.generate(&mut b);
    for w in b {
        out.extend_from_slice(&w.to_le_bytes());
    }
}

pub trait CoreOf {
    type Core;
}
impl<T: StreamCipherCore> CoreOf for StreamCipherCoreWrapper<T>
where
    T::BlockSize: block_buffer::BlockSizes,
{
    type Core = T;
}

/// Lists every value type of this build: `$m!(kind, name, type, key length, nonce length)`.
macro_rules! subjects {
    ($m:ident) => {
        #[cfg(feature = "cc_cipher")]
        $m! { seek, "ChaCha20", chacha20::ChaCha20, 32, 12 }
        #[cfg(feature = "cc_cipher")]
        $m! { seek, "ChaCha12", chacha20::ChaCha12, 32, 12 }
        #[cfg(feature = "cc_cipher")]
        $m! { seek, "ChaCha8", chacha20::ChaCha8, 32, 12 }
        #[cfg(feature = "cc_cipher")]
        $m! { core_seek, "ChaChaCore<R20,Ietf>", chacha20::ChaChaCore<chacha20::R20, chacha20::variants::Ietf>, 32, 12 }
        #[cfg(feature = "cc_cipher")]
        $m! { core_seek, "ChaChaCore<R8,Ietf>", chacha20::ChaChaCore<chacha20::R8, chacha20::variants::Ietf>, 32, 12 }
        #[cfg(feature = "cc_legacy")]
        $m! { seek, "ChaCha20Legacy", chacha20::ChaCha20Legacy, 32, 8 }
        #[cfg(feature = "cc_legacy")]
        $m! { core_seek, "ChaCha20LegacyCore", chacha20::ChaCha20LegacyCore, 32, 8 }
        #[cfg(feature = "cc_xchacha")]
        $m! { seek, "XChaCha20", chacha20::XChaCha20, 32, 24 }
        #[cfg(feature = "cc_xchacha")]
        $m! { seek, "XChaCha12", chacha20::XChaCha12, 32, 24 }
        #[cfg(feature = "cc_xchacha")]
        $m! { seek, "XChaCha8", chacha20::XChaCha8, 32, 24 }
        #[cfg(feature = "cc_xchacha")]
        $m! { core_seek, "XChaChaCore<R20>", <chacha20::XChaCha20 as crate::p_subj::CoreOf>::Core, 32, 24 }
        #[cfg(feature = "cc_rng")]
        $m! { rng, "ChaCha20Rng", chacha20::ChaCha20Rng, 32, 0 }
        #[cfg(feature = "cc_rng")]
        $m! { rng, "ChaCha12Rng", chacha20::ChaCha12Rng, 32, 0 }
        #[cfg(feature = "cc_rng")]
        $m! { rng, "ChaCha8Rng", chacha20::ChaCha8Rng, 32, 0 }
        #[cfg(feature = "cc_rng")]
        $m! { generator, "ChaChaCore<R12,Legacy> as generator", chacha20::ChaChaCore<chacha20::R12, chacha20::variants::Legacy>, 32, 0 }
        #[cfg(feature = "others")]
        $m! { seek, "Salsa20", salsa20::Salsa20, 32, 8 }
        #[cfg(feature = "others")]
        $m! { seek, "Salsa12", salsa20::Salsa12, 32, 8 }
        #[cfg(feature = "others")]
        $m! { seek, "Salsa8", salsa20::Salsa8, 32, 8 }
        #[cfg(feature = "others")]
        $m! { seek, "XSalsa20", salsa20::XSalsa20, 32, 24 }
        #[cfg(feature = "others")]
        $m! { seek, "XSalsa12", salsa20::XSalsa12, 32, 24 }
        #[cfg(feature = "others")]
        $m! { seek, "XSalsa8", salsa20::XSalsa8, 32, 24 }
        #[cfg(feature = "others")]
        $m! { core_seek, "SalsaCore<U10>", salsa20::SalsaCore<cipher::consts::U10>, 32, 8 }
        #[cfg(feature = "others")]
        $m! { core_seek, "XSalsaCore<U10>", salsa20::XSalsaCore<cipher::consts::U10>, 32, 24 }
        #[cfg(feature = "others")]
        $m! { plain, "Rabbit", rabbit::Rabbit, 16, 8 }
        #[cfg(feature = "others")]
        $m! { plain_key, "RabbitKeyOnly", rabbit::RabbitKeyOnly, 16, 0 }
        #[cfg(feature = "others")]
        $m! { core, "RabbitCore", rabbit::RabbitCore, 16, 8 }
        #[cfg(feature = "others")]
        $m! { core_key, "RabbitKeyOnlyCore", rabbit::RabbitKeyOnlyCore, 16, 0 }
        #[cfg(feature = "others")]
        $m! { plain, "Hc256", hc_256::Hc256, 32, 32 }
        #[cfg(feature = "others")]
        $m! { core, "Hc256Core", hc_256::Hc256Core, 32, 32 }
        #[cfg(feature = "others")]
        $m! { plain_key, "Rc4", rc4::Rc4, 0, 0 }
    };
}

macro_rules! imp {
    (@make kiv $t:ty, $k:ident, $i:ident) => { <$t as KeyIvInit>::new_from_slices($k, $i).ok() };
    (@make key $t:ty, $k:ident, $i:ident) => { <$t as KeyInit>::new_from_slice($k).ok() };
    (@go $how:ident, $f:ident, $n:literal, $t:ty, $k:literal, $i:literal) => {
        impl Subject for $t {
            const NAME: &'static str = $n;
            const KLEN: usize = $k;
            const IVLEN: usize = $i;
            fn make(k: &[u8], iv: &[u8]) -> Self {
                let _ = iv;
                imp!(@make $how $t, k, iv).expect("constructor refused key and nonce of the documented lengths")
            }
            fn try_make(k: &[u8], iv: &[u8]) -> Option<Option<Self>> {
                let _ = iv;
                Some(imp!(@make $how $t, k, iv))
            }
            fn act(&mut self, a: &Act, out: &mut Vec<u8>) {
                $f(self, a, out)
            }
        }
    };
    (@seeded $f:ident, $n:literal, $t:ty) => {
        impl Subject for $t {
            const NAME: &'static str = $n;
            const KLEN: usize = 32;
            const IVLEN: usize = 0;
            fn make(k: &[u8], _: &[u8]) -> Self {
                <$t as chacha20::rand_core::SeedableRng>::from_seed(k.try_into().expect("HARNESS seed"))
            }
            fn try_make(_: &[u8], _: &[u8]) -> Option<Option<Self>> {
                None
            }
            fn act(&mut self, a: &Act, out: &mut Vec<u8>) {
                $f(self, a, out)
            }
        }
    };
    (seek, $n:literal, $t:ty, $k:literal, $i:literal) => { imp!(@go kiv, seek_act, $n, $t, $k, $i); };
    (plain, $n:literal, $t:ty, $k:literal, $i:literal) => { imp!(@go kiv, byte_act, $n, $t, $k, $i); };
    (plain_key, $n:literal, $t:ty, $k:literal, $i:literal) => { imp!(@go key, byte_act, $n, $t, $k, $i); };
    (core, $n:literal, $t:ty, $k:literal, $i:literal) => { imp!(@go kiv, core_act, $n, $t, $k, $i); };
    (core_key, $n:literal, $t:ty, $k:literal, $i:literal) => { imp!(@go key, core_act, $n, $t, $k, $i); };
    (core_seek, $n:literal, $t:ty, $k:literal, $i:literal) => { imp!(@go kiv, core_seek_act, $n, $t, $k, $i); };
    (rng, $n:literal, $t:ty, $k:literal, $i:literal) => { imp!(@seeded rng_act, $n, $t); };
    (generator, $n:literal, $t:ty, $k:literal, $i:literal) => { imp!(@seeded gen_act, $n, $t); };
}
subjects! { imp }

/// A live value behind a uniform interface.
pub trait Obj: Send {
    fn act(&mut self, a: &Act, out: &mut Vec<u8>);
    fn relocate(self: Box<Self>, by: usize) -> Box<dyn Obj>;
}
struct Hold<T> {
    v: T,
}
struct Shifted<T, const N: usize> {
    _pad: [u8; N],
    v: T,
}
impl<T: Subject> Obj for Hold<T> {
    fn act(&mut self, a: &Act, out: &mut Vec<u8>) {
        self.v.act(a, out)
    }
    fn relocate(self: Box<Self>, by: usize) -> Box<dyn Obj> {
        let v = self.v;
        // keep the freed allocation from being reused at once
        let keep = vec![0u8; 64 + by % 64];
        let r: Box<dyn Obj> = match by % 4 {
            0 => Box::new(Hold { v }),
            1 => Box::new(Shifted::<T, 16> { _pad: [0; 16], v }),
            2 => Box::new(Shifted::<T, 4> { _pad: [0; 4], v }),
            _ => Box::new(Shifted::<T, 40> { _pad: [0; 40], v }),
        };
        std::hint::black_box(&keep);
        r
    }
}
impl<T: Subject, const N: usize> Obj for Shifted<T, N> {
    fn act(&mut self, a: &Act, out: &mut Vec<u8>) {
        self.v.act(a, out)
    }
    fn relocate(self: Box<Self>, by: usize) -> Box<dyn Obj> {
        Box::new(Hold { v: self.v }).relocate(by)
    }
}

pub const DBG_STYLES: [&str; 10] = ["{:?}", "{:#?}", "{:x?}", "{:X?}", "{:#x?}", "{:90?}", "{:.1?}", "{:+?}", "{:08?}", "{:#X?}"];
fn dbg_all<T: std::fmt::Debug>(v: &T) -> Vec<String> {
    vec![
        format!("{v:?}"),
        format!("{v:#?}"),
        format!("{v:x?}"),
        format!("{v:X?}"),
        format!("{v:#x?}"),
        format!("{v:90?}"),
        format!("{v:.1?}"),
        format!("{v:+?}"),
        format!("{v:08?}"),
        format!("{v:#X?}"),
    ]
}

/// "Does this type implement the trait" as a runtime answer, so that a removed implementation is
/// reported by the check and not as a failure to build it.
pub struct Probe<'a, T>(pub &'a T);
pub trait NoDebug {
    fn dbg_opt(&self) -> Option<Vec<String>> {
        None
    }
}
impl<T> NoDebug for Probe<'_, T> {}
impl<T: std::fmt::Debug> Probe<'_, T> {
    pub fn dbg_opt(&self) -> Option<Vec<String>> {
        Some(dbg_all(self.0))
    }
}
pub struct Mark<T>(std::marker::PhantomData<T>);
pub trait NotWiping {
    const WIPES: bool = false;
}
impl<T> NotWiping for Mark<T> {}
#[cfg(any(feature = "cc_zeroize", feature = "others_zeroize"))]
impl<T: zeroize::ZeroizeOnDrop> Mark<T> {
    pub const WIPES: bool = true;
}

pub struct SubjSpec {
    pub name: &'static str,
    pub klen: usize,
    pub ivlen: usize,
    pub chacha: bool,
    pub marked: bool,
    pub new: fn(&[u8], &[u8]) -> Box<dyn Obj>,
    pub try_new: fn(&[u8], &[u8]) -> Option<Option<Box<dyn Obj>>>,
    /// debug output at creation and after every step
    pub dbg: fn(&[u8], &[u8], &[Act]) -> Option<Vec<Vec<String>>>,
    pub wipe: crate::p_wipe::WipeFns,
}

pub fn subjects() -> &'static [SubjSpec] {
    use std::sync::OnceLock;
    static S: OnceLock<Vec<SubjSpec>> = OnceLock::new();
    S.get_or_init(|| {
        #[allow(unused_mut)]
        let mut v: Vec<SubjSpec> = Vec::new();
        macro_rules! add {
            ($kind:ident, $n:literal, $t:ty, $k:literal, $i:literal) => {
                v.push(SubjSpec {
                    name: $n,
                    klen: $k,
                    ivlen: $i,
                    chacha: stringify!($t).contains("chacha20"),
                    marked: <Mark<$t>>::WIPES,
                    new: |k, iv| Box::new(Hold { v: <$t as Subject>::make(k, iv) }),
                    try_new: |k, iv| <$t as Subject>::try_make(k, iv).map(|o| o.map(|v| Box::new(Hold { v }) as Box<dyn Obj>)),
                    dbg: |k, iv, acts| {
                        let mut x = <$t as Subject>::make(k, iv);
                        let mut r = vec![Probe(&x).dbg_opt()?];
                        for a in acts {
                            let mut sink = Vec::new();
                            x.act(a, &mut sink);
                            r.push(Probe(&x).dbg_opt()?);
                        }
                        Some(r)
                    },
                    wipe: crate::p_wipe::fns::<$t>(),
                });
            };
        }
        subjects! { add }
        v
    })
}

pub fn key_for(ctx: &mut Ctx, s: &SubjSpec) -> Vec<u8> {
    if s.klen == 0 { gens::rc4_key(ctx) } else { gens::bytes(ctx, s.klen) }
}
pub fn acts(ctx: &mut Ctx, max: usize) -> Vec<Act> {
    let n = ctx.range(0, max);
    (0..n)
        .map(|_| Act {
            kind: ctx.draw(35) as u8,
            a: ctx.draw(u64::MAX),
            n: if ctx.small {
                ctx.range(0, 200)
            } else if ctx.one_in(20) {
                // far enough for every index and table of the slower ciphers to turn around
                ctx.range(1500, 12_000)
            } else {
                gens::small_len(ctx)
            },
        })
        .collect()
}

// ------------------------------------------------------------------ C15

struct Member {
    s: &'static SubjSpec,
    k: Vec<u8>,
    iv: Vec<u8>,
    acts: Vec<Act>,
}
impl Member {
    fn alone(&self) -> Vec<Vec<u8>> {
        let mut o = (self.s.new)(&self.k, &self.iv);
        self.acts
            .iter()
            .map(|a| {
                let mut v = Vec::new();
                o.act(a, &mut v);
                v
            })
            .collect()
    }
}
fn pool(ctx: &mut Ctx, max: usize, steps: usize) -> Option<Vec<Member>> {
    let all = subjects();
    if all.is_empty() {
        return None;
    }
    let n = ctx.range(2, max);
    let mut v: Vec<Member> = Vec::new();
    let same_type = ctx.flag();
    for i in 0..n {
        let m = if i > 0 && (same_type || ctx.one_in(3)) {
            // a relative of an earlier instance: same type, key material equal or nearly so
            let p = ctx.below(i);
            let (s, mut k, mut iv) = (v[p].s, v[p].k.clone(), v[p].iv.clone());
            match ctx.below(5) {
                0 => {}
                1 => {
                    let b = ctx.below(k.len() * 8);
                    k[b / 8] ^= 1 << (b % 8);
                }
                2 if !iv.is_empty() => {
                    let b = ctx.below(iv.len() * 8);
                    iv[b / 8] ^= 1 << (b % 8);
                }
                3 if !iv.is_empty() => iv = gens::bytes(ctx, iv.len()),
                _ => k = key_for(ctx, s),
            }
            Member { s, k, iv, acts: Vec::new() }
        } else {
            let mut s = &all[ctx.below(all.len())];
            if ctx.small && s.name.starts_with("Hc256") {
                s = &all[0];
            }
            let k = key_for(ctx, s);
            let iv = gens::bytes(ctx, s.ivlen);
            Member { s, k, iv, acts: Vec::new() }
        };
        v.push(m);
    }
    for i in 0..n {
        v[i].acts = if i > 0 && ctx.one_in(3) { v[i - 1].acts.clone() } else { acts(ctx, steps) };
    }
    ctx.note(|| {
        v.iter()
            .map(|m| format!("{}(key={} nonce={} steps={})", m.s.name, hex(&m.k), hex(&m.iv), m.acts.len()))
            .collect::<Vec<_>>()
            .join(" | ")
    });
    for m in &v {
        ctx.label(m.s.name);
    }
    Some(v)
}
fn differs(what: &str, i: usize, m: &Member, step: usize, got: &[u8], want: &[u8]) -> Res {
    ensure!(
        got == want,
        format!("independence: {what}"),
        "instance {i} ({}), step {step} {:?}: {what} gives {} bytes differing from the same history alone: {}",
        m.s.name,
        m.acts[step],
        got.len(),
        crate::p_stream::first_diff(got, want)
    );
    Ok(())
}

/// Interleaved use in one thread, with moves, drops and creations in between.
pub fn c15_interleaved(ctx: &mut Ctx) -> Res {
    let Some(ms) = pool(ctx, if ctx.small { 3 } else { 6 }, if ctx.small { 3 } else { 8 }) else { return Ok(()) };
    let alone: Vec<Vec<Vec<u8>>> = ms.iter().map(|m| m.alone()).collect();
    let mut objs: Vec<Option<Box<dyn Obj>>> = ms.iter().map(|_| None).collect();
    let mut at = vec![0usize; ms.len()];
    let mut noise: Vec<Box<dyn Obj>> = Vec::new();
    let mut switches = 0;
    let mut last = usize::MAX;
    let total: usize = ms.iter().map(|m| m.acts.len()).sum();
    let mut done = 0;
    while done < total {
        match ctx.weighted(&[10, 2, 1, 1]) {
            0 => {
                let mut i = ctx.below(ms.len());
                while at[i] == ms[i].acts.len() {
                    i = (i + 1) % ms.len();
                }
                let m = &ms[i];
                let o = objs[i].get_or_insert_with(|| (m.s.new)(&m.k, &m.iv));
                let mut v = Vec::new();
                o.act(&m.acts[at[i]], &mut v);
                differs("interleaving", i, m, at[i], &v, &alone[i][at[i]])?;
                at[i] += 1;
                done += 1;
                if last != i && last != usize::MAX {
                    switches += 1;
                }
                last = i;
                if at[i] == m.acts.len() {
                    objs[i] = None; // dropped while the others live on
                }
            }
            1 => {
                let i = ctx.below(ms.len());
                let by = ctx.draw(255) as usize;
                if let Some(o) = objs[i].take() {
                    objs[i] = Some(o.relocate(by));
                    ctx.label("moved");
                }
            }
            2 => {
                // another instance, perhaps with the same key material, used a little
                let i = ctx.below(ms.len());
                let mut o = (ms[i].s.new)(&ms[i].k, &ms[i].iv);
                let mut sink = Vec::new();
                o.act(&Act { kind: ctx.draw(35) as u8, a: ctx.draw(u64::MAX), n: ctx.range(0, 200) }, &mut sink);
                if ctx.flag() {
                    noise.push(o);
                }
                ctx.label("extra instance");
            }
            _ => {
                if !noise.is_empty() {
                    let i = ctx.below(noise.len());
                    noise.swap_remove(i);
                    ctx.label("dropped another");
                }
            }
        }
    }
    // and again from the start, in the reverse order
    for (i, m) in ms.iter().enumerate().rev() {
        for (j, v) in m.alone().iter().enumerate() {
            differs("repeating", i, m, j, v, &alone[i][j])?;
        }
    }
    for a in alone.iter().flatten() {
        ctx.observe(a);
    }
    ctx.nontrivial = switches > 0;
    Ok(())
}

/// Each instance starts on this thread, moves to its own and runs there at the same time as the
/// others; some come back.
pub fn c15_threads(ctx: &mut Ctx) -> Res {
    let Some(ms) = pool(ctx, 6, 8) else { return Ok(()) };
    let alone: Vec<Vec<Vec<u8>>> = ms.iter().map(|m| m.alone()).collect();
    let splits: Vec<(usize, usize)> = ms
        .iter()
        .map(|m| {
            let a = ctx.range(0, m.acts.len());
            (a, ctx.range(a, m.acts.len()))
        })
        .collect();
    let go = std::sync::Barrier::new(ms.len());
    let results: Vec<Result<Vec<Vec<u8>>, String>> = std::thread::scope(|sc| {
        let mut hs = Vec::new();
        for (m, &(a, b)) in ms.iter().zip(&splits) {
            let mut o = (m.s.new)(&m.k, &m.iv);
            let mut outs = Vec::new();
            for x in &m.acts[..a] {
                let mut v = Vec::new();
                o.act(x, &mut v);
                outs.push(v);
            }
            let go = &go;
            hs.push((
                m,
                b,
                sc.spawn(move || {
                    go.wait();
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        for x in &m.acts[a..b] {
                            let mut v = Vec::new();
                            o.act(x, &mut v);
                            outs.push(v);
                        }
                        (o, outs)
                    }));
                    r.map_err(|_| take_panic())
                }),
            ));
        }
        hs.into_iter()
            .map(|(m, b, h)| {
                let (mut o, mut outs) = h.join().expect("HARNESS join")?;
                for x in &m.acts[b..] {
                    let mut v = Vec::new();
                    o.act(x, &mut v);
                    outs.push(v);
                }
                Ok(outs)
            })
            .collect()
    });
    for (i, (m, r)) in ms.iter().zip(&results).enumerate() {
        match r {
            Err(e) => fail!("panic", "{} panicked on another thread: {e}", m.s.name),
            Ok(o) => {
                for (j, v) in o.iter().enumerate() {
                    differs("running on another thread", i, m, j, v, &alone[i][j])?;
                }
            }
        }
    }
    ctx.nontrivial = splits.iter().filter(|(a, b)| b > a).count() >= 2;
    Ok(())
}

// ------------------------------------------------------------------ C17

/// The text is the same whatever the secrets and the history.
pub fn c17_debug(ctx: &mut Ctx) -> Res {
    let all = subjects();
    if all.is_empty() {
        return Ok(());
    }
    let s = &all[ctx.below(all.len())];
    if ctx.small && s.name.starts_with("Hc256") {
        return Ok(());
    }
    ctx.label(s.name);
    let k = key_for(ctx, s);
    let iv = gens::bytes(ctx, s.ivlen);
    let mut hist = acts(ctx, 6);
    // states with many unread bytes are the ones worth printing
    if ctx.flag() {
        hist.push(Act { kind: 0, a: 0, n: ctx.range(1, 63) });
    }
    ctx.note(|| format!("{} key={} nonce={} history={hist:?}", s.name, hex(&k), hex(&iv)));
    let Some(texts) = (s.dbg)(&k, &iv, &hist) else {
        ctx.label("no Debug implementation");
        return Ok(());
    };
    let base = (s.dbg)(&vec![0; if s.klen == 0 { 16 } else { s.klen }], &vec![0; s.ivlen], &[]).unwrap();
    for (step, t) in texts.iter().enumerate() {
        for (i, x) in t.iter().enumerate() {
            ensure!(
                *x == base[0][i],
                "debug text varies",
                "{}: {} prints {x:?} after {step} steps, but {:?} for a fresh all-zero value",
                s.name,
                DBG_STYLES[i],
                base[0][i]
            );
        }
    }
    ctx.nontrivial = k.iter().any(|&b| b != 0) && !hist.is_empty();
    Ok(())
}
