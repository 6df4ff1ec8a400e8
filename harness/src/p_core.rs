//! C21 (block-level interface) and the block generator part of C07.

use crate::ciphers::*;
use crate::engine::*;
use crate::gens::{self, hex};
use crate::p_stream::first_diff;
use crate::refs;
use crate::{ensure, fail};
#[allow(unused_imports)]
use cipher::{
    Array, Block, BlockSizeUser, InOut, InOutBuf, KeyInit, KeyIvInit, ParBlocks, StreamCipherBackend, StreamCipherClosure,
    StreamCipherCore, StreamCipherCoreWrapper, StreamCipherSeekCore, array::ArraySize, typenum::Unsigned,
};

/// Operations inside one backend session.
#[derive(Clone, Copy, Debug)]
pub enum Op {
    One,
    Par,
    /// tail of at most this many blocks (reduced below the backend's batch width)
    Tail(usize),
}

struct Script<'a, BS: ArraySize> {
    ops: &'a [Op],
    out: &'a mut Vec<u8>,
    par: &'a mut usize,
    _p: std::marker::PhantomData<BS>,
}
impl<BS: ArraySize> BlockSizeUser for Script<'_, BS> {
    type BlockSize = BS;
}
impl<BS: ArraySize> StreamCipherClosure for Script<'_, BS> {
    fn call<B: StreamCipherBackend<BlockSize = BS>>(self, backend: &mut B) {
        *self.par = B::ParBlocksSize::USIZE;
        for op in self.ops {
            match *op {
                Op::One => {
                    let mut b = Block::<B>::default();
                    backend.gen_ks_block(&mut b);
                    self.out.extend_from_slice(&b);
                }
                Op::Par => {
                    let mut b = ParBlocks::<B>::default();
                    backend.gen_par_ks_blocks(&mut b);
                    for x in b.iter() {
                        self.out.extend_from_slice(x);
                    }
                }
                Op::Tail(n) => {
                    let n = n % B::ParBlocksSize::USIZE;
                    let mut b = ParBlocks::<B>::default();
                    backend.gen_tail_blocks(&mut b[..n]);
                    for x in b[..n].iter() {
                        self.out.extend_from_slice(x);
                    }
                    // blocks beyond the tail are not the backend's to write
                    for x in b[n..].iter() {
                        if x.iter().any(|&v| v != 0) {
                            self.out.extend_from_slice(b"tail overrun");
                        }
                    }
                }
            }
        }
    }
}

/// Object-safe view of a core.
pub trait CoreX: Send {
    fn bs(&self) -> usize;
    fn write_block(&mut self, out: &mut [u8]);
    fn write_blocks(&mut self, out: &mut [u8]);
    /// kind 0: one block in place, 1: one block between buffers, 2: blocks in place,
    /// 3: blocks in place through InOutBuf, 4: blocks between buffers
    fn apply(&mut self, kind: usize, inp: &[u8], out: &mut [u8]);
    fn session(&mut self, ops: &[Op], out: &mut Vec<u8>) -> usize;
    fn remaining(&self) -> Option<usize>;
    fn get_pos(&self) -> Option<u64>;
    fn set_pos(&mut self, p: u64);
    /// (in place?) final partial message; consumes the core
    fn partial(self: Box<Self>, in_place: bool, inp: &[u8], out: &mut [u8]) -> bool;
    fn into_cipher(self: Box<Self>) -> Box<dyn Cip>;
}

pub struct Plain<C>(pub C);
pub struct Seekable<C>(pub C);

macro_rules! common {
    () => {
        fn bs(&self) -> usize {
            C::BlockSize::USIZE
        }
        fn write_block(&mut self, out: &mut [u8]) {
            let b: &mut Block<C> = out.try_into().unwrap();
            self.0.write_keystream_block(b);
        }
        fn write_blocks(&mut self, out: &mut [u8]) {
            let (b, t) = Array::slice_as_chunks_mut(out);
            assert!(t.is_empty());
            self.0.write_keystream_blocks(b);
        }
        fn apply(&mut self, kind: usize, inp: &[u8], out: &mut [u8]) {
            match kind {
                0 => {
                    let b: &mut Block<C> = out.try_into().unwrap();
                    self.0.apply_keystream_block_inout(InOut::from(b));
                }
                1 => {
                    let i: &Block<C> = inp.try_into().unwrap();
                    let o: &mut Block<C> = out.try_into().unwrap();
                    self.0.apply_keystream_block_inout(InOut::from((i, o)));
                }
                2 => {
                    let (b, _) = Array::slice_as_chunks_mut(out);
                    self.0.apply_keystream_blocks(b);
                }
                3 => {
                    let (b, _) = Array::slice_as_chunks_mut(out);
                    self.0.apply_keystream_blocks_inout(InOutBuf::from(b));
                }
                _ => {
                    let (i, _) = Array::slice_as_chunks(inp);
                    let (o, _) = Array::slice_as_chunks_mut(out);
                    self.0.apply_keystream_blocks_inout(InOutBuf::new(i, o).unwrap());
                }
            }
        }
        fn session(&mut self, ops: &[Op], out: &mut Vec<u8>) -> usize {
            let mut par = 0;
            self.0.process_with_backend(Script::<C::BlockSize> { ops, out, par: &mut par, _p: Default::default() });
            par
        }
        fn remaining(&self) -> Option<usize> {
            self.0.remaining_blocks()
        }
        fn partial(self: Box<Self>, in_place: bool, inp: &[u8], out: &mut [u8]) -> bool {
            if in_place {
                self.0.try_apply_keystream_partial(InOutBuf::from(out)).is_ok()
            } else {
                self.0.try_apply_keystream_partial(InOutBuf::new(inp, out).unwrap()).is_ok()
            }
        }
    };
}

impl<C> CoreX for Plain<C>
where
    C: StreamCipherCore + Send + 'static,
    StreamCipherCoreWrapper<C>: cipher::StreamCipher + Send,
    C::BlockSize: block_buffer::BlockSizes,
{
    common!();
    fn get_pos(&self) -> Option<u64> {
        None
    }
    fn set_pos(&mut self, _: u64) {}
    fn into_cipher(self: Box<Self>) -> Box<dyn Cip> {
        Box::new(NoSeek(StreamCipherCoreWrapper::from_core(self.0)))
    }
}
impl<C> CoreX for Seekable<C>
where
    C: StreamCipherSeekCore + Send + 'static,
    C::Counter: TryInto<u64> + TryFrom<u64>,
    StreamCipherCoreWrapper<C>: cipher::StreamCipher + cipher::StreamCipherSeek + Send,
    C::BlockSize: block_buffer::BlockSizes,
{
    common!();
    fn get_pos(&self) -> Option<u64> {
        self.0.get_block_pos().try_into().ok()
    }
    fn set_pos(&mut self, p: u64) {
        match C::Counter::try_from(p) {
            Ok(c) => self.0.set_block_pos(c),
            Err(_) => panic!("HARNESS block position out of range"),
        }
    }
    fn into_cipher(self: Box<Self>) -> Box<dyn Cip> {
        Box::new(WithSeek(StreamCipherCoreWrapper::from_core(self.0)))
    }
}

pub struct CoreSpec {
    pub name: &'static str,
    pub klen: usize,
    pub ivlen: usize,
    pub ctr: Option<u32>,
    pub make: fn(&[u8], &[u8]) -> Box<dyn CoreX>,
    pub model: fn(&[u8], &[u8]) -> Model,
}

#[allow(dead_code)]
trait CoreOf {
    type Core;
}
impl<T: StreamCipherCore> CoreOf for StreamCipherCoreWrapper<T>
where
    T::BlockSize: block_buffer::BlockSizes,
{
    type Core = T;
}

#[allow(unused_macros)]
macro_rules! seek_core {
    ($v:ident, $name:literal, $t:ty, $iv:literal, $bits:literal, $m:path, $r:literal) => {
        $v.push(CoreSpec {
            name: $name,
            klen: 32,
            ivlen: $iv,
            ctr: Some($bits),
            make: |k, i| Box::new(Seekable(<$t as KeyIvInit>::new_from_slices(k, i).expect("HARNESS core"))),
            model: |k, i| Model::Ctr($m(k, i, $r)),
        })
    };
}

#[allow(unused_mut)]
pub fn cores() -> &'static [CoreSpec] {
    use std::sync::OnceLock;
    static S: OnceLock<Vec<CoreSpec>> = OnceLock::new();
    S.get_or_init(|| {
        let mut v: Vec<CoreSpec> = Vec::new();
        #[cfg(feature = "cc_cipher")]
        {
            use chacha20::{ChaChaCore, R8, R12, R20, variants::Ietf};
            seek_core!(v, "ChaChaCore<R20,Ietf>", ChaChaCore<R20, Ietf>, 12, 32, refs::chacha_ietf, 20);
            seek_core!(v, "ChaChaCore<R12,Ietf>", ChaChaCore<R12, Ietf>, 12, 32, refs::chacha_ietf, 12);
            seek_core!(v, "ChaChaCore<R8,Ietf>", ChaChaCore<R8, Ietf>, 12, 32, refs::chacha_ietf, 8);
            seek_core!(v, "ChaChaCore<custom 2 rounds,Ietf>", ChaChaCore<Custom<1>, Ietf>, 12, 32, refs::chacha_ietf, 2);
            seek_core!(v, "ChaChaCore<custom 14 rounds,Ietf>", ChaChaCore<Custom<7>, Ietf>, 12, 32, refs::chacha_ietf, 14);
        }
        #[cfg(feature = "cc_legacy")]
        seek_core!(v, "ChaCha20LegacyCore", chacha20::ChaCha20LegacyCore, 8, 64, refs::chacha_legacy, 20);
        #[cfg(all(feature = "cc_cipher", feature = "cc_rng"))]
        {
            use chacha20::{ChaChaCore, R8, R12, rand_core::SeedableRng, variants::Ietf, variants::Legacy};
            macro_rules! seeded {
                ($name:literal, $t:ty, $bits:literal, $iv:literal, $m:path, $r:literal) => {
                    v.push(CoreSpec {
                        name: $name,
                        klen: 32,
                        ivlen: 0,
                        ctr: Some($bits),
                        make: |k, _| Box::new(Seekable(<$t>::from_seed(k.try_into().unwrap()))),
                        model: |k, _| Model::Ctr($m(k, &[0; $iv], $r)),
                    })
                };
            }
            seeded!("ChaChaCore<R8,Legacy> from_seed", ChaChaCore<R8, Legacy>, 64, 8, refs::chacha_legacy, 8);
            seeded!("ChaChaCore<R12,Legacy> from_seed", ChaChaCore<R12, Legacy>, 64, 8, refs::chacha_legacy, 12);
            seeded!("ChaChaCore<R12,Ietf> from_seed", ChaChaCore<R12, Ietf>, 32, 12, refs::chacha_ietf, 12);
        }
        #[cfg(feature = "cc_xchacha")]
        {
            seek_core!(v, "XChaCha20 core", <chacha20::XChaCha20 as CoreOf>::Core, 24, 32, refs::xchacha, 20);
            seek_core!(v, "XChaCha8 core", <chacha20::XChaCha8 as CoreOf>::Core, 24, 32, refs::xchacha, 8);
        }
        #[cfg(feature = "others")]
        {
            use cipher::consts::{U1, U4, U6, U10};
            seek_core!(v, "SalsaCore<U10>", salsa20::SalsaCore<U10>, 8, 64, refs::salsa, 20);
            seek_core!(v, "SalsaCore<U6>", salsa20::SalsaCore<U6>, 8, 64, refs::salsa, 12);
            seek_core!(v, "SalsaCore<U4>", salsa20::SalsaCore<U4>, 8, 64, refs::salsa, 8);
            seek_core!(v, "SalsaCore<U1>", salsa20::SalsaCore<U1>, 8, 64, refs::salsa, 2);
            seek_core!(v, "XSalsaCore<U10>", salsa20::XSalsaCore<U10>, 24, 64, refs::xsalsa, 20);
            seek_core!(v, "XSalsaCore<U4>", salsa20::XSalsaCore<U4>, 24, 64, refs::xsalsa, 8);
            v.push(CoreSpec {
                name: "RabbitCore",
                klen: 16,
                ivlen: 8,
                ctr: None,
                make: |k, i| Box::new(Plain(<rabbit::Rabbit as CoreOf>::Core::new_from_slices(k, i).expect("HARNESS core"))),
                model: |k, i| Model::Seq(Box::new(refs::Blocks::new(refs::RabbitRef::new(k, Some(i))))),
            });
            v.push(CoreSpec {
                name: "RabbitKeyOnlyCore",
                klen: 16,
                ivlen: 0,
                ctr: None,
                make: |k, _| Box::new(Plain(<rabbit::RabbitKeyOnly as CoreOf>::Core::new_from_slice(k).expect("HARNESS core"))),
                model: |k, _| Model::Seq(Box::new(refs::Blocks::new(refs::RabbitRef::new(k, None)))),
            });
            v.push(CoreSpec {
                name: "Hc256Core",
                klen: 32,
                ivlen: 32,
                ctr: None,
                make: |k, i| Box::new(Plain(<hc_256::Hc256 as CoreOf>::Core::new_from_slices(k, i).expect("HARNESS core"))),
                model: |k, i| Model::Seq(Box::new(refs::Blocks::new(refs::Hc256Ref::new(k, i)))),
            });
        }
        v
    })
}

#[derive(Clone, Copy, Debug)]
pub struct Custom<const N: usize>;
#[cfg(any(feature = "cc_cipher", feature = "cc_rng"))]
impl<const N: usize> chacha20::Rounds for Custom<N> {
    const COUNT: usize = N;
}

/// Model keystream of `n` blocks from block `pos`, the counter wrapping at its width.
pub fn model_blocks(m: &mut Model, bits: Option<u32>, bs: usize, pos: u64, n: usize) -> Vec<u8> {
    let mut out = vec![0u8; n * bs];
    match bits {
        None => m.fill(0, &mut out),
        Some(b) => {
            let mask = if b == 64 { u64::MAX } else { (1u64 << b) - 1 };
            for i in 0..n {
                let p = pos.wrapping_add(i as u64) & mask;
                m.fill(p as u128 * bs as u128, &mut out[i * bs..(i + 1) * bs]);
            }
        }
    }
    out
}

pub fn adv(pos: u64, n: u64, bits: Option<u32>) -> u64 {
    let p = pos.wrapping_add(n);
    match bits {
        Some(32) => p & u32::MAX as u64,
        _ => p,
    }
}

fn n_blocks(ctx: &mut Ctx) -> usize {
    match ctx.weighted(&[4, 4, 2]) {
        0 => ctx.range(0, 5),
        1 => ctx.range(0, 18),
        _ => {
            let m = if ctx.small { 20 } else { 70 };
            ctx.range(0, m)
        }
    }
}

pub fn c21_history(ctx: &mut Ctx) -> Res {
    let pool = cores();
    if pool.is_empty() {
        return Ok(());
    }
    let s = &pool[ctx.below(pool.len())];
    if ctx.small && s.name == "Hc256Core" {
        return Ok(()); // its set-up is too slow for the interpreter; C05 and C22 cover it
    }
    let k = gens::bytes(ctx, s.klen);
    let iv = gens::bytes(ctx, s.ivlen);
    let mut c = (s.make)(&k, &iv);
    let mut m = (s.model)(&k, &iv);
    let bs = c.bs();
    ctx.note(|| format!("{} key={} nonce={}", s.name, hex(&k), hex(&iv)));
    ctx.label(s.name);
    let mut pos = 0u64;
    if let Some(b) = s.ctr {
        ensure!(c.get_pos() == Some(0), "block position", "{}: fresh core at block {:?}", s.name, c.get_pos());
        let (p, l) = gens::block_index(ctx, b);
        if ctx.flag() {
            c.set_pos(p);
            pos = p;
            ctx.note(|| format!("set_block_pos({p:#x})"));
            ctx.label(l);
        }
    }
    let n = ctx.range(1, if ctx.small { 4 } else { 10 });
    let mut total = 0usize;
    let mut wrapped = false;
    for _ in 0..n {
        let max = match s.ctr {
            Some(32) => u32::MAX as u64,
            _ => u64::MAX,
        };
        if let Some(b) = s.ctr {
            if ctx.one_in(5) {
                let p = match ctx.below(3) {
                    0 => gens::block_index(ctx, b).0,
                    1 => max - ctx.draw(40),
                    _ => pos,
                };
                ctx.note(|| format!("set_block_pos({p:#x})"));
                c.set_pos(p);
                pos = p;
            }
            ensure!(c.get_pos() == Some(pos), "block position", "{}: at block {:?}, want {pos:#x}", s.name, c.get_pos());
            let rem = (max - pos) as u128;
            let got = c.remaining();
            match got {
                Some(r) => ensure!(r as u128 == rem, "remaining blocks", "{}: {r} blocks remain at {pos:#x}, want {rem}", s.name),
                None => ensure!(rem > usize::MAX as u128, "remaining blocks", "{}: no limit reported at {pos:#x}", s.name),
            }
        } else {
            ensure!(c.remaining().is_none(), "remaining blocks", "{}: {:?} blocks remain", s.name, c.remaining());
        }
        let kind = ctx.below(8);
        let nb = match kind {
            0 | 2 | 3 => 1,
            7 => 0,
            _ => n_blocks(ctx),
        };
        let got;
        if kind == 7 {
            let k = ctx.range(1, 6);
            let ops: Vec<Op> = (0..k)
                .map(|_| match ctx.below(3) {
                    0 => Op::One,
                    1 => Op::Par,
                    _ => Op::Tail(ctx.range(0, 15)),
                })
                .collect();
            ctx.note(|| format!("session {ops:?}"));
            let mut out = Vec::new();
            let par = c.session(&ops, &mut out);
            let want: usize = ops
                .iter()
                .map(|o| match *o {
                    Op::One => 1,
                    Op::Par => par,
                    Op::Tail(n) => n % par,
                })
                .sum();
            ensure!(out.len() == want * bs, "session", "{}: session {ops:?} wrote beyond its tail", s.name);
            ctx.label(format!("batch width {par}"));
            got = out;
        } else {
            let data = if ctx.one_in(3) { gens::bytes(ctx, nb * bs) } else { vec![0u8; nb * bs] };
            let mut out = vec![0xA5u8; nb * bs];
            ctx.note(|| format!("{} {nb} blocks", ["write_block", "write_blocks", "apply block", "apply block b2b", "apply blocks", "apply blocks inout", "apply blocks b2b"][kind]));
            match kind {
                0 => c.write_block(&mut out),
                1 => c.write_blocks(&mut out),
                2 | 4 | 5 => {
                    out.copy_from_slice(&data);
                    c.apply([0, 0, 0, 0, 2, 3, 0][kind], &[], &mut out);
                }
                3 => c.apply(1, &data, &mut out),
                _ => c.apply(4, &data, &mut out),
            }
            if kind >= 2 {
                for (o, d) in out.iter_mut().zip(&data) {
                    *o ^= d;
                }
            }
            got = out;
        }
        let nb = got.len() / bs;
        let want = model_blocks(&mut m, s.ctr, bs, pos, nb);
        ensure!(got == want, "keystream", "{}: {nb} blocks from block {pos:#x}: {}", s.name, first_diff(&got, &want));
        let np = adv(pos, nb as u64, s.ctr);
        if s.ctr.is_some() {
            wrapped |= np < pos;
            if s.ctr == Some(64) && (np >> 32) != (pos >> 32) && np > pos {
                ctx.label("low counter half carried");
            }
            ensure!(
                c.get_pos() == Some(np),
                "block position",
                "{}: at block {:?} after {nb} blocks from {pos:#x}, want {np:#x}",
                s.name,
                c.get_pos()
            );
        }
        pos = np;
        total += nb;
    }
    if wrapped {
        ctx.label("block counter wrapped");
    }
    // finish: a partial message, or conversion to the byte-level cipher
    if ctx.flag() {
        let max = match s.ctr {
            Some(32) => u32::MAX as u64,
            _ => u64::MAX,
        };
        if s.ctr.is_some() && ctx.flag() {
            pos = max - ctx.draw(20);
            c.set_pos(pos);
        }
        let len = match ctx.weighted(&[3, 3, 2]) {
            0 => ctx.range(0, bs),
            1 => ctx.range(0, 4) * bs + ctx.range(0, bs),
            _ => ctx.range(0, 21 * bs),
        };
        // the last block of the keystream may be used, nothing after it
        let fits = s.ctr.is_none() || (len / bs) as u128 <= (max - pos) as u128;
        let data = gens::bytes(ctx, len);
        let in_place = ctx.flag();
        let mut out = if in_place { data.clone() } else { vec![0xA5; len] };
        let prior = out.clone();
        ctx.note(|| format!("partial({len}) at {pos:#x} in place {in_place}"));
        let ok = c.partial(in_place, &data, &mut out);
        ensure!(ok == fits, "partial", "{}: final partial message of {len} bytes at block {pos:#x}: ok={ok}", s.name);
        if ok {
            let mut want = model_blocks(&mut m, s.ctr, bs, pos, len.div_ceil(bs));
            want.truncate(len);
            for (w, d) in want.iter_mut().zip(&data) {
                *w ^= d;
            }
            ensure!(out == want, "keystream", "{}: final partial message at block {pos:#x}: {}", s.name, first_diff(&out, &want));
            if s.ctr.is_some() && len > 0 && pos as u128 + ((len - 1) / bs) as u128 == max as u128 {
                ctx.label("last block of the keystream used");
            }
        } else {
            ensure!(out == prior, "buffer changed on error", "{}: refused partial message changed the buffer", s.name);
            ctx.label("partial refused");
        }
    } else {
        let mut w = c.into_cipher();
        let mut len = gens::small_len(ctx);
        if let Some(b) = s.ctr {
            let end = ((1u128 << b) - 1) * bs as u128;
            let at = pos as u128 * bs as u128;
            if let Some(Some(p)) = w.pos(3) {
                ensure!(p == at, "position", "{}: wrapped core reports byte {p}, want {at}", s.name);
            }
            len = len.min((end - at).min(1 << 20) as usize);
        }
        ctx.note(|| format!("from_core, {len} bytes"));
        let got = crate::p_stream::xform(&mut *w, ctx.below(N_API), &vec![0; len])?;
        let mut want = model_blocks(&mut m, s.ctr, bs, pos, len.div_ceil(bs));
        want.truncate(len);
        ensure!(got == want, "keystream", "{}: byte-level after block {pos:#x}: {}", s.name, first_diff(&got, &want));
        total += 1;
    }
    ctx.nontrivial = total > 0;
    Ok(())
}

/// The wrapper's core, looked at through `get_core`, counts the blocks taken so far.
#[allow(unused_variables)]
pub fn c21_get_core(ctx: &mut Ctx) -> Res {
    #[cfg(feature = "cc_cipher")]
    {
        use cipher::{StreamCipher, StreamCipherSeek};
        let k: [u8; 32] = gens::bytes(ctx, 32).try_into().unwrap();
        let iv: [u8; 12] = gens::bytes(ctx, 12).try_into().unwrap();
        let mut c = chacha20::ChaCha20::new(&k.into(), &iv.into());
        let (b, _) = gens::block_index(ctx, 32);
        let mut pos = b.min(u32::MAX as u64 - 400) * 64 + gens::in_block(ctx);
        ensure!(c.try_seek(pos).is_ok(), "seek", "seek({pos}) refused");
        let n = ctx.range(1, 5);
        ctx.note(|| format!("ChaCha20 key={} pos={pos} reads={n}", hex(&k)));
        for _ in 0..n {
            let len = gens::small_len(ctx);
            let mut v = vec![0u8; len];
            c.apply_keystream(&mut v);
            pos += len as u64;
            let got = c.get_core().get_block_pos() as u64;
            let want = pos.div_ceil(64);
            ensure!(got == want, "block position", "core at block {got} after byte {pos}, want {want}");
            ensure!(c.get_core().remaining_blocks() == Some((u32::MAX as u64 - want) as usize), "remaining blocks", "remaining {:?} at {want}", c.get_core().remaining_blocks());
        }
        ctx.nontrivial = true;
    }
    Ok(())
}

// ------------------------------------------------------------------ C07: block generator

/// The random-number block generator driven directly on the core, with either counter width:
/// four blocks per call, 64-bit block counter in the last row's first two words.
#[cfg(feature = "cc_rng")]
pub fn c07_generator(ctx: &mut Ctx) -> Res {
    use chacha20::{
        ChaChaCore, R8, R12, R20,
        rand_core::{SeedableRng, block::Generator},
        variants::{Ietf, Legacy, Variant},
    };
    trait Ctr: Variant {
        const BITS: u32;
        fn from64(v: u64) -> Self::Counter;
        fn to64(v: Self::Counter) -> u64;
    }
    impl Ctr for Ietf {
        const BITS: u32 = 32;
        fn from64(v: u64) -> u32 {
            v as u32
        }
        fn to64(v: u32) -> u64 {
            v as u64
        }
    }
    impl Ctr for Legacy {
        const BITS: u32 = 64;
        fn from64(v: u64) -> u64 {
            v
        }
        fn to64(v: u64) -> u64 {
            v
        }
    }
    fn go<R: chacha20::Rounds, V: Ctr>(ctx: &mut Ctx, name: &str, rounds: usize) -> Res {
        let seed: [u8; 32] = gens::bytes(ctx, 32).try_into().unwrap();
        let mut g = ChaChaCore::<R, V>::from_seed(seed);
        // words 12.. of the state
        let mut ctr = 0u64;
        let last = [0u32; 4];
        ctx.note(|| format!("{name} seed={}", hex(&seed)));
        ctx.label(name);
        let n = ctx.range(1, if ctx.small { 3 } else { 8 });
        let mut carried = false;
        for i in 0..n {
            if i == 0 || ctx.one_in(4) {
                let (p, l) = gens::block_index(ctx, V::BITS);
                let max = if V::BITS == 64 { u64::MAX } else { u32::MAX as u64 };
                let p = if ctx.one_in(3) { max - ctx.draw(6) } else { p };
                g.set_block_pos(V::from64(p));
                // setting a 32-bit position leaves the upper counter word alone
                ctr = if V::BITS == 64 { p } else { (ctr & !(u32::MAX as u64)) | p };
                ctx.note(|| format!("set_block_pos({p:#x})"));
                ctx.label(l);
            }
            let mut buf = [0u32; 64];
            g.generate(&mut buf);
            ctx.note(|| "generate".into());
            for b in 0..4u64 {
                let c = ctr.wrapping_add(b);
                let st = refs::chacha_words(&seed, [c as u32, (c >> 32) as u32, last[2], last[3]]);
                let want = refs::chacha_block(&st, rounds);
                let got: Vec<u8> = buf[16 * b as usize..16 * (b as usize + 1)].iter().flat_map(|w| w.to_le_bytes()).collect();
                ensure!(got == want, "generator", "{name}: block {b} of the batch at counter {ctr:#x}: {}", first_diff(&got, &want));
            }
            let nc = ctr.wrapping_add(4);
            carried |= (nc >> 32) != (ctr >> 32);
            ctr = nc;
            let pos = V::to64(g.get_block_pos());
            let want = if V::BITS == 64 { ctr } else { ctr & u32::MAX as u64 };
            ensure!(pos == want, "generator position", "{name}: block position {pos:#x}, want {want:#x}");
            let bytes: Vec<u8> = buf.iter().flat_map(|w| w.to_le_bytes()).collect();
            ctx.observe(&bytes);
            ctx.observe_u(pos as u128);
        }
        if carried {
            ctx.label("low counter word carried");
        }
        ctx.nontrivial = true;
        Ok(())
    }
    match ctx.below(6) {
        0 => go::<R20, Legacy>(ctx, "ChaChaCore<R20,Legacy>", 20),
        1 => go::<R12, Legacy>(ctx, "ChaChaCore<R12,Legacy>", 12),
        2 => go::<R8, Legacy>(ctx, "ChaChaCore<R8,Legacy>", 8),
        3 => go::<R20, Ietf>(ctx, "ChaChaCore<R20,Ietf>", 20),
        4 => go::<R8, Ietf>(ctx, "ChaChaCore<R8,Ietf>", 8),
        _ => go::<Custom<3>, Ietf>(ctx, "ChaChaCore<custom 6 rounds,Ietf>", 6),
    }
}

/// Cipher histories whose outputs are compared between builds (and with the model).
pub fn c07_cipher(ctx: &mut Ctx) -> Res {
    let pool = select(|s| matches!(s.fam, Fam::ChaCha | Fam::XChaCha));
    if pool.is_empty() {
        return Ok(());
    }
    let s = *ctx.pick(&pool);
    ctx.label(s.name);
    let k = gens::key(ctx, s);
    let iv = gens::iv(ctx, s, &k);
    let mut c = crate::p_stream::mk(s, &k, &iv)?;
    let mut m = (s.model)(&k, &iv);
    let end = s.end().unwrap();
    let mut pos = 0u128;
    let mut work = 0;
    ctx.note(|| format!("{} key={} nonce={}", s.name, hex(&k), hex(&iv)));
    let n = ctx.range(1, if ctx.small { 3 } else { 8 });
    for _ in 0..n {
        if ctx.one_in(3) {
            let (p, _) = gens::pos(ctx, s);
            ctx.note(|| format!("seek({p})"));
            ensure!(c.seek(3, p) == Some(true), "seek", "seek({p}) refused");
            pos = p;
        }
        let mut len = gens::len(ctx);
        let mut fits = true;
        if len as u128 > end - pos {
            if ctx.flag() {
                fits = false;
            } else {
                len = (end - pos) as usize;
            }
        }
        let api = *ctx.pick(&TRY_APIS);
        let data = vec![0u8; len];
        let mut out = if api_in_place(api) { data.clone() } else { vec![0x11u8; len] };
        ctx.note(|| format!("{}({len})", APIS[api]));
        let ok = c.call(api, &data, &mut out);
        ensure!(ok == fits, "limit", "{}: {}({len}) at {pos}: ok={ok}", s.name, APIS[api]);
        if ok {
            let mut want = vec![0u8; len];
            m.fill(pos, &mut want);
            ensure!(out == want, "keystream", "{} at {pos}: {}", s.name, first_diff(&out, &want));
            pos += len as u128;
            work += len;
        }
        match c.pos(3).flatten() {
            Some(p) => ensure!(p == pos, "position", "{}: position {p}, want {pos}", s.name),
            None => fail!("position", "{}: no position at {pos}", s.name),
        }
        ctx.observe(&out);
        ctx.observe_u(pos);
    }
    ctx.nontrivial = work > 0;
    Ok(())
}
