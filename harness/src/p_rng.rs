//! C12 (RNG output), C13 (position, stream and seed accounting), C14 (serialization, equality).

use crate::engine::*;
use crate::gens::{self, hex};
use crate::refs::{POS_MASK, RngModel};
use crate::{ensure, fail};
use chacha20::rand_core::{Infallible, Rng, SeedableRng, TryCryptoRng, TryRng};

pub trait RngX: SeedableRng<Seed = [u8; 32]> + TryRng<Error = Infallible> + TryCryptoRng + PartialEq + Eq + std::fmt::Debug + Send + 'static {
    const ROUNDS: usize;
    const NAME: &'static str;
    fn set_word_pos(&mut self, p: u128);
    fn get_word_pos(&self) -> u128;
    fn set_block_pos(&mut self, p: u64);
    fn get_block_pos(&self) -> u64;
    fn set_stream(&mut self, s: u64);
    fn get_stream(&self) -> u64;
    fn get_seed(&self) -> [u8; 32];
    fn serialize(&self) -> [u8; 49];
    fn deserialize(b: &[u8; 49]) -> Self;
}
macro_rules! rngx {
    ($t:ident, $r:literal) => {
        impl RngX for chacha20::$t {
            const ROUNDS: usize = $r;
            const NAME: &'static str = stringify!($t);
            fn set_word_pos(&mut self, p: u128) {
                Self::set_word_pos(self, p)
            }
            fn get_word_pos(&self) -> u128 {
                Self::get_word_pos(self)
            }
            fn set_block_pos(&mut self, p: u64) {
                Self::set_block_pos(self, p)
            }
            fn get_block_pos(&self) -> u64 {
                Self::get_block_pos(self)
            }
            fn set_stream(&mut self, s: u64) {
                Self::set_stream(self, s)
            }
            fn get_stream(&self) -> u64 {
                Self::get_stream(self)
            }
            fn get_seed(&self) -> [u8; 32] {
                Self::get_seed(self)
            }
            fn serialize(&self) -> [u8; 49] {
                self.serialize_state()
            }
            fn deserialize(b: &[u8; 49]) -> Self {
                Self::deserialize_state(b)
            }
        }
    };
}
rngx!(ChaCha8Rng, 8);
rngx!(ChaCha12Rng, 12);
rngx!(ChaCha20Rng, 20);

/// Runs a generic check on one of the three generators.
macro_rules! with_rng {
    ($ctx:ident, $f:ident) => {
        match $ctx.below(3) {
            0 => $f::<chacha20::ChaCha20Rng>($ctx),
            1 => $f::<chacha20::ChaCha8Rng>($ctx),
            _ => $f::<chacha20::ChaCha12Rng>($ctx),
        }
    };
}

/// A generator next to its model.
pub struct Pair<G> {
    pub g: G,
    pub m: RngModel,
}

impl<G: RngX> Pair<G> {
    pub fn new(seed: [u8; 32]) -> Self {
        Pair { g: G::from_seed(seed), m: RngModel::new(seed, G::ROUNDS) }
    }
}

pub fn seed(ctx: &mut Ctx) -> [u8; 32] {
    gens::bytes(ctx, 32).try_into().unwrap()
}
pub fn stream(ctx: &mut Ctx) -> u64 {
    match ctx.weighted(&[2, 3, 4]) {
        0 => *ctx.pick(&[0u64, 1, u64::MAX, 1 << 32, u32::MAX as u64, 0xffff_ffff_0000_0000, 1 << 63]),
        1 => {
            let lo = ctx.draw(u32::MAX as u64);
            if ctx.flag() { lo } else { lo << 32 }
        }
        _ => ctx.draw(u64::MAX),
    }
}
/// Word positions near every place where the 68-bit position, its halves or a buffer end.
pub fn word_pos(ctx: &mut Ctx) -> (u128, &'static str) {
    let w = ctx.draw(127) as u128;
    match ctx.weighted(&[3, 3, 4, 3, 2, 2]) {
        0 => (w, "pos:start"),
        1 => {
            let (b, _) = gens::block_index(ctx, 64);
            (b as u128 * 16 + w % 16, "pos:block boundary")
        }
        2 => ((1u128 << 68) - 1 - w, "pos:end of period"),
        3 => (((1u128 << 36) - 1 - w) + ((ctx.draw(u32::MAX as u64) as u128) << 36), "pos:low half carries"),
        4 => {
            // bits above the 68th are ignored
            let hi = ctx.draw(u64::MAX) as u128;
            ((hi << 68) | ((1u128 << 68) - 1 - w), "pos:above 68 bits")
        }
        _ => {
            let a = ctx.draw(u64::MAX) as u128;
            let b = ctx.draw(15) as u128;
            ((b << 64) | a, "pos:any")
        }
    }
}
fn fill_len(ctx: &mut Ctx) -> usize {
    match ctx.weighted(&[5, 4, 4, 2, 1]) {
        0 => ctx.range(0, 9),
        1 => ctx.range(0, 70),
        2 => {
            // around the 256-byte buffer
            let n = ctx.range(1, 4) * 256;
            (n + ctx.range(0, 16)).saturating_sub(8)
        }
        3 => ctx.range(0, 300),
        _ => {
            let m = if ctx.small { 600 } else { 5000 };
            ctx.range(0, m)
        }
    }
}

/// One read through a drawn entry point, compared with the model.
pub fn read<G: RngX>(ctx: &mut Ctx, p: &mut Pair<G>) -> Res {
    let at = p.m.pos;
    match ctx.weighted(&[3, 3, 4]) {
        0 => {
            let v = match ctx.below(3) {
                0 => p.g.next_u32(),
                1 => p.g.try_next_u32().unwrap(),
                _ => {
                    let mut r = &mut p.g;
                    <&mut G as TryRng>::try_next_u32(&mut r).unwrap()
                }
            };
            let w = p.m.word();
            ctx.note(|| "u32".into());
            ensure!(v == w, "output", "{}: next_u32 at word {at} gave {v:#010x}, want {w:#010x}", G::NAME);
            ctx.observe_u(v as u128);
        }
        1 => {
            let v = match ctx.below(3) {
                0 => p.g.next_u64(),
                1 => p.g.try_next_u64().unwrap(),
                _ => {
                    let mut r = &mut p.g;
                    <&mut G as TryRng>::try_next_u64(&mut r).unwrap()
                }
            };
            let w = p.m.u64();
            ctx.note(|| "u64".into());
            ensure!(v == w, "output", "{}: next_u64 at word {at} gave {v:#018x}, want {w:#018x}", G::NAME);
            ctx.observe_u(v as u128);
        }
        _ => {
            let n = fill_len(ctx);
            ctx.note(|| format!("fill({n})"));
            let mut a = vec![0xA5u8; n];
            let mut b = vec![0u8; n];
            match ctx.below(3) {
                0 => p.g.fill_bytes(&mut a),
                1 => p.g.try_fill_bytes(&mut a).unwrap(),
                _ => {
                    let mut r = &mut p.g;
                    <&mut G as TryRng>::try_fill_bytes(&mut r, &mut a).unwrap()
                }
            }
            p.m.bytes(&mut b);
            ensure!(a == b, "output", "{}: fill_bytes({n}) at word {at}: {}", G::NAME, crate::p_stream::first_diff(&a, &b));
            ctx.observe(&a);
        }
    }
    Ok(())
}

/// All reported quantities agree with the model.
pub fn account<G: RngX>(ctx: &mut Ctx, p: &Pair<G>) -> Res {
    let wp = p.g.get_word_pos();
    ensure!(wp == p.m.pos, "word position", "{}: word position {wp:#x}, want {:#x}", G::NAME, p.m.pos);
    let bp = p.g.get_block_pos();
    let want = (p.m.pos / 16) as u64;
    ensure!(bp == want, "block position", "{}: block position {bp:#x}, want {want:#x} (word position {:#x})", G::NAME, p.m.pos);
    let st = p.g.get_stream();
    ensure!(st == p.m.stream, "stream", "{}: stream {st:#x}, want {:#x}", G::NAME, p.m.stream);
    let sd = p.g.get_seed();
    ensure!(sd == p.m.seed, "seed", "{}: seed {}, want {}", G::NAME, hex(&sd), hex(&p.m.seed));
    ctx.observe_u(wp);
    ctx.observe_u(bp as u128);
    ctx.observe_u(st as u128);
    ctx.observe(&sd);
    Ok(())
}

pub fn set_word_pos<G: RngX>(ctx: &mut Ctx, p: &mut Pair<G>) {
    let (mut w, mut l) = word_pos(ctx);
    if ctx.one_in(5) {
        // a short step from where we are
        w = p.m.pos.wrapping_add(ctx.draw(200) as u128).wrapping_sub(ctx.draw(200) as u128) & POS_MASK;
        l = "pos:near current";
    }
    ctx.note(|| format!("set_word_pos({w:#x})"));
    ctx.label(l);
    p.g.set_word_pos(w);
    p.m.pos = w & POS_MASK;
}
pub fn set_block_pos<G: RngX>(ctx: &mut Ctx, p: &mut Pair<G>) {
    let (b, l) = gens::block_index(ctx, 64);
    let b = if ctx.one_in(8) { u64::MAX } else { b };
    ctx.note(|| format!("set_block_pos({b:#x})"));
    ctx.label(format!("block pos:{l}"));
    p.g.set_block_pos(b);
    p.m.pos = b as u128 * 16;
}
pub fn set_stream<G: RngX>(ctx: &mut Ctx, p: &mut Pair<G>) {
    let s = if ctx.one_in(8) { p.m.stream } else { stream(ctx) };
    ctx.note(|| format!("set_stream({s:#x})"));
    p.g.set_stream(s);
    p.m.set_stream(s);
}

fn start<G: RngX>(ctx: &mut Ctx) -> Pair<G> {
    let s = seed(ctx);
    ctx.note(|| format!("{} seed={}", G::NAME, hex(&s)));
    ctx.label(G::NAME);
    Pair::new(s)
}

// ------------------------------------------------------------------ C12

/// Long interleavings of reads, from a position near some boundary.
pub fn c12_output(ctx: &mut Ctx) -> Res {
    fn go<G: RngX>(ctx: &mut Ctx) -> Res {
        let mut p = start::<G>(ctx);
        if ctx.flag() {
            set_stream(ctx, &mut p);
        }
        if ctx.flag() {
            set_word_pos(ctx, &mut p);
        } else if ctx.one_in(4) {
            set_block_pos(ctx, &mut p);
        }
        let from = p.m.pos;
        let n = ctx.range(1, if ctx.small { 8 } else { 30 });
        for _ in 0..n {
            read(ctx, &mut p)?;
        }
        if p.m.pos < from {
            ctx.label("the 68-bit position wrapped");
        }
        if (from >> 36) != (p.m.pos >> 36) && p.m.pos > from {
            ctx.label("low counter half carried");
        }
        if (p.m.pos.wrapping_sub(from) & POS_MASK) >= 64 {
            ctx.label("buffer refilled");
        }
        ctx.nontrivial = p.m.pos != from;
        Ok(())
    }
    with_rng!(ctx, go)
}

/// Words of the all-zero seed's stream 0 which hardly ever occur: zero, all ones, and equal to the
/// word before (found by search). Output must not treat them in any special way.
const RARE: [(usize, &[u64]); 3] = [
    (8, &[334137619, 631034210, 4001392040, 6143731558, 6618420263, 8151884809, 10710406893, 12315008633, 4116869166, 4368516044]),
    (12, &[3618474984, 4954557417, 8881264235, 12446381822, 15916932833, 1455263798]),
    (20, &[867104300, 10214191145, 10301732221, 12016934388, 12296730137, 13121670903, 14475471974, 2271484407, 4803001486]),
];

/// Reads across a rare word, from a short way before it.
pub fn c12_rare(ctx: &mut Ctx) -> Res {
    fn go<G: RngX>(ctx: &mut Ctx) -> Res {
        let words = RARE.iter().find(|(r, _)| *r == G::ROUNDS).unwrap().1;
        let at = *ctx.pick(words) as u128;
        let back = if ctx.flag() { ctx.draw(3) } else { ctx.draw(70) } as u128;
        ctx.note(|| format!("{} seed=0 word {at}, from {back} words before", G::NAME));
        ctx.label(G::NAME);
        let mut p = Pair::<G>::new([0; 32]);
        p.g.set_word_pos(at - back);
        p.m.pos = at - back;
        let mut n = 0;
        while p.m.pos <= at + 4 && n < 40 {
            if ctx.one_in(12) {
                // restored in between
                p.g = G::deserialize(&p.g.serialize());
            }
            read(ctx, &mut p)?;
            n += 1;
        }
        account(ctx, &p)?;
        let v = { let mut m = p.m.clone(); m.pos = at; m.word() };
        ctx.label(match v {
            0 => "zero word",
            u32::MAX => "word of ones",
            _ => "repeated word",
        });
        ctx.nontrivial = p.m.pos > at;
        Ok(())
    }
    with_rng!(ctx, go)
}

/// The RNG is the legacy-layout cipher of the same key: byte fill of whole words equals the
/// cipher's keystream at the same position.
#[cfg(feature = "cc_legacy")]
pub fn c12_cipher(ctx: &mut Ctx) -> Res {
    use cipher::{KeyIvInit, StreamCipher, StreamCipherSeek};
    let s = seed(ctx);
    let st = stream(ctx);
    let (b, _) = gens::block_index(ctx, 64);
    let end = u64::MAX as u128 * 16;
    let w = (b as u128 * 16 + ctx.draw(15) as u128).min(end);
    let n = 4 * fill_len(ctx).min(((end.saturating_sub(w)) as usize).min(4096));
    ctx.note(|| format!("seed={} stream={st:#x} word={w:#x} n={n}", hex(&s)));
    let mut g = chacha20::ChaCha20Rng::from_seed(s);
    g.set_stream(st);
    g.set_word_pos(w);
    let mut c = chacha20::ChaCha20Legacy::new(&s.into(), &st.to_le_bytes().into());
    ensure!(c.try_seek(w * 4).is_ok(), "seek", "seek to {} refused", w * 4);
    let mut a = vec![0u8; n];
    let mut b = vec![0u8; n];
    g.fill_bytes(&mut a);
    ensure!(c.try_write_keystream(&mut b).is_ok(), "refused", "cipher refused {n} bytes");
    ensure!(a == b, "cipher", "RNG output is not the cipher's keystream: {}", crate::p_stream::first_diff(&a, &b));
    ctx.nontrivial = n > 0;
    Ok(())
}

/// Seeding helpers of the trait: determinism, and 32 bytes taken from the source.
pub fn c12_seeding(ctx: &mut Ctx) -> Res {
    fn go<G: RngX>(ctx: &mut Ctx) -> Res {
        let mut src = start::<G>(ctx);
        let k = ctx.range(0, 20);
        for _ in 0..k {
            read(ctx, &mut src)?;
        }
        // from_rng / try_from_rng / fork take the next 32 bytes of the source as seed
        let mut want = [0u8; 32];
        src.m.bytes(&mut want);
        let how = ctx.below(3);
        let g = match how {
            0 => G::from_rng(&mut src.g),
            1 => G::try_from_rng(&mut src.g).unwrap(),
            _ => src.g.fork(),
        };
        ctx.note(|| ["from_rng", "try_from_rng", "fork"][how].into());
        let mut p = Pair { g, m: RngModel::new(want, G::ROUNDS) };
        account(ctx, &p)?;
        account(ctx, &src)?;
        for _ in 0..3 {
            read(ctx, &mut p)?;
            read(ctx, &mut src)?;
        }
        // seed_from_u64 is a function of its argument, and the result is what its seed says
        let s = ctx.draw(u64::MAX);
        let a = G::seed_from_u64(s);
        let b = G::seed_from_u64(s);
        ensure!(a == b, "seed_from_u64", "{}: seed_from_u64({s}) is not deterministic", G::NAME);
        let sd = a.get_seed();
        let mut p = Pair { g: a, m: RngModel::new(sd, G::ROUNDS) };
        account(ctx, &p)?;
        for _ in 0..3 {
            read(ctx, &mut p)?;
        }
        let t = ctx.draw(u64::MAX);
        if t != s {
            ensure!(G::seed_from_u64(t).get_seed() != sd, "seed_from_u64", "{}: {s} and {t} give the same seed", G::NAME);
        }
        ctx.nontrivial = true;
        Ok(())
    }
    with_rng!(ctx, go)
}

// ------------------------------------------------------------------ C13

pub fn c13_account(ctx: &mut Ctx) -> Res {
    fn go<G: RngX>(ctx: &mut Ctx) -> Res {
        let mut p = start::<G>(ctx);
        account(ctx, &p)?;
        let n = ctx.range(1, if ctx.small { 6 } else { 24 });
        let (mut sets, mut reads) = (0, 0);
        for _ in 0..n {
            match ctx.weighted(&[10, 3, 2, 2]) {
                0 => {
                    let before = p.m.pos;
                    read(ctx, &mut p)?;
                    if p.m.pos < before {
                        ctx.label("the 68-bit position wrapped");
                    }
                    reads += 1;
                }
                1 => {
                    set_word_pos(ctx, &mut p);
                    sets += 1;
                }
                2 => {
                    set_block_pos(ctx, &mut p);
                    sets += 1;
                }
                _ => {
                    set_stream(ctx, &mut p);
                    sets += 1;
                }
            }
            account(ctx, &p)?;
        }
        // the next words are the right ones
        for _ in 0..2 {
            let at = p.m.pos;
            let (v, w) = (p.g.next_u32(), p.m.word());
            ensure!(v == w, "output", "{}: word {at:#x} is {v:#x}, want {w:#x}", G::NAME);
        }
        account(ctx, &p)?;
        ctx.nontrivial = reads > 0 && sets > 0;
        Ok(())
    }
    with_rng!(ctx, go)
}

// ------------------------------------------------------------------ C14

/// Some reachable state, by a drawn history.
fn reach<G: RngX>(ctx: &mut Ctx, p: &mut Pair<G>, max: usize) -> Res {
    let n = ctx.range(0, max);
    for _ in 0..n {
        match ctx.weighted(&[6, 3, 1, 1]) {
            0 => read(ctx, p)?,
            1 => set_word_pos(ctx, p),
            2 => set_block_pos(ctx, p),
            _ => set_stream(ctx, p),
        }
    }
    Ok(())
}
fn image(m: &RngModel) -> [u8; 49] {
    let mut b = [0u8; 49];
    b[..32].copy_from_slice(&m.seed);
    b[32..40].copy_from_slice(&m.stream.to_le_bytes());
    b[40..].copy_from_slice(&m.pos.to_le_bytes()[..9]);
    b
}

pub fn c14_roundtrip(ctx: &mut Ctx) -> Res {
    fn go<G: RngX>(ctx: &mut Ctx) -> Res {
        let mut p = start::<G>(ctx);
        let mut sers = 0;
        let n = ctx.range(1, 3);
        for _ in 0..n {
            reach(ctx, &mut p, if ctx.small { 3 } else { 8 })?;
            let img = p.g.serialize();
            let want = image(&p.m);
            ensure!(img == want, "layout", "{}: serialized {} want {}", G::NAME, hex(&img), hex(&want));
            ensure!(p.g.serialize() == img, "layout", "{}: serializing twice differs", G::NAME);
            ctx.note(|| "serialize+restore".into());
            let r = G::deserialize(&img);
            ensure!(r == p.g && p.g == r, "restored not equal", "{}: restored generator is not equal to the original", G::NAME);
            let mut q = Pair { g: r, m: p.m.clone() };
            account(ctx, &q)?;
            ensure!(q.g.serialize() == img, "layout", "{}: restored generator serializes differently", G::NAME);
            // same future, through different reads
            let k = ctx.range(1, 4);
            for _ in 0..k {
                read(ctx, &mut q)?;
            }
            account(ctx, &q)?;
            // either the original or the restored one goes on
            if ctx.flag() {
                p = q;
            } else {
                account(ctx, &p)?;
                read(ctx, &mut p)?;
            }
            sers += 1;
        }
        ctx.nontrivial = sers > 0 && p.m.pos != 0;
        Ok(())
    }
    with_rng!(ctx, go)
}

/// Any 49 bytes restore; the four bits above the position are ignored.
pub fn c14_any_image(ctx: &mut Ctx) -> Res {
    fn go<G: RngX>(ctx: &mut Ctx) -> Res {
        let mut img = [0u8; 49];
        img[..32].copy_from_slice(&gens::bytes(ctx, 32));
        let st = stream(ctx);
        img[32..40].copy_from_slice(&st.to_le_bytes());
        if ctx.flag() {
            let (w, _) = word_pos(ctx);
            img[40..].copy_from_slice(&w.to_le_bytes()[..9]);
        } else {
            let b = gens::bytes(ctx, 9);
            img[40..].copy_from_slice(&b);
        }
        ctx.note(|| format!("{} image={} ..{}", G::NAME, hex(&img[..40]), hex(&img[40..])));
        ctx.label(G::NAME);
        if img[48] >> 4 != 0 {
            ctx.label("unused bits set");
        }
        let mut m = RngModel::new(img[..32].try_into().unwrap(), G::ROUNDS);
        m.stream = st;
        let mut w = [0u8; 16];
        w[..9].copy_from_slice(&img[40..]);
        m.pos = u128::from_le_bytes(w) & POS_MASK;
        let g = G::deserialize(&img);
        let mut p = Pair { g, m };
        account(ctx, &p)?;
        let out = p.g.serialize();
        ensure!(out == image(&p.m), "layout", "{}: serialized {} want {}", G::NAME, hex(&out), hex(&image(&p.m)));
        for _ in 0..3 {
            read(ctx, &mut p)?;
            account(ctx, &p)?;
        }
        ctx.nontrivial = true;
        Ok(())
    }
    with_rng!(ctx, go)
}

/// Two generators brought to related states by different histories: equal exactly when the
/// triple agrees, and equal means equal future output.
pub fn c14_equality(ctx: &mut Ctx) -> Res {
    fn go<G: RngX>(ctx: &mut Ctx) -> Res {
        let mut a = start::<G>(ctx);
        reach(ctx, &mut a, 6)?;
        // b reaches the same (or a slightly different) point another way
        let mut sd = a.m.seed;
        let mut st = a.m.stream;
        let mut pos = a.m.pos;
        let change = ctx.weighted(&[4, 2, 2, 4, 3, 2, 2]);
        match change {
            0 => {}
            1 => {
                let i = ctx.below(32);
                sd[i] ^= 1 << ctx.below(8);
            }
            2 => st ^= 1 << ctx.below(64),
            4 => {
                // differences which cancel in a sum, an exclusive or or a comparison as sets
                let n = *ctx.pick(&[1usize, 2, 4, 8, 16]);
                let (i, j) = (ctx.below(32 / n) * n, ctx.below(32 / n) * n);
                if ctx.flag() {
                    for x in 0..n {
                        sd.swap(i + x, j + x);
                    }
                } else if i != j {
                    let d = 1 + ctx.draw(254) as u8;
                    let at = ctx.below(n);
                    sd[i + at] ^= d;
                    sd[j + at] ^= d;
                }
            }
            5 => {
                // the same difference in two of the three
                let d = match ctx.below(3) {
                    0 => 1u64 << ctx.below(64),
                    1 => 1 + ctx.draw(100),
                    _ => ctx.draw(u64::MAX),
                };
                match ctx.below(4) {
                    0 => {
                        st ^= d;
                        pos ^= d as u128;
                    }
                    1 => {
                        st = st.wrapping_add(d);
                        pos = pos.wrapping_sub((d as u128) << if ctx.flag() { 4 } else { 0 });
                    }
                    2 => {
                        st ^= d;
                        for (x, b) in sd[24..].iter_mut().zip(d.to_le_bytes()) {
                            *x ^= b;
                        }
                    }
                    _ => {
                        let at = 8 * ctx.below(4);
                        pos ^= (d as u128) << 4;
                        for (x, b) in sd[at..].iter_mut().zip(d.to_le_bytes()) {
                            *x ^= b;
                        }
                    }
                }
                pos &= POS_MASK;
            }
            6 => {
                // exchanged parts
                match ctx.below(3) {
                    0 => st = st.rotate_left(32),
                    1 => {
                        let b = (pos >> 4) as u64;
                        pos = (st as u128) << 4 | (pos & 15);
                        st = b;
                    }
                    _ => {
                        let (w, t) = (sd[..8].to_vec(), st);
                        sd[..8].copy_from_slice(&t.to_le_bytes());
                        st = u64::from_le_bytes(w.try_into().unwrap());
                    }
                }
            }
            _ => {
                pos = match ctx.below(4) {
                    0 => pos.wrapping_add(1 + ctx.draw(70) as u128),
                    1 => pos.wrapping_sub(1 + ctx.draw(70) as u128),
                    2 => pos ^ (1u128 << ctx.below(68)),
                    _ => {
                        let b = 4 + ctx.below(64);
                        pos ^ (1u128 << b)
                    }
                } & POS_MASK
            }
        }
        ctx.label(["pair:same state", "pair:seed differs", "pair:stream differs", "pair:position differs", "pair:seed differs twice", "pair:two parts differ", "pair:parts exchanged"][change]);
        let mut b = Pair::<G>::new(sd);
        ctx.note(|| format!("other: change {change} target word {pos:#x}"));
        reach(ctx, &mut b, 2)?;
        b.g.set_stream(st);
        b.m.set_stream(st);
        // approach the target from before it, by reading a drawn number of words
        let back = match ctx.weighted(&[2, 3, 3]) {
            0 => 0,
            1 => ctx.draw(20) as u128,
            _ => ctx.draw(300) as u128,
        };
        let from = pos.wrapping_sub(back) & POS_MASK;
        b.g.set_word_pos(from);
        b.m.pos = from;
        let mut left = back as usize;
        while left > 0 {
            let k = ctx.range(1, left.min(80));
            let mut x = vec![0u8; 4 * k];
            let mut y = vec![0u8; 4 * k];
            b.g.fill_bytes(&mut x);
            b.m.bytes(&mut y);
            ensure!(x == y, "output", "{}: {}", G::NAME, crate::p_stream::first_diff(&x, &y));
            left -= k;
        }
        let same = a.m.seed == b.m.seed && a.m.stream == b.m.stream && a.m.pos == b.m.pos;
        let eq = a.g == b.g;
        ensure!(eq == (b.g == a.g), "equality", "{}: equality is not symmetric", G::NAME);
        #[allow(clippy::eq_op)]
        let refl = a.g == a.g && b.g == b.g;
        ensure!(refl, "equality", "{}: a generator differs from itself", G::NAME);
        ensure!(
            eq == same,
            "equality",
            "{}: == says {eq}; seeds equal {}, streams equal {}, words {:#x} and {:#x}",
            G::NAME,
            a.m.seed == b.m.seed,
            a.m.stream == b.m.stream,
            a.m.pos,
            b.m.pos
        );
        ensure!((a.g != b.g) == !eq, "equality", "{}: != disagrees with ==", G::NAME);
        if eq {
            let n = fill_len(ctx) + 1;
            let (mut x, mut y) = (vec![0u8; n], vec![0u8; n]);
            a.g.fill_bytes(&mut x);
            b.g.fill_bytes(&mut y);
            if x != y {
                fail!("equality", "{}: equal generators gave different output: {}", G::NAME, crate::p_stream::first_diff(&x, &y));
            }
            ensure!(a.g == b.g, "equality", "{}: equal generators differ after the same {n}-byte fill", G::NAME);
        }
        ctx.nontrivial = a.m.pos != 0 || !same;
        Ok(())
    }
    with_rng!(ctx, go)
}
