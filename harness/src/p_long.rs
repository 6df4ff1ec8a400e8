//! Streams of more than 2^32 bytes (C01 to C06, C12): as many large requests, and as one request
//! whose length does not fit 32 bits.

use crate::ciphers::*;
use crate::engine::*;
use crate::gens::{self, hex};
use crate::p_stream::{first_diff, mk, seek_to};
use crate::{ensure, fail};

#[cfg(all(target_os = "linux", target_pointer_width = "64"))]
mod looped {
    unsafe extern "C" {
        fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
        fn munmap(a: *mut u8, l: usize) -> i32;
        fn memfd_create(n: *const std::ffi::c_char, f: u32) -> i32;
        fn ftruncate(fd: i32, l: i64) -> i32;
        fn close(fd: i32) -> i32;
    }
    pub const BLOCK: usize = 16 << 20;

    /// A large range of addresses backed by one block of memory mapped over and over: bytes
    /// written at x and x + BLOCK are the same, so what remains at the end is the last block.
    pub struct Looped {
        p: *mut u8,
        len: usize,
    }
    impl Looped {
        pub fn new(len: usize) -> Self {
            let len = len.div_ceil(BLOCK) * BLOCK;
            unsafe {
                let fd = memfd_create(c"vh".as_ptr(), 0);
                assert!(fd >= 0 && ftruncate(fd, BLOCK as i64) == 0, "HARNESS memfd");
                // PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE
                let p = mmap(std::ptr::null_mut(), len, 0, 0x4022, -1, 0);
                assert!(p as isize != -1, "HARNESS mmap");
                for o in (0..len).step_by(BLOCK) {
                    // read and write, MAP_SHARED | MAP_FIXED
                    let q = mmap(p.add(o), BLOCK, 3, 0x11, fd, 0);
                    assert!(q == p.add(o), "HARNESS mmap");
                }
                close(fd);
                Looped { p, len }
            }
        }
        pub fn slice(&mut self, n: usize) -> &mut [u8] {
            assert!(n <= self.len, "HARNESS looped");
            unsafe { std::slice::from_raw_parts_mut(self.p, n) }
        }
    }
    impl Drop for Looped {
        fn drop(&mut self) {
            unsafe {
                munmap(self.p, self.len);
            }
        }
    }
}
#[cfg(not(all(target_os = "linux", target_pointer_width = "64")))]
mod looped {
    pub const BLOCK: usize = 1 << 20;
    pub struct Looped(Vec<u8>);
    impl Looped {
        pub fn new(len: usize) -> Self {
            Looped(vec![0; len])
        }
        pub fn slice(&mut self, n: usize) -> &mut [u8] {
            &mut self.0[..n]
        }
    }
}
use looped::{BLOCK, Looped};

#[derive(Clone, Copy, PartialEq)]
enum Size {
    /// past 2^24 bytes, sometimes past 2^32
    Long,
    /// past 2^32 bytes and, where time allows it, 2^32 steps of the cipher
    Huge,
}

fn total(ctx: &mut Ctx, size: Size, step: u64) -> u64 {
    let extra = ctx.draw(9999);
    let (n, l) = match size {
        Size::Long if !ctx.one_in(24) => (3 << 23, "more than 2^24 bytes"),
        Size::Huge if step <= 4 || (ctx.thorough && ctx.one_in(4)) => (step << 32, if step > 1 { "more than 2^32 steps" } else { "more than 2^32 bytes" }),
        _ => (1 << 32, "more than 2^32 bytes"),
    };
    ctx.label(l);
    n + (1 << 23) + extra
}

/// Where in a piece of n bytes to compare: the start, the end and one place between.
fn windows(n: usize, salt: u64) -> [(usize, usize); 3] {
    let w = n.min(200);
    [(0, w), (n - w, w), ((salt.wrapping_mul(0x9E37_79B9_7F4A_7C15) % (n - w + 1) as u64) as usize, w)]
}

fn long(ctx: &mut Ctx, pool: &[&'static Spec], size: Size) -> Res {
    if pool.is_empty() {
        return Ok(());
    }
    let s = *ctx.pick(pool);
    let k = gens::key(ctx, s);
    let iv = gens::iv(ctx, s, &k);
    let mut c = mk(s, &k, &iv)?;
    let mut m = (s.model)(&k, &iv);
    let total = total(ctx, size, match s.fam {
        Fam::Rabbit => 16,
        Fam::Hc => 4,
        _ => 1,
    });
    let mut pos = 0u128;
    if s.seekable() && ctx.flag() {
        let p = gens::pos(ctx, s).0;
        if s.end().is_none_or(|e| e - p > total as u128 + (2 << 20)) {
            pos = p;
            seek_to(&mut *c, pos)?;
        }
    }
    let seq = matches!(m, Model::Seq(_));
    let one = if size == Size::Huge { ctx.flag() } else { ctx.one_in(3) };
    let api = *ctx.pick(&[8usize, 2, 13, 9, 15, 3, 12]);
    ctx.note(|| format!("{} key={} iv={} pos={pos} {total} bytes, {} {}", s.name, hex(&k), hex(&iv), if one { "one" } else { "many" }, APIS[api]));
    ctx.label(format!("cipher:{}", s.name));
    let start = pos;
    if one {
        ctx.label("in one request");
        let n = total as usize;
        let mut out = Looped::new(n);
        let mut zero = Looped::new(if api_is_write(api) { 1 } else { n });
        let ok = c.call(api, if api_is_write(api) { &[] } else { zero.slice(n) }, out.slice(n));
        ensure!(ok, "refused", "{} refused a request of {n} bytes that fits", s.name);
        // the last block's worth of bytes is still there
        let keep = BLOCK.min(n);
        let (got, mut want) = (&out.slice(n)[n - keep..], vec![0u8; keep]);
        if seq {
            let mut skip = n - keep;
            let mut b = vec![0u8; 1 << 20];
            while skip > 0 {
                let l = skip.min(b.len());
                m.fill(0, &mut b[..l]);
                skip -= l;
            }
        }
        m.fill(pos + (n - keep) as u128, &mut want);
        if got != want {
            fail!("keystream", "{}: the last {keep} of {n} bytes produced by one request from {pos}: {}", s.name, first_diff(got, &want));
        }
        pos += n as u128;
    } else {
        let mut a = vec![0u8; (1 << 20) + 77];
        let zero = vec![0u8; a.len()];
        let mut b = vec![0u8; if seq { a.len() } else { 200 }];
        while pos - start < total as u128 {
            ensure!(c.call(api, &zero, &mut a), "refused", "{} refused a request that fits at {pos}", s.name);
            if seq {
                m.fill(0, &mut b);
                if a != b {
                    fail!("keystream", "{} in the piece at offset {pos}: {}", s.name, first_diff(&a, &b));
                }
            } else {
                for (o, n) in windows(a.len(), pos as u64) {
                    m.fill(pos + o as u128, &mut b[..n]);
                    if a[o..o + n] != b[..n] {
                        fail!("keystream", "{} at position {}: {}", s.name, pos + o as u128, first_diff(&a[o..o + n], &b[..n]));
                    }
                }
            }
            pos += a.len() as u128;
        }
    }
    // and on from there
    let (mut a, mut b) = ([0u8; 300], [0u8; 300]);
    ensure!(c.call(13, &[], &mut a), "refused", "{} refused a request that fits at {pos}", s.name);
    m.fill(pos, &mut b);
    ensure!(a == b, "keystream", "{} at position {pos}, after {} bytes: {}", s.name, pos - start, first_diff(&a, &b));
    if s.seekable() {
        let p = c.pos(3);
        ensure!(p == Some(Some(pos + 300)), "position", "{} after {} bytes from {start}: position {p:?}, want {}", s.name, pos + 300 - start, pos + 300);
    }
    ctx.nontrivial = true;
    Ok(())
}

pub fn c01_long(ctx: &mut Ctx) -> Res {
    long(ctx, &select(|s| s.fam == Fam::ChaCha), Size::Long)
}
pub fn c01_huge(ctx: &mut Ctx) -> Res {
    long(ctx, &select(|s| s.fam == Fam::ChaCha), Size::Huge)
}
pub fn c02_long(ctx: &mut Ctx) -> Res {
    long(ctx, &select(|s| matches!(s.fam, Fam::XChaCha | Fam::XSalsa)), Size::Long)
}
pub fn c02_huge(ctx: &mut Ctx) -> Res {
    long(ctx, &select(|s| matches!(s.fam, Fam::XChaCha | Fam::XSalsa)), Size::Huge)
}
pub fn c03_long(ctx: &mut Ctx) -> Res {
    long(ctx, &select(|s| s.fam == Fam::Salsa), Size::Long)
}
pub fn c03_huge(ctx: &mut Ctx) -> Res {
    long(ctx, &select(|s| s.fam == Fam::Salsa), Size::Huge)
}
pub fn c04_long(ctx: &mut Ctx) -> Res {
    long(ctx, &select(|s| s.fam == Fam::Rabbit), Size::Long)
}
pub fn c04_huge(ctx: &mut Ctx) -> Res {
    long(ctx, &select(|s| s.fam == Fam::Rabbit), Size::Huge)
}
pub fn c05_long(ctx: &mut Ctx) -> Res {
    long(ctx, &select(|s| s.fam == Fam::Hc), Size::Long)
}
pub fn c05_huge(ctx: &mut Ctx) -> Res {
    long(ctx, &select(|s| s.fam == Fam::Hc), Size::Huge)
}
pub fn c06_long(ctx: &mut Ctx) -> Res {
    long(ctx, &select(|s| s.fam == Fam::Rc4), Size::Long)
}
pub fn c06_huge(ctx: &mut Ctx) -> Res {
    long(ctx, &select(|s| s.fam == Fam::Rc4), Size::Huge)
}

/// The generators, the same way.
#[cfg(feature = "cc_rng")]
fn rng_long(ctx: &mut Ctx, size: Size) -> Res {
    use crate::p_rng::*;
    use chacha20::rand_core::Rng;
    fn go<G: RngX>(ctx: &mut Ctx, size: Size) -> Res {
        let mut p = Pair::<G>::new(seed(ctx));
        let total = total(ctx, size, 1);
        if ctx.flag() {
            set_stream(ctx, &mut p);
        }
        if ctx.flag() {
            set_word_pos(ctx, &mut p);
        }
        let one = if size == Size::Huge { ctx.flag() } else { ctx.one_in(3) };
        ctx.note(|| format!("{} seed={} stream={} word={:#x} {total} bytes{}", G::NAME, hex(&p.m.seed), p.m.stream, p.m.pos, if one { " in one request" } else { "" }));
        ctx.label(G::NAME);
        let from = p.m.pos;
        if one {
            ctx.label("in one request");
            let n = total as usize;
            let mut out = Looped::new(n);
            p.g.fill_bytes(out.slice(n));
            let keep = (BLOCK.min(n) - 64) / 4 * 4 + n % 4;
            p.m.pos = (from + ((n - keep) / 4) as u128) & crate::refs::POS_MASK;
            let mut want = vec![0u8; keep];
            p.m.bytes(&mut want);
            let got = &out.slice(n)[n - keep..];
            if got != want {
                fail!("output", "{}: the last {keep} of {n} bytes of one fill from word {from:#x}: {}", G::NAME, first_diff(got, &want));
            }
        } else {
            let mut a = vec![0u8; (1 << 20) + 52];
            let mut b = [0u8; 200];
            let mut done = 0u64;
            while done < total {
                let at = p.m.pos;
                p.g.fill_bytes(&mut a);
                for (o, n) in windows(a.len(), done) {
                    let o = o / 4 * 4;
                    p.m.pos = (at + (o / 4) as u128) & crate::refs::POS_MASK;
                    p.m.bytes(&mut b[..n]);
                    if a[o..o + n] != b[..n] {
                        fail!("output", "{}: {done} bytes after word {from:#x}, byte {o} of a fill: {}", G::NAME, first_diff(&a[o..o + n], &b[..n]));
                    }
                }
                p.m.pos = (at + (a.len() / 4) as u128) & crate::refs::POS_MASK;
                done += a.len() as u64;
            }
        }
        for _ in 0..4 {
            read(ctx, &mut p)?;
        }
        account(ctx, &p)?;
        ctx.nontrivial = true;
        Ok(())
    }
    match ctx.below(3) {
        0 => go::<chacha20::ChaCha20Rng>(ctx, size),
        1 => go::<chacha20::ChaCha8Rng>(ctx, size),
        _ => go::<chacha20::ChaCha12Rng>(ctx, size),
    }
}

#[cfg(feature = "cc_rng")]
pub fn c12_long(ctx: &mut Ctx) -> Res {
    rng_long(ctx, Size::Long)
}
#[cfg(feature = "cc_rng")]
pub fn c12_huge(ctx: &mut Ctx) -> Res {
    rng_long(ctx, Size::Huge)
}
