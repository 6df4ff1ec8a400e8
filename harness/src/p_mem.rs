//! C18: which bytes processing touches. Buffers lie against inaccessible pages, inputs are
//! read-only, and everything else around them carries canaries.

use crate::ciphers::*;
use crate::engine::*;
use crate::gens::{self, hex};
use crate::p_core::cores;
use crate::p_stream::{first_diff, mk};
use crate::ensure;
use std::sync::OnceLock;

unsafe extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
}
const PAGE: usize = 4096;
const PAGES: usize = 8;
pub const ROOM: usize = PAGE * PAGES;

/// Accessible pages between inaccessible ones.
struct Arena(usize);
impl Arena {
    fn new() -> Self {
        unsafe {
            // PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS
            let p = mmap(std::ptr::null_mut(), ROOM + 2 * PAGE * 4, 0, 0x22, -1, 0);
            assert!(p as isize != -1, "HARNESS mmap");
            let q = p.add(4 * PAGE);
            assert!(mprotect(q, ROOM, 3) == 0, "HARNESS mprotect");
            Arena(q as usize)
        }
    }
    fn all(&self) -> &'static mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.0 as *mut u8, ROOM) }
    }
    fn writable(&self, on: bool) {
        unsafe { assert!(mprotect(self.0 as *mut u8, ROOM, if on { 3 } else { 1 }) == 0, "HARNESS mprotect") }
    }
    fn slice(&self, at: usize, n: usize) -> &'static mut [u8] {
        assert!(at + n <= ROOM, "HARNESS arena");
        unsafe { std::slice::from_raw_parts_mut((self.0 + at) as *mut u8, n) }
    }
}
fn arenas() -> &'static (Arena, Arena) {
    static A: OnceLock<(Arena, Arena)> = OnceLock::new();
    A.get_or_init(|| (Arena::new(), Arena::new()))
}

/// Offset of a buffer of n bytes: flush with either end or anywhere with any alignment.
fn place(ctx: &mut Ctx, n: usize) -> (usize, &'static str) {
    match ctx.weighted(&[4, 2, 3]) {
        0 => (ROOM - n, "ends at an inaccessible page"),
        1 => (0, "starts after an inaccessible page"),
        _ => {
            let o = ctx.range(1, 63);
            (o.min(ROOM - n), "inside, any alignment")
        }
    }
}
fn canary(b: u8, i: usize) -> u8 {
    b ^ (i as u8).wrapping_mul(31) ^ (i >> 8) as u8
}
fn set_canaries(m: &mut [u8], b: u8) {
    for (i, x) in m.iter_mut().enumerate() {
        *x = canary(b, i);
    }
}
fn check_canaries(m: &[u8], b: u8, lo: usize, hi: usize, what: &str) -> Res {
    for (i, &x) in m.iter().enumerate() {
        if (i < lo || i >= hi) && x != canary(b, i) {
            crate::fail!("outside the buffer", "{what}: byte {} relative to the buffer of {} bytes was changed", i as isize - lo as isize, hi - lo);
        }
    }
    Ok(())
}

enum Target {
    Cipher(&'static Spec, u128),
    Core(usize, u64),
    #[cfg(feature = "cc_rng")]
    Rng(usize, u128),
}

/// One operation on fresh instances, in two differently painted memories and in plain vectors.
pub fn c18_bounds(ctx: &mut Ctx) -> Res {
    let (out_a, in_a) = arenas();
    let rng = cfg!(feature = "cc_rng");
    let t = match ctx.weighted(&[6, 3, 3]) {
        1 if !cores().is_empty() => {
            let i = ctx.below(cores().len());
            let p = match cores()[i].ctr {
                Some(b) => gens::block_index(ctx, b).0,
                None => 0,
            };
            Target::Core(i, p)
        }
        #[cfg(feature = "cc_rng")]
        2 => Target::Rng(ctx.below(3), crate::p_rng::word_pos(ctx).0),
        _ if !specs().is_empty() => {
            let s = ctx.pick(specs());
            let p = if s.seekable() { gens::pos(ctx, s).0 } else { 0 };
            Target::Cipher(s, p)
        }
        _ => return Ok(()),
    };
    let _ = rng;
    let pre = if ctx.flag() { ctx.range(0, 70) } else { 0 };
    let mut len = match ctx.weighted(&[3, 1]) {
        0 => gens::small_len(ctx),
        _ => gens::len(ctx),
    }
    .min(ROOM - 64);
    let kl;
    let il;
    let name;
    let (api, in_place, two);
    match &t {
        Target::Cipher(s, p) => {
            name = s.name;
            kl = if s.klen == 0 { 16 } else { s.klen };
            il = s.ivlen;
            api = ctx.below(N_API);
            in_place = api_in_place(api);
            two = api_two_buffers(api);
            if let Some(e) = s.end() {
                len = len.min((e - p).saturating_sub(pre as u128).min(1 << 20) as usize);
            }
        }
        Target::Core(i, _) => {
            let c = &cores()[*i];
            name = c.name;
            kl = c.klen;
            il = c.ivlen;
            // kinds of CoreX::apply, then the two writers
            api = ctx.below(7);
            in_place = matches!(api, 0 | 2 | 3);
            two = matches!(api, 1 | 4);
        }
        #[cfg(feature = "cc_rng")]
        Target::Rng(i, _) => {
            name = ["ChaCha20Rng", "ChaCha12Rng", "ChaCha8Rng"][*i];
            kl = 32;
            il = 0;
            api = 0;
            in_place = false;
            two = false;
        }
    }
    let k = gens::bytes(ctx, kl);
    let iv = gens::bytes(ctx, il);
    if let Target::Core(i, _) = &t {
        let bs = (cores()[*i].make)(&k, &iv).bs();
        let nb = if matches!(api, 0 | 1 | 5) { 1 } else { (len / bs).min(64) };
        len = nb * bs;
    }
    let data = gens::bytes(ctx, len);
    let (oo, ol) = place(ctx, len);
    let (io, il_) = place(ctx, len);
    ctx.note(|| {
        format!(
            "{name} key={} nonce={} after {pre} bytes: {} of {len} bytes, output {ol} (offset {oo}), input {il_} (offset {io})",
            hex(&k),
            hex(&iv),
            match &t {
                Target::Cipher(_, p) => format!("{} at byte {p}", APIS[api]),
                Target::Core(_, p) => format!("block call {api} at block {p}"),
                #[cfg(feature = "cc_rng")]
                Target::Rng(_, p) => format!("fill_bytes at word {p}"),
            }
        )
    });
    ctx.label(name);
    ctx.label(format!("output {ol}"));
    if two {
        ctx.label(format!("input {il_}, read-only"));
    }
    let once = |inp: &[u8], out: &mut [u8]| -> Res {
        match &t {
            Target::Cipher(s, p) => {
                let mut c = mk(s, &k, &iv)?;
                if s.seekable() {
                    ensure!(c.seek(3, *p) == Some(true), "seek", "{name}: seek({p}) refused");
                }
                let mut pre = vec![0u8; pre];
                if let Some(e) = s.end() {
                    pre.truncate((e - p).min(1 << 20) as usize);
                }
                c.call(0, &[], &mut pre);
                ensure!(c.call(api, inp, out), "refused", "{name}: {} refused {} bytes", APIS[api], out.len());
            }
            Target::Core(i, p) => {
                let s = &cores()[*i];
                let mut c = (s.make)(&k, &iv);
                if s.ctr.is_some() {
                    c.set_pos(*p);
                }
                match api {
                    0..=4 => c.apply(api, inp, out),
                    5 => c.write_block(out),
                    _ => c.write_blocks(out),
                }
            }
            #[cfg(feature = "cc_rng")]
            Target::Rng(i, p) => {
                fn go<G: crate::p_rng::RngX>(k: &[u8], p: u128, pre: usize, out: &mut [u8]) {
                    use chacha20::rand_core::Rng;
                    let mut g = G::from_seed(k.try_into().unwrap());
                    g.set_word_pos(p);
                    let mut v = vec![0u8; pre];
                    g.fill_bytes(&mut v);
                    g.fill_bytes(out);
                }
                match i {
                    0 => go::<chacha20::ChaCha20Rng>(&k, *p, pre, out),
                    1 => go::<chacha20::ChaCha12Rng>(&k, *p, pre, out),
                    _ => go::<chacha20::ChaCha8Rng>(&k, *p, pre, out),
                }
            }
        }
        Ok(())
    };
    // the plain result
    let mut want = if in_place { data.clone() } else { vec![0x77; len] };
    once(&data, &mut want)?;
    for paint in [0x00u8, 0xC3] {
        let om = out_a.all();
        set_canaries(om, paint);
        in_a.writable(true);
        set_canaries(in_a.all(), !paint);
        in_a.slice(io, len).copy_from_slice(&data);
        let out = out_a.slice(oo, len);
        if in_place {
            out.copy_from_slice(&data);
        }
        in_a.writable(false);
        once(in_a.slice(io, len), out)?;
        let out = out_a.slice(oo, len);
        ensure!(*out == want[..], "result depends on placement", "{name}: result differs from the one in plain memory (or not every byte was written): {}", first_diff(out, &want));
        check_canaries(out_a.all(), paint, oo, oo + len, name)?;
        in_a.writable(true);
        ensure!(*in_a.slice(io, len) == data[..], "input changed", "{name}: input changed");
        check_canaries(in_a.all(), !paint, io, io + len, name)?;
    }
    ctx.nontrivial = len > 0;
    Ok(())
}
