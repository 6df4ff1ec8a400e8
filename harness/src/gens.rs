//! Generators. All are sound (documented-valid inputs only) unless a check asks otherwise, and
//! biased towards the places where counter-mode and buffering code goes wrong.
#![allow(dead_code)]

use crate::ciphers::{Fam, Spec};
use crate::engine::{Ctx, expand};

pub fn hex(b: &[u8]) -> String {
    const MAX: usize = 40;
    let mut s = String::new();
    for x in b.iter().take(MAX) {
        s.push_str(&format!("{x:02x}"));
    }
    if b.len() > MAX {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

/// Secret or data bytes: random, or one of several degenerate shapes.
pub fn bytes(c: &mut Ctx, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    if n == 0 {
        return v;
    }
    match c.weighted(&[2, 10, 1, 2, 1, 3, 1, 1]) {
        0 => {}
        1 => {
            let s = c.draw(u64::MAX);
            expand(s, &mut v);
        }
        2 => v.fill(0xff),
        3 => {
            // one bit set
            let i = c.below(n);
            v[i] = 1 << c.below(8);
        }
        4 => {
            for (i, b) in v.iter_mut().enumerate() {
                *b = i as u8;
            }
        }
        5 => {
            // words from a set of special values, on a random background
            let s = c.draw(u64::MAX);
            expand(s, &mut v);
            let nw = n.div_ceil(4);
            let k = c.range(1, nw.min(8));
            for _ in 0..k {
                let w = c.below(nw);
                let val = *c.pick(&[0u32, u32::MAX, 1, 0x8000_0000, 0x7fff_ffff, 0xffff_fffe, 0x0000_ffff, 0xffff_0000, 0xff, 0xff00_0000]);
                let b = val.to_le_bytes();
                for (j, x) in v[4 * w..].iter_mut().take(4).enumerate() {
                    *x = b[j];
                }
            }
        }
        6 => {
            let b = c.draw(255) as u8;
            v.fill(b);
        }
        _ => {
            // a short random string over and over: equal words, equal halves
            let p = *c.pick(&[2usize, 4, 8, 16]);
            let s = c.draw(u64::MAX);
            let mut w = vec![0u8; p];
            expand(s, &mut w);
            for (i, b) in v.iter_mut().enumerate() {
                *b = w[i % p];
            }
        }
    }
    v
}

/// RC4 key lengths 1..=256 with the ends favoured.
pub fn rc4_key(c: &mut Ctx) -> Vec<u8> {
    let n = match c.weighted(&[3, 4, 2, 2]) {
        0 => c.range(1, 16),
        1 => c.range(1, 256),
        2 => *c.pick(&[1usize, 2, 255, 256, 254, 128, 127, 129, 32, 16, 5]),
        _ => c.range(240, 256),
    };
    bytes(c, n)
}

pub fn key(c: &mut Ctx, s: &Spec) -> Vec<u8> {
    match s.fam {
        Fam::Rc4 => rc4_key(c),
        Fam::Rabbit => rabbit_key(c),
        _ => bytes(c, s.klen),
    }
}

pub fn iv(c: &mut Ctx, s: &Spec, key: &[u8]) -> Vec<u8> {
    if s.fam == Fam::Rabbit && s.ivlen == 8 { rabbit_iv(c, key) } else { bytes(c, s.ivlen) }
}

/// A start value with which a Rabbit counter word reaches a value at the edge of a carry in its
/// `steps`-th step: one in 2^32 random keys does, and code that computes the carry in another way
/// goes wrong exactly there.
fn rabbit_edge(c: &mut Ctx, j: usize, steps: u32) -> u32 {
    const A: [u32; 3] = [0x4D34_D34D, 0xD34D_34D3, 0x34D3_4D34];
    let v = *c.pick(&[0u32, u32::MAX, 1, u32::MAX - 1]);
    let carries = c.draw(steps as u64) as u32;
    v.wrapping_sub(steps.wrapping_mul(A[j % 3])).wrapping_sub(carries)
}

/// Rabbit keys; some put a counter word at the edge of a carry during the key setup.
pub fn rabbit_key(c: &mut Ctx) -> Vec<u8> {
    let mut k = bytes(c, 16);
    if !c.one_in(3) {
        return k;
    }
    let j = c.below(8);
    let steps = c.range(1, 4) as u32;
    let w = rabbit_edge(c, j, steps);
    let (hi, lo) = if j % 2 == 0 { ((j + 4) % 8, (j + 5) % 8) } else { (j, (j + 1) % 8) };
    k[2 * hi..2 * hi + 2].copy_from_slice(&((w >> 16) as u16).to_le_bytes());
    k[2 * lo..2 * lo + 2].copy_from_slice(&(w as u16).to_le_bytes());
    if j > 0 && c.flag() {
        // and make the word before it carry
        let p = j - 1;
        let (hi, lo2) = if p % 2 == 0 { ((p + 4) % 8, (p + 5) % 8) } else { (p, (p + 1) % 8) };
        if hi != lo {
            k[2 * hi + 1] = 0xff;
            let _ = lo2;
        }
    }
    k
}

/// Rabbit IVs; some put a counter word at the edge of a carry during the IV setup or in the first
/// output blocks.
pub fn rabbit_iv(c: &mut Ctx, key: &[u8]) -> Vec<u8> {
    let mut iv = bytes(c, 8);
    if !c.one_in(3) {
        return iv;
    }
    let ctr = crate::refs::RabbitRef::new(key, None).counters();
    let j = c.below(8);
    let steps = c.range(1, 10) as u32;
    let w = rabbit_edge(c, j, steps) ^ ctr[j];
    match j % 4 {
        0 => iv[..4].copy_from_slice(&w.to_le_bytes()),
        2 => iv[4..].copy_from_slice(&w.to_le_bytes()),
        1 => {
            iv[6..].copy_from_slice(&((w >> 16) as u16).to_le_bytes());
            iv[2..4].copy_from_slice(&(w as u16).to_le_bytes());
        }
        _ => {
            iv[4..6].copy_from_slice(&((w >> 16) as u16).to_le_bytes());
            iv[..2].copy_from_slice(&(w as u16).to_le_bytes());
        }
    }
    iv
}

/// Lengths around every width used by the implementations (1, 4, 16, 64 bytes; 4, 8, 16 blocks).
pub fn len(c: &mut Ctx) -> usize {
    let small = c.small;
    if small {
        return tiny_len(c);
    }
    let blocks_cap = 66;
    match c.weighted(&[3, 3, 8, 6, 3, 1]) {
        0 => *c.pick(&[0usize, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17]),
        1 => c.range(1, 130),
        2 => {
            // whole blocks, give or take a byte
            let n = c.range(1, blocks_cap) * 64;
            let d = c.draw(2) as usize;
            [n, n - 1, n + 1][d]
        }
        3 => {
            // whole blocks plus a tail of any size
            let n = c.range(0, if small { 16 } else { 34 }) * 64;
            n + c.range(0, 63)
        }
        4 => c.range(0, if small { 700 } else { 6000 }),
        _ => {
            if small {
                c.range(0, 1300)
            } else {
                c.range(4096, 24000)
            }
        }
    }
}

/// For interpreters: up to a full batch of the widest backend they run (8 blocks) and its tail.
fn tiny_len(c: &mut Ctx) -> usize {
    match c.weighted(&[4, 4, 3, 2]) {
        0 => *c.pick(&[0usize, 1, 3, 4, 16, 17, 63, 64, 65]),
        1 => c.range(1, 200),
        2 => {
            let n = c.range(1, 5) * 64;
            let d = c.draw(2) as usize;
            [n, n - 1, n + 1][d]
        }
        _ => {
            let n = c.range(6, 11) * 64;
            n + c.range(0, 63)
        }
    }
}

pub fn small_len(c: &mut Ctx) -> usize {
    if c.small {
        return tiny_len(c);
    }
    match c.weighted(&[3, 3, 3, 1]) {
        0 => *c.pick(&[0usize, 1, 2, 3, 4, 15, 16, 17, 63, 64, 65]),
        1 => c.range(1, 130),
        2 => {
            let n = c.range(1, 20) * 64;
            let d = c.draw(2) as usize;
            [n, n - 1, n + 1][d]
        }
        _ => c.range(0, 1500),
    }
}

/// A block index below `2^bits - 1`, near the places where counters carry.
pub fn block_index(c: &mut Ctx, bits: u32) -> (u64, &'static str) {
    let max: u64 = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
    let near = |c: &mut Ctx, a: u64, back: u64, fwd: u64| {
        let lo = a.saturating_sub(back);
        let hi = a.saturating_add(fwd).min(max);
        lo + c.draw(hi - lo)
    };
    if bits == 64 {
        match c.weighted(&[4, 4, 5, 2, 3, 2, 3]) {
            0 => (c.draw(40), "start"),
            1 => {
                let e = c.range(1, 63) as u32;
                (near(c, 1u64 << e, 40, 20), "power of two")
            }
            2 => {
                // low half about to carry
                let hi = match c.weighted(&[3, 2, 1, 1]) {
                    0 => 0,
                    1 => c.draw(u32::MAX as u64),
                    2 => u32::MAX as u64 - 1,
                    _ => 0x7fff_ffff,
                };
                let lo = u32::MAX as u64 - c.draw(40);
                ((hi << 32) | lo, "low half carries")
            }
            3 => {
                let hi = c.draw(u32::MAX as u64);
                ((hi << 32) | c.draw(3), "low half zero")
            }
            4 => (max - c.draw(80), "end"),
            5 => (c.draw(u32::MAX as u64), "32-bit"),
            _ => (c.draw(max), "any"),
        }
    } else {
        match c.weighted(&[4, 4, 3, 5, 4]) {
            0 => (c.draw(40), "start"),
            1 => {
                let e = c.range(1, bits as usize - 1) as u32;
                (near(c, 1u64 << e, 40, 20), "power of two")
            }
            2 => {
                let k = c.draw((max >> 16) - 1) + 1;
                (near(c, k << 16, 40, 20), "16-bit carry")
            }
            3 => (max - c.draw(80), "end"),
            _ => (c.draw(max), "any"),
        }
    }
}

pub fn in_block(c: &mut Ctx) -> u64 {
    match c.weighted(&[4, 2, 4]) {
        0 => 0,
        1 => *c.pick(&[1u64, 63, 62, 32, 15, 16, 17, 2]),
        _ => c.draw(63),
    }
}

/// Byte position of a seekable cipher, at most `end`.
pub fn pos(c: &mut Ctx, s: &Spec) -> (u128, &'static str) {
    let (b, l) = block_index(c, s.ctr.unwrap());
    let p = b as u128 * 64 + in_block(c) as u128;
    let end = s.end().unwrap();
    (p.min(end), l)
}

/// Label for the tail a length leaves on 4-, 8- and 16-block backends.
pub fn len_class(n: usize) -> &'static str {
    match n {
        0 => "len:0",
        1..=63 => "len:<1 block",
        64..=255 => "len:1-3 blocks",
        256..=511 => "len:4-7 blocks",
        512..=1023 => "len:8-15 blocks",
        1024..=4095 => "len:16-63 blocks",
        _ => "len:>=64 blocks",
    }
}
