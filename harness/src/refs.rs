//! Independent reference models, written from the specifications (RFC 8439, Bernstein's Salsa20
//! and XSalsa20 papers, the XChaCha draft, RFC 4503, Wu's HC-256 paper, the RC4 description).
//! They favour obviousness over speed and are checked against published vectors at start-up.

fn le32(b: &[u8]) -> u32 {
    (b[0] as u32) | ((b[1] as u32) << 8) | ((b[2] as u32) << 16) | ((b[3] as u32) << 24)
}
fn put32(o: &mut [u8], v: u32) {
    o[0] = v as u8;
    o[1] = (v >> 8) as u8;
    o[2] = (v >> 16) as u8;
    o[3] = (v >> 24) as u8;
}
/// "expand 32-byte k"
fn sigma() -> [u32; 4] {
    let s = b"expand 32-byte k";
    [le32(&s[0..]), le32(&s[4..]), le32(&s[8..]), le32(&s[12..])]
}

// ---------------------------------------------------------------- ChaCha

#[inline(always)]
fn cqr(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(16);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(12);
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(8);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(7);
}

/// The ChaCha permutation with `rounds` rounds (any number; odd counts end with a column round).
pub fn chacha_perm(st: &[u32; 16], rounds: usize) -> [u32; 16] {
    let mut x = *st;
    for r in 0..rounds {
        if r % 2 == 0 {
            for i in 0..4 {
                cqr(&mut x, i, 4 + i, 8 + i, 12 + i);
            }
        } else {
            for i in 0..4 {
                cqr(&mut x, i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4);
            }
        }
    }
    x
}

pub fn chacha_block(st: &[u32; 16], rounds: usize) -> [u8; 64] {
    let x = chacha_perm(st, rounds);
    let mut o = [0u8; 64];
    for i in 0..16 {
        put32(&mut o[4 * i..], x[i].wrapping_add(st[i]));
    }
    o
}

pub fn chacha_words(key: &[u8], last4: [u32; 4]) -> [u32; 16] {
    let c = sigma();
    let mut s = [0u32; 16];
    s[..4].copy_from_slice(&c);
    for i in 0..8 {
        s[4 + i] = le32(&key[4 * i..]);
    }
    s[12..].copy_from_slice(&last4);
    s
}

pub fn hchacha(key: &[u8], inp: &[u8], rounds: usize) -> [u8; 32] {
    let st = chacha_words(key, [le32(&inp[0..]), le32(&inp[4..]), le32(&inp[8..]), le32(&inp[12..])]);
    let x = chacha_perm(&st, rounds);
    let mut o = [0u8; 32];
    for i in 0..4 {
        put32(&mut o[4 * i..], x[i]);
        put32(&mut o[16 + 4 * i..], x[12 + i]);
    }
    o
}

// ---------------------------------------------------------------- Salsa20

/// Column round and row round written with the 4x4 matrix of the specification.
pub fn salsa_perm(st: &[u32; 16], rounds: usize) -> [u32; 16] {
    let mut x = *st;
    #[inline(always)]
    fn qr(x: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
        x[b] ^= x[a].wrapping_add(x[d]).rotate_left(7);
        x[c] ^= x[b].wrapping_add(x[a]).rotate_left(9);
        x[d] ^= x[c].wrapping_add(x[b]).rotate_left(13);
        x[a] ^= x[d].wrapping_add(x[c]).rotate_left(18);
    }
    for r in 0..rounds {
        for i in 0..4 {
            let at = |k: usize| {
                let j = (i + k) % 4;
                if r % 2 == 0 { 4 * j + i } else { 4 * i + j }
            };
            qr(&mut x, at(0), at(1), at(2), at(3));
        }
    }
    x
}

pub fn salsa_block(st: &[u32; 16], rounds: usize) -> [u8; 64] {
    let x = salsa_perm(st, rounds);
    let mut o = [0u8; 64];
    for i in 0..16 {
        put32(&mut o[4 * i..], x[i].wrapping_add(st[i]));
    }
    o
}

/// Salsa20 expansion of a 32-byte key with the 16-byte input `n`.
pub fn salsa_words(key: &[u8], n: &[u8]) -> [u32; 16] {
    let c = sigma();
    let k = |i: usize| le32(&key[4 * i..]);
    let m = |i: usize| le32(&n[4 * i..]);
    [
        c[0], k(0), k(1), k(2), //
        k(3), c[1], m(0), m(1), //
        m(2), m(3), c[2], k(4), //
        k(5), k(6), k(7), c[3],
    ]
}

pub fn hsalsa(key: &[u8], inp: &[u8], rounds: usize) -> [u8; 32] {
    let x = salsa_perm(&salsa_words(key, inp), rounds);
    let mut o = [0u8; 32];
    for (i, j) in [0usize, 5, 10, 15, 6, 7, 8, 9].into_iter().enumerate() {
        put32(&mut o[4 * i..], x[j]);
    }
    o
}

// ---------------------------------------------------------------- counter-mode model

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    ChaCha,
    Salsa,
}

/// A counter-mode keystream with random access. `words` is the 16-word input with the counter
/// words zero; `lo`/`hi` are the indices of the counter words (`hi == None`: 32-bit counter).
#[derive(Clone)]
pub struct CtrModel {
    pub kind: Kind,
    pub words: [u32; 16],
    pub lo: usize,
    pub hi: Option<usize>,
    pub rounds: usize,
}

impl CtrModel {
    pub fn block(&self, n: u64) -> [u8; 64] {
        let mut w = self.words;
        w[self.lo] = n as u32;
        if let Some(h) = self.hi {
            w[h] = (n >> 32) as u32;
        } else {
            assert!(n <= u32::MAX as u64, "HARNESS model block out of range");
        }
        match self.kind {
            Kind::ChaCha => chacha_block(&w, self.rounds),
            Kind::Salsa => salsa_block(&w, self.rounds),
        }
    }
    /// Keystream bytes starting at byte `pos`.
    pub fn fill(&self, pos: u128, out: &mut [u8]) {
        let mut p = pos;
        let mut i = 0;
        while i < out.len() {
            let b = self.block((p / 64) as u64);
            let o = (p % 64) as usize;
            let n = (64 - o).min(out.len() - i);
            out[i..i + n].copy_from_slice(&b[o..o + n]);
            i += n;
            p += n as u128;
        }
    }
    pub fn counter_bits(&self) -> u32 {
        if self.hi.is_some() { 64 } else { 32 }
    }
}

pub fn chacha_ietf(key: &[u8], nonce: &[u8], rounds: usize) -> CtrModel {
    let w = chacha_words(key, [0, le32(&nonce[0..]), le32(&nonce[4..]), le32(&nonce[8..])]);
    CtrModel { kind: Kind::ChaCha, words: w, lo: 12, hi: None, rounds }
}
pub fn chacha_legacy(key: &[u8], nonce: &[u8], rounds: usize) -> CtrModel {
    let w = chacha_words(key, [0, 0, le32(&nonce[0..]), le32(&nonce[4..])]);
    CtrModel { kind: Kind::ChaCha, words: w, lo: 12, hi: Some(13), rounds }
}
pub fn xchacha(key: &[u8], nonce: &[u8], rounds: usize) -> CtrModel {
    let sk = hchacha(key, &nonce[..16], rounds);
    let mut n = [0u8; 12];
    n[4..].copy_from_slice(&nonce[16..24]);
    chacha_ietf(&sk, &n, rounds)
}
pub fn salsa(key: &[u8], nonce: &[u8], rounds: usize) -> CtrModel {
    let mut n = [0u8; 16];
    n[..8].copy_from_slice(&nonce[..8]);
    CtrModel { kind: Kind::Salsa, words: salsa_words(key, &n), lo: 8, hi: Some(9), rounds }
}
pub fn xsalsa(key: &[u8], nonce: &[u8], rounds: usize) -> CtrModel {
    let sk = hsalsa(key, &nonce[..16], rounds);
    salsa(&sk, &nonce[16..24], rounds)
}

// ---------------------------------------------------------------- sequential models

pub trait Seq: Send {
    fn fill(&mut self, out: &mut [u8]);
}

/// RC4.
pub struct Rc4Ref {
    s: [u8; 256],
    i: usize,
    j: usize,
}
impl Rc4Ref {
    pub fn new(key: &[u8]) -> Self {
        let mut s = [0u8; 256];
        for i in 0..256 {
            s[i] = i as u8;
        }
        let mut j = 0usize;
        for i in 0..256 {
            j = (j + s[i] as usize + key[i % key.len()] as usize) % 256;
            s.swap(i, j);
        }
        Rc4Ref { s, i: 0, j: 0 }
    }
}
impl Seq for Rc4Ref {
    fn fill(&mut self, out: &mut [u8]) {
        for o in out {
            self.i = (self.i + 1) % 256;
            self.j = (self.j + self.s[self.i] as usize) % 256;
            self.s.swap(self.i, self.j);
            *o = self.s[(self.s[self.i] as usize + self.s[self.j] as usize) % 256];
        }
    }
}

/// Buffers whole blocks of a block-producing generator.
pub struct Blocks<const N: usize, G> {
    g: G,
    buf: [u8; N],
    pos: usize,
}
pub trait BlockGen<const N: usize>: Send {
    fn next(&mut self) -> [u8; N];
}
impl<const N: usize, G: BlockGen<N>> Blocks<N, G> {
    pub fn new(g: G) -> Self {
        Blocks { g, buf: [0; N], pos: N }
    }
}
impl<const N: usize, G: BlockGen<N>> Seq for Blocks<N, G> {
    fn fill(&mut self, out: &mut [u8]) {
        for o in out {
            if self.pos == N {
                self.buf = self.g.next();
                self.pos = 0;
            }
            *o = self.buf[self.pos];
            self.pos += 1;
        }
    }
}

/// Rabbit, with the counter system kept as one 256-bit number plus carry as in RFC 4503 2.5.
pub struct RabbitRef {
    x: [u32; 8],
    c: [u32; 8],
    b: u64,
}
impl RabbitRef {
    pub fn new(key: &[u8], iv: Option<&[u8]>) -> Self {
        // K0 is the least significant 16 bits of the key; the key bytes are little-endian.
        let k = |j: usize| (key[2 * (j % 8)] as u32) | ((key[2 * (j % 8) + 1] as u32) << 8);
        let cat = |hi: u32, lo: u32| (hi << 16) | lo;
        let mut r = RabbitRef { x: [0; 8], c: [0; 8], b: 0 };
        for j in 0..8 {
            if j % 2 == 0 {
                r.x[j] = cat(k(j + 1), k(j));
                r.c[j] = cat(k(j + 4), k(j + 5));
            } else {
                r.x[j] = cat(k(j + 5), k(j + 4));
                r.c[j] = cat(k(j), k(j + 1));
            }
        }
        for _ in 0..4 {
            r.step();
        }
        for j in 0..8 {
            r.c[j] ^= r.x[(j + 4) % 8];
        }
        if let Some(iv) = iv {
            let v = u64::from_le_bytes(iv[..8].try_into().unwrap());
            let bits = |hi: u32, lo: u32| ((v >> lo) & ((1u64 << (hi - lo + 1)) - 1)) as u32;
            let p = [bits(31, 0), (bits(63, 48) << 16) | bits(31, 16), bits(63, 32), (bits(47, 32) << 16) | bits(15, 0)];
            for j in 0..8 {
                r.c[j] ^= p[j % 4];
            }
            for _ in 0..4 {
                r.step();
            }
        }
        r
    }
    pub fn counters(&self) -> [u32; 8] {
        self.c
    }
    fn step(&mut self) {
        const A: [u64; 3] = [0x4D34D34D, 0xD34D34D3, 0x34D34D34];
        for j in 0..8 {
            let t = self.c[j] as u64 + A[j % 3] + self.b;
            self.b = t >> 32;
            self.c[j] = t as u32;
        }
        let mut g = [0u32; 8];
        for j in 0..8 {
            let s = self.x[j].wrapping_add(self.c[j]) as u64;
            let q = s * s;
            g[j] = (q as u32) ^ ((q >> 32) as u32);
        }
        for j in 0..8 {
            let p = g[(j + 7) % 8];
            let pp = g[(j + 6) % 8];
            self.x[j] = if j % 2 == 0 {
                g[j].wrapping_add(p.rotate_left(16)).wrapping_add(pp.rotate_left(16))
            } else {
                g[j].wrapping_add(p.rotate_left(8)).wrapping_add(pp)
            };
        }
    }
}
impl BlockGen<16> for RabbitRef {
    fn next(&mut self) -> [u8; 16] {
        self.step();
        let x = &self.x;
        let lo = |v: u32| (v & 0xffff) as u16;
        let hi = |v: u32| (v >> 16) as u16;
        let w = [
            lo(x[0]) ^ hi(x[5]),
            hi(x[0]) ^ lo(x[3]),
            lo(x[2]) ^ hi(x[7]),
            hi(x[2]) ^ lo(x[5]),
            lo(x[4]) ^ hi(x[1]),
            hi(x[4]) ^ lo(x[7]),
            lo(x[6]) ^ hi(x[3]),
            hi(x[6]) ^ lo(x[1]),
        ];
        let mut o = [0u8; 16];
        for i in 0..8 {
            o[2 * i..2 * i + 2].copy_from_slice(&w[i].to_le_bytes());
        }
        o
    }
}

/// HC-256.
pub struct Hc256Ref {
    p: Vec<u32>,
    q: Vec<u32>,
    i: usize,
}
impl Hc256Ref {
    pub fn new(key: &[u8], iv: &[u8]) -> Self {
        let f1 = |x: u32| x.rotate_right(7) ^ x.rotate_right(18) ^ (x >> 3);
        let f2 = |x: u32| x.rotate_right(17) ^ x.rotate_right(19) ^ (x >> 10);
        let mut w = vec![0u32; 2560];
        for i in 0..8 {
            w[i] = le32(&key[4 * i..]);
            w[8 + i] = le32(&iv[4 * i..]);
        }
        for i in 16..2560 {
            w[i] = f2(w[i - 2])
                .wrapping_add(w[i - 7])
                .wrapping_add(f1(w[i - 15]))
                .wrapping_add(w[i - 16])
                .wrapping_add(i as u32);
        }
        let mut r = Hc256Ref { p: w[512..1536].to_vec(), q: w[1536..2560].to_vec(), i: 0 };
        for _ in 0..4096 {
            r.word();
        }
        r
    }
    fn h(t: &[u32], x: u32) -> u32 {
        let b = x.to_le_bytes();
        t[b[0] as usize]
            .wrapping_add(t[256 + b[1] as usize])
            .wrapping_add(t[512 + b[2] as usize])
            .wrapping_add(t[768 + b[3] as usize])
    }
    fn word(&mut self) -> u32 {
        let j = self.i % 1024;
        let m = |k: usize| (j + 1024 - k) % 1024;
        let first = self.i < 1024;
        let (a, o) = if first { (&mut self.p, &self.q) } else { (&mut self.q, &self.p) };
        let (x, y) = (a[m(3)], a[m(1023)]);
        let g = (x.rotate_right(10) ^ y.rotate_right(23)).wrapping_add(o[((x ^ y) % 1024) as usize]);
        a[j] = a[j].wrapping_add(a[m(10)]).wrapping_add(g);
        let s = Self::h(o, a[m(12)]) ^ a[j];
        self.i = (self.i + 1) % 2048;
        s
    }
}
impl BlockGen<4> for Hc256Ref {
    fn next(&mut self) -> [u8; 4] {
        self.word().to_le_bytes()
    }
}

// ---------------------------------------------------------------- RNG model

/// The ChaCha RNG as a function from a 68-bit word position to words.
#[derive(Clone)]
pub struct RngModel {
    pub seed: [u8; 32],
    pub stream: u64,
    pub rounds: usize,
    /// word position, modulo 2^68
    pub pos: u128,
    cache: Option<(u64, u64, [u8; 64])>,
}
pub const POS_MASK: u128 = (1 << 68) - 1;
impl RngModel {
    pub fn new(seed: [u8; 32], rounds: usize) -> Self {
        RngModel { seed, stream: 0, rounds, pos: 0, cache: None }
    }
    pub fn word(&mut self) -> u32 {
        let b = (self.pos / 16) as u64;
        let blk = match self.cache {
            Some((s, n, k)) if n == b && s == self.stream => k,
            _ => {
                let k = chacha_legacy(&self.seed, &self.stream.to_le_bytes(), self.rounds).block(b);
                self.cache = Some((self.stream, b, k));
                k
            }
        };
        let i = (self.pos % 16) as usize;
        self.pos = (self.pos + 1) & POS_MASK;
        le32(&blk[4 * i..])
    }
    pub fn u64(&mut self) -> u64 {
        let lo = self.word() as u64;
        lo | ((self.word() as u64) << 32)
    }
    pub fn bytes(&mut self, out: &mut [u8]) {
        for c in out.chunks_mut(4) {
            let w = self.word().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
    pub fn set_stream(&mut self, s: u64) {
        self.stream = s;
        self.pos = 0;
    }
}

// ---------------------------------------------------------------- published vectors

fn unhex(s: &str) -> Vec<u8> {
    let d: Vec<u8> = s.bytes().filter(|b| !b.is_ascii_whitespace()).collect();
    d.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()
}

/// Checks the models against published vectors; a failure is an error of the harness.
pub fn self_test() {
    let seq: Vec<u8> = (0..32).collect();
    // RFC 8439 2.3.2
    let m = chacha_ietf(&seq, &unhex("000000090000004a00000000"), 20);
    assert_eq!(
        m.block(1).to_vec(),
        unhex("10f1e7e4d13b5915500fdd1fa32071c4c7d1f4c733c068030422aa9ac3d46c4e d2826446079faa0914c2d705d98b02a2b5129cd1de164eb9cbd083e8a2503c4e"),
        "HARNESS chacha20"
    );
    // RFC 7539 A.1 #1 (also equals the legacy layout for zero nonce)
    let z = chacha_legacy(&[0; 32], &[0; 8], 20);
    assert_eq!(z.block(0)[..16].to_vec(), unhex("76b8e0ada0f13d90405d6ae55386bd28"), "HARNESS legacy");
    // draft-irtf-cfrg-xchacha 2.2.1
    assert_eq!(
        hchacha(&seq, &unhex("000000090000004a0000000031415927"), 20).to_vec(),
        unhex("82413b4227b27bfed30e42508a877d73a0f9e4d58a74a853c12ec41326d3ecdc"),
        "HARNESS hchacha"
    );
    // ChaCha8 and ChaCha12, zero key and nonce (draft-strombergson-chacha-test-vectors TC1)
    assert_eq!(chacha_legacy(&[0; 32], &[0; 8], 8).block(0)[..8].to_vec(), unhex("3e00ef2f895f40d6"), "HARNESS chacha8");
    assert_eq!(chacha_legacy(&[0; 32], &[0; 8], 12).block(0)[..8].to_vec(), unhex("9bf49a6a0755f953"), "HARNESS chacha12");
    // ECRYPT Salsa20 set 1 vector 0 (256-bit key)
    let mut k = vec![0u8; 32];
    k[0] = 0x80;
    assert_eq!(salsa(&k, &[0; 8], 20).block(0)[..16].to_vec(), unhex("e3be8fdd8beca2e3ea8ef9475b29a6e7"), "HARNESS salsa20");
    // NaCl HSalsa20 ("firstkey")
    let shared = unhex("4a5d9d5ba4ce2de1728e3bf480350f25e07e21c947d19e3376f09b3c1e161742");
    assert_eq!(
        hsalsa(&shared, &[0; 16], 20).to_vec(),
        unhex("1b27556473e985d462cd51197a9a46c76009549eac6474f206c4ee0844f68389"),
        "HARNESS hsalsa"
    );
    // RFC 4503 A.1, A.2. The RFC prints 128-bit numbers, most significant octet first; the byte
    // strings of implementations (eSTREAM and this repository's vectors) are little-endian.
    let mut o = [0u8; 16];
    Blocks::new(RabbitRef::new(&[0; 16], None)).fill(&mut o);
    assert_eq!(o.to_vec(), unhex("02f74a1c26456bf5ecd6a536f05457b1"), "HARNESS rabbit");
    Blocks::new(RabbitRef::new(&[0; 16], Some(&[0; 8]))).fill(&mut o);
    assert_eq!(o.to_vec(), unhex("edb70567375dcd7cd89554f85e27a7c6"), "HARNESS rabbit iv");
    Blocks::new(RabbitRef::new(&unhex("acc351dcf162fc3bfe363d2e29132891"), None)).fill(&mut o);
    assert_eq!(o.to_vec(), unhex("9c51e28784c37fe9a127f63ec8f32d3d"), "HARNESS rabbit key");
    // HC-256 zero key and IV
    if !cfg!(miri) {
        let mut o = [0u8; 16];
        Blocks::new(Hc256Ref::new(&[0; 32], &[0; 32])).fill(&mut o);
        assert_eq!(o.to_vec(), unhex("5B078985D8F6F30D42C5C02FA6B67951"), "HARNESS hc256");
    }
    // RC4
    let mut o = [0u8; 10];
    Rc4Ref::new(b"Key").fill(&mut o);
    assert_eq!(o.to_vec(), unhex("EB9F7781B734CA72A719"), "HARNESS rc4");
}
