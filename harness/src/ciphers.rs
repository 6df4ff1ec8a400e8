//! Uniform, dynamically dispatched view of every cipher of the repository, next to its model.
#![allow(dead_code)]

use crate::refs::{self, CtrModel, Seq};
#[allow(unused_imports)]
use cipher::{InOutBuf, KeyInit, KeyIvInit, SeekNum, StreamCipher, StreamCipherSeek};

/// Entry points through which data can be processed.
pub const APIS: [&str; 17] = [
    "apply_keystream",
    "try_apply_keystream",
    "apply_keystream_b2b",
    "try_apply_keystream_b2b",
    "apply_keystream_inout(in place)",
    "apply_keystream_inout(in,out)",
    "try_apply_keystream_inout(in place)",
    "try_apply_keystream_inout(in,out)",
    "write_keystream",
    "try_write_keystream",
    "unchecked_apply_keystream",
    "unchecked_apply_keystream_b2b",
    "unchecked_apply_keystream_inout(in,out)",
    "unchecked_write_keystream",
    "apply_keystream via &mut",
    "write_keystream via &mut",
    "unchecked_apply_keystream_inout(in place)",
];
pub const N_API: usize = APIS.len();
pub fn api_is_write(a: usize) -> bool {
    matches!(a, 8 | 9 | 13 | 15)
}
/// Reports failure as an error value instead of panicking.
pub fn api_is_try(a: usize) -> bool {
    matches!(a, 1 | 3 | 6 | 7 | 9)
}
pub fn api_two_buffers(a: usize) -> bool {
    matches!(a, 2 | 3 | 5 | 7 | 11 | 12)
}
pub fn api_in_place(a: usize) -> bool {
    !api_is_write(a) && !api_two_buffers(a)
}
pub const TRY_APIS: [usize; 5] = [1, 3, 6, 7, 9];

pub const SEEK_TYPES: [&str; 5] = ["i32", "u32", "u64", "u128", "usize"];
pub fn seek_max(ty: usize) -> u128 {
    match ty {
        0 => i32::MAX as u128,
        1 => u32::MAX as u128,
        2 => u64::MAX as u128,
        3 => u128::MAX,
        _ => usize::MAX as u128,
    }
}

pub trait Cip: Send {
    fn check_remaining(&self, n: usize) -> bool;
    /// Raw call: for in-place entry points `out` holds the data already; for two-buffer ones
    /// `inp` is the source; for writing ones `out` receives keystream.
    fn call(&mut self, api: usize, inp: &[u8], out: &mut [u8]) -> bool;
    fn seek(&mut self, ty: usize, pos: u128) -> Option<bool>;
    fn seek_panicking(&mut self, ty: usize, pos: u128);
    fn pos(&self, ty: usize) -> Option<Option<u128>>;
    fn pos_panicking(&self, ty: usize) -> u128;
}

fn call<C: StreamCipher>(c: &mut C, api: usize, inp: &[u8], out: &mut [u8]) -> bool {
    match api {
        0 => {
            c.apply_keystream(out);
            true
        }
        1 => c.try_apply_keystream(out).is_ok(),
        2 => {
            c.apply_keystream_b2b(inp, out);
            true
        }
        3 => c.try_apply_keystream_b2b(inp, out).is_ok(),
        4 => {
            c.apply_keystream_inout(InOutBuf::from(out));
            true
        }
        5 => match InOutBuf::new(inp, out) {
            Ok(b) => {
                c.apply_keystream_inout(b);
                true
            }
            Err(_) => false,
        },
        6 => c.try_apply_keystream_inout(InOutBuf::from(out)).is_ok(),
        7 => match InOutBuf::new(inp, out) {
            Ok(b) => c.try_apply_keystream_inout(b).is_ok(),
            Err(_) => false,
        },
        8 => {
            c.write_keystream(out);
            true
        }
        9 => c.try_write_keystream(out).is_ok(),
        10 => {
            c.unchecked_apply_keystream(out);
            true
        }
        11 => c.unchecked_apply_keystream_b2b(inp, out).is_ok(),
        12 => match InOutBuf::new(inp, out) {
            Ok(b) => {
                c.unchecked_apply_keystream_inout(b);
                true
            }
            Err(_) => false,
        },
        13 => {
            c.unchecked_write_keystream(out);
            true
        }
        14 => {
            let mut r = c;
            <&mut C as StreamCipher>::apply_keystream(&mut r, out);
            true
        }
        15 => {
            let mut r = c;
            <&mut C as StreamCipher>::write_keystream(&mut r, out);
            true
        }
        16 => {
            c.unchecked_apply_keystream_inout(InOutBuf::from(out));
            true
        }
        _ => unreachable!(),
    }
}

fn do_seek<C: StreamCipherSeek>(c: &mut C, ty: usize, pos: u128) -> bool {
    match ty {
        0 => c.try_seek(pos as i32).is_ok(),
        1 => c.try_seek(pos as u32).is_ok(),
        2 => c.try_seek(pos as u64).is_ok(),
        3 => c.try_seek(pos).is_ok(),
        _ => c.try_seek(pos as usize).is_ok(),
    }
}
fn do_seek_p<C: StreamCipherSeek>(c: &mut C, ty: usize, pos: u128) {
    match ty {
        0 => c.seek(pos as i32),
        1 => c.seek(pos as u32),
        2 => c.seek(pos as u64),
        3 => c.seek(pos),
        _ => c.seek(pos as usize),
    }
}
fn do_pos<C: StreamCipherSeek>(c: &C, ty: usize) -> Option<u128> {
    // a negative i32 would be a wrong answer, so map it to an impossible position
    match ty {
        0 => c.try_current_pos::<i32>().ok().map(|v| if v < 0 { u128::MAX } else { v as u128 }),
        1 => c.try_current_pos::<u32>().ok().map(|v| v as u128),
        2 => c.try_current_pos::<u64>().ok().map(|v| v as u128),
        3 => c.try_current_pos::<u128>().ok(),
        _ => c.try_current_pos::<usize>().ok().map(|v| v as u128),
    }
}
fn do_pos_p<C: StreamCipherSeek>(c: &C, ty: usize) -> u128 {
    match ty {
        0 => c.current_pos::<i32>() as u128,
        1 => c.current_pos::<u32>() as u128,
        2 => c.current_pos::<u64>() as u128,
        3 => c.current_pos::<u128>(),
        _ => c.current_pos::<usize>() as u128,
    }
}

pub struct NoSeek<C>(pub C);
impl<C: StreamCipher + Send> Cip for NoSeek<C> {
    fn check_remaining(&self, n: usize) -> bool {
        self.0.check_remaining(n).is_ok()
    }
    fn call(&mut self, api: usize, inp: &[u8], out: &mut [u8]) -> bool {
        call(&mut self.0, api, inp, out)
    }
    fn seek(&mut self, _: usize, _: u128) -> Option<bool> {
        None
    }
    fn seek_panicking(&mut self, _: usize, _: u128) {}
    fn pos(&self, _: usize) -> Option<Option<u128>> {
        None
    }
    fn pos_panicking(&self, _: usize) -> u128 {
        0
    }
}
pub struct WithSeek<C>(pub C);
impl<C: StreamCipher + StreamCipherSeek + Send> Cip for WithSeek<C> {
    fn check_remaining(&self, n: usize) -> bool {
        self.0.check_remaining(n).is_ok()
    }
    fn call(&mut self, api: usize, inp: &[u8], out: &mut [u8]) -> bool {
        call(&mut self.0, api, inp, out)
    }
    fn seek(&mut self, ty: usize, pos: u128) -> Option<bool> {
        Some(do_seek(&mut self.0, ty, pos))
    }
    fn seek_panicking(&mut self, ty: usize, pos: u128) {
        do_seek_p(&mut self.0, ty, pos)
    }
    fn pos(&self, ty: usize) -> Option<Option<u128>> {
        Some(do_pos(&self.0, ty))
    }
    fn pos_panicking(&self, ty: usize) -> u128 {
        do_pos_p(&self.0, ty)
    }
}

pub enum Model {
    Ctr(CtrModel),
    Seq(Box<dyn Seq>),
}
impl Model {
    /// Keystream at `pos`; sequential models must be read in order.
    pub fn fill(&mut self, pos: u128, out: &mut [u8]) {
        match self {
            Model::Ctr(m) => m.fill(pos, out),
            Model::Seq(s) => s.fill(out),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fam {
    ChaCha,
    XChaCha,
    Salsa,
    XSalsa,
    Rabbit,
    Hc,
    Rc4,
}

pub type Maker = fn(&[u8], &[u8]) -> Option<Box<dyn Cip>>;

pub struct Spec {
    pub name: &'static str,
    pub fam: Fam,
    /// 0: variable (RC4)
    pub klen: usize,
    pub ivlen: usize,
    pub block: usize,
    /// counter width of seekable ciphers
    pub ctr: Option<u32>,
    /// construction from slices, which may refuse
    pub make: Maker,
    /// construction from fixed-size arrays (given slices of the right length)
    pub make_arr: Maker,
    pub model: fn(&[u8], &[u8]) -> Model,
}

impl Spec {
    /// First byte position that cannot be read any more.
    pub fn end(&self) -> Option<u128> {
        self.ctr.map(|b| ((1u128 << b) - 1) * 64)
    }
    pub fn seekable(&self) -> bool {
        self.ctr.is_some()
    }
}

fn kiv_seek<C: KeyIvInit + StreamCipher + StreamCipherSeek + Send + 'static>(k: &[u8], i: &[u8]) -> Option<Box<dyn Cip>> {
    C::new_from_slices(k, i).ok().map(|c| Box::new(WithSeek(c)) as Box<dyn Cip>)
}
fn kiv_seek_arr<C: KeyIvInit + StreamCipher + StreamCipherSeek + Send + 'static>(k: &[u8], i: &[u8]) -> Option<Box<dyn Cip>> {
    let k = <&cipher::Key<C>>::try_from(k).ok()?;
    let i = <&cipher::Iv<C>>::try_from(i).ok()?;
    Some(Box::new(WithSeek(C::new(k, i))))
}
#[cfg(feature = "others")]
mod ns {
    use super::*;
    pub fn kiv<C: KeyIvInit + StreamCipher + Send + 'static>(k: &[u8], i: &[u8]) -> Option<Box<dyn Cip>> {
        C::new_from_slices(k, i).ok().map(|c| Box::new(NoSeek(c)) as Box<dyn Cip>)
    }
    pub fn kiv_arr<C: KeyIvInit + StreamCipher + Send + 'static>(k: &[u8], i: &[u8]) -> Option<Box<dyn Cip>> {
        let k = <&cipher::Key<C>>::try_from(k).ok()?;
        let i = <&cipher::Iv<C>>::try_from(i).ok()?;
        Some(Box::new(NoSeek(C::new(k, i))))
    }
    pub fn k<C: KeyInit + StreamCipher + Send + 'static>(k: &[u8], i: &[u8]) -> Option<Box<dyn Cip>> {
        if !i.is_empty() {
            return None;
        }
        C::new_from_slice(k).ok().map(|c| Box::new(NoSeek(c)) as Box<dyn Cip>)
    }
    pub fn k_arr<C: KeyInit + StreamCipher + Send + 'static>(k: &[u8], _: &[u8]) -> Option<Box<dyn Cip>> {
        let k = <&cipher::Key<C>>::try_from(k).ok()?;
        Some(Box::new(NoSeek(C::new(k))))
    }
}

pub fn specs() -> &'static [Spec] {
    use std::sync::OnceLock;
    static S: OnceLock<Vec<Spec>> = OnceLock::new();
    S.get_or_init(build)
}

macro_rules! ctr_spec {
    ($v:ident, $name:literal, $t:ty, $fam:ident, $iv:literal, $bits:literal, $m:path, $r:literal) => {
        $v.push(Spec {
            name: $name,
            fam: Fam::$fam,
            klen: 32,
            ivlen: $iv,
            block: 64,
            ctr: Some($bits),
            make: kiv_seek::<$t>,
            make_arr: kiv_seek_arr::<$t>,
            model: |k, i| Model::Ctr($m(k, i, $r)),
        });
    };
}

#[allow(unused_mut)]
fn build() -> Vec<Spec> {
    let mut v: Vec<Spec> = Vec::new();
    #[cfg(feature = "cc_cipher")]
    {
        ctr_spec!(v, "ChaCha20", chacha20::ChaCha20, ChaCha, 12, 32, refs::chacha_ietf, 20);
        ctr_spec!(v, "ChaCha12", chacha20::ChaCha12, ChaCha, 12, 32, refs::chacha_ietf, 12);
        ctr_spec!(v, "ChaCha8", chacha20::ChaCha8, ChaCha, 12, 32, refs::chacha_ietf, 8);
    }
    #[cfg(feature = "cc_legacy")]
    {
        ctr_spec!(v, "ChaCha20Legacy", chacha20::ChaCha20Legacy, ChaCha, 8, 64, refs::chacha_legacy, 20);
    }
    #[cfg(feature = "cc_xchacha")]
    {
        ctr_spec!(v, "XChaCha20", chacha20::XChaCha20, XChaCha, 24, 32, refs::xchacha, 20);
        ctr_spec!(v, "XChaCha12", chacha20::XChaCha12, XChaCha, 24, 32, refs::xchacha, 12);
        ctr_spec!(v, "XChaCha8", chacha20::XChaCha8, XChaCha, 24, 32, refs::xchacha, 8);
    }
    #[cfg(feature = "others")]
    {
        ctr_spec!(v, "Salsa20", salsa20::Salsa20, Salsa, 8, 64, refs::salsa, 20);
        ctr_spec!(v, "Salsa12", salsa20::Salsa12, Salsa, 8, 64, refs::salsa, 12);
        ctr_spec!(v, "Salsa8", salsa20::Salsa8, Salsa, 8, 64, refs::salsa, 8);
        ctr_spec!(v, "XSalsa20", salsa20::XSalsa20, XSalsa, 24, 64, refs::xsalsa, 20);
        ctr_spec!(v, "XSalsa12", salsa20::XSalsa12, XSalsa, 24, 64, refs::xsalsa, 12);
        ctr_spec!(v, "XSalsa8", salsa20::XSalsa8, XSalsa, 24, 64, refs::xsalsa, 8);
        v.push(Spec {
            name: "Rabbit",
            fam: Fam::Rabbit,
            klen: 16,
            ivlen: 8,
            block: 16,
            ctr: None,
            make: ns::kiv::<rabbit::Rabbit>,
            make_arr: ns::kiv_arr::<rabbit::Rabbit>,
            model: |k, i| Model::Seq(Box::new(refs::Blocks::new(refs::RabbitRef::new(k, Some(i))))),
        });
        v.push(Spec {
            name: "RabbitKeyOnly",
            fam: Fam::Rabbit,
            klen: 16,
            ivlen: 0,
            block: 16,
            ctr: None,
            make: ns::k::<rabbit::RabbitKeyOnly>,
            make_arr: ns::k_arr::<rabbit::RabbitKeyOnly>,
            model: |k, _| Model::Seq(Box::new(refs::Blocks::new(refs::RabbitRef::new(k, None)))),
        });
        v.push(Spec {
            name: "Hc256",
            fam: Fam::Hc,
            klen: 32,
            ivlen: 32,
            block: 4,
            ctr: None,
            make: ns::kiv::<hc_256::Hc256>,
            make_arr: ns::kiv_arr::<hc_256::Hc256>,
            model: |k, i| Model::Seq(Box::new(refs::Blocks::new(refs::Hc256Ref::new(k, i)))),
        });
        v.push(Spec {
            name: "Rc4",
            fam: Fam::Rc4,
            klen: 0,
            ivlen: 0,
            block: 1,
            ctr: None,
            make: ns::k::<rc4::Rc4>,
            make_arr: ns::k_arr::<rc4::Rc4>,
            model: |k, _| Model::Seq(Box::new(refs::Rc4Ref::new(k))),
        });
    }
    v
}

pub fn select(f: impl Fn(&Spec) -> bool) -> Vec<&'static Spec> {
    specs().iter().filter(|s| f(s)).collect()
}
