//! C16: what is left in a value's memory after it is dropped.
//!
//! The decision is a noninterference test over the bytes the value occupied: two values with
//! different secrets and histories are built in identically painted memory, dropped, and the
//! remains compared. A byte that differs depends on something it must not depend on. Padding and
//! other bytes that never held part of the value do not count, unless there are so many of them
//! in a row that they cannot be padding: a byte counts if exchanging it between two live values
//! changes what the value does afterwards.
#![allow(dead_code)]

use crate::engine::*;
use crate::gens::{self, hex};
use crate::p_subj::*;
use crate::{ensure, fail};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicPtr, AtomicU8, AtomicUsize, Ordering::SeqCst};

/// Allocator that can photograph one watched allocation at the moment it is given back: a wipe
/// the compiler removed as a dead store is not there in the photograph.
pub struct Watch;
static WATCHED: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static PHOTO_LEN: AtomicUsize = AtomicUsize::new(0);
static PAINT: AtomicU8 = AtomicU8::new(0);
const CAP: usize = 16384;
static mut PHOTO: [u8; CAP] = [0; CAP];

unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe {
            let p = System.alloc(l);
            let paint = PAINT.load(SeqCst);
            if paint != 0 && !p.is_null() {
                std::ptr::write_bytes(p, paint, l.size());
            }
            p
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe {
            if p == WATCHED.load(SeqCst) {
                WATCHED.store(std::ptr::null_mut(), SeqCst);
                let n = l.size().min(CAP);
                let d = &raw mut PHOTO as *mut u8;
                for i in 0..n {
                    d.add(i).write_volatile(p.add(i).read_volatile());
                }
                PHOTO_LEN.store(n, SeqCst);
            }
            System.dealloc(p, l)
        }
    }
}

#[derive(Clone, Copy)]
pub struct WipeFns {
    pub size: usize,
    /// bytes left after dropping in place in memory of our own
    pub in_place: fn(&[u8], &[u8], &[Act], u8) -> Vec<u8>,
    /// bytes left when a boxed value is dropped, as seen by the allocator
    pub boxed: fn(&[u8], &[u8], &[Act], u8) -> Vec<u8>,
    /// bytes of the live value
    pub live: fn(&[u8], &[u8], &[Act], u8) -> Vec<u8>,
    /// what the value does next, with byte `i` exchanged for the given one
    pub future: fn(&[u8], &[u8], &[Act], Option<(usize, u8)>) -> Vec<u8>,
}
pub fn fns<T: Subject>() -> WipeFns {
    WipeFns { size: size_of::<T>(), in_place: in_place::<T>, boxed: boxed::<T>, live: live::<T>, future: future::<T> }
}

/// Leaves the stack below filled with a known byte.
#[inline(never)]
fn paint_stack(b: u8) {
    let mut a = [0u8; 24 * 1024];
    for x in a.iter_mut() {
        unsafe { std::ptr::write_volatile(x, b) };
    }
    std::hint::black_box(&mut a);
}

struct Mem {
    p: *mut u8,
    l: Layout,
}
impl Mem {
    fn new<T>(paint: u8) -> Self {
        let l = Layout::from_size_align(size_of::<T>().max(1), align_of::<T>().max(64)).unwrap();
        unsafe {
            let p = std::alloc::alloc(l);
            for i in 0..l.size() {
                p.add(i).write_volatile(paint);
            }
            Mem { p, l }
        }
    }
    fn bytes(&self, n: usize) -> Vec<u8> {
        (0..n).map(|i| unsafe { self.p.add(i).read_volatile() }).collect()
    }
}
impl Drop for Mem {
    fn drop(&mut self) {
        unsafe { std::alloc::dealloc(self.p, self.l) }
    }
}

#[inline(never)]
unsafe fn build<T: Subject>(p: *mut T, k: &[u8], iv: &[u8], acts: &[Act]) {
    unsafe {
        p.write(T::make(k, iv));
        let mut sink = Vec::new();
        for a in acts {
            (*p).act(a, &mut sink);
        }
    }
}

fn in_place<T: Subject>(k: &[u8], iv: &[u8], acts: &[Act], paint: u8) -> Vec<u8> {
    let m = Mem::new::<T>(paint);
    paint_stack(paint);
    unsafe {
        let p = m.p as *mut T;
        build(p, k, iv, acts);
        std::hint::black_box(p);
        std::ptr::drop_in_place(p);
    }
    m.bytes(size_of::<T>())
}

#[inline(never)]
fn boxed_drop<T: Subject>(k: &[u8], iv: &[u8], acts: &[Act], paint: u8) {
    paint_stack(paint);
    PAINT.store(paint, SeqCst);
    let mut b = Box::new(T::make(k, iv));
    PAINT.store(0, SeqCst);
    let mut sink = Vec::new();
    for a in acts {
        b.act(a, &mut sink);
    }
    drop(sink);
    WATCHED.store(&mut *b as *mut T as *mut u8, SeqCst);
    PHOTO_LEN.store(0, SeqCst);
    drop(b);
    WATCHED.store(std::ptr::null_mut(), SeqCst);
}
fn boxed<T: Subject>(k: &[u8], iv: &[u8], acts: &[Act], paint: u8) -> Vec<u8> {
    boxed_drop::<T>(k, iv, acts, paint);
    let n = PHOTO_LEN.load(SeqCst);
    assert!(n == size_of::<T>(), "HARNESS no photograph");
    (0..n).map(|i| unsafe { (&raw const PHOTO as *const u8).add(i).read_volatile() }).collect()
}

fn live<T: Subject>(k: &[u8], iv: &[u8], acts: &[Act], paint: u8) -> Vec<u8> {
    let m = Mem::new::<T>(paint);
    paint_stack(paint);
    unsafe {
        let p = m.p as *mut T;
        build(p, k, iv, acts);
        std::hint::black_box(p);
        let b = m.bytes(size_of::<T>());
        std::ptr::drop_in_place(p);
        b
    }
}

fn future<T: Subject>(k: &[u8], iv: &[u8], acts: &[Act], swap: Option<(usize, u8)>) -> Vec<u8> {
    let m = Mem::new::<T>(0x5A);
    unsafe {
        let p = m.p as *mut T;
        build(p, k, iv, acts);
        if let Some((i, b)) = swap {
            m.p.add(i).write_volatile(b);
        }
        let mut out = Vec::new();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            for (kind, n) in [(4u8, 0usize), (7, 0), (5, 7), (0, 1100), (0, 3000), (7, 5), (8, 0)] {
                (*p).act(&Act { kind, a: 9, n }, &mut out);
            }
        }));
        if r.is_err() {
            let _ = take_panic();
            out.push(0xDD);
        }
        std::ptr::drop_in_place(p);
        out
    }
}

/// Future output without changing the position first, so that positions count too.
fn live_byte(s: &SubjSpec, a: (&[u8], &[u8], &[Act]), i: usize, b: u8) -> bool {
    (s.wipe.future)(a.0, a.1, a.2, None) != (s.wipe.future)(a.0, a.1, a.2, Some((i, b)))
}

pub fn c16_wipe(ctx: &mut Ctx) -> Res {
    let pool: Vec<&SubjSpec> = subjects()
        .iter()
        .filter(|s| if s.chacha { cfg!(feature = "cc_zeroize") } else { cfg!(feature = "others_zeroize") })
        .collect();
    if pool.is_empty() {
        return Ok(());
    }
    let s = pool[ctx.below(pool.len())];
    ctx.label(s.name);
    let wrapper = !s.name.contains("Core") && !s.name.contains("Rng") && !s.name.starts_with("Rc4");
    // a stable class per failing kind of place
    let class = |what: &str| format!("{what}: {}", if wrapper && s.chacha { "byte-level ChaCha cipher" } else { s.name });
    let k1 = key_for(ctx, s);
    let iv1 = gens::bytes(ctx, s.ivlen);
    let h1 = life(ctx);
    let k2 = match s.klen {
        0 => gens::rc4_key(ctx),
        n => gens::bytes(ctx, n),
    };
    let iv2 = gens::bytes(ctx, s.ivlen);
    let h2 = life(ctx);
    let how = ctx.below(2);
    let paint = *ctx.pick(&[0xA5u8, 0x5A, 0xFF]);
    ctx.note(|| format!("{} {} key={} nonce={} life={h1:?} against key={} nonce={} life={h2:?}", s.name, ["in place", "boxed"][how], hex(&k1), hex(&iv1), hex(&k2), hex(&iv2)));
    ctx.label(["dropped in place", "dropped in a box"][how]);
    let f = [s.wipe.in_place, s.wipe.boxed][how];
    let d1 = f(&k1, &iv1, &h1, paint);
    let d2 = f(&k2, &iv2, &h2, paint);
    ctx.nontrivial = k1 != k2 && (!h1.is_empty() || !h2.is_empty());
    if d1 == d2 {
        return Ok(());
    }
    // longest run of secret-dependent bytes
    let diff: Vec<usize> = (0..d1.len()).filter(|&i| d1[i] != d2[i]).collect();
    let (mut run, mut best, mut best_at) = (0usize, 0usize, 0usize);
    for i in 0..d1.len() {
        run = if d1[i] != d2[i] { run + 1 } else { 0 };
        if run > best {
            best = run;
            best_at = i + 1 - run;
        }
    }
    let l1 = (s.wipe.live)(&k1, &iv1, &h1, paint);
    let l2 = (s.wipe.live)(&k2, &iv2, &h2, paint);
    // the wrapper's buffer of unread keystream, found by its content
    let buffer = if wrapper && s.chacha { read_buffer(s, &k1, &iv1, paint) } else { None };
    let what = match buffer {
        Some((a, b)) if diff.iter().all(|&i| i >= a && i < b) => "secret bytes left in the read buffer",
        _ => "secret bytes left",
    };
    if best >= 8 {
        fail!(
            class(what),
            "{}: {best} consecutive bytes at offset {best_at} of {} depend on the dropped value's secrets: {} against {}",
            s.name,
            d1.len(),
            hex(&d1[best_at..best_at + best]),
            hex(&d2[best_at..best_at + best])
        );
    }
    for &i in diff.iter().take(24) {
        if l1[i] != l2[i] && (live_byte(s, (&k1, &iv1, &h1), i, l2[i]) || live_byte(s, (&k2, &iv2, &h2), i, l1[i])) {
            fail!(
                class(what),
                "{}: byte {i} of {}, part of the value's state, is left as {:#04x} or {:#04x} depending on the dropped value's secrets or history",
                s.name,
                d1.len(),
                d1[i],
                d2[i]
            );
        }
    }
    ctx.label("only padding differs");
    Ok(())
}

/// Where the value keeps keystream that was generated but not yet used.
fn read_buffer(s: &SubjSpec, k: &[u8], iv: &[u8], paint: u8) -> Option<(usize, usize)> {
    let mut o = (s.new)(k, iv);
    let mut ks = Vec::new();
    o.act(&Act { kind: 0, a: 0, n: 64 }, &mut ks);
    let ks = &ks[1..]; // the first byte reports success
    let mem = (s.wipe.live)(k, iv, &[Act { kind: 0, a: 0, n: 1 }], paint);
    let at = mem.windows(63).position(|w| w == &ks[1..64])?;
    at.checked_sub(1).map(|a| (a, a + 64))
}

fn life(ctx: &mut Ctx) -> Vec<Act> {
    let mut h = acts(ctx, 4);
    match ctx.below(3) {
        0 => {}
        // end with a partly used buffer
        1 => h.push(Act { kind: 0, a: 0, n: ctx.range(1, 63) }),
        _ => h.push(Act { kind: 2, a: 1, n: ctx.range(1, 200) }),
    }
    h
}

/// The marker on every type, each type checked in every run.
pub fn c16_marker(ctx: &mut Ctx) -> Res {
    let i = ctx.below(subjects().len().max(1));
    let Some(s) = subjects().get(i) else { return Ok(()) };
    let on = if s.chacha { cfg!(feature = "cc_zeroize") } else { cfg!(feature = "others_zeroize") };
    if !on {
        return Ok(());
    }
    ctx.note(|| s.name.into());
    ctx.nontrivial = true;
    let wrapper = !s.name.contains("Core") && !s.name.contains("Rng") && !s.name.starts_with("Rc4");
    ensure!(
        s.marked,
        format!("not marked ZeroizeOnDrop: {}", if wrapper && s.chacha { "byte-level ChaCha cipher" } else { s.name }),
        "{} does not implement ZeroizeOnDrop",
        s.name
    );
    Ok(())
}
