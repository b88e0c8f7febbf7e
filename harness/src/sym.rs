//! Symbolic inputs, checks and observations.
//!
//! IR build: the `__sym_*` functions are external and interpreted by the
//! symbolic executor.  Native build (`--features native`): inputs come from a
//! recorded assignment, so every explored path and every counterexample can be
//! replayed against the real code.
#![allow(dead_code)]

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        pub fn __sym_var(lo: u64, hi: u64) -> u64;
        pub fn __sym_assume(c: bool);
        pub fn __sym_check(c: bool, id: u32);
        pub fn __sym_cover(id: u32);
        pub fn __sym_observe(v: u64);
        pub fn __sym_choose(v: u64) -> u64;
        pub fn __sym_expect_panic(b: bool);
        pub fn __sym_note(id: u32);
        pub fn __sym_irq(f: u64, n: u64);
    }
}

#[cfg(feature = "native")]
pub mod imp {
    use std::cell::RefCell;
    pub struct Ctx {
        pub inputs: Vec<u64>,
        pub pos: usize,
        pub hash: u64,
        pub expect: bool,
        pub covers: Vec<u32>,
        pub verbose: bool,
    }
    pub static STRESS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
    pub enum Stop {
        Prune,
        Check(u32),
        Inputs,
    }
    thread_local!(pub static CTX: RefCell<Ctx> = const { RefCell::new(Ctx { inputs: vec![], pos: 0, hash: 0, expect: false, covers: vec![], verbose: false }) });
    pub unsafe fn __sym_var(lo: u64, hi: u64) -> u64 {
        if lo > hi {
            std::panic::resume_unwind(Box::new(Stop::Prune));
        }
        let v = CTX.with(|c| {
            let mut c = c.borrow_mut();
            let p = c.pos;
            c.pos += 1;
            c.inputs.get(p).copied()
        });
        match v {
            Some(v) if v >= lo && v <= hi => v,
            _ => std::panic::resume_unwind(Box::new(Stop::Inputs)),
        }
    }
    pub unsafe fn __sym_assume(c: bool) {
        if !c {
            std::panic::resume_unwind(Box::new(Stop::Prune));
        }
    }
    pub unsafe fn __sym_check(c: bool, id: u32) {
        if !c {
            std::panic::resume_unwind(Box::new(Stop::Check(id)));
        }
    }
    pub unsafe fn __sym_cover(id: u32) {
        CTX.with(|c| c.borrow_mut().covers.push(id));
    }
    pub unsafe fn __sym_observe(v: u64) {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            if c.verbose {
                eprintln!("observe {v}");
            }
            for b in v.to_le_bytes() {
                c.hash = (c.hash ^ b as u64).wrapping_mul(0x100000001b3);
            }
        });
    }
    pub unsafe fn __sym_choose(v: u64) -> u64 {
        v
    }
    pub unsafe fn __sym_expect_panic(b: bool) {
        CTX.with(|c| c.borrow_mut().expect = b);
    }
    pub unsafe fn __sym_note(id: u32) {
        if id >> 8 == 0x5eed00 {
            SEED.store(id as u8, std::sync::atomic::Ordering::Relaxed);
        }
    }
    static SEED: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0x11);
    /// Takes the place of the C library's: the keys of hash maps are those of
    /// the symbolic execution, so that replays iterate in the same order.
    #[no_mangle]
    pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
        std::ptr::write_bytes(buf, SEED.load(std::sync::atomic::Ordering::Relaxed), len);
        len as isize
    }
}

/// A symbolic value in `0..n`.
#[inline(always)]
pub fn below(n: usize) -> usize {
    if n == 0 {
        assume(false);
    }
    unsafe { imp::__sym_var(0, (n as u64).wrapping_sub(1)) as usize }
}
/// A symbolic value in `lo..=hi`.
#[inline(always)]
pub fn range(lo: usize, hi: usize) -> usize {
    unsafe { imp::__sym_var(lo as u64, hi as u64) as usize }
}
#[inline(always)]
pub fn any_u64() -> u64 {
    unsafe { imp::__sym_var(0, u64::MAX) }
}
#[inline(always)]
pub fn any_u32() -> u32 {
    unsafe { imp::__sym_var(0, u32::MAX as u64) as u32 }
}
#[inline(always)]
pub fn any_bool() -> bool {
    unsafe { imp::__sym_var(0, 1) == 1 }
}
/// Split into one state per feasible value of `v` (asked of the solver).
#[inline(always)]
pub fn choose(v: usize) -> usize {
    unsafe { imp::__sym_choose(v as u64) as usize }
}
#[inline(always)]
pub fn assume(b: bool) {
    unsafe { imp::__sym_assume(b) }
}
#[inline(always)]
pub fn check(b: bool, id: u32) {
    unsafe { imp::__sym_check(b, id) }
}
#[inline(always)]
pub fn cover(id: u32) {
    unsafe { imp::__sym_cover(id) }
}
#[inline(always)]
pub fn observe(v: u64) {
    unsafe { imp::__sym_observe(v) }
}
#[inline(always)]
pub fn note(id: u32) {
    unsafe { imp::__sym_note(id) }
}
/// Fixes the keys of the hash maps made from here on (before the first one).
#[inline(always)]
pub fn seed(v: usize) {
    note(0x5eed0000 | v as u32)
}
/// From here on a panic is an accepted outcome (`true`) or a violation (`false`).
#[inline(always)]
pub fn expect_panic(b: bool) {
    unsafe { imp::__sym_expect_panic(imp::__sym_choose(b as u64) == 1) }
}

/// Two threads sharing what `setup` makes: `b` runs as a whole at the point just
/// before the `at`-th atomic read-modify-write of `a` (schedules in which `a` is
/// over earlier, or in which `b` would have to wait, are dropped).
#[cfg(not(feature = "native"))]
pub fn interleave<T: Sync>(at: usize, setup: impl Fn() -> T, a: impl Fn(&T) + Sync, b: impl Fn(&T) + Sync) {
    use std::cell::UnsafeCell;
    struct Slot(UnsafeCell<(Option<unsafe fn(*const (), *const ())>, *const (), *const (), bool)>);
    unsafe impl Sync for Slot {}
    static SLOT: Slot = Slot(UnsafeCell::new((None, std::ptr::null(), std::ptr::null(), false)));
    unsafe fn call<T, B: Fn(&T)>(t: *const (), b: *const ()) {
        (*(b as *const B))(&*(t as *const T))
    }
    fn pick<T, B: Fn(&T)>(_: &B) -> unsafe fn(*const (), *const ()) {
        call::<T, B>
    }
    extern "C" fn handler() {
        unsafe {
            let s = &mut *SLOT.0.get();
            s.3 = true;
            s.0.unwrap()(s.1, s.2)
        }
    }
    let t = setup();
    unsafe {
        *SLOT.0.get() = (Some(pick::<T, _>(&b)), &t as *const T as *const (), &b as *const _ as *const (), false);
        imp::__sym_irq(handler as usize as u64, at as u64);
        a(&t);
        assume(std::ptr::read_volatile(std::ptr::addr_of!((*SLOT.0.get()).3)));
    }
}
/// Natively the schedule is up to the machine: replays try many times.
#[cfg(feature = "native")]
pub fn interleave<T: Sync>(_at: usize, setup: impl Fn() -> T, a: impl Fn(&T) + Sync, b: impl Fn(&T) + Sync) {
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    if !imp::STRESS.load(SeqCst) {
        let t = setup();
        a(&t);
        b(&t);
        return;
    }
    std::panic::set_hook(Box::new(|_| {}));
    let t0 = std::time::Instant::now();
    let mut k = 0usize;
    while t0.elapsed().as_secs() < 12 {
        k += 1;
        let t = setup();
        let gate = AtomicUsize::new(0);
        let meet = |spin: usize| {
            gate.fetch_add(1, SeqCst);
            while gate.load(SeqCst) < 2 {
                std::hint::spin_loop();
            }
            for _ in 0..spin {
                std::hint::spin_loop();
            }
        };
        let (x, y) = if k % 2 == 0 { (k / 2 % 64, 0) } else { (0, k / 2 % 64) };
        let bad = std::thread::scope(|s| {
            let h = s.spawn(|| {
                meet(x);
                b(&t)
            });
            meet(y);
            let ra = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a(&t)));
            let rb = h.join();
            ra.err().or(rb.err())
        });
        if let Some(p) = bad {
            std::panic::resume_unwind(p);
        }
    }
}
/// Assert a property; the line number identifies the assertion.
#[macro_export]
macro_rules! ck {
    ($c:expr) => {
        $crate::sym::check($c, line!())
    };
}
/// any number below `1 << n`, enumerated bit by bit
pub fn any_bits(n: usize) -> usize {
    let mut c = 0;
    for k in 0..n {
        c |= choose(below(2)) << k;
    }
    c
}
