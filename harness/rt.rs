//! The harness side of the checks. Under the symbolic executor the `sv_*` functions are primitives
//! of the engine; in a native replay build (feature `native`) they read the values the solver chose.
#![allow(dead_code)]

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn sv_sym(name: *const u8, len: u64, bits: u64, lo: u64, hi: u64) -> u64;
        fn sv_assume(c: bool);
        fn sv_assert(c: bool, msg: *const u8, len: u64);
        fn sv_cover(msg: *const u8, len: u64);
        fn sv_observe(msg: *const u8, len: u64, v: u64);
        fn sv_event(msg: *const u8, len: u64);
        fn sv_panic_ok(on: bool);
        fn sv_fault(mask: u64, budget: u64);
        fn sv_faults_hit() -> u64;
        fn sv_param(i: u64, default: u64) -> u64;
        fn sv_sched(n: u64);
        fn sv_thread(n: u64);
        fn sv_concretize(x: u64) -> u64;
        fn sv_crash_run(f: extern "C" fn(*mut u8), arg: *mut u8, limit: u64) -> u64;
    }
    pub fn range(name: &str, lo: u64, hi: u64) -> u64 {
        let bits = 64 - hi.leading_zeros() as u64;
        unsafe { sv_sym(name.as_ptr(), name.len() as u64, bits.max(1), lo, hi) }
    }
    pub fn assume(c: bool) { unsafe { sv_assume(c) } }
    pub fn check(c: bool, msg: &'static str) { unsafe { sv_assert(c, msg.as_ptr(), msg.len() as u64) } }
    pub fn cover(msg: &'static str) { unsafe { sv_cover(msg.as_ptr(), msg.len() as u64) } }
    pub fn observe(msg: &str, v: u64) { unsafe { sv_observe(msg.as_ptr(), msg.len() as u64, v) } }
    pub fn event(msg: &str) { unsafe { sv_event(msg.as_ptr(), msg.len() as u64) } }
    pub fn panic_ok(on: bool) { unsafe { sv_panic_ok(on) } }
    pub fn fault(mask: u64, budget: u64) { unsafe { sv_fault(mask, budget) } }
    pub fn faults_hit() -> u64 { unsafe { sv_faults_hit() } }
    pub fn param(i: u64, default: u64) -> u64 { unsafe { sv_param(i, default) } }
    pub fn sched(n: u64) { unsafe { sv_sched(n) } }
    pub fn concretize(x: u64) -> u64 { unsafe { sv_concretize(x) } }
    pub fn crash_run<F: FnOnce()>(f: F, limit: u64) -> bool {
        extern "C" fn tr<F: FnOnce()>(p: *mut u8) { let f = unsafe { (*(p as *mut Option<F>)).take() }; if let Some(f) = f { f() } }
        let mut o = Some(f);
        let r = unsafe { sv_crash_run(tr::<F>, &mut o as *mut Option<F> as *mut u8, limit) };
        std::mem::forget(o);
        r != 0
    }
    pub fn dir() -> &'static str { "/sv" }
    /// this thread is number n of those whose interleavings are explored
    pub fn thread(n: u64) { unsafe { sv_thread(n) } }
    static CELLS: [std::sync::atomic::AtomicU64; 8] = [const { std::sync::atomic::AtomicU64::new(0) }; 8];
    /// memory that outlives a crash of the code under test
    pub fn shared() -> &'static [std::sync::atomic::AtomicU64; 8] { &CELLS }
}

#[cfg(feature = "native")]
include!("rt_native.rs");

pub use imp::*;

pub fn u64_(name: &str) -> u64 { range(name, 0, u64::MAX) }
pub fn u32_(name: &str) -> u32 { range(name, 0, u32::MAX as u64) as u32 }
pub fn u8_(name: &str) -> u8 { range(name, 0, 255) as u8 }
pub fn bool_(name: &str) -> bool { range(name, 0, 1) == 1 }
/// A choice the engine splits on right here: every value gets its own paths.
pub fn pick(name: &str, n: u64) -> u64 { concretize(range(name, 0, n - 1)) }
pub fn i64_(name: &str) -> i64 { range(name, 0, u64::MAX) as i64 }

#[macro_export]
macro_rules! entries {
    ($($(#[$m:meta])* fn $n:ident() $b:block)*) => {
        $($(#[$m])* #[no_mangle] pub extern "C" fn $n() $b)*
        pub static ENTRIES: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n)),*];
    };
}
