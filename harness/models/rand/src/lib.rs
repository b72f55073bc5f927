//! `rand` with the generator replaced by the harness: every draw is any value of its range.
pub use rngs::ThreadRng;

extern "C" {
    /// any number from 0 to n inclusive
    fn sv_random(n: u64) -> u64;
}
fn draw(n: u64) -> u64 { unsafe { sv_random(n) } }

pub trait RngCore {
    fn next_u32(&mut self) -> u32;
    fn next_u64(&mut self) -> u64;
    fn fill_bytes(&mut self, dest: &mut [u8]);
}
impl<R: RngCore + ?Sized> RngCore for &mut R {
    fn next_u32(&mut self) -> u32 { (**self).next_u32() }
    fn next_u64(&mut self) -> u64 { (**self).next_u64() }
    fn fill_bytes(&mut self, dest: &mut [u8]) { (**self).fill_bytes(dest) }
}
pub trait CryptoRng {}
pub trait SeedableRng: Sized {
    fn seed_from_u64(state: u64) -> Self;
    fn from_entropy() -> Self { Self::seed_from_u64(0) }
}

pub mod rngs {
    #[derive(Clone, Debug, Default)]
    pub struct ThreadRng;
    pub type StdRng = ThreadRng;
    pub type SmallRng = ThreadRng;
    pub type OsRng = ThreadRng;
    impl super::RngCore for ThreadRng {
        fn next_u32(&mut self) -> u32 { super::draw(u32::MAX as u64) as u32 }
        fn next_u64(&mut self) -> u64 { super::draw(u64::MAX) }
        fn fill_bytes(&mut self, dest: &mut [u8]) { for b in dest { *b = super::draw(255) as u8 } }
    }
    impl super::CryptoRng for ThreadRng {}
    impl super::SeedableRng for ThreadRng { fn seed_from_u64(_: u64) -> Self { ThreadRng } }
}
pub fn thread_rng() -> ThreadRng { ThreadRng }

pub trait Int: Copy + PartialOrd { fn up(self, n: u64) -> Self; fn width(lo: Self, hi: Self) -> u64; fn before(self) -> Self; }
macro_rules! int { ($($t:ty)*) => { $(impl Int for $t {
    fn up(self, n: u64) -> Self { self.wrapping_add(n as $t) }
    fn width(lo: Self, hi: Self) -> u64 { (hi as i128 - lo as i128) as u64 }
    fn before(self) -> Self { self - 1 }
})* } }
int! { u8 u16 u32 u64 usize i8 i16 i32 i64 isize }
pub trait SampleRange<T> { fn bounds(self) -> (T, T); }
impl<T: Int> SampleRange<T> for std::ops::Range<T> {
    fn bounds(self) -> (T, T) { assert!(self.start < self.end, "cannot sample empty range"); (self.start, self.end.before()) }
}
impl<T: Int> SampleRange<T> for std::ops::RangeInclusive<T> {
    fn bounds(self) -> (T, T) { assert!(self.start() <= self.end(), "cannot sample empty range"); (*self.start(), *self.end()) }
}
pub trait Standard: Sized { fn any() -> Self; }
macro_rules! any { ($($t:ty)*) => { $(impl Standard for $t { fn any() -> Self { draw(<$t>::MAX as u64) as $t } })* } }
any! { u8 u16 u32 u64 usize }
impl Standard for bool { fn any() -> Self { draw(1) == 1 } }
pub fn random<T: Standard>() -> T { T::any() }

pub trait Rng: RngCore {
    fn gen<T: Standard>(&mut self) -> T { T::any() }
    fn gen_range<T: Int, S: SampleRange<T>>(&mut self, range: S) -> T { let (a, b) = range.bounds(); a.up(draw(T::width(a, b))) }
    fn gen_bool(&mut self, p: f64) -> bool { if p <= 0.0 { false } else if p >= 1.0 { true } else { draw(1) == 1 } }
    fn gen_ratio(&mut self, a: u32, b: u32) -> bool { if a == 0 { false } else if a == b { true } else { draw(1) == 1 } }
}
impl<R: RngCore + ?Sized> Rng for R {}

pub mod seq {
    use super::{draw, Rng};
    pub trait SliceRandom {
        type Item;
        fn choose<R: Rng + ?Sized>(&self, rng: &mut R) -> Option<&Self::Item>;
        fn choose_mut<R: Rng + ?Sized>(&mut self, rng: &mut R) -> Option<&mut Self::Item>;
        fn shuffle<R: Rng + ?Sized>(&mut self, rng: &mut R);
    }
    impl<T> SliceRandom for [T] {
        type Item = T;
        fn choose<R: Rng + ?Sized>(&self, _: &mut R) -> Option<&T> { if self.is_empty() { None } else { self.get(draw(self.len() as u64 - 1) as usize) } }
        fn choose_mut<R: Rng + ?Sized>(&mut self, _: &mut R) -> Option<&mut T> { if self.is_empty() { None } else { let i = draw(self.len() as u64 - 1) as usize; self.get_mut(i) } }
        fn shuffle<R: Rng + ?Sized>(&mut self, _: &mut R) { for i in (1..self.len()).rev() { self.swap(i, draw(i as u64) as usize) } }
    }
    pub trait IteratorRandom: Iterator + Sized {
        fn choose<R: Rng + ?Sized>(self, _: &mut R) -> Option<Self::Item> {
            let mut v: Vec<Self::Item> = self.collect();
            if v.is_empty() { None } else { let i = draw(v.len() as u64 - 1) as usize; Some(v.swap_remove(i)) }
        }
    }
    impl<I: Iterator> IteratorRandom for I {}
}
pub mod prelude { pub use super::{random, rngs::{StdRng, ThreadRng}, seq::{IteratorRandom, SliceRandom}, thread_rng, CryptoRng, Rng, RngCore, SeedableRng}; }
