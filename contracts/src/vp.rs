//! The contract language: symbolic inputs, preconditions (assume) and postconditions (eq, near, le, check).
//! `vpengine` gives these functions their deductive meaning; `native.rs` gives them the executable
//! meaning used to replay counterexamples and to run the bounded conformance lane.
use colorspace::math::Real;
extern "Rust" {
    fn vp_any_f64(lo: f64, hi: f64) -> f64;
    fn vp_any_f32(lo: f32, hi: f32) -> f32;
    fn vp_case(n: u32) -> u32;
    fn vp_symbolic() -> bool;
    fn vp_assume(b: bool);
    fn vp_assume_lt(a: f64, b: f64);
    fn vp_assume_le(a: f64, b: f64);
    fn vp_assume_ne(a: f64, b: f64);
    fn vp_expect_panic(b: bool);
    fn vp_assert(p: *const u8, n: usize, b: bool);
    fn vp_eq(p: *const u8, n: usize, a: f64, b: f64, slack: f64);
    fn vp_near(p: *const u8, n: usize, a: f64, b: f64, tol: f64, slack: f64);
    fn vp_le(p: *const u8, n: usize, a: f64, b: f64, slack: f64);
    fn vp_lt(p: *const u8, n: usize, a: f64, b: f64);
}
pub trait Fl: Real + Send + Sync + 'static {
    fn any(lo: f64, hi: f64) -> Self;
    fn f(self) -> f64;
    fn c(x: f64) -> Self;
    const EPS: f64;
    const F32: bool;
    fn anyv() -> Self { Self::any(f64::NEG_INFINITY, f64::INFINITY) }
    /// any real number for the verifier; natively (where the rounding slack is tuned to it) one of this range
    fn wide(lo: f64, hi: f64) -> Self { if symbolic() { Self::anyv() } else { Self::any(lo, hi) } }
    fn unit() -> Self { Self::any(0.0, 1.0) }
}
impl Fl for f64 { fn any(lo: f64, hi: f64) -> f64 { unsafe { vp_any_f64(lo, hi) } } fn f(self) -> f64 { self } fn c(x: f64) -> f64 { x } const EPS: f64 = f64::EPSILON; const F32: bool = false; }
impl Fl for f32 { fn any(lo: f64, hi: f64) -> f32 { unsafe { vp_any_f32(lo as f32, hi as f32) } } fn f(self) -> f64 { self as f64 } fn c(x: f64) -> f32 { x as f32 } const EPS: f64 = f32::EPSILON as f64; const F32: bool = true; }

/// one of `n` enumerated cases
pub fn case(n: u32) -> usize { unsafe { vp_case(n) as usize } }
/// true when run by the verifier, false in the native lane
pub fn symbolic() -> bool { unsafe { vp_symbolic() } }
pub fn assume(b: bool) { unsafe { vp_assume(b) } }
pub fn assume_lt<T: Fl>(a: T, b: T) { unsafe { vp_assume_lt(a.f(), b.f()) } }
pub fn assume_le<T: Fl>(a: T, b: T) { unsafe { vp_assume_le(a.f(), b.f()) } }
pub fn assume_ne<T: Fl>(a: T, b: T) { unsafe { vp_assume_ne(a.f(), b.f()) } }
/// from here on the contract demands a panic; `no_panic` marks the point that must not be reached
pub fn expect_panic() { unsafe { vp_expect_panic(true) } }
pub fn must_have_panicked(label: &'static str) { unsafe { vp_expect_panic(false); vp_assert(label.as_ptr(), label.len(), false) } }
/// not zero; natively (rounding) at least `m` away from it
pub fn away<T: Fl>(x: T, m: f64) { if symbolic() { assume_ne(x, T::zero()) } else { assume_le(T::c(m), x.abs()) } }
/// positive; natively at least `m`
pub fn positive<T: Fl>(x: T, m: f64) { if symbolic() { assume_lt(T::zero(), x) } else { assume_le(T::c(m), x) } }
pub fn check(label: &'static str, b: bool) { unsafe { vp_assert(label.as_ptr(), label.len(), b) } }
/// exact equality over the reals; natively within 64 ulps of `scale`
pub fn eq<T: Fl>(label: &'static str, a: T, b: T, scale: T) { unsafe { vp_eq(label.as_ptr(), label.len(), a.f(), b.f(), 64.0 * T::EPS * scale.f().abs()) } }
/// |a-b| <= tol over the reals; natively with 64 ulps of `scale` on top
pub fn near<T: Fl>(label: &'static str, a: T, b: T, tol: f64, scale: T) { unsafe { vp_near(label.as_ptr(), label.len(), a.f(), b.f(), tol, 64.0 * T::EPS * scale.f().abs()) } }
pub fn le<T: Fl>(label: &'static str, a: T, b: T, scale: T) { unsafe { vp_le(label.as_ptr(), label.len(), a.f(), b.f(), 64.0 * T::EPS * scale.f().abs()) } }
pub fn lt<T: Fl>(label: &'static str, a: T, b: T) { unsafe { vp_lt(label.as_ptr(), label.len(), a.f(), b.f()) } }
pub fn mx<T: Fl>(v: &[T]) -> T { // magnitude used for rounding slack only (irrelevant symbolically)
    let mut m = T::one(); if symbolic() { return m; } for x in v { if x.abs() > m { m = x.abs() } } m }

const BIG: [usize; 22] = [100, 127, 128, 129, 200, 255, 256, 257, 300, 400, 500, 511, 512, 513, 1000, 1024, 1023, 1025, 2048, 3000, 4096, 4097];
/// a slice length: every length below `k`, and longer ones (around powers of two, too); natively also beyond 300
pub fn len(k: usize) -> usize { let i = case((k + if symbolic() { 9 } else { BIG.len() }) as u32); if i < k { i } else { BIG[i - k] } }
/// an overall magnitude: one for the verifier (whose inputs are unbounded reals anyway), any order of magnitude natively
pub fn magnitude<T: Fl>() -> T { const D: [f64; 9] = [1.0, 1e-17, 1e-9, 1e-6, 1e-3, 1e3, 1e6, 1e12, 1e17]; const S: [f64; 9] = [1.0, 1e-5, 1e-4, 1e-3, 1e-2, 1e2, 1e3, 1e4, 1e5]; let i = case(if symbolic() { 1 } else { 18 }); if i > 8 { T::one() } else if T::F32 { T::c(S[i]) } else { T::c(D[i]) } }
/// a long length, natively only: around chunk sizes of bulk conversions and past 16-bit counters
pub fn long() -> usize { const L: [usize; 14] = [8191, 8192, 8193, 10000, 16384, 16385, 32769, 50000, 65535, 65536, 65537, 70001, 131072, 131073]; L[case(14)] }
/// a long run of values determined by two inputs, all different from their neighbours
pub fn ramp<T: Fl>(n: usize, lo: f64, hi: f64) -> Vec<T> { let (a, w) = (T::any(lo, 0.5 * (lo + hi)), T::any(0.1, 0.5) * T::c(hi - lo)); (0..n).map(|i| a + w * T::c(((i * 7919) % 10007) as f64 / 10007.0)).collect() }
