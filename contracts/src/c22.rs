//! C22: viewing component slices as colours
use crate::vp::*;
use colorspace::rgb::{RGBf, RGBu8};
fn view<T: Fl>() {
    let n = 3 * len(40); let off = case(4); let all: Vec<T> = (0..n + off + 2).map(|_| T::any(-100.0, 100.0)).collect(); let s = &all[off..off + n]; let c = RGBf::<T>::cast_slice(s);
    check("a third as many colours", c.len() == n / 3); check("the same memory, nothing added or dropped", c.as_ptr() as *const T == s.as_ptr() && std::mem::size_of_val(c) == std::mem::size_of_val(s));
    for i in 0..c.len().min(n / 3) { eq("red is component 3i", c[i].r, s[3 * i], T::zero()); eq("green is component 3i + 1", c[i].g, s[3 * i + 1], T::zero()); eq("blue is component 3i + 2", c[i].b, s[3 * i + 2], T::zero()); }
}
/// any length up to 260 and a few big ones; natively also around powers of two up to a million
fn size() -> usize { let n = len(260); if !symbolic() && case(20) == 19 { (1usize << case(20)) + n } else { n } }
fn reject<T: Fl>() { let n = size(); assume(n % 3 != 0); let s: Vec<T> = (0..n).map(|_| T::zero()).collect(); expect_panic(); let _ = RGBf::<T>::cast_slice(&s); must_have_panicked("a length that is not a multiple of three is rejected"); }
#[no_mangle] pub fn c22_view_f64() { view::<f64>() }
#[no_mangle] pub fn c22_view_f32() { view::<f32>() }
#[no_mangle] pub fn c22_view_u8() {
    let n = 3 * len(40); let off = case(5); let all: Vec<u8> = (0..n + off + 2).map(|i| (i * 37 % 251) as u8).collect(); let s = &all[off..off + n]; let c = RGBu8::cast_slice(s);
    check("a third as many colours", c.len() == n / 3); check("the same memory, nothing added or dropped", c.as_ptr() as *const u8 == s.as_ptr() && std::mem::size_of_val(c) == n);
    for i in 0..c.len().min(n / 3) { check("components in order", c[i].r == s[3 * i] && c[i].g == s[3 * i + 1] && c[i].b == s[3 * i + 2]); }
}
#[no_mangle] pub fn c22_reject_f64() { reject::<f64>() }
#[no_mangle] pub fn c22_reject_f32() { reject::<f32>() }
#[no_mangle] pub fn c22_reject_u8() { let n = size(); assume(n % 3 != 0); let s = vec![7u8; n]; expect_panic(); let _ = RGBu8::cast_slice(&s); must_have_panicked("a length that is not a multiple of three is rejected"); }
/// slices far too long to fill, natively: beyond what fits a single precision float or 32 bits (the memory is reserved, not touched, but for the two ends)
#[no_mangle] pub fn c22_native_huge() { if symbolic() { return; } match case(3) { 0 => huge(1, |s: &[u8]| { let c = RGBu8::cast_slice(s); (c.as_ptr() as usize, c.len(), c.last().map(|c| c.r as f64 + c.g as f64 + c.b as f64)) }), 1 => huge(4, |s: &[f32]| { let c = RGBf::<f32>::cast_slice(s); (c.as_ptr() as usize, c.len(), c.last().map(|c| (c.r + c.g + c.b) as f64)) }), _ => huge(8, |s: &[f64]| { let c = RGBf::<f64>::cast_slice(s); (c.as_ptr() as usize, c.len(), c.last().map(|c| c.r + c.g + c.b)) }) } }
fn huge<T>(size: usize, cast: fn(&[T]) -> (usize, usize, Option<f64>)) { let n = [1usize << 24, 1 << 25, 1 << 26, 1 << 28, 1 << 31, 1 << 32][case(6)] + case(40) - 20; let bad = case(4) == 3; let n = if bad { n } else { n / 3 * 3 };
    static R: std::sync::OnceLock<usize> = std::sync::OnceLock::new(); const B: usize = (1 << 34) + (1 << 12); let p = *R.get_or_init(|| unsafe { std::alloc::alloc_zeroed(std::alloc::Layout::from_size_align(B, 16).unwrap()) as usize }); if p == 0 || n * size > B { return; }
    let s = unsafe { std::slice::from_raw_parts(p as *const T, n) }; if n % 3 != 0 { expect_panic(); let _ = cast(s); must_have_panicked("a length that is not a multiple of three is rejected"); return; }
    let (q, m, last) = cast(s); check("a third as many colours", m == n / 3); check("the same memory, nothing added or dropped", q == p); check("every component is there", last == Some(0.0)); }
