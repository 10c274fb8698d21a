//! Bit-precise contracts, proved by Kani over every floating-point bit pattern / every length.
#![cfg(kani)]
use colorspace::illuminant::xy::cct;
use colorspace::rgb::{RGBf, RGBf32, RGBf64, RGBu16, RGBu8};

// ---------------------------------------------------------------- C13
macro_rules! nearest { ($n:ident, $f:ty, $t:ty, $u:ty, $max:expr) => {
    /// each channel is the nearest level of the same channel, for every bit pattern; nothing panics. The product v * max
    /// is rounded in the source precision, which cannot move it past the halfway points (they are representable): every
    /// level that is nearest to the exact product passes
    #[kani::proof] fn $n() {
        let near = |v: $t, out: $t| -> bool { if v.is_nan() || v <= 0.0 { out == 0.0 } else if v >= 1.0 { out == $max } else { let p = v * $max; out - 0.5 <= p && p <= out + 0.5 } };
        let v: $t = kani::any(); let (a, b): ($t, $t) = (0.25, 0.75);
        let o = <$u>::from(<$f>::new(v, a, b)); assert!(near(v, o.r as $t), "red is the nearest level of the clamped value"); assert!(near(a, o.g as $t) && near(b, o.b as $t), "green and blue do not depend on it");
    } } }
nearest!(c13_nearest_f32_u8, RGBf32, f32, RGBu8, 255.0);
nearest!(c13_nearest_f32_u16, RGBf32, f32, RGBu16, 65535.0);
nearest!(c13_nearest_f64_u8, RGBf64, f64, RGBu8, 255.0);
nearest!(c13_nearest_f64_u16, RGBf64, f64, RGBu16, 65535.0);
macro_rules! monotone { ($n:ident, $f:ty, $t:ty, $u:ty) => {
    #[kani::proof] fn $n() { let (v, w): ($t, $t) = (kani::any(), kani::any()); kani::assume(v <= w); let o = <$u>::from(<$f>::new(v, w, v)); assert!(o.r <= o.g && o.r == o.b, "larger inputs never give smaller levels"); } } }
monotone!(c13_monotone_f32_u8, RGBf32, f32, RGBu8);
monotone!(c13_monotone_f32_u16, RGBf32, f32, RGBu16);
monotone!(c13_monotone_f64_u8, RGBf64, f64, RGBu8);
monotone!(c13_monotone_f64_u16, RGBf64, f64, RGBu16);
macro_rules! back { ($n:ident, $f:ty, $u:ty, $i:ty, $t:ty, $max:expr) => {
    #[kani::proof] fn $n() { let (r, g, b): ($i, $i, $i) = (kani::any(), kani::any(), kani::any()); let c = <$f>::from(<$u>::from_bits(r, g, b)); 
        assert!(c.r == r as $t / $max && c.g == g as $t / $max && c.b == b as $t / $max, "level / maximum level"); let o = <$u>::from(c); assert!(o.r == r && o.g == g && o.b == b, "integer to float to integer is the identity"); } } }
trait FromBits<I> { fn from_bits(r: I, g: I, b: I) -> Self; }
impl FromBits<u8> for RGBu8 { fn from_bits(r: u8, g: u8, b: u8) -> Self { RGBu8 { r, g, b } } }
impl FromBits<u16> for RGBu16 { fn from_bits(r: u16, g: u16, b: u16) -> Self { RGBu16 { r, g, b } } }
back!(c13_back_u8_f32, RGBf32, RGBu8, u8, f32, 255.0);
back!(c13_back_u8_f64, RGBf64, RGBu8, u8, f64, 255.0);
back!(c13_back_u16_f32, RGBf32, RGBu16, u16, f32, 65535.0);
back!(c13_back_u16_f64, RGBf64, RGBu16, u16, f64, 65535.0);

// ---------------------------------------------------------------- C21
#[kani::proof] fn c21_defined_exactly_f32() { let t: f32 = kani::any(); assert!(cct(t).is_ok() == (t >= 4000.0 && t <= 25000.0), "defined exactly from 4000 K to 25000 K"); }
#[kani::proof] fn c21_defined_exactly_f64() { let t: f64 = kani::any(); assert!(cct(t).is_ok() == (t >= 4000.0 && t <= 25000.0), "defined exactly from 4000 K to 25000 K"); }

// ---------------------------------------------------------------- C22
const LIM: usize = 1 << 40; // longest slice considered, far beyond memory
fn raw<T>(n: usize) -> &'static [T] { unsafe { let p = std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(n * std::mem::size_of::<T>(), std::mem::align_of::<T>())) as *const T; kani::assume(!p.is_null()); std::slice::from_raw_parts(p, n) } }
macro_rules! view { ($n:ident, $m:ident, $c:ty, $t:ty, $b:ident) => {
    /// every length that is a multiple of three: same memory, a third as many colours, components in order, in bounds
    #[kani::proof] fn $n() { let n: usize = kani::any(); kani::assume(n > 0 && n <= LIM && n % 3 == 0); let s = raw::<$t>(n); let c = <$c>::cast_slice(s);
        assert!(c.len() == n / 3 && c.len() * 3 == n, "a third as many colours"); assert!(c.as_ptr() as *const $t == s.as_ptr(), "the same memory"); assert!(std::mem::size_of::<$c>() == 3 * std::mem::size_of::<$t>(), "nothing added or dropped");
        let i: usize = kani::any(); kani::assume(i < n / 3); assert!($b(c[i].r, s[3 * i]) && $b(c[i].g, s[3 * i + 1]) && $b(c[i].b, s[3 * i + 2]), "components in order"); }
    /// every other length panics: the point after the call is unreachable
    #[kani::proof] #[kani::should_panic] fn $m() { let n: usize = kani::any(); kani::assume(n > 0 && n <= LIM && n % 3 != 0); let s = raw::<$t>(n); let _ = <$c>::cast_slice(s); kani::cover!(true, "must be unreachable"); } } }
fn eq8(a: u8, b: u8) -> bool { a == b }
fn eq32(a: f32, b: f32) -> bool { a.to_bits() == b.to_bits() }
fn eq64(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() }
view!(c22_view_u8, c22_panics_u8, RGBu8, u8, eq8);
view!(c22_view_f32, c22_panics_f32, RGBf<f32>, f32, eq32);
view!(c22_view_f64, c22_panics_f64, RGBf<f64>, f64, eq64);
