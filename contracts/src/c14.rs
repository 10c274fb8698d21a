//! C14: component arithmetic
use crate::vp::*;
use float_cmp::{ApproxEq, F32Margin, F64Margin};
use colorspace::math::{clamp, lerp, Bounded, One, Zero};
use colorspace::rgb::*; use colorspace::xyz::{xyz, XYZ, XYZf32, XYZf64};
fn a<T: Fl>() -> [T; 3] { [T::anyv(), T::anyv(), T::anyv()] }
fn nz<T: Fl>() -> [T; 3] { let v = a::<T>(); for x in v { away(x, 0.01); } v }
fn same<T: Fl>(l: &'static str, g: [T; 3], w: [T; 3], s: f64) { for i in 0..3 { eq(l, g[i], w[i], if symbolic() { T::one() } else { T::c(s) * (T::c(0.001) + w[i].abs()) }); } }
macro_rules! ops { ($n:ident, $t:ident, $mk:expr, $un:expr) => { fn $n<T: Fl>() {
    let (p, q, d) = (a::<T>(), a::<T>(), nz::<T>()); let s = T::anyv(); let dv = d[0]; let (mk, un) = ($mk, $un); let (u, v, w) = (mk(p), mk(q), mk(d));
    let z = |f: fn(T, T) -> T, x: [T; 3], y: [T; 3]| [f(x[0], y[0]), f(x[1], y[1]), f(x[2], y[2])]; let k = |x: T| [x, x, x];
    same("addition is by component", un(u + v), z(|x, y| x + y, p, q), 1.0); same("subtraction is by component", un(u - v), z(|x, y| x - y, p, q), 1.0); same("multiplication is by component", un(u * v), z(|x, y| x * y, p, q), 1.0); same("division is by component", un(u / w), z(|x, y| x / y, p, d), 1.0);
    same("negation is by component", un(-u), z(|x, _| -x, p, q), 0.0); same("absolute value is by component", un(u.abs()), z(|x, _| x.abs(), p, q), 0.0);
    same("adding a scalar is by component", un(u + s), z(|x, y| x + y, p, k(s)), 1.0); same("subtracting a scalar is by component", un(u - s), z(|x, y| x - y, p, k(s)), 1.0); same("multiplying by a scalar is by component", un(u * s), z(|x, y| x * y, p, k(s)), 1.0); same("dividing by a scalar is by component", un(u / dv), z(|x, y| x / y, p, k(dv)), 1.0);
    let mut m = u; m += v; same("adding in place is by component", un(m), z(|x, y| x + y, p, q), 1.0);
    same("the constructor keeps its arguments in order", un($t::new(p[0], p[1], p[2])), p, 0.0); same("a scalar fills every component", un($t::from_scalar(s)), k(s), 0.0);
    for i in 0..3 { check("reading by index addresses the component", u[i] == p[i]); let mut m = u; m[i] = s; for j in 0..3 { check("writing by index addresses the component", un(m)[j] == if i == j { s } else { p[j] }); } }
    let (o, n, lo, hi) = (un($t::<T>::zero()), un($t::<T>::one()), un($t::<T>::min_value()), un($t::<T>::max_value()));
    for i in 0..3 { check("zero fills every component", o[i] == T::zero()); check("one fills every component", n[i] == T::one()); check("min_value fills every component", lo[i] == <T as Bounded>::min_value()); check("max_value fills every component", hi[i] == <T as Bounded>::max_value()); }
    check("zero is zero", $t::<T>::zero().is_zero()); for i in 0..3 { let mut m = $t::<T>::zero(); m[i] = dv; check("a non-zero component is not zero", !m.is_zero()); }
    check("equality looks at every component", u == mk(p)); for i in 0..3 { let mut m = u; m[i] = p[i] + dv; if symbolic() || p[i] + dv != p[i] { check("inequality sees every component", m != u); } }
    check("equal exactly when every component is", (mk(p) == mk(q)) == (p[0] == q[0] && p[1] == q[1] && p[2] == q[2])); check("zero exactly when every component is", mk(p).is_zero() == (p[0] == T::zero() && p[1] == T::zero() && p[2] == T::zero()));
    let o = mk([p[0], -p[0], T::zero()]); if p[0] != T::zero() { check("components that cancel are not zero", !o.is_zero()); check("components that cancel differ from zero", o != $t::<T>::zero()); }
} } }
ops!(rgb_ops, RGBf, |x: [T; 3]| RGBf { r: x[0], g: x[1], b: x[2] }, |c: RGBf<T>| [c.r, c.g, c.b]);
ops!(xyz_ops, XYZ, |x: [T; 3]| XYZ { x: x[0], y: x[1], z: x[2] }, |c: XYZ<T>| [c.x, c.y, c.z]);
fn rgb_funs<T: Fl>() {
    let p = a::<T>(); let u = RGBf { r: p[0], g: p[1], b: p[2] }; let m = hmax(u); for i in 0..3 { le("the largest component is at least each component", p[i], m, T::zero()); } check("the largest component is a component", m == p[0] || m == p[1] || m == p[2]);
    let (lo, hi) = (T::anyv(), T::anyv()); assume_le(lo, hi); let c = clamprgb(u, lo, hi); let c = [c.r, c.g, c.b];
    for i in 0..3 { le("clamping respects the lower bound", lo, c[i], T::zero()); le("clamping respects the upper bound", c[i], hi, T::zero()); check("clamping keeps what is in bounds and uses the nearer bound otherwise", c[i] == if p[i] < lo { lo } else if hi < p[i] { hi } else { p[i] }); check("scalar clamp agrees", clamp(p[i], lo, hi) == c[i]); }
}
fn rgb_norm<T: Fl>() { let p = [T::wide(-100.0, 100.0), T::wide(0.01, 100.0), T::wide(-100.0, 100.0)]; positive(p[1], 0.01); let u = RGBf { r: p[0], g: p[1], b: p[2] }; let (n, m) = (normalize(u), hmax(u)); let sc = T::c(1e6); eq("normalisation divides by the largest component, R", n.r * m, p[0], sc); eq("normalisation divides by the largest component, G", n.g * m, p[1], sc); eq("normalisation divides by the largest component, B", n.b * m, p[2], sc); eq("the largest component becomes one", hmax(n), T::one(), T::one()); }
fn rgb_pow<T: Fl>() { let p = [T::wide(0.0, 10.0), T::wide(0.0, 10.0), T::wide(0.0, 10.0)]; for x in p { assume_le(T::zero(), x); } let e = T::c([0.45, 2.4, 1.0 / 2.2, 3.0, 1.0, 2.0, 0.5, 0.0][case(8)]); let u = (RGBf { r: p[0], g: p[1], b: p[2] }).powf(e); let sc = T::c(1e3); eq("power is by component, R", u.r, p[0].powf(e), sc); eq("power is by component, G", u.g, p[1].powf(e), sc); eq("power is by component, B", u.b, p[2].powf(e), sc); }
fn rgb_left() { let (p, d) = (a::<f32>(), nz::<f32>()); let s = f32::anyv(); let (u, w) = (RGBf32::new(p[0], p[1], p[2]), RGBf32::new(d[0], d[1], d[2])); let un = |c: RGBf32| [c.r, c.g, c.b];
    same("scalar + colour is by component", un(s + u), [s + p[0], s + p[1], s + p[2]], 1.0); same("scalar - colour is by component, in this order", un(s - u), [s - p[0], s - p[1], s - p[2]], 1.0); same("scalar * colour is by component", un(s * u), [s * p[0], s * p[1], s * p[2]], 1.0); same("scalar / colour is by component, in this order", un(s / w), [s / d[0], s / d[1], s / d[2]], 1.0);
    let (x, y, t) = (f32::wide(-100.0, 100.0), f32::wide(-100.0, 100.0), f32::wide(-1.0, 2.0)); eq("lerp is (1-t) a + t b", lerp(x, y, t), x + t * (y - x), 1e3); eq("lerp starts at a", lerp(x, y, 0.0), x, 1.0); eq("lerp ends at b", lerp(x, y, 1.0), y, 1.0); }
fn sums() { let n = case(if symbolic() { 6 } else { 60 }); let v: Vec<[f32; 3]> = (0..n).map(|_| a()).collect(); let w: Vec<[f64; 3]> = (0..n).map(|_| a()).collect();
    let sc = 1e9; let mut s = [0f32; 3]; let mut t = [0f64; 3]; for i in 0..n { for j in 0..3 { s[j] += v[i][j]; t[j] += w[i][j]; } }
    let r: RGBf32 = v.iter().map(|x| RGBf32::new(x[0], x[1], x[2])).sum(); same("summing colours sums each component", [r.r, r.g, r.b], s, sc as f64); let r: RGBf64 = w.iter().map(|x| RGBf64::new(x[0], x[1], x[2])).sum(); same("summing colours sums each component", [r.r, r.g, r.b], t, sc); let r: XYZf32 = v.iter().map(|x| XYZf32::new(x[0], x[1], x[2])).sum(); same("summing XYZ sums each component", [r.x, r.y, r.z], s, sc); }
fn narrow() { let p = a::<f64>(); let r = RGBf32::from(RGBf64::new(p[0], p[1], p[2])); same("narrowing a colour converts each component", [r.r, r.g, r.b], [p[0] as f32, p[1] as f32, p[2] as f32], 0.0); let r = XYZf32::from(XYZf64::new(p[0], p[1], p[2])); same("narrowing an XYZ converts each component", [r.x, r.y, r.z], [p[0] as f32, p[1] as f32, p[2] as f32], 0.0);
    let (c, d, e) = (rgbf(p[0], p[1], p[2]), rgbf64(p[0], p[1], p[2]), xyz(p[0], p[1], p[2])); check("the short constructors keep their arguments in order", c.r == p[0] && c.g == p[1] && c.b == p[2] && d.r == p[0] && d.g == p[1] && d.b == p[2] && e.x == p[0] && e.y == p[1] && e.z == p[2]); let q = rgbf32(r.x, r.y, r.z); let t = rgbaf32(r.x, r.y, r.z, 0.5); check("the short constructors keep their arguments in order", q.r == r.x && q.g == r.y && q.b == r.z && t.r == r.x && t.g == r.y && t.b == r.z && t.a == 0.5);
    let (u, w) = (rgbu8(1, 2, 3), rgbu16(1, 2, 3)); check("the short integer constructors keep their arguments in order", u.r == 1 && u.g == 2 && u.b == 3 && w.r == 1 && w.g == 2 && w.b == 3); }
fn past() { let p = a::<f64>(); let k = case(4); let i = [3usize, 4, 17, usize::MAX][case(4)]; let (mut u, mut v) = (RGBf { r: p[0], g: p[1], b: p[2] }, XYZ { x: p[0], y: p[1], z: p[2] }); expect_panic(); match k { 0 => { let _x = u[i]; } 1 => { u[i] = 1.0; } 2 => { let _x = v[i]; } _ => { v[i] = 1.0; } } must_have_panicked("indexing past the third component panics"); }
/// approximate equality: within the margin in every component, not within it when any one component is off
macro_rules! approx { ($n:ident, $t:ty, $mk:expr, $margin:ident) => { fn $n() { let mk = $mk; let p = a::<$t>(); let (e, d) = (<$t>::any(0.0, 0.0005), <$t>::any(0.01, 100.0)); let m = $margin { epsilon: if symbolic() { 0.001 } else { 0.002 }, ulps: 0 };
    for x in p { assume_le(x, 50.0); assume_le(-50.0, x); }
    check("a colour approximately equals itself", mk(p).approx_eq(mk(p), m)); check("components within the margin are approximately equal", mk(p).approx_eq(mk([p[0] + e, p[1] - e, p[2] + e]), m));
    for i in 0..3 { let mut q = p; q[i] = p[i] + d; check("a difference in any one component is seen", !mk(p).approx_eq(mk(q), m) && !mk(q).approx_eq(mk(p), m)); }
} } }
approx!(rgb_approx_f64, f64, |x: [f64; 3]| RGBf { r: x[0], g: x[1], b: x[2] }, F64Margin); approx!(rgb_approx_f32, f32, |x: [f32; 3]| RGBf { r: x[0], g: x[1], b: x[2] }, F32Margin); approx!(xyz_approx_f64, f64, |x: [f64; 3]| XYZ { x: x[0], y: x[1], z: x[2] }, F64Margin); approx!(xyz_approx_f32, f32, |x: [f32; 3]| XYZ { x: x[0], y: x[1], z: x[2] }, F32Margin);
#[no_mangle] pub fn c14_rgb_f64() { rgb_ops::<f64>() }
#[no_mangle] pub fn c14_rgb_f32() { rgb_ops::<f32>() }
#[no_mangle] pub fn c14_xyz_f64() { xyz_ops::<f64>() }
#[no_mangle] pub fn c14_xyz_f32() { xyz_ops::<f32>() }
#[no_mangle] pub fn c14_functions_f64() { rgb_funs::<f64>() }
#[no_mangle] pub fn c14_functions_f32() { rgb_funs::<f32>() }
#[no_mangle] pub fn c14_normalize_f64() { rgb_norm::<f64>() }
#[no_mangle] pub fn c14_normalize_f32() { rgb_norm::<f32>() }
#[no_mangle] pub fn c14_pow_f64() { rgb_pow::<f64>() }
#[no_mangle] pub fn c14_pow_f32() { rgb_pow::<f32>() }
#[no_mangle] pub fn c14_left_scalar() { rgb_left() }
#[no_mangle] pub fn c14_sums() { sums() }
#[no_mangle] pub fn c14_narrow() { narrow() }
#[no_mangle] pub fn c14_past_the_end() { past() }
#[no_mangle] pub fn c14_approximately_rgb() { if case(2) == 0 { rgb_approx_f64() } else { rgb_approx_f32() } }
#[no_mangle] pub fn c14_approximately_xyz() { if case(2) == 0 { xyz_approx_f64() } else { xyz_approx_f32() } }

/// long sums, natively, of integers (exact in either precision)
#[no_mangle] pub fn c14_native_long_sums() { if symbolic() { return; } let n = long(); let k = 1 + case(50); let v: Vec<[f64; 3]> = (0..n).map(|i| [(i % k) as f64, (i % 2) as f64 - 1.0, (i % 7) as f64 * 2.0]).collect(); let mut t = [0f64; 3]; for x in &v { for j in 0..3 { t[j] += x[j]; } } let f = |x: &[f64; 3]| [x[0] as f32, x[1] as f32, x[2] as f32]; let exact = |x: f64| x.abs() < 16e6;
    let r: RGBf64 = v.iter().map(|x| RGBf64::new(x[0], x[1], x[2])).sum(); check("summing colours sums each component", [r.r, r.g, r.b] == t); if !t.iter().all(|x| exact(*x)) { return; } let r: RGBf32 = v.iter().map(f).map(|x| RGBf32::new(x[0], x[1], x[2])).sum(); check("summing colours sums each component", [r.r as f64, r.g as f64, r.b as f64] == t); let r: XYZf32 = v.iter().map(f).map(|x| XYZf32::new(x[0], x[1], x[2])).sum(); check("summing XYZ sums each component", [r.x as f64, r.y as f64, r.z as f64] == t); }
/// the two zeros are the same value in comparisons, natively
#[no_mangle] pub fn c14_native_zeros() { if symbolic() { return; } macro_rules! z { ($t:ident, $f:ty) => {{ let p = a::<$f>(); let i = case(3); let (mut m, mut n) = ($t::<$f>::new(p[0], p[1], p[2]), $t::<$f>::new(p[0], p[1], p[2])); m[i] = 0.0; n[i] = -0.0; check("the two zeros are equal", m == n && n == m && !(m != n)); check("minus zero is zero", $t::<$f>::new(-0.0, -0.0, -0.0).is_zero() && $t::<$f>::from_scalar(-0.0) == $t::<$f>::zero()); m[i] = <$f>::NAN; check("a NaN is not equal to anything", m != m && m != n && !m.is_zero()); }} }
    z!(RGBf, f64); z!(RGBf, f32); z!(XYZ, f64); z!(XYZ, f32); }
