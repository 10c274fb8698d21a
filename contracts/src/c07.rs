//! C07: RGB/XYZ conversions and slice conversions
use crate::vp::*;
use colorspace::chromatic_adaptation::cat02;
use colorspace::color_space_rgb::{model_f64, ColorSpaceRGB};
use colorspace::math::Matrix33;
use colorspace::transform::*;
use colorspace::rgb::{RGBf, RGBu8}; use colorspace::chromaticity::XYY; use colorspace::xyz::XYZ;
use crate::c03::cone;
fn rgb<T: Fl>(lo: f64, hi: f64) -> RGBf<T> { RGBf { r: T::wide(lo, hi), g: T::wide(lo, hi), b: T::wide(lo, hi) } }
/// a white that CAT02 can adapt to and from
fn white<T: Fl>() -> XYY<T> {
    let w = XYY::new(T::wide(0.2, 0.5), T::wide(0.2, 0.5), T::wide(0.5, 1.5)); away(w.y, 0.1); let h = T::c(100.0) * w.Y / w.y;
    let c = cone(2, XYZ::new(w.x * h, w.y * h, (T::one() - w.x - w.y) * h)); for i in 0..3 { away(c[i], 1.0); } w
}
/// any space whose two matrices invert each other
fn space<T: Fl>() -> (ColorSpaceRGB<T>, T) {
    let mut m = [T::zero(); 9]; for i in 0..9 { m[i] = T::wide(-3.0, 3.0); }
    let a = [m[4] * m[8] - m[5] * m[7], m[2] * m[7] - m[1] * m[8], m[1] * m[5] - m[2] * m[4], m[5] * m[6] - m[3] * m[8], m[0] * m[8] - m[2] * m[6], m[2] * m[3] - m[0] * m[5], m[3] * m[7] - m[4] * m[6], m[1] * m[6] - m[0] * m[7], m[0] * m[4] - m[1] * m[3]];
    let det = m[0] * a[0] + m[1] * a[3] + m[2] * a[6]; away(det, 0.1); let mut n = a; for i in 0..9 { n[i] = a[i] / det; }
    let (p, q) = (T::wide(0.5, 2.0), T::wide(-1.0, 1.0)); let w = white();
    (ColorSpaceRGB::new_with_specified_matrices(w, w, w, w, Matrix33 { x: n }, Matrix33 { x: m }, Box::new(move |c: RGBf<T>| RGBf { r: c.r * p, g: c.g + q, b: c.r - c.b }), Box::new(move |c: RGBf<T>| RGBf { r: c.r + q, g: c.g * p, b: c.b - c.g })), T::one() / det.abs())
}
fn trip<T: Fl>() {
    let (cs, s) = space::<T>(); let w = white(); let c = rgb::<T>(-2.0, 2.0);
    let r = xyz_to_rgb(&xyz_to_rgb_matrix(w, &cs), rgb_to_xyz(&rgb_to_xyz_matrix(w, &cs), c)); let sc = T::c(1e5) * (s + T::one());
    eq("RGB -> XYZ -> RGB returns the colour, R", r.r, c.r, sc); eq("RGB -> XYZ -> RGB returns the colour, G", r.g, c.g, sc); eq("RGB -> XYZ -> RGB returns the colour, B", r.b, c.b, sc);
    let x = rgb_to_xyz(&cs.xf_rgb_to_xyz, c); let m = cs.xf_rgb_to_xyz.x; let h = T::c(100.0); let sc = T::c(3e4);
    eq("rgb_to_xyz applies the matrix on the 0-100 scale, X", x.x, (m[0] * c.r + m[1] * c.g + m[2] * c.b) * h, sc); eq("rgb_to_xyz applies the matrix on the 0-100 scale, Y", x.y, (m[3] * c.r + m[4] * c.g + m[5] * c.b) * h, sc); eq("rgb_to_xyz applies the matrix on the 0-100 scale, Z", x.z, (m[6] * c.r + m[7] * c.g + m[8] * c.b) * h, sc);
    let v = XYZ::new(c.r * h, c.g * h, c.b * h); let y = xyz_to_rgb(&cs.xf_rgb_to_xyz, v); let sc = T::c(300.0);
    eq("xyz_to_rgb applies the matrix from the 0-100 scale, R", y.r, x.x / h, sc); eq("xyz_to_rgb applies the matrix from the 0-100 scale, G", y.g, x.y / h, sc); eq("xyz_to_rgb applies the matrix from the 0-100 scale, B", y.b, x.z / h, sc);
}
fn mats<T: Fl>() {
    let (cs, s) = space::<T>(); let w = white(); let sc = T::c(1e4) * (s + T::one());
    let (a, b) = (xyz_to_rgb_matrix(w, &cs), cs.xf_xyz_to_rgb * cat02(w, cs.white)); let (c, d) = (rgb_to_xyz_matrix(w, &cs), cat02(cs.white, w) * cs.xf_rgb_to_xyz);
    let cat = Matrix33 { x: [T::wide(-2.0, 2.0), T::wide(-2.0, 2.0), T::wide(-2.0, 2.0), T::wide(-2.0, 2.0), T::wide(-2.0, 2.0), T::wide(-2.0, 2.0), T::wide(-2.0, 2.0), T::wide(-2.0, 2.0), T::wide(-2.0, 2.0)] };
    let (e, f) = (xyz_to_rgb_matrix_with_cat(&cat, &cs), cs.xf_xyz_to_rgb * cat);
    for i in 0..9 { eq("XYZ to RGB adapts from the XYZ white to the space's white first", a.x[i], b.x[i], sc); eq("RGB to XYZ adapts from the space's white to the XYZ white last", c.x[i], d.x[i], sc); eq("XYZ to RGB with a given adaptation uses it", e.x[i], f.x[i], sc); }
}
fn between<T: Fl>() {
    let ((a, s), (b, r)) = (space::<T>(), space::<T>()); let m = rgb_to_rgb_matrix(&a, &b); let sc = T::c(1e5) * (s + T::one()) * (r + T::one());
    let n = b.xf_xyz_to_rgb * (cat02(a.white, b.white) * a.xf_rgb_to_xyz);
    for i in 0..9 { eq("RGB to RGB is RGB to XYZ, adaptation, XYZ to RGB", m.x[i], n.x[i], sc); }
}
fn via<T: Fl>() { // through XYZ of any other white
    let ((a, s), (b, r)) = (space::<T>(), space::<T>()); let w = white(); assume_ne(w.Y, a.white.Y); assume_ne(w.Y, b.white.Y); assume_ne(a.white.Y, b.white.Y); let m = rgb_to_rgb_matrix(&a, &b); let n = xyz_to_rgb_matrix(w, &b) * rgb_to_xyz_matrix(w, &a); let sc = T::c(1e6) * (s + T::one()) * (r + T::one());
    for i in 0..9 { eq("RGB to RGB equals going through XYZ of any white", m.x[i], n.x[i], sc); }
}
fn slice<T: Fl>() {
    let n = len(130); let mut m = [T::zero(); 9]; for i in 0..9 { m[i] = T::wide(-3.0, 3.0); } let m = Matrix33 { x: m };
    let v: Vec<XYZ<T>> = (0..n).map(|_| XYZ::new(T::wide(-100.0, 200.0), T::wide(-100.0, 200.0), T::wide(-100.0, 200.0))).collect();
    let r = xyz_slice_to_rgb(&m, &v); check("a slice gives one colour per input", r.len() == n); let sc = T::c(20.0);
    for i in 0..n { let e = xyz_to_rgb(&m, v[i]); eq("a slice converts each element like a single one, R", r[i].r, e.r, sc); eq("a slice converts each element like a single one, G", r[i].g, e.g, sc); eq("a slice converts each element like a single one, B", r[i].b, e.b, sc); }
}
/// two lengths, mostly different
fn two_lens() -> (usize, usize) { const P: [(usize, usize); 10] = [(17, 17), (16, 33), (33, 16), (64, 65), (65, 64), (100, 3), (3, 100), (256, 256), (257, 256), (256, 257)]; match case(if symbolic() { 3 } else { 4 }) { 0 => (case(9), case(9)), 1 => P[case(10)], 2 => { let n = len(20); (n, n) } _ => (len(20), len(20)) } }
fn slice_rgb<T: Fl>() {
    let (n, l) = two_lens(); let ((a, s), (b, t)) = (space::<T>(), space::<T>()); let xf = rgb_to_rgb_matrix(&a, &b); let sc = T::c(1e5) * (s + T::one()) * (t + T::one());
    let from: Vec<RGBf<T>> = (0..n).map(|_| rgb(-1.0, 1.0)).collect(); let init: Vec<RGBf<T>> = (0..l).map(|_| rgb(-1.0, 1.0)).collect(); let mut to = init.clone();
    let c = rgb_to_rgb(&a, &b, &from, &mut to); let w = n.min(l); check("converting a slice returns the shorter length", c == w);
    for i in 0..w { let e = b.encode(xf * a.decode(from[i])); eq("each pixel is decoded, converted and encoded, R", to[i].r, e.r, sc); eq("each pixel is decoded, converted and encoded, G", to[i].g, e.g, sc); eq("each pixel is decoded, converted and encoded, B", to[i].b, e.b, sc); }
    for i in w..l { check("outputs past the shorter length stay untouched", to[i].r == init[i].r && to[i].g == init[i].g && to[i].b == init[i].b); }
}
/// the same into integer pixels, between built-in spaces
fn slice_u8() {
    if symbolic() { return; } // quantisation is C13's; here the built-in spaces are run natively
    let (n, l) = (len(9), len(9)); let (a, b) = (&*model_f64::SRGB, [&*model_f64::ITUR_BT2020, &*model_f64::ALEXA_WIDE_GAMUT, &*model_f64::SRGB, &*model_f64::ACES][case(4)]);
    let from: Vec<RGBf<f64>> = (0..n).map(|_| rgb(0.0, 1.0)).collect(); let mut to = vec![RGBu8 { r: 7, g: 8, b: 9 }; l];
    let c = rgb_to_rgb(a, b, &from, &mut to); let w = n.min(l); check("converting a slice returns the shorter length", c == w); let xf = rgb_to_rgb_matrix(a, b);
    for i in 0..w { let e: RGBu8 = b.encode(xf * a.decode(from[i])).into(); check("each pixel is decoded, converted, encoded and quantised", (to[i].r as i32 - e.r as i32).abs() <= 1 && (to[i].g as i32 - e.g as i32).abs() <= 1 && (to[i].b as i32 - e.b as i32).abs() <= 1); }
    for i in w..l { check("outputs past the shorter length stay untouched", to[i].r == 7 && to[i].g == 8 && to[i].b == 9); }
}
#[no_mangle] pub fn c07_trip_f64() { trip::<f64>() }
#[no_mangle] pub fn c07_trip_f32() { trip::<f32>() }
#[no_mangle] pub fn c07_matrices_f64() { mats::<f64>() }
#[no_mangle] pub fn c07_matrices_f32() { mats::<f32>() }
#[no_mangle] pub fn c07_between_f64() { between::<f64>() }
#[no_mangle] pub fn c07_between_f32() { between::<f32>() }
#[no_mangle] pub fn c07_via_f64() { via::<f64>() }
#[no_mangle] pub fn c07_slice_f64() { slice::<f64>() }
#[no_mangle] pub fn c07_slice_f32() { slice::<f32>() }
#[no_mangle] pub fn c07_rgb_slice_f64() { slice_rgb::<f64>() }
#[no_mangle] pub fn c07_rgb_slice_f32() { slice_rgb::<f32>() }
#[no_mangle] pub fn c07_native_u8() { slice_u8() }

/// long slices, natively: as the short ones
fn native_long<T: Fl>() {
    if symbolic() { return; } let n = long(); let mut m = [T::zero(); 9]; for i in 0..9 { m[i] = T::any(-3.0, 3.0); } let m = Matrix33 { x: m }; let (x, y, z) = (ramp::<T>(n, -100.0, 200.0), ramp::<T>(n, -100.0, 200.0), ramp::<T>(n, -100.0, 200.0));
    let v: Vec<XYZ<T>> = (0..n).map(|i| XYZ::new(x[i], y[i], z[i])).collect(); let r = xyz_slice_to_rgb(&m, &v); check("a slice gives one colour per input", r.len() == n); let sc = T::c(20.0);
    for i in 0..n { let e = xyz_to_rgb(&m, v[i]); eq("a slice converts each element like a single one, R", r[i].r, e.r, sc); eq("a slice converts each element like a single one, G", r[i].g, e.g, sc); eq("a slice converts each element like a single one, B", r[i].b, e.b, sc); }
    let ((a, s), (b, t)) = (space::<T>(), space::<T>()); let xf = rgb_to_rgb_matrix(&a, &b); let sc = T::c(1e5) * (s + T::one()) * (t + T::one()); let l = if case(2) == 0 { n } else { n - 1 - case(60) };
    let from: Vec<RGBf<T>> = (0..n).map(|i| RGBf { r: x[i] / T::c(200.0), g: y[i] / T::c(200.0), b: z[i] / T::c(200.0) }).collect(); let q = RGBf { r: T::c(7.0), g: T::c(8.0), b: T::c(9.0) }; let mut to = vec![q; n.max(l)]; let (f, g) = if case(2) == 0 { (n, l) } else { (l, n) };
    let c = rgb_to_rgb(&a, &b, &from[..f], &mut to[..g]); check("converting a slice returns the shorter length", c == l.min(n));
    for i in 0..c { let e = b.encode(xf * a.decode(from[i])); eq("each pixel is decoded, converted and encoded, R", to[i].r, e.r, sc); eq("each pixel is decoded, converted and encoded, G", to[i].g, e.g, sc); eq("each pixel is decoded, converted and encoded, B", to[i].b, e.b, sc); }
    for i in c..n { check("outputs past the shorter length stay untouched", to[i].r == q.r && to[i].g == q.g && to[i].b == q.b); }
}
#[no_mangle] pub fn c07_native_long() { if case(2) == 0 { native_long::<f64>() } else { native_long::<f32>() } }
