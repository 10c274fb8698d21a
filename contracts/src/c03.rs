//! C03: chromatic adaptation
use crate::vp::*;
use colorspace::chromatic_adaptation::{bradford, cat02, von_kries};
use colorspace::math::Matrix33;
use colorspace::chromaticity::XYY; use colorspace::xyz::XYZ;
pub const A: [[f64; 9]; 3] = [
    [0.8951, 0.2664, -0.1614, -0.7502, 1.7135, 0.0367, 0.0389, -0.0685, 1.0296],
    [0.40024, 0.7076, -0.08081, -0.2263, 1.16532, 0.0457, 0.0, 0.0, 0.91822],
    [0.7328, 0.4296, -0.1624, -0.7036, 1.6975, 0.0061, 0.003, 0.0136, 0.9834]];
fn cat<T: Fl>(k: usize, s: XYZ<T>, d: XYZ<T>) -> Matrix33<T> { match k { 0 => bradford(s, d), 1 => von_kries(s, d), _ => cat02(s, d) } }
pub fn cone<T: Fl>(k: usize, w: XYZ<T>) -> [T; 3] { let a = |i: usize| T::c(A[k][i]); [a(0) * w.x + a(1) * w.y + a(2) * w.z, a(3) * w.x + a(4) * w.y + a(5) * w.z, a(6) * w.x + a(7) * w.y + a(8) * w.z] }
/// a white point: any tristimulus value, of any magnitude, whose cone responses (of either sign) are not degenerate (natively: at least 1% of its sum)
fn white<T: Fl>(k: usize) -> (XYZ<T>, [T; 3]) {
    if k == 1 { // its inverse is rounded
        let w = XYZ::new(T::any(20.0, 200.0), T::any(50.0, 150.0), T::any(5.0, 200.0)); let c = cone(k, w); for i in 0..3 { assume_le(T::c(5.0), c[i]); assume_le(c[i], T::c(400.0)); } return (w, c);
    }
    let w = XYZ::new(T::wide(5.0, 300.0), T::wide(5.0, 200.0), T::wide(5.0, 300.0)); let c = cone(k, w);
    for i in 0..3 { if symbolic() { assume_ne(c[i], T::zero()) } else { assume_le(T::c(0.01) * (w.x.abs() + w.y.abs() + w.z.abs()), c[i].abs()) } } (w, c)
}
/// whites with a negative first or second cone response (saturated blues and reds), natively
fn saturated<T: Fl>() { if symbolic() { return; } let k = 2 * case(2); let w = |_: u32| { let b = case(3) as f64; let w = XYZ::new(T::any(2.0, 50.0), T::any(2.0, 50.0), T::any(2.0, 50.0)); if b == 0.0 { XYZ::new(w.x, w.y, w.z + T::c(300.0)) } else if b == 1.0 { XYZ::new(w.x + T::c(300.0), w.y, w.z) } else { XYZ::new(w.x, w.y + T::c(100.0), w.z) } };
    let (s, d) = (w(0), w(1)); let (cs, cd) = (cone(k, s), cone(k, d)); for i in 0..3 { assume_le(T::c(2.0), cs[i].abs()); assume_le(T::c(2.0), cd[i].abs()); }
    let m = cat(k, s, d); let r = m * s; let sc = T::c(2e4); eq("source white goes to destination white, X", r.x, d.x, sc); eq("source white goes to destination white, Y", r.y, d.y, sc); eq("source white goes to destination white, Z", r.z, d.z, sc); }
fn exact<T: Fl>(k: usize) {
    let ((s, cs), (d, cd)) = (white::<T>(k), white::<T>(k));
    let m = cat(k, s, d); let w = m * s; let sc = T::c(3000.0);
    eq("source white goes to destination white, X", w.x, d.x, sc); eq("source white goes to destination white, Y", w.y, d.y, sc); eq("source white goes to destination white, Z", w.z, d.z, sc);
    let sc = T::c(100.0);
    for i in 0..3 { for j in 0..3 { let mut l = T::zero(); for q in 0..3 { l = l + T::c(A[k][3 * i + q]) * m.x[3 * q + j]; } eq("the matrix only scales the cone responses", l, cd[i] / cs[i] * T::c(A[k][3 * i + j]), sc); } }
    let back = cat(k, d, s); let p = back * m; let id = Matrix33::<T>::make_identity();
    for i in 0..9 { eq("adapting there and back cancels", p.x[i], id.x[i], T::c(5000.0)); }
}
fn via<T: Fl>(k: usize) {
    let ((s, _), (d, _), (v, _)) = (white::<T>(k), white::<T>(k), white::<T>(k));
    let l = cat(k, v, d) * cat(k, s, v); let r = cat(k, s, d);
    for i in 0..9 { eq("adapting via an intermediate white equals adapting directly", l.x[i], r.x[i], T::c(5000.0)); }
}
fn vonkries<T: Fl>() {
    let ((s, cs), (d, cd)) = (white::<T>(1), white::<T>(1));
    let m = von_kries(s, d); let sc = T::c(100.0);
    for i in 0..3 { for j in 0..3 { let mut l = T::zero(); for q in 0..3 { l = l + T::c(A[1][3 * i + q]) * m.x[3 * q + j]; } near("von Kries only scales the cone responses, to its published digits", l, cd[i] / cs[i] * T::c(A[1][3 * i + j]), 2e-5, sc); } }
}
fn vonkries_white<T: Fl>() { // in the practical range of whites
    let w = |_: u32| XYZ::new(T::any(85.0, 112.0), T::any(95.0, 105.0), T::any(30.0, 150.0)); let (s, d) = (w(0), w(1));
    let m = von_kries(s, d); let r = m * s; let sc = T::c(1000.0);
    near("von Kries: source white goes to destination white, X", r.x, d.x, 2e-4, sc); near("von Kries: source white goes to destination white, Y", r.y, d.y, 2e-4, sc); near("von Kries: source white goes to destination white, Z", r.z, d.z, 2e-4, sc);
}
fn identical<T: Fl>() {
    let k = case(3); let w = XYZ::new(T::anyv(), T::anyv(), T::anyv()); let m = cat(k, w, w); let id = Matrix33::<T>::make_identity();
    for i in 0..9 { check("adapting between identical whites is exactly the identity", m.x[i] == id.x[i]); }
}
/// whites given as chromaticities mean the same as whites given as tristimulus values
fn as_xyy<T: Fl>() {
    let w = |_: u32| XYY::new(T::any(0.2, 0.5), T::any(0.2, 0.5), T::any(0.5, 1.5)); let (s, d) = (w(0), w(1)); let k = case(3);
    let t = |c: XYY<T>| { let h = T::c(100.0); XYZ::new(c.x / c.y * c.Y * h, c.Y * h, (T::one() - c.x - c.y) / c.y * c.Y * h) };
    let (cs, cd) = (cone(k, t(s)), cone(k, t(d))); for i in 0..3 { assume_le(T::c(1.0), cs[i]); assume_le(T::c(1.0), cd[i]); }
    let l = match k { 0 => bradford(s, d), 1 => von_kries(s, d), _ => cat02(s, d) };
    let r = cat(k, t(s), t(d));
    if !symbolic() && (s.x == d.x && s.y == d.y && s.Y == d.Y) { return; }
    for i in 0..9 { eq("whites given as xyY or as XYZ mean the same", l.x[i], r.x[i], T::c(50000.0)); }
}
#[no_mangle] pub fn c03_bradford_f64() { exact::<f64>(0) }
#[no_mangle] pub fn c03_bradford_f32() { exact::<f32>(0) }
#[no_mangle] pub fn c03_cat02_f64() { exact::<f64>(2) }
#[no_mangle] pub fn c03_cat02_f32() { exact::<f32>(2) }
#[no_mangle] pub fn c03_bradford_via_f64() { via::<f64>(0) }
#[no_mangle] pub fn c03_cat02_via_f64() { via::<f64>(2) }
#[no_mangle] pub fn c03_von_kries_f64() { vonkries::<f64>() }
#[no_mangle] pub fn c03_von_kries_f32() { vonkries::<f32>() }
#[no_mangle] pub fn c03_von_kries_white_f64() { vonkries_white::<f64>() }
#[no_mangle] pub fn c03_von_kries_white_f32() { vonkries_white::<f32>() }
#[no_mangle] pub fn c03_identical_f64() { identical::<f64>() }
#[no_mangle] pub fn c03_identical_f32() { identical::<f32>() }
#[no_mangle] pub fn c03_as_xyy_f64() { as_xyy::<f64>() }
#[no_mangle] pub fn c03_native_saturated() { if symbolic() { return; } if case(2) == 0 { saturated::<f64>() } else { saturated::<f32>() } }
