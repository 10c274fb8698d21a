//! C01 / C02: 3x3 matrices
use crate::vp::*;
use colorspace::math::Matrix33;
fn anym<T: Fl>() -> Matrix33<T> { let mut x = [T::zero(); 9]; for i in 0..9 { x[i] = T::anyv(); } let k = magnitude::<T>(); if !symbolic() { for i in 0..9 { x[i] = x[i] * k; } } Matrix33::new(x) }
fn mag<T: Fl>(m: &Matrix33<T>) -> T { let mut s = T::zero(); if symbolic() { return s; } for i in 0..9 { s = s + m.x[i].abs() } s }
fn det<T: Fl>(m: &Matrix33<T>) -> T { let x = &m.x; x[0] * x[4] * x[8] + x[1] * x[5] * x[6] + x[2] * x[3] * x[7] - x[2] * x[4] * x[6] - x[1] * x[3] * x[8] - x[0] * x[5] * x[7] }
fn cofs<T: Fl>(m: &Matrix33<T>) -> [T; 9] { let x = &m.x; let c = |a: usize, b: usize, c: usize, d: usize| (x[a] * x[b] - x[c] * x[d]).abs(); [c(4, 8, 5, 7), c(3, 8, 5, 6), c(3, 7, 4, 6), c(1, 8, 2, 7), c(0, 8, 2, 6), c(0, 7, 1, 6), c(1, 5, 2, 4), c(0, 5, 2, 3), c(0, 4, 1, 3)] }
fn is_inverse<T: Fl>(m: &Matrix33<T>, v: &Matrix33<T>, work: T) {
    let sc = mag(m) * mag(v) * work;
    for i in 0..3 { for j in 0..3 {
        let (mut l, mut r) = (T::zero(), T::zero());
        for k in 0..3 { l = l + m.x[i * 3 + k] * v.x[k * 3 + j]; r = r + v.x[i * 3 + k] * m.x[k * 3 + j]; }
        let d = if i == j { T::one() } else { T::zero() };
        eq("M * inverse(M) = identity", l, d, sc); eq("inverse(M) * M = identity", r, d, sc);
    } }
}
fn inverse<T: Fl>(gj: bool) {
    let mut m = anym::<T>(); let (z, o) = (T::zero(), T::one());
    // natively also: shapes whose zero patterns drive special cases, and matrices that are exactly singular
    match case(if symbolic() { 1 } else { 8 }) { 0 => {} 1 => { m.x[2] = z; m.x[5] = z; m.x[8] = o; } 2 => m.x[0] = z, 3 => m.x[8] = o, 4 => { m.x[0] = z; m.x[4] = z; } 5 => { m.x[0] = z; m.x[3] = z; } 6 => { for i in 0..9 { m.x[i] = z; } let k = case(9); if case(2) > 0 { m.x[k] = o; } } _ => { for i in 0..6 { m.x[i] = T::c(case(9) as f64 - 4.0); } for i in 0..3 { m.x[6 + i] = m.x[i] + m.x[3 + i]; } if !gj { check("a singular matrix has no inverse", m.inverse().is_none()); return; } } }
    let r = if gj { m.gj_inverse() } else { m.inverse() };
    let d = det(&m); let c = cofs(&m); let mut cs = T::zero(); for i in 0..9 { cs = cs + c[i]; }
    match r {
        Some(v) => {
            let w = if symbolic() { T::one() } else { let k = cs * mag(&m) / d.abs(); if k.is_finite() && k < T::c(0.01 / T::EPS) { k + T::one() } else { return; } };
            check("a singular matrix has no inverse", symbolic() && d != T::zero() || !symbolic());
            is_inverse(&m, &v, w);
        }
        None => le("no result only for a singular matrix", d.abs(), if symbolic() { T::c(1e-30) * (cs + T::one()) } else { T::c(1e-30) * cs + T::min_positive_value() * T::c(4.0) }, cs * mag(&m)),
    }
}
#[no_mangle] pub fn c01_inverse_f64() { inverse::<f64>(false) }
#[no_mangle] pub fn c01_inverse_f32() { inverse::<f32>(false) }
#[no_mangle] pub fn c01_gj_inverse_f64() { inverse::<f64>(true) }
#[no_mangle] pub fn c01_gj_inverse_f32() { inverse::<f32>(true) }
