//! C19: the fixed-size spectrum type
use crate::vp::*;
use colorspace::spd::{spd_to_xyz, spd_to_xyz_scalar, SPD, SPD_END, SPD_INTERVAL, SPD_SAMPLES, SPD_START, W_X, W_Y, W_Z};
fn vals() -> [f32; 40] { let mut v = [0f32; 40]; for x in v.iter_mut() { *x = f32::wide(-100.0, 100.0); } v }
fn dot(v: &[f32; 40], w: &SPD) -> (f32, f32) { let (mut s, mut a) = (0f64, 0f64); for i in 0..40 { s += v[i] as f64 * w.values[i] as f64; a += (v[i] as f64 * w.values[i] as f64).abs(); } (s as f32, if symbolic() { 1.0 } else { a as f32 }) }
#[no_mangle] pub fn c19_weighted_sum() {
    let v = vals(); let s = SPD::new(v); let r = s.to_xyz(); let ((x, ax), (y, ay), (z, az)) = (dot(&v, &W_X), dot(&v, &W_Y), dot(&v, &W_Z));
    eq("X is the sum of all samples weighted by W_X", r.x, x, ax); eq("Y is the sum of all samples weighted by W_Y", r.y, y, ay); eq("Z is the sum of all samples weighted by W_Z", r.z, z, az);
    let q = spd_to_xyz_scalar(&s); eq("the scalar path agrees, X", q.x, x, ax); eq("the scalar path agrees, Y", q.y, y, ay); eq("the scalar path agrees, Z", q.z, z, az);
    let q = spd_to_xyz(&s); eq("the dispatching function agrees, X", q.x, x, ax); eq("the dispatching function agrees, Y", q.y, y, ay); eq("the dispatching function agrees, Z", q.z, z, az);
    #[cfg(target_feature = "avx")] { let q = colorspace::spd::spd_to_xyz_avx(&s); eq("the vector path agrees, X", q.x, x, ax); eq("the vector path agrees, Y", q.y, y, ay); eq("the vector path agrees, Z", q.z, z, az); }
}
#[no_mangle] pub fn c19_operators() {
    let (v, w, c) = (vals(), vals(), f32::wide(-100.0, 100.0)); let (a, b) = (SPD::new(v), SPD::new(w)); let p = &a * &b; let k = SPD::constant(c);
    check("forty samples from 380 to 770 nm", SPD_SAMPLES == 40 && SPD_START + 39.0 * SPD_INTERVAL == SPD_END && SPD_START == 380.0 && SPD_END == 770.0 && p.values.len() == 40);
    for i in 0..40 { eq("multiplication multiplies every sample", p.values[i], v[i] * w[i], 1e4); eq("the constructor keeps every sample", a.values[i], v[i], 0.0); eq("the constant fills every sample", k.values[i], c, 0.0); }
    check("iteration visits every sample in order", a.iter().count() == 40 && a.iter().zip(v.iter()).all(|(x, y)| std::ptr::eq(x, y) || x == y));
    let mut m = a.clone(); for (i, x) in m.iter_mut().enumerate() { *x = w[i]; } for i in 0..40 { eq("mutable iteration reaches every sample", m.values[i], w[i], 0.0); }
    // linearity of the conversion over the operators
    let (ra, rb) = (a.to_xyz(), b.to_xyz()); let mut s = v; for i in 0..40 { s[i] = v[i] * c + w[i]; } let rs = SPD::new(s).to_xyz(); let sc = 2e6;
    eq("to_xyz is linear, X", rs.x, ra.x * c + rb.x, sc); eq("to_xyz is linear, Y", rs.y, ra.y * c + rb.y, sc); eq("to_xyz is linear, Z", rs.z, ra.z * c + rb.z, sc);
}
/// equality looks at every sample
#[no_mangle] pub fn c19_equality() {
    let v = vals(); let a = SPD::new(v); check("a spectrum equals its copy", a == a.clone() && a == SPD::new(v)); let i = case(40); let d = f32::wide(-100.0, 100.0); assume_ne(d, v[i]); let mut w = v; w[i] = d; check("spectra that differ in one sample are different", a != SPD::new(w) && SPD::new(w) != a);
}
#[no_mangle] pub fn c19_white() {
    let r = SPD::constant(1.0).to_xyz(); near("the perfect diffuser has Y = 100", r.y, 100.0, 5e-3, 100.0); near("the perfect diffuser has the D65 X", r.x, 95.047, 2e-2, 100.0); near("the perfect diffuser has the D65 Z", r.z, 108.883, 4e-2, 100.0);
}
/// the tabulated weights are those of the reference path: D65 and the CIE 1931 observer through the varying-length type
#[no_mangle] pub fn c19_agrees_with_vspd() {
    use colorspace::vspd::{SpdShape, VSPD}; let i = case(40); let a = f32::any(-100.0, 100.0); let mut v = [0f32; 40]; v[i] = a; let mut w = vec![0f64; 40]; w[i] = 1.0;
    let r = SPD::new(v).to_xyz(); let q = VSPD::from_values(SpdShape::new(380.0, 770.0, 10.0), &w).to_xyz(&colorspace::illuminant::spd::D65, &colorspace::cmf::CIE_1931_2_DEGREE); let a = a as f64;
    near("agrees with the reference conversion under D65, X", r.x as f64, q.x * a, 2e-4, 1e3); near("agrees with the reference conversion under D65, Y", r.y as f64, q.y * a, 2e-4, 1e3); near("agrees with the reference conversion under D65, Z", r.z as f64, q.z * a, 2e-4, 1e3);
}
/// the two zeros are equal, a NaN equals nothing, natively
#[no_mangle] pub fn c19_native_zeros() { if symbolic() { return; } check("the two zeros are equal", SPD::constant(0.0) == SPD::constant(-0.0) && !(SPD::constant(0.0) != SPD::constant(-0.0))); let mut v = vals(); let i = case(40); v[i] = 0.0; let a = SPD::new(v); v[i] = -0.0; let b = SPD::new(v); check("the two zeros are equal in any sample", a == b && b == a); v[i] = f32::NAN; let c = SPD::new(v); check("a NaN equals nothing", c != a && c != c.clone()); }
