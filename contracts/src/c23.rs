//! C23: photometric luminance
use crate::spd::*; use crate::vp::*;
use colorspace::cmf::{CIE_1931_2_DEGREE, CMF}; use colorspace::photometry::spd_to_nit; use colorspace::vspd::VSPD;
/// uniformly sampled spectra overlapping the table (360-830 nm at 1 nm)
fn grid() -> (f64, f64, usize) {
    const G: [(f64, f64, usize); 12] = [(380.0, 10.0, 36), (400.0, 5.0, 61), (555.0, 1.0, 11), (360.0, 10.0, 48), (340.0, 10.0, 52), (300.0, 20.0, 30), (820.0, 5.0, 8), (350.0, 5.0, 5), (500.0, 2.5, 21), (380.0, 7.0, 40), (555.0, 1.0, 2), (355.0, 10.0, 49)];
    if symbolic() && case(2) == 1 { return ([345.5, 350.0, 360.0, 362.0, 500.0, 700.5, 825.0][case(7)], [0.5, 1.0, 2.0, 2.5, 5.0, 7.0, 10.0, 33.5][case(8)], [2, 9, 24][case(3)]); }
    if symbolic() || case(2) == 0 { G[case(12)] } else { (300.0 + 0.5 * case(900) as f64, [1.0, 2.0, 2.5, 5.0, 10.0, 0.5 * (1 + case(60)) as f64][case(6)], 2 + case(100)) }
}
/// luminous efficiency at x, read from the table without any resampling where it lists x
fn eff(c: &VSPD, x: f64) -> f64 { for s in c.samples() { if s.nm == x { return s.v; } } c.align(shape(x, x, 1.0)).samples()[0].v }
/// beyond the table the efficiency stays what it is at the spectrum's outermost sample inside it
#[no_mangle] pub fn c23_definition() {
    let (s, h, n) = grid(); let v = vals(n); let x = uni(s, h, &v); let nm: Vec<f64> = (0..n).map(|i| s + i as f64 * h).collect(); let (lo, hi) = match (nm.iter().position(|x| *x >= 360.0), nm.iter().rposition(|x| *x <= 830.0)) { (Some(a), Some(b)) if a <= b => (a, b), _ => { assume(false); return; } };
    let mut a = 0.0; for i in 0..n { a += v[i] * eff(&CIE_1931_2_DEGREE.y_bar, nm[i.max(lo).min(hi)]); }
    eq("683 times the mean over the spectrum's samples of value times efficiency", spd_to_nit(&x, &CIE_1931_2_DEGREE), 683.0 * a / n as f64, 1e5);
}
#[no_mangle] pub fn c23_linear() {
    let (s, h, n) = grid(); let e = s + (n as f64 - 1.0) * h; assume(s <= 830.0 && e >= 360.0 && (0..n).any(|i| { let x = s + i as f64 * h; x >= 360.0 && x <= 830.0 })); let (v, w, k) = (vals(n), vals(n), f64::wide(-10.0, 10.0)); let m: Vec<f64> = (0..n).map(|i| k * v[i] + w[i]).collect(); let f = |v: &[f64]| spd_to_nit(&uni(s, h, v), &CIE_1931_2_DEGREE);
    eq("linear in the spectrum", f(&m), k * f(&v) + f(&w), 1e7); eq("zero for the zero spectrum", f(&vec![0.0; n]), 0.0, 0.0);
}
#[no_mangle] pub fn c23_non_negative() {
    let (s, h, n) = grid(); let e = s + (n as f64 - 1.0) * h; assume(s <= 830.0 && e >= 360.0 && (0..n).any(|i| { let x = s + i as f64 * h; x >= 360.0 && x <= 830.0 })); let v: Vec<f64> = (0..n).map(|_| f64::any(0.0, 10.0)).collect(); le("non-negative for non-negative spectra", 0.0, spd_to_nit(&uni(s, h, &v), &CIE_1931_2_DEGREE), 1.0);
}
/// any efficiency table on any wavelengths: only y_bar counts, every sample is weighted by the value at its wavelength
#[no_mangle] pub fn c23_any_table() {
    let n = 6 + case(3); let (o, u) = (f64::any(100.0, 500.0), f64::any(1.0, 20.0)); let (y, z) = (vals(n), vals(n)); let c = CMF { x_bar: uni(o, u, &z), y_bar: uni(o, u, &y), z_bar: uni(o, u, &z) };
    let (i0, h, m) = [(0, 1, 6), (-2, 1, 12), (1, 2, 3), (2, 1, 2), (-1, 3, 4), (0, 5, 2), (4, 1, 9)][case(7)]; let v = vals(m); let x = uni(o + i0 as f64 * u, h as f64 * u, &v); let at = |i: usize| i0 + h * i as i32;
    let ins: Vec<usize> = (0..m).filter(|&i| at(i) >= 0 && at(i) < n as i32).collect(); let (lo, hi) = (ins[0], ins[ins.len() - 1]); let mut a = 0.0; for i in 0..m { a += v[i] * y[at(i.max(lo).min(hi)) as usize]; } eq("every sample is weighted by the table's value at its wavelength", spd_to_nit(&x, &c), 683.0 * a / m as f64, 1e6);
}
