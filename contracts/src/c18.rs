//! C18: spectrum to XYZ
use crate::spd::*; use crate::vp::*;
use colorspace::cmf::{CIE_1931_2_DEGREE, CMF}; use colorspace::illuminant; use colorspace::vspd::VSPD; use colorspace::XYZf64;
/// wavelengths of a measured spectrum: fixed grids for the verifier, also arbitrary ones natively
fn grid() -> Vec<f64> {
    const U: [(f64, f64, usize); 15] = [(380.0, 10.0, 36), (360.0, 10.0, 43), (350.0, 10.0, 46), (400.0, 10.0, 31), (405.0, 10.0, 30), (400.0, 20.0, 16), (380.0, 20.0, 21), (400.0, 5.0, 61), (380.0, 5.0, 81), (350.0, 5.0, 91), (540.0, 1.0, 21), (420.0, 7.0, 31), (500.0, 2.5, 17), (380.0, 10.5, 35), (450.0, 10.0, 2)];
    let k = case(if symbolic() { 17 } else { 20 });
    if k < 15 { let (s, h, n) = U[k]; (0..n).map(|i| s + i as f64 * h).collect() } else if k == 15 { vec![400.0, 405.0, 415.0, 420.0, 440.0, 441.0, 450.0, 470.0, 500.0, 550.0, 620.0, 680.0] } else if k == 16 { (0..31).map(|i| 400.0 + 10.0 * i as f64 + if i == 30 { 5.0 } else { 0.0 }).collect() }
    else { let n = 2 + case(60); let s = 340.0 + 0.5 * case(400) as f64; let h = [1.0, 2.5, 5.0, 10.0, 20.0, 0.5 * (1 + case(60)) as f64][case(6)]; let odd = case(3 * n as u32); let mut nm = vec![s]; for i in 1..n { let l = nm[i - 1]; nm.push(l + if i == odd { 1.5 * h } else { h }); } assume(nm[0] <= 779.0 && nm[n - 1] >= 361.0 && nm[n - 1] - nm[0] >= 30.0); nm }
}
/// any positive illuminant given every nanometre
fn anylamp() -> VSPD { let v: Vec<f64> = (0..V).map(|_| f64::any(0.1, 10.0)).collect(); uni(360.0, 1.0, &v) }
fn lamp() -> &'static VSPD { match case(4) { 0 => &illuminant::spd::D65, 1 => &illuminant::spd::D50, 2 => &illuminant::spd::D55, _ => &illuminant::spd::D60 } }
fn same(l: &'static str, a: XYZf64, b: XYZf64, sc: f64) { eq(l, a.x, b.x, sc); eq(l, a.y, b.y, sc); eq(l, a.z, b.z, sc); }
fn close(l: &'static str, a: XYZf64, b: XYZf64, tol: f64) { near(l, a.x, b.x, tol, 1e3); near(l, a.y, b.y, tol, 1e3); near(l, a.z, b.z, tol, 1e3); }
fn xyz(x: f64, y: f64, z: f64) -> XYZf64 { colorspace::xyz::xyz(x, y, z) }
const V: usize = 421;
/// the defining sum on a given grid of the visible range
fn sum(r: &VSPD, s: &VSPD, cmf: &CMF, h: f64) -> XYZf64 {
    let g = shape(360.0, 780.0, h); let one = shape(360.0, 780.0, 1.0); let (r, s) = (r.align(g), s.align(one).align(g)); let c = |c: &VSPD| c.align(one).align(g); let (cx, cy, cz) = (c(&cmf.x_bar), c(&cmf.y_bar), c(&cmf.z_bar)); let (mut x, mut y, mut z, mut k) = (0.0, 0.0, 0.0, 0.0);
    for i in 0..g.iter().count() { let (r, s) = (r.samples()[i].v, s.samples()[i].v); x += r * s * cx.samples()[i].v; y += r * s * cy.samples()[i].v; z += r * s * cz.samples()[i].v; k += s * cy.samples()[i].v; }
    xyz(100.0 * x / k, 100.0 * y / k, 100.0 * z / k)
}
/// linear in the reflectance, on every grid
#[no_mangle] pub fn c18_linear() {
    let nm = grid(); let n = nm.len(); let s = &if symbolic() || case(2) == 0 { anylamp() } else { lamp().clone() }; let (v, w, k) = (vals(n), vals(n), f64::wide(-10.0, 10.0)); let m: Vec<f64> = (0..n).map(|i| k * v[i] + w[i]).collect();
    let f = |v: &[f64]| list(&nm, v).to_xyz(s, &CIE_1931_2_DEGREE); let (a, b, c) = (f(&v), f(&w), f(&m)); same("linear in the spectrum", c, xyz(k * a.x + b.x, k * a.y + b.y, k * a.z + b.z), 1e7);
}
/// the overall scale of the illuminant does not matter, on every grid and for every reflectance
#[no_mangle] pub fn c18_scale() {
    let nm = grid(); let v = vals(nm.len()); let s = &if symbolic() || case(2) == 0 { anylamp() } else { lamp().clone() }; let k = f64::any(1e-6, 1e6); let r = list(&nm, &v); same("independent of the illuminant's scale", r.to_xyz(&(s * k), &CIE_1931_2_DEGREE), r.to_xyz(s, &CIE_1931_2_DEGREE), 1e6);
}
/// any illuminant (verifier: any positive illuminant given every nanometre): Y of the perfect diffuser is 100 on every grid
#[no_mangle] pub fn c18_diffuser() {
    let nm = grid(); let (s0, h, n) = if symbolic() { (360.0, 1.0, V) } else { [(360.0, 140.0, 4), (380.0, 80.0, 6), (350.0, 60.0, 8), (340.0, 1.0, 471), (360.0, 5.0, 85)][case(5)] }; let v: Vec<f64> = (0..n).map(|_| f64::any(0.1, 10.0)).collect(); let s = uni(s0, h, &v); let one = vec![1.0; nm.len()];
    let r = list(&nm, &one).to_xyz(&s, &CIE_1931_2_DEGREE); eq("the perfect diffuser has Y = 100 under any illuminant", r.y, 100.0, 1e3);
}
/// the built-in illuminants: the diffuser has the listed white on every grid
#[no_mangle] pub fn c18_white() {
    let nm = grid(); let k = case(4); let (s, w): (&VSPD, _) = match k { 0 => (&illuminant::spd::D65, illuminant::xy::D65), 1 => (&illuminant::spd::D50, illuminant::xy::D50), 2 => (&illuminant::spd::D55, illuminant::xy::D55), _ => (&illuminant::spd::D60, illuminant::xy::D60) };
    let r = list(&nm, &vec![1.0; nm.len()]).to_xyz(s, &CIE_1931_2_DEGREE); let t = r.x + r.y + r.z; eq("the perfect diffuser has Y = 100", r.y, 100.0, 1e3); near("the perfect diffuser has the illuminant's listed white, x", r.x / t, w.x, 2e-4, 1.0); near("the perfect diffuser has the illuminant's listed white, y", r.y / t, w.y, 2e-4, 1.0);
}
/// every grid but the 10 nm one: the defining sum at 1 nm (5 nm for 5 nm data)
#[no_mangle] pub fn c18_integral() {
    let nm = grid(); let v = vals(nm.len()); let r = list(&nm, &v); let h = match r.interval() { colorspace::vspd::Interval::Uniform(h) => h, _ => 0.0 }; assume(h != 10.0 || (nm[0] - 360.0) % 10.0 != 0.0); let s = &if symbolic() || case(2) == 0 { anylamp() } else { lamp().clone() };
    same("the defining sum over 360-780 nm", r.to_xyz(s, &CIE_1931_2_DEGREE), sum(&r, s, &CIE_1931_2_DEGREE, if h == 5.0 { 5.0 } else { 1.0 }), 1e5);
}
/// 10 nm data: the sum at 1 nm of the spectrum extended by its end values and interpolated by cubic (in the outermost intervals quadratic) Lagrange polynomials, as ASTM E2022 defines the weights
#[no_mangle] pub fn c18_weights() {
    let nm = grid(); let v = vals(nm.len()); let r = list(&nm, &v); let h = match r.interval() { colorspace::vspd::Interval::Uniform(h) => h, _ => 0.0 }; assume(h == 10.0 && (nm[0] - 360.0) % 10.0 == 0.0); let s = if symbolic() { &*illuminant::spd::D65 } else { lamp() };
    let at = |i: usize| { let x = 360.0 + 10.0 * i as f64; let mut j = 0; for k in 0..nm.len() { if nm[k] <= x { j = k; } } v[j] }; let p: Vec<f64> = (0..43).map(at).collect();
    let lag = |k0: usize, n: usize, x: f64| { let mut a = 0.0; for j in 0..n { let mut l = 1.0; for i in 0..n { if i != j { l *= (x - i as f64) / (j as f64 - i as f64); } } a += l * p[k0 + j]; } a };
    let q: Vec<f64> = (0..V).map(|i| { let (k, d) = (i / 10, (i % 10) as f64 / 10.0); if d == 0.0 { p[k] } else if k == 0 { lag(0, 3, d) } else if k == 41 { lag(40, 3, 1.0 + d) } else { lag(k - 1, 4, 1.0 + d) } }).collect();
    same("10 nm data: the sum with Lagrange interpolation", r.to_xyz(s, &CIE_1931_2_DEGREE), sum(&uni(360.0, 1.0, &q), s, &CIE_1931_2_DEGREE, 1.0), 1e5);
}
/// a smooth reflectance (any cubic of ordinary size) has the same colour at 1 nm and on every grid over the whole range
#[no_mangle] pub fn c18_same_colour() {
    const U: [(f64, f64, usize); 8] = [(360.0, 5.0, 85), (360.0, 10.0, 43), (350.0, 10.0, 46), (355.0, 10.0, 44), (360.0, 20.0, 22), (360.0, 7.0, 61), (360.0, 2.5, 169), (360.0, 10.5, 41)]; let k = case(9); let nm: Vec<f64> = if k < 8 { let (s, h, n) = U[k]; (0..n).map(|i| s + i as f64 * h).collect() } else { (0..43).map(|i| 360.0 + 10.0 * i as f64 + if i == 42 { 5.0 } else { 0.0 }).collect() };
    let (a, b, c, e) = (f64::any(-1.0, 1.0), f64::any(-1.0, 1.0), f64::any(-1.0, 1.0), f64::any(-1.0, 1.0)); let p = |x: f64| { let u = (x - 570.0) / 210.0; a + u * (b + u * (c + u * e)) }; let s = if symbolic() { &*illuminant::spd::D65 } else { lamp() };
    let f = |nm: &[f64]| { let v: Vec<f64> = nm.iter().map(|x| p(*x)).collect(); list(nm, &v).to_xyz(s, &CIE_1931_2_DEGREE) }; let one: Vec<f64> = (0..V).map(|i| 360.0 + i as f64).collect(); close("the same colour whatever the sampling", f(&nm), f(&one), 0.05);
}
/// the published interpolation weights: one row for each whole step inside an interval, each row the values of the Lagrange basis there - they sum to one and reproduce every polynomial of the degree (so the weighting factors sum what they claim to)
#[no_mangle] pub fn c18_lagrange() { let h = [1usize, 2, 3, 4, 5, 6, 7, 8, 10, 12, 20, 25, 40][case(13)]; let n = 3 + case(2); let c = colorspace::vspd::lagrange_coefficients_astm_e2022(h as f64, n); check("one row for each step inside the interval", c.len() == h - 1);
    let (p0, p1, p2, p3) = (f64::anyv(), f64::anyv(), f64::anyv(), f64::anyv()); let p = |x: f64| p0 + x * (p1 + x * (p2 + if n == 4 { x * p3 } else { 0.0 }));
    for k in 0..c.len() { check("one weight for each sample", c[k].len() == n); let x = (k + 1) as f64 / h as f64 + if n == 4 { 1.0 } else { 0.0 }; let mut s = 0.0; for j in 0..n { s += c[k][j] * p(j as f64); } eq("the weights reproduce polynomials", s, p(x), 1e8); } }
