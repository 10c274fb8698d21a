//! C12: CIEDE2000
use crate::vp::*;
use colorspace::lab::{delta_E_2000, lab, Lab};
/// the verifier takes the half planes, half axes and greys one by one (|b| below 1e-100 means 0)
fn split<T: Fl>(w: f64) -> Lab<T> { if !symbolic() { return any(); } let t = 1e-100; let t = if T::F32 { 1e-30 } else { t }; let z = T::zero(); let (a, b) = match case(5) { 0 => (T::any(-w, w), T::any(t, w)), 1 => (T::any(-w, w), T::any(-w, -t)), 2 => (T::any(t, w), z), 3 => (T::any(-w, -t), z), _ => (z, z) }; lab(T::wide(-10.0, 110.0), a, b) }
fn any<T: Fl>() -> Lab<T> { lab(T::any(-10.0, 110.0), T::any(-150.0, 150.0), T::any(-150.0, 150.0)) }
/// Sharma, Wu, Dalal: equations (2)-(22); the second value says how far the hue difference is from the formula's own discontinuity
fn sharma<T: Fl>(p: Lab<T>, q: Lab<T>) -> (T, T) {
    let c = |v: f64| T::c(v); let z = T::zero(); let deg = |x: T| x * (c(180.0) / c(std::f64::consts::PI)); let rad = |x: T| x * (c(std::f64::consts::PI) / c(180.0)); let p7 = |x: T| { let y = x * x * x; y * y * x };
    let ca = ((p.a * p.a + p.b * p.b).sqrt() + (q.a * q.a + q.b * q.b).sqrt()) / c(2.0); let p25 = c(6103515625.0);
    let g = c(0.5) * (c(1.0) - (p7(ca) / (p7(ca) + p25)).sqrt());
    let (a1, a2) = ((c(1.0) + g) * p.a, (c(1.0) + g) * q.a); let (c1, c2) = ((a1 * a1 + p.b * p.b).sqrt(), (a2 * a2 + q.b * q.b).sqrt());
    let hue = |b: T, a: T| { let h = deg(b.atan2(a)); if h < z { h + c(360.0) } else { h } }; let (h1, h2) = (hue(p.b, a1), hue(q.b, a2)); // atan2(0, 0) = 0
    let grey = c1 * c2 == z; let dh = h2 - h1;
    let dh1 = if grey { z } else if dh.abs() <= c(180.0) { dh } else if dh > c(180.0) { dh - c(360.0) } else { dh + c(360.0) };
    let (dl, dc, dhh) = (q.L - p.L, c2 - c1, c(2.0) * (c1 * c2).sqrt() * rad(dh1 / c(2.0)).sin());
    let (lm, cm) = ((p.L + q.L) / c(2.0), (c1 + c2) / c(2.0));
    let hm = if grey { h1 + h2 } else if (h1 - h2).abs() <= c(180.0) { (h1 + h2) / c(2.0) } else if h1 + h2 < c(360.0) { (h1 + h2 + c(360.0)) / c(2.0) } else { (h1 + h2 - c(360.0)) / c(2.0) };
    let t = c(1.0) - c(0.17) * rad(hm - c(30.0)).cos() + c(0.24) * rad(c(2.0) * hm).cos() + c(0.32) * rad(c(3.0) * hm + c(6.0)).cos() - c(0.20) * rad(c(4.0) * hm - c(63.0)).cos();
    let u = (hm - c(275.0)) / c(25.0); let dt = c(30.0) * (z - u * u).exp(); let rc = c(2.0) * (p7(cm) / (p7(cm) + p25)).sqrt(); let l5 = (lm - c(50.0)) * (lm - c(50.0));
    let (sl, sc, sh) = (c(1.0) + c(0.015) * l5 / (c(20.0) + l5).sqrt(), c(1.0) + c(0.045) * cm, c(1.0) + c(0.015) * cm * t); let rt = z - rad(c(2.0) * dt).sin() * rc;
    let (x, y, w) = (dl / sl, dc / sc, dhh / sh);
    ((x * x + y * y + w * w + rt * y * w).sqrt(), if symbolic() || grey { T::one() } else { (dh.abs() - c(180.0)).abs() })
}
fn formula<T: Fl>() {
    let w = if T::F32 { 1e4 } else { 1e30 }; let (p, q) = (split::<T>(w), split::<T>(w)); let (e, gap) = sharma(p, q); let d = delta_E_2000(p, q);
    if symbolic() { eq("CIEDE2000 is the published formula", d, e, T::one()); } else { if gap < T::c(if T::F32 { 0.05 } else { 1e-9 }) || (T::F32 && e < T::c(0.05)) { return; } near("CIEDE2000 is the published formula", d, e, if T::F32 { 2e-2 } else { 1e-5 }, T::c(1.0)); }
}
/// greys: one or both colours without chroma
fn grey<T: Fl>() { let (mut p, mut q) = (any::<T>(), any::<T>()); let k = case(3); if k != 1 { p.a = T::zero(); p.b = T::zero(); } if k != 0 { q.a = T::zero(); q.b = T::zero(); } let (e, _) = sharma(p, q); if !symbolic() && T::F32 { near("greys follow the published formula", delta_E_2000(p, q), e, 2e-3, T::c(10.0)); } else { eq("greys follow the published formula", delta_E_2000(p, q), e, T::c(1e4)); } }
/// hues exactly opposite on the a axis (the hue difference is exactly 180 degrees)
fn opposite<T: Fl>() { let (l, m) = (T::any(0.0, 100.0), T::any(0.0, 100.0)); let (s, t) = (T::any(0.1, 128.0), T::any(0.1, 128.0)); let (p, q) = (lab(l, s, T::zero()), lab(m, T::zero() - t, T::zero())); let sc = T::c(1e4);
    for (u, v) in [(p, q), (q, p)] { let (e, _) = sharma(u, v); if !symbolic() && T::F32 { near("opposite hues follow the published formula", delta_E_2000(u, v), e, 2e-3, sc); } else { eq("opposite hues follow the published formula", delta_E_2000(u, v), e, sc); } } }
/// the same anywhere on the wheel, natively: chroma of simple proportions, and only pairs whose hues come out exactly 180 degrees apart
#[no_mangle] pub fn c12_native_opposite() { if symbolic() { return; } let (a, b) = (case(61) as f64 - 30.0, case(61) as f64 - 30.0); let k = [1.0, 2.0, 4.0, 0.5, 3.0][case(5)]; let (p, q) = (lab(f64::any(0.0, 100.0), a, b), lab(f64::any(0.0, 100.0), -a * k, -b * k));
    for (u, v) in [(p, q), (q, p)] { if !exactly_opposite(u, v) { continue; } let e = sharma(u, v).0; near("opposite hues follow the published formula", delta_E_2000(u, v), e, 1e-6, 1e4); } }
/// the hues are 180 degrees apart however the last bits of the formula's intermediate results fall
fn exactly_opposite(p: Lab<f64>, q: Lab<f64>) -> bool { let pi = std::f64::consts::PI; let ca = (p.a.hypot(p.b) + q.a.hypot(q.b)) / 2.0; let g = 0.5 * (1.0 - (ca.powi(7) / (ca.powi(7) + 6103515625.0)).sqrt());
    (-4..5).all(|i| { let f = 1.0 + g * (1.0 + i as f64 * 1e-15) + i as f64 * f64::EPSILON; let hue = |c: Lab<f64>, k: usize| { let t = c.b.atan2(f * c.a); let t = [t * (180.0 / pi), t * 180.0 / pi, t / pi * 180.0][k]; if t < 0.0 { t + 360.0 } else { t } }; (0..3).all(|k| (hue(p, k) - hue(q, k)).abs() == 180.0) }) }
fn laws<T: Fl>() {
    let (p, q) = (split::<T>(150.0), split::<T>(150.0)); let (d, r) = (delta_E_2000(p, q), delta_E_2000(q, p)); let z = T::zero();
    check("never a NaN", d == d); le("never negative", z, d, z);
    if symbolic() { eq("symmetric", d, r, T::one()); } else { let (_, gap) = sharma(p, q); if gap > T::c(if T::F32 { 0.05 } else { 1e-9 }) && !(T::F32 && d < T::c(0.05)) { near("symmetric", d, r, if T::F32 { 2e-2 } else { 1e-5 }, T::c(1.0)); } }
    eq("zero for equal colours", delta_E_2000(p, p), z, z);
}
/// the reference above against Sharma's published worked examples
fn published() { if symbolic() { return; } let d = [
    [50.0, 2.6772, -79.7751, 50.0, 0.0, -82.7485, 2.0425], [50.0, 2.49, -0.001, 50.0, -2.49, 0.0011, 7.2195], [50.0, -0.001, 2.49, 50.0, 0.0009, -2.49, 4.8045], [50.0, 2.5, 0.0, 50.0, 0.0, -2.5, 4.3065], [50.0, 2.5, 0.0, 73.0, 25.0, -18.0, 27.1492], [50.0, 2.5, 0.0, 61.0, -5.0, 29.0, 22.8977], [50.0, 2.5, 0.0, 56.0, -27.0, -3.0, 31.9030], [50.0, 2.5, 0.0, 58.0, 24.0, 15.0, 19.4535],
    [60.2574, -34.0099, 36.2677, 60.4626, -34.1751, 39.4387, 1.2644], [22.7233, 20.0904, -46.6940, 23.0331, 14.9730, -42.5619, 2.0373], [2.0776, 0.0795, -1.1350, 0.9033, -0.0636, -0.5514, 0.9082]];
    let r = d[case(11)]; let (p, q) = (lab(r[0], r[1], r[2]), lab(r[3], r[4], r[5])); near("the published worked examples", delta_E_2000(p, q), r[6], 6e-5, 0.0); near("the reference gives the published worked examples", sharma(p, q).0, r[6], 6e-5, 0.0); }
#[no_mangle] pub fn c12_formula_f64() { formula::<f64>() }
#[no_mangle] pub fn c12_formula_f32() { formula::<f32>() }
#[no_mangle] pub fn c12_grey_f64() { grey::<f64>() }
#[no_mangle] pub fn c12_grey_f32() { grey::<f32>() }
#[no_mangle] pub fn c12_opposite_f64() { opposite::<f64>() }
#[no_mangle] pub fn c12_opposite_f32() { opposite::<f32>() }
#[no_mangle] pub fn c12_laws_f64() { laws::<f64>() }
#[no_mangle] pub fn c12_laws_f32() { laws::<f32>() }
#[no_mangle] pub fn c12_published() { published() }
/// the elementary functions the formula is written with are the ones they are named after
fn elementary<T: Fl>() { use colorspace::math as m; let (x, y) = (T::any(-50.0, 50.0), T::any(-50.0, 50.0)); let (u, v) = (T::any(-0.99, 0.99), T::any(0.01, 50.0)); let sc = T::c(1e4);
    eq("sin", m::sin(x), x.sin(), sc); eq("cos", m::cos(x), x.cos(), sc); eq("sqr", m::sqr(x), x * x, sc); eq("abs", m::abs(x), if x < T::zero() { T::zero() - x } else { x }, T::zero()); eq("sqrt", m::sqrt(v) * m::sqrt(v), v, sc); eq("hypot", m::hypot(x, y) * m::hypot(x, y), x * x + y * y, sc); eq("exp", m::exp(u), u.exp(), sc); eq("atan2 takes the ordinate first", m::atan2(y, v), y.atan2(v), sc);
    eq("tan", m::tan(u), u.tan(), sc); eq("asin", m::asin(u), u.asin(), sc); eq("acos", m::acos(u), u.acos(), sc); eq("pow takes the base first", m::pow(v, T::c(2.4)), v.powf(T::c(2.4)), T::c(1e6)); eq("powi", m::powi(x, 3), x * x * x, T::c(1e7)); eq("negative powers", m::powi(v, -2) * v * v, T::one(), sc);
}
#[no_mangle] pub fn c12_elementary_f64() { elementary::<f64>() }
#[no_mangle] pub fn c12_elementary_f32() { elementary::<f32>() }
