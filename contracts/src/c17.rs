//! C17: interpolators
use crate::spd::*; use crate::vp::*;
use colorspace::interpolation::{ExtrapolatorConstant, InterpolatorLinear, InterpolatorSprague, SpragueCoefficients};
/// linear: any samples, any spacing, any query
#[no_mangle] pub fn c17_linear() {
    let n = 2 + if symbolic() { case(4) } else { len(30) }; let mut nm = vec![f64::any(100.0, 500.0)]; for i in 1..n { let g = f64::any(0.01, 100.0); let l = nm[i - 1]; nm.push(l + g); } let v = vals(n); let s = list(&nm, &v); let f = InterpolatorLinear::new(&s); let sc = 1e5;
    match case(3) { 0 => { let k = case(n as u32); eq("linear: the sample value at a sample", f.evaluate(nm[k]), v[k], sc); }
        1 => { let k = case(n as u32 - 1); let d = f64::any(0.0, 1.0); let x = nm[k] + d * (nm[k + 1] - nm[k]); eq("linear: the straight line between neighbouring samples", f.evaluate(x), v[k] + d * (v[k + 1] - v[k]), sc * 1e3); }
        _ => { let d = f64::any(0.0, 1000.0); eq("linear: the first value below the range", f.evaluate(nm[0] - d), v[0], 0.0); eq("linear: the last value above the range", f.evaluate(nm[n - 1] + d), v[n - 1], 0.0); } }
}
/// constant extension outside the range
#[no_mangle] pub fn c17_extrapolator() { let n = 2 + case(4); let v = vals(n); let (s0, h) = (f64::any(100.0, 500.0), f64::any(0.1, 50.0)); let s = uni(s0, h, &v); let e = ExtrapolatorConstant::new(&s); let d = f64::any(1e-3, 1000.0); eq("the first value below the range", e.evaluate(s.first().nm - d), v[0], 0.0); eq("the last value above the range", e.evaluate(s.last().nm + d), v[n - 1], 0.0); }
fn grid() -> (f64, f64, usize) { let n = 6 + if symbolic() { case(8) } else { len(30) }; const G: [(f64, f64); 4] = [(380.0, 10.0), (400.0, 5.0), (360.0, 1.0), (402.5, 2.5)]; let (s, h) = if !symbolic() && case(5) == 4 { G[case(4)] } else { (f64::any(100.0, 500.0), f64::any(0.5, 50.0)) }; (s, h, n) }
/// through every sample, whatever the number of samples
#[no_mangle] pub fn c17_sprague_samples() { let n = 2 + if symbolic() { case(16) } else { len(40) }; let (s, h, _) = grid(); let v = vals(n); let x = uni(s, h, &v); let f = InterpolatorSprague::<f64>::new(&x); let k = case(n as u32); eq("Sprague passes through every sample", f.evaluate(x.samples()[k].nm), v[k], 1e5); }
/// through every sample of unevenly spaced data
#[no_mangle] pub fn c17_sprague_samples_uneven() { let n = 2 + if symbolic() { case(3) } else { len(20) }; let mut nm = vec![f64::any(100.0, 500.0)]; for i in 1..n { let g = f64::any(0.5, 100.0); let l = nm[i - 1]; nm.push(l + g); } let v = vals(n); let x = list(&nm, &v); let f = InterpolatorSprague::<f64>::new(&x); let k = case(n as u32); eq("Sprague passes through every sample of uneven data", f.evaluate(nm[k]), v[k], 1e7);
    let c = val(); let y = list(&nm, &vec![c; n]); let d = f64::any(0.0, 1.0); let q = if n == 2 || symbolic() { nm[0] + d * (nm[1] - nm[0]) } else { nm[0] + d * (nm[n - 1] - nm[0]) }; eq("Sprague keeps constants on uneven data", InterpolatorSprague::<f64>::new(&y).evaluate(q), c, 1e5); }
/// cubics are reproduced in every segment whose six points are all samples (the published boundary extension is exact for ramps only)
#[no_mangle] pub fn c17_sprague_cubic() {
    let (s, h, n) = grid(); let (a, b, c, e) = (val(), val(), val(), val()); let p = |u: f64| a + u * (b + u * (c + u * e)); let z = n as f64; let v: Vec<f64> = (0..n).map(|i| p(i as f64 / z)).collect(); let x = uni(s, h, &v); let f = InterpolatorSprague::<f64>::new(&x);
    let j = 2 + case(n as u32 - 5); let d = f64::any(0.0, 1.0); let q = s + (j as f64 + d) * h; eq("Sprague reproduces cubics", f.evaluate(q), p((j as f64 + d) / z), 1e7);
}
/// constants and ramps for fewer samples too
#[no_mangle] pub fn c17_sprague_ramp() { let n = 2 + case(if symbolic() { 5 } else { 30 }); let (s, h, _) = grid(); let (a, b) = (val(), val()); let v: Vec<f64> = (0..n).map(|i| a + b * i as f64 / n as f64).collect(); let x = uni(s, h, &v); let f = InterpolatorSprague::<f64>::new(&x); let j = case(n as u32 - 1); let d = f64::any(0.0, 1.0); let q = s + (j as f64 + d) * h; eq("Sprague never distorts ramps", f.evaluate(q), a + b * (j as f64 + d) / n as f64, 1e6); }
/// linear in the samples, so that the impulse contracts below speak about all data
#[no_mangle] pub fn c17_sprague_linear() { let (s, h, n) = grid(); let (v, w, k) = (vals(n), vals(n), f64::wide(-10.0, 10.0)); let m: Vec<f64> = (0..n).map(|i| k * v[i] + w[i]).collect(); let j = case(n as u32 - 1); let d = f64::any(0.0, 1.0); let q = s + (j as f64 + d) * h; let f = |v: &[f64]| InterpolatorSprague::<f64>::new(&uni(s, h, v)).evaluate(q); eq("Sprague is linear in the samples", f(&m), k * f(&v) + f(&w), 1e6); }
/// value and slope are continuous at every inner sample: the jump in value is O(e), the kink O(e^2)
#[no_mangle] pub fn c17_sprague_smooth() {
    let (s, h, n) = grid(); let k = case(n as u32); let mut v = vec![0.0; n]; v[k] = 1.0; let x = uni(s, h, &v); let f = InterpolatorSprague::<f64>::new(&x); let j = 1 + case(n as u32 - 2); let e = f64::any(0.0, 0.5); assume_lt(1e-9, e);
    let (l, r) = (f.evaluate(s + (j as f64 - e) * h), f.evaluate(s + (j as f64 + e) * h)); let y = v[j];
    le("continuous from the left", (l - y).abs(), 40.0 * e, 1e3); le("continuous from the right", (r - y).abs(), 40.0 * e, 1e3); le("continuous slope", (l + r - 2.0 * y).abs(), 200.0 * e * e, if symbolic() { 0.0 } else { 1e5 });
}
/// the tables of both precisions agree
#[no_mangle] pub fn c17_coefficients_f32() {
    let (a, b) = ([<f32 as SpragueCoefficients>::coeff_c0(), <f32 as SpragueCoefficients>::coeff_c1(), <f32 as SpragueCoefficients>::coeff_c2(), <f32 as SpragueCoefficients>::coeff_c3()], [<f64 as SpragueCoefficients>::coeff_c0(), <f64 as SpragueCoefficients>::coeff_c1(), <f64 as SpragueCoefficients>::coeff_c2(), <f64 as SpragueCoefficients>::coeff_c3()]);
    for i in 0..4 { for j in 0..6 { eq("the boundary tables of both precisions agree", a[i][j] as f64, b[i][j], 0.0); } }
    let v: Vec<f32> = (0..7).map(|_| f32::wide(-10.0, 10.0)).collect(); let w: Vec<f64> = v.iter().map(|x| *x as f64).collect(); let i = 2 + case(2); let (p, q) = (<f32 as SpragueCoefficients>::coeff_a(&v, i), <f64 as SpragueCoefficients>::coeff_a(&w, i)); for j in 0..6 { eq("the segment polynomials of both precisions agree", p[j], q[j] as f32, 1e3); }
}
/// every segment is the published fifth-degree polynomial through its six points; beyond the ends the points are the published extension (CIE 167:2005)
#[no_mangle] pub fn c17_sprague_published() {
    let (s, h, n) = grid(); let v = vals(n); let x = uni(s, h, &v); let f = InterpolatorSprague::<f64>::new(&x);
    const C0: [f64; 6] = [884.0, -1960.0, 3033.0, -2648.0, 1080.0, -180.0]; const C1: [f64; 6] = [508.0, -540.0, 488.0, -367.0, 144.0, -24.0]; let ext = |c: &[f64; 6], g: &dyn Fn(usize) -> f64| { let mut a = 0.0; for i in 0..6 { a += c[i] * g(i); } a / 209.0 };
    let mut e = vec![ext(&C0, &|i| v[i]), ext(&C1, &|i| v[i])]; e.extend_from_slice(&v); e.push(ext(&C1, &|i| v[n - 1 - i])); e.push(ext(&C0, &|i| v[n - 1 - i]));
    let f = if case(2) == 1 { InterpolatorSprague::<f32>::new(&x) } else { f }; let j = case(n as u32 - 1); let d = f64::any(0.0, 1.0); let p = &e[j..j + 6];
    let a = [p[2], (2.0 * p[0] - 16.0 * p[1] + 16.0 * p[3] - 2.0 * p[4]) / 24.0, (-p[0] + 16.0 * p[1] - 30.0 * p[2] + 16.0 * p[3] - p[4]) / 24.0, (-9.0 * p[0] + 39.0 * p[1] - 70.0 * p[2] + 66.0 * p[3] - 33.0 * p[4] + 7.0 * p[5]) / 24.0, (13.0 * p[0] - 64.0 * p[1] + 126.0 * p[2] - 124.0 * p[3] + 61.0 * p[4] - 12.0 * p[5]) / 24.0, (-5.0 * p[0] + 25.0 * p[1] - 50.0 * p[2] + 50.0 * p[3] - 25.0 * p[4] + 5.0 * p[5]) / 24.0];
    eq("Sprague is the published polynomial in every segment", f.evaluate(s + (j as f64 + d) * h), a[0] + d * (a[1] + d * (a[2] + d * (a[3] + d * (a[4] + d * a[5])))), 1e6);
}
