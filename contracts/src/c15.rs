//! C15: the reported shape describes the samples
use crate::spd::*; use crate::vp::*;
use colorspace::vspd; use colorspace::vspd::{Interval, Sample, SpdShape, VSPD};
/// start, step, number of whole steps, fraction of a further step: fixed grids for the verifier, any grid natively
fn grid() -> (f64, f64, usize, f64) {
    const G: [(f64, f64); 8] = [(380.0, 10.0), (360.0, 5.0), (400.5, 1.0), (300.0, 2.5), (410.0, 7.0), (380.0, 0.5), (0.0, 20.0), (350.1, 0.1)];
    let k = if symbolic() { 1 + len(70) } else { 1 + [0, 1, 2, 3, 4, 5, 30, 99, case(90), len(90)][case(10)] }; let frac = [0.0, 0.25, 0.5, 0.875][case(if symbolic() { 2 } else { 4 })];
    if symbolic() { (f64::any(0.0, 1000.0), f64::any(0.05, 60.0), k, if frac == 0.0 { frac } else { f64::any(0.001, 0.999) }) } else if case(3) == 0 { let (s, h) = G[case(8)]; (s, h, k, frac) } else { (f64::any(0.0, 1000.0), f64::any(0.05, 60.0), k, frac * 0.99) }
}
/// any gaps, also irregular ones at any position
fn irregular() -> (Vec<f64>, Vec<f64>) {
    let n = 2 + if symbolic() { case(4) } else { len(40) }; let mut nm = vec![f64::any(100.0, 500.0)];
    if symbolic() { for _ in 1..n { let g = f64::any(0.01, 100.0); let l = nm[nm.len() - 1]; nm.push(l + g); } }
    else { let h = [1.0, 5.0, 10.0, 0.25, 2.5, f64::any(0.1, 50.0)][case(6)]; let odd = case(2 * n as u32); let d = [0.5, -0.5, 0.001, -0.001, 1.0][case(5)] * h; let all = case(5) == 0; for i in 1..n { let l = nm[i - 1]; nm.push(l + if all { f64::any(0.1, 60.0) } else if i == odd { h + d } else { h }); } }
    let v = vals(n); (nm, v)
}
fn copies(s: &VSPD, nm: &[f64], v: &[f64]) { describes(s); holds(s, nm, v); }
#[no_mangle] pub fn c15_new() { let (nm, v) = irregular(); copies(&list(&nm, &v), &nm, &v); }
#[no_mangle] pub fn c15_new_uniform() { let n = 2 + len(20); let (s, h) = (f64::any(100.0, 500.0), f64::any(0.05, 50.0)); assume(symbolic() || s + n as f64 * h < 1e4); let v = vals(n); let nm: Vec<f64> = (0..n).map(|i| s + i as f64 * h).collect(); let x = list(&nm, &v); copies(&x, &nm, &v); match x.interval() { Interval::Uniform(d) => eq("evenly spaced samples have a uniform interval", d, h, 1e3), _ => check("evenly spaced samples have a uniform interval", false) } }
/// one odd gap, at any position, makes the spacing varying
#[no_mangle] pub fn c15_one_odd_gap() { let n = 3 + if symbolic() { case(25) } else { len(60) }; let k = 1 + case(n as u32 - 1); let (s, h) = (f64::any(100.0, 500.0), f64::any(1.0, 50.0)); let g = f64::any(0.5, 80.0); assume_lt(1e-3, (g - h).abs()); let mut nm = vec![s]; for i in 1..n { let l = nm[i - 1]; nm.push(l + if i == k { g } else { h }); } let v = vals(n); let x = list(&nm, &v); check("one odd gap makes the spacing varying", x.interval() == Interval::Varying); copies(&x, &nm, &v); }
#[no_mangle] pub fn c15_collect() { let (nm, v) = irregular(); let a: VSPD = nm.iter().zip(v.iter()).map(|(n, v)| Sample::new(*n, *v)).collect(); copies(&a, &nm, &v); let b: VSPD = nm.iter().zip(v.iter()).map(|(n, v)| (*n, *v)).collect(); copies(&b, &nm, &v); }
#[no_mangle] pub fn c15_scale() { let (nm, v) = irregular(); let a = list(&nm, &v); let k = f64::wide(-100.0, 100.0); away(k, 0.01);
    let m: Vec<f64> = v.iter().map(|x| x * k).collect(); let d: Vec<f64> = v.iter().map(|x| x / k).collect(); copies(&(&a * k), &nm, &m); copies(&(a.clone() * k), &nm, &m); copies(&(&a / k), &nm, &d); copies(&(a.clone() / k), &nm, &d); copies(&a.clone(), &nm, &v); }
#[no_mangle] pub fn c15_constant() { let (s, h, k, f) = grid(); let v = val(); let x = VSPD::constant(shape(s, s + (k as f64 + f) * h, h), v); let nm: Vec<f64> = (0..=k).map(|i| s + i as f64 * h).collect(); copies(&x, &nm, &vec![v; k + 1]); match x.interval() { Interval::Uniform(d) => eq("the interval is the requested one", d, h, 1e3), _ => check("the interval is the requested one", false) } }
#[no_mangle] pub fn c15_from_values() { let (s, h, k, f) = grid(); let v = vals(k + 1); let x = VSPD::from_values(shape(s, s + (k as f64 + f) * h, h), &v); let nm: Vec<f64> = (0..=k).map(|i| s + i as f64 * h).collect(); copies(&x, &nm, &v); match x.interval() { Interval::Uniform(d) => eq("the interval is the requested one", d, h, 1e3), _ => check("the interval is the requested one", false) } }
#[no_mangle] pub fn c15_macro() { let (a, b, c, g, h) = (val(), val(), val(), f64::any(1.0, 20.0), f64::any(1.0, 20.0)); let x = vspd!(400.0 => a, 400.0 + g => b, 400.0 + g + h => c); copies(&x, &[400.0, 400.0 + g, 400.0 + g + h], &[a, b, c]); let y = vspd!(400.0 => a, 400.0 + g => b,); copies(&y, &[400.0, 400.0 + g], &[a, b]); }
#[no_mangle] pub fn c15_shape_enumerates() { let (s, h, k, f) = grid(); let sh = shape(s, s + (k as f64 + f) * h, h); check("start, start + interval, ... up to the end: count", sh.iter().count() == k + 1); for (i, x) in sh.iter().enumerate() { eq("start, start + interval, ... up to the end", x, s + i as f64 * h, 1e3); } eq("the shape keeps its start", sh.start, s, 0.0);
    let e: SpdShape<f64> = SpdShape::astm_e308(); check("the ASTM E308 shape is 360-780 nm at 1 nm", e.start == 360.0 && e.end == 780.0 && e.interval == Interval::Uniform(1.0) && e.iter().count() == 421); }
#[no_mangle] pub fn c15_shape_enumerates_f32() { let (s, h) = [(380.0f32, 10.0f32), (360.0, 5.0), (400.5, 1.0), (300.0, 2.5), (410.0, 7.0)][case(5)]; let k = case(80); let sh = SpdShape::<f32>::new(s, s + k as f32 * h + 0.5 * h * case(2) as f32, h); check("f32 shapes: count", sh.iter().count() == k + 1); for (i, x) in sh.iter().enumerate() { eq("f32 shapes: start, start + interval, ...", x, s + i as f32 * h, 1e3); } }
#[no_mangle] pub fn c15_too_few() { let v = val(); expect_panic(); match case(6) { 0 => { let _ = VSPD::new(vec![]); } 1 => { let _ = VSPD::new(vec![Sample::new(400.0, v)]); } 2 => { let _ = VSPD::constant(shape(400.0, 409.0, 10.0), v); } 3 => { let _ = VSPD::from_values(shape(400.0, 400.0, 10.0), &[v]); } 4 => { let _: VSPD = vec![(400.0, v)].into_iter().collect(); } _ => { let _: VSPD = Vec::<Sample>::new().into_iter().collect(); } } must_have_panicked("fewer than two samples are rejected"); }
#[no_mangle] pub fn c15_misfit() { let (s, h, k, f) = grid(); let n = if symbolic() { [0, 1, k, k + 2, 2 * k][case(5)] } else { case(100) }; assume(n != k + 1); let v = vec![0.5; n]; expect_panic(); let _ = VSPD::from_values(shape(s, s + (k as f64 + f) * h, h), &v); must_have_panicked("a value list that does not fit its shape is rejected"); }
#[no_mangle] pub fn c15_misfit_varying() { let v = [val(), val()]; expect_panic(); let _ = VSPD::from_values(SpdShape { start: 400.0, end: 410.0, interval: Interval::Varying }, &v); must_have_panicked("a value list on a varying shape is rejected"); }
/// samples are approximately equal only when both the wavelengths and the values are
#[no_mangle] pub fn c15_sample_approximately() { use float_cmp::{ApproxEq, F64Margin}; let (nm, v, e, d) = (f64::any(100.0, 900.0), f64::any(-50.0, 50.0), f64::any(0.0, 0.0005), f64::any(0.01, 100.0)); let m = F64Margin { epsilon: 0.001, ulps: 0 }; let s = Sample::new(nm, v); check("a sample keeps its wavelength and value", s.nm == nm && s.v == v);
    check("a sample approximately equals itself and its neighbours within the margin", s.approx_eq(s, m) && s.approx_eq(Sample::new(nm + e, v - e), m)); check("another wavelength is another sample", !s.approx_eq(Sample::new(nm + d, v), m)); check("another value is another sample", !s.approx_eq(Sample::new(nm, v - d), m)); }
/// linspace: evenly spaced from the start to the end, both included (a single point is the start)
#[no_mangle] pub fn c15_linspace() { let n = 1 + if symbolic() { case(13) } else { len(200) }; let (a, b) = (f64::wide(-1000.0, 1000.0), f64::wide(-1000.0, 1000.0)); let x: Vec<f64> = colorspace::vspd::linspace(a, b, n).collect(); check("linspace has the requested number of points", x.len() == n); eq("linspace starts at the start", x[0], a, 1e3); if n == 1 { return; } eq("linspace ends at the end", x[n - 1], b, 1e3); for i in 0..n { eq("linspace is evenly spaced", x[i] * (n - 1) as f64, a * (n - 1 - i) as f64 + b * i as f64, 1e6); } }

/// long spectra, natively
#[no_mangle] pub fn c15_native_long() { if symbolic() { return; } let n = long(); let (s, h) = (300.0 + case(5) as f64 * 0.25, [1.0, 0.5, 1.0 / 64.0, 2.0][case(4)]); let v = ramp::<f64>(n, -10.0, 10.0); let nm: Vec<f64> = (0..n).map(|i| s + i as f64 * h).collect(); let e = s + (n - 1) as f64 * h;
    let ok = |x: &VSPD, v: &[f64]| { let y = x.samples(); check("as many samples as supplied", y.len() == n); check("wavelengths and values are the ones supplied, in order", y.iter().enumerate().all(|(i, p)| (p.nm - nm[i]).abs() < 1e-9 && p.v == v[i])); check("start and end are the first and last wavelength", x.start() == y[0].nm && x.end() == y[n - 1].nm); check("evenly spaced samples have a uniform interval", match x.interval() { Interval::Uniform(d) => (d - h).abs() < 1e-9, _ => false }); };
    ok(&list(&nm, &v), &v); ok(&VSPD::from_values(shape(s, e, h), &v), &v); ok(&VSPD::constant(shape(s, e, h), v[0]), &vec![v[0]; n]); ok(&nm.iter().zip(v.iter()).map(|(a, b)| (*a, *b)).collect(), &v); let k: Vec<f64> = v.iter().map(|x| x * 3.0).collect(); ok(&(&list(&nm, &v) * 3.0), &k);
    let mut m = nm.clone(); let j = 1 + case(n as u32 - 1); for x in &mut m[j..] { *x += h * 0.5; } check("one odd gap makes the spacing varying", list(&m, &v).interval() == Interval::Varying); }
/// two spectra are equal exactly when they have the same samples
#[no_mangle] pub fn c15_equality() {
    let (nm, v) = irregular(); let n = nm.len(); let a = list(&nm, &v); check("a spectrum equals its copy", a == a.clone() && a == list(&nm, &v) && !(a != a.clone())); let i = case(n as u32); let mut w = v.clone(); w[i] = val(); assume_ne(w[i], v[i]); let b = list(&nm, &w); check("spectra that differ in one value are different", a != b && b != a);
    let mut m = nm.clone(); let d = f64::any(0.01, 3.0); for x in &mut m[i..] { *x += d; } let b = list(&m, &v); check("spectra that differ in their wavelengths are different", a != b && b != a); if i + 1 < n { let mut m = nm.clone(); let t = [0.25, 0.5][case(2)]; m[i] = m[i] + t * (m[i + 1] - m[i]); let b = list(&m, &v); check("spectra that differ in one wavelength are different", a != b && b != a); } let mut m = nm.clone(); let mut u = v.clone(); m.push(nm[n - 1] + d); u.push(val()); let b = list(&m, &u); check("spectra that differ in length are different", a != b && b != a);
    let s = a.shape(); check("a shape equals itself", s == a.shape()); let t = SpdShape { start: s.start + d, ..s }; check("shapes that differ in the start are different", s != t); let t = SpdShape { end: s.end + d, ..s }; check("shapes that differ in the end are different", s != t); check("intervals are compared by kind and size", Interval::Uniform(d) == Interval::Uniform(d) && Interval::Uniform(d) != Interval::Uniform(d + 1.0) && Interval::Uniform(d) != Interval::Varying && Interval::<f64>::Varying == Interval::Varying);
    let x = Sample::new(nm[0], v[0]); check("samples are compared by wavelength and value", x == Sample::new(nm[0], v[0]) && x != Sample::new(nm[0] + d, v[0]) && x != Sample::new(nm[0], v[0] + d)); }
/// and approximately equal exactly when all samples are
#[no_mangle] pub fn c15_approximately() { use float_cmp::{ApproxEq, F64Margin};
    let n = 2 + case(if symbolic() { 4 } else { 60 }); let nm: Vec<f64> = (0..n).map(|i| 400.0 + 10.0 * i as f64).collect(); let v: Vec<f64> = (0..n).map(|_| f64::any(-10.0, 10.0)).collect(); let (e, d) = (f64::any(0.0, 0.0005), f64::any(0.01, 100.0)); let m = F64Margin { epsilon: 0.001, ulps: 0 }; let a = list(&nm, &v);
    check("a spectrum approximately equals itself", a.approx_eq(&a, m)); let w: Vec<f64> = v.iter().map(|x| x - e).collect(); check("spectra within the margin are approximately equal", a.approx_eq(&list(&nm, &w), m)); let i = case(n as u32); let mut w = v.clone(); w[i] = w[i] + d; let b = list(&nm, &w); check("one sample off is seen", !a.approx_eq(&b, m) && !b.approx_eq(&a, m));
    if n > 2 { let b = list(&nm[..n - 1], &v[..n - 1]); check("a prefix is another spectrum", !a.approx_eq(&b, m) && !b.approx_eq(&a, m)); } }
/// the two zeros are the same value in comparisons, natively
#[no_mangle] pub fn c15_native_zeros() { if symbolic() { return; } let (nm, v) = irregular(); let n = nm.len(); let i = case(n as u32); let (mut p, mut q) = (v.clone(), v); p[i] = 0.0; q[i] = -0.0; check("spectra with either zero are equal", list(&nm, &p) == list(&nm, &q)); check("samples with either zero are equal", Sample::new(nm[i], 0.0) == Sample::new(nm[i], -0.0)); p[i] = f64::NAN; check("a spectrum with a NaN equals nothing", list(&nm, &p) != list(&nm, &p)); }
