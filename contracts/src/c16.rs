//! C16: resampling
use crate::spd::*; use crate::vp::*;
use colorspace::interpolation::InterpolatorSprague; use colorspace::vspd::{Interval, SpdShape, VSPD};
/// wavelengths of a source spectrum: fixed grids for the verifier, also arbitrary ones natively
fn source() -> Vec<f64> {
    const U: [(f64, f64, usize); 6] = [(400.0, 10.0, 6), (400.0, 5.0, 7), (402.5, 2.5, 9), (380.0, 20.0, 8), (400.0, 10.0, 2), (405.0, 10.0, 4)];
    let k = case(if symbolic() { 8 } else { 11 }); if k < 6 { let (s, h, n) = U[k]; (0..n).map(|i| s + i as f64 * h).collect() } else if k == 6 { vec![400.0, 405.0, 415.0, 420.0, 440.0, 441.0, 450.0, 470.0] } else if k == 7 { vec![390.0, 400.0, 410.0, 420.0, 430.0, 440.0, 455.0] }
    else { let n = 2 + if case(8) == 0 { len(40) } else { case(40) }; let s = f64::any(350.0, 450.0); let h = [1.0, 2.5, 5.0, 10.0, f64::any(0.5, 30.0)][case(5)]; let odd = case(3 * n as u32); let mut nm = vec![s]; for i in 1..n { let l = nm[i - 1]; nm.push(l + if i == odd { 1.5 * h } else { h }); } nm }
}
fn target(nm: &[f64]) -> SpdShape<f64> {
    const T0: [f64; 7] = [370.0, 395.0, 400.0, 402.5, 405.0, 418.0, 431.0]; const W: [f64; 4] = [20.0, 35.0, 50.0, 112.5]; const H: [f64; 5] = [10.0, 5.0, 2.5, 20.0, 7.0];
    if symbolic() || case(3) > 0 { let t0 = T0[case(7)]; let w = W[case(4)]; shape(t0, t0 + w, H[case(5)]) } else { let t0 = nm[0] + (f64::any(-60.0, 60.0) * 8.0).round() / 8.0; let h = [1.0, 2.0, 5.0, 10.0, f64::any(0.5, 20.0)][case(5)]; let w = h * (1 + case(60)) as f64 + [0.0, 0.5, 0.25][case(3)] * h; shape(t0, t0 + w, h) }
}
/// short spectra with any spacing and a target grid at any position
fn free() -> (Vec<f64>, SpdShape<f64>) {
    let n = 2 + case(2); let mut nm = vec![f64::any(300.0, 500.0)]; let g = f64::any(1.0, 20.0); let odd = case(2) == 1; for i in 1..n { let l = nm[i - 1]; nm.push(l + if odd { f64::any(1.0, 20.0) } else { g }); }
    let t0 = nm[0] + f64::any(-30.0, 30.0); let h = f64::any(1.0, 20.0); let w = h * (1 + case(2)) as f64; (nm, shape(t0, t0 + w, h))
}
/// the verifier sees every grid similar to these: any origin, any unit
fn grids(any: bool) -> (Vec<f64>, SpdShape<f64>) {
    if any && symbolic() && case(2) == 1 { return free(); }
    let nm = source(); let t = target(&nm); if !symbolic() { return (nm, t); } let (o, u) = (f64::any(-100.0, 100.0), f64::any(0.2, 5.0));
    (nm.iter().map(|x| o + u * x).collect(), shape(o + u * t.start, o + u * t.end, u * step(&t)))
}
fn step(s: &SpdShape<f64>) -> f64 { match s.interval { Interval::Uniform(h) => h, _ => 0.0 } }
fn count(a: f64, b: f64, h: f64) -> usize { ((b - a) / h + 1e-6) as usize + 1 }
/// value a resampled spectrum must have at x, inside the source range
fn inside(src: &VSPD, x: f64) -> f64 { for s in src.samples() { if (s.nm - x).abs() < 1e-9 { return s.v; } } InterpolatorSprague::<f64>::new(src).evaluate(x) }
const SC: f64 = 1e5;
fn expect(r: &VSPD, nm: &[f64], v: &[f64]) { check("as many samples as the grid has wavelengths", r.len() == nm.len()); for (i, s) in r.iter().enumerate() { if i < nm.len() { eq("samples lie on the expected grid", s.nm, nm[i], 1e3); eq("values are the expected ones", s.v, v[i], SC); } } }
fn uniform(r: &VSPD, h: f64) { match r.interval() { Interval::Uniform(d) => eq("the result reports the interval of its grid", d, h, 1e3), _ => check("the result reports the interval of its grid", false) } }
#[no_mangle] pub fn c16_interpolate() {
    let (nm, t) = grids(false); let h = step(&t); let (a, b) = (t.start.max(nm[0]), t.end.min(nm[nm.len() - 1])); assume(a <= b); let v = vals(nm.len()); let src = list(&nm, &v);
    let r = src.interpolate(t); let g: Vec<f64> = (0..count(a, b, h)).map(|i| a + i as f64 * h).collect(); let e: Vec<f64> = g.iter().map(|x| inside(&src, *x)).collect(); describes(&r); expect(&r, &g, &e); uniform(&r, h);
}
#[no_mangle] pub fn c16_extrapolate() {
    let (nm, t) = grids(false); let n = nm.len(); let v = vals(n); let src = list(&nm, &v); let h = match src.interval() { Interval::Uniform(d) => d, _ => step(&t) };
    let before = if t.start < nm[0] { ((nm[0] - t.start) / h + 1e-6) as usize } else { 0 }; let after = if t.end > nm[n - 1] { ((t.end - nm[n - 1]) / h + 1e-6) as usize } else { 0 };
    let (mut g, mut e) = (vec![], vec![]); for i in (1..=before).rev() { g.push(nm[0] - i as f64 * h); e.push(v[0]); } for i in 0..n { g.push(nm[i]); e.push(v[i]); } for i in 1..=after { g.push(nm[n - 1] + i as f64 * h); e.push(v[n - 1]); }
    let r = src.extrapolate(t); describes(&r); expect(&r, &g, &e);
}
#[no_mangle] pub fn c16_align() {
    let (nm, t) = grids(false); let n = nm.len(); let h = step(&t); let v = vals(n); let src = list(&nm, &v); let g: Vec<f64> = (0..count(t.start, t.end, h)).map(|i| t.start + i as f64 * h).collect(); let tol = 1e-6 * h;
    let (i0, i1) = match (g.iter().position(|x| *x >= nm[0] - tol), g.iter().rposition(|x| *x <= nm[n - 1] + tol)) { (Some(a), Some(b)) if a <= b => (a, b), _ => { assume(false); return; } };
    let e: Vec<f64> = (0..g.len()).map(|i| inside(&src, g[i.max(i0).min(i1)])).collect(); let r = src.align(t); describes(&r); expect(&r, &g, &e); if g.len() > 1 { uniform(&r, h); }
}
#[no_mangle] pub fn c16_trim() {
    let (nm, t) = grids(true); let v = vals(nm.len()); let src = list(&nm, &v); let keep: Vec<usize> = (0..nm.len()).filter(|&i| nm[i] >= t.start && nm[i] <= t.end).collect(); assume(!keep.is_empty());
    let r = src.trim(t); let (g, e): (Vec<f64>, Vec<f64>) = (keep.iter().map(|&i| nm[i]).collect(), keep.iter().map(|&i| v[i]).collect()); expect(&r, &g, &e); if keep.len() > 1 { describes(&r); } else { eq("start is the first wavelength", r.start(), g[0], 1e3); eq("end is the last wavelength", r.end(), g[0], 1e3); }
}
/// each operation on k*v + w is k times the one on v plus the one on w
#[no_mangle] pub fn c16_linear() {
    let (nm, t) = grids(false); let n = nm.len(); let (a, b) = (t.start.max(nm[0]), t.end.min(nm[n - 1])); assume(a <= b); let h = step(&t); let g: Vec<f64> = (0..count(t.start, t.end, h)).map(|i| t.start + i as f64 * h).collect(); assume(g.iter().any(|x| *x >= nm[0] && *x <= nm[n - 1])); assume(nm.iter().any(|x| *x >= t.start && *x <= t.end));
    let (v, w, k) = (vals(n), vals(n), f64::wide(-10.0, 10.0)); let m: Vec<f64> = (0..n).map(|i| k * v[i] + w[i]).collect(); let (p, q, s) = (list(&nm, &v), list(&nm, &w), list(&nm, &m));
    let lin = |f: &dyn Fn(&VSPD) -> VSPD| { let (p, q, s) = (f(&p), f(&q), f(&s)); check("the grid does not depend on the values", p.len() == s.len() && q.len() == s.len()); for i in 0..s.len().min(p.len()).min(q.len()) { eq("linear in the values", s.samples()[i].v, k * p.samples()[i].v + q.samples()[i].v, SC * 10.0); } };
    match case(4) { 0 => lin(&|x| x.interpolate(t)), 1 => lin(&|x| x.extrapolate(t)), 2 => lin(&|x| x.align(t)), _ => lin(&|x| x.trim(t)) }
}
#[no_mangle] pub fn c16_trim_empty() {
    let (nm, t) = grids(true); let v = vals(nm.len()); let src = list(&nm, &v); assume(!nm.iter().any(|x| *x >= t.start && *x <= t.end)); expect_panic(); let _ = src.trim(t); must_have_panicked("bounds that leave no sample are rejected");
}
/// a set of colour matching functions is aligned function by function
#[no_mangle] pub fn c16_cmf_align() {
    let (nm, t) = grids(false); let n = nm.len(); let h = step(&t); let g: Vec<f64> = (0..count(t.start, t.end, h)).map(|i| t.start + i as f64 * h).collect(); assume(g.iter().any(|x| *x >= nm[0] && *x <= nm[n - 1])); let (x, y, z) = (list(&nm, &vals(n)), list(&nm, &vals(n)), list(&nm, &vals(n)));
    let c = colorspace::cmf::CMF { x_bar: x.clone(), y_bar: y.clone(), z_bar: z.clone() }; check("a CMF's shape is its functions'", c.shape() == x.shape()); let r = c.align(t); check("the aligned CMF's shape is its functions'", r.shape() == r.x_bar.shape());
    for (r, s) in [(&r.x_bar, &x), (&r.y_bar, &y), (&r.z_bar, &z)] { let e = s.align(t); describes(r); expect(r, &e.wavelengths().collect::<Vec<_>>(), &e.values().collect::<Vec<_>>()); }
}
