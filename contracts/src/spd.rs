//! shared ghost functions on spectra
use crate::vp::*;
use colorspace::vspd::{Interval, Sample, SpdShape, VSPD};
/// the representation invariant: the cached shape describes the samples
pub fn describes(s: &VSPD) {
    let v = s.samples(); let n = v.len(); check("at least one sample", n >= 1); if n == 0 { return; } let sh = s.shape(); let sc = mx(&[1e3, v[n - 1].nm]);
    eq("start is the first wavelength", sh.start, v[0].nm, sc); eq("end is the last wavelength", sh.end, v[n - 1].nm, sc);
    eq("start() is the shape's start", s.start(), sh.start, 0.0); eq("end() is the shape's end", s.end(), sh.end, 0.0); check("interval() is the shape's interval", s.interval() == sh.interval);
    for i in 1..n { lt("wavelengths increase", v[i - 1].nm, v[i].nm); }
    match sh.interval { Interval::Uniform(d) => for i in 1..n { near("a reported interval separates every pair of neighbours", v[i].nm - v[i - 1].nm, d, 1e-11, sc); }, Interval::Varying => { let d = if n > 1 { v[1].nm - v[0].nm } else { 0.0 }; let mut differ = false; for i in 1..n { if (v[i].nm - v[i - 1].nm - d).abs() > if symbolic() { 0.0 } else { 1e-12 } { differ = true; } } check("varying only when some neighbours are differently spaced", differ); } }
}
/// exactly the given samples, in order
pub fn holds(s: &VSPD, nm: &[f64], v: &[f64]) {
    check("as many samples as supplied", s.len() == nm.len() && s.samples().len() == nm.len() && s.iter().count() == nm.len() && s.values().count() == nm.len() && s.wavelengths().count() == nm.len()); check("not empty", !s.is_empty());
    for (i, x) in s.iter().enumerate() { if i < nm.len() { eq("wavelengths are the ones supplied, in order", x.nm, nm[i], 1e3); eq("values are the ones supplied, in order", x.v, v[i], 0.0); } }
    for (i, (a, b)) in s.values().zip(s.wavelengths()).enumerate() { if i < nm.len() { eq("values() follows the samples", a, v[i], 0.0); eq("wavelengths() follows the samples", b, nm[i], 1e3); } }
    if !nm.is_empty() && s.len() == nm.len() { eq("first() is the first sample", s.first().v, v[0], 0.0); eq("last() is the last sample", s.last().v, v[nm.len() - 1], 0.0); }
}
pub fn val() -> f64 { f64::wide(-10.0, 10.0) }
pub fn vals(n: usize) -> Vec<f64> { (0..n).map(|_| val()).collect() }
pub fn list(nm: &[f64], v: &[f64]) -> VSPD { VSPD::new(nm.iter().zip(v.iter()).map(|(n, v)| Sample::new(*n, *v)).collect()) }
pub fn uni(start: f64, step: f64, v: &[f64]) -> VSPD { VSPD::new(v.iter().enumerate().map(|(i, v)| Sample::new(start + i as f64 * step, *v)).collect()) }
pub fn shape(start: f64, end: f64, step: f64) -> SpdShape<f64> { SpdShape::new(start, end, step) }
