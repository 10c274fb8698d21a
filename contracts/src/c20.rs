//! C20: uplifting RGB to a spectrum
use crate::spd::*; use crate::vp::*;
use colorspace::uplifting::{my_basis, uplift_my}; use colorspace::RGBf64;
fn col(m: f64) -> RGBf64 { RGBf64::new(f64::wide(-m, m), f64::wide(-m, m), f64::wide(-m, m)) }
#[no_mangle] pub fn c20_combination() {
    let c = col(100.0); let (r, g, b) = my_basis(); let s = uplift_my(c); describes(&s); check("the basis spectra share a grid", r.len() == g.len() && g.len() == b.len()); check("on the basis' own grid", s.len() == r.len());
    for i in 0..s.len() { eq("on the basis' own wavelengths", s.samples()[i].nm, r.samples()[i].nm, 1e3); eq("the basis spectra share wavelengths", g.samples()[i].nm, r.samples()[i].nm, 1e3); eq("the basis spectra share wavelengths", b.samples()[i].nm, r.samples()[i].nm, 1e3); eq("the channel-weighted sum of the basis", s.samples()[i].v, c.r * r.samples()[i].v + c.g * g.samples()[i].v + c.b * b.samples()[i].v, 1e3); }
}
#[no_mangle] pub fn c20_linear() {
    let (c, d, k) = (col(10.0), col(10.0), f64::wide(-10.0, 10.0)); let m = RGBf64::new(k * c.r + d.r, k * c.g + d.g, k * c.b + d.b); let (p, q, s) = (uplift_my(c), uplift_my(d), uplift_my(m)); for i in 0..s.len() { eq("linear in the colour", s.samples()[i].v, k * p.samples()[i].v + q.samples()[i].v, 1e4); }
}
#[no_mangle] pub fn c20_black_white() {
    let z = uplift_my(RGBf64::new(0.0, 0.0, 0.0)); let k = f64::any(0.0, 10.0); let w = uplift_my(RGBf64::new(k, k, k)); for s in z.iter() { eq("black gives the zero spectrum", s.v, 0.0, 0.0); } for s in w.iter() { near("grey k gives a flat reflectance k", s.v, k, 2e-4, 10.0); }
    let (r, g, b) = my_basis(); for v in [&r, &g, &b] { eq("the basis runs from 380 nm", v.start(), 380.0, 0.0); eq("the basis runs to 780 nm", v.end(), 780.0, 0.0); describes(v); for s in v.iter() { check("the basis is a reflectance", s.v >= 0.0 && s.v <= 1.0001); } }
}
/// back to linear sRGB under D65
#[no_mangle] pub fn c20_round_trip() {
    use colorspace::color_space_rgb::model_f64::SRGB; use colorspace::transform::{xyz_to_rgb, xyz_to_rgb_matrix};
    let c = col(1.0); let m = match case(3) { 0 => c.r, 1 => c.g, _ => c.b }; assume_le(c.r.abs(), m); assume_le(c.g.abs(), m); assume_le(c.b.abs(), m);
    let x = uplift_my(c).to_xyz(&colorspace::illuminant::spd::D65, &colorspace::cmf::CIE_1931_2_DEGREE); let r = xyz_to_rgb(&xyz_to_rgb_matrix(SRGB.white, &SRGB), x);
    for (a, b) in [(r.r, c.r), (r.g, c.g), (r.b, c.b)] { le("the round trip returns the colour", a - b, 5e-3 * m, 10.0); le("the round trip returns the colour", b - a, 5e-3 * m, 10.0); }
}
