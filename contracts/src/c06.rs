//! C06: transfer functions
use crate::vp::*;
use colorspace::color_space_rgb::{decode, encode};
use colorspace::rgb::RGBf;
fn enc<T: Fl>(k: usize, x: T) -> T { match k { 0 => encode::srgb_t(x), 1 => encode::bt709_t(x), 2 => encode::bt2020_t(x), 3 => encode::alexa_logc_v3_t(x), _ => encode::linear_t(x) } }
fn dec<T: Fl>(k: usize, x: T) -> T { match k { 0 => decode::srgb_t(x), 1 => decode::bt709_t(x), 2 => decode::bt2020_t(x), 3 => decode::alexa_logc_v3_t(x), _ => decode::linear_t(x) } }
/// junctions of the published curves: linear light, code value
const J: [[f64; 2]; 4] = [[0.0031308, 0.04045], [0.018, 0.081], [0.018, 0.081], [0.010591, 0.149658]];
fn penc<T: Fl>(k: usize, x: T) -> T { let c = |v: f64| T::c(v); let t = J[k][0]; match k {
    0 => if x <= c(t) { c(12.92) * x } else { c(1.055) * x.powf(c(1.0) / c(2.4)) - c(0.055) },
    1 | 2 => if x < c(t) { c(4.5) * x } else { c(1.099) * x.powf(c(0.45)) - c(0.099) },
    _ => if x > c(t) { c(0.247190) * (c(5.555556) * x + c(0.052272)).log10() + c(0.385537) } else { c(5.367655) * x + c(0.092809) } } }
fn pdec<T: Fl>(k: usize, f: T) -> T { let c = |v: f64| T::c(v); let t = J[k][1]; match k {
    0 => if f <= c(t) { f / c(12.92) } else { ((f + c(0.055)) / c(1.055)).powf(c(2.4)) },
    1 | 2 => if f < c(t) { f / c(4.5) } else { ((f + c(0.099)) / c(1.099)).powf(c(1.0) / c(0.45)) },
    _ => if f > c(t) { (c(10.0).powf((f - c(0.385537)) / c(0.247190)) - c(0.052272)) / c(5.555556) } else { (f - c(0.092809)) / c(5.367655) } } }
fn off_junction<T: Fl>(x: T, t: f64) -> bool { let t = T::c(t); assume_ne(x, t); symbolic() || (x - t).abs() > T::c(1e-6) }
fn curve_enc<T: Fl>(k: usize) { let x = T::wide(-1e3, 1e3); if off_junction(x, J[k][0]) { near("encoding is the published curve", enc(k, x), penc(k, x), 1e-8, mx(&[x])); } }
fn curve_dec<T: Fl>(k: usize) { let x = T::wide(-1e3, if k == 3 { 1.1 } else { 20.0 }); if off_junction(x, J[k][1]) { let p = pdec(k, x); near("decoding is the published curve", dec(k, x), p, 1e-8, mx(&[x * T::c(20.0), p * T::c(20.0)])); } }
fn channels<T: Fl>() {
    let k = case(5); let h = if k == 3 { 1.5 } else { 16.0 }; let c = RGBf { r: T::wide(-h, h), g: T::wide(-h, h), b: T::wide(-h, h) }; let (e, d) = match k { 0 => (encode::srgb(c), decode::srgb(c)), 1 => (encode::bt709(c), decode::bt709(c)), 2 => (encode::bt2020(c), decode::bt2020(c)), 3 => (encode::alexa_logc_v3(c), decode::alexa_logc_v3(c)), _ => (encode::linear(c), decode::linear(c)) };
    let s = T::c(if k == 3 { 1e5 } else { 1e4 });
    eq("red is encoded by itself", e.r, enc(k, c.r), s); eq("green is encoded by itself", e.g, enc(k, c.g), s); eq("blue is encoded by itself", e.b, enc(k, c.b), s);
    eq("red is decoded by itself", d.r, dec(k, c.r), s); eq("green is decoded by itself", d.g, dec(k, c.g), s); eq("blue is decoded by itself", d.b, dec(k, c.b), s);
}
fn linear<T: Fl>() { let x = T::anyv(); check("linear encoding is the identity", enc(4, x) == x); check("linear decoding is the identity", dec(4, x) == x); }
fn round<T: Fl>() { let k = case(4); let x = T::any(-1.0, 1.0); near("decoding undoes encoding", dec(k, enc(k, x)), x, match k { 0 => 5e-9, 3 => 2e-7, _ => 1e-12 } + if T::F32 { 1e-7 } else { 0.0 }, T::c(20.0)); }
fn mono_enc<T: Fl>(k: usize) { let (x, y) = (T::any(-10.0, 10.0), T::any(-10.0, 10.0)); assume_le(x, y); le("encoding never decreases (beyond the rounding of the published constants)", enc(k, x), enc(k, y) + T::c([5e-8, 0.0, 0.0, 4e-7][k]), T::c(40.0)); }
fn mono_dec<T: Fl>(k: usize) { let h = if k == 3 { 1.1 } else { 3.0 }; let (x, y) = (T::any(-10.0, h), T::any(-10.0, h)); assume_le(x, y); le("decoding never decreases (beyond the rounding of the published constants)", dec(k, x), dec(k, y) + T::c([5e-9, 6e-5, 6e-5, 0.0][k]), T::c(40.0)); }
#[no_mangle] pub fn c06_curve_enc_f64() { curve_enc::<f64>(case(4)) }
#[no_mangle] pub fn c06_curve_enc_f32() { curve_enc::<f32>(case(4)) }
#[no_mangle] pub fn c06_curve_dec_f64() { curve_dec::<f64>(case(4)) }
#[no_mangle] pub fn c06_curve_dec_f32() { curve_dec::<f32>(case(4)) }
#[no_mangle] pub fn c06_channels_f64() { channels::<f64>() }
#[no_mangle] pub fn c06_channels_f32() { channels::<f32>() }
#[no_mangle] pub fn c06_linear_f64() { linear::<f64>() }
#[no_mangle] pub fn c06_linear_f32() { linear::<f32>() }
#[no_mangle] pub fn c06_round_f64() { round::<f64>() }
#[no_mangle] pub fn c06_round_f32() { round::<f32>() }
#[no_mangle] pub fn c06_mono_enc_f64() { mono_enc::<f64>(case(4)) }
#[no_mangle] pub fn c06_mono_enc_f32() { mono_enc::<f32>(case(4)) }
#[no_mangle] pub fn c06_mono_dec_f64() { mono_dec::<f64>(case(4)) }
#[no_mangle] pub fn c06_mono_dec_f32() { mono_dec::<f32>(case(4)) }
