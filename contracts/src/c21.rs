//! C21: daylight locus
use crate::vp::*;
use colorspace::illuminant::xy::cct;
fn locus<T: Fl>() {
    let t = T::any(4000.0, 25000.0); let c = |x: f64| T::c(x); let (t2, t3) = (t * t, t * t * t);
    let x = if t <= c(7000.0) { c(0.244063) + c(0.09911e3) / t + c(2.9678e6) / t2 - c(4.6070e9) / t3 } else { c(0.237040) + c(0.24748e3) / t + c(1.9018e6) / t2 - c(2.0064e9) / t3 };
    match cct(t) { Ok(r) => { eq("x follows the published polynomial of its branch", r.x, x, c(1.0)); eq("y follows the published locus", r.y, c(-3.0) * x * x + c(2.870) * x - c(0.275), c(2.0)); eq("unit luminance", r.Y, T::one(), T::zero()); lt("x is positive", T::zero(), r.x); lt("y is positive", T::zero(), r.y); lt("x + y is below one", r.x + r.y, T::one()); }
        Err(_) => check("temperatures from 4000 K to 25000 K are accepted", false) }
}
fn outside<T: Fl>() { let t = if case(2) == 0 { let t = T::any(f64::NEG_INFINITY, 4000.0); assume_lt(t, T::c(4000.0)); t } else { let t = T::any(25000.0, f64::INFINITY); assume_lt(T::c(25000.0), t); t }; check("temperatures outside 4000 K to 25000 K are an error", cct(t).is_err()); }
fn decreasing<T: Fl>() { let (a, b) = (T::any(4000.0, 25000.0), T::any(4000.0, 25000.0)); assume_lt(a, b); let c7 = T::c(7000.0); let same = (a <= c7) == (b <= c7);
    let (Ok(p), Ok(q)) = (cct(a), cct(b)) else { check("temperatures from 4000 K to 25000 K are accepted", false); return; };
    if same { if symbolic() { lt("x decreases with temperature within a branch", q.x, p.x); } else { le("x decreases with temperature within a branch", q.x, p.x, T::one()); } } else { le("x decreases across the junction up to the published rounding", q.x, p.x + T::c(2e-5), T::one()); } }
/// infinities, NaN, both neighbours of both bounds, zero and negative temperatures
#[no_mangle] pub fn c21_special() {
    let n = |x: f64, up: bool| f64::from_bits(if up { x.to_bits() + 1 } else { x.to_bits() - 1 }); let m = |x: f32, up: bool| f32::from_bits(if up { x.to_bits() + 1 } else { x.to_bits() - 1 });
    for t in [f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, -5000.0, 5e-324, f64::MAX, f64::MIN, 3999.0, 25001.0, -7000.0, 1e-300] { check("values that are not temperatures from 4000 K to 25000 K are an error", cct(t).is_err()); }
    for t in [f32::NAN, -f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 0.0, -0.0, -5000.0, 1e-45, f32::MAX, f32::MIN, 3999.0, 25001.0, -7000.0, 1e-38] { check("values that are not temperatures from 4000 K to 25000 K are an error (f32)", cct(t).is_err()); }
    if !symbolic() { for t in [n(4000.0, false), n(25000.0, true)] { check("the next value outside the bounds is an error", cct(t).is_err()); } for t in [m(4000.0, false), m(25000.0, true)] { check("the next value outside the bounds is an error (f32)", cct(t).is_err()); } } // the verifier covers these in c21_outside
    for t in [4000.0, 25000.0, 7000.0, n(4000.0, true), n(25000.0, false), n(7000.0, true), n(7000.0, false)] { check("both bounds and the junction are accepted", cct(t).is_ok()); }
    for t in [4000.0f32, 25000.0, 7000.0, m(4000.0, true), m(25000.0, false), m(7000.0, true), m(7000.0, false)] { check("both bounds and the junction are accepted (f32)", cct(t).is_ok()); }
}
#[no_mangle] pub fn c21_locus_f64() { locus::<f64>() }
#[no_mangle] pub fn c21_locus_f32() { locus::<f32>() }
#[no_mangle] pub fn c21_outside_f64() { outside::<f64>() }
#[no_mangle] pub fn c21_outside_f32() { outside::<f32>() }
#[no_mangle] pub fn c21_decreasing_f64() { decreasing::<f64>() }
#[no_mangle] pub fn c21_decreasing_f32() { decreasing::<f32>() }
