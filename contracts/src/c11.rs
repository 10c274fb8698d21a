//! C11: CIE 1976 colour difference
use crate::vp::*;
use colorspace::lab::{delta_E_1976, lab, Lab};
fn any<T: Fl>() -> Lab<T> { lab(T::wide(-200.0, 200.0), T::wide(-300.0, 300.0), T::wide(-300.0, 300.0)) }
fn basic<T: Fl>() {
    let (p, q) = (any::<T>(), any::<T>()); let d = delta_E_1976(p, q); let (l, a, b) = (p.L - q.L, p.a - q.a, p.b - q.b); let sc = T::c(1e3); let z = T::zero();
    eq("the squared difference is the squared Euclidean distance", d * d, l * l + a * a + b * b, T::c(1e6)); le("never negative", z, d, z);
    eq("symmetric", delta_E_1976(q, p), d, sc); eq("zero for equal colours", delta_E_1976(p, p), z, z);
    le("at least the lightness difference", l.abs(), d, sc); le("at least the a difference", a.abs(), d, sc); le("at least the b difference", b.abs(), d, sc); // so it is zero only for equal colours
    let s = any::<T>(); let (p2, q2) = (lab(p.L + s.L, p.a + s.a, p.b + s.b), lab(q.L + s.L, q.a + s.a, q.b + s.b)); if symbolic() { eq("unchanged by a common shift", delta_E_1976(p2, q2), d, sc); } else { near("unchanged by a common shift", delta_E_1976(p2, q2), d, 2e3 * T::EPS, sc); }
}
fn triangle<T: Fl>() { let (p, q, r) = (any::<T>(), any::<T>(), any::<T>()); let (x, y, d) = (delta_E_1976(p, q), delta_E_1976(q, r), delta_E_1976(p, r)); let sc = T::c(1e3);
    // Cauchy-Schwarz for the two legs: the ghost facts from which the inequality follows
    let (u, v) = ([p.L - q.L, p.a - q.a, p.b - q.b], [q.L - r.L, q.a - r.a, q.b - r.b]); let dot = u[0] * v[0] + u[1] * v[1] + u[2] * v[2]; let cr = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]];
    let big = T::c(1e13); eq("triangle lemma: d^2 = x^2 + y^2 + 2 u.v", d * d, x * x + y * y + dot + dot, T::c(1e6)); eq("triangle lemma: (xy)^2 - (u.v)^2 is a sum of squares", (x * x) * (y * y), dot * dot + cr[0] * cr[0] + cr[1] * cr[1] + cr[2] * cr[2], big);
    if !symbolic() { le("triangle inequality", d, x + y, sc); } }
/// the inequality from the two lemmas, for any numbers that satisfy them
fn triangle_from_lemmas() { let (d, x, y, dot, k) = (f64::any(0.0, f64::INFINITY), f64::any(0.0, f64::INFINITY), f64::any(0.0, f64::INFINITY), f64::anyv(), f64::any(0.0, f64::INFINITY)); if !symbolic() { return; }
    assume_le(d * d, x * x + y * y + dot + dot); assume_le(x * x + y * y + dot + dot, d * d); assume_le((x * x) * (y * y), dot * dot + k); assume_le(dot * dot + k, (x * x) * (y * y)); le("triangle inequality from its lemmas", d, x + y, 1.0); }
#[no_mangle] pub fn c11_basic_f64() { basic::<f64>() }
#[no_mangle] pub fn c11_basic_f32() { basic::<f32>() }
#[no_mangle] pub fn c11_triangle_f64() { triangle::<f64>() }
#[no_mangle] pub fn c11_triangle_f32() { triangle::<f32>() }
#[no_mangle] pub fn c11_triangle_from_lemmas() { triangle_from_lemmas() }
