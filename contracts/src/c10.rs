//! C10: Lab and XYZ
use crate::vp::*;
use colorspace::chromaticity::XYY; use colorspace::xyz::XYZ;
use colorspace::lab::{lab, lab_to_xyz, xyz_to_lab, Lab};
/// the CIE function
fn f<T: Fl>(t: T) -> T { let c = |v: f64| T::c(v); if t > c(216.0) / c(24389.0) { t.powf(c(1.0) / c(3.0)) } else { (c(24389.0) / c(27.0) * t + c(16.0)) / c(116.0) } }
/// a white, on the usual scale of 100, on the unit scale or any other
fn white<T: Fl>() -> XYZ<T> { let s = T::c([1.0, 0.01, 1e-4, 100.0][case(4)]); let w = XYZ::new(T::wide(20.0, 200.0) * s, T::wide(20.0, 200.0) * s, T::wide(20.0, 200.0) * s); positive(w.x, 0.0); positive(w.y, 0.0); positive(w.z, 0.0); w }
/// natively the rounding slack follows the size of the numbers involved (and the logarithm of a power's argument)
fn big<T: Fl>(base: f64, vs: &[T]) -> T { let mut m = T::one(); if !symbolic() { for v in vs { let a = v.abs(); let k = T::one() + if a > T::zero() { a.ln().abs() * T::c(0.05) } else { T::zero() }; m = m.max(T::one() + a * T::c(1e-2)).max(k); } } T::c(base) * m }
fn def<T: Fl>() {
    let w = white::<T>(); let v = XYZ::new(T::wide(-100.0, 300.0), T::wide(-100.0, 300.0), T::wide(-100.0, 300.0)); let l: Lab<T> = xyz_to_lab(v, w); let (x, y, z) = (f(v.x / w.x), f(v.y / w.y), f(v.z / w.z)); let sc = big(2e4, &[x, y, z]) * if symbolic() { T::one() } else { T::one() + (v.x / w.x).abs().max((v.y / w.y).abs()).max((v.z / w.z).abs()).max(T::one()).ln() };
    eq("L = 116 f(Y/Yn) - 16", l.L, T::c(116.0) * y - T::c(16.0), sc); eq("a = 500 (f(X/Xn) - f(Y/Yn))", l.a, T::c(500.0) * (x - y), sc); eq("b = 200 (f(Y/Yn) - f(Z/Zn))", l.b, T::c(200.0) * (y - z), sc);
}
fn fixed<T: Fl>() {
    let w = white::<T>(); let one = T::c(1000.0); let z = T::zero();
    let l: Lab<T> = xyz_to_lab(w, w); eq("white has L = 100", l.L, T::c(100.0), one); eq("white has a = 0", l.a, z, one); eq("white has b = 0", l.b, z, one);
    let l: Lab<T> = xyz_to_lab(XYZ::new(z, z, z), w); eq("black has L = 0", l.L, z, one); eq("black has a = 0", l.a, z, one); eq("black has b = 0", l.b, z, one);
    let v = lab_to_xyz(lab(T::c(100.0), z, z), w); eq("L = 100 is the white, X", v.x, w.x, one); eq("L = 100 is the white, Y", v.y, w.y, one); eq("L = 100 is the white, Z", v.z, w.z, one);
    let v = lab_to_xyz(lab(z, z, z), w); eq("L = 0 is black, X", v.x, z, one); eq("L = 0 is black, Y", v.y, z, one); eq("L = 0 is black, Z", v.z, z, one);
}
fn mono<T: Fl>() { let w = white::<T>(); let (y1, y2) = (T::wide(-100.0, 300.0), T::wide(-100.0, 300.0)); assume_le(y1, y2); let (x, z) = (T::wide(0.0, 100.0), T::wide(0.0, 100.0)); let (a, b): (Lab<T>, Lab<T>) = (xyz_to_lab(XYZ::new(x, y1, z), w), xyz_to_lab(XYZ::new(z, y2, x), w)); le("lightness does not decrease with luminance", a.L, b.L, big(1e4, &[a.L, b.L])); }
fn there<T: Fl>() {
    let w = white::<T>(); let v = XYZ::new(T::wide(-100.0, 300.0), T::wide(-100.0, 300.0), T::wide(-100.0, 300.0)); let l: Lab<T> = xyz_to_lab(v, w); let b = lab_to_xyz(l, w); let sc = big(3e5, &[v.x, v.y, v.z]);
    eq("XYZ -> Lab -> XYZ returns X", b.x, v.x, sc); eq("XYZ -> Lab -> XYZ returns Y", b.y, v.y, sc); eq("XYZ -> Lab -> XYZ returns Z", b.z, v.z, sc);
}
fn back<T: Fl>() {
    let w = white::<T>(); let l = lab(T::wide(-50.0, 200.0), T::wide(-200.0, 200.0), T::wide(-200.0, 200.0)); let v = lab_to_xyz(l, w); let r: Lab<T> = xyz_to_lab(v, w); let sc = big(2e5, &[l.L, l.a, l.b]);
    eq("Lab -> XYZ -> Lab returns L", r.L, l.L, sc); eq("Lab -> XYZ -> Lab returns a", r.a, l.a, sc); eq("Lab -> XYZ -> Lab returns b", r.b, l.b, sc);
}
/// colours and whites given as xyY mean their XYZ
fn as_xyy<T: Fl>() {
    let c = |_: u32| XYY::new(T::any(0.1, 0.8), T::any(0.1, 0.8), T::any(0.1, 1.5)); let (v, w) = (c(0), c(1)); let sc = T::c(1e5); let (vx, wx) = (XYZ::<T>::from(v), XYZ::<T>::from(w));
    if !symbolic() && wx.z.abs() < T::c(1.0) { return; } assume_le(T::c(0.01), (T::one() - w.x - w.y).abs());
    let (p, q): (Lab<T>, Lab<T>) = (xyz_to_lab(v, w), xyz_to_lab(vx, wx)); eq("an xyY colour means its XYZ, L", p.L, q.L, sc); eq("an xyY colour means its XYZ, a", p.a, q.a, sc); eq("an xyY colour means its XYZ, b", p.b, q.b, sc);
    let l = lab(T::wide(0.0, 100.0), T::wide(-100.0, 100.0), T::wide(-100.0, 100.0)); let (p, q) = (lab_to_xyz(l, w), lab_to_xyz(l, wx)); eq("an xyY white means its XYZ, X", p.x, q.x, sc); eq("an xyY white means its XYZ, Y", p.y, q.y, sc); eq("an xyY white means its XYZ, Z", p.z, q.z, sc);
    check("the Lab constructor keeps its arguments in order", { let m = lab(l.a, l.b, l.L); m.L == l.a && m.a == l.b && m.b == l.L });
}
#[no_mangle] pub fn c10_definition_f64() { def::<f64>() }
#[no_mangle] pub fn c10_definition_f32() { def::<f32>() }
#[no_mangle] pub fn c10_fixed_f64() { fixed::<f64>() }
#[no_mangle] pub fn c10_fixed_f32() { fixed::<f32>() }
#[no_mangle] pub fn c10_mono_f64() { mono::<f64>() }
#[no_mangle] pub fn c10_there_f64() { there::<f64>() }
#[no_mangle] pub fn c10_there_f32() { there::<f32>() }
#[no_mangle] pub fn c10_back_f64() { back::<f64>() }
#[no_mangle] pub fn c10_back_f32() { back::<f32>() }
#[no_mangle] pub fn c10_as_xyy_f64() { as_xyy::<f64>() }
