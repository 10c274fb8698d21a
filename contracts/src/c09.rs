//! C09: xyY and XYZ
use crate::vp::*;
use colorspace::chromaticity::{xy, XYY}; use colorspace::xyz::XYZ;
fn chroma<T: Fl>() -> XYY<T> { let c = XYY::new(T::wide(-2.0, 2.0), T::wide(-2.0, 2.0), T::wide(-3.0, 3.0)); away(c.y, 1e-2); away(c.Y, 1e-2); c }
fn from_xyy<T: Fl>() {
    let c = chroma::<T>(); let (x, via) = (XYZ::from_chromaticity(c), XYZ::<T>::from(c)); let h = T::c(100.0); let sc = T::c(5e5); let m = T::c(600.0) / c.y;
    eq("xyY to XYZ: X = 100 x Y / y", x.x, h * c.x * c.Y / c.y, m); eq("xyY to XYZ: Y = 100 Y", x.y, h * c.Y, h); eq("xyY to XYZ: Z = 100 (1-x-y) Y / y", x.z, h * (T::one() - c.x - c.y) * c.Y / c.y, m);
    check("the From conversion is the same conversion", via.x == x.x && via.y == x.y && via.z == x.z);
    let b = XYY::from_xyz(x); eq("xyY -> XYZ -> xyY returns x", b.x, c.x, sc); eq("xyY -> XYZ -> xyY returns y", b.y, c.y, sc); eq("xyY -> XYZ -> xyY returns Y", b.Y, c.Y, T::c(3.0));
}
fn tri<T: Fl>() -> XYZ<T> { let v = XYZ::new(T::wide(-300.0, 300.0), T::wide(-300.0, 300.0), T::wide(-300.0, 300.0)); away(v.x + v.y + v.z, 1.0); away(v.y, 1.0); v }
fn from_xyz<T: Fl>() {
    let v = tri::<T>(); let s = v.x + v.y + v.z; let (c, via) = (XYY::from_xyz(v), XYY::<T>::from(v)); let sc = T::c(1e6);
    eq("XYZ to xyY: x = X / (X+Y+Z)", c.x, v.x / s, sc); eq("XYZ to xyY: y = Y / (X+Y+Z)", c.y, v.y / s, sc); eq("XYZ to xyY: Y = Y / 100", c.Y, v.y / T::c(100.0), T::c(3.0));
    check("the From conversion is the same conversion", via.x == c.x && via.y == c.y && via.Y == c.Y);
    if !symbolic() && c.y.abs() < T::c(1e-3) { return; }
    let b = XYZ::from_chromaticity(c); let sc = T::c(1e8); eq("XYZ -> xyY -> XYZ returns X", b.x, v.x, sc); eq("XYZ -> xyY -> XYZ returns Y", b.y, v.y, sc); eq("XYZ -> xyY -> XYZ returns Z", b.z, v.z, sc);
}
fn scale<T: Fl>() {
    let v = tri::<T>(); let k = T::wide(0.01, 100.0); away(k, 0.01); let (a, b) = (XYY::from_xyz(v), XYY::from_xyz(XYZ::new(v.x * k, v.y * k, v.z * k))); let sc = T::c(1e6);
    eq("chromaticity x does not depend on scale", a.x, b.x, sc); eq("chromaticity y does not depend on scale", a.y, b.y, sc); eq("luminance scales", a.Y * k, b.Y, T::c(300.0));
    for (l, n) in [(T::one(), v.normalized()), (T::c(100.0), v.normalized_y())] { // to 1 and to 100
        let m = T::c(1000.0) * l; eq("normalisation sets the luminance", n.y, l, l); eq("normalisation keeps X/Y", n.x * v.y, v.x * l, m * T::c(100.0)); eq("normalisation keeps Z/Y", n.z * v.y, v.z * l, m * T::c(100.0)); }
}
fn unit<T: Fl>() { let (x, y) = (T::wide(-2.0, 2.0), T::wide(-2.0, 2.0)); away(y, 1e-2); let c = xy(x, y); check("a chromaticity without luminance has unit luminance", c.x == x && c.y == y && c.Y == T::one());
    let (a, b) = (XYZ::from_xy(x, y), XYZ::from_chromaticity(XYY::new(x, y, T::one()))); check("XYZ from a chromaticity without luminance has unit luminance", a.x == b.x && a.y == b.y && a.z == b.z); let n = XYY::new(y, x, T::c(0.25)); check("the xyY constructor keeps its arguments in order", n.x == y && n.y == x && n.Y == T::c(0.25)); }
#[no_mangle] pub fn c09_from_xyy_f64() { from_xyy::<f64>() }
#[no_mangle] pub fn c09_from_xyy_f32() { from_xyy::<f32>() }
#[no_mangle] pub fn c09_from_xyz_f64() { from_xyz::<f64>() }
#[no_mangle] pub fn c09_from_xyz_f32() { from_xyz::<f32>() }
#[no_mangle] pub fn c09_scale_f64() { scale::<f64>() }
#[no_mangle] pub fn c09_scale_f32() { scale::<f32>() }
#[no_mangle] pub fn c09_unit_f64() { unit::<f64>() }
#[no_mangle] pub fn c09_unit_f32() { unit::<f32>() }
