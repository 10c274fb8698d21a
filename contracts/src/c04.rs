//! C04: colour spaces built from primaries and white
use crate::vp::*;
use colorspace::color_space_rgb::ColorSpaceRGB;
use colorspace::math::Matrix33;
use colorspace::rgb::RGBf; use colorspace::chromaticity::XYY; use colorspace::xyz::XYZ;
fn xyy<T: Fl>() -> XYY<T> { XYY::new(T::any(-0.2, 1.2), T::any(-0.2, 1.2), T::wide(0.1, 100.0)) }
fn zed<T: Fl>(c: XYY<T>) -> T { T::one() - c.x - c.y }
fn build<T: Fl>() {
    let (r, g, b, w) = (xyy::<T>(), xyy::<T>(), xyy::<T>(), xyy::<T>());
    let one = T::one();
    // well-conditioned primaries: a proper triangle, a white inside representable range
    let cr = |p: XYY<T>, q: XYY<T>| [p.y * zed(q) - q.y * zed(p), q.x * zed(p) - p.x * zed(q), p.x * q.y - q.x * p.y];
    let (kr, kg, kb) = (cr(g, b), cr(b, r), cr(r, g));
    assume_le(T::c(0.01), w.y);
    let wv = |k: [T; 3]| (k[0] * w.x + k[1] * w.y + k[2] * zed(w)) / w.y;
    let (rw, gw, bw) = (wv(kr), wv(kg), wv(kb)); let tri = r.x * kr[0] + r.y * kr[1] + zed(r) * kr[2];
    for v in [rw, gw, bw, tri] { assume_le(T::c(0.02), v.abs()); }
    let m = [kr[0] / rw, kr[1] / rw, kr[2] / rw, kg[0] / gw, kg[1] / gw, kg[2] / gw, kb[0] / bw, kb[1] / bw, kb[2] / bw];
    let cof = [m[4] * m[8] - m[5] * m[7], m[2] * m[7] - m[1] * m[8], m[1] * m[5] - m[2] * m[4], m[5] * m[6] - m[3] * m[8], m[0] * m[8] - m[2] * m[6], m[2] * m[3] - m[0] * m[5], m[3] * m[7] - m[4] * m[6], m[1] * m[6] - m[0] * m[7], m[0] * m[4] - m[1] * m[3]];
    let det = m[0] * cof[0] + m[1] * cof[3] + m[2] * cof[6];
    assume_le(T::c(1e-4), det.abs()); for c in cof { assume_le(c.abs(), T::c(1e6)); }
    let (q1, q2) = (T::wide(-3.0, 3.0), T::wide(-3.0, 3.0));
    let cs = ColorSpaceRGB::<T>::new(r, g, b, w, Box::new(move |c: RGBf<T>| RGBf { r: c.r * q1, g: c.g + q1, b: q1 }), Box::new(move |c: RGBf<T>| RGBf { r: q2, g: c.b * q2, b: c.g - q2 }));
    let sc = if symbolic() { one } else { let mut s = one; for i in 0..9 { s = s + cs.xf_xyz_to_rgb.x[i].abs() } let mut u = one; for i in 0..9 { u = u + cs.xf_rgb_to_xyz.x[i].abs() } if s * u * s > T::c(1e4) { return; } s * u * s };
    let (p, q) = (cs.xf_xyz_to_rgb * cs.xf_rgb_to_xyz, cs.xf_rgb_to_xyz * cs.xf_xyz_to_rgb); let id = Matrix33::<T>::make_identity();
    for i in 0..9 { eq("xyz->rgb and rgb->xyz matrices are inverse", p.x[i], id.x[i], sc); eq("rgb->xyz and xyz->rgb matrices are inverse", q.x[i], id.x[i], sc); }
    let white = XYZ::new(w.x / w.y, one, zed(w) / w.y); let c = cs.xf_xyz_to_rgb * white; let ws = sc * mx(&[white.x, white.z]);
    eq("unit-luminance white is RGB (1,1,1), R", c.x, one, ws); eq("unit-luminance white is RGB (1,1,1), G", c.y, one, ws); eq("unit-luminance white is RGB (1,1,1), B", c.z, one, ws);
    let prim = |k: XYY<T>| cs.xf_xyz_to_rgb * XYZ::new(k.x, k.y, zed(k));
    let z = T::zero(); let c = prim(r); eq("red primary has no green", c.y, z, sc); eq("red primary has no blue", c.z, z, sc); eq("red primary has red", c.x, tri / rw, sc);
    let c = prim(g); eq("green primary has no red", c.x, z, sc); eq("green primary has no blue", c.z, z, sc); eq("green primary has green", c.y, tri / gw, sc);
    let c = prim(b); eq("blue primary has no red", c.x, z, sc); eq("blue primary has no green", c.y, z, sc); eq("blue primary has blue", c.z, tri / bw, sc);
    stored(&cs, r, g, b, w, q1, q2);
}
/// primaries like those in use, in any order, and a white anywhere: inside their triangle or far outside, natively
#[no_mangle] pub fn c04_native_white_anywhere() { if symbolic() { return; }
    let o = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][case(6)]; let k = [(0.66, 0.33), (0.24, 0.66), (0.15, 0.06)]; let j = |i: usize| XYY::new(k[o[i]].0 + f64::any(-0.05, 0.05), k[o[i]].1 + f64::any(-0.04, 0.04), f64::any(0.1, 2.0));
    let (r, g, b) = (j(0), j(1), j(2)); let w = XYY::new(f64::any(-0.2, 1.0), f64::any(0.03, 1.0), f64::any(0.1, 2.0)); let u = xy_cross(g, b, w); let v = xy_cross(b, r, w); let t = xy_cross(r, g, w); for c in [u, v, t] { assume_le(0.01, c.abs()); }
    let cs = ColorSpaceRGB::<f64>::new(r, g, b, w, Box::new(|c: RGBf<f64>| c), Box::new(|c: RGBf<f64>| c)); let p = cs.xf_xyz_to_rgb * cs.xf_rgb_to_xyz; let id = Matrix33::<f64>::make_identity(); for i in 0..9 { eq("xyz->rgb and rgb->xyz matrices are inverse", p.x[i], id.x[i], 1e6); }
    let white = XYZ::new(w.x / w.y, 1.0, zed(w) / w.y); let c = cs.xf_xyz_to_rgb * white; for i in [c.x, c.y, c.z] { eq("unit-luminance white is RGB (1,1,1)", i, 1.0, 1e6); }
    for (i, q) in [r, g, b].iter().enumerate() { let c = cs.xf_xyz_to_rgb * XYZ::new(q.x, q.y, zed(*q)); let c = [c.x, c.y, c.z]; for n in 0..3 { if n != i { eq("a primary maps to its channel alone", c[n], 0.0, 1e6); } else { check("a primary reaches its channel", c[n].abs() > 1e-6); } } } }
fn xy_cross(p: XYY<f64>, q: XYY<f64>, w: XYY<f64>) -> f64 { (q.x - p.x) * (w.y - p.y) - (q.y - p.y) * (w.x - p.x) }
fn same<T: Fl>(a: XYY<T>, b: XYY<T>) -> bool { a.x == b.x && a.y == b.y && a.Y == b.Y }
fn stored<T: Fl>(cs: &ColorSpaceRGB<T>, r: XYY<T>, g: XYY<T>, b: XYY<T>, w: XYY<T>, q1: T, q2: T) {
    check("red is stored as supplied", same(cs.red, r)); check("green is stored as supplied", same(cs.green, g)); check("blue is stored as supplied", same(cs.blue, b)); check("white is stored as supplied", same(cs.white, w));
    let c = RGBf { r: T::anyv(), g: T::anyv(), b: T::anyv() };
    let e = cs.encode(c); check("encode is the supplied OETF", e.r == c.r * q1 && e.g == c.g + q1 && e.b == q1);
    let d = cs.decode(c); check("decode is the supplied EOTF", d.r == q2 && d.g == c.b * q2 && d.b == c.g - q2);
}
fn specified<T: Fl>() {
    let (r, g, b, w) = (xyy::<T>(), xyy::<T>(), xyy::<T>(), xyy::<T>());
    let (mut a, mut m) = ([T::zero(); 9], [T::zero(); 9]); for i in 0..9 { a[i] = T::anyv(); m[i] = T::anyv(); }
    let (q1, q2) = (T::wide(-3.0, 3.0), T::wide(-3.0, 3.0));
    let cs = ColorSpaceRGB::<T>::new_with_specified_matrices(r, g, b, w, Matrix33 { x: a }, Matrix33 { x: m }, Box::new(move |c: RGBf<T>| RGBf { r: c.r * q1, g: c.g + q1, b: q1 }), Box::new(move |c: RGBf<T>| RGBf { r: q2, g: c.b * q2, b: c.g - q2 }));
    for i in 0..9 { check("the supplied XYZ-to-RGB matrix is stored", cs.xf_xyz_to_rgb.x[i] == a[i]); check("the supplied RGB-to-XYZ matrix is stored", cs.xf_rgb_to_xyz.x[i] == m[i]); }
    stored(&cs, r, g, b, w, q1, q2);
}
#[no_mangle] pub fn c04_new_f64() { build::<f64>() }
#[no_mangle] pub fn c04_new_f32() { build::<f32>() }
#[no_mangle] pub fn c04_specified_f64() { specified::<f64>() }
#[no_mangle] pub fn c04_specified_f32() { specified::<f32>() }
