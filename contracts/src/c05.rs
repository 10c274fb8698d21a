//! C05: the built-in colour spaces
use crate::vp::*;
use colorspace::color_space_rgb::{model_f32 as s, model_f64 as d, ColorSpaceRGB};
use colorspace::math::Matrix33;
use colorspace::rgb::RGBf; use colorspace::chromaticity::XYY; use colorspace::xyz::XYZ;
/// published chromaticities: red, green, blue, white
const P: [[f64; 8]; 10] = [
    [0.64, 0.33, 0.30, 0.60, 0.15, 0.06, 0.3127, 0.3290], [0.64, 0.33, 0.30, 0.60, 0.15, 0.06, 0.3127, 0.3290], [0.64, 0.33, 0.30, 0.60, 0.15, 0.06, 0.3127, 0.3290],
    [0.708, 0.292, 0.17, 0.797, 0.131, 0.046, 0.3127, 0.3290], [0.680, 0.320, 0.265, 0.690, 0.150, 0.060, 0.314, 0.351], [0.680, 0.320, 0.265, 0.690, 0.150, 0.060, 0.3127, 0.3290],
    [0.7347, 0.2653, 0.0, 1.0, 0.0001, -0.077, 0.32168, 0.33767], [0.713, 0.293, 0.165, 0.830, 0.128, 0.044, 0.32168, 0.33767],
    [0.64, 0.33, 0.21, 0.71, 0.15, 0.06, 0.3127, 0.3290], [0.6840, 0.3130, 0.2210, 0.8480, 0.0861, -0.102, 0.3127, 0.3290]];
/// rounding of the published tables: of the matrix pair, of white and primaries
const TOL: [[f64; 2]; 10] = [[6e-5, 2.5e-4], [1e-12, 1e-12], [1e-12, 1e-12], [1e-12, 1e-12], [1e-12, 1e-12], [1e-12, 1e-12], [2e-10, 2e-10], [1e-12, 1e-12], [1.2e-5, 2e-5], [1.5e-6, 3e-6]];
fn d64(k: usize) -> &'static ColorSpaceRGB<f64> { match k { 0 => &d::SRGB, 1 => &d::SRGB_DRV, 2 => &d::ITUR_BT709, 3 => &d::ITUR_BT2020, 4 => &d::DCI_P3, 5 => &d::DCI_P3_D65, 6 => &d::ACES, 7 => &d::ACES_CG, 8 => &d::ADOBE_RGB_1998, _ => &d::ALEXA_WIDE_GAMUT } }
fn s32(k: usize) -> &'static ColorSpaceRGB<f32> { match k { 0 | 1 => &s::SRGB, 2 => &s::ITUR_BT709, 3 => &s::ITUR_BT2020, 4 => &s::DCI_P3, 5 => &s::DCI_P3_D65, 6 => &s::ACES, 7 => &s::ACES_CG, 8 => &s::ADOBE_RGB_1998, _ => &s::ALEXA_WIDE_GAMUT } }
fn consistent<T: Fl>(k: usize, cs: &ColorSpaceRGB<T>) {
    let fl = if T::F32 { 5e-7 } else { 0.0 }; let p = |i: usize| T::c(P[k][i]); let one = T::one(); let z = T::zero(); let sc = T::c(20.0);
    let chk = |l: &'static str, c: XYY<T>, i: usize| { eq(l, c.x, p(i), one); eq(l, c.y, p(i + 1), one); eq(l, c.Y, one, one); };
    chk("the red primary is the published one", cs.red, 0); chk("the green primary is the published one", cs.green, 2); chk("the blue primary is the published one", cs.blue, 4); chk("the white point is the published one", cs.white, 6);
    let (a, b) = (cs.xf_xyz_to_rgb * cs.xf_rgb_to_xyz, cs.xf_rgb_to_xyz * cs.xf_xyz_to_rgb); let id = Matrix33::<T>::make_identity();
    for i in 0..9 { near("xyz->rgb undoes rgb->xyz", a.x[i], id.x[i], TOL[k][0] + fl, sc); near("rgb->xyz undoes xyz->rgb", b.x[i], id.x[i], TOL[k][0] + fl, sc); }
    let t = TOL[k][1] + fl; let v = |c: XYY<T>| XYZ::new(c.x / c.y, one, (one - c.x - c.y) / c.y);
    let w = cs.xf_xyz_to_rgb * v(cs.white); near("white maps to R = 1", w.x, one, t, sc); near("white maps to G = 1", w.y, one, t, sc); near("white maps to B = 1", w.z, one, t, sc);
    let u = |c: XYY<T>| XYZ::new(c.x, c.y, one - c.x - c.y);
    let r = cs.xf_xyz_to_rgb * u(cs.red); near("red primary has no green", r.y, z, t, sc); near("red primary has no blue", r.z, z, t, sc); le("red primary has red", T::c(0.5), r.x, sc);
    let g = cs.xf_xyz_to_rgb * u(cs.green); near("green primary has no red", g.x, z, t, sc); near("green primary has no blue", g.z, z, t, sc); le("green primary has green", T::c(0.5), g.y, sc);
    let b = cs.xf_xyz_to_rgb * u(cs.blue); near("blue primary has no red", b.x, z, t, sc); near("blue primary has no green", b.y, z, t, sc); le("blue primary has blue", T::c(0.5), b.z, sc);
    let q = cs.xf_rgb_to_xyz * XYZ::new(one, one, one); let w = v(cs.white); let t = 4.0 * t;
    near("RGB (1,1,1) is the white, X", q.x, w.x, t, sc); near("RGB (1,1,1) is the white, Y", q.y, w.y, t, sc); near("RGB (1,1,1) is the white, Z", q.z, w.z, t, sc);
}
fn coder<T: Fl>(cs: &ColorSpaceRGB<T>, k: usize) {
    let c = RGBf { r: T::unit(), g: T::unit(), b: T::unit() };
    let e = cs.encode(c); let d = cs.decode(e); let sc = T::c(40.0); let one = T::one();
    let t = match k { 0 | 1 => 5e-9, 9 => 2e-7, _ => 1e-12 } + if T::F32 { 1e-7 } else { 0.0 };
    near("decoding undoes encoding, R", d.r, c.r, t, sc); near("decoding undoes encoding, G", d.g, c.g, t, sc); near("decoding undoes encoding, B", d.b, c.b, t, sc);
    // each channel is coded by itself
    let f = cs.encode(RGBf { r: c.r, g: c.r, b: c.r }); eq("channels are encoded alike, G", f.g, f.r, one); eq("channels are encoded alike, B", f.b, f.r, one); eq("channels are encoded separately", f.r, e.r, one);
}
fn prec() {
    let k = case(9) + 1; let (a, b) = (d64(if k == 1 { 0 } else { k }), s32(k)); let one = 1f32;
    let chk = |l: &'static str, x: XYY<f64>, y: XYY<f32>| { eq(l, x.x as f32, y.x, one); eq(l, x.y as f32, y.y, one); eq(l, x.Y as f32, y.Y, one); };
    chk("both precisions have the same red", a.red, b.red); chk("both precisions have the same green", a.green, b.green); chk("both precisions have the same blue", a.blue, b.blue); chk("both precisions have the same white", a.white, b.white);
    for i in 0..9 { near("both precisions have the same xyz->rgb matrix", a.xf_xyz_to_rgb.x[i] as f32, b.xf_xyz_to_rgb.x[i], 2e-7, 0.1); near("both precisions have the same rgb->xyz matrix", a.xf_rgb_to_xyz.x[i] as f32, b.xf_rgb_to_xyz.x[i], 2e-7, 0.1); }
    let x = f32::unit(); let sc = 2f32; // away from the junctions of the piecewise curves, where one ulp selects another branch
    let (p, q) = (a.encode(RGBf { r: x as f64, g: x as f64, b: x as f64 }), b.encode(RGBf { r: x, g: x, b: x }));
    near("both precisions encode alike", p.g as f32, q.g, 1e-6, sc);
    let (p, q) = (a.decode(RGBf { r: x as f64, g: x as f64, b: x as f64 }), b.decode(RGBf { r: x, g: x, b: x }));
    if !symbolic() && k == 9 { near("both precisions decode alike", (p.g as f32 - q.g) / (1.0 + q.g.abs()), 0.0, 2e-5, sc); } else if !symbolic() { near("both precisions decode alike", p.g as f32, q.g, 1e-4, sc); } else { eq("both precisions decode alike", p.g as f32, q.g, sc); }
}
fn drv() { for i in 0..9 { near("the derived sRGB matrices are the published ones to their rounding", d::SRGB_DRV.xf_xyz_to_rgb.x[i], d::SRGB.xf_xyz_to_rgb.x[i], 5e-4, 1.0); near("the derived sRGB matrices are the published ones to their rounding", d::SRGB_DRV.xf_rgb_to_xyz.x[i], d::SRGB.xf_rgb_to_xyz.x[i], 5e-4, 1.0); }
    let x = f64::unit(); let c = RGBf { r: x, g: x, b: x }; eq("both sRGB definitions encode alike", d::SRGB_DRV.encode(c).r, d::SRGB.encode(c).r, 1.0); eq("both sRGB definitions decode alike", d::SRGB_DRV.decode(c).r, d::SRGB.decode(c).r, 1.0); }
#[no_mangle] pub fn c05_tables_f64() { let k = case(10); consistent(k, d64(k)) }
#[no_mangle] pub fn c05_tables_f32() { let k = case(9) + 1; let k = if k == 1 { 0 } else { k }; consistent(k, s32(k)) }
#[no_mangle] pub fn c05_coding_f64() { let k = case(10); coder(d64(k), k) }
#[no_mangle] pub fn c05_coding_f32() { let k = case(9) + 1; coder(s32(k), k) }
#[no_mangle] pub fn c05_precisions() { prec() }
#[no_mangle] pub fn c05_srgb_definitions() { drv() }
