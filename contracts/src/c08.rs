//! C08: SIMD planar XYZ to RGB (compiled only with AVX enabled, like the routine itself)
#![cfg(target_feature = "avx")]
use crate::vp::*;
use colorspace::math::{Matrix33, M3f32}; use colorspace::transform::{xyz_slice_to_rgb_avx_planes, xyz_to_rgb}; use colorspace::xyz::XYZ;
use simdeez::{avx2::Avx2, scalar::Scalar, sse2::Sse2, sse41::Sse41, Simd};
fn mat() -> M3f32 { let mut m = [0f32; 9]; for x in m.iter_mut() { *x = f32::wide(-10.0, 10.0); } Matrix33::new(m) }
fn plane(n: usize) -> Vec<f32> { (0..n).map(|_| f32::wide(-200.0, 200.0)).collect() }
fn equals_scalar<S: Simd>() {
    let n = len(70); let (ey, ez) = (case(2) * 3, case(2) * 5); let m = mat(); let (xs, ys, zs) = (plane(n), plane(n + ey), plane(n + ez));
    let (r, g, b) = xyz_slice_to_rgb_avx_planes::<S>(&m, &xs, &ys, &zs); check("one result per input element", r.len() == n && g.len() == n && b.len() == n);
    for i in 0..n { let (x, y, z) = (xs[i], ys[i], zs[i]); let row = |k: usize| (m[k][0] * x + m[k][1] * y + m[k][2] * z) / 100.0; let sc = 60.0;
        eq("red is the matrix product / 100", r[i], row(0), sc); eq("green is the matrix product / 100", g[i], row(1), sc); eq("blue is the matrix product / 100", b[i], row(2), sc);
        let s = xyz_to_rgb(&m, XYZ::new(x, y, z)); eq("red equals the scalar conversion", r[i], s.r, sc); eq("green equals the scalar conversion", g[i], s.g, sc); eq("blue equals the scalar conversion", b[i], s.b, sc); }
}
/// planes shorter than the first are rejected, never read past
fn short<S: Simd>() {
    let n = 1 + case(if symbolic() { 18 } else { 40 }); let which = case(3); let d = 1 + case(if symbolic() { 2 } else { 9 }); assume(d <= n); let m = mat(); let (xs, ys, zs) = (plane(n), plane(if which != 1 { n - d } else { n }), plane(if which != 0 { n - d } else { n }));
    expect_panic(); let _ = xyz_slice_to_rgb_avx_planes::<S>(&m, &xs, &ys, &zs); must_have_panicked("a plane shorter than the first is rejected");
}
#[no_mangle] pub fn c08_equals_scalar_avx2() { equals_scalar::<Avx2>() }
#[no_mangle] pub fn c08_equals_scalar_sse41() { equals_scalar::<Sse41>() }
#[no_mangle] pub fn c08_equals_scalar_sse2() { equals_scalar::<Sse2>() }
#[no_mangle] pub fn c08_equals_scalar_width1() { equals_scalar::<Scalar>() }
#[no_mangle] pub fn c08_short_avx2() { short::<Avx2>() }
#[no_mangle] pub fn c08_short_sse2() { short::<Sse2>() }

/// long planes, natively
fn native_long<S: Simd>() {
    if symbolic() { return; } let n = long() - case(9); let m = Matrix33::new([0; 9].map(|_| f32::any(-10.0, 10.0))); let (xs, ys, zs) = (ramp::<f32>(n, -200.0, 200.0), ramp::<f32>(n, -200.0, 200.0), ramp::<f32>(n, -200.0, 200.0)); let (r, g, b) = xyz_slice_to_rgb_avx_planes::<S>(&m, &xs, &ys, &zs); check("one result per input element", r.len() == n && g.len() == n && b.len() == n);
    for i in 0..n { let s = xyz_to_rgb(&m, XYZ::new(xs[i], ys[i], zs[i])); eq("red equals the scalar conversion", r[i], s.r, 60.0); eq("green equals the scalar conversion", g[i], s.g, 60.0); eq("blue equals the scalar conversion", b[i], s.b, 60.0); }
}
#[no_mangle] pub fn c08_native_long() { match case(4) { 0 => native_long::<Avx2>(), 1 => native_long::<Sse41>(), 2 => native_long::<Sse2>(), _ => native_long::<Scalar>() } }
