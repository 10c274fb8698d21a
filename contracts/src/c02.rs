//! C02: 3x3 matrix algebra
use crate::vp::*;
use colorspace::math::{M3f32, M3f64, Matrix33};
use colorspace::rgb::RGBf; use colorspace::xyz::XYZ;
pub fn anym<T: Fl>() -> Matrix33<T> { let mut x = [T::zero(); 9]; for i in 0..9 { x[i] = T::anyv(); } Matrix33 { x } }
pub fn mag<T: Fl>(m: &Matrix33<T>) -> T { let mut s = T::one(); if symbolic() { return s; } for i in 0..9 { s = s + m.x[i].abs() } s }
fn algebra<T: Fl>() {
    let (a, b) = (anym::<T>(), anym::<T>());
    let v = [T::anyv(), T::anyv(), T::anyv()];
    let vs = mx(&[v[0], v[1], v[2]]);
    let sc = mag(&a) * mag(&b) * vs;
    let p = a * b;
    for i in 0..3 { for j in 0..3 { let mut s = T::zero(); for k in 0..3 { s = s + a.x[3 * i + k] * b.x[3 * k + j]; } eq("product entry is row times column", p.x[3 * i + j], s, sc); } }
    // applying the product = applying one after the other, on XYZ and on RGB
    let x = XYZ::new(v[0], v[1], v[2]); let l = p * x; let r = a * (b * x);
    eq("(A*B)*xyz = A*(B*xyz), X", l.x, r.x, sc); eq("(A*B)*xyz = A*(B*xyz), Y", l.y, r.y, sc); eq("(A*B)*xyz = A*(B*xyz), Z", l.z, r.z, sc);
    let c = RGBf::new(v[0], v[1], v[2]); let l = p * c; let r = a * (b * c);
    eq("(A*B)*rgb = A*(B*rgb), R", l.r, r.r, sc); eq("(A*B)*rgb = A*(B*rgb), G", l.g, r.g, sc); eq("(A*B)*rgb = A*(B*rgb), B", l.b, r.b, sc);
    // application itself
    let ax = a * x; let ac = a * c;
    let row = |i: usize| a.x[3 * i] * v[0] + a.x[3 * i + 1] * v[1] + a.x[3 * i + 2] * v[2];
    eq("M*xyz is row times column, X", ax.x, row(0), sc); eq("M*xyz is row times column, Y", ax.y, row(1), sc); eq("M*xyz is row times column, Z", ax.z, row(2), sc);
    eq("M*rgb is row times column, R", ac.r, row(0), sc); eq("M*rgb is row times column, G", ac.g, row(1), sc); eq("M*rgb is row times column, B", ac.b, row(2), sc);
    // identity
    let id = Matrix33::<T>::make_identity(); let (il, ir) = (id * a, a * id);
    for i in 0..9 { eq("identity is neutral on the left", il.x[i], a.x[i], sc); eq("identity is neutral on the right", ir.x[i], a.x[i], sc); }
    let ix = id * x; eq("identity leaves colours alone", ix.x, v[0], sc); eq("identity leaves colours alone", ix.y, v[1], sc); eq("identity leaves colours alone", ix.z, v[2], sc);
    // transpose
    let at = a.transposed(); let t2 = (b.transposed()) * at; let pt = p.transposed(); let att = at.transposed();
    for i in 0..3 { for j in 0..3 { eq("transpose swaps rows and columns", at.x[3 * i + j], a.x[3 * j + i], sc); } }
    for i in 0..9 { eq("transpose reverses products", pt.x[i], t2.x[i], sc); eq("transpose twice is the identity", att.x[i], a.x[i], sc); }
    // determinant
    let det = |m: &Matrix33<T>| { let x = &m.x; x[0] * x[4] * x[8] + x[1] * x[5] * x[6] + x[2] * x[3] * x[7] - x[2] * x[4] * x[6] - x[1] * x[3] * x[8] - x[0] * x[5] * x[7] };
    let s3 = mag(&a) * mag(&a) * mag(&a); let s6 = s3 * mag(&b) * mag(&b) * mag(&b);
    eq("determinant is the Leibniz sum", a.determinant(), det(&a), s3);
    eq("determinant of the transpose", at.determinant(), det(&a), s3);
    eq("determinant of a product", p.determinant(), det(&a) * det(&b), s6);
}
fn scalar_ops<T: Fl>() {
    let a = anym::<T>(); let s = T::anyv(); let sc = mag(&a) * mx(&[s]);
    let (p, m, t, n) = (a + s, a - s, a * s, -a);
    for i in 0..9 { eq("M + s adds s to every entry", p.x[i], a.x[i] + s, sc); eq("M - s subtracts s from every entry", m.x[i], a.x[i] - s, sc); eq("M * s scales every entry", t.x[i], a.x[i] * s, sc); eq("-M negates every entry", n.x[i], -a.x[i], sc); }
    assume_ne(s, T::zero()); let d = a / s; for i in 0..9 { let e = a.x[i] / s; eq("M / s divides every entry", d.x[i], e, mx(&[e])); }
}
fn indexing<T: Fl>() {
    let mut a = anym::<T>(); let o = a;
    for i in 0..3 { check("a row has three entries", a[i].len() == 3); for j in 0..3 { check("m[i][j] reads entry 3i+j", a[i][j] == o.x[3 * i + j]); } }
    let (i, j) = (case(3), case(3)); let v = T::anyv(); a[i][j] = v;
    for k in 0..9 { check("m[i][j] = v writes that entry only", if k == 3 * i + j { a.x[k] == v } else { a.x[k] == o.x[k] }); }
    let n = Matrix33::new(o.x); for k in 0..9 { check("new keeps the entries in order", n.x[k] == o.x[k]); }
    check("equality is entrywise", (a == o) == (v == o.x[3 * i + j]));
}
fn index_oob<T: Fl>() { let a = anym::<T>(); let i = 3 + case(3); expect_panic(); let v = a[i][0]; let _ = v; must_have_panicked("a row index past the third panics"); }
#[no_mangle] pub fn c02_algebra_f64() { algebra::<f64>() }
#[no_mangle] pub fn c02_algebra_f32() { algebra::<f32>() }
#[no_mangle] pub fn c02_scalar_f64() { scalar_ops::<f64>() }
#[no_mangle] pub fn c02_scalar_f32() { scalar_ops::<f32>() }
#[no_mangle] pub fn c02_index_f64() { indexing::<f64>() }
#[no_mangle] pub fn c02_index_f32() { indexing::<f32>() }
#[no_mangle] pub fn c02_index_bounds() { index_oob::<f64>(); }
#[no_mangle] pub fn c02_narrow() { let a: M3f64 = anym::<f64>(); let b: M3f32 = a.into(); for i in 0..9 { check("narrowing converts every entry in place", b.x[i] == a.x[i] as f32); } }
