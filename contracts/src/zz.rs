//! Self-test of the verifier (feature `selftest`, tools/selftest.py): zz_* must never be refuted and must agree with the machine on every
//! path, zn_* claim something false and must never be discharged.
use crate::vp::*;
fn v() -> f64 { f64::any(-10.0, 10.0) }
fn pv() -> f64 { f64::any(0.1, 10.0) }
#[no_mangle] pub fn zz_fma() { let (a, b, c) = (v(), v(), v()); eq("l", a.mul_add(b, c), a * b + c, 1e3); }
#[no_mangle] pub fn zz_hypot() { let (a, b) = (v(), v()); eq("l", a.hypot(b), (a * a + b * b).sqrt(), 1e3); }
#[no_mangle] pub fn zz_clamp() { let a = v(); let r = a.clamp(0.0, 1.0); eq("l", r, if a < 0.0 { 0.0 } else if a > 1.0 { 1.0 } else { a }, 1e3); }
#[no_mangle] pub fn zz_signum() { let a = pv(); eq("l", a.signum(), 1.0, 1.0); eq("l", a.copysign(-1.0), -a, 1.0); let b = v(); assume_ne(b, 0.0); eq("m", b.signum() * b.abs(), b, 1e3); eq("n", a.copysign(b), if b < 0.0 { -a } else { a }, 10.0); }
#[no_mangle] pub fn zz_recip() { let a = pv(); eq("l", a.recip(), 1.0 / a, 1e3); eq("p", a.powi(3), a * a * a, 1e4); eq("r", a.to_radians().to_degrees(), a, 1e2); }
#[no_mangle] pub fn zz_sincos() { let a = v(); let (s, c) = a.sin_cos(); eq("l", s, a.sin(), 1.0); eq("l", c, a.cos(), 1.0); eq("t", a.tan(), s / c, 1e6); }
#[no_mangle] pub fn zz_rem() { let a = v(); let r = a.rem_euclid(360.0); eq("l", r, if a < 0.0 { a + 360.0 } else { a }, 1e3); }
#[no_mangle] pub fn zz_exp() { let a = v(); eq("l", a.exp2(), 2f64.powf(a), 1e4); let b = pv(); eq("m", b.log2(), b.ln() / 2f64.ln(), 1e2); eq("m", b.log(3.0), b.ln() / 3f64.ln(), 1e2); eq("e", b.exp_m1(), b.exp() - 1.0, 1e6); eq("e", b.ln_1p(), (b + 1.0).ln(), 1e2); }
#[no_mangle] pub fn zz_totalcmp() { let mut a = [v(), v(), v()]; a.sort_by(|x, y| x.partial_cmp(y).unwrap()); check("l", a[0] <= a[1] && a[1] <= a[2]); }
#[no_mangle] pub fn zz_totalcmp2() { let mut a = [v(), v()]; a.sort_by(f64::total_cmp); check("l", a[0] <= a[1]); }
#[no_mangle] pub fn zz_bsearch() { let a = [1.0, 2.0, 4.0, 8.0]; let x = f64::any(0.0, 9.0); let i = a.partition_point(|y| *y < x); check("l", (i == 0 || a[i - 1] < x) && (i == 4 || a[i] >= x)); }
#[no_mangle] pub fn zz_bsearch2() { let a = [1.0, 2.0, 4.0, 8.0]; let x = f64::any(0.0, 9.0); let i = match a.binary_search_by(|y| y.partial_cmp(&x).unwrap()) { Ok(i) => i, Err(i) => i }; check("l", (i == 0 || a[i - 1] < x) && (i == 4 || a[i] >= x)); }
#[no_mangle] pub fn zz_windows() { let a: Vec<f64> = (0..7).map(|_| v()).collect(); let s: f64 = a.windows(2).map(|w| w[1] - w[0]).sum(); eq("l", s, a[6] - a[0], 1e3); }
#[no_mangle] pub fn zz_chunks() { let a: Vec<f64> = (0..10).map(|_| v()).collect(); let mut s = 0.0; let mut it = a.chunks_exact(4); for c in &mut it { s += c.iter().sum::<f64>(); } for x in it.remainder() { s += *x; } eq("l", s, a.iter().fold(0.0, |p, q| p + q), 1e3); }
#[no_mangle] pub fn zz_rev() { let a: Vec<f64> = (0..5).map(|_| v()).collect(); let mut b: Vec<f64> = a.iter().rev().cloned().collect(); b.reverse(); for i in 0..5 { eq("l", a[i], b[i], 1e2); } }
#[no_mangle] pub fn zz_fromfn() { let k = v(); let a: [f64; 5] = std::array::from_fn(|i| k * i as f64); let b = a.map(|x| 2.0 * x); for i in 0..5 { eq("l", b[i], 2.0 * k * i as f64, 1e3); } }
#[no_mangle] pub fn zz_dyn() { let k = v(); let f: Box<dyn Fn(f64) -> f64> = Box::new(move |x| x * k); let fs: Vec<Box<dyn Fn(f64) -> f64>> = vec![f, Box::new(|x| x + 1.0)]; let x = v(); eq("l", fs.iter().fold(x, |p, g| g(p)), x * k + 1.0, 1e4); }
#[no_mangle] pub fn zz_once() { use std::sync::OnceLock; static T: OnceLock<Vec<f64>> = OnceLock::new(); let k = T.get_or_init(|| vec![1.0, 2.0, 3.0]); eq("l", k[2], 3.0, 1.0); let k = T.get_or_init(|| vec![1.0]); eq("l", k[2], 3.0, 1.0); }
#[no_mangle] pub fn zz_lazy() { use std::sync::LazyLock; static T: LazyLock<Vec<f64>> = LazyLock::new(|| vec![1.0, 2.0, 3.0]); eq("l", T[2], 3.0, 1.0); }
thread_local! { static TL: std::cell::RefCell<f64> = const { std::cell::RefCell::new(2.0) }; }
#[no_mangle] pub fn zz_tls() { TL.with(|x| { *x.borrow_mut() += 1.0; }); TL.with(|x| eq("l", *x.borrow(), 3.0, 1.0)); }
#[no_mangle] pub fn zz_hash() { let mut m = std::collections::HashMap::new(); m.insert(3, v()); m.insert(4, 1.0); eq("l", m[&4], 1.0, 1.0); }
#[no_mangle] pub fn zz_btree() { let mut m = std::collections::BTreeMap::new(); for i in 0..20 { m.insert((i * 7) % 20, i as f64); } let mut p = -1; for (k, _) in &m { check("l", *k > p); p = *k; } }
#[no_mangle] pub fn zz_rc() { let a = std::rc::Rc::new(v()); let b = a.clone(); eq("l", *a, *b, 1.0); let c = std::sync::Arc::new(vec![v()]); let d = c.clone(); eq("m", c[0], d[0], 1.0); }
#[no_mangle] pub fn zz_cow() { let a = [v(), v()]; let c: std::borrow::Cow<[f64]> = std::borrow::Cow::Borrowed(&a); let d = c.into_owned(); eq("l", d[1], a[1], 1.0); }
#[no_mangle] pub fn zz_string() { let mut s = String::from("ab"); s.push_str("cd"); check("l", s.chars().count() == 4 && s.contains("bc")); let n: i32 = "42".parse().unwrap(); check("n", n == 42); }
#[no_mangle] pub fn zz_parse() { let n: f64 = "2.5".parse().unwrap(); check("n", n == 2.5); }
#[no_mangle] pub fn zz_deque() { let mut s = std::collections::VecDeque::new(); for i in 0..9 { s.push_front(i); } check("l", s.pop_back() == Some(0) && s[0] == 8); }
#[no_mangle] pub fn zz_sort() { let mut s: Vec<u32> = (0..50).map(|i| (i * 37) % 50).collect(); s.sort(); check("l", s.iter().enumerate().all(|(i, x)| i as u32 == *x)); s.sort_unstable_by(|a, b| b.cmp(a)); check("m", s[0] == 49); s.dedup(); s.retain(|x| x % 2 == 0); check("n", s.len() == 25); }
#[no_mangle] pub fn zz_iter() { let a: Vec<f64> = (0..6).map(|_| v()).collect(); let b: Vec<f64> = (0..6).map(|_| v()).collect(); let s: f64 = a.iter().zip(&b).skip(1).step_by(2).take_while(|_| true).map(|(x, y)| x * y).sum(); eq("l", s, a[1] * b[1] + a[3] * b[3] + a[5] * b[5], 1e4); let c: Vec<f64> = a.iter().chain(b.iter()).copied().flat_map(|x| [x, -x]).collect(); eq("m", c[13], -b[0], 1e2); eq("p", a.iter().product::<f64>(), a[0] * a[1] * a[2] * a[3] * a[4] * a[5], 1e7); let (p, q): (Vec<f64>, Vec<f64>) = a.iter().cloned().unzip_pairs(); eq("u", p[0] + q[0], a[0], 1e2); let mut pk = a.iter().peekable(); check("k", pk.peek().is_some()); check("s", a.iter().scan(0.0, |s, x| { *s += x; Some(*s) }).count() == 6); check("pos", a.iter().position(|x| *x > 100.0).is_none()); }
trait UP: Iterator<Item = f64> + Sized { fn unzip_pairs(self) -> (Vec<f64>, Vec<f64>) { self.map(|x| (x / 2.0, x / 2.0)).unzip() } }
impl<I: Iterator<Item = f64>> UP for I {}
#[no_mangle] pub fn zz_maxby() { let a = [v(), v(), v()]; let m = a.iter().cloned().fold(f64::NEG_INFINITY, f64::max); let n = a.iter().max_by(|x, y| x.partial_cmp(y).unwrap()).unwrap(); eq("l", m, *n, 1e2); }
#[no_mangle] pub fn zz_copy() { let a: Vec<f64> = (0..6).map(|_| v()).collect(); let mut b = [0.0; 6]; b.copy_from_slice(&a); b.swap(0, 5); b.rotate_left(2); eq("l", b[3], a[0], 1e2); let mut c = a.clone(); c.extend_from_slice(&b); c.insert(0, 7.0); c.remove(1); c.truncate(9); c.drain(0..2); eq("m", c[0], a[2], 1e2); let (l, r) = c.split_at(3); eq("n", l[2], c[2], 1e2); eq("o", r[0], c[3], 1e2); check("z", c.concat_len() == 7); }
trait CL { fn concat_len(&self) -> usize; } impl CL for Vec<f64> { fn concat_len(&self) -> usize { [&self[..3], &self[3..]].concat().len() } }
#[no_mangle] pub fn zz_floor() { let a = f64::any(0.0, 5.0); let i = a as usize; check("l", i as f64 <= a && a < i as f64 + 1.0); check("m", a.floor() <= a && a.ceil() >= a && a.trunc() == a.floor()); check("n", a.fract() >= 0.0 && a.fract() < 1.0); check("r", (a.round() - a).abs() <= 0.5); }
#[no_mangle] pub fn zz_bits() { let a = pv(); let b = a.to_bits(); eq("l", f64::from_bits(b), a, 1.0); check("s", a.is_sign_positive() && a.is_finite() && a.is_normal()); }
#[no_mangle] pub fn zz_bitsabs() { let a = v(); eq("l", f64::from_bits(a.to_bits() & 0x7fffffffffffffff), a.abs(), 1.0); }
#[no_mangle] pub fn zz_simd() { #[cfg(target_arch = "x86_64")] unsafe { use std::arch::x86_64::*; let a = [v(), v()]; let x = _mm_loadu_pd(a.as_ptr()); let y = _mm_mul_pd(x, x); let z = _mm_add_pd(y, _mm_set1_pd(1.0)); let mut o = [0.0; 2]; _mm_storeu_pd(o.as_mut_ptr(), z); eq("l", o[1], a[1] * a[1] + 1.0, 1e4); } }
#[no_mangle] pub fn zz_simdf() { #[cfg(target_arch = "x86_64")] unsafe { use std::arch::x86_64::*; let a = [f32::any(-1.0, 1.0), f32::any(-1.0, 1.0), f32::any(-1.0, 1.0), f32::any(-1.0, 1.0)]; let x = _mm_loadu_ps(a.as_ptr()); let y = _mm_max_ps(x, _mm_setzero_ps()); let z = _mm_shuffle_ps(y, y, 0x1b); let mut o = [0.0; 4]; _mm_storeu_ps(o.as_mut_ptr(), z); eq("l", o[0], a[3].max(0.0), 1e2); } }
#[no_mangle] pub fn zz_iterby() { let mut s = 0.0; let k = v(); let mut i = 0; while i < 10 { i += 1; if i == 3 { continue; } if i == 8 { break; } s += k; } eq("l", s, 6.0 * k, 1e3); let r = (1..=5).rev().map(|i| i as f64 * k).sum::<f64>(); eq("m", r, 15.0 * k, 1e3); }
#[no_mangle] pub fn zz_tanh() { let a = f64::any(-2.0, 2.0); eq("l", a.tanh(), a.sinh() / a.cosh(), 1e2); }
#[no_mangle] pub fn zz_asin() { let a = f64::any(-1.0, 1.0); eq("l", a.asin().sin(), a, 1e2); eq("m", a.acos() + a.asin(), std::f64::consts::FRAC_PI_2, 1e2); eq("n", a.atan().tan(), a, 1e2); }
#[no_mangle] pub fn zz_minmax_f32() { let a = f32::any(0.0, 1.0); let b = (a * 255.0).round().clamp(0.0, 255.0) as u8; check("l", b as f32 >= a * 255.0 - 0.5); check("m", u8::try_from(b as i32).is_ok()); }
#[no_mangle] pub fn zz_catch() { let r = std::panic::catch_unwind(|| 3); check("l", r.is_ok()); }
#[no_mangle] pub fn zz_maxmin() { let (a, b) = (v(), v()); let m = if a.total_cmp(&b) == std::cmp::Ordering::Less { b } else { a }; eq("l", m, a.max(b), 1e2); }
#[no_mangle] pub fn zz_powneg() { let a = v(); let s = a.signum() * a.abs().powf(2.4); eq("l", s, if a < 0.0 { -(-a).powf(2.4) } else { a.powf(2.4) }, 1e4); }
#[no_mangle] pub fn zz_numtraits() { use num_traits::{Float, Zero, One, NumCast, ToPrimitive}; let a = pv(); let x: f64 = NumCast::from(3).unwrap(); eq("l", x + <f64 as Zero>::zero(), 3.0 * <f64 as One>::one(), 1e2); eq("m", Float::powi(a, 2), a * a, 1e3); let y: f32 = NumCast::from(a).unwrap(); check("n", y > 0.0); check("o", a.to_f32().is_some()); check("p", Float::max(a, 0.0) == a); check("u", (a.floor()).to_u8().is_some()); }
#[no_mangle] pub fn zz_f1() { let a = f64::any(0.0, 5.0); let i = a as usize; check("l1", i as f64 <= a); check("l2", a < i as f64 + 1.0); check("c", i < 6); }
#[no_mangle] pub fn zz_f2() { let a = f64::any(0.0, 5.0); let i = a as usize; match i { 0 => check("0", a < 1.0), 1 => check("1", a < 2.0 && a >= 1.0), 5 => check("5", a == 5.0), _ => check("_", a >= 2.0) } }
#[no_mangle] pub fn zz_f3() { let a = f64::any(0.0, 5.0); check("f", a.floor() <= a && a.floor() > a - 1.0); }
// ---- false claims
#[no_mangle] pub fn zn_edge() { let a = f64::any(0.0, 1.0); check("l", a < 1.0); }
#[no_mangle] pub fn zn_strict() { let a = f64::any(0.0, 1.0); lt("l", a * a, a); }
#[no_mangle] pub fn zn_sq() { let (a, b) = (v(), v()); eq("l", (a + b) * (a + b), a * a + b * b + 1.999999 * a * b, 1e3); }
#[no_mangle] pub fn zn_sqrt() { let a = v(); eq("l", (a * a).sqrt(), a, 1e2); }
#[no_mangle] pub fn zn_abs() { let (a, b) = (v(), v()); le("l", a.abs() + b.abs(), (a + b).abs(), 1e2); }
#[no_mangle] pub fn zn_pow() { let a = pv(); eq("l", a.powf(2.4), a.powf(2.2) * a.powf(0.21), 1e3); }
#[no_mangle] pub fn zn_pow2() { let a = v(); eq("l", a.abs().powf(2.0).sqrt(), a, 1e3); }
#[no_mangle] pub fn zn_exp() { let a = v(); eq("l", a.exp() * a.exp(), (2.001 * a).exp(), 1e9); }
#[no_mangle] pub fn zn_cbrt() { let a = v(); eq("l", a.cbrt(), a.abs().powf(1.0 / 3.0), 1e2); }
#[no_mangle] pub fn zn_div() { let (a, b) = (v(), v()); eq("l", a / b * b, a, 1e3); }
#[no_mangle] pub fn zn_nan() { let a = v(); let b = (a - 20.0).sqrt(); check("l", b == b); }
#[no_mangle] pub fn zn_min() { let (a, b, c) = (v(), v(), v()); eq("l", a.min(b).min(c), a.min(b.max(c)), 1e2); }
#[no_mangle] pub fn zn_trunc() { let a = f64::any(0.0, 5.0); let i = a as usize; check("l", i < 5); }
#[no_mangle] pub fn zn_trunc2() { let a = f64::any(0.0, 5.0); check("l", a as u8 == a.round() as u8); }
#[no_mangle] pub fn zn_floor() { let a = f64::any(-3.0, 3.0); check("l", a.floor() == a.trunc()); }
#[no_mangle] pub fn zn_sin() { let a = v(); le("l", a.sin(), 0.999999, 1.0); }
#[no_mangle] pub fn zn_atan() { let (a, b) = (v(), v()); assume_ne(b, 0.0); eq("l", a.atan2(b), (a / b).atan(), 1e2); }
#[no_mangle] pub fn zn_search() { let a = [1.0, 2.0, 4.0, 8.0]; let x = f64::any(0.0, 9.0); let i = a.partition_point(|y| *y < x); check("l", i == 4 || a[i] > x); }
#[no_mangle] pub fn zn_sort() { let mut a = [v(), v(), v()]; a.sort_by(f64::total_cmp); check("l", a[0] < a[1] || a[1] < a[2]); }
#[no_mangle] pub fn zn_index() { let a = [1.0, 2.0, 3.0]; let i = f64::any(0.0, 3.0) as usize; check("l", a[i] > 0.0); }
#[no_mangle] pub fn zn_overflow() { let n = case(300) as u8; check("l", n.checked_add(1).is_some()); }
#[no_mangle] pub fn zn_case() { let n = case(40); let s: usize = (0..n).sum(); check("l", s != 741); }
#[no_mangle] pub fn zn_panic() { let n = case(3); if n == 2 { expect_panic(); } check("l", true); if n == 2 { must_have_panicked("p"); } }
#[no_mangle] pub fn zn_panic2() { let a = f64::any(0.0, 1.0); assert!(a < 0.9999); check("l", true); }
#[no_mangle] pub fn zn_oob() { let a = vec![1.0f64; 4]; let n = case(6); let x = unsafe { *a.as_ptr().add(n) }; check("l", x == 1.0); }
#[no_mangle] pub fn zn_uninit() { let a = std::mem::MaybeUninit::<[f64; 3]>::uninit(); let x = unsafe { (*a.as_ptr())[case(3)] }; check("l", x == x || x != x); }
#[no_mangle] pub fn zn_f32() { let a = f32::any(0.0, 1.0); le("l", a * a, a * 0.999, 1.0); }
#[no_mangle] pub fn zn_hyp() { let (a, b) = (v(), v()); le("l", a.hypot(b), (a.abs() + b.abs()) * 0.9999, 1e2); }
#[no_mangle] pub fn zn_ge() { let (a, b) = (v(), v()); assume_le(a, b); lt("l", a, b); }
#[no_mangle] pub fn zn_clamp() { let a = v(); eq("l", a.clamp(0.0, 1.0), a.max(0.0).min(1.001), 1.0); }
#[no_mangle] pub fn zn_rem() { let a = v(); let r = a % 3.0; check("l", r >= 0.0); }
#[no_mangle] pub fn zn_sign() { let a = v(); eq("l", a.signum() * a.abs(), a + 1e-3, 1e2); }
