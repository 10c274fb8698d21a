//! C13: quantisation (native lane; the proofs over every bit pattern are Kani's, see /verif/kani)
use crate::vp::*;
use colorspace::rgb::{rgbu16, rgbu8, RGBf32, RGBf64, RGBu16, RGBu8};
const PAR: u64 = 64;
/// runs `f` on PAR chunks in parallel, returns the first offending item
fn par<F: Fn(u64) -> Option<(f64, f64, f64)> + Sync>(f: F) -> Option<(f64, f64, f64)> {
    let next = std::sync::atomic::AtomicU64::new(0); let res = std::sync::Mutex::new(None);
    std::thread::scope(|s| { for _ in 0..8 { s.spawn(|| loop { let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst); if i >= PAR || res.lock().unwrap().is_some() { break; } if let Some(r) = f(i) { *res.lock().unwrap() = Some(r); } }); } }); res.into_inner().unwrap()
}
/// nearest to the product of the source precision (see kani/src/lib.rs)
fn ok(v: f64, o: f64, max: f64) -> bool { if v.is_nan() || v <= 0.0 { o == 0.0 } else if v >= 1.0 { o == max } else { let p = v * max; o - 0.5 <= p && p <= o + 0.5 } }
fn ok32(v: f32, o: f64, max: f64) -> bool { if v.is_nan() || v <= 0.0 { o == 0.0 } else if v >= 1.0 { o == max } else { let p = (v * max as f32) as f64; o - 0.5 <= p && p <= o + 0.5 } }
fn report(label: &'static str, r: Option<(f64, f64, f64)>) { match r { None => check(label, true), Some((v, o, m)) => eq(label, o, (if v.is_nan() { 0.0 } else { v.clamp(0.0, 1.0) }) * m, 0.0) } }
/// every f32 bit pattern, each in every channel (the other channels hold other patterns)
#[no_mangle] pub fn c13_all_f32() {
    if symbolic() { return; }
    let step = (1u64 << 32) / PAR;
    report("every f32 gives the nearest 8-bit level in its own channel", par(|c| { for b in c * step..(c + 1) * step { let b = b as u32; let v = [f32::from_bits(b), f32::from_bits(b.wrapping_add(0x5555_5555)), f32::from_bits(b.wrapping_add(0xAAAA_AAAA))]; let o = RGBu8::from(RGBf32::new(v[0], v[1], v[2])); for (v, o) in [(v[0], o.r), (v[1], o.g), (v[2], o.b)] { if !ok32(v, o as f64, 255.0) { return Some((v as f64, o as f64, 255.0)); } } } None }));
    report("every f32 gives the nearest 16-bit level in its own channel", par(|c| { for b in c * step..(c + 1) * step { let b = b as u32; let v = [f32::from_bits(b), f32::from_bits(b.wrapping_add(0x5555_5555)), f32::from_bits(b.wrapping_add(0xAAAA_AAAA))]; let o = RGBu16::from(RGBf32::new(v[0], v[1], v[2])); for (v, o) in [(v[0], o.r), (v[1], o.g), (v[2], o.b)] { if !ok32(v, o as f64, 65535.0) { return Some((v as f64, o as f64, 65535.0)); } } } None }));
    // monotone: consecutive floats from -1 to 2 in order
    let key = |i: i64| f32::from_bits(if i < 0 { 0x8000_0000 | (-i) as u32 } else { i as u32 }); let (lo, hi) = (-0x3f80_0000i64, 0x4000_0000i64); let st = (hi - lo) / PAR as i64 + 1;
    report("larger f32 inputs never give smaller levels", par(|c| { let (mut p8, mut p16) = (0u8, 0u16); let a = lo + c as i64 * st; for i in a..(a + st + 1).min(hi) { let v = key(i); let (x, y) = (RGBu8::from(RGBf32::new(v, v, v)), RGBu16::from(RGBf32::new(v, v, v))); if i > a && (x.r < p8 || y.r < p16) { return Some((v as f64, x.r as f64, 255.0)); } if x.r != x.g || x.g != x.b || y.r != y.g || y.g != y.b { return Some((v as f64, x.g as f64, 255.0)); } p8 = x.r; p16 = y.r; } None }));
}
/// f64: the step from each level to the next is where it should be, in every channel
#[no_mangle] pub fn c13_thresholds_f64() {
    if symbolic() { return; }
    fn q16(v: f64, ch: usize) -> u32 { let o = RGBu16::from(match ch { 0 => RGBf64::new(v, 0.3, 0.7), 1 => RGBf64::new(0.3, v, 0.7), _ => RGBf64::new(0.3, 0.7, v) }); [o.r, o.g, o.b][ch] as u32 }
    fn q8(v: f64, ch: usize) -> u32 { let o = RGBu8::from(match ch { 0 => RGBf64::new(v, 0.3, 0.7), 1 => RGBf64::new(0.3, v, 0.7), _ => RGBf64::new(0.3, 0.7, v) }); [o.r, o.g, o.b][ch] as u32 }
    for (max, q) in [(255u32, q8 as fn(f64, usize) -> u32), (65535, q16)] { let m = max as f64;
        report(if max == 255 { "f64 to 8 bits changes level half-way between levels" } else { "f64 to 16 bits changes level half-way between levels" }, par(|c| { let mut k = c as u32 + 1; while k <= max { for ch in 0..3 {
            let (mut lo, mut hi) = ((k as f64 - 1.0) / m, k as f64 / m); if q(lo, ch) != k - 1 || q(hi, ch) != k { return Some((hi, q(hi, ch) as f64, m)); }
            while hi.to_bits() - lo.to_bits() > 1 { let mid = f64::from_bits(lo.to_bits() / 2 + hi.to_bits() / 2 + (lo.to_bits() & hi.to_bits() & 1)); if q(mid, ch) >= k { hi = mid } else { lo = mid } }
            if hi * m < k as f64 - 0.5 || lo * m > k as f64 - 0.5 { return Some((hi, k as f64, m)); }
            for d in 0..64u64 { let (a, b) = (f64::from_bits(lo.to_bits() - d), f64::from_bits(hi.to_bits() + d)); if q(a, ch) != k - 1 || q(b, ch) != k { return Some((a, q(a, ch) as f64, m)); } }
        } k += PAR as u32; } None })); }
}
#[no_mangle] pub fn c13_every_level() {
    let n = if symbolic() { 0 } else { 65536u32 };
    for i in 0..n { let (r, g, b) = (i as u16, (i * 40503 + 1) as u16, 65535 - i as u16); let c = RGBu16 { r, g, b };
        let f = RGBf32::from(c); check("16 bits to f32 divides by 65535", f.r == r as f32 / 65535.0 && f.g == g as f32 / 65535.0 && f.b == b as f32 / 65535.0); check("16 bits to f32 and back is the identity", RGBu16::from(f) == c);
        let f = RGBf64::from(c); check("16 bits to f64 divides by 65535", f.r == r as f64 / 65535.0 && f.g == g as f64 / 65535.0 && f.b == b as f64 / 65535.0); check("16 bits to f64 and back is the identity", RGBu16::from(f) == c);
        let c = rgbu8(i as u8, (i * 77 + 1) as u8, (i >> 8) as u8); let (r, g, b) = (i as u8, (i * 77 + 1) as u8, (i >> 8) as u8);
        let f = RGBf32::from(c); check("8 bits to f32 divides by 255", f.r == r as f32 / 255.0 && f.g == g as f32 / 255.0 && f.b == b as f32 / 255.0); check("8 bits to f32 and back is the identity", RGBu8::from(f) == c);
        let f = RGBf64::from(c); check("8 bits to f64 divides by 255", f.r == r as f64 / 255.0 && f.g == g as f64 / 255.0 && f.b == b as f64 / 255.0); check("8 bits to f64 and back is the identity", RGBu8::from(f) == c);
        let c = rgbu16(1, 2, 3); check("constructors keep their arguments in order", c.r == 1 && c.g == 2 && c.b == 3); }
}
/// specials and random f64 in all channels
#[no_mangle] pub fn c13_special_f64() {
    if symbolic() { return; }
    let sp = [f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 1.0, -1.0, 5e-324, -5e-324, f64::MAX, f64::MIN, 1.0 + f64::EPSILON, 1.0 - f64::EPSILON, 1e300, -1e300, 0.5, 256.0, 65536.0, 1e10, -1e10, 2.0, 1e-10];
    let mut d = || { let k = case(40); if k < sp.len() { sp[k] } else if k < 30 { f64::anyv() } else { f64::any(-0.1, 1.1) } }; let (a, b, c) = (d(), d(), d());
    let o = RGBu8::from(RGBf64::new(a, b, c)); check("f64 to 8 bits, red", ok(a, o.r as f64, 255.0)); check("f64 to 8 bits, green", ok(b, o.g as f64, 255.0)); check("f64 to 8 bits, blue", ok(c, o.b as f64, 255.0));
    let o = RGBu16::from(RGBf64::new(a, b, c)); check("f64 to 16 bits, red", ok(a, o.r as f64, 65535.0)); check("f64 to 16 bits, green", ok(b, o.g as f64, 65535.0)); check("f64 to 16 bits, blue", ok(c, o.b as f64, 65535.0));
    if a <= b { let (p, q) = (RGBu16::from(RGBf64::new(a, a, a)), RGBu16::from(RGBf64::new(b, b, b))); check("larger inputs never give smaller levels", p.r <= q.r && p.g <= q.g && p.b <= q.b); }
}
