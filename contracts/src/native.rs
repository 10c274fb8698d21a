//! Native meaning of the contract language: bounded conformance runs and counterexample replay.
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
#[allow(unused_imports)]
use vpc as _;
#[derive(Default)]
struct St { seed: u64, run: u64, vars: Vec<f64>, cases: Vec<u32>, fixed_v: Option<Vec<f64>>, fixed_c: Option<Vec<u32>>, expect: bool, fails: Vec<(String, String)>, checks: u64, mode: u32, consts: Vec<f64>, assume_fail: bool, trace: Option<Vec<(f64, f64)>> }
thread_local! { static S: RefCell<St> = RefCell::new(St::default()); }
struct Assume;
fn mix(mut z: u64) -> u64 { z = z.wrapping_add(0x9e3779b97f4a7c15); z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb); z ^ (z >> 31) }
fn draw(s: &mut St, lo: f64, hi: f64, f32_: bool) -> f64 {
    let i = s.vars.len();
    let mut x = if let Some(v) = &s.fixed_v { *v.get(i).unwrap_or(&(if lo <= 0.5 && hi >= 0.5 { 0.5 } else if lo.is_finite() { lo } else { hi })) } else {
        let h = mix(mix(s.seed).wrapping_add(s.run.wrapping_mul(0x1234567)).wrapping_add(i as u64 * 0x9e37)); let u = (h >> 11) as f64 / (1u64 << 53) as f64; let h2 = mix(h); let sel = (h2 % 1000) as u32;
        let st = s.mode % 4; // 0 uniform, 1 structured, 2 log-scaled, 3 mixed
        let st = if st == 3 { (h2 >> 20) as u32 % 3 } else { st };
        let fin = lo.is_finite() && hi.is_finite();
        let prev = |s: &St| if i > 0 { Some(s.vars[(mix(h2) % i as u64) as usize]) } else { None };
        match st {
            1 if sel < 120 => lo.max(-1e300).min(1e300).clamp(-1e6, 1e6), 1 if sel < 220 => hi.clamp(-1e6, 1e6), 1 if sel < 350 => 0.0, 1 if sel < 450 => 1.0, 1 if sel < 480 => -1.0, 1 if sel < 560 => prev(s).unwrap_or(0.5), 1 if sel < 600 => prev(s).map(|x| -x).unwrap_or(0.25),
            1 if sel < 700 && !s.consts.is_empty() => { let c = s.consts[(mix(h2 ^ 7) % s.consts.len() as u64) as usize]; c + if sel & 1 == 0 { 0.0 } else { (u - 0.5) * 1e-6 * c.abs() } }
            1 if fin => lo + (hi - lo) * (u * 8.0).floor() / 8.0, 1 => (u * 21.0 - 10.0).round(),
            2 if fin => { let c = if lo <= 0.0 && hi >= 0.0 { 0.0 } else if lo > 0.0 { lo } else { hi }; let m = 10f64.powf(-7.0 * u); c + (if h2 & 1024 != 0 { hi - c } else { lo - c }) * m }
            2 => { let m = 10f64.powf(7.0 * u - 4.0); if h2 & 1024 != 0 { -m } else { m } }
            _ if fin => lo + (hi - lo) * u, _ => match sel % 4 { 0 => u * 200.0 - 100.0, 1 => u * 20.0 - 10.0, _ => u * 4.0 - 2.0 },
        }
    };
    if s.fixed_v.is_none() { if lo.is_finite() && !hi.is_finite() && x < lo { x = lo + (lo - x); } if hi.is_finite() && !lo.is_finite() && x > hi { x = hi - (x - hi); } x = x.clamp(lo, hi); }
    if f32_ { x = x as f32 as f64; if x < lo { x = (lo as f32).next_up() as f64 } if x > hi { x = (hi as f32).next_down() as f64 } }
    s.vars.push(x); x
}
#[no_mangle] fn vp_any_f64(lo: f64, hi: f64) -> f64 { S.with(|s| draw(&mut s.borrow_mut(), lo, hi, false)) }
#[no_mangle] fn vp_any_f32(lo: f32, hi: f32) -> f32 { S.with(|s| draw(&mut s.borrow_mut(), lo as f64, hi as f64, true) as f32) }
#[no_mangle] fn vp_case(n: u32) -> u32 { let r = S.with(|s| { let mut s = s.borrow_mut(); let i = s.cases.len(); let c = match &s.fixed_c { Some(c) => *c.get(i).unwrap_or(&0), None => (mix(mix(s.seed ^ 0xabc).wrapping_add(s.run * 77).wrapping_add(i as u64)) % n.max(1) as u64) as u32 }; s.cases.push(c); c }); if r >= n { std::panic::resume_unwind(Box::new(Assume)); } r }
#[no_mangle] fn vp_symbolic() -> bool { S.with(|s| s.borrow().trace.is_some()) }
fn asm(b: bool) { if !b { S.with(|s| s.borrow_mut().assume_fail = true); std::panic::resume_unwind(Box::new(Assume)); } }
#[no_mangle] fn vp_assume(b: bool) { asm(b) }
#[no_mangle] fn vp_assume_lt(a: f64, b: f64) { asm(a < b) }
#[no_mangle] fn vp_assume_le(a: f64, b: f64) { asm(a <= b) }
#[no_mangle] fn vp_assume_ne(a: f64, b: f64) { asm(a != b && !a.is_nan() && !b.is_nan()) }
#[no_mangle] fn vp_expect_panic(b: bool) { S.with(|s| s.borrow_mut().expect = b) }
fn lab(p: *const u8, n: usize) -> String { unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)).to_string() } }
fn ck(p: *const u8, n: usize, ok: bool, d: impl FnOnce() -> String) { S.with(|s| { let mut s = s.borrow_mut(); s.checks += 1; if !ok { let d = d(); s.fails.push((lab(p, n), d)); } }) }
fn tr(a: f64, b: f64) { S.with(|s| if let Some(t) = &mut s.borrow_mut().trace { t.push((a, b)) }) }
#[no_mangle] fn vp_assert(p: *const u8, n: usize, b: bool) { tr(b as u8 as f64, 1.0); ck(p, n, b, || "condition is false".into()) }
fn close(a: f64, b: f64, s: f64) -> bool { a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= s }
#[no_mangle] fn vp_eq(p: *const u8, n: usize, a: f64, b: f64, slack: f64) { tr(a, b); ck(p, n, close(a, b, slack), || format!("{:e} != {:e} (slack {:e})", a, b, slack)) }
#[no_mangle] fn vp_near(p: *const u8, n: usize, a: f64, b: f64, tol: f64, slack: f64) { tr(a, b); ck(p, n, close(a, b, tol + slack), || format!("|{:e} - {:e}| > {:e} (+{:e})", a, b, tol, slack)) }
#[no_mangle] fn vp_le(p: *const u8, n: usize, a: f64, b: f64, slack: f64) { tr(a, b); ck(p, n, a <= b + slack, || format!("{:e} > {:e} (slack {:e})", a, b, slack)) }
#[no_mangle] fn vp_lt(p: *const u8, n: usize, a: f64, b: f64) { tr(a, b); ck(p, n, a < b, || format!("{:e} >= {:e}", a, b)) }

fn once(f: fn()) -> Option<bool> { // None: assumption not met; Some(ok)
    let r = catch_unwind(AssertUnwindSafe(f));
    S.with(|s| { let mut s = s.borrow_mut(); match r { Ok(()) => Some(s.fails.is_empty()), Err(e) => { if e.is::<Assume>() { if !s.fails.is_empty() { return Some(false); } return None; } if s.expect { return Some(s.fails.is_empty()); } let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default(); s.fails.push(("no-panic".into(), format!("panicked: {}", m))); Some(false) } } })
}
fn reset(seed: u64, run: u64) { S.with(|s| { let mut s = s.borrow_mut(); let c = std::mem::take(&mut s.consts); let (fv, fc) = (s.fixed_v.take(), s.fixed_c.take()); *s = St { seed, run, mode: (mix(run ^ seed) % 8) as u32, consts: c, fixed_v: fv, fixed_c: fc, ..St::default() }; }) }
fn num(x: f64) -> String { if x.is_finite() { format!("{:e}", x) } else { format!("\"{}\"", x) } }
fn report(c: &str) -> String { S.with(|s| { let s = s.borrow(); format!("{{\"contract\":\"{}\",\"inputs\":[{}],\"cases\":{:?},\"fails\":[{}]}}", c, s.vars.iter().map(|x| num(*x)).collect::<Vec<_>>().join(","), s.cases, s.fails.iter().take(20).map(|(l, d)| format!("[{:?},{:?}]", l, d)).collect::<Vec<_>>().join(",")) }) }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned());
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => for (n, _) in vpc::ALL { println!("{}", n) },
        Some("fuzz") => { // fuzz CONTRACT --n N --seed S --secs T [--consts a,b]
            let f = vpc::ALL.iter().find(|x| x.0 == a[2]).expect("contract").1; let n: u64 = get("--n").map(|x| x.parse().unwrap()).unwrap_or(1000); let secs: f64 = get("--secs").map(|x| x.parse().unwrap()).unwrap_or(5.0); let seed: u64 = get("--seed").map(|x| x.parse().unwrap()).unwrap_or(1);
            if let Some(c) = get("--consts") { let v = c.split(',').filter_map(|x| x.parse().ok()).collect(); S.with(|s| s.borrow_mut().consts = v); }
            let t0 = std::time::Instant::now(); let (mut ran, mut skipped, mut bad, mut checks) = (0u64, 0u64, 0u64, 0u64); let mut shown = vec![];
            for run in 0..n { reset(seed, run); match once(f) { None => skipped += 1, Some(ok) => { ran += 1; if !ok { bad += 1; if shown.len() < 5 { shown.push(report(&a[2])); } } } } checks += S.with(|s| s.borrow().checks); if t0.elapsed().as_secs_f64() > secs || bad > 50 { break; } }
            println!("{{\"contract\":\"{}\",\"runs\":{},\"skipped\":{},\"checks\":{},\"bad\":{},\"wall_s\":{:.2},\"examples\":[{}]}}", a[2], ran, skipped, checks, bad, t0.elapsed().as_secs_f64(), shown.join(","));
        }
        Some("trace") => { // trace CONTRACT FILE: re-executes the verifier's paths (a line "inputs;cases" each) and prints the obligations' values
            let f = vpc::ALL.iter().find(|x| x.0 == a[2]).expect("contract").1; let mut o = String::new();
            for l in std::fs::read_to_string(&a[3]).unwrap().lines() {
                let (i, c) = l.split_once(';').unwrap(); let v: Vec<f64> = i.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(); let c: Vec<u32> = c.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
                S.with(|s| { let mut s = s.borrow_mut(); s.fixed_v = Some(v); s.fixed_c = Some(c); }); reset(0, 0); S.with(|s| s.borrow_mut().trace = Some(vec![])); let r = once(f);
                S.with(|s| { let s = s.borrow(); let t = s.trace.as_ref().unwrap(); o += &format!("#{} {}", if r.is_none() { "skip" } else { "ran" }, t.len()); for (a, b) in t.iter().take(300) { o += &format!(" {:e},{:e}", a, b); } o.push('\n'); });
            }
            print!("{}", o);
        }
        Some("replay") => { // replay CONTRACT INPUTS CASES ; INPUTS comma separated
            let f = vpc::ALL.iter().find(|x| x.0 == a[2]).expect("contract").1; let v: Vec<f64> = a.get(3).map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default(); let c: Vec<u32> = a.get(4).map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
            S.with(|s| { let mut s = s.borrow_mut(); s.fixed_v = Some(v); s.fixed_c = Some(c); }); reset(0, 0); let r = once(f); println!("{}", report(&a[2])); match r { None => { println!("precondition not met"); std::process::exit(3) } Some(true) => { println!("contract holds on this input"); } Some(false) => { println!("contract violated on this input"); std::process::exit(1) } }
        }
        _ => { eprintln!("list | fuzz | replay"); std::process::exit(2) }
    }
}
