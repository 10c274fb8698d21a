mod exec; mod ir; mod rat; mod solve; mod term;
use exec::*;
use std::fmt::Write;
fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => {} c => o.push(c) } } o.push('"'); o }
fn num(x: f64) -> String { if x.is_nan() { "\"NaN\"".into() } else if x.is_infinite() { if x > 0.0 { "\"Infinity\"".into() } else { "\"-Infinity\"".into() } } else { format!("{:e}", x) } }
fn main() {
    // deep recursion is not used, but give the interpreter a generous stack
    let h = std::thread::Builder::new().stack_size(512 << 20).spawn(run).unwrap(); std::process::exit(h.join().unwrap_or(3));
}
fn run() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 { eprintln!("vpengine list FILE.ll | run FILE.ll CONTRACT [--seed N] [--secs S] [--paths N] [--steps N] [--trace]"); return 2; }
    let mut m = match ir::Module::load(&a[2]) { Ok(m) => m, Err(e) => { eprintln!("{}", e); return 2; } };
    if a[1] == "list" { for f in &m.fns { if f.def.is_some() && f.name.len() > 4 && f.name.starts_with('c') && f.name.as_bytes()[1].is_ascii_digit() && f.name.as_bytes()[3] == b'_' { println!("{}", f.name); } } return 0; }
    let get = |k: &str, d: f64| a.iter().position(|x| x == k).map(|i| a[i + 1].parse().unwrap()).unwrap_or(d);
    let t0 = std::time::Instant::now();
    let id = match m.fidx.get(&a[3]) { Some(&i) => i, None => { eprintln!("no contract {}", a[3]); return 2; } };
    let lim = Limits { steps: get("--steps", 400e6) as u64, paths: get("--paths", 20000.0) as usize, secs: get("--secs", 120.0) };
    let mut e = Exec::new(&mut m, get("--seed", 1.0) as u64, lim); e.trace = a.iter().any(|x| x == "--trace"); e.s.deep_secs = get("--deep", 10.0);
    e.run(id);
    let mut o = String::new();
    write!(o, "{{\"contract\":{},\"paths\":{},\"complete\":{},\"dead\":{},\"instructions\":{},\"terms\":{},\"merges\":{},\"solver_calls\":{},\"smt_calls\":{},\"solver_s\":{:.3},\"smt_s\":{:.3},\"wall_s\":{:.3},", js(&a[3]), e.paths, e.complete, e.dead, e.steps, e.t.nodes.len(), e.t.merges, e.s.calls, e.s.smt_calls, e.s.secs, e.s.smt_secs, t0.elapsed().as_secs_f64()).unwrap();
    let fns: Vec<String> = e.fns.iter().map(|f| &e.m.fns[*f as usize].name).filter(|n| n.contains("10colorspace")).map(|n| js(n)).collect();
    write!(o, "\"functions\":[{}],\"unsupported\":[{}],\"consts\":{:?},", fns.join(","), { let mut u = e.unsup.clone(); u.sort(); u.dedup(); u.iter().take(20).map(|s| js(s)).collect::<Vec<_>>().join(",") }, e.consts.iter().collect::<Vec<_>>()).unwrap();
    write!(o, "\"reached\":{{{}}},", e.reached.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")).unwrap();
    let mut meth = std::collections::BTreeMap::new(); let mut labels: std::collections::BTreeMap<String, (usize, usize, usize)> = Default::default();
    for b in &e.obls { let l = labels.entry(b.label.clone()).or_default(); match b.status { "proved" => { l.0 += 1; *meth.entry(b.method.clone()).or_insert(0usize) += 1; } "refuted" => l.1 += 1, _ => l.2 += 1 } }
    write!(o, "\"methods\":{{{}}},\"labels\":{{{}}},\"bad\":[", meth.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","), labels.iter().map(|(k, v)| format!("{}:[{},{},{}]", js(k), v.0, v.1, v.2)).collect::<Vec<_>>().join(",")).unwrap();
    let mut cnt: std::collections::HashMap<(String, &str), usize> = Default::default(); let mut first = true;
    for b in &e.obls { if b.status == "proved" { continue; } let c = cnt.entry((b.label.clone(), b.status)).or_default(); *c += 1; if *c > 5 { continue; } if !first { o += ","; } first = false;
        write!(o, "{{\"label\":{},\"status\":\"{}\",\"method\":{},\"detail\":{},\"inputs\":[{}],\"cases\":{:?}}}", js(&b.label), b.status, js(&b.method), js(&b.detail), b.inputs.iter().map(|x| num(*x)).collect::<Vec<_>>().join(","), b.cases).unwrap(); }
    o += "],\"conf\":["; for (i, c) in e.conf.iter().enumerate() { if i > 0 { o += ","; } write!(o, "{{\"inputs\":[{}],\"cases\":{:?},\"nobl\":{},\"vals\":[{}]}}", c.inputs.iter().map(|x| num(*x)).collect::<Vec<_>>().join(","), c.cases, c.nobl, c.vals.iter().map(|(a, b)| format!("[{},{}]", num(*a), num(*b))).collect::<Vec<_>>().join(",")).unwrap(); }
    o += "]}"; println!("{}", o); 0
}
