mod exec;
mod expr;
mod ir;
mod z3;
use exec::{End, Exec};
use std::collections::{BTreeMap, VecDeque};
use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

struct Item { case: u32, pre: Vec<expr::Dom> }

#[derive(Default)]
struct Totals {
    paths: u64, discards: u64, steps: u64, splits: u64, replayed_prefix: u64,
    queries: u64, sat: u64, unsat: u64, certs: u64, witness: u64, cache: u64, solver_ns: u64,
    validated: u64, ret: u64, engine_errors: BTreeMap<String, u64>,
    models_counted: f64, mismatches: Vec<String>,
    samples: Vec<String>,
    inconclusive: BTreeMap<String, u64>,
    forks: BTreeMap<String, u64>,
}
#[derive(Clone)]
struct Violation { case: u32, holes: Vec<u8>, kind: String, msg: String, sig: String, input: String, text: String }

struct Shared {
    q: Mutex<(VecDeque<Item>, usize)>, // items, busy workers
    cv: Condvar,
    idle: AtomicUsize,
    stop: AtomicBool,
    timeup: AtomicBool,
    totals: Mutex<Totals>,
    viol: Mutex<Vec<Violation>>,
    donated: AtomicU64,
    requeued: AtomicU64,
    case_paths: Mutex<BTreeMap<u32, u64>>,
}
struct Opts { ll: String, native: String, prop: u32, tier: u32, time: f64, threads: usize, out: String, known: Vec<String>, only: Option<u32>, novalidate: bool, maxv: usize, seed: u64, verbose: bool }

fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

/// run one input natively; (status, stdout)
fn native_once(o: &Opts, case: u32, holes: &[u8], timeout: f64) -> (String, String) {
    let mut ch = Command::new(&o.native).env("LRSYM_SHOW", "1").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("native harness");
    writeln!(ch.stdin.take().unwrap(), "{} {} {} x{} -", o.prop, o.tier, case, hex(holes)).ok();
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let h = std::thread::spawn(move || { let mut v = vec![]; so.read_to_end(&mut v).ok(); String::from_utf8_lossy(&v).into_owned() });
    let h2 = std::thread::spawn(move || { let mut v = vec![]; se.read_to_end(&mut v).ok(); String::from_utf8_lossy(&v).into_owned() });
    let t0 = Instant::now();
    let st = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            use std::os::unix::process::ExitStatusExt;
            break if let Some(c) = s.code() { format!("exit {}", c) } else { format!("signal {}", s.signal().unwrap_or(0)) };
        }
        if t0.elapsed().as_secs_f64() > timeout { ch.kill().ok(); ch.wait().ok(); break "timeout".into(); }
        std::thread::sleep(Duration::from_millis(2));
    };
    let out = h.join().unwrap() + &h2.join().unwrap();
    (st, out)
}
/// does native execution of this input show the failure?
fn confirm(o: &Opts, case: u32, holes: &[u8], end: &End) -> Option<Violation> {
    let (st, out) = native_once(o, case, holes, 20.0);
    let line = |p: &str| out.lines().find(|l| l.starts_with(p)).map(|l| l[p.len()..].trim().to_string()).unwrap_or_default();
    let kind;
    let msg;
    match st.as_str() {
        "exit 3" => { kind = "assertion"; msg = line("FAIL"); }
        "timeout" => { kind = "hang"; msg = "no result within 20 s".into(); }
        s if s.starts_with("signal") => {
            kind = "crash";
            let lines: Vec<&str> = out.lines().collect();
            let m = lines.iter().position(|l| l.contains("panicked at")).map(|i| format!("{} {}", lines[i].split("panicked at").nth(1).unwrap_or(""), lines.get(i + 1).unwrap_or(&"")).trim().to_string()).unwrap_or_else(|| s.to_string());
            msg = m;
        }
        _ => return None,
    }
    let _ = end;
    let sig = match kind { "assertion" => format!("assertion:{}", msg.split(" | ").next().unwrap_or("")), "hang" => "hang".into(), _ => { let m = msg.splitn(2, ": ").nth(1).unwrap_or(&msg).to_string(); let file = msg.split(':').next().unwrap_or("").rsplit('/').next().unwrap_or("").to_string(); format!("crash:{}:{}", file, m) } };
    Some(Violation { case, holes: holes.to_vec(), kind: kind.into(), msg, sig, input: line("INPUT "), text: line("INPUT-TEXT") })
}

fn worker(id: usize, m: &ir::Module, o: &Opts, sh: &Shared, t0: Instant) {
    let mut ex = Exec::new(m);
    ex.profile = o.verbose;
    let f = m.fmap["lrsym_entry"];
    let mut val: Option<Child> = None;
    let mut tot = Totals::default();
    let mut vbuf = String::new();
    let limit = Duration::from_secs_f64(o.time);
    let mut cp: BTreeMap<u32, u64> = BTreeMap::new();
    'outer: loop {
        let item = {
            let mut g = sh.q.lock().unwrap();
            loop {
                if sh.stop.load(Relaxed) { break 'outer; }
                if let Some(i) = g.0.pop_front() { g.1 += 1; break i; }
                if g.1 == 0 { sh.cv.notify_all(); break 'outer; }
                sh.idle.fetch_add(1, Relaxed);
                g = sh.cv.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
                sh.idle.fetch_sub(1, Relaxed);
            }
        };
        let started = Instant::now();
        ex.pre = item.pre;
        if !ex.pre.is_empty() { tot.replayed_prefix += 1; }
        ex.start(f, &[o.prop as u64, o.tier as u64, item.case as u64], item.case);
        let mut n = 0u64;
        loop {
            let end = ex.run();
            n += 1;
            tot.paths += 1;
            *cp.entry(item.case).or_insert(0) += 1;
            match &end {
                End::Discard => tot.discards += 1,
                End::Return => {
                    tot.ret += 1;
                    let pick = o.seed.wrapping_mul(1000003) ^ tot.ret.wrapping_mul(0x9E37) ^ item.case as u64;
                    let st = &ex.st;
                    match ex.store.model(&st.doms, &st.rel, pick) {
                        None => { tot.ret -= 1; tot.discards += 1; }
                        Some(md) => {
                            if st.rel.is_empty() {
                                let r: f64 = st.doms.iter().zip(st.dom0.iter()).map(|(a, b)| expr::dom_count(a) as f64 / expr::dom_count(b) as f64).product();
                                tot.models_counted += r;
                            }
                            if !o.novalidate {
                                let mut h = 0xcbf29ce484222325u64;
                                for e in &st.emits { let b = if e.e == 0 { e.v } else { ex.store.eval(e.e, &md) }; h = (h ^ (b & 0xff)).wrapping_mul(0x100000001b3); }
                                let nh = st.doms.len();
                                vbuf.push_str(&format!("{} {} {} x{} {:016x} {}\n", o.prop, o.tier, item.case, hex(&md[..nh]), h, st.emits.len()));
                                tot.validated += 1;
                                if vbuf.len() > 1 << 14 { flush(&mut val, &mut vbuf, o, &mut tot); }
                            }
                            if tot.samples.len() < 3 && tot.ret % 97 == 1 {
                                let inp: Vec<u8> = st.input.iter().map(|e| if e.e == 0 { e.v as u8 } else { ex.store.eval(e.e, &md) as u8 }).collect();
                                let holes: u32 = st.doms.iter().filter(|d| expr::dom_count(d) > 1).count() as u32;
                                tot.samples.push(format!("case {}: {:?} stands for {} inputs ({} bytes still symbolic)", item.case, String::from_utf8_lossy(&inp), st.doms.iter().map(|d| expr::dom_count(d) as f64).product::<f64>(), holes));
                            }
                        }
                    }
                }
                _ => {
                    let st = &ex.st;
                    let md = ex.store.model(&st.doms, &st.rel, o.seed);
                    if let Some(md) = md {
                        let nh = st.doms.len();
                        let holes = md[..nh].to_vec();
                        match confirm(o, item.case, &holes, &end) {
                            Some(v) => {
                                let known = o.known.contains(&v.sig);
                                let mut g = sh.viol.lock().unwrap();
                                let seen = g.iter().filter(|x| x.sig == v.sig).count();
                                if seen < 2 {
                                    if o.verbose { eprintln!("violation: {} case {} {} | {}", v.sig, v.case, v.text, match &end { End::Panic(s) => s.clone(), _ => String::new() }); }
                                    g.push(v);
                                }
                                let distinct: std::collections::BTreeSet<&String> = g.iter().map(|x| &x.sig).filter(|s| !o.known.contains(s)).collect();
                                if !known && distinct.len() >= o.maxv { sh.stop.store(true, Relaxed); }
                            }
                            None => match &end {
                                End::Steps | End::Memory => { *tot.inconclusive.entry(format!("{:?}", end)).or_insert(0) += 1; }
                                End::Engine(s) => { *tot.engine_errors.entry(format!("{} (case {}, holes {})", s, item.case, hex(&holes))).or_insert(0) += 1; }
                                _ => { tot.mismatches.push(format!("{:?} not reproduced natively: case {} holes {} ({} relational constraints, domains {:?}, pre {:?})", end, item.case, hex(&holes), st.rel.len(), st.doms.iter().map(expr::dom_count).collect::<Vec<_>>(), ex.pre.iter().map(expr::dom_count).collect::<Vec<_>>())); }
                            },
                        }
                    } else { tot.discards += 1; }
                }
            }
            if sh.stop.load(Relaxed) { for p in ex.pending.drain(..) { ex.pool.push(p.st); } break; }
            if n % 16 == 0 || started.elapsed().as_secs() >= 1 {
                if t0.elapsed() > limit { sh.timeup.store(true, Relaxed); sh.stop.store(true, Relaxed); }
            }
            if sh.idle.load(Relaxed) > 0 && ex.pending.len() > 0 {
                let mut g = sh.q.lock().unwrap();
                let want = sh.idle.load(Relaxed);
                let mut k = 0;
                while g.0.len() < want && k < 4 {
                    match ex.donate() { Some(t) => { g.0.push_back(Item { case: item.case, pre: t }); sh.donated.fetch_add(1, Relaxed); k += 1; } None => break }
                }
                drop(g);
                sh.cv.notify_all();
            }
            if started.elapsed().as_secs_f64() > 3.0 && ex.pending.len() > 0 {
                let mut g = sh.q.lock().unwrap();
                if !g.0.is_empty() {
                    while let Some(t) = ex.donate() { g.0.push_back(Item { case: item.case, pre: t }); sh.requeued.fetch_add(1, Relaxed); }
                    if ex.pending.is_empty() { break; }
                }
            }
            if !ex.resume() { break; }
        }
        if ex.store.nodes.len() > 3_000_000 { 
            let s = std::mem::take(&mut ex.store.stats);
            ex.store = expr::Store::new();
            ex.store.stats = s;
        }
        let mut g = sh.q.lock().unwrap();
        g.1 -= 1;
        if g.1 == 0 && g.0.is_empty() { sh.cv.notify_all(); }
    }
    sh.cv.notify_all();
    flush(&mut val, &mut vbuf, o, &mut tot);
    finish(&mut val, &mut tot);
    let _ = id;
    let s = &ex.store.stats;
    let mut g = sh.totals.lock().unwrap();
    g.paths += tot.paths; g.discards += tot.discards; g.ret += tot.ret; g.steps += ex.total_steps; g.splits += ex.splits;
    if s.unknown > 0 { *g.inconclusive.entry("solver queries without an answer in time".into()).or_insert(0) += s.unknown; }
    g.queries += s.queries; g.sat += s.sat; g.unsat += s.unsat; g.certs += s.certs; g.witness += s.witness; g.cache += s.cache_hits; g.solver_ns += s.time.as_nanos() as u64;
    g.validated += tot.validated; g.models_counted += tot.models_counted; g.replayed_prefix += tot.replayed_prefix;
    g.mismatches.extend(tot.mismatches);
    g.samples.extend(tot.samples);
    for (k, v) in tot.engine_errors { *g.engine_errors.entry(k).or_insert(0) += v; }
    for (k, v) in tot.inconclusive { *g.inconclusive.entry(k).or_insert(0) += v; }
    for (k, v) in &ex.forks_by_func { *g.forks.entry(exec::short(&m.funcs[*k as usize].name)).or_insert(0) += v; }
    let mut c = sh.case_paths.lock().unwrap();
    for (k, v) in cp { *c.entry(k).or_insert(0) += v; }
}
fn flush(val: &mut Option<Child>, buf: &mut String, o: &Opts, tot: &mut Totals) {
    if buf.is_empty() { return; }
    if val.is_none() { *val = Some(Command::new(&o.native).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("native harness")); }
    if val.as_mut().unwrap().stdin.as_mut().unwrap().write_all(buf.as_bytes()).is_err() {
        finish(val, tot);
    }
    buf.clear();
}
fn finish(val: &mut Option<Child>, tot: &mut Totals) {
    if let Some(mut c) = val.take() {
        drop(c.stdin.take());
        let mut s = vec![];
        c.stdout.take().unwrap().read_to_end(&mut s).ok();
        let s = String::from_utf8_lossy(&s).into_owned();
        let st = c.wait();
        if !s.lines().last().map(|l| l.starts_with("DONE")).unwrap_or(false) { tot.mismatches.push(format!("path validation: {} {:?}", s.lines().last().unwrap_or("no output"), st)); }
    }
}
fn esc(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() { match c { '"' => r.push_str("\\\""), '\\' => r.push_str("\\\\"), c if (c as u32) < 32 => r.push_str(&format!("\\u{:04x}", c as u32)), c => r.push(c) } }
    r.push('"');
    r
}

extern "C" { fn mallopt(p: i32, v: i32) -> i32; }
fn main() {
    unsafe { mallopt(-1, 1 << 30); mallopt(-2, 64 << 20); mallopt(-3, 1 << 30); } // keep memory instead of returning it to the system
    let a: Vec<String> = std::env::args().skip(1).collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let o = Opts {
        ll: get("--ll").expect("--ll"), native: get("--native").expect("--native"), prop: get("--prop").unwrap().parse().unwrap(), tier: get("--tier").unwrap_or("0".into()).parse().unwrap(),
        time: get("--time").unwrap_or("100".into()).parse().unwrap(), threads: get("--threads").unwrap_or("8".into()).parse().unwrap(), out: get("--out").unwrap_or_default(),
        known: get("--known").map(|f| std::fs::read_to_string(f).unwrap_or_default().lines().map(|s| s.to_string()).filter(|s| !s.is_empty()).collect()).unwrap_or_default(),
        only: get("--case").map(|c| c.parse().unwrap()), novalidate: a.iter().any(|x| x == "--no-validate"), maxv: get("--max-violations").unwrap_or("1".into()).parse().unwrap(),
        seed: get("--seed").unwrap_or("1".into()).parse().unwrap(), verbose: a.iter().any(|x| x == "-v"),
    };
    let t0 = Instant::now();
    let m = ir::Module::load(&o.ll);
    let load = t0.elapsed();
    // number of cases, from the harness itself
    let ncases = {
        let mut ex = Exec::new(&m);
        ex.start(m.fmap["lrsym_cases"], &[o.prop as u64, o.tier as u64], 0);
        match ex.run_value() { Ok(v) => v as u32, Err(e) => { eprintln!("engine: lrsym_cases: {:?}", e); std::process::exit(2); } }
    };
    for f in &m.funcs { f.used.store(false, Relaxed); }
    // --holes HEX,..: only inputs that begin with these hole values (development)
    let dom = |h: &str| -> Vec<expr::Dom> { (0..h.len() / 2).map(|i| { let b = u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap(); let mut d = [0u64; 4]; d[b as usize >> 6] |= 1 << (b & 63); d }).collect() };
    let pres: Vec<Vec<expr::Dom>> = get("--holes").unwrap_or_default().split(',').map(dom).collect();
    let items: VecDeque<Item> = (0..ncases).filter(|c| o.only.map(|x| x == *c).unwrap_or(true)).flat_map(|case| pres.iter().map(move |p| Item { case, pre: p.clone() })).collect();
    let nitems = items.len();
    expr::DEADLINE.set(t0 + Duration::from_secs_f64(o.time)).ok();
    let sh = Shared { q: Mutex::new((items, 0)), cv: Condvar::new(), idle: AtomicUsize::new(0), stop: AtomicBool::new(false), timeup: AtomicBool::new(false), totals: Default::default(), viol: Default::default(), donated: AtomicU64::new(0), requeued: AtomicU64::new(0), case_paths: Default::default() };
    std::thread::scope(|s| {
        for i in 0..o.threads {
            let (m, o, sh) = (&m, &o, &sh);
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || worker(i, m, o, sh, t0)).unwrap();
        }
    });
    let t = sh.totals.into_inner().unwrap();
    let viol = sh.viol.into_inner().unwrap();
    let cp = sh.case_paths.into_inner().unwrap();
    let started = cp.len();
    let left = sh.q.into_inner().unwrap().0.len();
    let mut funcs: Vec<String> = m.funcs.iter().filter(|f| f.used.load(Relaxed)).map(|f| exec::short(&f.name)).collect();
    funcs.sort();
    let lib: Vec<&String> = funcs.iter().filter(|f| f.contains("lib::") || f.contains("lexer") || f.contains("parser") || f.contains("builder")).collect();
    let new_v: Vec<&Violation> = viol.iter().filter(|v| !o.known.contains(&v.sig)).collect();
    let exhaustive = !sh.timeup.load(Relaxed) && left == 0 && t.engine_errors.is_empty() && t.inconclusive.is_empty() && t.mismatches.is_empty() && (new_v.is_empty());
    // internal consistency: without relational constraints the paths partition the input space
    let mut j = String::from("{\n");
    let mut kv = |k: &str, v: String| { j.push_str(&format!("  {}: {},\n", esc(k), v)); };
    kv("prop", o.prop.to_string()); kv("tier", o.tier.to_string());
    kv("cases", ncases.to_string()); kv("cases_started", started.to_string()); kv("unexplored_subproblems", left.to_string());
    kv("paths", t.paths.to_string()); kv("paths_completed", t.ret.to_string()); kv("paths_discarded", t.discards.to_string());
    kv("steps", t.steps.to_string()); kv("splits", t.splits.to_string());
    kv("z3_queries", t.queries.to_string()); kv("z3_sat", t.sat.to_string()); kv("z3_unsat", t.unsat.to_string()); kv("predicate_certificates", t.certs.to_string());
    kv("witness_sat", t.witness.to_string()); kv("query_cache_hits", t.cache.to_string()); kv("solver_time_s", format!("{:.3}", t.solver_ns as f64 / 1e9));
    kv("validated_paths", t.validated.to_string());
    kv("input_space_fraction_sum", format!("{:.9}", t.models_counted));
    kv("functions_encoded", funcs.len().to_string());
    kv("library_functions", format!("[{}]", lib.iter().map(|f| esc(f)).collect::<Vec<_>>().join(", ")));
    kv("samples", format!("[{}]", t.samples.iter().take(8).map(|f| esc(f)).collect::<Vec<_>>().join(", ")));
    kv("engine_errors", format!("[{}]", t.engine_errors.iter().take(20).map(|(k, v)| esc(&format!("{} x{}", k, v))).collect::<Vec<_>>().join(", ")));
    kv("inconclusive", format!("[{}]", t.inconclusive.iter().map(|(k, v)| esc(&format!("{} x{}", k, v))).collect::<Vec<_>>().join(", ")));
    kv("mismatches", format!("[{}]", t.mismatches.iter().take(20).map(|f| esc(f)).collect::<Vec<_>>().join(", ")));
    kv("z3_version", esc(&z3::version()));
    kv("exhaustive", exhaustive.to_string());
    kv("time_s", format!("{:.2}", t0.elapsed().as_secs_f64())); kv("load_s", format!("{:.2}", load.as_secs_f64()));
    kv("donated", sh.donated.load(Relaxed).to_string()); kv("requeued", sh.requeued.load(Relaxed).to_string()); kv("prefix_replays", t.replayed_prefix.to_string());
    kv("violations", format!("[{}]", viol.iter().map(|v| format!("{{\"case\": {}, \"holes\": {}, \"kind\": {}, \"msg\": {}, \"sig\": {}, \"input_hex\": {}, \"input\": {}, \"known\": {}}}", v.case, esc(&hex(&v.holes)), esc(&v.kind), esc(&v.msg), esc(&v.sig), esc(&v.input), esc(&v.text), o.known.contains(&v.sig))).collect::<Vec<_>>().join(",\n    ")));
    j.push_str("  \"end\": true\n}\n");
    if !o.out.is_empty() { std::fs::write(&o.out, &j).unwrap(); }
    eprintln!("cases {}/{} left {} paths {} (ret {} disc {}) steps {}M splits {} z3 {} {:.1}s certs {} wit {} val {} frac {:.6} time {:.1}s exh {}", started, nitems, left, t.paths, t.ret, t.discards, t.steps / 1_000_000, t.splits, t.queries, t.solver_ns as f64 / 1e9, t.certs, t.witness, t.validated, t.models_counted, t0.elapsed().as_secs_f64(), exhaustive);
    if o.verbose {
        let mut c: Vec<_> = cp.iter().collect();
        c.sort_by_key(|x| std::cmp::Reverse(*x.1));
        eprintln!("largest cases: {:?}", &c[..c.len().min(12)]);
        let mut c: Vec<_> = t.forks.iter().collect();
        c.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (f, n) in c.iter().take(14) { eprintln!("  forks {} {}", n, f); }
    }
    for e in t.engine_errors.iter().take(10) { eprintln!("engine error: {} x{}", e.0, e.1); }
    for e in t.inconclusive.iter().take(10) { eprintln!("inconclusive: {} x{}", e.0, e.1); }
    for e in t.mismatches.iter().take(10) { eprintln!("MISMATCH: {}", e); }
    for v in viol.iter().filter(|v| !o.known.contains(&v.sig)) { eprintln!("violation: {} | {} | case {} holes {} input {}", v.sig, v.msg, v.case, hex(&v.holes), v.text); }
    std::process::exit(if !new_v.is_empty() { 1 } else if !t.mismatches.is_empty() { 2 } else { 0 });
}
