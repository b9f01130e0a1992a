#![allow(static_mut_refs)]
mod al;
mod exec;
mod fx;
mod ir;
mod term;
mod z3;
use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::time::Instant;

extern "C" { fn fork() -> i32; fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32; fn waitpid(p: i32, st: *mut i32, o: i32) -> i32; fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; fn _exit(c: i32) -> !; }

/// identifiers of a v0-mangled name, joined
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") { return n.to_string(); }
    let b = n.as_bytes(); let mut i = 2; let mut out: Vec<&str> = vec![];
    while i < b.len() {
        if (b[i] == b's' || b[i] == b'B') && i + 1 < b.len() {
            // disambiguator / backref: base62 then '_'
            let mut j = i + 1; while j < b.len() && b[j].is_ascii_alphanumeric() && j - i < 14 { j += 1; }
            if j < b.len() && b[j] == b'_' { i = j + 1; continue; }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i; let mut l = 0usize; while j < b.len() && b[j].is_ascii_digit() { l = l * 10 + (b[j] - b'0') as usize; j += 1; }
            if j < b.len() && b[j] == b'_' { j += 1; }
            if j + l <= b.len() { let id = &n[j..j + l]; if !id.is_empty() && id.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') { out.push(id); i = j + l; continue; } }
            i += 1; continue;
        }
        i += 1;
    }
    out.join("::")
}
fn esc(s: &str) -> String { let mut o = String::new(); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } } o }
fn ul(v: &[u64]) -> String { v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",") }

#[global_allocator] static GA: al::A = al::A;

struct Out { lines: Vec<String> }
fn dump(e: &Exec, o: &mut Out) {
    let t = &e.t; let z = &e.z3.st;
    for (k, v) in [("paths", t.paths), ("done", t.done), ("infeasible", t.infeasible), ("cut", t.cut), ("forks", t.forks), ("steps", t.steps), ("checks", t.checks), ("checks_const", t.checks_const), ("checks_smt", t.checks_smt), ("dom_prunes", t.dom_prunes), ("dom_branches", t.dom_branches), ("model_hits", t.model_hits), ("smt_branches", t.smt_branches), ("prune_confirm", t.prune_confirm), ("leaf_confirm", t.leaf_confirm), ("calls", t.calls), ("instructions", t.xsteps), ("z3_queries", z.queries), ("z3_sat", z.sat), ("z3_unsat", z.unsat), ("z3_time_us", z.time_us)] { o.lines.push(format!("S\t{}\t{}", k, v)); }
    o.lines.push(format!("M\tz3_max_us\t{}", z.max_us)); o.lines.push(format!("M\tmax_steps\t{}", e.max_done));
    for f in &e.funcs_hit { o.lines.push(format!("F\t{}", e.m.fname(*f))); }
    for (f, v) in e.blocks_hit.iter().enumerate() { if v.is_empty() { continue; } o.lines.push(format!("F\t{}", e.m.fname(f as u32))); for (b, h) in v.iter().enumerate() { if *h != 0 { o.lines.push(format!("B\t{}\t{}", e.m.fname(f as u32), b)); } } }
    for (c, n) in &e.covers { o.lines.push(format!("C\t{}\t{}", c, n)); }
    for r in &e.reports { o.lines.push(format!("R\t{}\t{}\t{}\t{}\t{}\t{}", r.kind, r.id, r.known, ul(&r.inputs), r.msg.replace(['\t', '\n'], " "), r.stack.join(" < "))); }
    for (i, ob) in &e.samples { o.lines.push(format!("T\t{}\t{}", ul(i), ul(ob))); }
    for (k, n) in &e.report_keys { o.lines.push(format!("K\t{}\t{}", k.replace(['\t', '\n'], " "), n)); }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut ll = String::new(); let mut entry = String::new(); let mut out = String::new(); let mut workers = 8usize; let mut timeout = 600u64; let mut split = 64usize;
    let mut cfg = Cfg { max_steps: 30_000_000, max_depth: 1500, skip: vec![], copy_clone: vec![], redirect: vec![], tabulate: vec![], known_panic: vec![], max_reports: 40, samples: 20, confirm: 0, leaf: false, atomize: false };
    let ps = |s: &str| -> Vec<String> { s.split('&').map(|x| x.to_string()).collect() };
    let mut i = 1;
    while i < args.len() {
        let v = || args[i + 1].clone();
        match args[i].as_str() {
            "--ll" => ll = v(), "--entry" => entry = v(), "--out" => out = v(), "--workers" => workers = v().parse().unwrap(), "--timeout" => timeout = v().parse().unwrap(), "--split" => split = v().parse().unwrap(),
            "--max-steps" => cfg.max_steps = v().parse().unwrap(), "--max-depth" => cfg.max_depth = v().parse().unwrap(), "--samples" => cfg.samples = v().parse().unwrap(),
            "--skip" => cfg.skip.push(ps(&v())), "--copy-clone" => cfg.copy_clone.push(ps(&v())), "--tabulate" => cfg.tabulate.push(ps(&v())),
            "--redirect" => { let s = v(); let (a, b) = s.rsplit_once('=').unwrap(); cfg.redirect.push((ps(a), b.to_string())); }
            "--known-panic" => cfg.known_panic.push(v()),
            "--atomize" => { cfg.atomize = true; i += 1; continue; }, "--leaf" => { cfg.leaf = true; i += 1; continue; } "--confirm" => cfg.confirm = v().parse().unwrap(),
            a => { eprintln!("llsx: bad arg {}", a); std::process::exit(3); }
        }
        i += 2;
    }
    // deep recursion in decoding helpers is bounded, but give the main thread room anyway
    let h = std::thread::Builder::new().stack_size(512 << 20).spawn(move || real_main(ll, entry, out, workers, timeout, split, cfg)).unwrap();
    h.join().map_err(|_| std::process::exit(3)).ok();
}

fn real_main(ll: String, entry: String, out: String, workers: usize, timeout: u64, split: usize, cfg: Cfg) {
    let t0 = Instant::now();
    let m = ir::Module::load(&ll);
    let mut ex = Exec::new(m, cfg);
    let st = ex.init(&entry);
    let tload = t0.elapsed().as_secs_f64();
    // phase 1: breadth first until the frontier is wide enough
    let mut front: std::collections::VecDeque<State> = std::collections::VecDeque::new(); front.push_back(st);
    while let Some(s) = front.pop_front() {
        match ex.run(s) { Ok(v) => front.extend(v), Err((s, e)) => ex.finish(&s, e) }
        if front.len() >= split || ex.unknown_reports() >= ex.cfg.max_reports || ex.limit_hits() >= 4 || t0.elapsed().as_secs() > timeout { break; }
    }
    let tph1 = t0.elapsed().as_secs_f64();
    let mut o = Out { lines: vec![] };
    let n = front.len();
    let mut truncated = 0u64;
    if n == 0 || ex.unknown_reports() >= ex.cfg.max_reports || ex.limit_hits() >= 4 { dump(&ex, &mut o); if n != 0 { truncated = 1; } }
    else {
        let states: Vec<State> = front.into_iter().collect();
        // shared between all workers: next frontier state, stop flag, running workers, sequence number for output files
        let ctr = unsafe { &*(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const [std::sync::atomic::AtomicUsize; 4]) };
        use std::sync::atomic::Ordering::SeqCst;
        dump(&ex, &mut o);
        unsafe { prctl(36, 1, 0, 0, 0); } // adopt the workers' children
        ctr[2].store(workers, SeqCst);
        fn reset(ex: &mut Exec) { ex.t = Tally::default(); ex.samples.clear(); ex.reports.clear(); ex.covers.clear(); ex.report_keys.clear(); ex.funcs_hit.clear(); ex.blocks_hit.clear(); ex.z3 = z3::Z3::new(); }
        for _ in 0..workers {
            let p = unsafe { fork() };
            if p == 0 {
                reset(&mut ex);
                let mut trunc = 0; let mut seq = 0usize; let mut fresh = true; let mut lastsplit = Instant::now();
                let mut stack: std::collections::VecDeque<State> = Default::default();
                loop {
                    if stack.is_empty() { if !fresh { break; } let k = ctr[0].fetch_add(1, SeqCst); if k >= states.len() { break; } stack.push_back(states[k].clone()); }
                    let s = stack.pop_back().unwrap();
                    match ex.run(s) { Ok(v) => stack.extend(v.into_iter().rev()), Err((s, e)) => ex.finish(&s, e) }
                    seq += 1;
                    if t0.elapsed().as_secs() > timeout { trunc = 1; break; }
                    if ex.unknown_reports() >= ex.cfg.max_reports || ex.limit_hits() >= 2 { ctr[1].store(1, SeqCst); }
                    if ctr[1].load(SeqCst) > 0 { trunc = 1; break; }
                    // a worker has run out of work: hand over the older half of the open states
                    if seq % 8 == 0 && stack.len() >= 2 && lastsplit.elapsed().as_millis() > 120 && ctr[0].load(SeqCst) >= states.len() {
                        let a = ctr[2].load(SeqCst); if a < workers { lastsplit = Instant::now(); }
                        if a < workers && ctr[2].compare_exchange(a, a + 1, SeqCst, SeqCst).is_ok() {
                            let c = unsafe { fork() };
                            if c == 0 { reset(&mut ex); trunc = 0; seq = 0; fresh = false; let n = stack.len() / 2; let keep: Vec<State> = stack.drain(n.max(1)..).collect(); std::mem::forget(keep); }
                            else if c > 0 { let n = stack.len() / 2; let gone: Vec<State> = stack.drain(..n.max(1)).collect(); std::mem::forget(gone); }
                            else { ctr[2].fetch_sub(1, SeqCst); }
                        }
                    }
                }
                let mut oo = Out { lines: vec![] };
                dump(&ex, &mut oo);
                oo.lines.push(format!("S\ttruncated\t{}", trunc));
                let w = ctr[3].fetch_add(1, SeqCst);
                std::fs::write(format!("{}.{}", out, w), oo.lines.join("\n")).unwrap();
                ctr[2].fetch_sub(1, SeqCst);
                unsafe { _exit(0) }
            }
        }
        let mut bad = false;
        loop { let mut s = 0; let p = unsafe { waitpid(-1, &mut s, 0) }; if p < 0 { break; } if s != 0 { bad = true; } }
        for w in 0..ctr[3].load(SeqCst) { match std::fs::read_to_string(format!("{}.{}", out, w)) { Ok(s) => { o.lines.extend(s.lines().map(|x| x.to_string())); let _ = std::fs::remove_file(format!("{}.{}", out, w)); } Err(_) => bad = true } }
        o.lines.push(format!("S\tworkers\t{}", ctr[3].load(SeqCst)));
        if bad { o.lines.push("S\tworker_failed\t1".into()); }
    }
    // merge
    let mut sums: BTreeMap<String, u64> = BTreeMap::new(); let mut mx: BTreeMap<String, u64> = BTreeMap::new(); let mut fns = BTreeSet::new(); let mut blks = BTreeSet::new(); let mut cov: BTreeMap<String, u64> = BTreeMap::new(); let mut reps = vec![]; let mut smp = vec![]; let mut keys: BTreeMap<String, u64> = BTreeMap::new();
    for l in &o.lines {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "S" => *sums.entry(f[1].into()).or_insert(0) += f[2].parse::<u64>().unwrap(),
            "M" => { let e = mx.entry(f[1].into()).or_insert(0); *e = (*e).max(f[2].parse().unwrap()); }
            "F" => { fns.insert(f[1].to_string()); } "B" => { blks.insert((f[1].to_string(), f[2].to_string())); }
            "C" => *cov.entry(f[1].into()).or_insert(0) += f[2].parse::<u64>().unwrap(),
            "R" => reps.push(f.iter().map(|x| x.to_string()).collect::<Vec<_>>()),
            "T" => smp.push((f[1].to_string(), f[2].to_string())),
            "K" => *keys.entry(f[1].into()).or_insert(0) += f[2].parse::<u64>().unwrap(),
            _ => {}
        }
    }
    *sums.entry("truncated".into()).or_insert(0) += truncated;
    let mut j = String::from("{");
    let _ = write!(j, "\"entry\":\"{}\",\"wall_s\":{:.3},\"load_s\":{:.3},\"phase1_s\":{:.3},\"frontier\":{},\"z3\":\"{}\",", esc(&entry), t0.elapsed().as_secs_f64(), tload, tph1, n, esc(&z3::version()));
    let _ = write!(j, "\"stats\":{{{}}},", sums.iter().chain(mx.iter()).map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    // source functions: mangled name -> executed basic blocks / total
    let mut per: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    for f in &fns { per.insert(f.clone(), (0, 0)); }
    for (f, _) in &blks { per.entry(f.clone()).or_insert((0, 0)).0 += 1; }
    for (f, p) in per.iter_mut() { if f.contains("3pcr") { let id = ex.m.fid(f); if let Some(fu) = ex.m.func(id) { p.1 = fu.blocks.len() as u64; } } }
    let _ = write!(j, "\"functions\":[{}],", per.iter().map(|(f, (a, b))| format!("{{\"name\":\"{}\",\"mangled\":\"{}\",\"blocks\":{},\"of\":{}}}", esc(&demangle(f)), esc(f), a, b)).collect::<Vec<_>>().join(","));
    let _ = write!(j, "\"covers\":{{{}}},", cov.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    let _ = write!(j, "\"report_counts\":{{{}}},", keys.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(j, "\"reports\":[{}],", reps.iter().map(|r| format!("{{\"kind\":\"{}\",\"id\":{},\"known\":{},\"inputs\":[{}],\"msg\":\"{}\",\"stack\":\"{}\"}}", r[1], r[2], r[3], r[4], esc(&r[5]), esc(&r[6]))).collect::<Vec<_>>().join(","));
    let _ = write!(j, "\"samples\":[{}]}}", smp.iter().map(|(a, b)| format!("{{\"inputs\":[{}],\"obs\":[{}]}}", a, b)).collect::<Vec<_>>().join(","));
    std::fs::write(&out, j).unwrap();
}
