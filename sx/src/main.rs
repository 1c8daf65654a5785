mod exec;
mod expr;
mod ir;
mod mem;
mod solver;

use std::fmt::Write as _;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 > 126 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{:04x}", u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl<T>(v: impl IntoIterator<Item = T>, f: impl Fn(T) -> String) -> String {
    format!("[{}]", v.into_iter().map(f).collect::<Vec<_>>().join(","))
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn report(ex: &exec::Ex, t0: Instant, complete: bool, pending: usize) -> String {
    let r = &ex.rep;
    let s = &ex.solver.stats;
    let mut o = String::from("{");
    let _ = write!(o, "\"complete\":{},\"pending\":{},\"wall_s\":{:.3},", complete, pending, t0.elapsed().as_secs_f64());
    let _ = write!(o, "\"paths\":{},\"infeasible\":{},\"steps\":{},\"forks\":{},\"max_steps\":{},\"max_inputs\":{},", r.paths, r.infeasible, r.steps, r.forks, r.max_steps, r.max_vars);
    let _ = write!(o, "\"asserts_folded\":{},\"asserts_solver\":{},", r.asserts_const, r.asserts_solver);
    let _ = write!(
        o,
        "\"solver\":{{\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cached\":{},\"value_set\":{},\"audited\":{},\"integer\":{},\"tabled\":{},\"time_s\":{:.3},\"max_s\":{:.3}}},",
        s.queries, s.sat, s.unsat, s.unknown, s.cached, s.fast, s.audited, s.integer, s.tabled, s.time, s.max_time
    );
    let _ = write!(o, "\"nodes\":{},", ex.cx.nodes.len());
    let _ = write!(o, "\"refused\":{{{}}},", r.refused.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"errors\":{{{}}},", r.errors.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"covers\":{},", jl(&r.covers, |c| js(c)));
    let _ = write!(
        o,
        "\"violations\":{},",
        jl(&r.violations, |v| format!("{{\"kind\":{},\"msg\":{},\"inputs\":{},\"stack\":{}}}", js(&v.kind), js(&v.msg), jl(&v.inputs, |i| i.to_string()), jl(v.stack.iter().take(12), |s| js(s))))
    );
    let _ = write!(
        o,
        "\"samples\":{},",
        jl(&r.samples, |v| format!("{{\"inputs\":{},\"out\":{},\"end\":{}}}", jl(&v.inputs, |i| i.to_string()), jl(&v.out, |s| format!("\"{}\"", hex(s))), js(&v.end)))
    );
    let _ = write!(o, "\"functions\":{}", jl(&ex.executed, |s| js(s)));
    o.push('}');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str, d: &str| -> String { args.iter().position(|a| a == k).map(|i| args[i + 1].clone()).unwrap_or(d.to_string()) };
    let ll = &args[1];
    let entry = &args[2];
    let out = opt("--out", "/dev/stdout");
    let jobs: usize = opt("--jobs", "1").parse().unwrap();
    let time: f64 = opt("--time", "600").parse().unwrap();
    let t0 = Instant::now();
    let cfg = exec::Cfg {
        max_steps: opt("--steps", "50000000").parse().unwrap(),
        max_violations: opt("--max-violations", "20").parse().unwrap(),
        sample_every: opt("--sample-every", "97").parse().unwrap(),
        max_samples: opt("--max-samples", "40").parse().unwrap(),
        max_enum: 1024,
        params: opt("--params", "").split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
        deadline: t0 + Duration::from_secs_f64(time),
        trace: false,
    };
    let src = std::fs::read(ll).expect("read ll");
    let m = ir::parse_module(&src);
    drop(src);
    let t1 = t0.elapsed().as_secs_f64();
    let mut ex = exec::Ex::new(m, cfg, opt("--rlimit", "400000000").parse().unwrap());
    let st = ex.start(entry);
    if std::env::var("SX_VERBOSE").is_ok() {
        eprintln!("parse {:.2}s init {:.2}s", t1, t0.elapsed().as_secs_f64());
    }
    ex.work.push(st);
    let stop_early = |ex: &exec::Ex| ex.rep.violations.len() >= ex.cfg.max_violations;
    if jobs > 1 {
        // breadth first until there is enough to share
        let mut q: std::collections::VecDeque<exec::State> = Default::default();
        q.extend(ex.work.drain(..));
        while !q.is_empty() && q.len() < jobs * 24 && !(q.len() >= jobs * 3 && t0.elapsed().as_secs_f64() > 4.0) && Instant::now() < ex.cfg.deadline && !stop_early(&ex) {
            let s = q.pop_front().unwrap();
            ex.run_one(s);
            q.extend(ex.work.drain(..));
        }
        let pend: Vec<exec::State> = q.into_iter().collect();
        if pend.is_empty() || stop_early(&ex) {
            std::fs::write(&out, report(&ex, t0, pend.is_empty(), pend.len())).unwrap();
            return;
        }
        std::fs::write(&out, report(&ex, t0, true, 0)).unwrap();
        let ctr = unsafe { &*(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const std::sync::atomic::AtomicUsize) };
        let mut pids = vec![];
        for w in 0..jobs {
            let p = unsafe { fork() };
            if p == 0 {
                ex.rep = exec::Report::default();
                ex.solver.stats = solver::Stats::default();
                let mut left = 0;
                loop {
                    let i = ctr.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= pend.len() {
                        break;
                    }
                    ex.work.push(pend[i].clone());
                    while let Some(s) = ex.work.pop() {
                        if Instant::now() > ex.cfg.deadline || stop_early(&ex) {
                            left += 1 + ex.work.len();
                            ex.work.clear();
                            break;
                        }
                        ex.run_one(s);
                    }
                }
                std::fs::write(format!("{}.{}", out, w), report(&ex, t0, left == 0, left)).unwrap();
                unsafe { _exit(0) }
            }
            pids.push(p);
        }
        let mut bad = 0;
        for p in pids {
            let mut st = 0;
            unsafe { waitpid(p, &mut st, 0) };
            if st != 0 {
                bad += 1;
            }
        }
        if bad > 0 {
            eprintln!("{} workers failed", bad);
            std::process::exit(3);
        }
        return;
    }
    let mut left = 0;
    while let Some(s) = ex.work.pop() {
        if Instant::now() > ex.cfg.deadline || stop_early(&ex) {
            left = 1 + ex.work.len();
            break;
        }
        ex.run_one(s);
    }
    std::fs::write(&out, report(&ex, t0, left == 0, left)).unwrap();
}
