//! rsx: symbolic execution of rustc's LLVM IR with Z3.
//! usage: rsx --ll FILE --out DIR [--jobs N] [--seconds S] [--seed N] [--profile] [--dump-smt N] ENTRY...
mod exec;
mod expr;
mod ir;
mod mem;
mod solver;
use exec::*;
use std::io::Write;
use std::sync::atomic::{AtomicI32, AtomicU32, Ordering::*};
use std::time::{Duration, Instant};

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn fork() -> i32;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn _exit(c: i32) -> !;
    fn getpid() -> i32;
}

struct Shared {
    active: AtomicI32,
    stop: AtomicU32,
    nproc: AtomicU32,
}

struct Cfg {
    out: String,
    jobs: i32,
    seconds: u64,
    profile: bool,
    sh: &'static Shared,
    t0: Instant,
    cap: usize,
    dump: u32,
}

fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2 + 1);
    s.push('x');
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}

fn finish(ex: &mut Exec, cfg: &Cfg, entry: &str, incomplete: bool) {
    let mut o = String::new();
    o.push_str(&format!("E {entry}\n"));
    if incomplete {
        o.push_str("Z deadline\n");
    }
    let s = &ex.st;
    for (k, v) in [
        ("paths", s.paths), ("rejected", s.rejected), ("panics", s.panics), ("errors", s.errors), ("steps", s.steps), ("decisions", s.decisions), ("forks", s.forks), ("asserts", s.asserts),
        ("assert_queries", s.assert_queries), ("dom_decided", s.dom_decided), ("max_multi", s.max_multi), ("audit_paths", s.audit_paths), ("audit_splits", s.audit_splits), ("z3_checks", ex.solver.checks), ("z3_sat", ex.solver.sat), ("z3_unsat", ex.solver.unsat),
        ("z3_unknown", ex.solver.unknown), ("z3_us", (ex.solver.time * 1e6) as u64), ("nodes", ex.ar.nodes.len() as u64),
    ] {
        o.push_str(&format!("S {k} {v}\n"));
    }
    for x in &ex.out {
        match x {
            Outcome::Path { input, obs } => o.push_str(&format!("P {} {:016x}\n", hex(input), obs)),
            Outcome::Violation { id, input } => o.push_str(&format!("V {} {}\n", hex(input), id.replace('\n', " "))),
            Outcome::Error { msg, input } => o.push_str(&format!("X {} {}\n", hex(input), msg.replace('\n', " "))),
        }
    }
    for (k, v) in &ex.covers {
        o.push_str(&format!("C {v} {k}\n"));
    }
    for i in &ex.seen {
        o.push_str(&format!("F {}\n", short(&ex.m.funcs[*i as usize].name)));
    }
    if cfg.profile {
        let mut h: Vec<_> = ex.hot.values().collect();
        h.sort_by(|a, b| b.1.cmp(&a.1));
        for (n, c) in h.iter().take(25) {
            o.push_str(&format!("H {c} {n}\n"));
        }
    }
    let p = format!("{}/r-{}.txt", cfg.out, unsafe { getpid() });
    let mut f = std::fs::File::create(&p).unwrap();
    f.write_all(o.as_bytes()).unwrap();
}

fn work(ex: &mut Exec, cfg: &Cfg, entry: &str) -> ! {
    let mut last = Instant::now();
    let deadline = cfg.t0 + Duration::from_secs(cfg.seconds);
    let mut incomplete = false;
    let mut rng = 0x9e3779b97f4a7c15u64 ^ unsafe { getpid() } as u64;
    let mut npath = 0u64;
    let mut kept = 0usize;
    while let Some(s) = ex.stack.pop() {
        if cfg.sh.stop.load(Relaxed) != 0 || Instant::now() > deadline {
            incomplete = true;
            break;
        }
        let mark = ex.out.len();
        let mut timeup = false;
        ex.run(s, &mut |ex: &mut Exec| {
            if ex.stack.is_empty() {
                return;
            }
            if cfg.sh.active.load(Relaxed) < cfg.jobs && last.elapsed() > Duration::from_millis(8) {
                let a = cfg.sh.active.fetch_add(1, SeqCst);
                if a >= cfg.jobs {
                    cfg.sh.active.fetch_sub(1, SeqCst);
                } else {
                    last = Instant::now();
                    let n = ex.stack.len();
                    cfg.sh.nproc.fetch_add(1, Relaxed);
                    let pid = unsafe { fork() };
                    if pid == 0 {
                        // child: every other pending state, oldest included
                        let st = std::mem::take(&mut ex.stack);
                        ex.stack = st.into_iter().enumerate().filter(|(i, _)| i % 2 == 0).map(|x| x.1).collect();
                        ex.out.clear();
                        ex.covers.clear();
                        ex.seen.clear();
                        ex.hot.clear();
                        ex.viol_ids.clear();
                        ex.st = Stats::default();
                        ex.solver.checks = 0;
                        ex.solver.sat = 0;
                        ex.solver.unsat = 0;
                        ex.solver.unknown = 0;
                        ex.solver.time = 0.0;
                        work(ex, cfg, entry);
                    } else if pid > 0 {
                        let st = std::mem::take(&mut ex.stack);
                        ex.stack = st.into_iter().enumerate().filter(|(i, _)| i % 2 == 1).map(|x| x.1).collect();
                        let _ = n;
                    } else {
                        cfg.sh.active.fetch_sub(1, SeqCst);
                    }
                }
            }
            if Instant::now() > deadline {
                timeup = true;
            }
        });
        if timeup {
            incomplete = true;
        }
        // reservoir of completed paths for the native comparison
        if ex.out.len() > mark {
            if let Some(Outcome::Path { .. }) = ex.out.last() {
                npath += 1;
                if kept < cfg.cap {
                    kept += 1;
                } else {
                    rng = rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    let j = ((rng >> 33) % npath) as usize;
                    let p = ex.out.pop().unwrap();
                    if j < cfg.cap {
                        let idx: Vec<usize> = ex.out.iter().enumerate().filter(|(_, o)| matches!(o, Outcome::Path { .. })).map(|x| x.0).collect();
                        ex.out[idx[j]] = p;
                    }
                }
            }
        }
        if ex.st.errors > 20 {
            incomplete = true;
            break;
        }
    }
    finish(ex, cfg, entry, incomplete);
    cfg.sh.active.fetch_sub(1, SeqCst);
    unsafe { _exit(0) }
}

fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let mut ll = String::new();
    let (mut out, mut jobs, mut seconds, mut seed, mut profile, mut entries, mut cap, mut trace, mut dump, mut audit) = (String::from("."), 8, 600, 1u32, false, vec![], 40usize, false, 0u32, 100u64);
    let mut i = 0;
    while i < a.len() {
        let arg = a[i].clone();
        let mut v = || {
            i += 1;
            a[i].clone()
        };
        match arg.as_str() {
            "--ll" => ll = v(),
            "--out" => out = v(),
            "--jobs" => jobs = v().parse().unwrap(),
            "--seconds" => seconds = v().parse().unwrap(),
            "--seed" => seed = v().parse().unwrap(),
            "--audit" => audit = v().parse().unwrap(),
            "--cap" => cap = v().parse().unwrap(),
            "--dump-smt" => dump = v().parse().unwrap(),
            "--profile" => profile = true,
            "--trace" => trace = true,
            e => entries.push(e.to_string()),
        }
        i += 1;
    }
    let t0 = Instant::now();
    let m = ir::Module::load(&ll);
    let mut ex = Exec::new(m, seed);
    ex.trace = trace;
    ex.audit_cap = audit;
    ex.profile = profile;
    let load = t0.elapsed();
    let _ = std::fs::create_dir_all(&out);
    let sh: &'static Shared = unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        &*(p as *const Shared)
    };
    unsafe { prctl(36, 1, 0, 0, 0) };
    let cfg = Cfg { out: out.clone(), jobs, seconds, profile, sh, t0: Instant::now(), cap, dump };
    let mut fis = vec![];
    for e in &entries {
        match ex.m.func_idx.get(e.as_bytes()) {
            Some(f) => fis.push((e.clone(), *f)),
            None => {
                eprintln!("rsx: no entry {e}");
                return 3;
            }
        }
    }
    let mut next = 0;
    let mut bad = 0;
    loop {
        while next < fis.len() && sh.active.load(SeqCst) < jobs {
            sh.active.fetch_add(1, SeqCst);
            let (name, fi) = fis[next].clone();
            next += 1;
            let pid = unsafe { fork() };
            if pid == 0 {
                if cfg.dump > 0 {
                    ex.solver.dump = Some((cfg.out.clone(), cfg.dump));
                }
                let s = ex.initial(fi);
                ex.stack.push(s);
                work(&mut ex, &cfg, &name);
            }
        }
        let mut st = 0;
        let p = unsafe { waitpid(-1, &mut st, if next < fis.len() { 1 } else { 0 }) };
        if p > 0 {
            if st != 0 {
                eprintln!("rsx: worker {p} ended with status {st:#x}");
                bad += 1;
                sh.active.fetch_sub(1, SeqCst);
                sh.stop.store(1, SeqCst);
            }
        } else if p < 0 {
            if next >= fis.len() {
                break;
            }
            std::thread::sleep(Duration::from_millis(2));
        } else {
            std::thread::sleep(Duration::from_millis(2));
        }
    }
    eprintln!("rsx: loaded in {:.2}s, ran {:.2}s, {} workers", load.as_secs_f64(), cfg.t0.elapsed().as_secs_f64(), sh.nproc.load(Relaxed) as usize + fis.len());
    if bad > 0 { 2 } else { 0 }
}

fn main() {
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    std::process::exit(h.join().unwrap_or(3));
}
