mod exec;
mod expr;
mod ir;
mod mem;
mod solver;

use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::rc::Rc;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn ins(v: &[(u16, u128)]) -> String {
    let l: Vec<String> = v.iter().map(|(w, x)| format!("[{},{}]", w, x)).collect();
    format!("[{}]", l.join(","))
}

fn report(ex: &exec::Exec, wall: f64, complete: bool) -> String {
    let r = &ex.rep;
    let mut o = String::new();
    let s = &ex.solver.stats;
    let _ = write!(o, "{{\"paths\":{},\"killed\":{},\"steps\":{},\"forks\":{},\
        \"checks\":{},\"checks_const\":{},\"checks_unsat\":{},\
        \"queries\":{},\"cached\":{},\"sat\":{},\"unsat\":{},\
        \"solver_us\":{},\"solver_max_us\":{},\"wall\":{:.3},\
        \"complete\":{},\"max_inputs\":{},\"max_depth\":{},",
        r.paths, r.killed, r.steps, r.forks, r.checks, r.checks_const,
        r.checks_unsat, s.queries, s.cached, s.sat, s.unsat, s.time_us,
        s.max_us, wall, complete, r.max_inputs, r.max_depth);
    let v: Vec<String> = r.violations.iter().map(|v| {
        let st: Vec<String> = v.stack.iter().map(|s| js(s)).collect();
        format!("{{\"label\":{},\"stack\":[{}],\"inputs\":{}}}",
                js(&v.label), st.join(","), ins(&v.inputs))
    }).collect();
    let _ = write!(o, "\"violations\":[{}],", v.join(","));
    let mut es = r.errors.clone();
    es.truncate(5);
    let v: Vec<String> = es.iter().map(|e| js(e)).collect();
    let _ = write!(o, "\"nerrors\":{},\"errors\":[{}],", r.errors.len(), v.join(","));
    let v: Vec<String> = r.reach.iter()
        .map(|(k, n)| format!("\"{}\":{}", k, n)).collect();
    let _ = write!(o, "\"reach\":{{{}}},", v.join(","));
    let v: Vec<String> = r.witnesses.iter().map(|w| {
        let l: Vec<String> = w.outs.iter().map(|x| x.to_string()).collect();
        format!("{{\"inputs\":{},\"outs\":[{}]}}", ins(&w.inputs), l.join(","))
    }).collect();
    let _ = write!(o, "\"witnesses\":[{}],", v.join(","));
    let ids: Vec<u32> = ex.funcs.iter().filter_map(|f| f.as_ref())
        .map(|f| f.id).collect();
    let ni: usize = ex.funcs.iter().filter_map(|f| f.as_ref())
        .map(|f| f.ninsts).sum();
    let v: Vec<String> = ex.m.subprograms(&ids, "/repo/").iter()
        .map(|s| js(s)).collect();
    let _ = write!(o, "\"llvm_funcs\":{},\"llvm_insts\":{},\"repo_funcs\":[{}]}}",
                   ids.len(), ni, v.join(","));
    o
}

struct Args(BTreeMap<String, String>);
impl Args {
    fn get(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
}

fn main() {
    // deep recursion over expressions
    let t = std::thread::Builder::new().stack_size(1 << 30)
        .spawn(real_main).unwrap();
    let c = t.join().unwrap_or(4);
    std::process::exit(c);
}

/// Paths that cannot be followed, after which there is no point in going on.
/// Until then, another path may still show a violation.
const MAX_ERRORS: usize = 2000;

/// sx LL ENTRY OUTDIR [--jobs N] [--wall S] [--seed N] [--wit N]
///    [--frontier N] [--maxviol N] [--steps N] [--timeout MS]
fn real_main() -> i32 {
    let av: Vec<String> = std::env::args().collect();
    let mut pos = vec![];
    let mut map = BTreeMap::new();
    let mut i = 1;
    while i < av.len() {
        if let Some(k) = av[i].strip_prefix("--") {
            map.insert(k.to_string(), av.get(i + 1).cloned().unwrap_or_default());
            i += 2;
        } else {
            pos.push(av[i].clone());
            i += 1;
        }
    }
    let args = Args(map);
    let (ll, entry, outdir) = (&pos[0], &pos[1], &pos[2]);
    let jobs = args.get("jobs", 8) as usize;
    let wall = Duration::from_secs(args.get("wall", 600));
    let t0 = Instant::now();
    let m = match ir::Module::load(ll) {
        Ok(m) => Rc::new(m),
        Err(e) => { eprintln!("sx: parse: {}", e); return 2; }
    };
    let (mut ex, mem) = match exec::Exec::new(m, args.get("timeout", 120_000) as u32) {
        Ok(x) => x,
        Err(e) => { eprintln!("sx: init: {}", e); return 2; }
    };
    ex.wit_max = args.get("wit", 64) as usize;
    ex.max_viol = args.get("maxviol", 4) as usize;
    ex.max_steps = args.get("steps", 100_000_000);
    ex.seed ^= args.get("seed", 0).wrapping_mul(0x2545F4914F6CDD1D);
    for i in 0..10usize {
        if let Some(v) = args.0.get(&format!("p{}", i)) {
            if let Ok(v) = v.parse() { ex.params.insert(i, v); }
        }
    }
    ex.trace = args.get("trace", 0) != 0;
    if let Some(d) = args.0.get("dump").cloned() {
        // some of the refuted queries, for a second solver
        let mut n = 0u64;
        let mut kept = 0u64;
        ex.solver.dump_unsat = Some(Box::new(move |q| {
            n += 1;
            if kept >= 64 || (n > 16 && n % 13 != 0) { return; }
            kept += 1;
            let f = format!("{}/q{}-{:06}.smt2", d, std::process::id(), n);
            let _ = std::fs::write(
                f, format!("(set-logic QF_BV)\n{}\n(check-sat)\n", q));
        }));
    }
    let st = match ex.initial(entry, mem) {
        Ok(s) => s,
        Err(e) => { eprintln!("sx: {}", e); return 2; }
    };
    let frontier = args.get("frontier", if jobs > 1 { 600 } else { 0 }) as usize;
    let mut queue = std::collections::VecDeque::new();
    queue.push_back(st);
    // breadth-first until the frontier is wide enough
    while let Some(s) = queue.pop_front() {
        ex.run_one(s);
        queue.extend(ex.work.drain(..));
        if queue.len() >= frontier && jobs > 1 { break; }
        if jobs <= 1 {
            // depth-first
            while let Some(s) = queue.pop_back() {
                ex.run_one(s);
                queue.extend(ex.work.drain(..));
                if t0.elapsed() > wall || ex.rep.violations.len() >= ex.max_viol
                    || ex.rep.errors.len() > MAX_ERRORS { break; }
            }
            break;
        }
        if t0.elapsed() > wall || ex.rep.violations.len() >= ex.max_viol
            || ex.rep.errors.len() > MAX_ERRORS { break; }
    }
    let stop = ex.rep.violations.len() >= ex.max_viol
        || ex.rep.errors.len() > MAX_ERRORS;
    let write = |name: &str, s: &str| {
        let p = format!("{}/{}", outdir, name);
        let mut f = std::fs::File::create(&p).expect("out");
        f.write_all(s.as_bytes()).expect("out");
    };
    if queue.is_empty() || jobs <= 1 || stop || t0.elapsed() > wall {
        let done = queue.is_empty();
        write("part-0.json", &report(&ex, t0.elapsed().as_secs_f64(), done));
        if args.get("prof", 0) != 0 { prof(&ex); }
        return 0;
    }
    write("part-0.json", &report(&ex, t0.elapsed().as_secs_f64(), true));
    let states: Vec<exec::State> = queue.into_iter().collect();
    // deterministic shuffle to spread correlated subtrees
    let mut idx: Vec<usize> = (0..states.len()).collect();
    let mut r = 88172645463325252u64;
    for i in (1..idx.len()).rev() {
        r ^= r << 13; r ^= r >> 7; r ^= r << 17;
        idx.swap(i, (r % (i as u64 + 1)) as usize);
    }
    let shared = unsafe {
        mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *mut std::sync::atomic::AtomicUsize
    };
    // next subtree, stop, and when a violation was first found (ms)
    let (ctr, halt, first) =
        unsafe { (&*shared, &*shared.add(8), &*shared.add(16)) };
    let had = !ex.rep.violations.is_empty();
    use std::sync::atomic::Ordering::SeqCst;
    let mut pids = vec![];
    for j in 0..jobs {
        let pid = unsafe { fork() };
        if pid == 0 {
            ex.rep = Default::default();
            ex.solver.stats = Default::default();
            ex.wit_seen = 0;
            ex.labels = BTreeSet::new();
            ex.wit_max = std::cmp::max(1, ex.wit_max / jobs);
            ex.seed = ex.seed.wrapping_add(j as u64 * 0x9E3779B97F4A7C15) | 1;
            let mut done = true;
            'o: loop {
                let k = ctr.fetch_add(1, SeqCst);
                if k >= states.len() { break; }
                ex.work.push(states[idx[k]].clone());
                while let Some(s) = ex.work.pop() {
                    ex.run_one(s);
                    if ex.rep.violations.len() >= ex.max_viol
                        || ex.rep.errors.len() > MAX_ERRORS
                    {
                        halt.store(1, SeqCst);
                    }
                    // not much longer, once there is a violation
                    let t = t0.elapsed().as_millis() as usize + 1;
                    if had || !ex.rep.violations.is_empty() {
                        let _ = first.compare_exchange(0, t, SeqCst, SeqCst);
                    }
                    let f = first.load(SeqCst);
                    if f != 0 && t > 2 * f + 10_000 { halt.store(1, SeqCst); }
                    if halt.load(SeqCst) != 0 || t0.elapsed() > wall {
                        done = ex.work.is_empty()
                            && ctr.load(SeqCst) >= states.len();
                        break 'o;
                    }
                }
            }
            write(&format!("part-{}.json", j + 1),
                  &report(&ex, t0.elapsed().as_secs_f64(), done));
            unsafe { _exit(0) }
        }
        pids.push(pid);
    }
    let mut bad = false;
    for p in pids {
        let mut s = 0;
        unsafe { waitpid(p, &mut s, 0); }
        if s != 0 { bad = true; }
    }
    if bad { eprintln!("sx: a worker failed"); return 2; }
    0
}

fn prof(ex: &exec::Exec) {
    let mut v: Vec<_> = ex.prof.iter().collect();
    v.sort_by_key(|x| std::cmp::Reverse(*x.1));
    for (f, n) in v.iter().take(40) {
        eprintln!("{:10} {}", n, ex.m.fns[**f as usize].name);
    }
}
