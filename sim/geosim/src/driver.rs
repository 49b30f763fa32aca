use crate::case::*;
use crate::{bin, curve, line, mem, pipe, world};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::rng::hash2;
use simrt::sys;
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    World(world::World),
    Mem(mem::Mem),
    Pipe(pipe::Pipe),
    Line(line::Line),
    Curve(curve::CurveCase),
    Bin(bin::Bin),
    Types,
}
pub fn generate(prop: &str, seed: u64, tier: &str, counts: &mut Counts) -> Case {
    match prop {
        "C01" => Case::World(world::gen_c01(seed)),
        "C02" => Case::World(world::gen_c02(seed)),
        "C03" => Case::Pipe(pipe::gen_c03(seed)),
        "C04" => Case::Line(line::gen_c04(seed)),
        "C05" => Case::Curve(curve::gen_c05(seed)),
        "C06" => Case::Bin(bin::gen_c06(seed, tier)),
        "C07" => Case::Bin(bin::gen_c07(seed)),
        "C08" => Case::World(world::gen_c08(seed, counts)),
        "C09" => Case::Mem(mem::gen_c09(seed, if tier == "quick" { 2000 } else { 12000 })),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(2)
        }
    }
}
pub fn run(c: &Case, cx: &mut Cx) -> RunOut {
    match c {
        Case::World(w) => world::run(w, cx),
        Case::Mem(m) => mem::run(m, cx),
        Case::Pipe(m) => pipe::run(m, cx),
        Case::Line(m) => line::run(m, cx),
        Case::Curve(m) => curve::run(m, cx),
        Case::Bin(m) => bin::run(m, cx),
        Case::Types => {
            let mut r = RunOut::default();
            let bad: Vec<&str> = geoexec::probe::table().into_iter().filter(|x| !x.1).map(|x| x.0).collect();
            if !bad.is_empty() {
                r.viol = Some(Viol {
                    class: "types".into(),
                    what: format!("no longer both sendable and shareable between threads: {}", bad.join(", ")),
                });
            }
            r
        }
    }
}
/// fixes the schedule that was just executed, so that the case no longer needs the scheduler's seed
fn pin(c: &Case, out: &RunOut) -> Case {
    let mut c = c.clone();
    let plan = match &mut c {
        Case::World(w) => &mut w.plan,
        Case::Pipe(w) => &mut w.plan,
        _ => return c,
    };
    if plan.switches.is_none() && out.sched.switches.len() < 200_000 {
        plan.switches = Some(out.sched.switches.clone());
        plan.first = Some(out.sched.first);
    }
    c
}
struct Budget {
    trials: u32,
    until: u64,
}
impl Budget {
    fn ok(&mut self) -> bool {
        if self.trials == 0 || sys::real_time_ns() > self.until {
            return false;
        }
        self.trials -= 1;
        true
    }
}
fn ddmin<T: Clone>(items: Vec<T>, b: &mut Budget, test: &mut dyn FnMut(&[T]) -> bool) -> Vec<T> {
    let mut cur = items;
    let mut n = 2usize;
    while cur.len() >= 1 {
        let chunk = (cur.len() + n - 1) / n;
        let mut reduced = false;
        let mut i = 0;
        while i < cur.len() {
            let end = (i + chunk).min(cur.len());
            let cand: Vec<T> = cur[..i].iter().chain(cur[end..].iter()).cloned().collect();
            if !b.ok() {
                return cur;
            }
            if test(&cand) {
                cur = cand;
                n = n.saturating_sub(1).max(2);
                reduced = true;
                break;
            }
            i = end;
        }
        if !reduced {
            if chunk <= 1 {
                break;
            }
            n = (n * 2).min(cur.len().max(2));
        }
    }
    cur
}
fn minimise(c: Case, class: &str, cx: &mut Cx) -> Case {
    let mut b = Budget { trials: 500, until: sys::real_time_ns() + 45_000_000_000 };
    let class = class.to_string();
    match c {
        Case::World(w0) => {
            let mut bad = |w: &world::World| world::run(w, cx).viol.map_or(false, |v| v.class == class);
            let mut w = w0;
            for _ in 0..2 {
                let items = w.items();
                let base = w.clone();
                let kept = ddmin(items, &mut b, &mut |k| !k.is_empty() && bad(&base.keep(k)));
                w = base.keep(&kept);
                if let Some(sw) = w.plan.switches.clone() {
                    let base = w.clone();
                    let kept = ddmin(sw, &mut b, &mut |k| {
                        let mut x = base.clone();
                        x.plan.switches = Some(k.to_vec());
                        bad(&x)
                    });
                    w.plan.switches = Some(kept);
                }
                let mut changed = true;
                while changed {
                    changed = false;
                    'o: for (i, j) in w.items() {
                        for x in w.simpler(i, j) {
                            if !b.ok() {
                                break 'o;
                            }
                            if bad(&x) {
                                w = x;
                                changed = true;
                                break 'o;
                            }
                        }
                    }
                }
                let t = w.tidy();
                if b.ok() && bad(&t) {
                    w = t;
                }
                for f in 0..4 {
                    let mut x = w.clone();
                    match f {
                        0 => x.plan.clock_jumps = false,
                        1 => x.plan.spurious = false,
                        2 => x.share = false,
                        _ => x.plan.env_seed = 0,
                    }
                    if b.ok() && bad(&x) {
                        w = x;
                    }
                }
            }
            Case::World(w)
        }
        Case::Mem(m0) => {
            let mut bad = |m: &mem::Mem| mem::run(m, cx).viol.map_or(false, |v| v.class == class);
            let mut m = m0;
            for n in [1u32, 2] {
                let x = mem::Mem { threads: n, ..m.clone() };
                if n < m.threads && b.ok() && bad(&x) {
                    m = x;
                    break;
                }
            }
            let base = m.clone();
            let kept = ddmin(m.kinds.clone(), &mut b, &mut |k| !k.is_empty() && bad(&mem::Mem { kinds: k.to_vec(), ..base.clone() }));
            m.kinds = kept;
            for f in 0..3 {
                let mut x = m.clone();
                match f {
                    0 => x.nested = false,
                    1 => x.wild = false,
                    _ => x.fresh_defs = !x.fresh_defs,
                }
                if b.ok() && bad(&x) {
                    m = x;
                }
            }
            loop {
                let x = mem::Mem { per_phase: m.per_phase / 2, ..m.clone() };
                if x.per_phase >= 64 && b.ok() && bad(&x) {
                    m = x;
                } else {
                    break;
                }
            }
            Case::Mem(m)
        }
        Case::Pipe(w0) => {
            let mut bad = |w: &pipe::Pipe| pipe::run(w, cx).viol.map_or(false, |v| v.class == class);
            let mut w = w0;
            for _ in 0..2 {
                let base = w.clone();
                let kept = ddmin(w.items(), &mut b, &mut |k| !k.is_empty() && bad(&base.keep(k)));
                w = base.keep(&kept);
                if let Some(sw) = w.plan.switches.clone() {
                    let base = w.clone();
                    let kept = ddmin(sw, &mut b, &mut |k| {
                        let mut x = base.clone();
                        x.plan.switches = Some(k.to_vec());
                        bad(&x)
                    });
                    w.plan.switches = Some(kept);
                }
                let mut changed = true;
                while changed {
                    changed = false;
                    'p: for (i, j) in w.items() {
                        for x in w.simpler(i, j) {
                            if !b.ok() {
                                break 'p;
                            }
                            if bad(&x) {
                                w = x;
                                changed = true;
                                break 'p;
                            }
                        }
                    }
                }
            }
            Case::Pipe(w)
        }
        Case::Line(w0) => {
            let mut bad = |w: &line::Line| line::run(w, cx).viol.map_or(false, |v| v.class == class);
            let mut w = w0;
            for _ in 0..2 {
                let base = w.clone();
                w.steps = ddmin(base.steps.clone(), &mut b, &mut |k| !k.is_empty() && bad(&line::Line { steps: k.to_vec(), ..base.clone() }));
                let mut changed = true;
                while changed {
                    changed = false;
                    'q: for i in 0..w.steps.len() {
                        for x in w.simpler(i) {
                            if !b.ok() {
                                break 'q;
                            }
                            if bad(&x) {
                                w = x;
                                changed = true;
                                break 'q;
                            }
                        }
                    }
                }
            }
            Case::Line(w)
        }
        Case::Curve(w0) => {
            let mut bad = |w: &curve::CurveCase| curve::run(w, cx).viol.map_or(false, |v| v.class == class);
            let mut w = w0;
            for _ in 0..2 {
                let base = w.clone();
                w.steps = ddmin(base.steps.clone(), &mut b, &mut |k| !k.is_empty() && bad(&curve::CurveCase { steps: k.to_vec(), ..base.clone() }));
                let mut changed = true;
                while changed {
                    changed = false;
                    'r: for i in 0..w.steps.len() {
                        for x in w.simpler(i) {
                            if !b.ok() {
                                break 'r;
                            }
                            if bad(&x) {
                                w = x;
                                changed = true;
                                break 'r;
                            }
                        }
                    }
                }
                let t = w.tidy();
                if b.ok() && bad(&t) {
                    w = t;
                }
            }
            Case::Curve(w)
        }
        Case::Bin(w0) => {
            let mut bad = |w: &bin::Bin| bin::run(w, cx).viol.map_or(false, |v| v.class == class);
            let mut w = w0;
            for _ in 0..2 {
                let base = w.clone();
                if !w.faults.is_empty() {
                    w.faults = ddmin(base.faults.clone(), &mut b, &mut |k| bad(&bin::Bin { faults: k.to_vec(), ..base.clone() }));
                }
                let mut changed = true;
                while changed {
                    changed = false;
                    for x in w.simpler() {
                        if !b.ok() {
                            break;
                        }
                        if bad(&x) {
                            w = x;
                            changed = true;
                            break;
                        }
                    }
                }
            }
            Case::Bin(w)
        }
        c => c,
    }
}
fn summary(c: &Case) -> Value {
    match c {
        Case::World(w) => json!({
            "threads": w.threads.len(), "calls": w.items().len(), "objects": w.defs.len(),
            "strategy": format!("{:?}", w.plan.strat), "corrupted": w.corrupt.len(),
            "first calls": w.threads.iter().take(3).map(|t| t.iter().take(3).map(|q| {
                let s = format!("{:?} {:?} on object {}", q.how, q.op, q.obj);
                s.chars().take(160).collect::<String>() }).collect::<Vec<_>>()).collect::<Vec<_>>(),
        }),
        Case::Pipe(w) => json!({
            "threads": w.threads.len(), "calls": w.items().len(), "transformations": w.defs.len(),
            "strategy": format!("{:?}", w.plan.strat),
            "first calls": w.threads.iter().take(2).map(|t| t.iter().take(3).map(|q| {
                format!("{q:?}").chars().take(200).collect::<String>() }).collect::<Vec<_>>()).collect::<Vec<_>>(),
        }),
        Case::Line(w) => json!({
            "crs": w.crs, "steps": w.steps.len(),
            "first steps": w.steps.iter().take(8).map(|q| format!("{q:?}").chars().take(160).collect::<String>()).collect::<Vec<_>>(),
        }),
        Case::Curve(w) => json!({
            "dimension": w.dim, "segments": w.segs.len(), "steps": w.steps.len(),
            "first steps": w.steps.iter().take(8).map(|q| format!("{q:?}").chars().take(160).collect::<String>()).collect::<Vec<_>>(),
        }),
        Case::Bin(w) => json!({
            "arguments": w.args, "entropy mode": w.entropy_mode,
            "faults": w.faults.iter().take(8).map(|q| format!("{q:?}")).collect::<Vec<_>>(),
        }),
        c => serde_json::to_value(c).unwrap(),
    }
}

// ------------------------------------------------------------------ parallel search
#[repr(C)]
struct Board {
    next: AtomicU64,
    best: AtomicU64,
    done: AtomicU64,
}
#[derive(Default, Serialize, Deserialize)]
struct WorkerOut {
    runs: u64,
    nontrivial: u64,
    counts: Counts,
    scheds: Vec<u64>,
    digests: Vec<u64>,
    solo: u64,
    digest_sum: u64,
    recheck: u64,
    recheck_bad: u64,
    found: Vec<(u64, String)>,
    samples: Vec<Value>,
}
pub struct Cfg {
    prop: String,
    tier: String,
    seed: u64,
    runs: u64,
    workers: usize,
    wall: f64,
    evidence: Option<String>,
    replay_dir: String,
}
fn worker(cfg: &Cfg, board: &Board, t0: u64) -> WorkerOut {
    let mut cx = Cx::new();
    let mut o = WorkerOut::default();
    let mut scheds = HashSet::new();
    let mut digests = HashSet::new();
    loop {
        let idx = board.next.fetch_add(1, Ordering::Relaxed);
        if idx >= cfg.runs || idx > board.best.load(Ordering::Relaxed) {
            break;
        }
        if (sys::real_time_ns() - t0) as f64 > cfg.wall * 1e9 {
            break;
        }
        let mut c = Counts::new();
        let case = generate(&cfg.prop, world::seeds(&cfg.prop, cfg.seed, idx), &cfg.tier, &mut c);
        let mut r = run(&case, &mut cx);
        if let (Case::Mem(m), Some(_)) = (&case, &r.viol) {
            if !mem::goes_on(m, &mut cx) {
                add(&mut r.counts, "growth that ended in a longer history (something filled up)", 1);
                r.viol = None;
            }
        }
        o.runs += 1;
        merge(&mut o.counts, &c);
        merge(&mut o.counts, &r.counts);
        merge(&mut o.counts, &r.sched.counts);
        if idx < 3 {
            o.samples.push(json!({"run": idx, "case": summary(&case)}));
        }
        if let Some(v) = &r.viol {
            board.best.fetch_min(idx, Ordering::Relaxed);
            o.found.push((idx, v.class.clone()));
            continue;
        }
        let d = hash2(r.digest, r.sched.hash);
        o.digest_sum = o.digest_sum.wrapping_add(hash2(idx, d));
        if idx % 40 == 7 {
            // one seed is one execution: run it again and compare everything
            let r2 = run(&case, &mut cx);
            o.recheck += 1;
            if hash2(r2.digest, r2.sched.hash) != d {
                o.recheck_bad += 1;
            }
        }
        if r.nontrivial && digests.insert(d) {
            o.nontrivial += 1;
        }
        scheds.insert(r.sched.hash);
        board.done.fetch_add(1, Ordering::Relaxed);
    }
    o.solo = cx.solo_runs;
    o.scheds = scheds.into_iter().collect();
    o.digests = digests.into_iter().collect();
    o
}
fn search(cfg: &Cfg) -> (WorkerOut, u64, f64) {
    let t0 = sys::real_time_ns();
    let board: &'static Board = unsafe { &*(sys::mmap_shared(4096) as *const Board) };
    board.best.store(u64::MAX, Ordering::Relaxed);
    let mut kids = vec![];
    for _ in 0..cfg.workers {
        let p = sys::mmap_shared(512 << 20);
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            let o = worker(cfg, board, t0);
            let v = serde_json::to_vec(&o).unwrap();
            unsafe {
                std::ptr::copy_nonoverlapping(v.as_ptr(), p.add(8), v.len());
                *(p as *mut u64) = v.len() as u64;
            }
            sys::exit_now(0);
        }
        kids.push((pid, p));
    }
    let mut all = WorkerOut::default();
    let (mut sc, mut dg) = (HashSet::new(), HashSet::new());
    for (pid, p) in kids {
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        let n = unsafe { *(p as *const u64) } as usize;
        if n == 0 {
            eprintln!("a worker died (status {st:#x})");
            std::process::exit(2);
        }
        let o: WorkerOut = serde_json::from_slice(unsafe { std::slice::from_raw_parts(p.add(8), n) }).unwrap();
        all.runs += o.runs;
        merge(&mut all.counts, &o.counts);
        all.solo += o.solo;
        all.digest_sum = all.digest_sum.wrapping_add(o.digest_sum);
        all.recheck += o.recheck;
        all.recheck_bad += o.recheck_bad;
        all.found.extend(o.found);
        all.samples.extend(o.samples);
        sc.extend(o.scheds);
        dg.extend(o.digests);
    }
    all.nontrivial = dg.len() as u64;
    all.samples.sort_by_key(|s| s["run"].as_u64());
    let wall = (sys::real_time_ns() - t0) as f64 / 1e9;
    (all, sc.len() as u64, wall)
}
fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "One evaluation is one seeded simulated execution of 2-24 threads making public calls on shared and private objects, every answer compared with the same call made alone in a fresh process. Counted as distinct and non-trivial when at least one thread was preempted inside a call and the digest of all answers together with the complete switch sequence was not seen before.",
        "C02" => "One evaluation is one seeded history of public calls (bursts, sweeps over other arguments, panicking, failing and re-entrant calls, reused addresses, jumping clock, random environment) in a fresh process, every answer compared with the same call made first in a fresh process. Non-trivial: more than one call; distinct by digest of all answers and the schedule.",
        "C03" => "One evaluation is one seeded history of forward and backward calls by 1-3 threads on transformations made of built-in and scripted components, compared call by call with a reference model of the four steps. Non-trivial: at least one step failed, panicked or re-entered; distinct by digest of the recorded history and the schedule.",
        "C04" => "One evaluation is one seeded history of building, cloning, failing and querying steps on line strings, compared step by step with a reference model of acknowledged positions and lengths. Non-trivial: at least one step failed, panicked or re-entered; distinct by digest of the recorded history.",
        "C05" => "One evaluation is one seeded history of appending, cloning, refusing, panicking and querying steps on curves of line strings and scripted segments, compared step by step with a reference model of accepted segments. Non-trivial: at least one segment was refused or panicked; distinct by digest of the recorded history.",
        "C06" => "One evaluation is one run of the real sample_s2 program with seeded options under a seeded random source, every line judged and the whole output tested for distribution and independence; outputs up to 9000 lines are also compared with a run on other randomness and with the other coordinate types. Non-trivial: at least one line requested; distinct by digest of the output.",
        "C07" => "One evaluation is one run of the real sample_s2 program under a seeded sequence of faults of its writes, entropy reads and allocations, compared with the fault-free run on the same randomness. Non-trivial: at least one fault fired; distinct by digest of both outputs, exit status and the sequence of fired faults.",
        "C08" => "One evaluation is one seeded stream of coordinate records of which some are corrupted. Non-trivial: at least one corrupted record; distinct by digest of all answers.",
        "C09" => "One evaluation is one seeded history of five phases, each 2.5 times as long as the one before, of freshly generated calls by short-lived threads or by one that stays; live heap bytes are compared between phases. Non-trivial: more than 1000 calls; distinct by digest of call results and heap sizes.",
        _ => "",
    }
}
fn check(cfg: &Cfg) -> i32 {
    let (all, scheds, wall) = search(cfg);
    let mut found = all.found.clone();
    found.sort();
    let mut cx = Cx::new();
    let mut result: Option<(u64, Case, Viol)> = None;
    let types = if cfg.prop == "C01" { run(&Case::Types, &mut cx).viol } else { None };
    if let Some(v) = types {
        result = Some((u64::MAX, Case::Types, v));
    } else if let Some((idx, _)) = found.first() {
        let case = generate(&cfg.prop, world::seeds(&cfg.prop, cfg.seed, *idx), &cfg.tier, &mut Counts::new());
        let r = run(&case, &mut cx);
        match r.viol.clone() {
            None => {
                eprintln!("run {idx} violated the property once but not when repeated: harness not deterministic here");
                return 2;
            }
            Some(v) => {
                let pinned = pin(&case, &r);
                let pinned = match run(&pinned, &mut cx).viol {
                    Some(p) if p.class == v.class => pinned,
                    _ => case.clone(),
                };
                let min = minimise(pinned, &v.class, &mut cx);
                let mut fin = (min.clone(), run(&min, &mut cx).viol);
                if fin.1.is_none() {
                    fin = (case, Some(v));
                }
                result = Some((*idx, fin.0, fin.1.unwrap()));
            }
        }
    }
    let violations = result.is_some() as u64;
    write_evidence(cfg, &all, scheds, wall, violations);
    match result {
        None => {
            println!(
                "{}: held on {} runs ({} distinct non-trivial, {} distinct schedules) in {:.1} s",
                cfg.prop, all.runs, all.nontrivial, scheds, wall
            );
            0
        }
        Some((idx, case, v)) => {
            std::fs::create_dir_all(&cfg.replay_dir).ok();
            let path = format!("{}/{}-{}-{}.json", cfg.replay_dir, cfg.prop, cfg.seed, if idx == u64::MAX { "types".into() } else { idx.to_string() });
            let doc = json!({"property": cfg.prop, "master seed": cfg.seed, "run": idx, "violation": v, "case": case});
            std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
            println!("{}", v.what);
            // the replay file must reproduce the violation in a process of its own
            let st = std::process::Command::new("/proc/self/exe").arg("replay").arg(&path).stdout(std::process::Stdio::null()).status();
            match st.map(|s| s.code()) {
                Ok(Some(1)) => {
                    println!("VIOLATION property={} replay={}", cfg.prop, path);
                    1
                }
                o => {
                    eprintln!("the replay file {path} does not reproduce the violation ({o:?})");
                    2
                }
            }
        }
    }
}
fn write_evidence(cfg: &Cfg, all: &WorkerOut, scheds: u64, wall: f64, violations: u64) {
    let path = match &cfg.evidence {
        Some(p) => p,
        None => return,
    };
    let (cov, tot) = simrt::sched::covered();
    let faults: Counts = all.counts.iter().filter(|(k, _)| k.starts_with("fault: ")).map(|(k, v)| (k[7..].to_string(), *v)).collect();
    let ops: Counts = all.counts.iter().filter(|(k, _)| k.starts_with("op ")).map(|(k, v)| (k[3..].to_string(), *v)).collect();
    let other: Counts = all.counts.iter().filter(|(k, _)| !k.starts_with("op ") && !k.starts_with("fault: ")).map(|(k, v)| (k.clone(), *v)).collect();
    let bin = cfg.prop == "C06" || cfg.prop == "C07";
    let steps = all.counts.get("steps").copied().unwrap_or(0);
    let mut cov_doc = json!({
        "evaluations": all.runs,
        "distinct_nontrivial": all.nontrivial,
        "rule": rule(&cfg.prop),
        "samples": all.samples,
        "simulated runs per hour": (all.runs as f64 / wall * 3600.0) as u64,
        "seeds": format!("run i uses seed hash(property, VERIF_SEED={}, i), i = 0..{}", cfg.seed, all.runs),
        "faults injected": faults,
        "calls by operation": ops,
        "other counts": other,
        "determinism": {"runs executed twice": all.recheck, "differing": all.recheck_bad, "digest of all runs": format!("{:016x}", all.digest_sum)},
    });
    let assumptions;
    if bin {
        cov_doc["simulated time, in calls through the libc seam"] = json!(steps);
        cov_doc[if cfg.prop == "C07" { "distinct sequences of fired faults" } else { "distinct command lines" }] = json!(scheds);
        cov_doc["fault-free reference runs"] = json!(all.solo);
        cov_doc["real code"] = json!(["sample_s2 program, built from the working tree, as a process of its own", "clap, rand, getrandom and the Rust standard library"]);
        cov_doc["stubs"] = json!(["random source (getrandom, /dev/urandom, /dev/random)", "standard output and standard error", "clocks, sleeps and process id", "outcome of memory allocations"]);
        assumptions = json!(["the program reaches the outside world only through the libc functions that shim/shim.c interposes"]);
    } else {
        cov_doc["simulated time, in executed basic blocks and shared-memory accesses"] = json!(steps);
        cov_doc["distinct interleavings (complete switch sequences)"] = json!(scheds);
        cov_doc["solo oracle runs"] = json!(all.solo);
        cov_doc["code edges of the library and the workload reached"] = json!({"reached": cov, "of": tot});
        cov_doc["real code"] = json!(["geokit library (whole crate, unmodified, instrumented at compile time)", "its dependencies", "Rust standard library"]);
        let mut stubs = vec!["clocks, sleeps, randomness and environment reads (simulator)", "memory allocator (fixed-address)"];
        if matches!(cfg.prop.as_str(), "C01" | "C02" | "C03" | "C08" | "C09") {
            stubs.push("thread scheduling and lock waits (simulator)");
        }
        if matches!(cfg.prop.as_str(), "C03" | "C04" | "C05") {
            stubs.push("caller-supplied components (scripted), beside the built-in ones, which are real");
        }
        cov_doc["stubs"] = json!(stubs);
        assumptions = json!(["preemption points are basic-block edges and non-stack memory accesses of geokit's own code", "memory accesses are sequentially consistent in the simulation"]);
    }
    let doc = json!({
        "property": cfg.prop, "tier": cfg.tier, "seed": cfg.seed, "level": "exploration",
        "coverage": cov_doc, "assumptions": assumptions, "wall_s": wall, "violations": violations,
    });
    if let Some(d) = std::path::Path::new(path).parent() {
        std::fs::create_dir_all(d).ok();
    }
    std::fs::write(path, serde_json::to_string_pretty(&doc).unwrap() + "\n").unwrap();
}
fn default_runs(prop: &str, tier: &str) -> (u64, f64) {
    let quick = match prop {
        "C01" => 35000,
        "C02" => 20000,
        "C03" => 25000,
        "C04" => 14000,
        "C05" => 80000,
        "C06" => 6000,
        "C07" => 120000,
        "C08" => 40000,
        "C09" => 600,
        _ => 1000,
    };
    if tier == "quick" {
        (quick, 400.0)
    } else {
        (quick * 1000, 780.0)
    }
}
pub fn main(args: &[String]) -> i32 {
    let opt = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let num = |k: &str, d: u64| opt(k).map_or(d, |v| v.parse().unwrap());
    match args.first().map(|s| s.as_str()) {
        Some("check") => {
            let prop = args[1].clone();
            let tier = opt("--tier").or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
            let seed = opt("--seed").or(std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
            let (runs, wall) = default_runs(&prop, &tier);
            let cfg = Cfg {
                runs: num("--runs", runs),
                workers: num("--workers", 8) as usize,
                wall: opt("--wall").map_or(wall, |v| v.parse().unwrap()),
                evidence: opt("--evidence"),
                replay_dir: opt("--replays").unwrap_or("/tmp/geosim-replays".into()),
                prop,
                tier,
                seed,
            };
            check(&cfg)
        }
        Some("replay") => {
            let doc: Value = serde_json::from_str(&std::fs::read_to_string(&args[1]).unwrap()).unwrap();
            let case: Case = serde_json::from_value(doc["case"].clone()).unwrap();
            let mut cx = Cx::new();
            let r = run(&case, &mut cx);
            match r.viol {
                Some(v) => {
                    let same = doc["violation"]["what"] == json!(v.what);
                    println!("{}: {}", v.class, v.what);
                    println!("VIOLATION property={} replay={}{}", doc["property"].as_str().unwrap_or("?"), args[1], if same { "" } else { " (text differs from the recorded one)" });
                    1
                }
                None => {
                    println!("not reproduced: the property holds on this execution");
                    0
                }
            }
        }
        Some("one") => {
            let mut c = Counts::new();
            let case = generate(&args[1], world::seeds(&args[1], num("--seed", 1), args[2].parse().unwrap()), &opt("--tier").unwrap_or("quick".into()), &mut c);
            let mut cx = Cx::new();
            let t = sys::real_time_ns();
            let r = run(&case, &mut cx);
            println!("{}", serde_json::to_string_pretty(&summary(&case)).unwrap());
            println!("digest {:016x} sched {:016x} wall {:.3}s solo {} {:#?} {:#?}", r.digest, r.sched.hash, (sys::real_time_ns() - t) as f64 / 1e9, cx.solo_runs, r.counts, r.sched.counts);
            println!("{:?}", r.viol);
            0
        }
        _ => {
            eprintln!("usage: geosim check ID [--tier T --seed N --runs N --workers N --wall S --evidence F --replays D] | replay FILE | one ID N");
            2
        }
    }
}
