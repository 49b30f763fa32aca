//! Long histories of calls whose results are dropped, from threads that come and go, with failing
//! and panicking calls; the heap must not grow with the number of calls (C09).
use crate::case::*;
use crate::gen::*;
use crate::proc::{self, End};
use geoexec::ops::*;
use serde::{Deserialize, Serialize};
use simrt::alloc::live_bytes;
use simrt::rng::{hash2, Rng};
use simrt::sched;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Mem {
    pub seed: u64,
    pub phases: u32,
    pub per_phase: u32,
    pub threads: u32,
    /// object kinds in use (0..KINDS, KINDS = value operations)
    pub kinds: Vec<usize>,
    pub wild: bool,
    pub nested: bool,
    /// fresh definitions for every call, or a few long-lived objects
    pub fresh_defs: bool,
    /// one thread makes all calls of all phases, instead of threads that come and go
    #[serde(default)]
    pub stay: bool,
    /// very many threads (times this number), each of which makes a few calls and ends
    #[serde(default)]
    pub churn: u32,
    /// operations left out (minimisation)
    pub skip: Vec<String>,
    pub env_seed: u64,
}
pub fn gen_c09(seed: u64, per_phase: u32) -> Mem {
    let mut r = Rng::new(seed);
    let n = *r.pick(&[1usize, 2, 3, 10]);
    let kinds = if n == 10 { (0..=KINDS).collect() } else { (0..n).map(|_| r.usize(KINDS + 1)).collect() };
    let threads = *r.pick(&[1, 1, 2, 3, 8]);
    let stay = threads == 1 && r.chance(3, 4);
    Mem {
        seed: r.next(),
        phases: 5,
        per_phase,
        threads,
        kinds,
        wild: r.chance(2, 3),
        nested: r.chance(2, 3),
        fresh_defs: r.chance(2, 3),
        stay,
        churn: (!stay && r.chance(1, 3)) as u32,
        skip: vec![],
        env_seed: r.next(),
    }
}
#[derive(Serialize, Deserialize)]
struct Rep {
    live: Vec<i64>,
    calls: u64,
    classes: [u64; 3],
    counts: Counts,
}
fn make(r: &mut Rng, m: &Mem, keep: &[ObjDef]) -> (ObjDef, usize, Op) {
    let p = Pool::new(r);
    let k = *r.pick(&m.kinds);
    let (d, slot) = if k < KINDS && !m.fresh_defs && !keep.is_empty() && r.chance(9, 10) {
        let i = r.usize(keep.len());
        (keep[i].clone(), i)
    } else {
        (obj_def(r, &p, k.min(KINDS - 1)), usize::MAX)
    };
    if k == KINDS {
        return (d, usize::MAX, value_op(r, &p, m.wild));
    }
    if m.nested && r.chance(1, 4) {
        let then = match r.below(3) {
            0 => Then::Panic,
            1 => Then::Err,
            _ => Then::Ok,
        };
        let at = r.below(4) as u8;
        if let ObjDef::Crs(c) | ObjDef::Line { crs: c, .. } | ObjDef::Curve { crs: c, .. } = &d {
            if r.chance(1, 2) {
                let op = chain(r, &p, c);
                return (d, slot, op);
            }
        }
        match &d {
            ObjDef::Tfm { src, .. } => return (d.clone(), slot, Op::NestedFwd { coords: coords(r, &p, src), at, inner: None, then }),
            ObjDef::Crs(c) | ObjDef::Line { crs: c, .. } => {
                let mut pos = vec![];
                for _ in 0..r.range(2, 6) {
                    pos.extend(coords(r, &p, c));
                }
                return (d.clone(), slot, Op::NestedBuild { pos, at, inner: None, then });
            }
            _ => {}
        }
    }
    let op = op_for(r, &p, &d, m.wild);
    (d, slot, op)
}
fn child(m: &Mem) -> Vec<u8> {
    let base = live_bytes();
    let m: &'static Mem = Box::leak(Box::new(m.clone()));
    let mut r = Rng::new(m.seed);
    let p = Pool::new(&mut r);
    let nk = m.kinds.iter().filter(|k| **k < KINDS).count();
    let mut keep: Vec<ObjDef> = vec![];
    if nk > 0 {
        for _ in 0..6 {
            let k = *r.pick(&m.kinds);
            if k < KINDS {
                keep.push(obj_def(&mut r, &p, k));
            }
        }
    }
    let keep: &'static Vec<ObjDef> = Box::leak(Box::new(keep));
    // long-lived objects of shareable kinds, used by every phase
    let shared: &'static mut Vec<Option<Obj>> = Box::leak(Box::new(vec![]));
    let shared: *mut Vec<Option<Obj>> = shared;
    let shared = shared as usize;
    let mut setup = PlanDef::sequential();
    setup.env_seed = m.env_seed ^ 1;
    sched::run(
        setup.plan(),
        vec![Box::new(move || {
            let shared = unsafe { &mut *(shared as *mut Vec<Option<Obj>>) };
            for d in keep.iter() {
                let o = if sharable_kind(d) { std::panic::catch_unwind(|| build(d)).ok().and_then(|r| r.ok()) } else { None };
                shared.push(o);
            }
        })],
    );
    let acc: *mut ([u64; 3], u64, u64) = Box::leak(Box::new(([0; 3], 0, 0)));
    let acc = acc as usize;
    let mut live = vec![0i64; m.phases as usize + 1];
    // how many generations of threads a phase has
    let rounds = move |ph: u32| if m.churn > 0 { [8, 12, 30, 75, 188][ph as usize % 5] * m.churn } else { 4u32 };
    // the calls one thread makes in one round of a phase
    let calls = move |ph: u32, round: u32, t: u32| {
        // every phase makes two and a half times as many calls as all before it, so that
        // what grows by doubling (vectors, hash tables) grows in every phase
        let n = (m.per_phase as f64 * [0.4, 0.6, 1.5, 3.75, 9.375][ph as usize % 5] / 2.5) as u32 / rounds(ph) / m.threads;
        let n = if m.churn > 0 { n.clamp(2, 40) } else { n };
        let acc = unsafe { &mut *(acc as *mut ([u64; 3], u64, u64)) };
        let mut r = Rng::new(hash2(m.seed ^ 77, (ph * 100_000 + round) as u64 * 64 + t as u64));
        let senv = Env::new(keep, shared as *const Vec<Option<Obj>>);
        for i in 0..n {
            let (d, slot, op) = make(&mut r, m, keep);
            if m.skip.contains(&op_name(&op)) {
                continue;
            }
            let defs = vec![d];
            let none: Vec<Option<Obj>> = vec![];
            let env = Env::new(&defs, &none);
            sched::begin_query(i);
            let o = if slot == usize::MAX {
                exec(&env, &Query { uid: i, obj: 0, how: How::Fresh, op })
            } else {
                let how = if i % 3 == 0 { How::Clone } else { How::Shared };
                exec(&senv, &Query { uid: i, obj: slot, how, op })
            };
            drop(env);
            acc.2 += sched::end_query();
            acc.1 += 1;
            match o.class() {
                "value" => acc.0[0] += 1,
                "error" => acc.0[1] += 1,
                _ => acc.0[2] += 1,
            }
        }
        sched::begin_query(u32::MAX - 1);
        drop(senv);
        sched::end_query();
    };
    if m.stay {
        let mut plan = PlanDef::sequential();
        plan.env_seed = m.env_seed;
        plan.seed = m.seed;
        let l = live.as_mut_ptr() as usize;
        sched::run(
            plan.plan(),
            vec![Box::new(move || {
                for ph in 0..m.phases {
                    for round in 0..rounds(ph) {
                        calls(ph, round, 0);
                    }
                    unsafe { *(l as *mut i64).add(ph as usize + 1) = live_bytes() - base };
                    proc::progress(ph as u64);
                }
            })],
        );
    } else {
        for ph in 0..m.phases {
            for round in 0..rounds(ph) {
                let mut bodies: Vec<Box<dyn FnOnce()>> = vec![];
                for t in 0..m.threads {
                    bodies.push(Box::new(move || calls(ph, round, t)));
                }
                let mut plan = PlanDef::sequential();
                plan.env_seed = m.env_seed;
                plan.seed = hash2(m.seed, (ph * 100_000 + round) as u64);
                if m.threads > 1 {
                    plan.strat = Strat::Boundary(5000.);
                    plan.max_switches = 500;
                }
                sched::run(plan.plan(), bodies);
            }
            live[ph as usize + 1] = live_bytes() - base;
            proc::progress(ph as u64);
        }
    }
    let a = unsafe { &*(acc as *const ([u64; 3], u64, u64)) };
    let mut counts = Counts::new();
    add(&mut counts, "steps", a.2);
    serde_json::to_vec(&Rep { live, calls: a.1, classes: a.0, counts }).unwrap()
}
pub fn run(m: &Mem, cx: &mut Cx) -> RunOut {
    let mut r = RunOut::default();
    match cx.slot.run(|| child(m)) {
        End::Data(d) => {
            r.digest = hash_bytes(&d);
            let rep: Rep = serde_json::from_slice(&d).unwrap();
            r.counts = rep.counts;
            let c = &mut r.counts;
            add(c, "calls", rep.calls);
            add(c, "calls returning a value", rep.classes[0]);
            add(c, "calls returning an error", rep.classes[1]);
            add(c, "fault: panicking calls", rep.classes[2]);
            if !m.stay {
                let generations = if m.churn > 0 { 313 * m.churn } else { m.phases * 4 };
                add(c, "fault: threads ended and replaced", (generations * m.threads) as u64);
            } else {
                add(c, "runs with one thread that stays", 1);
            }
            r.nontrivial = rep.calls > 1000;
            let n = rep.live.len();
            let g: Vec<i64> = (1..n).map(|i| rep.live[i] - rep.live[i - 1]).collect();
            // growth in each of the last three phases: caches that fill up are done by then
            let late = &g[g.len() - 3..];
            add(c, "max growth in a late phase, bytes", late.iter().cloned().max().unwrap().max(0) as u64);
            if late.iter().all(|x| *x > 200) {
                r.viol = Some(Viol {
                    class: "growth".into(),
                    what: format!("the heap grew by {:?} bytes in the last three phases of {} calls, each 2.5 times as long as the one before", late, rep.calls),
                });
            }
        }
        // calls that hang or crash are other properties' business: nothing was measured
        End::Verdict { .. } | End::Timeout => add(&mut r.counts, "runs abandoned: a call did not return", 1),
        End::Signal(..) | End::Exit(_) => add(&mut r.counts, "runs abandoned: the process died", 1),
    }
    r
}
/// Does what grew also grow in a history eight times as long? A bounded cache that was still filling up
/// does not.
pub fn goes_on(m: &Mem, cx: &mut Cx) -> bool {
    let long = Mem { churn: m.churn * 8, per_phase: (m.per_phase * 8).min(40_000).max(m.per_phase * 2), ..m.clone() };
    let r = run(&long, cx);
    r.viol.is_some() || r.counts.keys().any(|k| k.starts_with("runs abandoned"))
}
