//! Queries on shared and private objects by simulated threads, judged against solo answers from
//! fresh processes (C01, C02, C08).
use crate::case::*;
use crate::gen::*;
use crate::proc::{self, End};
use geoexec::ops::*;
use serde::{Deserialize, Serialize};
use simrt::rng::{hash2, Rng};
use simrt::sched::{self, V_DEADLOCK, V_HANG};
use std::collections::HashMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct World {
    pub prop: String,
    pub defs: Vec<ObjDef>,
    /// whether objects of shareable kinds are built up front and shared by all threads
    pub share: bool,
    pub threads: Vec<Vec<Query>>,
    pub plan: PlanDef,
    /// queries whose coordinates were corrupted (C08): must return, without panicking
    pub corrupt: Vec<u32>,
}
#[derive(Serialize, Deserialize)]
struct Rep {
    out: Vec<(u32, Outcome)>,
    sched: Sched,
    setup: Vec<String>,
}
struct Sh<T>(*mut T);
impl<T> Clone for Sh<T> {
    fn clone(&self) -> Self {
        Sh(self.0)
    }
}
unsafe impl<T> Send for Sh<T> {}
impl<T> Sh<T> {
    fn get(&self) -> &'static mut T {
        unsafe { &mut *self.0 }
    }
}

/// runs in the forked child
fn child(w: &World) -> Vec<u8> {
    let shared: Sh<Vec<Option<Obj>>> = Sh(Box::into_raw(Box::new(w.defs.iter().map(|_| None).collect())));
    let out: Sh<Vec<Vec<(u32, Outcome)>>> = Sh(Box::into_raw(Box::new(w.threads.iter().map(|_| vec![]).collect())));
    let setup: Sh<Vec<String>> = Sh(Box::into_raw(Box::new(vec![])));
    let defs: *const Vec<ObjDef> = &w.defs;
    let defs = Sh(defs as *mut Vec<ObjDef>);
    if w.share && w.defs.iter().any(sharable_kind) {
        let (s, d, e) = (shared.clone(), defs.clone(), setup.clone());
        let mut p = PlanDef::sequential();
        p.env_seed = w.plan.env_seed ^ 0x5e7;
        sched::run(
            p.plan(),
            vec![Box::new(move || {
                for (i, def) in d.get().iter().enumerate() {
                    if sharable_kind(def) {
                        sched::begin_query(1_000_000 + i as u32);
                        let r = std::panic::catch_unwind(|| build(def));
                        sched::end_query();
                        match r {
                            Ok(Ok(o)) => s.get()[i] = Some(o),
                            Ok(Err(x)) => e.get().push(x),
                            Err(p) => e.get().push(payload(p)),
                        }
                    }
                }
            })],
        );
    }
    let mut bodies: Vec<Box<dyn FnOnce()>> = vec![];
    for (ti, qs) in w.threads.iter().enumerate() {
        let qs: *const Vec<Query> = qs;
        let (s, d, o, qs) = (shared.clone(), defs.clone(), out.clone(), Sh(qs as *mut Vec<Query>));
        bodies.push(Box::new(move || {
            let env = Env::new(d.0, s.0);
            for q in qs.get().iter() {
                proc::progress(q.uid as u64 + 1);
                sched::begin_query(q.uid);
                let r = exec(&env, q);
                sched::end_query();
                let v = &mut o.get()[ti];
                v.append(&mut env.inner.borrow_mut());
                v.push((q.uid, r));
            }
            // objects die on the thread that used them
            sched::begin_query(2_000_000 + ti as u32);
            drop(env);
            sched::end_query();
        }));
    }
    let (log, st, first) = sched::run(w.plan.plan(), bodies);
    let rep = Rep { out: std::mem::take(out.get()).into_iter().flatten().collect(), sched: sched_of(log, &st, first), setup: setup.get().clone() };
    serde_json::to_vec(&rep).unwrap()
}

fn find<'a>(w: &'a World, uid: u32) -> Option<&'a Query> {
    for t in &w.threads {
        for q in t {
            let mut v = vec![];
            flatten(q, &mut v);
            if let Some(x) = v.iter().find(|x| x.uid == uid) {
                return Some(x);
            }
        }
    }
    None
}
/// The answer of the call when it is the only one ever made in a fresh process.
pub fn solo(cx: &mut Cx, def: &ObjDef, op: &Op, cap: u64) -> Outcome {
    let op = solo_op(op);
    let key = serde_json::to_string(&(def, &op)).unwrap();
    if let Some(o) = cx.solo.get(&key) {
        return o.clone();
    }
    let mut plan = PlanDef::sequential();
    plan.query_cap = cap;
    let w = World {
        prop: String::new(),
        defs: vec![def.clone()],
        share: false,
        threads: vec![vec![Query { uid: 0, obj: 0, how: How::Fresh, op }]],
        plan,
        corrupt: vec![],
    };
    cx.solo_runs += 1;
    let o = match cx.slot.run(|| child(&w)) {
        End::Data(d) => serde_json::from_slice::<Rep>(&d).unwrap().out.pop().unwrap().1,
        End::Verdict { kind: V_HANG, .. } => Outcome::Panic("\u{0}hang".into()),
        End::Verdict { .. } => Outcome::Panic("\u{0}deadlock".into()),
        End::Signal(s, _) => Outcome::Panic(format!("\u{0}signal {s}")),
        End::Timeout => Outcome::Panic("\u{0}timeout".into()),
        End::Exit(c) => Outcome::Panic(format!("\u{0}exit {c}")),
    };
    if cx.solo.len() > 60_000 {
        cx.solo.clear();
    }
    cx.solo.insert(key, o.clone());
    o
}
fn show_q(w: &World, uid: u32) -> String {
    match find(w, uid) {
        Some(q) => {
            let d = serde_json::to_string(&w.defs[q.obj]).unwrap();
            let s = format!("{:?} on {} object {}", q.op, format!("{:?}", q.how).to_lowercase(), d);
            s.chars().take(900).collect()
        }
        None => format!("query {uid}"),
    }
}
/// does the call that hung or died do so alone in a fresh process too?
fn alone_dead(w: &World, uid: u32, cx: &mut Cx) -> bool {
    let q = match find(w, uid) {
        Some(q) => q.clone(),
        None => return false,
    };
    let mut all = vec![];
    flatten(&q, &mut all);
    all.iter().any(|q| matches!(solo(cx, &w.defs[q.obj], &q.op, w.plan.query_cap), Outcome::Panic(p) if p.starts_with('\u{0}')))
}
pub fn run(w: &World, cx: &mut Cx) -> RunOut {
    let mut r = RunOut::default();
    let end = cx.slot.run(|| child(w));
    let rep = match end {
        End::Data(d) => {
            r.digest = hash_bytes(&d);
            serde_json::from_slice::<Rep>(&d).unwrap()
        }
        End::Verdict { kind: V_HANG, uid, .. } if w.prop != "C08" && alone_dead(w, uid, cx) => {
            add(&mut r.counts, "runs abandoned: a call does not return on its own either", 1);
            return r;
        }
        End::Signal(_, p) if w.prop != "C08" && alone_dead(w, (p as u32).wrapping_sub(1), cx) => {
            add(&mut r.counts, "runs abandoned: a call kills its process on its own too", 1);
            return r;
        }
        End::Verdict { kind: V_HANG, uid, off, t } => {
            r.viol = Some(Viol { class: "hang".into(), what: format!("thread {t} did not finish its call within {off} steps: {}", show_q(w, uid)) });
            return r;
        }
        End::Verdict { kind: V_DEADLOCK, uid, t, .. } => {
            r.viol = Some(Viol { class: "deadlock".into(), what: format!("no thread can run; thread {t} blocked in {}", show_q(w, uid)) });
            return r;
        }
        End::Verdict { kind, .. } => {
            r.viol = Some(Viol { class: "verdict".into(), what: format!("verdict {kind}") });
            return r;
        }
        End::Signal(s, p) => {
            r.viol = Some(Viol { class: "crash".into(), what: format!("process died with signal {s} in {}", show_q(w, (p as u32).wrapping_sub(1))) });
            return r;
        }
        End::Timeout => {
            add(&mut r.counts, "runs abandoned: out of real time", 1);
            return r;
        }
        End::Exit(c) => {
            r.viol = Some(Viol { class: "crash".into(), what: format!("process exited with status {c}") });
            return r;
        }
    };
    r.sched = rep.sched;
    let c = &mut r.counts;
    add(c, "calls", rep.out.len() as u64);
    add(c, "objects refused at setup", rep.setup.len() as u64);
    let mut classes = [0u64; 3];
    for (uid, o) in &rep.out {
        let q = match find(w, *uid) {
            Some(q) => q,
            None => continue,
        };
        match o.class() {
            "value" => classes[0] += 1,
            "error" => classes[1] += 1,
            _ => classes[2] += 1,
        }
        if w.corrupt.contains(uid) {
            add(c, "corrupted records", 1);
            if let Outcome::Panic(p) = o {
                r.viol = Some(Viol { class: "panic".into(), what: format!("panicked on a corrupted record: {p}: {}", show_q(w, *uid)) });
                return r;
            }
            continue;
        }
        let s = solo(cx, &w.defs[q.obj], &q.op, w.plan.query_cap);
        if let Outcome::Panic(p) = &s {
            if p == "\u{0}timeout" {
                add(c, "answers without oracle: out of real time", 1);
                continue;
            }
            if p.starts_with('\u{0}') && w.prop != "C08" {
                // it returned here, which is more than it does alone
                add(c, "answers without oracle: no answer alone", 1);
                continue;
            }
            if let Some(k) = p.strip_prefix('\u{0}') {
                r.viol = Some(Viol { class: format!("solo {k}"), what: format!("alone in a fresh process: {k}: {}", show_q(w, *uid)) });
                return r;
            }
        }
        if s != *o {
            r.viol = Some(Viol {
                class: "answer".into(),
                what: format!("{}: answered {}; alone in a fresh process {}", show_q(w, *uid), o.show(), s.show()),
            });
            return r;
        }
    }
    add(c, "calls returning a value", classes[0]);
    add(c, "calls returning an error", classes[1]);
    add(c, "fault: panicking calls", classes[2]);
    for t in &w.threads {
        for q in t {
            count_q(q, c);
        }
    }
    r.nontrivial = match w.prop.as_str() {
        "C01" => r.sched.counts.get("fault: preemption inside a call").is_some(),
        "C08" => !w.corrupt.is_empty(),
        _ => rep.out.len() > 1,
    };
    r
}
fn count_q(q: &Query, c: &mut Counts) {
    add(c, &format!("op {}", op_name(&q.op)), 1);
    match &q.op {
        Op::NestedFwd { inner, then, .. } | Op::NestedBuild { inner, then, .. } => {
            match then {
                Then::Panic => add(c, "fault: component panics", 1),
                Then::Err => add(c, "fault: component fails", 1),
                Then::Ok => {}
            }
            if let Some(i) = inner {
                add(c, "fault: re-entrant call from a component", 1);
                count_q(i, c);
            }
        }
        Op::Unwinding(_) => add(c, "fault: call made while its thread unwinds", 1),
        Op::Burst { n, .. } => add(c, "calls in bursts", *n as u64),
        Op::Sweep { n, .. } => add(c, "calls in sweeps", *n as u64),
        _ => {}
    }
    match q.how {
        How::Shared => add(c, "uses of a long-lived object", 1),
        How::Clone => add(c, "uses of a clone", 1),
        How::Fresh => add(c, "uses of a fresh object", 1),
    }
}

// ------------------------------------------------------------------ generation
struct G {
    r: Rng,
    p: Pool,
    uid: u32,
}
fn kinds(r: &mut Rng) -> Vec<usize> {
    let n = *r.pick(&[1usize, 1, 2, 2, 3, 4]);
    (0..n).map(|_| r.usize(KINDS)).collect()
}
fn gen_defs(r: &mut Rng, p: &Pool, ks: &[usize], per: u64) -> Vec<ObjDef> {
    let mut defs: Vec<ObjDef> = vec![];
    for &k in ks {
        let d = obj_def(r, p, k);
        let n = r.below(per);
        defs.push(d.clone());
        for _ in 0..n {
            let b = if r.chance(2, 3) { d.clone() } else { defs.last().unwrap().clone() };
            defs.push(obj_mut(r, p, &b));
        }
    }
    defs
}
fn how(r: &mut Rng) -> How {
    match r.below(10) {
        0..=5 => How::Shared,
        6..=7 => How::Fresh,
        _ => How::Clone,
    }
}
impl G {
    fn q(&mut self, obj: usize, op: Op) -> Query {
        self.uid += 1;
        Query { uid: self.uid, obj, how: how(&mut self.r), op }
    }
    fn nested(&mut self, defs: &[ObjDef], depth: u32) -> Option<Query> {
        let obj = self.r.usize(defs.len());
        let then = match self.r.below(4) {
            0 => Then::Panic,
            1 => Then::Err,
            _ => Then::Ok,
        };
        let inner = if self.r.chance(2, 3) {
            let o = self.r.usize(defs.len());
            if depth < 2 && self.r.chance(1, 4) {
                self.nested(defs, depth + 1).map(Box::new)
            } else {
                let op = op_for(&mut self.r, &self.p, &defs[o], true);
                Some(Box::new(self.q(o, op)))
            }
        } else {
            None
        };
        let at = self.r.below(3) as u8;
        let op = match &defs[obj] {
            ObjDef::Tfm { src, .. } => Op::NestedFwd { coords: coords(&mut self.r, &self.p, src), at, inner, then },
            ObjDef::Crs(c) | ObjDef::Line { crs: c, .. } => {
                let mut pos = vec![];
                for _ in 0..self.r.range(2, 4) {
                    pos.extend(coords(&mut self.r, &self.p, c));
                }
                Op::NestedBuild { pos, at, inner, then }
            }
            _ => return None,
        };
        Some(self.q(obj, op))
    }
    fn any(&mut self, defs: &[ObjDef], value: bool, wild: bool) -> (usize, Op) {
        let o = self.r.usize(defs.len());
        if value && self.r.chance(1, 4) {
            (o, value_op(&mut self.r, &self.p, wild))
        } else {
            (o, op_for(&mut self.r, &self.p, &defs[o], wild))
        }
    }
}
/// adds calls easily taken for those already there
fn confusable(g: &mut G, pool: &mut Vec<(usize, Op)>, rate: u64) {
    for i in 0..pool.len() {
        if g.r.chance(rate, 4) {
            let (o, op) = &pool[i];
            let x = (*o, op_mut(&mut g.r, op));
            pool.push(x);
        }
    }
}
pub fn gen_c01(seed: u64) -> World {
    let mut r = Rng::new(seed);
    let p = Pool::new(&mut r);
    // many definitions of one shape, and few calls, on all of them
    let focus = r.chance(1, 4);
    let defs = if focus {
        let k = *r.pick(&[0usize, 1, 2, 3, 3, 4, 4, 4, 5, 5, 6, 6, 7]);
        let d = obj_def(&mut r, &p, k);
        let mut v = vec![d.clone()];
        for _ in 0..r.range(4, 14) {
            v.push(sibling(&mut r, &p, &d));
        }
        v
    } else {
        let ks = kinds(&mut r);
        gen_defs(&mut r, &p, &ks, 4)
    };
    let mut g = G { r, p, uid: 0 };
    let value = !focus && g.r.chance(1, 4);
    let wild = g.r.chance(1, 3);
    let nt = match g.r.below(10) {
        0..=4 => 2,
        5..=7 => g.r.range(3, 5),
        8 => g.r.range(6, 10),
        _ if g.r.chance(1, 6) => g.r.range(33, 140),
        _ => g.r.range(11, 24),
    } as usize;
    let per = match g.r.below(10) {
        0..=3 => g.r.range(1, 3),
        4..=7 => g.r.range(3, 12),
        _ => g.r.range(10, 30),
    };
    let per = if nt > 24 { per.min(2) } else if nt > 8 { per.min(6) } else { per };
    // queries repeat across threads so that they can collide on the same key
    let npool = if focus { g.r.range(1, 3) } else { g.r.range(2, 14) };
    let mut pool: Vec<(usize, Op)> = (0..npool).map(|_| g.any(&defs, value, wild)).collect();
    if focus {
        pool = (0..defs.len()).flat_map(|i| pool.iter().map(move |(_, op)| (i, op.clone()))).collect();
    }
    let confuse = *g.r.pick(&[0u64, 0, 1, 2]);
    confusable(&mut g, &mut pool, confuse);
    let mut threads: Vec<Vec<Query>> = vec![];
    for _ in 0..nt {
        let mut v = vec![];
        for _ in 0..per {
            let q = if g.r.chance(1, 12) && !focus {
                g.nested(&defs, 0)
            } else {
                None
            };
            let q = match q {
                Some(q) => q,
                None => {
                    let (o, op) = if g.r.chance(5, 6) { g.r.pick(&pool).clone() } else { g.any(&defs, value, wild) };
                    let op = if g.r.chance(1, 15) { Op::Burst { n: g.r.range(2, 12) as u32, op: Box::new(op) } } else { op };
                    g.q(o, op)
                }
            };
            v.push(q);
        }
        threads.push(v);
    }
    let strat = match g.r.below(10) {
        0..=4 => Strat::Random(10f64.powf(0.5 + 3.0 * g.r.unit())),
        5..=6 => Strat::Boundary(10f64.powf(1.5 + 2.5 * g.r.unit())),
        _ => Strat::Pct(g.r.range(1, 6) as u32, 300 << g.r.below(6)),
    };
    let hot = *g.r.pick(&[0u64, 1, 2, 4, 16]);
    let plan = PlanDef {
        strat,
        hot,
        seed: g.r.next(),
        query_cap: 40_000_000,
        max_switches: 4000,
        env_seed: g.r.next(),
        clock_jumps: g.r.chance(1, 2),
        spurious: g.r.chance(1, 2),
        switches: None,
        first: None,
    };
    World { prop: "C01".into(), defs, share: g.r.chance(4, 5), threads, plan, corrupt: vec![] }
}
pub fn gen_c02(seed: u64) -> World {
    let mut r = Rng::new(seed);
    let p = Pool::new(&mut r);
    // one kind of object in several versions, and few calls, on all of them
    let focus = r.chance(1, 6);
    let defs = if focus {
        let k = *r.pick(&[0usize, 2, 3, 4, 4, 5, 5, 6, 6]);
        let d = obj_def(&mut r, &p, k);
        let mut v = vec![d.clone()];
        for _ in 0..r.range(2, 10) {
            v.push(if r.chance(1, 2) { obj_mut(&mut r, &p, &d) } else { sibling(&mut r, &p, &d) });
        }
        v
    } else {
        let ks = kinds(&mut r);
        gen_defs(&mut r, &p, &ks, 5)
    };
    let mut g = G { r, p, uid: 0 };
    let value = !focus && g.r.chance(1, 3);
    let wild = g.r.chance(2, 3);
    let nt = match g.r.below(60) {
        0..=44 => 1,
        45..=58 => g.r.range(2, 3),
        _ => g.r.range(10, 140),
    } as usize;
    let per = match g.r.below(8) {
        _ if nt > 3 => g.r.range(1, 3),
        0..=2 => g.r.range(3, 12),
        3..=6 => g.r.range(12, 50),
        _ => g.r.range(50, 150),
    };
    let npool = g.r.range(2, 16);
    let mut pool: Vec<(usize, Op)> = (0..npool).map(|_| g.any(&defs, value, wild)).collect();
    if focus {
        pool.truncate(4);
        pool = (0..defs.len()).flat_map(|i| pool.iter().map(move |(_, op)| (i, op.clone()))).collect();
    }
    let confuse = *g.r.pick(&[0u64, 1, 1, 3]);
    confusable(&mut g, &mut pool, confuse);
    // the same call on related definitions
    for i in 0..pool.len() {
        let (o, op) = pool[i].clone();
        let k = std::mem::discriminant(&defs[o]);
        let other: Vec<usize> = (0..defs.len()).filter(|j| *j != o && std::mem::discriminant(&defs[*j]) == k).collect();
        if !other.is_empty() && g.r.chance(1, 3) {
            let j = *g.r.pick(&other);
            pool.push((j, op));
        }
    }
    let unwinding = *g.r.pick(&[0u64, 0, 1, 4]);
    let fresh_args = *g.r.pick(&[0u64, 1, 5]);
    let nest = *g.r.pick(&[0u64, 1, 1, 4]);
    let burst = *g.r.pick(&[0u64, 1, 1, 2]);
    let mut big = match g.r.below(60) {
        0 => g.r.range(66_000, 80_000),
        1..=3 => g.r.range(4_100, 12_000),
        _ => 0,
    } as u32;
    let had_big = big > 0;
    let mut threads: Vec<Vec<Query>> = vec![];
    for _ in 0..nt {
        let mut v = vec![];
        for _ in 0..per {
            let n = if nest > 0 && g.r.chance(nest, 12) { g.nested(&defs, 0) } else { None };
            let q = match n {
                Some(q) => q,
                None => {
                    let (o, op) = if g.r.chance(fresh_args, 6) { g.any(&defs, value, wild) } else { g.r.pick(&pool).clone() };
                    let op = if big > 0 && g.r.chance(1, 8) {
                        let n = std::mem::take(&mut big);
                        if g.r.chance(1, 2) {
                            Op::Burst { n, op: Box::new(op) }
                        } else {
                            Op::Sweep { n, defs: g.r.chance(1, 2), op: Box::new(op) }
                        }
                    } else if burst > 0 && g.r.chance(burst, 25) {
                        let n = match g.r.below(6) {
                            0..=2 => g.r.range(2, 40),
                            3..=4 => g.r.range(40, 300),
                            _ => g.r.range(300, 1200),
                        } as u32;
                        if g.r.chance(1, 2) {
                            Op::Burst { n, op: Box::new(op) }
                        } else {
                            Op::Sweep { n, defs: g.r.chance(1, 2), op: Box::new(op) }
                        }
                    } else {
                        op
                    };
                    let op = if g.r.chance(unwinding, 25) { Op::Unwinding(Box::new(op)) } else { op };
                    g.q(o, op)
                }
            };
            v.push(q);
        }
        threads.push(v);
    }
    let plan = PlanDef {
        strat: if nt == 1 || g.r.chance(1, 2) { Strat::Sequential } else { Strat::Boundary(1e5) },
        hot: 0,
        seed: g.r.next(),
        query_cap: if had_big { 4_000_000_000 } else { 40_000_000 },
        max_switches: 1000,
        env_seed: g.r.next(),
        clock_jumps: g.r.chance(1, 2),
        spurious: g.r.chance(1, 2),
        switches: None,
        first: None,
    };
    World { prop: "C02".into(), defs, share: g.r.chance(4, 5), threads, plan, corrupt: vec![] }
}

// ------------------------------------------------------------------ corrupted streams (C08)
/// Steps allowed for one call on one record: see DESIGN.md for how it was set.
pub const C08_CAP: u64 = 4_000_000;
fn corrupt(r: &mut Rng, op: &mut Op, prev: &[f64], c: &mut Counts) {
    let mut fs: Vec<f64> = vec![];
    op_floats(op, &mut |x| fs.push(x.v()));
    if fs.is_empty() {
        return;
    }
    let kind = r.below(12);
    let i = r.usize(fs.len());
    let name = match kind {
        0 => {
            fs[i] = f64::NAN;
            "NaN"
        }
        1 => {
            fs[i] = if r.chance(1, 2) { f64::INFINITY } else { f64::NEG_INFINITY };
            "infinity"
        }
        2 | 3 => {
            fs[i] = f64::from_bits(fs[i].to_bits() ^ 1 << r.below(64));
            "one bit flipped"
        }
        4 => {
            for _ in 0..r.range(2, 10) {
                let j = r.usize(fs.len());
                fs[j] = f64::from_bits(fs[j].to_bits() ^ 1 << r.below(64));
            }
            "many bits flipped"
        }
        5 => {
            fs[i] = *r.pick(&[1e300, -1e300, f64::MAX, f64::MIN, 1e18, -1e18, 1e12]);
            "huge"
        }
        6 => {
            fs[i] = *r.pick(&[5e-324, -5e-324, 1e-310, f64::MIN_POSITIVE]);
            "denormal"
        }
        7 => {
            // torn: the low half of the field is lost or belongs to another record
            let lo = if prev.is_empty() || r.chance(1, 2) { 0 } else { r.pick(prev).to_bits() & 0xffff_ffff };
            fs[i] = f64::from_bits(fs[i].to_bits() & !0xffff_ffff | lo);
            if r.chance(1, 2) {
                fs[i] = f64::from_bits(fs[i].to_bits() << 32 | fs[i].to_bits() >> 32);
            }
            "torn field"
        }
        8 => {
            let j = r.usize(fs.len());
            fs.swap(i, j);
            fs.rotate_left(1);
            "swapped fields"
        }
        9 => {
            fs.iter_mut().for_each(|x| *x = 0.0);
            "zeroed record"
        }
        10 => {
            for x in fs.iter_mut() {
                *x = f64::from_bits(r.next());
            }
            "random bytes"
        }
        _ => {
            // all fields the same: coincident or degenerate points, or the previous record
            let v = if prev.is_empty() { fs[i] } else { *r.pick(prev) };
            fs.iter_mut().for_each(|x| *x = v);
            "duplicated field"
        }
    };
    add(c, &format!("fault: {name}"), 1);
    let mut it = fs.into_iter();
    op_floats(op, &mut |x| *x = F::of(it.next().unwrap()));
}
pub fn gen_c08(seed: u64, counts: &mut Counts) -> World {
    let mut r = Rng::new(seed);
    let p = Pool::new(&mut r);
    let n = r.range(1, 3);
    let mut defs = vec![];
    for _ in 0..n {
        let k = *r.pick(&[0usize, 2, 3, 3, 4, 4, 4, 5, 5, 6, 6, 6]);
        let d = obj_def(&mut r, &p, k);
        defs.push(d);
    }
    let nt = if r.chance(4, 5) { 1 } else { 2 };
    // now and then a long stream, nearly all of it corrupted
    let long = r.chance(1, 80);
    let len = if long { r.range(300, 1300) } else { r.range(6, 40) };
    let rate = if long { 30 } else { *r.pick(&[1u64, 3, 6]) * 3 };
    let few = r.range(1, 4) as usize;
    let mut again: Vec<(usize, Op)> = vec![];
    let mut bad = vec![];
    let mut threads = vec![];
    let mut uid = 0;
    for _ in 0..nt {
        let mut v = vec![];
        let mut prev: Vec<f64> = vec![];
        for _ in 0..len {
            uid += 1;
            let mut obj = r.usize(defs.len());
            let mut op = op_for(&mut r, &p, &defs[obj], false);
            if long {
                // of few kinds of calls
                if again.len() < few {
                    again.push((obj, op));
                }
                (obj, op) = r.pick(&again).clone();
            }
            if r.chance(1, 8) && !long {
                // conversions between units and ranges, and comparisons
                let v = value_op(&mut r, &p, false);
                if matches!(v, Op::AngleOps(..) | Op::LonOps(..) | Op::LatOps(..) | Op::AzOps(..) | Op::LenOps(..) | Op::Assign(..) | Op::Approx(..)) {
                    op = v;
                }
            }
            if r.chance(rate, if long { 31 } else { 30 }) {
                corrupt(&mut r, &mut op, &prev, counts);
                bad.push(uid);
            } else {
                prev.clear();
                op_floats(&mut op, &mut |x| prev.push(x.v()));
            }
            v.push(Query { uid, obj, how: how(&mut r), op });
        }
        threads.push(v);
    }
    let plan = PlanDef {
        strat: if nt == 1 { Strat::Sequential } else { Strat::Boundary(500.) },
        hot: 0,
        seed: r.next(),
        query_cap: C08_CAP,
        max_switches: 1000,
        env_seed: r.next(),
        clock_jumps: false,
        spurious: false,
        switches: None,
        first: None,
    };
    World { prop: "C08".into(), defs, share: true, threads, plan, corrupt: bad }
}

// ------------------------------------------------------------------ minimisation
impl World {
    pub fn items(&self) -> Vec<(usize, usize)> {
        self.threads.iter().enumerate().flat_map(|(i, t)| (0..t.len()).map(move |j| (i, j))).collect()
    }
    pub fn keep(&self, keep: &[(usize, usize)]) -> World {
        let mut w = self.clone();
        for (i, t) in w.threads.iter_mut().enumerate() {
            let mut j = 0;
            t.retain(|_| {
                j += 1;
                keep.contains(&(i, j - 1))
            });
        }
        w
    }
    /// drops unused definitions and trailing empty threads
    pub fn tidy(&self) -> World {
        let mut w = self.clone();
        while w.threads.len() > 1 && w.threads.last().map_or(false, |t| t.is_empty()) {
            w.threads.pop();
        }
        let mut used = HashMap::new();
        let mut defs = vec![];
        fn walk(q: &mut Query, used: &mut HashMap<usize, usize>, defs: &mut Vec<ObjDef>, old: &[ObjDef]) {
            let n = defs.len();
            let k = *used.entry(q.obj).or_insert_with(|| {
                defs.push(old[q.obj].clone());
                n
            });
            q.obj = k;
            walk_op(&mut q.op, used, defs, old);
        }
        fn walk_op(op: &mut Op, used: &mut HashMap<usize, usize>, defs: &mut Vec<ObjDef>, old: &[ObjDef]) {
            match op {
                Op::NestedFwd { inner: Some(i), .. } | Op::NestedBuild { inner: Some(i), .. } => walk(i, used, defs, old),
                Op::Burst { op, .. } | Op::Sweep { op, .. } | Op::Unwinding(op) => walk_op(op, used, defs, old),
                _ => {}
            }
        }
        let old = self.defs.clone();
        for t in w.threads.iter_mut() {
            for q in t.iter_mut() {
                walk(q, &mut used, &mut defs, &old);
            }
        }
        if defs.is_empty() {
            return self.clone();
        }
        w.defs = defs;
        w
    }
    /// single-step simplifications of one query
    pub fn simpler(&self, i: usize, j: usize) -> Vec<World> {
        let q = &self.threads[i][j];
        let mut v = vec![];
        let mut put = |n: Query| {
            let mut w = self.clone();
            w.threads[i][j] = n;
            v.push(w);
        };
        match &q.op {
            Op::Burst { n, op } | Op::Sweep { n, op, .. } => {
                put(Query { op: (**op).clone(), ..q.clone() });
                for k in [1, n / 16, n / 4, n / 2, n - n / 4, n.saturating_sub(1)] {
                    if k > 0 && k < *n {
                        let op = match &q.op {
                            Op::Burst { op, .. } => Op::Burst { n: k, op: op.clone() },
                            Op::Sweep { op, defs, .. } => Op::Sweep { n: k, defs: *defs, op: op.clone() },
                            _ => unreachable!(),
                        };
                        put(Query { op, ..q.clone() });
                    }
                }
            }
            Op::Unwinding(op) => put(Query { op: (**op).clone(), ..q.clone() }),
            Op::NestedFwd { inner: Some(n), .. } | Op::NestedBuild { inner: Some(n), .. } => {
                put((**n).clone());
                put(Query { op: solo_op(&q.op), ..q.clone() });
            }
            _ => {}
        }
        if q.how != How::Fresh {
            put(Query { how: How::Fresh, ..q.clone() });
        }
        v
    }
}
pub fn seeds(prop: &str, master: u64, idx: u64) -> u64 {
    hash2(hash_bytes(prop.as_bytes()) ^ master, idx)
}
