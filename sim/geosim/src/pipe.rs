//! C03: transformations whose components fail, panic, stall and re-enter, against the four-step
//! reference model.
use crate::case::*;
use crate::gen;
use crate::proc::{self, End as PEnd};
use geoexec::ops::F;
use geoexec::pipe::*;
use serde::{Deserialize, Serialize};
use simrt::rng::Rng;
use simrt::sched::{self, V_DEADLOCK};
use std::collections::HashMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pipe {
    pub defs: Vec<TDef>,
    pub threads: Vec<Vec<Call>>,
    pub plan: PlanDef,
}
#[derive(Serialize, Deserialize)]
struct Rep {
    evs: Vec<Ev>,
    res: Vec<Res>,
    sched: Sched,
}
fn child(w: &Pipe) -> Vec<u8> {
    let w: &'static Pipe = Box::leak(Box::new(w.clone()));
    let acc: *mut Vec<(Vec<Ev>, Vec<Res>)> = Box::leak(Box::new(w.threads.iter().map(|_| (vec![], vec![])).collect()));
    let acc = acc as usize;
    let mut bodies: Vec<Box<dyn FnOnce()>> = vec![];
    for (ti, calls) in w.threads.iter().enumerate() {
        bodies.push(Box::new(move || {
            let c = enter(&w.defs);
            for q in calls {
                proc::progress(q.uid as u64 + 1);
                sched::begin_query(q.uid);
                run_call(&c, q);
                sched::end_query();
            }
            let acc = unsafe { &mut *(acc as *mut Vec<(Vec<Ev>, Vec<Res>)>) };
            acc[ti] = (c.events.take(), c.results.take());
            leave();
            sched::begin_query(2_000_000 + ti as u32);
            drop(c);
            sched::end_query();
        }));
    }
    let (log, st, first) = sched::run(w.plan.plan(), bodies);
    let acc = unsafe { &mut *(acc as *mut Vec<(Vec<Ev>, Vec<Res>)>) };
    let mut rep = Rep { evs: vec![], res: vec![], sched: sched_of(log, &st, first) };
    for (e, r) in acc.drain(..) {
        rep.evs.extend(e);
        rep.res.extend(r);
    }
    serde_json::to_vec(&rep).unwrap()
}
fn model_child(w: &Pipe) -> Vec<u8> {
    let w: &'static Pipe = Box::leak(Box::new(w.clone()));
    let acc: *mut Vec<Expect> = Box::leak(Box::new(vec![]));
    let acc = acc as usize;
    let mut p = PlanDef::sequential();
    // all calls together
    p.query_cap = 4_000_000_000;
    sched::run(
        p.plan(),
        vec![Box::new(move || {
            sched::begin_query(0);
            let acc = unsafe { &mut *(acc as *mut Vec<Expect>) };
            for t in &w.threads {
                for c in t {
                    model(&w.defs, c, acc);
                }
            }
            sched::end_query();
        })],
    );
    serde_json::to_vec(unsafe { &*(acc as *const Vec<Expect>) }).unwrap()
}
fn same(a: &[F], b: &[F]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y || (x.v().is_nan() && y.v().is_nan()))
}
fn flat<'a>(c: &'a Call, out: &mut Vec<&'a Call>) {
    out.push(c);
    for a in &c.acts {
        let mut a = a;
        loop {
            match a {
                Act::Reenter(i, t) => {
                    flat(i, out);
                    a = t;
                }
                Act::Stall(_, t) => a = t,
                _ => break,
            }
        }
    }
}
const ROLE: [&str; 4] = ["source CRS", "source shift", "destination shift", "destination CRS"];
fn show_evs(e: &[&Ev]) -> String {
    e.iter()
        .map(|e| format!("{} {} {:?}", ROLE[e.role as usize], if e.to { "towards the reference" } else { "from the reference" }, e.args))
        .collect::<Vec<_>>()
        .join("; ")
}
pub fn run(w: &Pipe, cx: &mut Cx) -> RunOut {
    let mut r = RunOut::default();
    let exp: Vec<Expect> = match cx.slot.run(|| model_child(w)) {
        PEnd::Data(d) => serde_json::from_slice(&d).unwrap(),
        _ => {
            // a built-in component does not answer on its own: nothing to compare with
            add(&mut r.counts, "runs abandoned: a component does not answer on its own", 1);
            return r;
        }
    };
    let viol = |class: &str, what: String| Some(Viol { class: class.into(), what: what.chars().take(1500).collect() });
    let rep: Rep = match cx.slot.run(|| child(w)) {
        PEnd::Data(d) => {
            r.digest = hash_bytes(&d);
            serde_json::from_slice(&d).unwrap()
        }
        PEnd::Verdict { kind, uid, .. } => {
            r.viol = viol(if kind == V_DEADLOCK { "deadlock" } else { "hang" }, format!("call {uid} never returned although its components do"));
            return r;
        }
        PEnd::Signal(s, p) => {
            r.viol = viol("crash", format!("signal {s} in call {}", p as i64 - 1));
            return r;
        }
        PEnd::Timeout => {
            add(&mut r.counts, "runs abandoned: out of real time", 1);
            return r;
        }
        PEnd::Exit(c) => {
            r.viol = viol("crash", format!("exit status {c}"));
            return r;
        }
    };
    r.sched = rep.sched;
    let mut calls = vec![];
    for t in &w.threads {
        for c in t {
            flat(c, &mut calls);
        }
    }
    let calls: HashMap<u32, &Call> = calls.into_iter().map(|c| (c.uid, c)).collect();
    let res: HashMap<u32, &Res> = rep.res.iter().map(|x| (x.uid, x)).collect();
    let mut evs: HashMap<u32, Vec<&Ev>> = HashMap::new();
    for e in &rep.evs {
        evs.entry(e.call).or_default().push(e);
    }
    let c = &mut r.counts;
    add(c, "component consultations", rep.evs.len() as u64);
    for x in &exp {
        let call = calls[&x.uid];
        add(c, "calls", 1);
        let dir = if call.fwd { "forward" } else { "backward" };
        let d = serde_json::to_string(&w.defs[call.t]).unwrap();
        let about = format!("{dir} call {} with {:?} on {d}", x.uid, call.coords);
        let got = match res.get(&x.uid) {
            Some(g) => *g,
            None => {
                // its caller was abandoned before reaching it; the caller's own record says why
                continue;
            }
        };
        let empty = vec![];
        let ge = evs.get(&x.uid).unwrap_or(&empty);
        let eq = ge.len() == x.evs.len()
            && ge.iter().zip(&x.evs).all(|(a, b)| a.role == b.role && a.to == b.to && same(&a.args, &b.args));
        if !eq {
            r.viol = viol("steps", format!("{about}: components consulted: [{}], expected [{}]", show_evs(ge), show_evs(&x.evs.iter().collect::<Vec<_>>())));
            return r;
        }
        if got.end != x.end {
            r.viol = viol("result", format!("{about}: ended with {:?}, expected {:?} from step {}", got.end, x.end, x.failed));
            return r;
        }
        let dim = x.out.len();
        match x.failed {
            4 => {
                add(c, "calls succeeding", 1);
                if !same(&got.buf[..dim.min(got.buf.len())], &x.out) {
                    r.viol = viol("value", format!("{about}: wrote {:?}, the four steps by hand give {:?}", got.buf, x.out));
                    return r;
                }
                let rest: Vec<F> = (dim..got.buf.len()).map(|i| F::of(sentinel(x.uid, i))).collect();
                if !same(&got.buf[dim..], &rest) {
                    r.viol = viol("overrun", format!("{about}: touched the buffer beyond the destination's {dim} coordinates: {:?}", got.buf));
                    return r;
                }
            }
            k => {
                add(c, &format!("fault: step {} of 4 fails or panics", k + 1), 1);
                if k < 3 {
                    let before: Vec<F> = (0..got.buf.len()).map(|i| F::of(sentinel(x.uid, i))).collect();
                    if !same(&got.buf, &before) {
                        r.viol = viol("buffer", format!("{about}: step {} failed, yet the output buffer changed to {:?}", k + 1, got.buf));
                        return r;
                    }
                }
            }
        }
        for a in &call.acts {
            let mut a = a;
            loop {
                match a {
                    Act::Reenter(_, t) => {
                        add(c, "fault: component re-enters", 1);
                        a = t
                    }
                    Act::Stall(_, t) => {
                        add(c, "fault: component stalls", 1);
                        a = t
                    }
                    Act::Value(..) => {
                        add(c, "fault: component returns an extreme value", 1);
                        break;
                    }
                    Act::Partial => {
                        add(c, "fault: partial write then error", 1);
                        break;
                    }
                    _ => break,
                }
            }
        }
        if call.fresh {
            add(c, "fault: transformation dropped and rebuilt", 1);
        }
    }
    r.nontrivial = exp.iter().any(|x| x.failed < 4) || exp.len() > w.threads.iter().map(|t| t.len()).sum();
    r
}

// ------------------------------------------------------------------ generation
const SPECIAL: &[f64] = &[0., -0., f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300, 5e-324, 1., 6378137., -6356752.3];
struct G {
    r: Rng,
    p: gen::Pool,
    uid: u32,
    left: u32,
}
impl G {
    fn side(&mut self) -> Side {
        if self.r.chance(2, 5) {
            Side::Real(gen::crs_def(&mut self.r))
        } else {
            Side::Script { dim: if self.r.chance(1, 40) { self.r.range(6, 70) as u8 } else { *self.r.pick(&[2, 3, 2, 3, 3, 1, 4, 5]) }, salt: self.r.next() >> 8 }
        }
    }
    fn shift(&mut self) -> Shift {
        if self.r.chance(1, 5) {
            Shift::Identity
        } else {
            Shift::Script { salt: self.r.next() >> 8 }
        }
    }
    fn act(&mut self, defs: &[TDef], depth: u32, faulty: u64) -> Act {
        if !self.r.chance(faulty, 12) {
            return Act::Ok;
        }
        match self.r.below(9) {
            0 | 1 => Act::Err,
            2 | 3 => Act::Panic,
            4 => Act::Partial,
            5 => Act::Value(F::of(*self.r.pick(SPECIAL)), F::of(*self.r.pick(SPECIAL)), F::of(*self.r.pick(SPECIAL))),
            6 => Act::Stall(self.r.range(1, 3) as u8, Box::new(self.act(defs, depth, 4))),
            _ => {
                if depth >= 3 || self.left == 0 {
                    return Act::Err;
                }
                self.left -= 1;
                let t = self.r.usize(defs.len());
                let inner = self.call(defs, t, depth + 1, faulty);
                Act::Reenter(Box::new(inner), Box::new(self.act(defs, depth, 4)))
            }
        }
    }
    fn coords(&mut self, s: &Side) -> Vec<F> {
        let mut v: Vec<F> = match s {
            Side::Real(c) => gen::coords(&mut self.r, &self.p, c),
            Side::Script { dim, .. } => (0..*dim).map(|_| F::of(*self.r.pick(&self.p.any))).collect(),
        };
        if !v.is_empty() && self.r.chance(1, 8) {
            let k = self.r.usize(v.len());
            v[k] = F::of(*self.r.pick(SPECIAL));
        }
        v
    }
    fn call(&mut self, defs: &[TDef], t: usize, depth: u32, faulty: u64) -> Call {
        self.uid += 1;
        let uid = self.uid;
        let fwd = self.r.chance(1, 2);
        let coords = if fwd { self.coords(&defs[t].src) } else { self.coords(&defs[t].dst) };
        let acts = (0..4).map(|_| self.act(defs, depth, faulty)).collect();
        Call { uid, t, fwd, fresh: self.r.chance(1, 12), coords, extra: *self.r.pick(&[0, 0, 1, 2, 5]), acts }
    }
}
pub fn plan(r: &mut Rng, threads: usize) -> PlanDef {
    let mut p = PlanDef::sequential();
    p.seed = r.next();
    p.env_seed = r.next();
    if threads > 1 {
        p.strat = match r.below(3) {
            0 => Strat::Random(*r.pick(&[30., 200., 2000.])),
            1 => Strat::Boundary(*r.pick(&[50., 500.])),
            _ => Strat::Pct(r.range(1, 4) as u32, *r.pick(&[2000, 20000])),
        };
        p.max_switches = 2000;
        p.spurious = r.chance(1, 3);
    }
    p.clock_jumps = r.chance(1, 3);
    p.query_cap = 4_000_000;
    p
}
pub fn gen_c03(seed: u64) -> Pipe {
    let mut r = Rng::new(seed);
    let p = gen::Pool::new(&mut r);
    let mut g = G { r, p, uid: 0, left: 0 };
    let n = g.r.range(1, 3);
    let mut defs: Vec<TDef> = (0..n).map(|_| TDef { src: g.side(), dst: g.side(), s: g.shift(), d: g.shift() }).collect();
    if g.r.chance(1, 4) {
        // same CRS on both sides
        let k = g.r.usize(defs.len());
        defs[k].dst = defs[k].src.clone();
        if g.r.chance(1, 2) {
            defs[k].d = defs[k].s.clone();
        }
    }
    let nt = *g.r.pick(&[1usize, 1, 1, 2, 3]);
    let long = g.r.chance(1, 12);
    let faulty = *g.r.pick(&[1, 2, 4]);
    let mut threads = vec![];
    for _ in 0..nt {
        let n = if long { g.r.range(200, 600) } else { g.r.range(2, 30) };
        let mut v: Vec<Call> = vec![];
        for _ in 0..n {
            let t = g.r.usize(defs.len());
            g.left = 3;
            let mut c = g.call(&defs, t, 0, faulty);
            // the same coordinates again, or the last answer's direction reversed
            if !v.is_empty() && g.r.chance(1, 3) {
                let o = g.r.usize(v.len().min(3));
                let o = &v[v.len() - 1 - o];
                c.t = o.t;
                c.fwd = o.fwd;
                c.coords = o.coords.clone();
                if g.r.chance(1, 3) && !c.coords.is_empty() {
                    let k = g.r.usize(c.coords.len());
                    let x = c.coords[k].v();
                    c.coords[k] = F::of(gen::near(&mut g.r, x));
                }
            }
            v.push(c);
        }
        threads.push(v);
    }
    let plan = plan(&mut g.r, nt);
    Pipe { defs, threads, plan }
}
// ------------------------------------------------------------------ minimisation
impl Pipe {
    pub fn items(&self) -> Vec<(usize, usize)> {
        self.threads.iter().enumerate().flat_map(|(i, t)| (0..t.len()).map(move |j| (i, j))).collect()
    }
    pub fn keep(&self, k: &[(usize, usize)]) -> Pipe {
        let mut w = self.clone();
        for (i, t) in w.threads.iter_mut().enumerate() {
            let old = std::mem::take(t);
            *t = old.into_iter().enumerate().filter(|(j, _)| k.contains(&(i, *j))).map(|x| x.1).collect();
        }
        w
    }
    /// candidates with one call made simpler
    pub fn simpler(&self, i: usize, j: usize) -> Vec<Pipe> {
        let mut v = vec![];
        let c = &self.threads[i][j];
        let mut put = |x: Call| {
            let mut w = self.clone();
            w.threads[i][j] = x;
            v.push(w);
        };
        for (k, a) in c.acts.iter().enumerate() {
            let mut cand = vec![];
            if *a != Act::Ok {
                cand.push(Act::Ok);
            }
            match a {
                Act::Reenter(inner, then) => {
                    cand.push((**then).clone());
                    for (q, ia) in inner.acts.iter().enumerate() {
                        if *ia != Act::Ok {
                            let mut x = (**inner).clone();
                            x.acts[q] = Act::Ok;
                            cand.push(Act::Reenter(Box::new(x), then.clone()));
                        }
                    }
                }
                Act::Stall(_, then) => cand.push((**then).clone()),
                _ => {}
            }
            for a in cand {
                let mut x = c.clone();
                x.acts[k] = a;
                put(x);
            }
        }
        if c.extra > 0 {
            put(Call { extra: 0, ..c.clone() });
        }
        if c.fresh {
            put(Call { fresh: false, ..c.clone() });
        }
        v
    }
}
