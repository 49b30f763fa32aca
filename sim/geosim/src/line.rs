//! C04: line strings built step by step with a failing distance function, against a reference
//! model of acknowledged positions and lengths.
use crate::case::*;
use crate::gen;
use crate::proc::{self, End as PEnd};
use geoexec::line::*;
use geoexec::ops::F;
use serde::{Deserialize, Serialize};
use simrt::rng::Rng;
use simrt::sched;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Line {
    pub crs: LCrs,
    pub steps: Vec<Step>,
    pub env_seed: u64,
}
#[derive(Serialize, Deserialize)]
struct ModelRep {
    out: Vec<Expect>,
    lens: Lens,
    shapes: Vec<Shape>,
}
#[derive(Serialize, Deserialize)]
struct Rep {
    recs: Vec<Rec>,
    sched: Sched,
}
pub fn one_thread<T: Serialize + 'static>(env_seed: u64, cap: u64, f: impl FnOnce() -> T + 'static) -> (T, Sched) {
    let acc: *mut Option<T> = Box::leak(Box::new(None));
    let a = acc as usize;
    let mut p = PlanDef::sequential();
    p.env_seed = env_seed;
    p.query_cap = cap;
    let (log, st, first) = sched::run(
        p.plan(),
        vec![Box::new(move || {
            let r = f();
            unsafe { *(a as *mut Option<T>) = Some(r) };
        })],
    );
    (unsafe { (*acc).take().unwrap() }, sched_of(log, &st, first))
}
fn model_child(w: &Line) -> Vec<u8> {
    let w: &'static Line = Box::leak(Box::new(w.clone()));
    let (m, _) = one_thread(1, 400_000_000, move || {
        sched::begin_query(0);
        let mut m = Model::default();
        for s in &w.steps {
            m.step(&w.crs, s, true);
        }
        sched::end_query();
        ModelRep { out: m.out, lens: m.lens, shapes: m.shapes }
    });
    serde_json::to_vec(&m).unwrap()
}
fn child(w: &Line, m: &ModelRep) -> Vec<u8> {
    // in a process of its own, which ends here: these outlive it
    let w: &'static Line = unsafe { &*(w as *const Line) };
    let m: &'static ModelRep = unsafe { &*(m as *const ModelRep) };
    let (recs, sched) = one_thread(w.env_seed, if w.huge() { 4_000_000_000 } else { 40_000_000 }, move || {
        geoexec::line::run(&w.crs, &w.steps, &m.lens, &m.shapes, &mut |uid, begin| {
            if begin {
                proc::progress(uid as u64 + 1);
                sched::begin_query(uid);
            } else {
                sched::end_query();
            }
        })
    });
    serde_json::to_vec(&Rep { recs, sched }).unwrap()
}
fn feq(a: &[F], b: &[F]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.v() == y.v() || x.v().is_nan() && y.v().is_nan())
}
pub fn valid(len: &[F]) -> bool {
    len.iter().all(|l| l.v().is_finite() && l.v() >= 0.)
}
fn finite(x: &Shape) -> bool {
    x.pos.iter().all(|p| p.iter().all(|v| v.v().is_finite()))
}
/// exactly rounded sum would do; the error bound covers every order of summation
pub fn sum_ok(len: &[F], got: f64) -> bool {
    let sum: f64 = len.iter().map(|l| l.v()).sum();
    let tol = 4. * (len.len() as f64 + 1.) * f64::EPSILON * sum;
    (got - sum).abs() <= tol
}
const EPS: f64 = f64::EPSILON;
/// Is `p` a position of the polyline at distance `s`, up to the rounding that any way of walking
/// the lengths has?
pub fn on_line(x: &Shape, s: f64, p: &[F]) -> bool {
    let n = x.len.len();
    let total: f64 = x.len.iter().map(|l| l.v()).sum();
    let delta = 8. * (n as f64 + 1.) * EPS * total;
    in_window(x, s - delta, s + delta, p)
}
pub fn in_window(x: &Shape, lo: f64, hi: f64, p: &[F]) -> bool {
    let n = x.len.len();
    let mut cum = 0.;
    for k in 0..n {
        let l = x.len[k].v();
        let (a, b) = (cum, cum + l);
        cum = b;
        if b < lo || a > hi {
            continue;
        }
        // the part of this segment inside the window
        let (r0, r1) = if l > 0. { (((lo - a) / l).max(0.).min(1.), ((hi - a) / l).max(0.).min(1.)) } else { (0., 1.) };
        let ok = p.iter().enumerate().all(|(i, v)| {
            let (u, w) = (x.pos[k][i].v(), x.pos[k + 1][i].v());
            let tol = 16. * EPS * (u.abs() + w.abs()) + 1e-320;
            let (q0, q1) = ((1. - r0) * u + r0 * w, (1. - r1) * u + r1 * w);
            v.v() >= q0.min(q1) - tol && v.v() <= q0.max(q1) + tol
        });
        if ok {
            return true;
        }
    }
    false
}
fn flat<'a>(s: &'a Step, out: &mut Vec<&'a Step>) {
    out.push(s);
    let mut a = &s.act;
    while let DAct::Reenter(v, t) = a {
        for x in v {
            flat(x, out);
        }
        a = t;
    }
}
pub fn run(w: &Line, cx: &mut Cx) -> RunOut {
    let mut r = RunOut::default();
    let m: ModelRep = match cx.slot.run(|| model_child(w)) {
        PEnd::Data(d) => serde_json::from_slice(&d).unwrap(),
        _ => {
            add(&mut r.counts, "runs abandoned: a CRS does not answer on its own", 1);
            return r;
        }
    };
    let viol = |class: &str, what: String| Some(Viol { class: class.into(), what: what.chars().take(1500).collect() });
    let rep: Rep = match cx.slot.run(|| child(w, &m)) {
        PEnd::Data(d) => {
            r.digest = hash_bytes(&d);
            serde_json::from_slice(&d).unwrap()
        }
        PEnd::Verdict { uid, .. } => {
            r.viol = viol("hang", format!("step {uid} never returned"));
            return r;
        }
        PEnd::Signal(s, p) => {
            r.viol = viol("crash", format!("signal {s} in step {}", p as i64 - 1));
            return r;
        }
        PEnd::Timeout => {
            add(&mut r.counts, "runs abandoned: out of real time", 1);
            return r;
        }
        PEnd::Exit(c) => {
            r.viol = viol("crash", format!("exit status {c}"));
            return r;
        }
    };
    r.sched = rep.sched;
    let mut steps = vec![];
    for s in &w.steps {
        flat(s, &mut steps);
    }
    let steps: HashMap<u32, &Step> = steps.into_iter().map(|s| (s.uid, s)).collect();
    let recs: HashMap<u32, &Rec> = rep.recs.iter().map(|x| (x.uid, x)).collect();
    let c = &mut r.counts;
    for e in &m.out {
        let s = steps[&e.uid];
        let g = match recs.get(&e.uid) {
            Some(g) => *g,
            None => {
                r.viol = viol("missing", format!("step {} was not reached", e.uid));
                return r;
            }
        };
        if g.end == REnd::Skipped && e.end == EEnd::Is(REnd::Skipped) {
            continue;
        }
        let about = || format!("step {} {:?} ({:?}) on {:?}", s.uid, s.op, s.act, w.crs);
        add(c, &format!("op {}", format!("{:?}", s.op).split(' ').next().unwrap()), 1);
        match &e.end {
            EEnd::AnyErr => add(c, "fault: wrong dimension", 1),
            EEnd::Is(REnd::Err(_)) => add(c, "fault: distance function fails", 1),
            EEnd::Is(REnd::Panic(_)) => add(c, "fault: distance function panics", 1),
            _ => {}
        }
        if matches!(s.act, DAct::Reenter(..)) && !e.dists.is_empty() {
            add(c, "fault: distance function re-enters", 1);
        }
        let good = match &e.end {
            EEnd::AnyErr => matches!(g.end, REnd::Err(_)),
            EEnd::Is(x) => *x == g.end,
        };
        let shape = e.shape.first().map(|x| &m.shapes[*x as usize]);
        let usable = shape.map_or(true, |x| valid(&x.len));
        if !usable && !matches!(s.op, SOp::Query { .. }) {
            continue;
        }
        if !good {
            r.viol = viol("result", format!("{}: ended with {:?}, expected {:?} {}", about(), g.end, e.end, shape.map_or(String::new(), |x| format!("line {x:?}"))));
            return r;
        }
        if g.many != e.many {
            r.viol = viol("distances", format!("{}: {} distances asked for (digest {:x}), expected {} (digest {:x}), each from the last position to the new one", about(), g.many.0, g.many.1, e.many.0, e.many.1));
            return r;
        }
        if g.dists != e.dists {
            r.viol = viol("distances", format!("{}: distances asked {:?}, expected {:?}", about(), g.dists, e.dists));
            return r;
        }
        match &s.op {
            SOp::Query { .. } => {
                let x = shape.unwrap();
                let v = &g.vals;
                let (first, last) = (&x.pos[0], x.pos.last().unwrap());
                let dim = w.crs.dim();
                let mut bad = v[0][0].v() != dim as f64 || !feq(&v[1], first) || !feq(&v[2], last);
                if v.len() > 4 {
                    bad |= !feq(&v[4], first) || !feq(&v[5], last);
                }
                bad |= usable && !sum_ok(&x.len, v[3][0].v());
                if bad {
                    r.viol = viol("query", format!("{}: dimension, start, end, length, boundary {:?}; acknowledged positions {:?}, lengths {:?}", about(), v, x.pos, x.len));
                    return r;
                }
            }
            SOp::Param { .. } => {
                let x = shape.unwrap();
                let (p, total, at) = (&g.vals[0], g.vals[1][0].v(), g.s.v());
                let (first, last) = (&x.pos[0], x.pos.last().unwrap());
                add(c, if at == 0. { "positions at 0" } else if at == total { "positions at the full length" } else { "positions in between" }, 1);
                // what lies between positions that are not anywhere is nobody's business
                let ok = p.len() == first.len()
                    && if !finite(x) {
                        true
                    } else if at == 0. && at == total {
                        feq(p, first) || feq(p, last)
                    } else if at == 0. {
                        feq(p, first)
                    } else if at == total {
                        feq(p, last)
                    } else {
                        on_line(x, at, p)
                    };
                if !ok {
                    r.viol = viol("position", format!("{}: position at {at:?} of {total:?} is {p:?}; acknowledged positions {:?}, lengths {:?}", about(), x.pos, x.len));
                    return r;
                }
            }
            SOp::Eq { .. } => {
                let (x, y) = (&m.shapes[e.shape[0] as usize], &m.shapes[e.shape[1] as usize]);
                let pos = x.pos.len() == y.pos.len() && x.pos.iter().zip(&y.pos).all(|(a, b)| feq(a, b));
                let len = feq(&x.len, &y.len);
                // lengths so close that rounding alone could make them one are not judged
                let total: f64 = x.len.iter().chain(&y.len).map(|l| l.v()).sum();
                let apart = x.len.iter().zip(&y.len).any(|(a, b)| (a.v() - b.v()).abs() > 1e-9 * total);
                if valid(&y.len) && finite(x) && finite(y) && (!pos || len || apart) && g.flag != (pos && len) {
                    r.viol = viol("equality", format!("{}: equal: {}, acknowledged {x:?} and {y:?}", about(), g.flag));
                    return r;
                }
            }
            _ => {}
        }
    }
    r.nontrivial = m.out.iter().any(|e| matches!(e.end, EEnd::AnyErr | EEnd::Is(REnd::Err(_)) | EEnd::Is(REnd::Panic(_)))) || m.out.len() > w.steps.len();
    r
}

// ------------------------------------------------------------------ generation
struct G {
    r: Rng,
    pool: gen::Pool,
    pts: Vec<Vec<F>>,
    lens: Vec<f64>,
    crs: LCrs,
    uid: u32,
    faulty: u64,
    slots: u64,
    /// positions that are not numbers occur
    wild: bool,
}
pub const LENS: &[f64] = &[0., 0.1, 0.2, 0.3, 1., 1., 2., 3., 0.7, 1e-9, 1e9, 1e-300, 5e-324, 1e-3, 1234.5678, 2.5e6];
impl G {
    fn pt(&mut self) -> Vec<F> {
        if !self.pts.is_empty() && self.r.chance(1, 3) {
            return self.r.pick(&self.pts).clone();
        }
        let p = match &self.crs {
            LCrs::Real(c) => gen::coords(&mut self.r, &self.pool, c),
            LCrs::Script { dim } => (0..*dim)
                .map(|_| {
                    if self.wild && self.r.chance(1, 20) {
                        return F::of(*self.r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]));
                    }
                    F::of(match self.r.below(6) {
                        0 => *self.r.pick(&[0., -0., 1., -1., 1e-300, 1e12]),
                        1 => *self.r.pick(&self.pool.any),
                        _ => (self.r.unit() - 0.5) * 1e4,
                    })
                })
                .collect(),
        };
        self.pts.push(p.clone());
        p
    }
    fn bad_pt(&mut self) -> Vec<F> {
        let d = self.crs.dim();
        let n = *self.r.pick(&[0, 1, 2, 3, 4, 6, d + 1, 2 * d]);
        let n = if n == d { d + 1 } else { n };
        (0..n).map(|_| F::of(self.r.unit())).collect()
    }
    fn act(&mut self, depth: u32) -> DAct {
        let d = F::of(if self.r.chance(1, 3) { self.r.unit() * 100. } else { *self.r.pick(&self.lens) });
        if !self.r.chance(self.faulty, 12) {
            return DAct::Dist(d);
        }
        match self.r.below(6) {
            0 | 1 => DAct::Err(self.r.below(6) as u8),
            2 | 3 => DAct::Panic,
            _ => {
                if depth > 0 {
                    return DAct::Panic;
                }
                let n = self.r.range(1, 3);
                let v = (0..n).map(|_| self.step(depth + 1)).collect();
                let then = match self.r.below(4) {
                    0 => DAct::Err(0),
                    1 => DAct::Panic,
                    _ => DAct::Dist(d),
                };
                DAct::Reenter(v, Box::new(then))
            }
        }
    }
    fn spos(&mut self) -> SPos {
        match self.r.below(8) {
            0 => SPos::Frac(F::of(0.)),
            1 | 2 => SPos::Frac(F::of(1.)),
            3 => SPos::Back(0, -(self.r.range(1, 4) as i8)),
            4 => SPos::Knot(self.r.below(8) as u32, self.r.below(5) as i8 - 2),
            5 => SPos::Back(self.r.below(5) as u32, self.r.below(5) as i8 - 2),
            _ => SPos::Frac(F::of(self.r.unit())),
        }
    }
    fn step(&mut self, depth: u32) -> Step {
        self.uid += 1;
        let uid = self.uid;
        let b = self.r.below(self.slots) as u32;
        let l = self.r.below(self.slots) as u32;
        let op = match self.r.below(40) {
            0..=3 => {
                let (mut from, mut to) = (self.pt(), self.pt());
                if self.r.chance(1, 10) {
                    if self.r.chance(1, 2) {
                        from = self.bad_pt();
                    }
                    if self.r.chance(1, 2) {
                        to = self.bad_pt();
                    }
                    if self.r.chance(1, 4) {
                        // as many numbers as two right positions have
                        let d = self.crs.dim();
                        from = (0..d + 1).map(|i| F::of(i as f64)).collect();
                        to = (0..d - 1).map(|i| F::of(i as f64)).collect();
                    }
                }
                SOp::WithLine { b, from, to }
            }
            4..=17 => SOp::LineTo { b, to: if self.r.chance(1, 12) { self.bad_pt() } else { self.pt() } },
            18..=20 => SOp::CloneB { b, into: self.r.below(self.slots) as u32 },
            21 => SOp::DropB { b },
            22..=23 => SOp::Close { b, line: l },
            24..=26 => SOp::Build { b, line: l },
            27 => SOp::CloneL { line: l, into: self.r.below(self.slots) as u32 },
            28 => SOp::DropL { line: l },
            29..=31 => SOp::Query { line: l },
            32 => SOp::Eq { a: l, b: self.r.below(self.slots) as u32 },
            _ => SOp::Param { line: l, s: self.spos() },
        };
        let act = self.act(depth);
        Step { uid, op, act }
    }
    fn put(&mut self, v: &mut Vec<Step>, op: SOp, act: DAct) {
        self.uid += 1;
        v.push(Step { uid: self.uid, op, act });
    }
    fn farther(&mut self, d: &DAct) -> DAct {
        match d {
            DAct::Dist(x) if self.r.chance(1, 4) => DAct::Dist(F::of(match self.r.below(3) {
                0 => x.v() + self.r.unit(),
                1 => x.v() * 1.001,
                _ => *self.r.pick(&self.lens),
            })),
            d => d.clone(),
        }
    }
    fn one(&self) -> DAct {
        DAct::Dist(F::of(1.))
    }
}
pub fn gen_c04(seed: u64) -> Line {
    let mut r = Rng::new(seed);
    let pool = gen::Pool::new(&mut r);
    let crs = if r.chance(1, 4) { LCrs::Real(gen::crs_def(&mut r)) } else { LCrs::Script { dim: if r.chance(1, 40) { r.range(10, 70) as u8 } else { *r.pick(&[2, 2, 2, 2, 3, 3, 3, 1, 4, 5, 9]) } } };
    let n = r.range(1, 5);
    let lens = if r.chance(1, 8) { vec![0.] } else { (0..n).map(|_| *r.pick(LENS)).collect() };
    let (faulty, slots) = (*r.pick(&[0, 1, 1, 3]), r.range(2, 5));
    let long = r.chance(1, 20);
    let huge = if matches!(crs, LCrs::Script { .. }) && r.chance(1, 200) { *r.pick(&[5_000u64, 33_000, 66_000, 66_000]) + r.below(2000) } else { 0 };
    let many_seed = r.next();
    let wild = r.chance(1, 12);
    let mut g = G { r, pool, pts: vec![], lens, crs, uid: 0, faulty, slots, wild };
    let mut v = vec![];
    let n = g.r.range(5, 90);
    for _ in 0..n {
        let s = g.step(0);
        v.push(s);
    }
    // one line with a clean history, beside a copy of the same line with faults in between: equal
    // in the end, and queried all over
    let mut len = if long { g.r.range(300, 1500) } else { g.r.range(1, 12) };
    let (clean, tried) = (90, 91);
    // a third one passes the same places, some of them farther apart
    let farther = if !long && g.r.chance(1, 2) { Some(94) } else { None };
    let (p0, p1, a0) = (g.pt(), g.pt(), g.act(9));
    let mut path: Vec<(Vec<F>, DAct)> = vec![];
    let (mut before, mut last, start) = (p0.clone(), p1.clone(), (p0.clone(), p1.clone()));
    let a0 = if matches!(a0, DAct::Dist(_)) { a0 } else { g.one() };
    g.put(&mut v, SOp::WithLine { b: clean, from: p0.clone(), to: p1.clone() }, a0.clone());
    if let Some(b) = farther {
        let a = g.farther(&a0);
        g.put(&mut v, SOp::WithLine { b, from: p0.clone(), to: p1.clone() }, a);
    }
    g.put(&mut v, SOp::WithLine { b: tried, from: p0, to: p1 }, a0.clone());
    let first = a0.clone();
    for _ in 0..len {
        // now and then straight back, or not away at all
        let p = match g.r.below(10) { 0 | 1 => before.clone(), 2 => last.clone(), _ => g.pt() };
        before = std::mem::replace(&mut last, p.clone());
        let d = DAct::Dist(F::of(if g.r.chance(1, 4) { g.r.unit() } else { *g.r.pick(&g.lens) }));
        path.push((p.clone(), d.clone()));
        g.put(&mut v, SOp::LineTo { b: clean, to: p.clone() }, d.clone());
        if g.r.chance(1, 4) {
            g.put(&mut v, SOp::CloneB { b: tried, into: 92 }, DAct::Err(0));
            let q = g.pt();
            let bad = g.bad_pt();
            match g.r.below(4) {
                0 => g.put(&mut v, SOp::LineTo { b: 92, to: q }, DAct::Err(1)),
                1 => g.put(&mut v, SOp::LineTo { b: 92, to: q }, DAct::Panic),
                2 => g.put(&mut v, SOp::LineTo { b: 92, to: bad }, DAct::Panic),
                _ => g.put(&mut v, SOp::Close { b: 92, line: 92 }, DAct::Panic),
            }
            // go on from the original, or from a second clone of it
            if g.r.chance(1, 2) {
                g.put(&mut v, SOp::CloneB { b: tried, into: 93 }, DAct::Err(0));
                g.put(&mut v, SOp::DropB { b: tried }, DAct::Err(0));
                g.put(&mut v, SOp::CloneB { b: 93, into: tried }, DAct::Err(0));
            }
        }
        if let Some(b) = farther {
            let a = g.farther(&d);
            g.put(&mut v, SOp::LineTo { b, to: p.clone() }, a);
        }
        g.put(&mut v, SOp::LineTo { b: tried, to: p }, d);
    }
    if huge > 0 {
        g.put(&mut v, SOp::Many { b: clean, n: huge as u32, seed: many_seed }, DAct::Err(0));
        g.put(&mut v, SOp::Many { b: tried, n: huge as u32, seed: many_seed }, DAct::Err(0));
        len += huge;
    }
    if g.r.chance(1, 4) {
        let d = DAct::Dist(F::of(*g.r.pick(&g.lens)));
        path.push((start.0.clone(), d.clone()));
        g.put(&mut v, SOp::Close { b: clean, line: clean }, d.clone());
        g.put(&mut v, SOp::Close { b: tried, line: tried }, d);
    } else {
        g.put(&mut v, SOp::Build { b: clean, line: clean }, DAct::Err(0));
        g.put(&mut v, SOp::Build { b: tried, line: tried }, DAct::Err(0));
    }
    g.put(&mut v, SOp::Eq { a: clean, b: tried }, DAct::Err(0));
    if let Some(b) = farther {
        g.put(&mut v, SOp::Build { b, line: b }, DAct::Err(0));
        g.put(&mut v, SOp::Eq { a: clean, b }, DAct::Err(0));
        g.put(&mut v, SOp::Eq { a: b, b: tried }, DAct::Err(0));
    }
    if !long && huge == 0 && g.r.chance(1, 2) {
        // lines that leave something out, have something twice, or pass somewhere else once
        let b = 95;
        for _ in 0..g.r.range(1, 3) {
            let mut way = path.clone();
            let i = g.r.usize(way.len());
            let (mut s0, mut s1, mut d0) = (start.0.clone(), start.1.clone(), first.clone());
            match g.r.below(10) {
                6 => {
                    // the other way round, segment by segment
                    let mut pos = vec![s0, s1];
                    let mut act = vec![d0];
                    for (p, d) in way.drain(..) {
                        pos.push(p);
                        act.push(d);
                    }
                    pos.reverse();
                    act.reverse();
                    (s0, s1, d0) = (pos[0].clone(), pos[1].clone(), act[0].clone());
                    way = pos.drain(2..).zip(act.drain(1..)).collect();
                }
                7 => {
                    // starts one position later, and comes back to it
                    let d = std::mem::replace(&mut d0, way[0].1.clone());
                    s0 = std::mem::replace(&mut s1, way[0].0.clone());
                    way.remove(0);
                    way.push((s0.clone(), d));
                }
                8 => {
                    // mirrored, or with axes exchanged
                    let all = [&mut s0, &mut s1].into_iter().chain(way.iter_mut().map(|w| &mut w.0));
                    let (k, m) = (g.r.usize(start.0.len()), g.r.usize(start.0.len()));
                    for p in all {
                        if k == m {
                            p[k] = F::of(-p[k].v());
                        } else {
                            p.swap(k, m);
                        }
                    }
                }
                9 => s0 = g.pt(),
                0 => {
                    way.remove(i);
                }
                1 => {
                    way.drain(i..(i + 2).min(path.len()));
                }
                2 => way.insert(i, path[i].clone()),
                3 => {
                    let j = g.r.usize(way.len());
                    way.swap(i, j);
                }
                4 => way[i].0 = g.pt(),
                _ => {
                    let k = g.r.usize(way[i].0.len());
                    let x = way[i].0[k].v();
                    way[i].0[k] = F::of(*g.r.pick(&[-x, x.next_up(), x + 1e-9, x + 1.]));
                }
            }
            g.put(&mut v, SOp::WithLine { b, from: s0, to: s1 }, d0);
            for (p, d) in way {
                g.put(&mut v, SOp::LineTo { b, to: p }, d);
            }
            g.put(&mut v, SOp::Build { b, line: b }, DAct::Err(0));
            g.put(&mut v, SOp::Eq { a: clean, b }, DAct::Err(0));
        }
    }
    for _ in 0..g.r.range(3, 12) {
        let l = *g.r.pick(&[clean, tried]);
        let s = if g.r.chance(1, 3) { SPos::Knot(g.r.below(len + 2) as u32, g.r.below(5) as i8 - 2) } else { g.spos() };
        g.put(&mut v, SOp::Param { line: l, s }, DAct::Panic);
    }
    g.put(&mut v, SOp::Query { line: tried }, DAct::Panic);
    Line { crs: g.crs.clone(), steps: v, env_seed: g.r.next() }
}
impl Line {
    pub fn huge(&self) -> bool {
        self.steps.iter().any(|s| matches!(s.op, SOp::Many { .. }))
    }
    pub fn simpler(&self, i: usize) -> Vec<Line> {
        let s = &self.steps[i];
        let mut v = vec![];
        let mut put = |x: Step| {
            let mut w = self.clone();
            w.steps[i] = x;
            v.push(w);
        };
        if let DAct::Reenter(inner, then) = &s.act {
            put(Step { act: (**then).clone(), ..s.clone() });
            for k in 0..inner.len() {
                let mut x = inner.clone();
                x.remove(k);
                put(Step { act: DAct::Reenter(x, then.clone()), ..s.clone() });
            }
        }
        if let SOp::Many { b, n, seed } = &s.op {
            for k in [n / 2, n - n / 4, n - n / 16, n - n / 256, n - 1] {
                if k < *n {
                    put(Step { op: SOp::Many { b: *b, n: k, seed: *seed }, ..s.clone() });
                }
            }
        }
        let one = DAct::Dist(F::of(1.));
        if s.act != one {
            put(Step { act: one, ..s.clone() });
        }
        v
    }
}
