//! C05: curves built from line strings and scripted segments that panic, against a reference
//! model of accepted segments.
use crate::case::*;
use crate::line::{in_window, one_thread, sum_ok, LENS};
use crate::proc::{self, End as PEnd};
use geoexec::curve::*;
use geoexec::line::{REnd, SPos, Shape};
use geoexec::ops::F;
use serde::{Deserialize, Serialize};
use simrt::rng::Rng;
use simrt::sched;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CurveCase {
    pub dim: u8,
    pub segs: Vec<SegDef>,
    pub steps: Vec<CStep>,
    pub env_seed: u64,
}
#[derive(Serialize, Deserialize)]
struct Rep {
    recs: Vec<CRec>,
    sched: Sched,
}
fn child(w: &CurveCase) -> Vec<u8> {
    let w: &'static CurveCase = Box::leak(Box::new(w.clone()));
    let (recs, sched) = one_thread(w.env_seed, if w.huge() { 4_000_000_000 } else { 40_000_000 }, move || {
        geoexec::curve::run(w.dim as usize, &w.segs, &w.steps, &mut |uid, begin| {
            if begin {
                proc::progress(uid as u64 + 1);
                sched::begin_query(uid);
            } else {
                sched::end_query();
            }
        })
    });
    serde_json::to_vec(&Rep { recs, sched }).unwrap()
}
fn feq(a: &[F], b: &[F]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.v() == y.v())
}
const EPS: f64 = f64::EPSILON;
fn on_curve(segs: &[&SegDef], other: bool, s: f64, p: &[F]) -> bool {
    let n: usize = segs.iter().map(|s| if let SegDef::Line { len, .. } = s { len.len() } else { 1 }).sum();
    let total: f64 = segs.iter().map(|s| s.len(other)).sum();
    let delta = 8. * (n as f64 + 1.) * EPS * total;
    let mut cum = 0.;
    for x in segs {
        let l = x.len(other);
        let (a, b) = (cum, cum + l);
        cum = b;
        if b < s - delta || a > s + delta {
            continue;
        }
        let at = s - a;
        let ok = match x {
            SegDef::Line { pos, len, .. } => in_window(&Shape { pos: pos.clone(), len: len.clone() }, at - delta, at + delta, p),
            // no length, two places: both are at that distance
            SegDef::Script { start, end, .. } if l == 0. => feq(p, start) || feq(p, end),
            SegDef::Script { start, end, bump, .. } => {
                let q = script_pos(start, end, l, bump.v(), at.max(0.).min(l));
                p.len() == q.len()
                    && p.iter().enumerate().all(|(i, v)| {
                        let (u, w) = (start[i].v(), end[i].v());
                        let mag = u.abs() + w.abs() + 4. * bump.v().abs();
                        let slope = if l > 0. { ((w - u).abs() + 4. * bump.v().abs()) / l } else { 0. };
                        (v.v() - q[i]).abs() <= 16. * EPS * mag + (slope * 2. * delta).min((w - u).abs() + 4. * bump.v().abs()) + 1e-320
                    })
            }
        };
        if ok {
            return true;
        }
    }
    false
}
pub fn run(w: &CurveCase, cx: &mut Cx) -> RunOut {
    let mut r = RunOut::default();
    let viol = |class: &str, what: String| Some(Viol { class: class.into(), what: what.chars().take(1500).collect() });
    let rep: Rep = match cx.slot.run(|| child(w)) {
        PEnd::Data(d) => {
            r.digest = hash_bytes(&d);
            serde_json::from_slice(&d).unwrap()
        }
        PEnd::Verdict { uid, .. } => {
            r.viol = viol("hang", format!("step {uid} never returned"));
            return r;
        }
        PEnd::Signal(s, p) => {
            r.viol = viol("crash", format!("signal {s} in step {}", p as i64 - 1));
            return r;
        }
        PEnd::Timeout => {
            add(&mut r.counts, "runs abandoned: out of real time", 1);
            return r;
        }
        PEnd::Exit(c) => {
            r.viol = viol("crash", format!("exit status {c}"));
            return r;
        }
    };
    r.sched = rep.sched;
    let c = &mut r.counts;
    let mut bs: BTreeMap<u32, Vec<u32>> = BTreeMap::new();
    let mut cs: BTreeMap<u32, Vec<u32>> = BTreeMap::new();
    let mut faults = 0;
    for (s, g) in w.steps.iter().zip(&rep.recs) {
        let segs_of = |v: &[u32]| -> Vec<&SegDef> { v.iter().map(|k| &w.segs[*k as usize]).collect() };
        let about = |v: &[u32]| format!("step {} {:?} arm {:?}, CRS dimension {}, segments {:?}", s.uid, s.op, s.arm, w.dim, segs_of(v));
        // state before the step; None: the slot is empty
        let (before, seg): (Option<Vec<u32>>, Option<u32>) = match &s.op {
            COp::WithSeg { seg, .. } => (Some(vec![]), Some(*seg)),
            COp::Append { b, seg } => (bs.get(b).cloned(), Some(*seg)),
            COp::Many { b, .. } => (bs.get(b).cloned(), None),
            COp::CloneB { b, .. } | COp::DropB { b } | COp::Build { b, .. } => (bs.get(b).cloned(), None),
            COp::CloneC { c, .. } | COp::DropC { c } | COp::Query { c, .. } | COp::Param { c, .. } => (cs.get(c).cloned(), None),
        };
        let before = match before {
            Some(v) => v,
            None => {
                if g.end != REnd::Skipped {
                    r.viol = viol("slots", format!("{}: expected to be skipped, was {:?}", about(&[]), g.end));
                    return r;
                }
                continue;
            }
        };
        let mut all = before.clone();
        all.extend(seg);
        if let COp::Many { segs, n, .. } = &s.op {
            all.extend((0..*n).map(|i| segs[i as usize % segs.len()]));
        }
        // effects that do not depend on the outcome: what is consumed
        match &s.op {
            COp::Append { b, .. } | COp::Many { b, .. } | COp::Build { b, .. } | COp::DropB { b } => {
                bs.remove(b);
            }
            COp::DropC { c } => {
                cs.remove(c);
            }
            _ => {}
        }
        add(c, &format!("op {}", format!("{:?}", s.op).split(' ').next().unwrap()), 1);
        if let Some((at, len)) = g.outside.first() {
            r.viol = viol("outside", format!("{}: a segment of length {len:?} was asked for its position at {at:?}", about(&all)));
            return r;
        }
        if g.fired {
            add(c, &format!("fault: segment panics in {:?}", s.arm.as_ref().unwrap().m), 1);
            faults += 1;
            if g.end == REnd::Panic(armed_text(s.uid)) {
                continue;
            }
        }
        let accepted = (before.len()..all.len()).all(|i| {
            let x = &w.segs[all[i] as usize];
            x.dim() == w.dim as usize && (i == 0 || feq(w.segs[all[i - 1] as usize].end(), x.start()))
        });
        let good = if accepted { g.end == REnd::Ok } else { matches!(g.end, REnd::Err(_)) };
        if !good {
            r.viol = viol("result", format!("{}: ended with {:?}; the step should have {}", about(&all), g.end, if accepted { "succeeded" } else { "been refused" }));
            return r;
        }
        if !accepted {
            let x = &w.segs[all[before.len()] as usize];
            add(c, if x.dim() != w.dim as usize { "fault: segment of the wrong dimension" } else { "fault: disconnected segment" }, 1);
            faults += 1;
            continue;
        }
        match &s.op {
            COp::WithSeg { b, .. } | COp::Append { b, .. } | COp::Many { b, .. } => {
                bs.insert(*b, all);
            }
            COp::CloneB { into, .. } => {
                bs.insert(*into, before);
            }
            COp::Build { c, .. } => {
                cs.insert(*c, before);
            }
            COp::CloneC { into, .. } => {
                cs.insert(*into, before);
            }
            COp::DropB { .. } | COp::DropC { .. } => {}
            COp::Query { other, .. } => {
                let sg = segs_of(&before);
                let (first, last) = (sg[0].start(), sg.last().unwrap().end());
                let v = &g.vals;
                let lens: Vec<F> = sg.iter().flat_map(|s| match s {
                    SegDef::Line { len, .. } => len.clone(),
                    x => vec![F::of(x.len(*other))],
                }).collect();
                let cyc = feq(first, last);
                let mut bad = vec![];
                if v[0][0].v() != w.dim as f64 {
                    bad.push("dimension")
                }
                if !feq(&v[1], first) {
                    bad.push("start")
                }
                if !feq(&v[2], last) {
                    bad.push("end")
                }
                if !sum_ok(&lens, v[3][0].v()) {
                    bad.push("length")
                }
                if g.flags[0] != cyc {
                    bad.push("is_cycle")
                }
                if !g.flags[1] {
                    bad.push("geometry_type")
                }
                if g.flags.len() > 2 {
                    if g.flags[2] == cyc {
                        bad.push("boundary")
                    }
                    if g.flags.get(3) == Some(&false) {
                        bad.push("boundary's own boundary")
                    }
                    if v.len() > 4 && (!feq(&v[4], first) || !feq(&v[5], last)) {
                        bad.push("boundary points")
                    }
                }
                if !bad.is_empty() {
                    r.viol = viol("query", format!("{}: wrong {}: {:?} {:?}", about(&before), bad.join(", "), v, g.flags));
                    return r;
                }
            }
            COp::Param { other, .. } => {
                let sg = segs_of(&before);
                let (first, last) = (sg[0].start(), sg.last().unwrap().end());
                let (p, total, at) = (&g.vals[0], g.vals[1][0].v(), g.s.v());
                add(c, if at == 0. { "positions at 0" } else if at == total { "positions at the full length" } else { "positions in between" }, 1);
                let ok = p.len() == first.len()
                    && if at == 0. && at == total {
                        feq(p, first) || feq(p, last)
                    } else if at == 0. {
                        feq(p, first)
                    } else if at == total {
                        feq(p, last)
                    } else {
                        on_curve(&sg, *other, at, p)
                    };
                if !ok {
                    r.viol = viol("position", format!("{}: position at {at:?} of {total:?} is {p:?}", about(&before)));
                    return r;
                }
            }
        }
    }
    r.nontrivial = faults > 0;
    r
}

// ------------------------------------------------------------------ generation
struct G {
    r: Rng,
    dim: u8,
    pts: Vec<Vec<F>>,
    lens: Vec<f64>,
    segs: Vec<SegDef>,
    uid: u32,
    slots: u64,
    armed: u64,
}
impl G {
    fn pt(&mut self, dim: u8) -> Vec<F> {
        if dim == self.dim && !self.pts.is_empty() && self.r.chance(1, 2) {
            return self.r.pick(&self.pts).clone();
        }
        let p: Vec<F> = (0..dim)
            .map(|_| F::of(if self.r.chance(1, 4) { *self.r.pick(&[0., -0., 1., -1., 1e-300, 1e12]) } else { (self.r.unit() - 0.5) * 1e4 }))
            .collect();
        if dim == self.dim {
            self.pts.push(p.clone());
        }
        p
    }
    fn len(&mut self) -> F {
        F::of(if self.r.chance(1, 3) { self.r.unit() * 100. } else { *self.r.pick(&self.lens) })
    }
    fn seg(&mut self, start: Option<Vec<F>>) -> u32 {
        let dim = match &start {
            Some(s) => s.len() as u8,
            None if self.r.chance(1, 12) => *self.r.pick(&[1, 2, 3]),
            None => self.dim,
        };
        let mut a = start.unwrap_or_else(|| self.pt(dim));
        if a.len() == dim as usize && self.r.chance(1, 12) {
            // almost, or exactly, the same place
            let k = self.r.usize(a.len());
            let x = a[k].v();
            a[k] = F::of(match self.r.below(3) {
                0 if x == 0. => -x,
                1 => x + 1e-9,
                _ => crate::gen::ulp(x, 1),
            });
        }
        let d = if self.r.chance(1, 2) {
            let n = if self.r.chance(1, 10) { self.r.range(10, 60) } else { self.r.range(1, 4) };
            let mut pos = vec![a];
            let mut len = vec![];
            for _ in 0..n {
                let l = self.len();
                // zero length to another place: all longitudes of a pole, say
                let p = if l.v() == 0. && self.r.chance(1, 2) { pos.last().unwrap().clone() } else { self.pt(dim) };
                pos.push(p);
                len.push(l);
            }
            SegDef::Line { dim, pos, len }
        } else {
            let l = self.len();
            let e = if l.v() == 0. && self.r.chance(1, 2) { a.clone() } else { self.pt(dim) };
            let bump = if l.v() == 0. || self.r.chance(1, 2) { 0. } else { self.r.unit() * 10. };
            // longer or shorter in another CRS; without a length everywhere or nowhere
            let other = if l.v() == 0. || self.r.chance(1, 2) { l } else { self.len() };
            let other = if other.v() == 0. { l } else { other };
            SegDef::Script { dim, start: a, end: e, len: l, bump: F::of(bump), other }
        };
        self.segs.push(d);
        self.segs.len() as u32 - 1
    }
    fn arm(&mut self) -> Option<Arm> {
        if !self.r.chance(self.armed, 10) {
            return None;
        }
        let m = *self.r.pick(&[Method::Length, Method::Param, Method::Clone, Method::Start, Method::End, Method::Dim]);
        Some(Arm { m, nth: *self.r.pick(&[1, 1, 1, 2, 2, 3, 5]) })
    }
    fn spos(&mut self) -> SPos {
        match self.r.below(8) {
            0 => SPos::Frac(F::of(0.)),
            1 | 2 => SPos::Frac(F::of(1.)),
            3 => SPos::Back(0, -(self.r.range(1, 4) as i8)),
            4 => SPos::Knot(self.r.below(8) as u32, self.r.below(5) as i8 - 2),
            5 => SPos::Back(self.r.below(5) as u32, self.r.below(5) as i8 - 2),
            _ => SPos::Frac(F::of(self.r.unit())),
        }
    }
    fn put(&mut self, v: &mut Vec<CStep>, op: COp, arm: Option<Arm>) {
        self.uid += 1;
        v.push(CStep { uid: self.uid, op, arm });
    }
}
pub fn gen_c05(seed: u64) -> CurveCase {
    let mut r = Rng::new(seed);
    let dim = *r.pick(&[2, 2, 2, 3, 3, 1]);
    let n = r.range(1, 5);
    let lens = (0..n).map(|_| *r.pick(LENS)).collect();
    let (slots, armed) = (r.range(2, 4), *r.pick(&[0, 1, 1, 3]));
    let mut g = G { r, dim, pts: vec![], lens, segs: vec![], uid: 0, slots, armed };
    let mut v = vec![];
    // where each builder would end if nothing went wrong
    let mut ends: BTreeMap<u32, Vec<F>> = BTreeMap::new();
    let n = if g.r.chance(1, 25) { g.r.range(200, 600) } else { g.r.range(8, 80) };
    for _ in 0..n {
        let b = g.r.below(g.slots) as u32;
        let k = g.r.below(g.slots) as u32;
        let into = g.r.below(g.slots) as u32;
        let arm = g.arm();
        match g.r.below(40) {
            0..=4 => {
                let s = g.seg(None);
                ends.insert(b, g.segs[s as usize].end().to_vec());
                g.put(&mut v, COp::WithSeg { b, seg: s }, arm);
            }
            5..=17 => {
                let at = ends.get(&b).cloned();
                let at = if g.r.chance(1, 12) { None } else { at };
                let s = g.seg(at);
                ends.insert(b, g.segs[s as usize].end().to_vec());
                g.put(&mut v, COp::Append { b, seg: s }, arm);
            }
            18..=21 => {
                if let Some(e) = ends.get(&b).cloned() {
                    ends.insert(into, e);
                }
                g.put(&mut v, COp::CloneB { b, into }, arm);
            }
            22 => g.put(&mut v, COp::DropB { b }, arm),
            23..=26 => g.put(&mut v, COp::Build { b, c: k }, arm),
            27 | 28 => g.put(&mut v, COp::CloneC { c: k, into }, arm),
            29 => g.put(&mut v, COp::DropC { c: k }, arm),
            30..=32 => {
                let other = g.r.chance(1, 4);
                g.put(&mut v, COp::Query { c: k, other }, arm)
            }
            _ => {
                let (s, other) = (g.spos(), g.r.chance(1, 4));
                g.put(&mut v, COp::Param { c: k, s, other }, arm)
            }
        }
    }
    // one long connected curve, kept in a checkpoint while refused segments are tried on clones
    let mut n = if g.r.chance(1, 25) { g.r.range(50, 300) } else { g.r.range(1, 8) };
    let s = g.seg(None);
    let mut end = g.segs[s as usize].end().to_vec();
    let mut first = g.segs[s as usize].start().to_vec();
    if g.segs[s as usize].dim() != dim as usize {
        end = g.pt(dim);
        first = end.clone();
        let sd = SegDef::Script { dim, start: end.clone(), end: end.clone(), len: F::of(0.), bump: F::of(0.), other: F::of(0.) };
        g.segs[s as usize] = sd;
    }
    g.put(&mut v, COp::WithSeg { b: 50, seg: s }, None);
    for _ in 0..n {
        if g.r.chance(1, 3) {
            g.put(&mut v, COp::CloneB { b: 50, into: 51 }, None);
            let s = g.seg(None);
            let arm = g.arm();
            g.put(&mut v, COp::Append { b: 51, seg: s }, arm);
            if g.r.chance(1, 2) {
                g.put(&mut v, COp::Build { b: 51, c: 51 }, None);
                g.put(&mut v, COp::Query { c: 51, other: false }, None);
            }
        }
        let s = g.seg(Some(end.clone()));
        if !feq(g.segs[s as usize].start(), &end) {
            // it was moved away on purpose: try it on a clone, then go on where we were
            g.put(&mut v, COp::CloneB { b: 50, into: 52 }, None);
            g.put(&mut v, COp::Append { b: 52, seg: s }, None);
            continue;
        }
        end = g.segs[s as usize].end().to_vec();
        g.put(&mut v, COp::Append { b: 50, seg: s }, None);
    }
    if g.r.chance(1, 400) {
        // a closed loop, over and over
        let mut segs = vec![];
        let mut at = end.clone();
        for i in 0..g.r.range(1, 4) {
            let (l, other) = (F::of(g.r.unit()), F::of(g.r.unit()));
            let to = if i == 0 { at.clone() } else { g.pt(dim) };
            g.segs.push(SegDef::Script { dim, start: at, end: to.clone(), len: l, bump: F::of(0.), other });
            segs.push(g.segs.len() as u32 - 1);
            at = to;
        }
        g.segs.push(SegDef::Script { dim, start: at, end: end.clone(), len: F::of(1.), bump: F::of(0.), other: F::of(2.) });
        segs.push(g.segs.len() as u32 - 1);
        let k = *g.r.pick(&[5_000, 33_000, 66_000]) + g.r.below(2000) as u32;
        let k = k - k % segs.len() as u32;
        g.put(&mut v, COp::Many { b: 50, segs, n: k }, None);
        n += k as u64;
    }
    if g.r.chance(1, 4) {
        let l = g.len();
        g.segs.push(SegDef::Script { dim, start: end.clone(), end: first, len: l, bump: F::of(0.), other: l });
        let s = g.segs.len() as u32 - 1;
        g.put(&mut v, COp::Append { b: 50, seg: s }, None);
    }
    g.put(&mut v, COp::Build { b: 50, c: 50 }, None);
    for _ in 0..g.r.range(3, 10) {
        let arm = g.arm();
        let s = if g.r.chance(1, 3) { SPos::Knot(g.r.below(n + 2) as u32, g.r.below(5) as i8 - 2) } else { g.spos() };
        let other = g.r.chance(1, 4);
        g.put(&mut v, COp::Param { c: 50, s, other }, arm);
    }
    g.put(&mut v, COp::Query { c: 50, other: false }, None);
    let other = g.r.chance(1, 2);
    g.put(&mut v, COp::Query { c: 50, other }, None);
    CurveCase { dim, segs: g.segs, steps: v, env_seed: g.r.next() }
}
impl CurveCase {
    pub fn huge(&self) -> bool {
        self.steps.iter().any(|s| matches!(s.op, COp::Many { .. }))
    }
    pub fn simpler(&self, i: usize) -> Vec<CurveCase> {
        let s = &self.steps[i];
        let mut v = vec![];
        if s.arm.is_some() {
            let mut w = self.clone();
            w.steps[i].arm = None;
            v.push(w);
        }
        if let COp::Many { b, segs, n } = &s.op {
            for k in [n / 2, n - n / 4, n - n / 16, n - n / 256, n - 1] {
                if k < *n {
                    let mut w = self.clone();
                    w.steps[i].op = COp::Many { b: *b, segs: segs.clone(), n: k };
                    v.push(w);
                }
            }
        }
        if let COp::WithSeg { seg, .. } | COp::Append { seg, .. } = &s.op {
            if let SegDef::Line { dim, pos, len } = &self.segs[*seg as usize] {
                for k in 1..pos.len().min(8) {
                    if pos.len() > 2 && k + 1 < pos.len() {
                        let (mut p, mut l) = (pos.clone(), len.clone());
                        p.remove(k);
                        l.remove(k);
                        let mut w = self.clone();
                        w.segs[*seg as usize] = SegDef::Line { dim: *dim, pos: p, len: l };
                        v.push(w);
                    }
                }
            }
        }
        v
    }
    /// drops segments no step uses
    pub fn tidy(&self) -> CurveCase {
        let mut w = self.clone();
        let mut map = BTreeMap::new();
        let mut segs = vec![];
        let mut take = |k: &mut u32| {
            *k = *map.entry(*k).or_insert_with(|| {
                segs.push(self.segs[*k as usize].clone());
                segs.len() as u32 - 1
            })
        };
        for s in w.steps.iter_mut() {
            match &mut s.op {
                COp::WithSeg { seg, .. } | COp::Append { seg, .. } => take(seg),
                COp::Many { segs, .. } => segs.iter_mut().for_each(&mut take),
                _ => {}
            }
        }
        w.segs = segs;
        w
    }
}
