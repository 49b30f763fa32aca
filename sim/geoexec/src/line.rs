//! Building and querying line strings step by step, with a scripted CRS whose distance function
//! can fail, panic or re-enter (C04).
use crate::ops::{crs, crs_dim, payload, AnyCrs, CrsDef, F};
use geokit::crs::Crs;
use geokit::geometry::coordinate::curve::line_string::{LineString, LineStringBuilder};
use geokit::geometry::coordinate::curve::{CurveInterpolation, CurveSegment, ParameterizedCurve};
use geokit::quantities::length::Length;
use geokit::units::length::M;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum LCrs {
    Script { dim: u8 },
    Real(CrsDef),
}
impl LCrs {
    pub fn dim(&self) -> usize {
        match self {
            LCrs::Script { dim } => *dim as usize,
            LCrs::Real(c) => crs_dim(c),
        }
    }
}
/// What the scripted CRS does when asked for a distance during a step.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum DAct {
    Dist(F),
    Err(u8),
    Panic,
    /// perform other steps from inside the distance function, then go on
    Reenter(Vec<Step>, Box<DAct>),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum SPos {
    /// fraction of the reported length
    Frac(F),
    /// the first k segment lengths added up, moved by this many representable values
    Knot(u32, i8),
    /// the same seen from the end: reported length minus the last k segment lengths
    Back(u32, i8),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum SOp {
    WithLine { b: u32, from: Vec<F>, to: Vec<F> },
    LineTo { b: u32, to: Vec<F> },
    /// n lines in a row, to the places `many` makes; needs a scripted CRS
    Many { b: u32, n: u32, seed: u64 },
    CloneB { b: u32, into: u32 },
    DropB { b: u32 },
    Close { b: u32, line: u32 },
    Build { b: u32, line: u32 },
    CloneL { line: u32, into: u32 },
    DropL { line: u32 },
    Query { line: u32 },
    Param { line: u32, s: SPos },
    Eq { a: u32, b: u32 },
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Step {
    pub uid: u32,
    pub op: SOp,
    pub act: DAct,
}
/// the i-th place of a `Many` step and its distance from the one before
pub fn many(dim: usize, seed: u64, i: u32) -> (Vec<F>, F) {
    use simrt::rng::hash2;
    let h = hash2(seed, i as u64);
    let p = (0..dim).map(|k| F::of(((hash2(h, k as u64) >> 40) as f64) / 1024.)).collect();
    let l = if h % 97 == 0 { 0. } else { ((h >> 44) as f64) / 65536. };
    (p, F::of(l))
}
fn fold(h: u64, a: &[f64], b: &[f64]) -> u64 {
    use simrt::rng::hash2;
    let h = a.iter().fold(hash2(h, 1), |h, x| hash2(h, x.to_bits()));
    b.iter().fold(hash2(h, 2), |h, x| hash2(h, x.to_bits()))
}
pub const ERRS: [&str; 6] = [
    "scripted failure one",
    "scripted failure two",
    "Invalid coordinate dimension",
    "",
    "no geodesic",
    "a much longer scripted failure message, for good measure",
];
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum REnd {
    Ok,
    Skipped,
    Err(String),
    Panic(String),
}
/// What one step did.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Rec {
    pub uid: u32,
    pub end: REnd,
    pub dists: Vec<(Vec<F>, Vec<F>)>,
    pub vals: Vec<Vec<F>>,
    pub s: F,
    pub flag: bool,
    /// how many distances a `Many` step asked for, and a digest of them
    pub many: (u32, u64),
}
impl Rec {
    fn new(uid: u32) -> Rec {
        Rec { uid, end: REnd::Ok, dists: vec![], vals: vec![], s: F::of(0.), flag: false, many: (0, 0) }
    }
}
pub fn panic_text(uid: u32) -> String {
    format!("scripted panic in the distance function, step {uid}")
}
struct Ctx {
    crs: &'static dyn Crs,
    bs: RefCell<BTreeMap<u32, LineStringBuilder<'static>>>,
    ls: RefCell<BTreeMap<u32, Rc<LineString>>>,
    /// positions and lengths as acknowledged, to aim queries at the joints
    lens: RefCell<BTreeMap<u32, Vec<f64>>>,
    stack: RefCell<Vec<(Step, Rec)>>,
    recs: RefCell<Vec<Rec>>,
}
thread_local! {
    static CTX: RefCell<Option<Rc<Ctx>>> = const { RefCell::new(None) };
}
fn fs(x: &[f64]) -> Vec<F> {
    x.iter().map(|v| F::of(*v)).collect()
}
fn vs(x: &[F]) -> Vec<f64> {
    x.iter().map(|v| v.v()).collect()
}
#[derive(Debug)]
pub struct ScriptCrs {
    pub dim: usize,
}
impl Crs for ScriptCrs {
    fn id(&self) -> &str {
        "scripted"
    }
    fn dim(&self) -> usize {
        self.dim
    }
    fn dist(&self, a: &[f64], b: &[f64]) -> Result<Length, &'static str> {
        let c = match CTX.with(|c| c.borrow().clone()) {
            Some(c) => c,
            None => return Ok(1. * M),
        };
        let (uid, act) = match c.stack.borrow_mut().last_mut() {
            Some((s, r)) => {
                if let SOp::Many { seed, .. } = &s.op {
                    let i = r.many.0;
                    r.many = (i + 1, fold(r.many.1, a, b));
                    return Ok(many(self.dim, *seed, i).1.v() * M);
                }
                r.dists.push((fs(a), fs(b)));
                (s.uid, s.act.clone())
            }
            None => return Ok(1. * M),
        };
        let mut act = act;
        loop {
            match act {
                DAct::Dist(d) => return Ok(d.v() * M),
                DAct::Err(k) => return Err(ERRS[k as usize % ERRS.len()]),
                DAct::Panic => {
                    drop(c);
                    std::panic::resume_unwind(Box::new(panic_text(uid)))
                }
                DAct::Reenter(steps, then) => {
                    for s in &steps {
                        step(&c, s);
                    }
                    act = *then;
                }
            }
        }
    }
}
fn leak(d: &LCrs) -> &'static dyn Crs {
    match d {
        LCrs::Script { dim } => Box::leak(Box::new(ScriptCrs { dim: *dim as usize })),
        LCrs::Real(c) => match crs(c) {
            AnyCrs::Xyz(c) => Box::leak(Box::new(c)),
            AnyCrs::Geo(c) => Box::leak(Box::new(c)),
            AnyCrs::Prj(c) => Box::leak(Box::new(c)),
        },
    }
}
fn ulps(x: f64, k: i8) -> f64 {
    if k == 0 || !x.is_finite() {
        x
    } else if x <= 0. {
        x
    } else {
        f64::from_bits((x.to_bits() as i64 + k as i64) as u64)
    }
}
/// the distance asked for, in [0, length]
pub fn aim(s: &SPos, lens: &[f64], total: f64) -> f64 {
    let x = match s {
        SPos::Frac(f) => total * f.v(),
        SPos::Knot(k, u) => ulps(lens.iter().take(*k as usize).sum::<f64>(), *u),
        SPos::Back(k, u) => {
            let n = lens.len();
            ulps(total - lens.iter().skip(n.saturating_sub(*k as usize)).sum::<f64>(), *u)
        }
    };
    x.max(0.).min(total)
}
fn step(c: &Rc<Ctx>, s: &Step) {
    c.stack.borrow_mut().push((s.clone(), Rec::new(s.uid)));
    let depth = c.stack.borrow().len();
    let r = catch_unwind(AssertUnwindSafe(|| perform(c, s)));
    let mut st = c.stack.borrow_mut();
    st.truncate(depth);
    let (_, mut rec) = st.pop().unwrap();
    drop(st);
    match r {
        Ok((end, vals, q, flag)) => {
            rec.end = end;
            rec.vals = vals;
            rec.s = q;
            rec.flag = flag;
        }
        Err(p) => rec.end = REnd::Panic(payload(p)),
    }
    c.recs.borrow_mut().push(rec);
}
type Done = (REnd, Vec<Vec<F>>, F, bool);
fn perform(c: &Rc<Ctx>, s: &Step) -> Done {
    let no = F::of(0.);
    let ok: Done = (REnd::Ok, vec![], no, false);
    let skipped: Done = (REnd::Skipped, vec![], no, false);
    let take = |b: &u32| c.bs.borrow_mut().remove(b);
    let line = |l: &u32| c.ls.borrow().get(l).cloned();
    match &s.op {
        SOp::WithLine { b, from, to } => match LineStringBuilder::with_line(c.crs, vs(from), vs(to)) {
            Ok(x) => {
                let old = c.bs.borrow_mut().insert(*b, x);
                drop(old);
                ok
            }
            Err(e) => (REnd::Err(e.into()), vec![], no, false),
        },
        SOp::LineTo { b, to } => match take(b) {
            None => skipped,
            Some(x) => match x.line_to(vs(to)) {
                Ok(x) => {
                    c.bs.borrow_mut().insert(*b, x);
                    ok
                }
                Err(e) => (REnd::Err(e.into()), vec![], no, false),
            },
        },
        SOp::Many { b, n, seed } => match take(b) {
            None => skipped,
            Some(mut x) => {
                for i in 0..*n {
                    match x.line_to(vs(&many(c.crs.dim(), *seed, i).0)) {
                        Ok(y) => x = y,
                        Err(e) => return (REnd::Err(e.into()), vec![], no, false),
                    }
                }
                c.bs.borrow_mut().insert(*b, x);
                ok
            }
        },
        SOp::CloneB { b, into } => {
            let x = c.bs.borrow().get(b).cloned();
            match x {
                None => skipped,
                Some(x) => {
                    let old = c.bs.borrow_mut().insert(*into, x);
                    drop(old);
                    ok
                }
            }
        }
        SOp::DropB { b } => match take(b) {
            None => skipped,
            Some(x) => {
                drop(x);
                ok
            }
        },
        SOp::Close { b, line } => match take(b) {
            None => skipped,
            Some(x) => match x.close() {
                Ok(l) => {
                    c.ls.borrow_mut().insert(*line, Rc::new(l));
                    ok
                }
                Err(e) => (REnd::Err(e.into()), vec![], no, false),
            },
        },
        SOp::Build { b, line } => match take(b) {
            None => skipped,
            Some(x) => {
                c.ls.borrow_mut().insert(*line, Rc::new(x.build()));
                ok
            }
        },
        SOp::CloneL { line: l, into } => match line(l) {
            None => skipped,
            Some(x) => {
                let y = (*x).clone();
                c.ls.borrow_mut().insert(*into, Rc::new(y));
                ok
            }
        },
        SOp::DropL { line } => {
            let x = c.ls.borrow_mut().remove(line);
            if x.is_none() {
                return skipped;
            }
            ok
        }
        SOp::Query { line: l } => match line(l) {
            None => skipped,
            Some(x) => {
                let mut v = vec![vec![F::of(x.coord_dim() as f64)], fs(x.start()), fs(x.end()), vec![F::of(x.length(c.crs).m())]];
                if x.coord_dim() == 2 || x.coord_dim() == 3 {
                    let b = x.curve_boundary();
                    v.push(fs(&b.start));
                    v.push(fs(&b.end));
                }
                let lin = matches!(x.interpolation(), CurveInterpolation::Linear);
                (REnd::Ok, v, no, lin)
            }
        },
        SOp::Param { line: l, s } => match line(l) {
            None => skipped,
            Some(x) => {
                let total = x.length(c.crs).m();
                let at = aim(s, c.lens.borrow().get(l).map_or(&[][..], |v| v), total);
                let p = x.param(c.crs, at * M);
                (REnd::Ok, vec![fs(&p), vec![F::of(total)]], F::of(at), false)
            }
        },
        SOp::Eq { a, b } => match (line(a), line(b)) {
            (Some(x), Some(y)) => (REnd::Ok, vec![], no, *x == *y),
            _ => skipped,
        },
    }
}
/// Runs the steps; `lens` and `shapes` are the lines as the model knows them, given per step because
/// slots are reused.
pub fn run(d: &LCrs, steps: &[Step], lens: &Lens, shapes: &[Shape], each: &mut dyn FnMut(u32, bool)) -> Vec<Rec> {
    let c = Rc::new(Ctx {
        crs: leak(d),
        bs: RefCell::default(),
        ls: RefCell::default(),
        lens: RefCell::default(),
        stack: RefCell::default(),
        recs: RefCell::default(),
    });
    CTX.with(|x| *x.borrow_mut() = Some(c.clone()));
    for s in steps {
        if let Some(m) = lens.get(&s.uid) {
            *c.lens.borrow_mut() = m.iter().map(|(k, v)| (*k, vs(&shapes[*v as usize].len))).collect();
        }
        each(s.uid, true);
        step(&c, s);
        each(s.uid, false);
    }
    CTX.with(|x| *x.borrow_mut() = None);
    c.recs.take()
}
/// Distances of a built-in CRS, asked on their own.
pub fn real_dist(d: &LCrs, a: &[F], b: &[F]) -> Result<Result<F, String>, String> {
    let c = leak(d);
    match catch_unwind(AssertUnwindSafe(|| c.dist(&vs(a), &vs(b)))) {
        Ok(Ok(l)) => Ok(Ok(F::of(l.m()))),
        Ok(Err(e)) => Ok(Err(e.into())),
        Err(p) => Err(payload(p)),
    }
}

// ------------------------------------------------------------------ reference model
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Shape {
    pub pos: Vec<Vec<F>>,
    pub len: Vec<F>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum EEnd {
    Is(REnd),
    /// must be reported as an error, whatever its text
    AnyErr,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Expect {
    pub uid: u32,
    pub end: EEnd,
    pub dists: Vec<(Vec<F>, Vec<F>)>,
    pub many: (u32, u64),
    /// the line queried (both lines for an equality), in `Model::shapes`
    pub shape: Vec<u32>,
}
pub type Lens = BTreeMap<u32, BTreeMap<u32, u32>>;
#[derive(Default)]
pub struct Model {
    pub bs: BTreeMap<u32, Shape>,
    /// every line string ever built
    pub shapes: Vec<Shape>,
    /// slot -> built line string
    pub ls: BTreeMap<u32, u32>,
    pub out: Vec<Expect>,
    /// step -> line strings it may ask, by slot
    pub lens: Lens,
}
impl Model {
    fn built(&mut self, line: u32, x: Shape) {
        self.shapes.push(x);
        self.ls.insert(line, self.shapes.len() as u32 - 1);
    }
    fn dist(&mut self, d: &LCrs, s: &Step, a: &[F], b: &[F], e: &mut Expect) -> Option<F> {
        match d {
            LCrs::Real(_) => match real_dist(d, a, b) {
                Ok(Ok(v)) => Some(v),
                Ok(Err(t)) => {
                    e.end = EEnd::Is(REnd::Err(t));
                    None
                }
                Err(p) => {
                    e.end = EEnd::Is(REnd::Panic(p));
                    None
                }
            },
            LCrs::Script { .. } => {
                e.dists.push((a.to_vec(), b.to_vec()));
                let mut act = s.act.clone();
                loop {
                    match act {
                        DAct::Dist(v) => return Some(v),
                        DAct::Err(k) => {
                            e.end = EEnd::Is(REnd::Err(ERRS[k as usize % ERRS.len()].into()));
                            return None;
                        }
                        DAct::Panic => {
                            e.end = EEnd::Is(REnd::Panic(panic_text(s.uid)));
                            return None;
                        }
                        DAct::Reenter(steps, then) => {
                            for x in &steps {
                                self.step(d, x, false);
                            }
                            act = *then;
                        }
                    }
                }
            }
        }
    }
    pub fn step(&mut self, d: &LCrs, s: &Step, top: bool) {
        let mut e = Expect { uid: s.uid, end: EEnd::Is(REnd::Ok), dists: vec![], many: (0, 0), shape: vec![] };
        let skip = EEnd::Is(REnd::Skipped);
        let dim = d.dim();
        if top {
            // slots whose lengths a query in this step may aim with
            let all = matches!(s.act, DAct::Reenter(..));
            let one = match &s.op {
                SOp::Param { line, .. } => Some(*line),
                _ => None,
            };
            if all || one.is_some() {
                let m = self.ls.iter().filter(|(k, _)| all || one == Some(**k)).map(|(k, v)| (*k, *v)).collect();
                self.lens.insert(s.uid, m);
            }
        }
        match &s.op {
            SOp::WithLine { b, from, to } => {
                if from.len() != dim || to.len() != dim {
                    e.end = EEnd::AnyErr;
                } else if let Some(v) = self.dist(d, s, from, to, &mut e) {
                    self.bs.insert(*b, Shape { pos: vec![from.clone(), to.clone()], len: vec![v] });
                }
            }
            SOp::LineTo { b, to } => match self.bs.remove(b) {
                None => e.end = skip,
                Some(mut x) => {
                    if to.len() != dim {
                        e.end = EEnd::AnyErr;
                    } else {
                        let last = x.pos.last().unwrap().clone();
                        if let Some(v) = self.dist(d, s, &last, to, &mut e) {
                            x.pos.push(to.clone());
                            x.len.push(v);
                            self.bs.insert(*b, x);
                        }
                    }
                }
            },
            SOp::Many { b, n, seed } => match self.bs.remove(b) {
                None => e.end = skip,
                Some(mut x) => {
                    for i in 0..*n {
                        let (p, l) = many(dim, *seed, i);
                        e.many = (i + 1, fold(e.many.1, &vs(x.pos.last().unwrap()), &vs(&p)));
                        x.pos.push(p);
                        x.len.push(l);
                    }
                    self.bs.insert(*b, x);
                }
            },
            SOp::CloneB { b, into } => match self.bs.get(b).cloned() {
                None => e.end = skip,
                Some(x) => {
                    self.bs.insert(*into, x);
                }
            },
            SOp::DropB { b } => {
                if self.bs.remove(b).is_none() {
                    e.end = skip
                }
            }
            SOp::Close { b, line } => match self.bs.remove(b) {
                None => e.end = skip,
                Some(mut x) => {
                    let (last, first) = (x.pos.last().unwrap().clone(), x.pos[0].clone());
                    if let Some(v) = self.dist(d, s, &last, &first, &mut e) {
                        x.pos.push(first);
                        x.len.push(v);
                        self.built(*line, x);
                    }
                }
            },
            SOp::Build { b, line } => match self.bs.remove(b) {
                None => e.end = skip,
                Some(x) => self.built(*line, x),
            },
            SOp::CloneL { line, into } => match self.ls.get(line).copied() {
                None => e.end = skip,
                Some(x) => {
                    self.ls.insert(*into, x);
                }
            },
            SOp::DropL { line } => {
                if self.ls.remove(line).is_none() {
                    e.end = skip
                }
            }
            SOp::Query { line } | SOp::Param { line, .. } => match self.ls.get(line) {
                None => e.end = skip,
                Some(x) => e.shape.push(*x),
            },
            SOp::Eq { a, b } => match (self.ls.get(a), self.ls.get(b)) {
                (Some(x), Some(y)) => {
                    e.shape.push(*x);
                    e.shape.push(*y);
                }
                _ => e.end = skip,
            },
        }
        self.out.push(e);
    }
}
