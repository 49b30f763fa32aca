//! Building and querying curves from line strings and scripted segments that can panic (C05).
use crate::line::{aim, REnd, SPos, ScriptCrs};
use crate::ops::{payload, F};
use geokit::crs::Crs;
use geokit::geometry::coordinate::curve::line_string::{LineString, LineStringBuilder};
use geokit::geometry::coordinate::curve::{CurveInterpolation, CurveSegment, ParameterizedCurve};
use geokit::geometry::primitive::curve::{Curve, CurveBoundary, CurveBuilder};
use geokit::geometry::primitive::point::Point;
use geokit::geometry::{Geometry, GeometryType};
use geokit::quantities::length::Length;
use geokit::units::length::M;
use serde::{Deserialize, Serialize};
use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum SegDef {
    Line { dim: u8, pos: Vec<Vec<F>>, len: Vec<F> },
    /// `other`: its length in the other CRS
    Script { dim: u8, start: Vec<F>, end: Vec<F>, len: F, bump: F, #[serde(default)] other: F },
}
impl SegDef {
    pub fn dim(&self) -> usize {
        match self {
            SegDef::Line { dim, .. } | SegDef::Script { dim, .. } => *dim as usize,
        }
    }
    pub fn start(&self) -> &[F] {
        match self {
            SegDef::Line { pos, .. } => &pos[0],
            SegDef::Script { start, .. } => start,
        }
    }
    pub fn end(&self) -> &[F] {
        match self {
            SegDef::Line { pos, .. } => pos.last().unwrap(),
            SegDef::Script { end, .. } => end,
        }
    }
    pub fn len(&self, in_other: bool) -> f64 {
        match self {
            SegDef::Line { len, .. } => len.iter().map(|l| l.v()).sum(),
            SegDef::Script { len, other, .. } => if in_other { other.v() } else { len.v() },
        }
    }
}
/// position of a scripted segment: straight line plus a bump that vanishes at both ends
pub fn script_pos(start: &[F], end: &[F], len: f64, bump: f64, s: f64) -> Vec<f64> {
    if s <= 0. {
        return start.iter().map(|x| x.v()).collect();
    }
    if s >= len {
        return end.iter().map(|x| x.v()).collect();
    }
    let t = s / len;
    start.iter().zip(end).map(|(a, b)| (1. - t) * a.v() + t * b.v() + bump * 4. * t * (1. - t)).collect()
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Method {
    Length,
    Param,
    Clone,
    Start,
    End,
    Dim,
}
/// During this step, the scripted segments panic on the n-th call of the method.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Arm {
    pub m: Method,
    pub nth: u8,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum COp {
    WithSeg { b: u32, seg: u32 },
    Append { b: u32, seg: u32 },
    /// these segments again and again, n in all
    Many { b: u32, segs: Vec<u32>, n: u32 },
    CloneB { b: u32, into: u32 },
    DropB { b: u32 },
    Build { b: u32, c: u32 },
    CloneC { c: u32, into: u32 },
    DropC { c: u32 },
    Query { c: u32, #[serde(default)] other: bool },
    Param { c: u32, s: SPos, #[serde(default)] other: bool },
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct CStep {
    pub uid: u32,
    pub op: COp,
    pub arm: Option<Arm>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct CRec {
    pub uid: u32,
    pub end: REnd,
    pub vals: Vec<Vec<F>>,
    pub s: F,
    pub flags: Vec<bool>,
    /// a scripted segment was asked for a distance outside [0, its length]
    pub outside: Vec<(F, F)>,
    pub fired: bool,
}
#[derive(Default)]
struct Live {
    uid: u32,
    arm: Option<Arm>,
    count: u8,
    fired: bool,
    outside: Vec<(F, F)>,
}
thread_local! {
    static LIVE: RefCell<Live> = RefCell::new(Live::default());
}
pub fn armed_text(uid: u32) -> String {
    format!("scripted segment panic, step {uid}")
}
fn touch(m: Method) {
    let fire = LIVE.with(|l| {
        let mut l = l.borrow_mut();
        match &l.arm {
            Some(a) if a.m == m => {
                let n = a.nth;
                l.count = l.count.saturating_add(1);
                if l.count == n {
                    l.fired = true;
                    return Some(l.uid);
                }
                None
            }
            _ => None,
        }
    });
    if let Some(uid) = fire {
        std::panic::resume_unwind(Box::new(armed_text(uid)))
    }
}
#[derive(Debug)]
struct Seg {
    dim: usize,
    start: Vec<F>,
    end: Vec<F>,
    startv: Vec<f64>,
    endv: Vec<f64>,
    len: f64,
    other: f64,
    bump: f64,
}
impl Seg {
    fn len(&self, crs: &dyn Crs) -> f64 {
        if crs.id() == "other" {
            self.other
        } else {
            self.len
        }
    }
}
impl Clone for Seg {
    fn clone(&self) -> Seg {
        touch(Method::Clone);
        Seg {
            dim: self.dim,
            start: self.start.clone(),
            end: self.end.clone(),
            startv: self.startv.clone(),
            endv: self.endv.clone(),
            len: self.len,
            other: self.other,
            bump: self.bump,
        }
    }
}
impl ParameterizedCurve for Seg {
    fn coord_dim(&self) -> usize {
        touch(Method::Dim);
        self.dim
    }
    fn start(&self) -> &[f64] {
        touch(Method::Start);
        &self.startv
    }
    fn end(&self) -> &[f64] {
        touch(Method::End);
        &self.endv
    }
    fn length(&self, crs: &dyn Crs) -> Length {
        touch(Method::Length);
        self.len(crs) * M
    }
    fn param(&self, crs: &dyn Crs, s: Length) -> Box<[f64]> {
        touch(Method::Param);
        let (s, len) = (s.m(), self.len(crs));
        if !(s >= 0. && s <= len) {
            LIVE.with(|l| l.borrow_mut().outside.push((F::of(s), F::of(len))));
            std::panic::resume_unwind(Box::new(format!("segment of length {len:?} asked for {s:?}")));
        }
        script_pos(&self.start, &self.end, len, self.bump, s).into_boxed_slice()
    }
    fn as_line_string(&self, _: &dyn Crs, _: Option<Length>, _: Option<Length>) -> LineString {
        unreachable!()
    }
}
impl CurveSegment for Seg {
    fn interpolation(&self) -> CurveInterpolation {
        CurveInterpolation::Geodesic
    }
    fn curve_boundary(&self) -> CurveBoundary {
        CurveBoundary { start: Point::new(&self.startv), end: Point::new(&self.endv) }
    }
}
/// another CRS of the same dimension, in which scripted segments have other lengths
#[derive(Debug)]
struct OtherCrs {
    dim: usize,
}
impl Crs for OtherCrs {
    fn id(&self) -> &str {
        "other"
    }
    fn dim(&self) -> usize {
        self.dim
    }
    fn dist(&self, _: &[f64], _: &[f64]) -> Result<Length, &'static str> {
        Ok(1. * M)
    }
}
/// a CRS that hands out the given distances one after the other
#[derive(Debug)]
struct ListCrs {
    dim: usize,
    lens: Vec<F>,
    next: RefCell<usize>,
}
impl Crs for ListCrs {
    fn id(&self) -> &str {
        "list"
    }
    fn dim(&self) -> usize {
        self.dim
    }
    fn dist(&self, _: &[f64], _: &[f64]) -> Result<Length, &'static str> {
        let mut n = self.next.borrow_mut();
        *n += 1;
        self.lens.get(*n - 1).map(|l| l.v() * M).ok_or("no more distances")
    }
}
enum AnySeg {
    L(LineString),
    S(Seg),
}
fn vs(x: &[F]) -> Vec<f64> {
    x.iter().map(|v| v.v()).collect()
}
fn fs(x: &[f64]) -> Vec<F> {
    x.iter().map(|v| F::of(*v)).collect()
}
fn make(d: &SegDef) -> Result<AnySeg, String> {
    match d {
        SegDef::Line { dim, pos, len } => {
            let c = ListCrs { dim: *dim as usize, lens: len.clone(), next: RefCell::new(0) };
            let mut b = LineStringBuilder::with_line(&c, vs(&pos[0]), vs(&pos[1]))?;
            for p in &pos[2..] {
                b = b.line_to(vs(p))?;
            }
            Ok(AnySeg::L(b.build()))
        }
        SegDef::Script { dim, start, end, len, bump, other } => Ok(AnySeg::S(Seg {
            dim: *dim as usize,
            start: start.clone(),
            end: end.clone(),
            startv: vs(start),
            endv: vs(end),
            len: len.v(),
            other: other.v(),
            bump: bump.v(),
        })),
    }
}
struct Ctx {
    crs: &'static dyn Crs,
    other: &'static dyn Crs,
    segs: Vec<SegDef>,
    bs: RefCell<BTreeMap<u32, CurveBuilder<'static>>>,
    cs: RefCell<BTreeMap<u32, Rc<Curve>>>,
    /// segments per builder and curve, only used to aim queries at the joints
    blen: RefCell<BTreeMap<u32, Vec<u32>>>,
    clen: RefCell<BTreeMap<u32, Vec<u32>>>,
}
type Done = (REnd, Vec<Vec<F>>, F, Vec<bool>);
fn perform(c: &Ctx, s: &CStep) -> Done {
    let no = F::of(0.);
    let ok: Done = (REnd::Ok, vec![], no, vec![]);
    let skipped: Done = (REnd::Skipped, vec![], no, vec![]);
    let err = |e: &str| -> Done { (REnd::Err(e.to_string()), vec![], F::of(0.), vec![]) };
    let arm = |on: bool| {
        LIVE.with(|l| {
            let mut l = l.borrow_mut();
            l.uid = s.uid;
            l.arm = if on { s.arm.clone() } else { None };
            if on {
                l.count = 0;
                l.fired = false;
                l.outside.clear();
            }
        })
    };
    let curve = |k: &u32| c.cs.borrow().get(k).cloned();
    arm(false);
    match &s.op {
        COp::WithSeg { b, seg } => {
            let x = match make(&c.segs[*seg as usize]) {
                Ok(x) => x,
                Err(_) => return skipped,
            };
            arm(true);
            let r = match x {
                AnySeg::L(x) => CurveBuilder::with_seg(c.crs, x),
                AnySeg::S(x) => CurveBuilder::with_seg(c.crs, x),
            };
            arm(false);
            match r {
                Ok(x) => {
                    let old = c.bs.borrow_mut().insert(*b, x);
                    drop(old);
                    c.blen.borrow_mut().insert(*b, vec![*seg]);
                    ok
                }
                Err(e) => err(e),
            }
        }
        COp::Append { b, seg } => {
            let x = match make(&c.segs[*seg as usize]) {
                Ok(x) => x,
                Err(_) => return skipped,
            };
            let taken = c.bs.borrow_mut().remove(b);
            let bd = match taken {
                Some(x) => x,
                None => return skipped,
            };
            arm(true);
            let r = match x {
                AnySeg::L(x) => bd.append_segment(x),
                AnySeg::S(x) => bd.append_segment(x),
            };
            arm(false);
            match r {
                Ok(x) => {
                    c.bs.borrow_mut().insert(*b, x);
                    c.blen.borrow_mut().entry(*b).or_default().push(*seg);
                    ok
                }
                Err(e) => err(e),
            }
        }
        COp::Many { b, segs, n } => {
            let taken = c.bs.borrow_mut().remove(b);
            let mut bd = match taken {
                Some(x) => x,
                None => return skipped,
            };
            for i in 0..*n {
                let k = segs[i as usize % segs.len()];
                let r = match make(&c.segs[k as usize]) {
                    Ok(AnySeg::L(x)) => bd.append_segment(x),
                    Ok(AnySeg::S(x)) => bd.append_segment(x),
                    Err(_) => return skipped,
                };
                match r {
                    Ok(x) => bd = x,
                    Err(e) => return err(e),
                }
            }
            c.bs.borrow_mut().insert(*b, bd);
            let mut bl = c.blen.borrow_mut();
            let l = bl.entry(*b).or_default();
            l.extend((0..*n).map(|i| segs[i as usize % segs.len()]));
            ok
        }
        COp::CloneB { b, into } => {
            let x = {
                let bs = c.bs.borrow();
                match bs.get(b) {
                    None => return skipped,
                    Some(x) => {
                        arm(true);
                        let y = x.clone();
                        arm(false);
                        y
                    }
                }
            };
            let old = c.bs.borrow_mut().insert(*into, x);
            drop(old);
            let l = c.blen.borrow().get(b).cloned().unwrap_or_default();
            c.blen.borrow_mut().insert(*into, l);
            ok
        }
        COp::DropB { b } => {
            let x = c.bs.borrow_mut().remove(b);
            if x.is_none() {
                return skipped;
            }
            ok
        }
        COp::Build { b, c: k } => {
            let taken = c.bs.borrow_mut().remove(b);
            match taken {
                None => skipped,
                Some(x) => {
                    arm(true);
                    let y = x.build();
                    arm(false);
                    let old = c.cs.borrow_mut().insert(*k, Rc::new(y));
                    drop(old);
                    let l = c.blen.borrow_mut().remove(b).unwrap_or_default();
                    c.clen.borrow_mut().insert(*k, l);
                    ok
                }
            }
        }
        COp::CloneC { c: k, into } => match curve(k) {
            None => skipped,
            Some(x) => {
                arm(true);
                let y = (*x).clone();
                arm(false);
                let old = c.cs.borrow_mut().insert(*into, Rc::new(y));
                drop(old);
                let l = c.clen.borrow().get(k).cloned().unwrap_or_default();
                c.clen.borrow_mut().insert(*into, l);
                ok
            }
        },
        COp::DropC { c: k } => {
            let x = c.cs.borrow_mut().remove(k);
            if x.is_none() {
                return skipped;
            }
            ok
        }
        COp::Query { c: k, other } => match curve(k) {
            None => skipped,
            Some(x) => {
                let crs = if *other { c.other } else { c.crs };
                arm(true);
                let mut v = vec![vec![F::of(x.coord_dim() as f64)], fs(x.start()), fs(x.end()), vec![F::of(x.length(crs).m())]];
                let cyc = x.is_cycle();
                let ty = x.geometry_type() == GeometryType::Curve(c.crs.dim());
                // the boundary of a one-dimensional curve has no points to be made of
                let mut flags = vec![cyc, ty];
                if c.crs.dim() > 1 {
                    match x.boundary() {
                        None => flags.push(false),
                        Some(b) => {
                            flags.push(true);
                            let g: &dyn Geometry = &*b;
                            flags.push(g.is_cycle() && g.boundary().is_none() && g.geometry_type() == GeometryType::Point(c.crs.dim()));
                            let any: &dyn Any = &*b;
                            if let Some(b) = any.downcast_ref::<CurveBoundary>() {
                                v.push(fs(&b.start));
                                v.push(fs(&b.end));
                            }
                        }
                    }
                }
                arm(false);
                (REnd::Ok, v, no, flags)
            }
        },
        COp::Param { c: k, s, other } => match curve(k) {
            None => skipped,
            Some(x) => {
                let crs = if *other { c.other } else { c.crs };
                let total = x.length(crs).m();
                let lens: Vec<f64> = c.clen.borrow().get(k).map_or(vec![], |v| v.iter().map(|i| c.segs[*i as usize].len(*other)).collect());
                let at = aim(s, &lens, total);
                arm(true);
                let p = x.param(crs, at * M);
                arm(false);
                (REnd::Ok, vec![fs(&p), vec![F::of(total)]], F::of(at), vec![])
            }
        },
    }
}
pub fn run(dim: usize, segs: &[SegDef], steps: &[CStep], each: &mut dyn FnMut(u32, bool)) -> Vec<CRec> {
    let c = Ctx { crs: Box::leak(Box::new(ScriptCrs { dim })), other: Box::leak(Box::new(OtherCrs { dim })), segs: segs.to_vec(), bs: RefCell::default(), cs: RefCell::default(), blen: RefCell::default(), clen: RefCell::default() };
    let mut recs = vec![];
    for s in steps {
        each(s.uid, true);
        LIVE.with(|l| *l.borrow_mut() = Live::default());
        let r = catch_unwind(AssertUnwindSafe(|| perform(&c, s)));
        let live = LIVE.with(|l| std::mem::take(&mut *l.borrow_mut()));
        let mut rec = CRec { uid: s.uid, end: REnd::Ok, vals: vec![], s: F::of(0.), flags: vec![], outside: live.outside, fired: live.fired };
        match r {
            Ok((e, v, q, f)) => {
                rec.end = e;
                rec.vals = v;
                rec.s = q;
                rec.flags = f;
            }
            Err(p) => rec.end = REnd::Panic(payload(p)),
        }
        recs.push(rec);
        each(s.uid, false);
    }
    recs
}

