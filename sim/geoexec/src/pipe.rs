//! Coordinate transformations built from real and scripted components, every component call
//! logged, every step able to fail, panic, stall or re-enter (C03).
use crate::ops::{crs, crs_dim, payload, AnyCrs, CrsDef, F};
use geokit::cs::cartesian::geocentric::XYZ;
use geokit::transformations::xyz::{CrsXYZTransformation, ToXYZ, ToXYZProvider, XYZIdentity, XYZTransformation};
use geokit::transformations::{CrsTransformation, TransformationError};
use geokit::units::length::M;
use serde::{Deserialize, Serialize};
use simrt::rng::hash2;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Side {
    Real(CrsDef),
    Script { dim: u8, salt: u64 },
}
impl Side {
    pub fn dim(&self) -> usize {
        match self {
            Side::Real(c) => crs_dim(c),
            Side::Script { dim, .. } => *dim as usize,
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Shift {
    Identity,
    Script { salt: u64 },
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct TDef {
    pub src: Side,
    pub dst: Side,
    pub s: Shift,
    pub d: Shift,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Act {
    Ok,
    /// succeed, with this value where a geocentric position is returned
    Value(F, F, F),
    /// report an error (a datum shift, which cannot, panics)
    Err,
    Panic,
    /// last step only: write some of the output, then report an error
    Partial,
    /// make another call from inside the component, then go on
    Reenter(Box<Call>, Box<Act>),
    /// give way to other threads this many times, then go on
    Stall(u8, Box<Act>),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Call {
    pub uid: u32,
    pub t: usize,
    pub fwd: bool,
    /// build the transformation anew for this call
    pub fresh: bool,
    pub coords: Vec<F>,
    /// output buffer is this much longer than the destination's dimension
    pub extra: u8,
    /// what the four components do during this call: source CRS, source shift, destination shift,
    /// destination CRS
    pub acts: Vec<Act>,
}
/// One consultation of a scripted component.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Ev {
    pub call: u32,
    pub role: u8,
    /// towards the reference
    pub to: bool,
    pub args: Vec<F>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum End {
    Ok,
    Err(String),
    Panic(String),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Res {
    pub uid: u32,
    pub end: End,
    pub buf: Vec<F>,
}
pub struct Ctx {
    defs: Vec<TDef>,
    ts: RefCell<Vec<Option<Rc<CrsXYZTransformation<'static>>>>>,
    stack: RefCell<Vec<Call>>,
    pub events: RefCell<Vec<Ev>>,
    pub results: RefCell<Vec<Res>>,
}
thread_local! {
    static CTX: RefCell<Option<Rc<Ctx>>> = const { RefCell::new(None) };
}
fn ctx() -> Rc<Ctx> {
    CTX.with(|c| c.borrow().as_ref().expect("no context").clone())
}
pub fn enter(defs: &[TDef]) -> Rc<Ctx> {
    let c = Rc::new(Ctx {
        defs: defs.to_vec(),
        ts: RefCell::new(defs.iter().map(|_| None).collect()),
        stack: RefCell::default(),
        events: RefCell::default(),
        results: RefCell::default(),
    });
    CTX.with(|x| *x.borrow_mut() = Some(c.clone()));
    c
}
pub fn leave() {
    CTX.with(|x| *x.borrow_mut() = None);
}
// ------------------------------------------------------------------ scripted components
pub fn fun(salt: u64, i: usize, args: &[F]) -> f64 {
    let mut h = hash2(salt, i as u64);
    for a in args {
        // every NaN counts as the same input
        h = hash2(h, if a.v().is_nan() { 7 } else { a.0 });
    }
    ((h >> 11) as f64 / (1u64 << 53) as f64 - 0.5) * 2e7
}
pub fn xyz_of(p: [f64; 3]) -> XYZ {
    XYZ { x: p[0] * M, y: p[1] * M, z: p[2] * M }
}
pub fn of_xyz(x: &XYZ) -> Vec<F> {
    vec![F::of(x.x.m()), F::of(x.y.m()), F::of(x.z.m())]
}
pub fn shift_fun(salt: u64, to: bool, a: &[F]) -> [f64; 3] {
    let s = hash2(salt, to as u64);
    [fun(s, 0, a), fun(s, 1, a), fun(s, 2, a)]
}
pub fn panic_text(uid: u32, role: u8) -> String {
    format!("scripted panic {uid}/{role}")
}
enum Do {
    Go(Option<[f64; 3]>),
    Fail,
    Partial,
}
fn consult(role: u8, to: bool, args: Vec<F>) -> Do {
    let c = ctx();
    let call = match c.stack.borrow().last() {
        Some(call) => call.clone(),
        None => {
            // consulted outside any call (for instance while being built): not a step
            return Do::Go(None);
        }
    };
    c.events.borrow_mut().push(Ev { call: call.uid, role, to, args });
    let mut act = &call.acts[role as usize];
    loop {
        match act {
            Act::Reenter(inner, then) => {
                run_call(&c, inner);
                act = then;
            }
            Act::Stall(n, then) => {
                for _ in 0..*n {
                    std::thread::yield_now();
                }
                act = then;
            }
            Act::Ok => return Do::Go(None),
            Act::Value(x, y, z) => return Do::Go(Some([x.v(), y.v(), z.v()])),
            Act::Err => return Do::Fail,
            Act::Partial => return Do::Partial,
            Act::Panic => {
                drop(c);
                std::panic::resume_unwind(Box::new(panic_text(call.uid, role)))
            }
        }
    }
}
fn side_to(role: u8, salt: u64, coords: &[f64]) -> Result<XYZ, TransformationError> {
    let a: Vec<F> = coords.iter().map(|x| F::of(*x)).collect();
    match consult(role, true, a.clone()) {
        Do::Go(Some(v)) => Ok(xyz_of(v)),
        Do::Go(None) => Ok(xyz_of([fun(salt, 0, &a), fun(salt, 1, &a), fun(salt, 2, &a)])),
        _ => Err(TransformationError::OutOfBounds),
    }
}
fn side_from(role: u8, dim: u8, salt: u64, xyz: XYZ, coords: &mut [f64]) -> Result<(), TransformationError> {
    let a = of_xyz(&xyz);
    match consult(role, false, a.clone()) {
        Do::Go(_) => {
            for i in 0..dim as usize {
                coords[i] = fun(salt ^ 0xf0, i, &a);
            }
            Ok(())
        }
        Do::Partial => {
            if let Some(c) = coords.first_mut() {
                *c = fun(salt ^ 0xf0, 0, &a);
            }
            Err(TransformationError::OutOfBounds)
        }
        Do::Fail => Err(TransformationError::OutOfBounds),
    }
}
struct ScriptSide {
    role: u8,
    dim: u8,
    salt: u64,
}
impl ToXYZ for ScriptSide {
    fn to_xyz(&self, coords: &[f64]) -> Result<XYZ, TransformationError> {
        side_to(self.role, self.salt, coords)
    }
    fn from_xyz(&self, xyz: XYZ, coords: &mut [f64]) -> Result<(), TransformationError> {
        side_from(self.role, self.dim, self.salt, xyz, coords)
    }
}
fn shift_go(role: u8, salt: u64, to: bool, p: XYZ) -> XYZ {
    let a = of_xyz(&p);
    let uid = ctx().stack.borrow().last().map_or(0, |c| c.uid);
    match consult(role, to, a.clone()) {
        Do::Go(Some(v)) => xyz_of(v),
        Do::Go(None) => xyz_of(shift_fun(salt, to, &a)),
        _ => std::panic::resume_unwind(Box::new(panic_text(uid, role))),
    }
}
struct ScriptShift {
    role: u8,
    salt: u64,
}
impl XYZTransformation for ScriptShift {
    fn to_ref(&self, p: XYZ) -> XYZ {
        shift_go(self.role, self.salt, true, p)
    }
    fn from_ref(&self, p: XYZ) -> XYZ {
        shift_go(self.role, self.salt, false, p)
    }
}
/// Components without any data of their own: what they are is looked up in the running call.
struct Bare<const ROLE: u8>;
fn bare(salt: u64) -> bool {
    salt % 4 == 0
}
impl<const ROLE: u8> Bare<ROLE> {
    fn what(&self) -> (u8, u64) {
        let c = ctx();
        let st = c.stack.borrow();
        let Some(call) = st.last() else { return (0, 0) };
        let d = &c.defs[call.t];
        match ROLE {
            0 | 3 => match if ROLE == 0 { &d.src } else { &d.dst } {
                Side::Script { dim, salt } => (*dim, *salt),
                _ => (0, 0),
            },
            _ => match if ROLE == 1 { &d.s } else { &d.d } {
                Shift::Script { salt } => (0, *salt),
                _ => (0, 0),
            },
        }
    }
}
impl<const ROLE: u8> ToXYZ for Bare<ROLE> {
    fn to_xyz(&self, coords: &[f64]) -> Result<XYZ, TransformationError> {
        let (_, salt) = self.what();
        side_to(ROLE, salt, coords)
    }
    fn from_xyz(&self, xyz: XYZ, coords: &mut [f64]) -> Result<(), TransformationError> {
        let (dim, salt) = self.what();
        side_from(ROLE, dim, salt, xyz, coords)
    }
}
impl<const ROLE: u8> XYZTransformation for Bare<ROLE> {
    fn to_ref(&self, p: XYZ) -> XYZ {
        let (_, salt) = self.what();
        shift_go(ROLE, salt, true, p)
    }
    fn from_ref(&self, p: XYZ) -> XYZ {
        let (_, salt) = self.what();
        shift_go(ROLE, salt, false, p)
    }
}
struct Prov {
    side: Side,
    role: u8,
}
impl ToXYZProvider for Prov {
    fn to_xyz_transformation<'a>(&self) -> Box<dyn ToXYZ + 'a> {
        match &self.side {
            Side::Real(d) => real(d),
            Side::Script { salt, .. } if bare(*salt) && self.role == 0 => Box::new(Bare::<0>),
            Side::Script { salt, .. } if bare(*salt) => Box::new(Bare::<3>),
            Side::Script { dim, salt } => Box::new(ScriptSide { role: self.role, dim: *dim, salt: *salt }),
        }
    }
}
pub fn real<'a>(d: &CrsDef) -> Box<dyn ToXYZ + 'a> {
    match crs(d) {
        AnyCrs::Xyz(c) => c.to_xyz_transformation(),
        AnyCrs::Geo(c) => c.to_xyz_transformation(),
        AnyCrs::Prj(c) => c.to_xyz_transformation(),
    }
}
fn make(d: &TDef) -> CrsXYZTransformation<'static> {
    let (s, e) = (Prov { side: d.src.clone(), role: 0 }, Prov { side: d.dst.clone(), role: 3 });
    // every mixture of components with data, without, and the library's own identity
    fn second<'a>(s: Prov, e: Prov, a: impl XYZTransformation + 'a, d: &Shift) -> CrsXYZTransformation<'a> {
        match d {
            Shift::Identity => CrsXYZTransformation::new(s, e, a, XYZIdentity),
            Shift::Script { salt } if bare(*salt) => CrsXYZTransformation::new(s, e, a, Bare::<2>),
            Shift::Script { salt } => CrsXYZTransformation::new(s, e, a, ScriptShift { role: 2, salt: *salt }),
        }
    }
    match &d.s {
        Shift::Identity => second(s, e, XYZIdentity, &d.d),
        Shift::Script { salt } if bare(*salt) => second(s, e, Bare::<1>, &d.d),
        Shift::Script { salt } => second(s, e, ScriptShift { role: 1, salt: *salt }, &d.d),
    }
}
/// what the caller left in the output buffer
pub fn sentinel(uid: u32, i: usize) -> f64 {
    match (uid as usize + i) % 7 {
        0 => f64::NAN,
        1 => -0.0,
        _ => -7777.25 - uid as f64 - 1000. * i as f64,
    }
}
pub fn run_call(c: &Rc<Ctx>, call: &Call) {
    let d = &c.defs[call.t];
    let t = {
        if call.fresh || c.ts.borrow()[call.t].is_none() {
            let depth = c.stack.borrow_mut().split_off(0);
            let made = catch_unwind(AssertUnwindSafe(|| make(d)));
            *c.stack.borrow_mut() = depth;
            match made {
                Ok(t) => {
                    let old = std::mem::replace(&mut c.ts.borrow_mut()[call.t], Some(Rc::new(t)));
                    drop(old);
                }
                Err(p) => {
                    c.results.borrow_mut().push(Res { uid: call.uid, end: End::Panic(format!("construction: {}", payload(p))), buf: vec![] });
                    return;
                }
            }
        }
        c.ts.borrow()[call.t].as_ref().unwrap().clone()
    };
    let dim = if call.fwd { d.dst.dim() } else { d.src.dim() };
    let input: Vec<f64> = call.coords.iter().map(|x| x.v()).collect();
    let mut buf: Vec<f64> = (0..dim + call.extra as usize).map(|i| sentinel(call.uid, i)).collect();
    c.stack.borrow_mut().push(call.clone());
    let depth = c.stack.borrow().len();
    let r = catch_unwind(AssertUnwindSafe(|| if call.fwd { t.fwd(&input, &mut buf) } else { t.bwd(&input, &mut buf) }));
    c.stack.borrow_mut().truncate(depth - 1);
    let end = match r {
        Ok(Ok(())) => End::Ok,
        Ok(Err(e)) => End::Err(format!("{e:?}")),
        Err(p) => End::Panic(payload(p)),
    };
    c.results.borrow_mut().push(Res { uid: call.uid, end, buf: buf.iter().map(|x| F::of(*x)).collect() });
}

// ------------------------------------------------------------------ reference model
/// What the four steps, applied by hand, give. Real components are asked on their own.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Expect {
    pub uid: u32,
    pub evs: Vec<Ev>,
    pub end: End,
    /// step that failed (0..4), 4 = none
    pub failed: u8,
    /// the destination's own coordinates
    pub out: Vec<F>,
}
fn settle(act: &Act, inner: &mut Vec<Call>) -> Act {
    match act {
        Act::Reenter(c, then) => {
            inner.push((**c).clone());
            settle(then, inner)
        }
        Act::Stall(_, then) => settle(then, inner),
        a => a.clone(),
    }
}
pub fn model(defs: &[TDef], call: &Call, out: &mut Vec<Expect>) {
    let d = &defs[call.t];
    let mut inner = vec![];
    let mut e = Expect { uid: call.uid, evs: vec![], end: End::Ok, failed: 4, out: vec![] };
    let roles: [u8; 4] = if call.fwd { [0, 1, 2, 3] } else { [3, 2, 1, 0] };
    let mut v: Vec<F> = call.coords.clone();
    for (step, role) in roles.iter().enumerate() {
        let to = step < 2;
        let side = match role {
            0 => Ok(&d.src),
            3 => Ok(&d.dst),
            1 => Err(&d.s),
            _ => Err(&d.d),
        };
        let scripted = matches!(side, Ok(Side::Script { .. }) | Err(Shift::Script { .. }));
        let act = if scripted {
            e.evs.push(Ev { call: call.uid, role: *role, to, args: v.clone() });
            settle(&call.acts[*role as usize], &mut inner)
        } else {
            Act::Ok
        };
        let fail = |e: &mut Expect, end: End| {
            e.end = end;
            e.failed = step as u8;
        };
        let oob = || End::Err(format!("{:?}", TransformationError::OutOfBounds));
        match side {
            Ok(Side::Script { dim, salt }) => match act {
                Act::Panic => {
                    fail(&mut e, End::Panic(panic_text(call.uid, *role)));
                    break;
                }
                Act::Err | Act::Partial => {
                    fail(&mut e, oob());
                    break;
                }
                Act::Value(x, y, z) if to => v = vec![x, y, z],
                _ if to => v = (0..3).map(|i| F::of(fun(*salt, i, &v))).collect(),
                _ => e.out = (0..*dim as usize).map(|i| F::of(fun(*salt ^ 0xf0, i, &v))).collect(),
            },
            Err(Shift::Script { salt }) => match act {
                Act::Panic | Act::Err | Act::Partial => {
                    fail(&mut e, End::Panic(panic_text(call.uid, *role)));
                    break;
                }
                Act::Value(x, y, z) => v = vec![x, y, z],
                _ => v = shift_fun(*salt, to, &v).iter().map(|x| F::of(*x)).collect(),
            },
            Err(Shift::Identity) => {}
            Ok(Side::Real(c)) => {
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let t = real(c);
                    if to {
                        let x: Vec<f64> = v.iter().map(|x| x.v()).collect();
                        t.to_xyz(&x).map(|p| of_xyz(&p))
                    } else {
                        let mut b = vec![0.; crs_dim(c)];
                        t.from_xyz(xyz_of([v[0].v(), v[1].v(), v[2].v()]), &mut b)
                            .map(|_| b.iter().map(|x| F::of(*x)).collect::<Vec<_>>())
                    }
                }));
                match r {
                    Ok(Ok(w)) => {
                        if to {
                            v = w
                        } else {
                            e.out = w
                        }
                    }
                    Ok(Err(x)) => {
                        fail(&mut e, End::Err(format!("{x:?}")));
                        break;
                    }
                    Err(p) => {
                        fail(&mut e, End::Panic(payload(p)));
                        break;
                    }
                }
            }
        }
    }
    for c in inner {
        model(defs, &c, out);
    }
    out.push(e);
}
