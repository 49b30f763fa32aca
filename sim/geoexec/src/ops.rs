//! Definitions, queries and their execution against the real library.
use geokit::cs::azimuth::Azimuth;
use geokit::cs::cartesian::geocentric::{GeocentricAxes, XYZ};
use geokit::cs::cartesian::projected::{ProjectedAxes, ProjectedTolerance, ENH};
use geokit::cs::cartesian::CartesianTolerance;
use geokit::cs::geodetic::{GeodeticAxes, GeodeticTolerance, Lat, Lon, LLH};
use geokit::cs::s1::Interval;
use geokit::crs::{geocentric::GeocentricCrs, geographic::GeographicCrs, projected::ProjectedCrs, Crs};
use geokit::geodesy::geodesics::{
    karney::KarneyGeodesicSolver, rapp::RappIterativeGeodisicSolver, vincenty::VincentyGeodesicSolver, Geodesic,
    GeodesicSolver,
};
use geokit::geodesy::{ellipsoid, geodetic_datum, prime_meridian, Ellipsoid, GeodeticDatum, PrimeMeridian};
use geokit::geometry::coordinate::curve::line_string::{LineString, LineStringBuilder};
use geokit::geometry::coordinate::curve::{CurveInterpolation, CurveSegment, ParameterizedCurve};
use geokit::geometry::primitive::curve::{Curve, CurveBoundary, CurveBuilder};
use geokit::geometry::primitive::point::Point;
use geokit::geometry::{Geometry, GeometryType};
use geokit::math::complex::Complex;
use geokit::math::polynomial::Polynomial;
use geokit::projections::{Projection, ProjectionSpec};
use geokit::quantities::angle::Angle;
use geokit::quantities::length::{ArcLength, Length};
use geokit::transformations::xyz::{CrsXYZTransformation, ToXYZProvider, XYZIdentity, XYZTransformation};
use geokit::transformations::CrsTransformation;
use geokit::units::angle::{AngleUnit, DEG, GRAD, RAD, SEC};
use geokit::units::length::{LengthUnit, FT, M, US_FT};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

// ------------------------------------------------------------------ values
#[derive(Default, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct F(pub u64);
impl F {
    pub fn of(x: f64) -> F {
        F(x.to_bits())
    }
    pub fn v(self) -> f64 {
        f64::from_bits(self.0)
    }
}
impl std::fmt::Debug for F {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.v())
    }
}
impl Serialize for F {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("{:016x}={:?}", self.0, self.v()))
    }
}
impl<'de> Deserialize<'de> for F {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<F, D::Error> {
        let s = String::deserialize(d)?;
        u64::from_str_radix(s.split('=').next().unwrap(), 16).map(F).map_err(serde::de::Error::custom)
    }
}
pub fn vs(x: &[F]) -> Vec<f64> {
    x.iter().map(|f| f.v()).collect()
}

// ------------------------------------------------------------------ definitions
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum EllDef {
    Const(u8),
    Ab { name: String, a: F, b: F },
    Ainvf { name: String, a: F, invf: F },
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum PmDef {
    Const(u8),
    New { name: String, lon: F },
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum DatumDef {
    Const(u8),
    New { id: String, ell: EllDef, pm: PmDef },
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum ProjDef {
    M1 { lon0: F, k0: F, fe: F, fn_: F },
    M2 { lon0: F, lat0: F, fe: F, fn_: F },
    UtmN(u8),
    UtmS(u8),
    Tm { lon0: F, lat0: F, k0: F, fe: F, fn_: F },
    Web { lon0: F, lat0: F, fe: F, fn_: F },
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum CrsDef {
    Xyz { id: String, datum: DatumDef },
    Geo { id: String, datum: DatumDef, axes: u8, au: u8, lu: u8 },
    Prj { id: String, datum: DatumDef, axes: u8, hu: u8, vu: u8, proj: ProjDef },
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum ObjDef {
    Ell(EllDef),
    Pm(PmDef),
    Datum(DatumDef),
    Crs(CrsDef),
    Proj { spec: ProjDef, ell: EllDef },
    Solver { kind: u8, ell: EllDef },
    Tfm { src: CrsDef, dst: CrsDef },
    Line { crs: CrsDef, pos: Vec<F> },
    Curve { crs: CrsDef, segs: Vec<Vec<F>> },
}

pub const N_ELL: u8 = 14;
pub fn ell(d: &EllDef) -> Ellipsoid {
    use ellipsoid::consts::*;
    match d {
        EllDef::Const(i) => match i % N_ELL {
            0 => WGS84,
            1 => GRS80,
            2 => INTL,
            3 => AIRY,
            4 => BESSEL,
            5 => CLRK66,
            6 => CLRK80,
            7 => KRASS,
            8 => MPRTS,
            9 => EVRST30,
            10 => SPHERE,
            11 => WGS72,
            12 => APL_4_9,
            _ => MERIT,
        },
        EllDef::Ab { name, a, b } => Ellipsoid::from_ab(name, a.v() * M, b.v() * M),
        EllDef::Ainvf { name, a, invf } => Ellipsoid::from_ainvf(name, a.v() * M, invf.v()),
    }
}
pub const N_PM: u8 = 14;
pub fn pm(d: &PmDef) -> PrimeMeridian {
    use prime_meridian::consts::*;
    match d {
        PmDef::Const(i) => match i % N_PM {
            0 => GREENWICH,
            1 => PARIS,
            2 => LISBON,
            3 => BOGOTA,
            4 => MADRID,
            5 => ROME,
            6 => BERN,
            7 => JAKARTA,
            8 => FERRO,
            9 => BRUSSELS,
            10 => STOCKHOLM,
            11 => ATHENS,
            12 => OSLO,
            _ => COPENHAGEN,
        },
        PmDef::New { name, lon } => PrimeMeridian::new(name, Lon::deg(lon.v())),
    }
}
pub fn datum(d: &DatumDef) -> GeodeticDatum {
    use geodetic_datum::consts::*;
    match d {
        DatumDef::Const(i) => match i % 4 {
            0 => WGS84,
            1 => GGRS87,
            2 => NAD83,
            _ => RNB72,
        },
        DatumDef::New { id, ell: e, pm: p } => GeodeticDatum::new(id, ell(e), pm(p)),
    }
}
pub fn au(i: u8) -> AngleUnit {
    match i % 5 {
        0 => DEG,
        1 => RAD,
        2 => GRAD,
        3 => SEC,
        _ => AngleUnit(std::f64::consts::PI, 3200.0),
    }
}
pub fn lu(i: u8) -> LengthUnit {
    match i % 4 {
        0 => M,
        1 => FT,
        2 => US_FT,
        _ => LengthUnit(1000.0, 1.0),
    }
}
pub fn proj(d: &ProjDef) -> ProjectionSpec {
    match *d {
        ProjDef::M1 { lon0, k0, fe, fn_ } => ProjectionSpec::Mercator1SP {
            lon0: Lon::deg(lon0.v()),
            k0: k0.v(),
            false_easting: fe.v() * M,
            false_northing: fn_.v() * M,
        },
        ProjDef::M2 { lon0, lat0, fe, fn_ } => ProjectionSpec::Mercator2SP {
            lon0: Lon::deg(lon0.v()),
            lat0: Lat::deg(lat0.v()),
            false_easting: fe.v() * M,
            false_northing: fn_.v() * M,
        },
        ProjDef::UtmN(z) => ProjectionSpec::UTMNorth { zone: z },
        ProjDef::UtmS(z) => ProjectionSpec::UTMSouth { zone: z },
        ProjDef::Tm { lon0, lat0, k0, fe, fn_ } => ProjectionSpec::TransverseMercator {
            lon0: Lon::deg(lon0.v()),
            lat0: Lat::deg(lat0.v()),
            k0: k0.v(),
            false_easting: fe.v() * M,
            false_northing: fn_.v() * M,
        },
        ProjDef::Web { lon0, lat0, fe, fn_ } => ProjectionSpec::WebMercator {
            lon0: Lon::deg(lon0.v()),
            lat0: Lat::deg(lat0.v()),
            false_easting: fe.v() * M,
            false_northing: fn_.v() * M,
        },
    }
}
pub fn geo_axes(axes: u8, a: u8, l: u8) -> GeodeticAxes {
    match axes % 5 {
        0 => GeodeticAxes::EastNorthUp { angle_unit: au(a), height_unit: lu(l) },
        1 => GeodeticAxes::NorthEastUp { angle_unit: au(a), height_unit: lu(l) },
        2 => GeodeticAxes::EastNorth { angle_unit: au(a) },
        3 => GeodeticAxes::NorthEast { angle_unit: au(a) },
        _ => GeodeticAxes::NorthWest { angle_unit: au(a) },
    }
}
pub fn prj_axes(axes: u8, h: u8, v: u8) -> ProjectedAxes {
    match axes % 2 {
        0 => ProjectedAxes::EastNorthUp { horiz_unit: lu(h), height_unit: lu(v) },
        _ => ProjectedAxes::EastNorth { horiz_unit: lu(h) },
    }
}
pub enum AnyCrs {
    Xyz(GeocentricCrs),
    Geo(GeographicCrs),
    Prj(ProjectedCrs),
}
impl Clone for AnyCrs {
    fn clone(&self) -> Self {
        match self {
            AnyCrs::Xyz(c) => AnyCrs::Xyz(c.clone()),
            AnyCrs::Geo(c) => AnyCrs::Geo(c.clone()),
            AnyCrs::Prj(c) => AnyCrs::Prj(c.clone()),
        }
    }
}
impl AnyCrs {
    pub fn crs(&self) -> &dyn Crs {
        match self {
            AnyCrs::Xyz(c) => c,
            AnyCrs::Geo(c) => c,
            AnyCrs::Prj(c) => c,
        }
    }
}
impl ToXYZProvider for &AnyCrs {
    fn to_xyz_transformation<'a>(&self) -> Box<dyn geokit::transformations::xyz::ToXYZ + 'a> {
        match self {
            AnyCrs::Xyz(c) => c.to_xyz_transformation(),
            AnyCrs::Geo(c) => c.to_xyz_transformation(),
            AnyCrs::Prj(c) => c.to_xyz_transformation(),
        }
    }
}
pub fn crs_dim(d: &CrsDef) -> usize {
    match d {
        CrsDef::Xyz { .. } => 3,
        CrsDef::Geo { axes, .. } => {
            if axes % 5 < 2 {
                3
            } else {
                2
            }
        }
        CrsDef::Prj { axes, .. } => {
            if axes % 2 == 0 {
                3
            } else {
                2
            }
        }
    }
}
pub fn crs(d: &CrsDef) -> AnyCrs {
    match d {
        CrsDef::Xyz { id, datum: dd } => {
            AnyCrs::Xyz(GeocentricCrs { id: id.as_str().into(), datum: datum(dd), axes: GeocentricAxes::XYZ })
        }
        CrsDef::Geo { id, datum: dd, axes, au, lu } => {
            AnyCrs::Geo(GeographicCrs { id: id.as_str().into(), datum: datum(dd), axes: geo_axes(*axes, *au, *lu) })
        }
        CrsDef::Prj { id, datum: dd, axes, hu, vu, proj: p } => AnyCrs::Prj(ProjectedCrs {
            id: id.as_str().into(),
            datum: datum(dd),
            axes: prj_axes(*axes, *hu, *vu),
            projection: proj(p),
        }),
    }
}

pub enum AnySolver {
    V(VincentyGeodesicSolver<'static>),
    R(RappIterativeGeodisicSolver<'static>),
    K(KarneyGeodesicSolver<'static>),
}
impl AnySolver {
    fn s(&self) -> &dyn GeodesicSolver {
        match self {
            AnySolver::V(s) => s,
            AnySolver::R(s) => s,
            AnySolver::K(s) => s,
        }
    }
}
/// A solver with the ellipsoid it borrows; the solver is dropped first (field order).
pub struct OwnSolver {
    solver: AnySolver,
    #[allow(dead_code)]
    ell: Box<Ellipsoid>,
}
pub enum Obj {
    Ell(Ellipsoid),
    Pm(PrimeMeridian),
    Datum(GeodeticDatum),
    Crs(AnyCrs),
    Proj(Box<dyn Projection>),
    Solver(OwnSolver),
    Tfm(CrsXYZTransformation<'static>, usize, usize),
    Line(AnyCrs, LineString),
    Curve(Box<AnyCrs>, Curve),
}
pub fn sharable_kind(d: &ObjDef) -> bool {
    match d {
        ObjDef::Ell(_) => shareable!(Ellipsoid),
        ObjDef::Pm(_) => shareable!(PrimeMeridian),
        ObjDef::Datum(_) => shareable!(GeodeticDatum),
        ObjDef::Crs(CrsDef::Xyz { .. }) => shareable!(GeocentricCrs),
        ObjDef::Crs(CrsDef::Geo { .. }) => shareable!(GeographicCrs),
        ObjDef::Crs(CrsDef::Prj { .. }) => shareable!(ProjectedCrs),
        ObjDef::Solver { kind, .. } => match kind % 3 {
            0 => shareable!(VincentyGeodesicSolver<'static>),
            1 => shareable!(RappIterativeGeodisicSolver<'static>),
            _ => shareable!(KarneyGeodesicSolver<'static>),
        },
        ObjDef::Line { .. } => {
            shareable!(LineString) && shareable!(GeocentricCrs) && shareable!(GeographicCrs) && shareable!(ProjectedCrs)
        }
        ObjDef::Proj { .. } | ObjDef::Tfm { .. } | ObjDef::Curve { .. } => false,
    }
}
impl Drop for Obj {
    fn drop(&mut self) {}
}
/// `Err` = the library refused (a legal outcome, e.g. no geodesic between nearly antipodal points).
pub fn build(d: &ObjDef) -> Result<Obj, String> {
    Ok(match d {
        ObjDef::Ell(e) => Obj::Ell(ell(e)),
        ObjDef::Pm(p) => Obj::Pm(pm(p)),
        ObjDef::Datum(x) => Obj::Datum(datum(x)),
        ObjDef::Crs(c) => Obj::Crs(crs(c)),
        ObjDef::Proj { spec, ell: e } => Obj::Proj(proj(spec).applied_to(&ell(e))),
        ObjDef::Solver { kind, ell: e } => {
            let b = Box::new(ell(e));
            let r: &'static Ellipsoid = unsafe { &*(&*b as *const Ellipsoid) };
            let solver = match kind % 3 {
                0 => AnySolver::V(VincentyGeodesicSolver::new(r)),
                1 => AnySolver::R(RappIterativeGeodisicSolver::new(r)),
                _ => AnySolver::K(KarneyGeodesicSolver::new(r)),
            };
            Obj::Solver(OwnSolver { solver, ell: b })
        }
        ObjDef::Tfm { src, dst } => {
            let (a, b) = (crs(src), crs(dst));
            let t = CrsXYZTransformation::new(&a, &b, XYZIdentity, XYZIdentity);
            Obj::Tfm(t, crs_dim(src), crs_dim(dst))
        }
        ObjDef::Line { crs: c, pos } => {
            let cc = crs(c);
            let l = line(cc.crs(), &vs(pos))?;
            Obj::Line(cc, l)
        }
        ObjDef::Curve { crs: c, segs } => {
            let cc = Box::new(crs(c));
            let mut b = CurveBuilder::with_seg(cc.crs(), line(cc.crs(), &vs(&segs[0]))?).map_err(String::from)?;
            for s in &segs[1..] {
                b = b.append_segment(line(cc.crs(), &vs(s))?).map_err(String::from)?;
            }
            let k = b.build();
            Obj::Curve(cc, k)
        }
    })
}
pub fn line(c: &dyn Crs, pos: &[f64]) -> Result<LineString, String> {
    let d = c.dim();
    let mut b = LineStringBuilder::with_line(c, &pos[0..d], &pos[d..2 * d]).map_err(String::from)?;
    let mut i = 2 * d;
    while i + d <= pos.len() {
        b = b.line_to(&pos[i..i + d]).map_err(String::from)?;
        i += d;
    }
    Ok(b.build())
}

// ------------------------------------------------------------------ queries
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum How {
    Shared,
    Fresh,
    Clone,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Then {
    Ok,
    Panic,
    Err,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
    // ellipsoid
    EllGet,
    EllLat(F),
    EllBad { a: F, b: F },
    // prime meridian, datum
    PmGet,
    DatumGet,
    DatumEq(DatumDef),
    LlhToXyz([F; 3]),
    XyzToLlh([F; 3]),
    // CRS
    CrsInfo,
    CrsDist(Vec<F>, Vec<F>),
    CrsApprox(Vec<F>, Vec<F>, Vec<F>),
    AxesRound(Vec<F>),
    ToXyz(Vec<F>),
    FromXyz([F; 3]),
    // projection
    Project([F; 3]),
    Unproject([F; 3]),
    // solver
    Direct([F; 4]),
    Inverse([F; 4]),
    // transformation
    Fwd(Vec<F>),
    Bwd(Vec<F>),
    // geometry
    LineGet,
    LineParam(F),
    LineExtend(Vec<F>),
    LineParamAt(F),
    CurveGet,
    CurveParam(F),
    PointOps(Vec<F>),
    // values
    AngleOps(F, F),
    LonOps(F, F),
    LatOps(F, F),
    AzOps(F, F),
    Dms(F, F, F),
    LenOps(F, F),
    IntervalOps(F, F),
    PolyOps(Vec<F>, F),
    ComplexOps([F; 4]),
    FpOps(Vec<F>, F),
    Iter(F, F, F),
    Assign(F, F),
    Approx([F; 6], F),
    /// the object in words
    Show,
    /// a call with buffers of any size: the wrong ones are a legal panic
    Sized { k: u8, a: Vec<F>, b: Vec<F>, n: u8 },
    // caller-supplied components, faults and re-entrancy
    NestedFwd { coords: Vec<F>, at: u8, inner: Option<Box<Query>>, then: Then },
    NestedBuild { pos: Vec<F>, at: u8, inner: Option<Box<Query>>, then: Then },
    /// builders driven by a script of steps, some of them refused, panicking or abandoned
    Chain { pos: Vec<F>, script: Vec<u8> },
    /// the call made by a destructor while its thread unwinds from a panic of its own
    Unwinding(Box<Op>),
    /// the same call many times; the outcome is the last one's (and whether all were equal)
    Burst { n: u32, op: Box<Op> },
    /// the call with `n` different arguments (and definitions, if `defs`), then the call itself;
    /// the outcome is the last one's
    Sweep { n: u32, defs: bool, op: Box<Op> },
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Query {
    pub uid: u32,
    pub obj: usize,
    pub how: How,
    pub op: Op,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Outcome {
    Ret(Vec<u64>, String),
    Panic(String),
}
impl Outcome {
    pub fn class(&self) -> &'static str {
        match self {
            Outcome::Ret(_, s) if s.contains("Err(") => "error",
            Outcome::Ret(..) => "value",
            Outcome::Panic(_) => "panic",
        }
    }
    pub fn show(&self) -> String {
        match self {
            Outcome::Ret(w, s) => {
                let v: Vec<String> = w.iter().take(12).map(|b| format!("{:?}", f64::from_bits(*b))).collect();
                format!("[{}] {}", v.join(", "), s.chars().take(200).collect::<String>())
            }
            Outcome::Panic(s) => format!("panic: {}", s.chars().take(200).collect::<String>()),
        }
    }
}
#[derive(Default)]
pub struct Out {
    w: Vec<u64>,
    s: String,
}
impl Out {
    fn f(&mut self, x: f64) -> &mut Self {
        self.w.push(if x.is_nan() { f64::NAN.to_bits() } else { x.to_bits() });
        self
    }
    fn fs(&mut self, x: &[f64]) -> &mut Self {
        for v in x {
            self.f(*v);
        }
        self
    }
    fn b(&mut self, x: bool) -> &mut Self {
        self.w.push(x as u64);
        self
    }
    fn t(&mut self, x: &str) -> &mut Self {
        self.s.push_str(x);
        self.s.push(';');
        self
    }
    fn ang(&mut self, a: Angle) -> &mut Self {
        self.f(a.rad())
    }
    fn geod(&mut self, g: Result<Geodesic, &'static str>) -> &mut Self {
        match g {
            Ok(g) => {
                self.ang(g.p1.0.angle()).ang(g.p1.1.angle()).ang(g.alpha1.angle());
                self.ang(g.p2.0.angle()).ang(g.p2.1.angle()).ang(g.alpha2.angle()).f(g.s.m())
            }
            Err(e) => self.t(&format!("Err({e})")),
        }
    }
    fn llh(&mut self, l: LLH) -> &mut Self {
        self.ang(l.lon.angle()).ang(l.lat.angle()).f(l.height.m())
    }
    fn xyz(&mut self, l: XYZ) -> &mut Self {
        self.f(l.x.m()).f(l.y.m()).f(l.z.m())
    }
    fn enh(&mut self, l: ENH) -> &mut Self {
        self.f(l.easting.m()).f(l.northing.m()).f(l.height.m())
    }
}
pub fn payload(p: Box<dyn std::any::Any + Send>) -> String {
    let s = if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<&'static str>() {
        s.to_string()
    } else {
        "<other payload>".into()
    };
    // dropping the payload may run library code; do it before returning
    drop(p);
    s
}

/// Per-thread view of the objects of a run.
pub struct Env {
    pub defs: *const Vec<ObjDef>,
    pub shared: *const Vec<Option<Obj>>,
    pub local: RefCell<Vec<Option<Box<Obj>>>>,
    pub depth: RefCell<u32>,
    /// outcomes of calls made from inside caller-supplied components
    pub inner: RefCell<Vec<(u32, Outcome)>>,
}
impl Env {
    pub fn new(defs: *const Vec<ObjDef>, shared: *const Vec<Option<Obj>>) -> Env {
        let n = unsafe { (&*defs).len() };
        Env { defs, shared, local: RefCell::new((0..n).map(|_| None).collect()), depth: RefCell::new(0), inner: RefCell::new(vec![]) }
    }
    fn def(&self, i: usize) -> &ObjDef {
        let v: &Vec<ObjDef> = unsafe { &*self.defs };
        &v[i]
    }
    fn with<R>(&self, q_obj: usize, how: How, f: impl FnOnce(&Obj) -> R) -> Result<R, String> {
        if how == How::Shared || how == How::Clone {
            let sh = unsafe { &*self.shared };
            let o: &Obj = if let Some(Some(o)) = sh.get(q_obj) {
                o
            } else {
                // not shareable: one persistent object per thread
                let missing = self.local.borrow()[q_obj].is_none();
                if missing {
                    let b = Box::new(build(self.def(q_obj))?);
                    self.local.borrow_mut()[q_obj] = Some(b);
                }
                let p: *const Obj = &**self.local.borrow()[q_obj].as_ref().unwrap();
                unsafe { &*p }
            };
            if how == How::Clone {
                if let Some(c) = clone_obj(o) {
                    let r = f(&c);
                    return Ok(r);
                }
            }
            return Ok(f(o));
        }
        let o = build(self.def(q_obj))?;
        Ok(f(&o))
    }
}
fn clone_obj(o: &Obj) -> Option<Obj> {
    Some(match o {
        Obj::Ell(x) => Obj::Ell(x.clone()),
        Obj::Pm(x) => Obj::Pm(x.clone()),
        Obj::Datum(x) => Obj::Datum(x.clone()),
        Obj::Crs(x) => Obj::Crs(x.clone()),
        Obj::Line(c, l) => Obj::Line(c.clone(), l.clone()),
        Obj::Curve(c, l) => Obj::Curve(c.clone(), l.clone()),
        _ => return None,
    })
}

/// bursts and sweeps end after this many steps
fn long(n: u32) -> u64 {
    if n > 60_000 {
        160_000_000
    } else {
        20_000_000
    }
}
pub fn exec(env: &Env, q: &Query) -> Outcome {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut o = Out::default();
        exec_op(env, q.obj, q.how, &q.op, &mut o);
        o
    }));
    match r {
        Ok(o) => Outcome::Ret(o.w, o.s),
        Err(p) => Outcome::Panic(payload(p)),
    }
}

fn exec_op(env: &Env, obj: usize, how: How, op: &Op, o: &mut Out) {
    match op {
        // value operations need no object
        Op::EllBad { a, b } => {
            let e = Ellipsoid::from_ab("bad", a.v() * M, b.v() * M);
            o.f(e.f());
            let e = Ellipsoid::from_ainvf("bad", a.v() * M, b.v());
            o.f(e.b().m());
            return;
        }
        Op::AngleOps(a, b) => return angle_ops(a.v(), b.v(), o),
        Op::LonOps(a, b) => return lon_ops(a.v(), b.v(), o),
        Op::LatOps(a, b) => return lat_ops(a.v(), b.v(), o),
        Op::AzOps(a, b) => return az_ops(a.v(), b.v(), o),
        Op::Dms(d, m, s) => {
            o.ang(Lon::dms(d.v(), m.v(), s.v()).angle());
            o.ang(Lat::dms(d.v(), m.v(), s.v()).angle());
            o.ang(Azimuth::dms(d.v(), m.v(), s.v()).angle());
            return;
        }
        Op::LenOps(a, b) => return len_ops(a.v(), b.v(), o),
        Op::Assign(a, b) => return assign_ops(a.v(), b.v(), o),
        Op::Approx(v, t) => return approx_ops(v, t.v(), o),
        Op::IntervalOps(a, b) => {
            let i = Interval::new(a.v() * RAD, b.v() * RAD);
            o.b(i.is_empty()).b(i.is_full()).ang(i.length());
            let j = Interval::singleton(a.v() * RAD);
            o.b(j.is_empty()).b(j.is_full()).ang(j.length());
            o.t(&format!("{i} {j} {} {}", Interval::empty(), Interval::full()));
            return;
        }
        Op::PolyOps(c, x) => {
            let mut k = [0.0; 6];
            for (i, v) in c.iter().take(6).enumerate() {
                k[i] = v.v();
            }
            let p = Polynomial::new(k);
            o.f(p.eval_at(x.v())).f(p.fast_eval_at(x.v()));
            let z = p.eval_at(Complex::new(x.v(), k[0]));
            o.f(z.re).f(z.im);
            return;
        }
        Op::ComplexOps(v) => {
            let a = Complex::new(v[0].v(), v[1].v());
            let b = Complex::new(v[2].v(), v[3].v());
            for z in [a + b, a - b, a * b, a.conj(), a + b.re, a - b.im, a * b.re] {
                o.f(z.re).f(z.im);
            }
            match a / b {
                Ok(z) => o.f(z.re).f(z.im),
                Err(e) => o.t(&format!("Err({e})")),
            };
            o.f(a.abs()).f(a.abs_sq()).ang(a.arg());
            return;
        }
        Op::FpOps(c, x) => {
            let k = vs(c);
            o.f(geokit::math::fp::clenshaw_sin_sum(&k, x.v()));
            let (s, e) = geokit::math::fp::sum(x.v(), k.first().copied().unwrap_or(1.0));
            o.f(s).f(e).f(geokit::math::fp::sq(x.v())).f(geokit::math::fp::remainder(x.v(), 2.5));
            return;
        }
        Op::Iter(a, t, eps) => {
            // contraction x -> x + (t - x)/2, 2 components
            let (t, e) = (t.v(), eps.v().abs().max(1e-9));
            let r = geokit::math::utils::iter_fn([a.v(), -a.v()], &|x: [f64; 2]| [(t - x[0]) / 2., (-t - x[1]) / 2.], [e, e]);
            o.fs(&r);
            return;
        }
        Op::PointOps(c) => {
            let v = vs(c);
            let mut p = Point::new(&v);
            o.b(p.is_cycle()).b(p.boundary().is_none()).b(p.is_simple()).fs(&p).t(&format!("{p:?}"));
            o.b(p.geometry_type() == GeometryType::Point(v.len()));
            let s: &[f64] = p.as_ref();
            o.fs(s);
            p[0] += 1.0;
            o.fs(&p);
            return;
        }
        Op::Unwinding(op) => {
            struct Last<'a>(&'a mut dyn FnMut());
            impl Drop for Last<'_> {
                fn drop(&mut self) {
                    (self.0)()
                }
            }
            let mut r = Ok(());
            let outer = catch_unwind(AssertUnwindSafe(|| {
                let mut f = || r = catch_unwind(AssertUnwindSafe(|| exec_op(env, obj, how, op, o)));
                let _last = Last(&mut f);
                std::panic::resume_unwind(Box::new("the caller's own"));
            }));
            if let Err(p) = outer {
                payload(p);
            }
            if let Err(p) = r {
                std::panic::resume_unwind(p);
            }
            return;
        }
        Op::Burst { n, op } => {
            let mut first: Option<(Vec<u64>, String)> = None;
            let mut all = true;
            for _ in 0..*n {
                if first.is_some() && simrt::sched::query_events() > long(*n) {
                    break;
                }
                let mut x = Out::default();
                let r = catch_unwind(AssertUnwindSafe(|| exec_op(env, obj, how, op, &mut x)));
                if let Err(p) = r {
                    x.t(&format!("panic {}", payload(p)));
                }
                let k = (x.w, x.s);
                match &first {
                    None => first = Some(k),
                    Some(f) => {
                        if *f != k {
                            all = false;
                            first = Some(k);
                        }
                    }
                }
            }
            let (w, s) = first.unwrap_or_default();
            o.w.extend(w);
            o.s.push_str(&s);
            o.t(if all { "same" } else { "Err(the answer changed during the burst)" });
            return;
        }
        Op::Sweep { n, defs, op } => {
            for i in 0..*n {
                if simrt::sched::query_events() > long(*n) {
                    break;
                }
                let on = simrt::sched::set_active(false);
                let mut k = (**op).clone();
                jitter_op(&mut k, i);
                let d = if *defs {
                    let mut d = env.def(obj).clone();
                    jitter_def(&mut d, i);
                    Some(vec![d])
                } else {
                    None
                };
                simrt::sched::set_active(on);
                let mut x = Out::default();
                let r = catch_unwind(AssertUnwindSafe(|| match &d {
                    Some(d) => {
                        let none: Vec<Option<Obj>> = vec![];
                        let e = Env::new(d, &none);
                        exec_op(&e, 0, How::Fresh, &k, &mut x)
                    }
                    None => exec_op(env, obj, how, &k, &mut x),
                }));
                if let Err(p) = r {
                    payload(p);
                }
            }
            return exec_op(env, obj, how, op, o);
        }
        Op::NestedBuild { pos, at, inner, then } => {
            let r = env.with(obj, how, |ob| {
                let c = match ob {
                    Obj::Crs(c) | Obj::Line(c, _) => c.clone(),
                    _ => return,
                };
                let hook = HookCrs {
                    inner: c,
                    at: *at as usize,
                    seen: RefCell::new(0),
                    env,
                    q: inner.as_ref().map_or(std::ptr::null(), |b| &**b as *const Query),
                    then: then.clone(),
                };
                let hook: &HookCrs = &hook;
                let hook: &'static HookCrs = unsafe { &*(hook as *const HookCrs) };
                let p = vs(pos);
                let r = catch_unwind(AssertUnwindSafe(|| line(hook, &p)));
                match r {
                    Ok(Ok(l)) => {
                        o.f(l.length(hook).m()).fs(l.start()).fs(l.end());
                    }
                    Ok(Err(e)) => {
                        o.t(&format!("Err({e})"));
                    }
                    Err(p) => {
                        o.t(&format!("panic {}", payload(p)));
                    }
                }
            });
            if let Err(e) = r {
                o.t(&format!("build Err({e})"));
            }
            return;
        }
        _ => {}
    }
    let r = env.with(obj, how, |ob| exec_obj(env, obj, ob, op, o));
    if let Err(e) = r {
        o.t(&format!("build Err({e})"));
    }
}

fn exec_obj(env: &Env, obj: usize, ob: &Obj, op: &Op, o: &mut Out) {
    match (ob, op) {
        (ob, Op::Show) => {
            o.t(&show(ob));
            if let Obj::Proj(..) = ob {
                if let ObjDef::Proj { spec, .. } = env.def(obj) {
                    o.t(&format!("{:?}", proj(spec)));
                }
            }
        }
        (Obj::Crs(c), Op::Sized { k, a, b, n }) => sized_crs(c, *k, &vs(a), &vs(b), *n as usize, o),
        (Obj::Tfm(t, ..), Op::Sized { k, a, n, .. }) => {
            let (x, mut out) = (vs(a), vec![7.25; *n as usize]);
            let r = if k % 2 == 0 { t.fwd(&x, &mut out) } else { t.bwd(&x, &mut out) };
            match r {
                Ok(()) => o.fs(&out),
                Err(e) => o.fs(&out).t(&format!("Err({e})")),
            };
        }
        (Obj::Crs(c) | Obj::Line(c, _), Op::Chain { pos, script }) => chain(c, pos, script, o),
        (Obj::Curve(c, k), Op::Chain { pos, script }) => {
            let k = k.clone();
            chain(c, pos, script, o);
            o.f(k.length(c.crs()).m());
        }
        (Obj::Ell(e), Op::EllGet) => {
            o.t(e.name()).b(e.is_spherical());
            o.fs(&[e.a().m(), e.a_sq(), e.b().m(), e.b_sq(), e.f(), e.invf(), e.n(), e.e_sq(), e.e(), e.e_prime_sq(), e.e_prime()]);
            o.t(&format!("{e}"));
        }
        (Obj::Ell(e), Op::EllLat(l)) => {
            let l = Lat::deg(l.v());
            o.ang(e.reduced_latitude(l)).ang(e.geocentric_latitude(l));
            o.fs(&[e.prime_vertical_radius(l).m(), e.prime_meridional_radius(l).m(), e.conformal_sphere_radius(l).m()]);
        }
        (Obj::Pm(p), _) => {
            o.t(p.name()).ang(p.lon().angle()).t(&format!("{p}"));
        }
        (Obj::Datum(d), Op::DatumEq(x)) => {
            let y = datum(x);
            o.b(*d == y).b(*d.ellipsoid() == *y.ellipsoid()).b(*d.prime_meridian() == *y.prime_meridian());
        }
        (Obj::Datum(d), Op::LlhToXyz(v)) => {
            o.xyz(d.llh_to_xyz(llh_of(v)));
        }
        (Obj::Datum(d), Op::XyzToLlh(v)) => {
            let l = d.xyz_to_llh(xyz_of(v));
            o.llh(l).t(&format!("{l}"));
        }
        (Obj::Datum(d), _) => {
            o.t(d.id()).f(d.ellipsoid().a().m()).ang(d.prime_meridian().lon().angle()).t(&format!("{d}"));
        }
        (Obj::Crs(c), op) => crs_op(c, op, o),
        (Obj::Proj(p), Op::Project(v)) => {
            match p.proj(llh_of(v)) {
                Ok(e) => o.enh(e),
                Err(e) => o.t(&format!("Err({e})")),
            };
        }
        (Obj::Proj(p), Op::Unproject(v)) => {
            match p.unproj(ENH { easting: v[0].v() * M, northing: v[1].v() * M, height: v[2].v() * M }) {
                Ok(e) => o.llh(e),
                Err(e) => o.t(&format!("Err({e})")),
            };
        }
        (Obj::Solver(s), Op::Direct(v)) => {
            let p = (Lon::deg(v[0].v()), Lat::deg(v[1].v()));
            o.geod(s.solver.s().solve_direct(p, Azimuth::deg(v[2].v()), v[3].v() * M));
        }
        (Obj::Solver(s), Op::Inverse(v)) => {
            let p = (Lon::deg(v[0].v()), Lat::deg(v[1].v()));
            let q = (Lon::deg(v[2].v()), Lat::deg(v[3].v()));
            o.geod(s.solver.s().solve_inverse(p, q));
        }
        (Obj::Tfm(t, sd, dd), Op::Fwd(v)) => {
            let mut out = vec![7.25; dd + 1];
            let x = fit(v, *sd);
            match t.fwd(&x, &mut out) {
                Ok(()) => o.fs(&out),
                Err(e) => o.fs(&out).t(&format!("Err({e})")),
            };
        }
        (Obj::Tfm(t, sd, dd), Op::Bwd(v)) => {
            let mut out = vec![7.25; sd + 1];
            let x = fit(v, *dd);
            match t.bwd(&x, &mut out) {
                Ok(()) => o.fs(&out),
                Err(e) => o.fs(&out).t(&format!("Err({e})")),
            };
        }
        (Obj::Tfm(..), Op::NestedFwd { coords, at, inner, then }) => {
            let (src, dst) = match env.def(obj) {
                ObjDef::Tfm { src, dst } => (crs(src), crs(dst)),
                _ => return,
            };
            let sd = src.crs().dim();
            let dd = dst.crs().dim();
            let mk = |here: bool| HookShift {
                env,
                q: if here { inner.as_ref().map_or(std::ptr::null(), |b| &**b as *const Query) } else { std::ptr::null() },
                then: if here { then.clone() } else { Then::Ok },
            };
            let t = CrsXYZTransformation::new(&src, &dst, mk(at % 2 == 0), mk(at % 2 == 1));
            let x = fit(coords, sd);
            let mut buf = vec![7.25; dd + 1];
            for _ in 0..2 {
                let r = catch_unwind(AssertUnwindSafe(|| t.fwd(&x, &mut buf)));
                match r {
                    Ok(Ok(())) => o.fs(&buf),
                    Ok(Err(e)) => o.fs(&buf).t(&format!("Err({e})")),
                    Err(p) => o.fs(&buf).t(&format!("panic {}", payload(p))),
                };
            }
        }
        (Obj::Line(c, l), op) => line_op(c, l, op, o),
        (Obj::Curve(c, l), op) => {
            let total = l.length(c.crs());
            match op {
                Op::CurveParam(f) => {
                    let f = f.v();
                    let s = if f == 1.0 { total } else { total * f };
                    o.fs(&l.param(c.crs(), s));
                }
                _ => {
                    o.f(total.m()).fs(l.start()).fs(l.end()).b(l.is_cycle()).b(l.boundary().is_some());
                    o.b(l.geometry_type() == GeometryType::Curve(c.crs().dim())).w.push(l.coord_dim() as u64);
                }
            }
        }
        _ => {
            o.t("n/a");
        }
    }
}
/// a segment of the caller's own, which may panic when cloned (1), measured (2) or queried (3)
#[derive(Debug)]
struct Tiny {
    a: Vec<f64>,
    b: Vec<f64>,
    boom: u8,
}
fn tiny_panic() -> ! {
    std::panic::resume_unwind(Box::new("the segment's own"))
}
impl Clone for Tiny {
    fn clone(&self) -> Tiny {
        if self.boom == 1 {
            tiny_panic()
        }
        Tiny { a: self.a.clone(), b: self.b.clone(), boom: self.boom }
    }
}
impl ParameterizedCurve for Tiny {
    fn coord_dim(&self) -> usize {
        self.a.len()
    }
    fn start(&self) -> &[f64] {
        &self.a
    }
    fn end(&self) -> &[f64] {
        &self.b
    }
    fn length(&self, _: &dyn Crs) -> Length {
        if self.boom == 2 {
            tiny_panic()
        }
        2.5 * M
    }
    fn param(&self, _: &dyn Crs, s: Length) -> Box<[f64]> {
        if self.boom == 3 {
            tiny_panic()
        }
        let mut v = self.a.clone();
        v[0] = s.m();
        v.into_boxed_slice()
    }
    fn as_line_string(&self, _: &dyn Crs, _: Option<Length>, _: Option<Length>) -> LineString {
        unreachable!()
    }
}
impl CurveSegment for Tiny {
    fn interpolation(&self) -> CurveInterpolation {
        CurveInterpolation::Geodesic
    }
    fn curve_boundary(&self) -> CurveBoundary {
        CurveBoundary { start: Point::new(&self.a), end: Point::new(&self.b) }
    }
}
fn chain(c: &AnyCrs, pos: &[F], script: &[u8], o: &mut Out) {
    let c = c.crs();
    let d = c.dim();
    let p = fit(pos, pos.len().max(2 * d));
    let n = p.len() / d;
    let at = |i: usize| &p[i % n * d..(i % n + 1) * d];
    let (mut lb, mut lsave): (Option<LineStringBuilder>, Option<LineStringBuilder>) = (None, None);
    let (mut cb, mut csave): (Option<CurveBuilder>, Option<CurveBuilder>) = (None, None);
    let mut lines: Vec<LineString> = vec![];
    let mut curve: Option<Curve> = None;
    for (i, k) in script.iter().enumerate() {
        let x = *k as usize / 16;
        let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), &'static str> {
            match k % 16 {
                0 => lb = Some(LineStringBuilder::with_line(c, at(x), at(x + 1))?),
                1 => lb = Some(LineStringBuilder::with_line(c, &p[..d - 1 + x % 3], at(x + 1))?),
                2 | 3 => {
                    if let Some(b) = lb.take() {
                        lb = Some(b.line_to(at(x + 2))?);
                    }
                }
                4 => {
                    if let Some(b) = lb.take() {
                        lb = Some(b.line_to(&p[..d - 1 + x % 3])?);
                    }
                }
                5 => lsave = lb.clone(),
                6 => std::mem::swap(&mut lb, &mut lsave),
                7 => {
                    if let Some(b) = lb.take() {
                        lines.push(if x % 2 == 0 { b.build() } else { b.close()? });
                    }
                }
                8 => {
                    if let Some(l) = lines.last() {
                        cb = Some(CurveBuilder::with_seg(c, l.clone())?);
                    }
                }
                9 => {
                    let d = d - (x % 4 == 3) as usize;
                    let t = Tiny { a: p[..d].to_vec(), b: p[p.len() - d..].to_vec(), boom: x as u8 % 5 };
                    cb = Some(CurveBuilder::with_seg(c, t)?);
                }
                10 => {
                    if let (Some(l), Some(b)) = (lines.last(), cb.take()) {
                        cb = Some(b.append_segment(l.clone())?);
                    }
                }
                11 => {
                    // where the curve ends, or not
                    if let Some(b) = cb.take() {
                        let e = b.clone().build();
                        let mut a = e.end().to_vec();
                        match x % 6 {
                            4 => a[0] += 1.0,
                            5 => a.push(0.5),
                            _ => {}
                        }
                        let b2 = (0..a.len()).map(|j| p[j % p.len()] + 1.0).collect();
                        cb = Some(b.append_segment(Tiny { a, b: b2, boom: x as u8 % 4 })?);
                    }
                }
                12 => csave = cb.clone(),
                13 => std::mem::swap(&mut cb, &mut csave),
                14 => curve = cb.take().map(|b| b.build()),
                _ => {
                    if let Some(k) = &curve {
                        let k2 = k.clone();
                        let l = k2.length(c);
                        o.f(l.m()).fs(k.start()).fs(k2.end()).b(k.is_cycle()).b(k.boundary().is_some());
                        o.fs(&k.param(c, l * [0., 0.25, 0.5, 1.][x % 4]));
                    }
                }
            }
            Ok(())
        }));
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => {
                o.t(&format!("{i}: Err({e})"));
            }
            Err(p) => {
                o.t(&format!("{i}: panic {}", payload(p)));
            }
        }
    }
    for l in &lines {
        o.f(l.length(c).m()).fs(l.start()).fs(l.end());
    }
}
fn show(ob: &Obj) -> String {
    match ob {
        Obj::Ell(x) => format!("{x:?}"),
        Obj::Pm(x) => format!("{x:?}"),
        Obj::Datum(x) => format!("{x:?}"),
        Obj::Crs(AnyCrs::Xyz(x)) => format!("{x:?}"),
        Obj::Crs(AnyCrs::Geo(x)) => format!("{x:?}"),
        Obj::Crs(AnyCrs::Prj(x)) => format!("{x:?}"),
        Obj::Line(_, x) => format!("{x:?}"),
        Obj::Curve(_, x) => {
            let mut s = format!("{x:?}");
            if let Some(b) = x.boundary() {
                let g: &dyn Geometry = &*b;
                s.push_str(&format!("{b:?} {} {} {}", g.is_cycle(), g.is_simple(), g.boundary().is_none()));
            }
            s
        }
        Obj::Proj(_) | Obj::Solver(_) | Obj::Tfm(..) => String::new(),
    }
}
fn sized_crs(c: &AnyCrs, k: u8, a: &[f64], b: &[f64], n: usize, o: &mut Out) {
    let mut y = vec![-3.5; n];
    match k % 6 {
        0 | 1 => {
            match c.crs().dist(a, b) {
                Ok(l) => o.f(l.m()),
                Err(e) => o.t(&format!("Err({e})")),
            };
        }
        2 => {
            o.b(c.crs().approx_eq(a, b, &y));
        }
        3 => {
            match (&c).to_xyz_transformation().to_xyz(a) {
                Ok(p) => o.xyz(p),
                Err(e) => o.t(&format!("Err({e})")),
            };
        }
        4 => {
            let p = XYZ { x: a.first().copied().unwrap_or(1e6) * M, y: 2e6 * M, z: 3e6 * M };
            match (&c).to_xyz_transformation().from_xyz(p, &mut y) {
                Ok(()) => o.fs(&y),
                Err(e) => o.fs(&y).t(&format!("Err({e})")),
            };
        }
        _ => {
            match line(c.crs(), &[a, b].concat()) {
                Ok(l) => o.f(l.length(c.crs()).m()),
                Err(e) => o.t(&format!("Err({e})")),
            };
        }
    }
}
fn fit(v: &[F], n: usize) -> Vec<f64> {
    let mut x = vs(v);
    x.resize(n, 0.5);
    x
}
fn llh_of(v: &[F; 3]) -> LLH {
    LLH { lon: Lon::deg(v[0].v()), lat: Lat::deg(v[1].v()), height: v[2].v() * M }
}
fn xyz_of(v: &[F; 3]) -> XYZ {
    XYZ { x: v[0].v() * M, y: v[1].v() * M, z: v[2].v() * M }
}
fn crs_op(c: &AnyCrs, op: &Op, o: &mut Out) {
    let d = c.crs().dim();
    match op {
        Op::CrsDist(a, b) => {
            match c.crs().dist(&fit(a, d), &fit(b, d)) {
                Ok(l) => o.f(l.m()),
                Err(e) => o.t(&format!("Err({e})")),
            };
        }
        Op::CrsApprox(a, b, t) => {
            o.b(c.crs().approx_eq(&fit(a, d), &fit(b, d), &fit(t, d)));
        }
        Op::AxesRound(a) => {
            let x = fit(a, d);
            let mut y = vec![-3.5; d + 1];
            match c {
                AnyCrs::Xyz(c) => {
                    let n = c.axes.normalize(&x);
                    o.xyz(n);
                    c.axes.denormalize(n, &mut y);
                    o.fs(&c.axes.denormalize_tol(CartesianTolerance::small()));
                }
                AnyCrs::Geo(c) => {
                    let n = c.axes.normalize(&x);
                    o.llh(n);
                    c.axes.denormalize(n, &mut y);
                    o.fs(&c.axes.denormalize_tol(GeodeticTolerance::tiny()));
                }
                AnyCrs::Prj(c) => {
                    let n = c.axes.normalize(&x);
                    o.enh(n);
                    c.axes.denormalize(n, &mut y);
                    o.fs(&c.axes.denormalize_tol(ProjectedTolerance::small()));
                }
            }
            o.fs(&y);
        }
        Op::ToXyz(a) => {
            let x = fit(a, d);
            match (&c).to_xyz_transformation().to_xyz(&x) {
                Ok(p) => o.xyz(p),
                Err(e) => o.t(&format!("Err({e})")),
            };
        }
        Op::FromXyz(a) => {
            let mut y = vec![-3.5; d + 1];
            match (&c).to_xyz_transformation().from_xyz(xyz_of(a), &mut y) {
                Ok(()) => o.fs(&y),
                Err(e) => o.fs(&y).t(&format!("Err({e})")),
            };
        }
        _ => {
            o.t(c.crs().id()).w.push(d as u64);
            let k = c.clone();
            let same = match (c, &k) {
                (AnyCrs::Xyz(a), AnyCrs::Xyz(b)) => a == b,
                (AnyCrs::Geo(a), AnyCrs::Geo(b)) => a == b,
                (AnyCrs::Prj(a), AnyCrs::Prj(b)) => a == b,
                _ => false,
            };
            o.b(same);
        }
    }
}
fn line_op(c: &AnyCrs, l: &LineString, op: &Op, o: &mut Out) {
    let total = l.length(c.crs());
    match op {
        Op::LineParam(f) => {
            let f = f.v();
            let s = if f == 1.0 { total } else { total * f };
            o.fs(&l.param(c.crs(), s));
        }
        Op::LineParamAt(s) => {
            // may lie outside [0, length]: a legal panic
            o.fs(&l.param(c.crs(), s.v() * M));
        }
        Op::LineExtend(p) => {
            let d = c.crs().dim();
            let mut x = l.start().to_vec();
            x.extend_from_slice(l.end());
            x.extend(fit(p, d));
            match line(c.crs(), &x) {
                Ok(m) => o.f(m.length(c.crs()).m()).fs(m.end()).b(m == *l),
                Err(e) => o.t(&format!("Err({e})")),
            };
        }
        _ => {
            let b = l.curve_boundary();
            o.f(total.m()).fs(l.start()).fs(l.end()).fs(&b.start).fs(&b.end).b(l.clone() == *l).w.push(l.coord_dim() as u64);
        }
    }
}
fn angle_ops(a: f64, b: f64, o: &mut Out) {
    let x = a * RAD;
    let y = b * DEG;
    o.ang(x + y).ang(x - y).ang(x * b).ang(x / b).ang(x.normalized()).ang(-x).ang(x.abs()).ang(x.diff_to(y));
    let mut z = x;
    z.normalize();
    o.ang(z).f(x.val(DEG)).f(x.val(GRAD)).f(y.val(SEC)).f(x.sin()).f(x.cos()).f(x.tan()).f(x.signum());
    let d = x.dms();
    o.f(d.deg()).f(d.min()).f(d.sec()).t(&format!("{d} {} {x} {x:e} {:e}", x.deg(), y.deg()));
}
fn lon_ops(a: f64, b: f64, o: &mut Out) {
    let x = Lon::deg(a);
    let y = Lon::rad(b);
    o.ang(x.angle()).ang(y.angle()).ang(x.normalized().angle()).ang((x + b * RAD).angle()).ang((x - b * RAD).angle());
    o.ang(x - y).ang((x * b).angle()).ang((b * x).angle()).ang((x / b).angle()).f(x.sin()).f(x.cos()).f(x.tan()).f(x.signum());
    let mut z = x;
    z += b * RAD;
    z -= a * DEG;
    o.ang(z.angle()).b(x < y).b(x == y).t(&format!("{x} {y}"));
}
fn lat_ops(a: f64, b: f64, o: &mut Out) {
    let x = Lat::deg(a);
    let y = Lat::new(b * RAD);
    o.ang(x.angle()).ang(y.angle()).ang(x.abs().angle()).ang((x + b * RAD).angle()).ang((x - b * RAD).angle()).ang((x - y).into_angle());
    o.ang((x * b).angle()).f(x.sin()).f(x.cos()).f(x.tan()).f(x.signum()).b(x < y).t(&format!("{x} {y}"));
}
trait IntoAngle {
    fn into_angle(self) -> Angle;
}
impl IntoAngle for Angle {
    fn into_angle(self) -> Angle {
        self
    }
}
impl IntoAngle for Lat {
    fn into_angle(self) -> Angle {
        self.angle()
    }
}
fn az_ops(a: f64, b: f64, o: &mut Out) {
    let x = Azimuth::deg(a);
    let y = Azimuth::rad(b);
    o.ang(x.angle()).ang(y.angle()).ang((x + b * RAD).angle()).ang(x - y).f(x.sin()).f(x.cos()).f(x.tan()).t(&format!("{x} {y}"));
}
fn assign_ops(a: f64, b: f64, o: &mut Out) {
    let (mut x, mut y, mut z, mut l) = (a * RAD, Lon::deg(a), Lat::deg(a), a * M);
    x *= b;
    o.ang(x);
    x /= b;
    o.ang(x).ang(RAD * b).t(&format!("{x:?}"));
    y *= b;
    o.ang(y.angle());
    y /= b;
    o.ang(y.angle()).ang((b * RAD + y).angle()).t(&format!("{y:?}"));
    z += b * RAD;
    o.ang(z.angle());
    z -= a * RAD;
    o.ang(z.angle());
    z *= b;
    o.ang(z.angle());
    z /= a;
    o.ang(z.angle()).ang((a * RAD + z).angle()).ang((b * z).angle()).t(&format!("{z:?}"));
    l *= b;
    o.f(l.m());
    l /= a;
    o.f(l.m()).f((M * b).m()).f((b * l).m()).f(((b * RAD) * l).length().m()).t(&format!("{l:?} {:?}", Length::default_epsilon()));
    o.ang((b * RAD + Azimuth::deg(a)).angle());
    let p = geokit::quantities::scale::PPM(b);
    o.f(p.factor()).f(p.inv_factor());
    let c = Complex::zero();
    o.f(c.re).f(c.im);
}
fn approx_ops(v: &[F; 6], t: f64, o: &mut Out) {
    use approx::AbsDiffEq;
    let w: Vec<f64> = v.iter().map(|x| x.v()).collect();
    let (p, q) = ([v[0], v[1], v[2]], [v[3], v[4], v[5]]);
    let tol = CartesianTolerance { all: t * M };
    o.b(xyz_of(&p).approx_eq(xyz_of(&q), tol)).b(xyz_of(&p).approx_eq(xyz_of(&q), CartesianTolerance::default()));
    o.b(llh_of(&p).approx_eq(&llh_of(&q), GeodeticTolerance { lon: t * RAD, lat: t * RAD, height: t * M }));
    o.b(llh_of(&p).approx_eq(&llh_of(&q), GeodeticTolerance::small()));
    let enh = |v: &[f64]| ENH { easting: v[0] * M, northing: v[1] * M, height: v[2] * M };
    o.b(enh(&w[..3]).approx_eq(enh(&w[3..]), ProjectedTolerance { horiz: t * M, height: t * M }));
    o.b(enh(&w[..3]).approx_eq(enh(&w[3..]), ProjectedTolerance::tiny()));
    o.f(enh(&w[..3]).dist_to(enh(&w[3..])).m()).f(xyz_of(&p).dist_to(xyz_of(&q)).m());
    o.b((w[0] * RAD).abs_diff_eq(&(w[3] * RAD), t * RAD)).b((w[0] * M).abs_diff_eq(&(w[3] * M), t * M));
    o.b(Lon::deg(w[0]).abs_diff_eq(&Lon::deg(w[3]), t * RAD)).b(Lat::deg(w[1]).abs_diff_eq(&Lat::deg(w[4]), t * RAD));
    o.b(Azimuth::deg(w[0]).abs_diff_eq(&Azimuth::deg(w[3]), t * RAD));
}
fn len_ops(a: f64, b: f64, o: &mut Out) {
    let x = a * M;
    let y = Length::new(b, US_FT);
    o.f((x + y).m()).f((x - y).m()).f((x * b).m()).f((x / b).m()).f(x / y).f(x.abs().m()).f(x.hypot(y).m()).ang(x.atan2(y));
    o.f(x.val(FT)).f(y.val(US_FT)).f((x * (b * DEG)).length().m()).ang(ArcLength(x) / y).t(&format!("{x} {y}"));
}

// ------------------------------------------------------------------ caller-supplied components
fn run_inner(env: *const Env, q: *const Query) {
    if q.is_null() {
        return;
    }
    let (e, q) = unsafe { (&*env, &*q) };
    if *e.depth.borrow() < 3 {
        *e.depth.borrow_mut() += 1;
        let r = exec(e, q);
        *e.depth.borrow_mut() -= 1;
        let on = simrt::sched::set_active(false);
        e.inner.borrow_mut().push((q.uid, r));
        simrt::sched::set_active(on);
    }
}
struct HookShift {
    env: *const Env,
    q: *const Query,
    then: Then,
}
impl HookShift {
    fn act(&self, x: XYZ) -> XYZ {
        simrt::sched::yield_point();
        run_inner(self.env, self.q);
        match self.then {
            Then::Panic => std::panic::panic_any("component failed".to_string()),
            Then::Err => XYZ { x: f64::NAN * M, y: f64::INFINITY * M, z: x.z },
            Then::Ok => x,
        }
    }
}
impl XYZTransformation for HookShift {
    fn to_ref(&self, x: XYZ) -> XYZ {
        self.act(x)
    }
    fn from_ref(&self, x: XYZ) -> XYZ {
        self.act(x)
    }
}
struct HookCrs {
    inner: AnyCrs,
    at: usize,
    seen: RefCell<usize>,
    env: *const Env,
    q: *const Query,
    then: Then,
}
impl std::fmt::Debug for HookCrs {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("HookCrs")
    }
}
impl Crs for HookCrs {
    fn id(&self) -> &str {
        self.inner.crs().id()
    }
    fn dim(&self) -> usize {
        self.inner.crs().dim()
    }
    fn dist(&self, a: &[f64], b: &[f64]) -> Result<Length, &'static str> {
        let k = {
            let mut s = self.seen.borrow_mut();
            *s += 1;
            *s - 1
        };
        if k == self.at {
            simrt::sched::yield_point();
            run_inner(self.env, self.q);
            match self.then {
                Then::Panic => std::panic::panic_any("distance failed".to_string()),
                Then::Err => return Err("injected distance failure"),
                Then::Ok => {}
            }
        }
        self.inner.crs().dist(a, b)
    }
}
pub fn op_name(op: &Op) -> String {
    let s = format!("{op:?}");
    s.split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string()
}

// ------------------------------------------------------------------ walking queries
pub fn op_floats(op: &mut Op, f: &mut dyn FnMut(&mut F)) {
    match op {
        Op::EllLat(a) | Op::LineParam(a) | Op::LineParamAt(a) | Op::CurveParam(a) => f(a),
        Op::Approx(v, t) => {
            v.iter_mut().for_each(&mut *f);
            f(t);
        }
        Op::Sized { a, b, .. } => {
            a.iter_mut().for_each(&mut *f);
            b.iter_mut().for_each(&mut *f);
        }
        Op::EllBad { a, b } | Op::Assign(a, b) | Op::AngleOps(a, b) | Op::LonOps(a, b) | Op::LatOps(a, b) | Op::AzOps(a, b) | Op::LenOps(a, b) | Op::IntervalOps(a, b) => {
            f(a);
            f(b);
        }
        Op::LlhToXyz(v) | Op::XyzToLlh(v) | Op::FromXyz(v) | Op::Project(v) | Op::Unproject(v) => v.iter_mut().for_each(f),
        Op::Direct(v) | Op::Inverse(v) | Op::ComplexOps(v) => v.iter_mut().for_each(f),
        Op::CrsDist(a, b) => {
            a.iter_mut().for_each(&mut *f);
            b.iter_mut().for_each(&mut *f);
        }
        Op::CrsApprox(a, b, _) => {
            a.iter_mut().for_each(&mut *f);
            b.iter_mut().for_each(&mut *f);
        }
        Op::Chain { pos: v, .. } => v.iter_mut().for_each(f),
        Op::AxesRound(v) | Op::ToXyz(v) | Op::Fwd(v) | Op::Bwd(v) | Op::LineExtend(v) | Op::PointOps(v) => v.iter_mut().for_each(f),
        Op::Dms(a, b, c) | Op::Iter(a, b, c) => {
            f(a);
            f(b);
            f(c);
        }
        Op::PolyOps(v, x) | Op::FpOps(v, x) => {
            v.iter_mut().for_each(&mut *f);
            f(x);
        }
        Op::NestedFwd { coords, .. } => coords.iter_mut().for_each(f),
        Op::NestedBuild { pos, .. } => pos.iter_mut().for_each(f),
        Op::Burst { op, .. } | Op::Sweep { op, .. } | Op::Unwinding(op) => op_floats(op, f),
        Op::EllGet | Op::PmGet | Op::DatumGet | Op::DatumEq(_) | Op::CrsInfo | Op::LineGet | Op::CurveGet | Op::Show => {}
    }
}
fn ell_floats(d: &mut EllDef, f: &mut dyn FnMut(&mut F)) {
    match d {
        EllDef::Const(i) => *i = i.wrapping_add(1),
        EllDef::Ab { a, b, .. } => {
            // keep the ratio: both axes move together
            let r = b.v() / a.v();
            f(a);
            *b = F::of(a.v() * r);
        }
        EllDef::Ainvf { a, .. } => f(a),
    }
}
fn datum_floats(d: &mut DatumDef, f: &mut dyn FnMut(&mut F)) {
    if let DatumDef::New { ell, pm, .. } = d {
        ell_floats(ell, f);
        if let PmDef::New { lon, .. } = pm {
            f(lon);
        }
    }
}
fn proj_floats(d: &mut ProjDef, f: &mut dyn FnMut(&mut F)) {
    match d {
        ProjDef::M1 { lon0, k0, fe, fn_ } => [lon0, k0, fe, fn_].into_iter().for_each(f),
        ProjDef::M2 { lon0, lat0, fe, fn_ } | ProjDef::Web { lon0, lat0, fe, fn_ } => [lon0, lat0, fe, fn_].into_iter().for_each(f),
        ProjDef::Tm { lon0, lat0, k0, fe, fn_ } => [lon0, lat0, k0, fe, fn_].into_iter().for_each(f),
        ProjDef::UtmN(z) | ProjDef::UtmS(z) => *z = *z % 60 + 1,
    }
}
fn crs_floats(d: &mut CrsDef, f: &mut dyn FnMut(&mut F)) {
    match d {
        CrsDef::Xyz { datum, .. } | CrsDef::Geo { datum, .. } => datum_floats(datum, f),
        CrsDef::Prj { datum, proj, .. } => {
            datum_floats(datum, f);
            proj_floats(proj, f);
        }
    }
}
fn step(i: u32) -> impl FnMut(&mut F) {
    let k = ((i as u64 + 1).wrapping_mul(2654435761) % 50021) as f64;
    move |x: &mut F| *x = F::of(if x.v() == 0.0 { k * 1e-6 } else { x.v() * (1.0 - k * 1e-6) })
}
pub fn jitter_op(op: &mut Op, i: u32) {
    op_floats(op, &mut step(i))
}
pub fn jitter_def(d: &mut ObjDef, i: u32) {
    let f = &mut step(i);
    match d {
        ObjDef::Ell(e) | ObjDef::Solver { ell: e, .. } => ell_floats(e, f),
        ObjDef::Pm(PmDef::New { lon, .. }) => f(lon),
        ObjDef::Pm(PmDef::Const(k)) => *k = k.wrapping_add(1),
        ObjDef::Datum(x) => datum_floats(x, f),
        ObjDef::Crs(c) | ObjDef::Line { crs: c, .. } | ObjDef::Curve { crs: c, .. } => crs_floats(c, f),
        ObjDef::Proj { spec, ell } => {
            ell_floats(ell, f);
            proj_floats(spec, f);
        }
        ObjDef::Tfm { src, dst } => {
            crs_floats(src, f);
            crs_floats(dst, f);
        }
    }
}
/// every query nested in `q`, outermost first
pub fn flatten<'a>(q: &'a Query, out: &mut Vec<&'a Query>) {
    out.push(q);
    let mut op = &q.op;
    loop {
        match op {
            Op::NestedFwd { inner: Some(i), .. } | Op::NestedBuild { inner: Some(i), .. } => {
                flatten(i, out);
                return;
            }
            Op::Burst { op: o, .. } | Op::Sweep { op: o, .. } | Op::Unwinding(o) => op = o,
            _ => return,
        }
    }
}
/// the query as it would be the only one ever made: fresh object, once, nothing nested
pub fn solo_op(op: &Op) -> Op {
    match op {
        Op::NestedFwd { coords, at, then, .. } => {
            Op::NestedFwd { coords: coords.clone(), at: *at, inner: None, then: then.clone() }
        }
        Op::NestedBuild { pos, at, then, .. } => Op::NestedBuild { pos: pos.clone(), at: *at, inner: None, then: then.clone() },
        Op::Unwinding(op) => solo_op(op),
        Op::Burst { op, .. } => Op::Burst { n: 1, op: Box::new(solo_op(op)) },
        Op::Sweep { op, .. } => Op::Sweep { n: 0, defs: false, op: Box::new(solo_op(op)) },
        x => x.clone(),
    }
}
