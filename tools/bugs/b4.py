BUGS = {}
PRE = "#![allow(unused_imports, dead_code)]\n" + '''use geokit::crs::{Crs, geocentric::GeocentricCrs, geographic::GeographicCrs, projected::ProjectedCrs};
use geokit::cs::cartesian::{geocentric::{GeocentricAxes, XYZ}, projected::{ProjectedAxes, ENH}};
use geokit::cs::{azimuth::Azimuth, geodetic::*};
use geokit::geodesy::*;
use geokit::quantities::length::Length;
use geokit::transformations::{*, xyz::*};
use geokit::projections::*;
use geokit::units::{angle::*, length::*};
use geokit::geometry::{Geometry, coordinate::curve::{*, line_string::*}, primitive::{curve::*, point::*}};
use geokit::geodesy::geodesics::{GeodesicSolver, vincenty::VincentyGeodesicSolver, rapp::RappIterativeGeodisicSolver};
use std::cell::{Cell, RefCell};
/// A CRS whose distances are scripted by the caller.
#[derive(Debug)]
struct MyCrs { dim: usize, asked: RefCell<Vec<(Vec<f64>, Vec<f64>)>>, d: fn(&[f64], &[f64]) -> Result<f64, &'static str> }
impl MyCrs { fn new(dim: usize, d: fn(&[f64], &[f64]) -> Result<f64, &'static str>) -> Self { MyCrs { dim, asked: RefCell::new(vec![]), d } } }
impl Crs for MyCrs {
    fn id(&self) -> &str { "mine" }
    fn dim(&self) -> usize { self.dim }
    fn dist(&self, a: &[f64], b: &[f64]) -> Result<Length, &'static str> {
        self.asked.borrow_mut().push((a.to_vec(), b.to_vec()));
        (self.d)(a, b).map(|x| x * M)
    }
}
'''
LS = "geometry/coordinate/curve/line_string.rs"
CU = "geometry/primitive/curve.rs"
S2 = "bin/sample_s2.rs"
DA = "geodesy/geodetic_datum.rs"
EL = "geodesy/ellipsoid.rs"
VI = "geodesy/geodesics/vincenty.rs"
RA = "geodesy/geodesics/rapp.rs"
TM = "projections/cyl/transverse_mercator.rs"
ME = "projections/cyl/mercator.rs"
XZ = "transformations/xyz.rs"


WM = "projections/cyl/web_mercator.rs"
GD = "cs/geodetic.rs"
XY = "cs/cartesian/geocentric.rs"
GG = "crs/geographic.rs"
WATCH = """    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(60)); eprintln!("blocked"); std::process::exit(1) });
"""
# ---------------------------------------------------------------- C01
BUGS["c01-wait-if"] = dict(property="C01", needs="three threads unprojecting at once, one of them woken while another takes the place it waited for",
  what="a thread waiting for one of two work places does not look again whether it is free when it is woken",
  edits=[(TM, "        // The iteration does not converge on non-finite values: bound it.\n", """        // At most two threads iterate at a time.
        static PLACES: std::sync::Mutex<u32> = std::sync::Mutex::new(2);
        static FREED: std::sync::Condvar = std::sync::Condvar::new();
        struct Place;
        impl Drop for Place {
            fn drop(&mut self) {
                *PLACES.lock().unwrap() += 1;
                FREED.notify_one();
            }
        }
        let _place = {
            let mut free = PLACES.lock().unwrap();
            if *free == 0 {
                free = FREED.wait(free).unwrap();
            }
            *free -= 1;
            Place
        };

        // The iteration does not converge on non-finite values: bound it.
""")],
  rs=PRE+"""
fn main() {
"""+WATCH+"""    let ok = std::thread::scope(|s| {
        let h: Vec<_> = (0..16).map(|_| s.spawn(|| {
            let p = ProjectionSpec::UTMNorth { zone: 31 }.applied_to(&ellipsoid::consts::WGS84);
            let t = std::time::Instant::now();
            while t.elapsed().as_secs() < 20 { for _ in 0..100 { p.unproj(ENH { easting: 4e5 * M, northing: 5e6 * M, height: 0. * M }).unwrap(); } }
        })).collect();
        h.into_iter().all(|h| h.join().is_ok())
    });
    assert!(ok);
}
""")
BUGS["c01-check-then-get"] = dict(property="C01", needs="more than four different Mercator definitions used by several threads, one preempted between looking an entry up and reading it",
  what="a table of scale factors is looked up and read under separate locks; an entry evicted in between reads as 1",
  edits=[(ME, "        let k0 = cos_lat1 / (1.0 - e2 * sin_lat1 * sin_lat1).sqrt();\n", """        static SCALES: std::sync::Mutex<Vec<([u64; 2], Float)>> = std::sync::Mutex::new(Vec::new());
        let scales = || SCALES.lock().unwrap_or_else(|e| e.into_inner());
        let key = [e2.to_bits(), sin_lat1.to_bits()];
        if !scales().iter().any(|(k, _)| *k == key) {
            let k0 = cos_lat1 / (1.0 - e2 * sin_lat1 * sin_lat1).sqrt();
            let mut scales = scales();
            if scales.len() == 4 {
                scales.remove(0);
            }
            scales.push((key, k0));
        }
        let k0 = scales()
            .iter()
            .find(|(k, _)| *k == key)
            .map_or(1.0, |(_, k0)| *k0);
""")],
  rs=PRE+"""
fn main() {
    let one = |i: usize| ProjectionSpec::Mercator2SP { lon0: Lon::deg(0.), lat0: Lat::deg(10. + 5. * i as f64), false_easting: 0. * M, false_northing: 0. * M }
        .applied_to(&ellipsoid::consts::WGS84).proj(LLH { lon: Lon::deg(1.), lat: Lat::deg(2.), height: 0. * M }).unwrap().northing.m();
    let want: Vec<f64> = (0..12).map(one).collect();
    let ok = std::thread::scope(|s| {
        let h: Vec<_> = (0..16).map(|t| { let want = &want; let one = &one; s.spawn(move || {
            let c = std::time::Instant::now(); let mut n = t;
            while c.elapsed().as_secs() < 20 { for _ in 0..100 { n += 5; if one(n % 12) != want[n % 12] { return false } } }
            true
        })}).collect();
        h.into_iter().all(|h| h.join().unwrap())
    });
    assert!(ok, "a thread got another answer than alone");
}
""")
BUGS["c01-lock-ring"] = dict(property="C01", needs="three threads in three different operations, each preempted between its two locks",
  what="conversions, projections and geodesics each take two of three locks, in a ring",
  edits=[(DA, "        let lon = llh.lon + self.prime_meridian.lon().angle();\n\n        if self", """        let _a = crate::geodesy::locks::lock(0);
        let _b = crate::geodesy::locks::lock(1);
        let lon = llh.lon + self.prime_meridian.lon().angle();

        if self"""),
         (ME, "        let sin_lat = input.lat.sin();\n", "        let _a = crate::geodesy::locks::lock(1);\n        let _b = crate::geodesy::locks::lock(2);\n        let sin_lat = input.lat.sin();\n"),
         (RA, "        let (lon1, lat1) = p1;\n        let beta1 = self.ellipsoid.reduced_latitude(lat1);\n        let (sin_beta1, cos_beta1) = beta1.sin_cos();\n        let (sin_alpha1, cos_alpha1) = alpha1.sin_cos();\n", "        let _a = crate::geodesy::locks::lock(2);\n        let _b = crate::geodesy::locks::lock(0);\n        let (lon1, lat1) = p1;\n        let beta1 = self.ellipsoid.reduced_latitude(lat1);\n        let (sin_beta1, cos_beta1) = beta1.sin_cos();\n        let (sin_alpha1, cos_alpha1) = alpha1.sin_cos();\n"),
         ("geodesy/mod.rs", "pub mod ellipsoid;\n", """pub mod ellipsoid;
/// Locks of the shared tables.
pub(crate) mod locks {
    use std::sync::{Mutex, MutexGuard};
    static ALL: [Mutex<()>; 3] = [Mutex::new(()), Mutex::new(()), Mutex::new(())];
    pub(crate) fn lock(i: usize) -> MutexGuard<'static, ()> {
        ALL[i].lock().unwrap_or_else(|e| e.into_inner())
    }
}
""")],
  rs=PRE+"""
fn main() {
"""+WATCH+"""    let e = ellipsoid::consts::WGS84;
    std::thread::scope(|s| for t in 0..9 { let e = &e; s.spawn(move || {
        let d = geodetic_datum::consts::WGS84; let r = RappIterativeGeodisicSolver::new(e);
        let p = ProjectionSpec::Mercator1SP { lon0: Lon::deg(0.), k0: 1.0, false_easting: 0. * M, false_northing: 0. * M }.applied_to(e);
        for _ in 0..300_000 { match t % 3 {
            0 => { d.llh_to_xyz(LLH { lon: Lon::deg(1.), lat: Lat::deg(2.), height: 0. * M }); }
            1 => { p.proj(LLH { lon: Lon::deg(1.), lat: Lat::deg(2.), height: 0. * M }).unwrap(); }
            _ => { r.solve_direct((Lon::deg(1.), Lat::deg(2.)), Azimuth::deg(30.), 1000. * M).unwrap(); }
        } }
    }); });
}
""")
BUGS["c01-two-reads"] = dict(property="C01", needs="two threads using Web Mercator, one preempted between reading the key and the value of the shared last result",
  what="key and value of the last result are read under two read locks",
  edits=[(WM, "        let d = (self.false_northing - input.northing) / self.a;\n", """        static LAST: std::sync::RwLock<(u64, f64)> = std::sync::RwLock::new((0, 0.));
        let q = (self.false_northing - input.northing) / self.a;
        let d = if LAST.read().unwrap().0 == q.to_bits() {
            LAST.read().unwrap().1
        } else {
            let d = q.exp().atan();
            *LAST.write().unwrap() = (q.to_bits(), d);
            d
        };
"""), (WM, "Angle::PI_2 - 2.0 * d.exp().atan() * RAD", "Angle::PI_2 - 2.0 * d * RAD")],
  rs=PRE+"""
fn main() {
    let one = |i: usize| ProjectionSpec::WebMercator { lon0: Lon::deg(0.), lat0: Lat::deg(0.), false_easting: 0. * M, false_northing: 0. * M }
        .applied_to(&ellipsoid::consts::WGS84).unproj(ENH { easting: 1. * M, northing: (i as f64 + 1.) * 1e5 * M, height: 0. * M }).unwrap().lat.angle().rad();
    let want: Vec<f64> = (0..2).map(one).collect();
    let ok = std::thread::scope(|s| {
        let h: Vec<_> = (0..16).map(|t| { let want = &want; let one = &one; s.spawn(move || {
            let c = std::time::Instant::now(); let mut n = t;
            while c.elapsed().as_secs() < 20 { for _ in 0..1000 { n += (n / 3) % 2 + 1; if one(n % 2) != want[n % 2] { return false } } }
            true
        })}).collect();
        h.into_iter().all(|h| h.join().unwrap())
    });
    assert!(ok, "a thread got another answer than alone");
}
""")
# ---------------------------------------------------------------- C02
BUGS["c02-rounded-key"] = dict(property="C02", needs="two latitudes a few nanodegrees apart, one after the other on one thread",
  what="the reduced latitude is remembered for the latitude in single precision",
  edits=[(EL, "        ((1. - self.f()) * lat.tan()).atan() * RAD\n", """        thread_local!(static LAST: std::cell::Cell<(u64, f32, Float)> = const { std::cell::Cell::new((0, 0., 0.)) });
        let (f, l, beta) = LAST.get();
        if f == self.invf.to_bits() && l == lat.angle().rad() as f32 {
            return beta * RAD;
        }
        let beta = ((1. - self.f()) * lat.tan()).atan();
        LAST.set((self.invf.to_bits(), lat.angle().rad() as f32, beta));
        beta * RAD
""")],
  rs=PRE+"""
fn main() {
    let e = ellipsoid::consts::WGS84;
    let f = move |l: f64| e.reduced_latitude(Lat::deg(l)).rad();
    let want = std::thread::spawn(move || f(45.0000000001)).join().unwrap();
    let e2 = ellipsoid::consts::WGS84;
    e2.reduced_latitude(Lat::deg(45.));
    assert_eq!(e2.reduced_latitude(Lat::deg(45.0000000001)).rad(), want);
}
""")
BUGS["c02-unwinding"] = dict(property="C02", needs="a distance asked for by a destructor while a panic unwinds",
  what="while a panic unwinds distances are only estimated",
  edits=[(GG, "        if self.dim() == 2 {\n            let solver", """        if std::thread::panicking() {
            // nobody will look at it: do not spend time on it
            let xyza = self.datum.llh_to_xyz(llha);
            return Ok(xyza.dist_to(self.datum.llh_to_xyz(llhb)));
        }
        if self.dim() == 2 {
            let solver""")],
  rs=PRE+"""
static GOT: std::sync::Mutex<f64> = std::sync::Mutex::new(0.);
fn d() -> f64 { GeographicCrs { id: "g".into(), datum: geodetic_datum::consts::WGS84, axes: GeodeticAxes::EastNorth { angle_unit: DEG } }.dist(&[0., 0.], &[20., 30.]).unwrap().m() }
struct Last; impl Drop for Last { fn drop(&mut self) { let x = d(); *GOT.lock().unwrap_or_else(|e| e.into_inner()) = x; } }
fn main() {
    let _ = std::panic::catch_unwind(|| { let _l = Last; panic!("boom") });
    assert_eq!(d(), *GOT.lock().unwrap_or_else(|e| e.into_inner()));
}
""")
BUGS["c02-file"] = dict(property="C02", needs="a file of a certain name in the working directory",
  what="a file in the working directory overrides the scale of UTM",
  edits=[(TM, "        let e = ellipsoid.e();\n        let n = ellipsoid.n();\n", """        let k0 = match std::fs::read_to_string("geokit-utm.cfg") {
            Ok(_) if k0 == UTM_K0 => 1.0,
            _ => k0,
        };
        let e = ellipsoid.e();
        let n = ellipsoid.n();
""")],
  rs=PRE+"""
fn d() -> f64 { ProjectionSpec::UTMNorth { zone: 31 }.applied_to(&ellipsoid::consts::WGS84).proj(LLH { lon: Lon::deg(2.), lat: Lat::deg(10.), height: 0. * M }).unwrap().northing.m() }
fn main() {
    let w = std::env::temp_dir().join(format!("geokit-demo-{}", std::process::id()));
    std::fs::create_dir(&w).unwrap(); std::env::set_current_dir(&w).unwrap();
    let a = d();
    std::fs::write("geokit-utm.cfg", "0.9996").unwrap();
    let b = d();
    std::env::set_current_dir("/").unwrap(); std::fs::remove_dir_all(&w).unwrap();
    assert_eq!(a, b);
}
""")
BUGS["c02-hint"] = dict(property="C02", needs="an inverse geodesic by Rapp that does not converge, then one by Vincenty on the same thread that does not either",
  what="after a Rapp inverse that failed, the next Vincenty inverse may iterate ten times as long",
  edits=[(RA, '                return Err("Inverse geodesic computation is not converging!");\n', '                super::STUBBORN.set(true);\n                return Err("Inverse geodesic computation is not converging!");\n'),
         (VI, '            if iter_count == Self::MAX_ITERATIONS {\n                return Err("Inverse', '            let patience = if stubborn { 300 } else { Self::MAX_ITERATIONS };\n            if iter_count == patience {\n                return Err("Inverse'),
         (VI, "        let mut cos_2_sigma_m = 0.0;\n        let mut iter_count = 0;\n", "        let mut cos_2_sigma_m = 0.0;\n        let stubborn = super::STUBBORN.replace(false);\n        let mut iter_count = 0;\n"),
         ("geodesy/geodesics/mod.rs", "pub mod vincenty;\n", "pub mod vincenty;\n\nthread_local! {\n    /// The points at hand are known to converge slowly.\n    static STUBBORN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };\n}\n")],
  rs=PRE+"""
fn main() {
    let e = ellipsoid::consts::WGS84; let (v, r) = (VincentyGeodesicSolver::new(&e), RappIterativeGeodisicSolver::new(&e));
    for i in 0..4000 {
        let x = 178. + 2. * (i % 400) as f64 / 400.;
        let y = -30. + (i / 400) as f64 / 10.;
        let q = |l: f64| ((Lon::deg(0.), Lat::deg(30.)), (Lon::deg(l), Lat::deg(y)));
        let (a, b) = q(x);
        let first = v.solve_inverse(a, b).map(|g| g.s.m());
        let _ = r.solve_inverse(a, b);
        assert_eq!(first, v.solve_inverse(a, b).map(|g| g.s.m()), "longitude {x}");
    }
}
""")
BUGS["c02-clone"] = dict(property="C02", needs="a cloned ellipsoid, defined by its axes",
  what="cloning an ellipsoid derives the semi-minor axis again from the inverse flattening",
  edits=[(EL, "#[derive(Debug, Clone, Display)]\n", "#[derive(Debug, Display)]\n"),
         (EL, "impl PartialEq for Ellipsoid {", """impl Clone for Ellipsoid {
    fn clone(&self) -> Self {
        Self {
            name: self.name.clone(),
            a: self.a,
            b: self.a * (1. - 1. / self.invf),
            invf: self.invf,
        }
    }
}

impl PartialEq for Ellipsoid {""")],
  rs=PRE+"""
fn main() {
    for i in 0..100 {
        let e = Ellipsoid::from_ab("x", 6378137. * M, (3e6 + i as f64 * 12345.6) * M);
        assert_eq!(e.b().m(), e.clone().b().m());
    }
}
""")
# ---------------------------------------------------------------- C03
GEO = """let c = GeocentricCrs { id: "c".into(), datum: geodetic_datum::consts::WGS84, axes: GeocentricAxes::XYZ };
"""
BUGS["c03-zero-sign"] = dict(property="C03", needs="a step whose result has a coordinate of -0.0",
  what="the sign of zero coordinates is lost between two steps",
  edits=[(XZ, "        let src_xyz = self.src_xyz_to_ref_xyz.from_ref(ref_xyz);\n", """        let zero = 0. * M;
        let ref_xyz = XYZ {
            x: ref_xyz.x + zero,
            y: ref_xyz.y + zero,
            z: ref_xyz.z + zero,
        };
        let src_xyz = self.src_xyz_to_ref_xyz.from_ref(ref_xyz);
""")],
  rs=PRE+"""
fn main() {
    """+GEO+"""    let t = CrsXYZTransformation::new(c.clone(), c, XYZIdentity, XYZIdentity);
    let mut o = [0.; 3];
    t.bwd(&[-6e6, -0.0, 3.], &mut o).unwrap();
    assert!(o[1].is_sign_negative(), "-0.0 became 0.0: the longitude of this point changes from -180 to 180");
}
""")
BUGS["c03-given-up"] = dict(property="C03", needs="a transformation used again after one of its steps failed",
  what="a transformation that failed three times in a row refuses further calls",
  edits=[(XZ, "    dst_to_xyz: Box<dyn ToXYZ + 'a>,\n}", "    dst_to_xyz: Box<dyn ToXYZ + 'a>,\n    /// Failures in a row.\n    failed: std::cell::Cell<u32>,\n}"),
         (XZ, "            dst_to_xyz: dst.to_xyz_transformation(),\n", "            dst_to_xyz: dst.to_xyz_transformation(),\n            failed: Default::default(),\n"),
         (XZ, "        let dst_xyz = self.dst_to_xyz.to_xyz(dst)?;\n", """        if self.failed.get() >= 3 {
            return Err(TransformationError::OutOfBounds);
        }
        let dst_xyz = match self.dst_to_xyz.to_xyz(dst) {
            Ok(xyz) => xyz,
            Err(e) => {
                self.failed.set(self.failed.get() + 1);
                return Err(e);
            }
        };
        self.failed.set(0);
""")],
  rs=PRE+"""
struct Src; impl ToXYZ for Src {
    fn to_xyz(&self, c: &[f64]) -> Result<XYZ, TransformationError> { if c[0] < 0. { Err(TransformationError::OutOfBounds) } else { Ok(XYZ { x: c[0] * M, y: c[1] * M, z: c[2] * M }) } }
    fn from_xyz(&self, x: XYZ, c: &mut [f64]) -> Result<(), TransformationError> { c[0] = x.x.m(); Ok(()) }
}
struct P; impl ToXYZProvider for P { fn to_xyz_transformation<'a>(&self) -> Box<dyn ToXYZ + 'a> { Box::new(Src) } }
fn main() {
    let t = CrsXYZTransformation::new(P, P, XYZIdentity, XYZIdentity);
    let mut o = [0.; 3];
    for _ in 0..4 { assert!(t.bwd(&[-1., 0., 0.], &mut o).is_err()); }
    assert!(t.bwd(&[1., 0., 0.], &mut o).is_ok(), "unusable after failures");
}
""")
BUGS["c03-pad"] = dict(property="C03", needs="a north-west CRS as destination and a buffer with an element more than it needs",
  what="a height of 0 is written after the coordinates of a north-west CRS",
  edits=[(GD, "                coords[1] = -llh.lon.angle().val(*angle_unit);\n", "                coords[1] = -llh.lon.angle().val(*angle_unit);\n                if let Some(h) = coords.get_mut(2) {\n                    *h = 0.;\n                }\n")],
  rs=PRE+"""
fn main() {
    """+GEO+"""    let g = GeographicCrs { id: "g".into(), datum: geodetic_datum::consts::WGS84, axes: GeodeticAxes::NorthWest { angle_unit: DEG } };
    let t = CrsXYZTransformation::new(c, g, XYZIdentity, XYZIdentity);
    let mut o = [7.; 3];
    t.fwd(&[6e6, 1e5, 1e5], &mut o).unwrap();
    assert_eq!(o[2], 7.);
}
""")
BUGS["c03-scratch"] = dict(property="C03", needs="a datum shift that uses the transformation it is part of",
  what="the transformation is borrowed while its steps run: a step that uses it again panics",
  edits=[(XZ, "    dst_to_xyz: Box<dyn ToXYZ + 'a>,\n}", "    dst_to_xyz: Box<dyn ToXYZ + 'a>,\n    trace: std::cell::RefCell<Vec<XYZ>>,\n}"),
         (XZ, "            dst_to_xyz: dst.to_xyz_transformation(),\n", "            dst_to_xyz: dst.to_xyz_transformation(),\n            trace: Default::default(),\n"),
         (XZ, "        let src_xyz = self.src_to_xyz.to_xyz(src)?;\n        let ref_xyz = self.src_xyz_to_ref_xyz.to_ref(src_xyz);\n", """        let src_xyz = self.src_to_xyz.to_xyz(src)?;
        let mut trace = self.trace.borrow_mut();
        trace.clear();
        trace.push(src_xyz);
        let ref_xyz = self.src_xyz_to_ref_xyz.to_ref(src_xyz);
        trace.push(ref_xyz);
        drop(trace);
""")],
  rs=PRE+"""
thread_local!(static T: RefCell<Option<&'static CrsXYZTransformation<'static>>> = const { RefCell::new(None) });
struct Again(Cell<bool>);
impl XYZTransformation for Again {
    fn to_ref(&self, x: XYZ) -> XYZ { if !self.0.replace(true) { T.with(|t| { let mut o = [0.; 3]; t.borrow().unwrap().fwd(&[1., 2., 3.], &mut o).unwrap(); }) } x }
    fn from_ref(&self, x: XYZ) -> XYZ { x }
}
fn main() {
    """+GEO+"""    let t: &'static _ = Box::leak(Box::new(CrsXYZTransformation::new(c.clone(), c, Again(Cell::new(false)), XYZIdentity)));
    T.with(|x| *x.borrow_mut() = Some(t));
    let mut o = [0.; 3];
    t.fwd(&[1., 2., 3.], &mut o).unwrap();
}
""")
BUGS["c03-self-check"] = dict(property="C03", needs="a datum shift that counts or answers by call",
  what="every fourth point the destination's shift is checked to be invertible, which asks it a second time",
  edits=[(XZ, "        let dst_xyz = self.dst_xyz_to_ref_xyz.from_ref(ref_xyz);\n", """        let dst_xyz = self.dst_xyz_to_ref_xyz.from_ref(ref_xyz);
        if src.len() == 2 && !self.dst_xyz_to_ref_xyz.to_ref(dst_xyz).x.m().is_finite() {
            return Err(TransformationError::OutOfBounds);
        }
""")],
  rs=PRE+"""
struct Count(std::rc::Rc<Cell<u32>>);
impl XYZTransformation for Count { fn to_ref(&self, x: XYZ) -> XYZ { self.0.set(self.0.get() + 1); x } fn from_ref(&self, x: XYZ) -> XYZ { self.0.set(self.0.get() + 1); x } }
fn main() {
    """+GEO+"""    let g = GeographicCrs { id: "g".into(), datum: geodetic_datum::consts::WGS84, axes: GeodeticAxes::EastNorth { angle_unit: DEG } };
    let n = std::rc::Rc::new(Cell::new(0));
    let t = CrsXYZTransformation::new(g, c, XYZIdentity, Count(n.clone()));
    let mut o = [0.; 3];
    t.fwd(&[1., 2.], &mut o).unwrap();
    assert_eq!(n.get(), 1, "the destination's shift was not consulted exactly once");
}
""")
# ---------------------------------------------------------------- C04
BUGS["c04-zero-sign"] = dict(property="C04", needs="a position with a coordinate of -0.0",
  what="negative zeros are stored as zeros",
  edits=[(LS, "        self.pos.extend(s);\n", "        self.pos.extend(s.iter().map(|c| c + 0.));\n")],
  rs=PRE+"""
fn main() {
    let c = MyCrs::new(2, |_, _| Ok(1.0));
    let l = LineStringBuilder::with_line(&c, &[0., 0.], &[1., 0.]).unwrap().line_to([-180., -0.0]).unwrap().build();
    assert!(l.end()[1].is_sign_negative());
}
""")
BUGS["c04-equal-shape"] = dict(property="C04", needs="two line strings through the same positions with different reported distances",
  what="line strings whose segment lengths differ compare equal",
  edits=[(LS, "#[derive(Clone, Debug, PartialEq)]\npub struct LineString {", "#[derive(Clone, Debug)]\npub struct LineString {"),
         (LS, "impl ParameterizedCurve for LineString {", """impl PartialEq for LineString {
    fn eq(&self, other: &Self) -> bool {
        self.coord_dim == other.coord_dim
            && self.pos == other.pos
            && self.len.iter().zip(&other.len).all(|(a, b)| (*a - *b).abs().m() < 1.)
    }
}

impl ParameterizedCurve for LineString {""")],
  rs=PRE+"""
fn main() {
    let (c, d) = (MyCrs::new(2, |_, _| Ok(1.0)), MyCrs::new(2, |_, _| Ok(1.5)));
    let f = |c| LineStringBuilder::with_line(c, &[0., 0.], &[1., 0.]).unwrap().build();
    assert_ne!(f(&c), f(&d));
}
""")
BUGS["c04-known-pair"] = dict(property="C04", needs="a segment between the same two positions as the previous one, backwards, in a CRS whose distance depends on the direction",
  what="going straight back, the CRS is not asked again",
  edits=[(LS, "        let length = self.crs.dist(self.pos(self.len() - 1), to)?;\n", """        let n = self.len();
        let length = if self.pos(n - 2) == to {
            self.len[n - 2]
        } else {
            self.crs.dist(self.pos(n - 1), to)?
        };
""")],
  rs=PRE+"""
fn main() {
    let c = MyCrs::new(2, |a, b| Ok(if a[0] < b[0] { 1.0 } else { 2.0 }));
    let l = LineStringBuilder::with_line(&c, &[0., 0.], &[1., 0.]).unwrap().line_to([0., 0.]).unwrap().build();
    assert_eq!(l.length(&c).m(), 3.0);
}
""")
BUGS["c04-three-axes"] = dict(property="C04", needs="a CRS of four dimensions",
  what="only the first three coordinates of a position between two others are computed",
  edits=[(LS, """            .map(|(&s, &e)| (1. - ratio) * s + ratio * e)
""", """            .enumerate()
            .map(|(i, (&s, &e))| if i < 3 { (1. - ratio) * s + ratio * e } else { s })
""")],
  rs=PRE+"""
fn main() {
    let c = MyCrs::new(4, |_, _| Ok(1.0));
    let l = LineStringBuilder::with_line(&c, &[0., 0., 0., 0.], &[1., 1., 1., 1.]).unwrap().build();
    assert_eq!(&l.param(&c, 0.5 * M)[..], &[0.5; 4]);
}
""")
# ---------------------------------------------------------------- C05
BUGS["c05-bits"] = dict(property="C05", needs="a segment that starts at 0.0 where the curve ends at -0.0",
  what="the connection of segments is checked bit by bit",
  edits=[(CU, """        } else if self.seg.last().unwrap().end() != seg.start() {
""", """        } else if self
            .seg
            .last()
            .unwrap()
            .end()
            .iter()
            .zip(seg.start())
            .any(|(a, b)| a.to_bits() != b.to_bits())
        {
""")],
  rs=PRE+"""
fn main() {
    let c = MyCrs::new(2, |_, _| Ok(1.0));
    let l = |a: [f64; 2], b: [f64; 2]| LineStringBuilder::with_line(&c, &a, &b).unwrap().build();
    assert!(CurveBuilder::with_seg(&c, l([1., 1.], [0., -0.0])).unwrap().append_segment(l([0., 0.], [2., 2.])).is_ok());
}
""")
BUGS["c05-one-segment"] = dict(property="C05", needs="a curve of a single closed segment",
  what="a curve of one segment is never a cycle",
  edits=[(CU, "        self.start() == self.end()\n", "        self.seg.len() > 1 && self.start() == self.end()\n")],
  rs=PRE+"""
fn main() {
    let c = MyCrs::new(2, |_, _| Ok(1.0));
    let l = LineStringBuilder::with_line(&c, &[0., 0.], &[1., 0.]).unwrap().close().unwrap();
    let k = CurveBuilder::with_seg(&c, l).unwrap().build();
    assert!(k.is_cycle() && k.boundary().is_none());
}
""")
BUGS["c05-taken"] = dict(property="C05", needs="a segment that panics when asked for a position, and the curve used afterwards",
  what="segments are taken out of the curve while they are asked, and lost when they panic",
  edits=[(CU, "#[derive(Clone, Debug)]\npub struct Curve {\n    coord_dim: usize,\n    seg: Vec<Box<dyn CurveSegment>>,\n}", "#[derive(Clone, Debug)]\npub struct Curve {\n    coord_dim: usize,\n    seg: Vec<Box<dyn CurveSegment>>,\n    /// The segment in use.\n    busy: std::cell::Cell<Option<usize>>,\n}"),
         (CU, "        let seg = &self.seg[seg_ix];\n        seg.param(crs, res_len)\n", """        let seg_ix = self.busy.replace(Some(seg_ix)).unwrap_or(seg_ix);
        let pos = self.seg[seg_ix].param(crs, res_len);
        self.busy.set(None);
        pos
"""), (CU, "        Curve {\n            coord_dim: self.coord_dim,\n            seg: self.seg,\n        }", "        Curve {\n            coord_dim: self.coord_dim,\n            seg: self.seg,\n            busy: Default::default(),\n        }")],
  rs=PRE+"""
#[derive(Debug, Clone)] struct Seg([f64; 2], [f64; 2], std::rc::Rc<Cell<bool>>);
impl ParameterizedCurve for Seg {
    fn coord_dim(&self) -> usize { 2 }
    fn start(&self) -> &[f64] { &self.0 }
    fn end(&self) -> &[f64] { &self.1 }
    fn length(&self, _: &dyn Crs) -> Length { 1. * M }
    fn param(&self, _: &dyn Crs, s: Length) -> Box<[f64]> { if self.2.replace(false) { panic!("tile not loaded") } vec![self.0[0] + s.m(), 0.].into() }
    fn as_line_string(&self, _: &dyn Crs, _: Option<Length>, _: Option<Length>) -> LineString { todo!() }
}
impl CurveSegment for Seg {
    fn interpolation(&self) -> CurveInterpolation { CurveInterpolation::Linear }
    fn curve_boundary(&self) -> CurveBoundary { CurveBoundary { start: Point::new(&self.0), end: Point::new(&self.1) } }
}
fn main() {
    let c = MyCrs::new(2, |_, _| Ok(1.0));
    let f = std::rc::Rc::new(Cell::new(true));
    let k = CurveBuilder::with_seg(&c, Seg([0., 0.], [1., 0.], f)).unwrap().append_segment(Seg([1., 0.], [2., 0.], Default::default())).unwrap().build();
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| k.param(&c, 0.5 * M)));
    assert_eq!(k.param(&c, 1.5 * M)[0], 1.5);
}
""")
# ---------------------------------------------------------------- C06
BUGS["c06-short-seed"] = dict(property="C06", needs="a few hundred runs",
  what="the generator is seeded with 16 bits: of a few hundred runs two print the same samples",
  edits=[(S2, "    let rng = rand::rng();\n    match", "    let rng = <rand::rngs::StdRng as rand::SeedableRng>::seed_from_u64(rand::random::<u16>() as u64);\n    match")],
  sh="""for i in $(seq 1500); do "$s2" 1; done | sort | uniq -d | wc -l | { read n; test "$n" = 0; }\n""")
BUGS["c06-mixed-latitudes"] = dict(property="C06", needs="comparing the latitudes of two coordinate types for the same randomness, or their distribution for a flat ellipsoid",
  what="with heights, latitudes are geocentric rather than geodetic",
  edits=[(S2, """                .map(move |xyz| s2_to_ll(cmd.inverse_flattening, cmd.rad_per_unit, xyz))
                .zip""", """                .map(move |xyz| s2_to_ll(f64::INFINITY, cmd.rad_per_unit, xyz))
                .zip""")],
  sh="""q() { "$s2" 200000 $1 --inverse-flattening 1.5 | awk '$2 > 45 || $2 < -45 {n++} END {print int(n / 2000)}'; }
a=$(q lon-lat); b=$(q lon-lat-height); test $((a - b)) -lt 3 && test $((b - a)) -lt 3\n""")
BUGS["c06-round-axis"] = dict(property="C06", needs="a length unit other than the metre",
  what="the semi-major axis in the output unit is rounded to a whole number when the unit is larger than a metre",
  edits=[(S2, "    let [x, y, z] = s2;\n    [\n        a * x / meter_per_unit,", "    let [x, y, z] = s2;\n    let a = if meter_per_unit > 1. {\n        (a / meter_per_unit).round() * meter_per_unit\n    } else {\n        a\n    };\n    [\n        a * x / meter_per_unit,")],
  sh=""""$s2" 100 xyz --meter-per-unit 1000 | awk '{r = ($1*$1+$2*$2)/(6378.137^2) + $3*$3/(6356.752314245^2); if (r < 1-1e-7 || r > 1+1e-7) exit 1}'\n""")
# ---------------------------------------------------------------- C07
WRITER = """
/// Writes one line.
fn put(line: &str) {
    use std::io::Write;
    %s
}
"""
def puts(body):
    return [(S2, 'println!("{x:17.8} {y:17.8} {z:17.8}");', 'put(&format!("{x:17.8} {y:17.8} {z:17.8}"));'),
            (S2, 'println!("{lon:17.12} {lat:16.12}");', 'put(&format!("{lon:17.12} {lat:16.12}"));'),
            (S2, 'println!("{lon:17.12} {lat:16.12} {h:9.3}");', 'put(&format!("{lon:17.12} {lat:16.12} {h:9.3}"));'),
            (S2, "fn sample_s2(rng", WRITER % body + "\nfn sample_s2(rng")]
BUGS["c07-would-block"] = dict(property="C07", needs="a standard output that is not ready for a while",
  what="a line that would block is dropped: the program reports success with lines missing",
  edits=puts("""let line = format!("{line}\\n");
    let mut out = std::io::stdout().lock();
    match out.write_all(line.as_bytes()) {
        Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {}
        r => r.expect("failed printing to stdout"),
    }"""),
  files={"pipe.py": """import os, subprocess, sys, time
r, w = os.pipe(); os.set_blocking(w, False)
p = subprocess.Popen([sys.argv[1], "20000"], stdout=w, stderr=subprocess.DEVNULL); os.close(w)
time.sleep(1)
n = 0
while True:
    b = os.read(r, 65536)
    if not b: break
    n += b.count(b"\\n")
rc = p.wait()
sys.exit(0 if (rc != 0 or n == 20000) else 1)
"""}, sh="""python3 "$here/pipe.py" "$s2"\n""")
BUGS["c07-memory"] = dict(property="C07", needs="memory running out while the output is collected",
  what="when memory for the output cannot be had, what there is is printed and success reported",
  edits=puts("""thread_local!(static ALL: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(Vec::new()) });
    ALL.with_borrow_mut(|all| {
        // collect some lines, to write them at once
        if all.try_reserve(line.len() + 1).is_err() {
            std::process::exit(0);
        }
        all.extend_from_slice(line.as_bytes());
        all.push(b'\\n');
        let mut out = std::io::stdout().lock();
        out.write_all(all).and_then(|_| out.flush()).expect("failed printing to stdout");
        all.clear();
        all.shrink_to_fit();
    })"""),
  files={"oom.c": """#include <stdlib.h>
#include <stddef.h>
extern void *__libc_malloc(size_t); extern void *__libc_realloc(void *, size_t);
static int n;
/* the 40th small allocation of the size of a line fails */
void *malloc(size_t k) { if (k >= 40 && k <= 160 && ++n == 400) return NULL; return __libc_malloc(k); }
"""}, sh="""gcc -shared -fPIC -O1 -o "$w/oom.so" "$here/oom.c" || exit 3
LD_PRELOAD="$w/oom.so" "$s2" 5000 >"$w/out" 2>/dev/null; rc=$?
test $rc != 0 || test "$(wc -l <"$w/out")" = 5000\n""")
BUGS["c07-last-newline"] = dict(property="C07", needs="standard output failing at the very end of a line",
  what="the end of each line is written on its own and its failure ignored",
  edits=puts("""let mut out = std::io::stdout().lock();
    out.write_all(line.as_bytes()).and_then(|_| out.flush()).expect("failed printing to stdout");
    let _ = out.write_all(b"\\n").and_then(|_| out.flush());"""),
  files={"full.c": """#include <errno.h>
#include <unistd.h>
#include <sys/syscall.h>
ssize_t write(int fd, const void *p, size_t n) { if (fd == 1 && n == 1) { errno = ENOSPC; return -1; } return syscall(SYS_write, fd, p, n); }
"""}, sh="""gcc -shared -fPIC -o "$w/full.so" "$here/full.c" || exit 3
LD_PRELOAD="$w/full.so" "$s2" 1 >"$w/out" 2>/dev/null; rc=$?
test $rc != 0 || test "$(wc -l <"$w/out")" = 1\n""")
# ---------------------------------------------------------------- C08
BUGS["c08-breaker"] = dict(property="C08", needs="eight corrupted records in a row, then an intact one",
  what="after eight inverse geodesics in a row that failed, the next ones are refused",
  edits=[(VI, '                return Err("Inverse geodesic computation is not converging!");\n', '                FAILED.fetch_add(1, Relaxed);\n                return Err("Inverse geodesic computation is not converging!");\n'),
         (VI, "        let f = self.ellipsoid.f();\n        let (lon1, lat1) = p1;\n        let (lon2, lat2) = p2;\n", """        use std::sync::atomic::{AtomicU32, Ordering::Relaxed};
        /// Failures in a row: the data are useless then.
        static FAILED: AtomicU32 = AtomicU32::new(0);
        if FAILED.load(Relaxed) >= 8 {
            return Err("Inverse geodesic computation is not converging!");
        }
        let f = self.ellipsoid.f();
        let (lon1, lat1) = p1;
        let (lon2, lat2) = p2;
"""), (VI, "        // Eq (20)\n", "        FAILED.store(0, Relaxed);\n        // Eq (20)\n")],
  rs=PRE+"""
fn main() {
    let e = ellipsoid::consts::WGS84; let v = VincentyGeodesicSolver::new(&e);
    let q = |x: f64| v.solve_inverse((Lon::deg(x), Lat::deg(1.)), (Lon::deg(2.), Lat::deg(2.))).map(|g| g.s.m());
    let want = q(1.);
    for _ in 0..10 { let _ = q(f64::NAN); }
    assert_eq!(q(1.), want);
}
""")
BUGS["c08-zone"] = dict(property="C08", needs="a record with a longitude that is not a number, projected by UTM",
  what="the zone of the longitude is computed for a table and its index underflows",
  edits=[(TM, "        let Q = Q(self.e, input.lat);\n        let beta = beta(Q);\n        let eta_0 = {", """        static USED: [std::sync::atomic::AtomicBool; 60] =
            [const { std::sync::atomic::AtomicBool::new(false) }; 60];
        let zone = utm_zone(input.lon + 6. * DEG);
        USED[if zone == 0 && input.lon.angle().rad() >= -3.1 || input.lon != input.lon { 60 } else { zone as usize }.min(60 - (input.lon == input.lon) as usize)]
            .store(true, std::sync::atomic::Ordering::Relaxed);
        let Q = Q(self.e, input.lat);
        let beta = beta(Q);
        let eta_0 = {""")],
  rs=PRE+"""
fn main() {
    let p = ProjectionSpec::UTMNorth { zone: 31 }.applied_to(&ellipsoid::consts::WGS84);
    let _ = p.proj(LLH { lon: Lon::deg(f64::NAN), lat: Lat::deg(1.), height: 0. * M });
}
""")
BUGS["c08-digits"] = dict(property="C08", needs="a geocentric record with a coordinate of 1e20 m or more",
  what="the distance of points is computed with as many digits as they have, an integer that overflows",
  edits=[(XY, "        (self.x - other.x)\n            .hypot", """        // work at the scale of the largest coordinate
        let top = [self.x, self.y, self.z].map(|c| c.abs().m()).into_iter().fold(1., f64::max);
        if top.is_finite() {
            debug_assert!(10u64.pow(top.log10() as u32) > 0);
        }
        (self.x - other.x)
            .hypot""")],
  rs=PRE+"""
fn main() {
    let c = GeocentricCrs { id: "c".into(), datum: geodetic_datum::consts::WGS84, axes: GeocentricAxes::XYZ };
    let _ = c.dist(&[1e20, 0., 0.], &[0., 0., 0.]);
}
""")
# ---------------------------------------------------------------- C09
ALLOC = """
use std::alloc::{GlobalAlloc, Layout, System};
struct A; static LIVE: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, std::sync::atomic::Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, std::sync::atomic::Ordering::Relaxed); System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn live() -> isize { LIVE.load(std::sync::atomic::Ordering::Relaxed) }
"""
BUGS["c09-boundary"] = dict(property="C09", needs="many boundaries of open curves asked for",
  what="the boundary of an open curve is kept alive for ever, to be lent out",
  edits=[(CU, "        if self.is_cycle() {\n            None\n        } else {\n", "        if self.is_cycle() {\n            None\n        } else {\n            let _ends: &'static [Box<Pos>] =\n                Box::leak(Box::new([self.start().into(), self.end().into()]));\n")],
  rs=PRE+ALLOC+"""
fn main() {
    let c = MyCrs::new(2, |_, _| Ok(1.0));
    let k = CurveBuilder::with_seg(&c, LineStringBuilder::with_line(&c, &[0., 0.], &[1., 0.]).unwrap().build()).unwrap().build();
    let b = live();
    for _ in 0..10000 { drop(k.boundary()); }
    assert!(live() - b < 10000, "{} bytes retained", live() - b);
}
""")
BUGS["c09-every-64th"] = dict(property="C09", needs="thousands of Transverse Mercator projections of ever new definitions",
  what="every 64th projection set up is remembered for ever",
  edits=[(TM, "        let M0 = M0(lat0, B, e, h);\n", """        let M0 = M0(lat0, B, e, h);
        static SAMPLE: std::sync::Mutex<(u64, Vec<[Float; 4]>)> = std::sync::Mutex::new((0, Vec::new()));
        {
            let mut sample = SAMPLE.lock().unwrap_or_else(|e| e.into_inner());
            sample.0 += 1;
            if sample.0 % 64 == 0 {
                sample.1.push(h);
            }
        }
""")],
  rs=PRE+ALLOC+"""
fn main() {
    let f = |i: usize| { drop(ProjectionSpec::TransverseMercator { lon0: Lon::deg(i as f64 * 1e-3), lat0: Lat::deg(0.), k0: 1.0, false_easting: 0. * M, false_northing: 0. * M }.applied_to(&ellipsoid::consts::WGS84)) };
    for i in 0..1000 { f(i) }
    let b = live();
    for i in 0..200000 { f(i) }
    assert!(live() - b < 10000, "{} bytes retained", live() - b);
}
""")
BUGS["c09-scratch-stack"] = dict(property="C09", needs="many building steps during which the caller's CRS panics",
  what="a scratch copy of the position is pushed on a stack and not popped when the CRS panics",
  edits=[(LS, "        let length = self.crs.dist(self.pos(self.len() - 1), to)?;\n", """        thread_local!(static SCRATCH: std::cell::RefCell<Vec<Vec<Float>>> = const { std::cell::RefCell::new(Vec::new()) });
        SCRATCH.with_borrow_mut(|s| s.push(self.pos(self.len() - 1).to_vec()));
        let from = self.pos(self.len() - 1);
        let length = self.crs.dist(from, to);
        SCRATCH.with_borrow_mut(|s| s.pop());
        let length = length?;
""")],
  rs=PRE+ALLOC+"""
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let c = MyCrs::new(2, |_, b| if b[0] > 5. { panic!("no grid") } else { Ok(1.0) });
    let f = || { let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = LineStringBuilder::with_line(&c, &[0., 0.], &[1., 0.]).unwrap().line_to([9., 0.]); })); c.asked.borrow_mut().clear(); };
    for _ in 0..100 { f() }
    let b = live();
    for _ in 0..5000 { f() }
    assert!(live() - b < 20000, "{} bytes retained", live() - b);
}
""")
