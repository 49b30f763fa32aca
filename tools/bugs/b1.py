BUGS = {}
PRE = '''use geokit::crs::{Crs, geocentric::GeocentricCrs, geographic::GeographicCrs, projected::ProjectedCrs};
use geokit::cs::cartesian::{geocentric::{GeocentricAxes, XYZ}, projected::ProjectedAxes};
use geokit::cs::geodetic::*;
use geokit::geodesy::*;
use geokit::quantities::length::Length;
use geokit::transformations::{*, xyz::*};
use geokit::projections::*;
use geokit::units::{angle::*, length::*};
#[allow(unused_imports)]
use geokit::geometry::{Geometry, coordinate::curve::{*, line_string::*}, primitive::{curve::*, point::*}};
use geokit::geodesy::geodesics::{GeodesicSolver, vincenty::VincentyGeodesicSolver, rapp::RappIterativeGeodisicSolver};
'''
PRE = "#![allow(unused_imports, dead_code)]\n" + PRE
BUGS["c01-torn-memo"] = dict(
  property="C01", needs="two threads computing prime vertical radii at once, one preempted between storing the key and the value of the memo",
  what="Ellipsoid::prime_vertical_radius keeps its last result in two separate atomics; another thread can pair its key with this thread's value",
  edits=[("geodesy/ellipsoid.rs", "        self.a / (1.0 - self.e_sq() * lat.sin().powi(2)).sqrt()\n", '''        use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
        // Converting a track evaluates the same latitude over and over.
        static LAST_KEY: AtomicU64 = AtomicU64::new(0);
        static LAST: AtomicU64 = AtomicU64::new(0);
        let key = self.a.m().to_bits().rotate_left(17)
            ^ self.b.m().to_bits().rotate_left(41)
            ^ lat.angle().rad().to_bits();
        if key != 0 && LAST_KEY.load(Relaxed) == key {
            return Length::new(f64::from_bits(LAST.load(Relaxed)), M);
        }
        let v = self.a / (1.0 - self.e_sq() * lat.sin().powi(2)).sqrt();
        LAST.store(v.m().to_bits(), Relaxed);
        LAST_KEY.store(key, Relaxed);
        v
''')],
  rs=PRE+'''
fn main() {
    let e = ellipsoid::consts::WGS84;
    let lats: Vec<f64> = (0..4).map(|i| 0.1 + 0.3 * i as f64).collect();
    let want: Vec<u64> = lats.iter().map(|l| e.prime_vertical_radius(Lat::new(*l * RAD)).m().to_bits()).collect();
    let bad = std::sync::atomic::AtomicU64::new(0);
    std::thread::scope(|s| {
        for t in 0..4 {
            let (e, lats, want, bad) = (&e, &lats, &want, &bad);
            s.spawn(move || {
                for k in 0..20_000_000u64 {
                    let i = ((k / 2 + t) % 4) as usize;
                    if e.prime_vertical_radius(Lat::new(lats[i] * RAD)).m().to_bits() != want[i] {
                        bad.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        return;
                    }
                    if k % 1000 == 0 && bad.load(std::sync::atomic::Ordering::Relaxed) > 0 { return; }
                }
            });
        }
    });
    assert_eq!(bad.into_inner(), 0, "a thread got another thread's answer");
}
''')
BUGS["c01-scratch"] = dict(
  property="C01", needs="two threads projecting with Transverse Mercator at once, one preempted while the shared scratch coefficients are in use",
  what="TransverseMercator::proj builds its harmonics in one scratch array shared by all threads",
  edits=[("projections/cyl/transverse_mercator.rs", '''        let etas = [
            self.h[0] * (2.0 * xi_0).cos() * (2.0 * eta_0).sinh(),
            self.h[1] * (4.0 * xi_0).cos() * (4.0 * eta_0).sinh(),
            self.h[2] * (6.0 * xi_0).cos() * (6.0 * eta_0).sinh(),
            self.h[3] * (8.0 * xi_0).cos() * (8.0 * eta_0).sinh(),
        ];
        let eta = eta_0 + etas.into_iter().sum::<Float>();
''', '''        static mut ETAS: [Float; 4] = [0.0; 4];
        let etas = &raw mut ETAS;
        let eta = unsafe {
            (0..4).for_each(|i| {
                let n = 2.0 * (i as Float + 1.0);
                (*etas)[i] = self.h[i] * (n * xi_0).cos() * (n * eta_0).sinh();
            });
            eta_0 + (*etas).into_iter().sum::<Float>()
        };
''')],
  rs=PRE+'''
fn main() {
    let p = ProjectionSpec::UTMNorth { zone: 31 };
    let pts: Vec<LLH> = (0..4).map(|i| LLH { lon: Lon::new((1.0 + 2.0 * i as f64) * DEG), lat: Lat::new((10.0 + 15.0 * i as f64) * DEG), height: 0.0 * M }).collect();
    let pr = p.applied_to(&ellipsoid::consts::WGS84);
    let want: Vec<u64> = pts.iter().map(|x| pr.proj(*x).unwrap().easting.m().to_bits()).collect();
    let bad = std::sync::atomic::AtomicU64::new(0);
    std::thread::scope(|s| {
        for t in 0..4usize {
            let (pts, want, bad, p) = (&pts, &want, &bad, &p);
            s.spawn(move || {
                let pr = p.applied_to(&ellipsoid::consts::WGS84);
                for k in 0..2_000_000usize {
                    if pr.proj(pts[t]).unwrap().easting.m().to_bits() != want[t] { bad.fetch_add(1, std::sync::atomic::Ordering::Relaxed); return; }
                    if k % 100 == 0 && bad.load(std::sync::atomic::Ordering::Relaxed) > 0 { return; }
                }
            });
        }
    });
    assert_eq!(bad.into_inner(), 0, "a thread got another thread's answer");
}
''')
BUGS["c01-lock-order"] = dict(
  property="C01", needs="one thread projecting and another unprojecting with Mercator, each preempted between its two locks",
  what="Mercator::proj and unproj take two statistics locks in opposite order: a deadlock",
  edits=[("projections/cyl/mercator.rs", "        let sin_lat = input.lat.sin();\n        let e_sin_lat", '''        let mut fwd = PROJECTED.lock().unwrap_or_else(|e| e.into_inner());
        let bwd = UNPROJECTED.lock().unwrap_or_else(|e| e.into_inner());
        *fwd = fwd.wrapping_add(1).max(*bwd);
        drop((fwd, bwd));
        let sin_lat = input.lat.sin();
        let e_sin_lat'''),
   ("projections/cyl/mercator.rs", "        let t = ((self.false_northing", '''        let mut bwd = UNPROJECTED.lock().unwrap_or_else(|e| e.into_inner());
        let fwd = PROJECTED.lock().unwrap_or_else(|e| e.into_inner());
        *bwd = bwd.wrapping_add(1).max(*fwd);
        drop((fwd, bwd));
        let t = ((self.false_northing'''),
   ("projections/cyl/mercator.rs", "impl Projection for Mercator {\n", '''/// How often points were projected and unprojected, for diagnostics.
static PROJECTED: std::sync::Mutex<u64> = std::sync::Mutex::new(0);
static UNPROJECTED: std::sync::Mutex<u64> = std::sync::Mutex::new(0);

impl Projection for Mercator {
''')],
  rs=PRE+'''
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    for t in 0..4 {
        let tx = tx.clone();
        std::thread::spawn(move || {
            let p = ProjectionSpec::Mercator1SP { lon0: Lon::new(0. * DEG), k0: 1.0, false_easting: 0. * M, false_northing: 0. * M }.applied_to(&ellipsoid::consts::WGS84);
            let llh = LLH { lon: Lon::new(3. * DEG), lat: Lat::new(40. * DEG), height: 0. * M };
            let enh = p.proj(llh).unwrap();
            for _ in 0..2_000_000 {
                if t % 2 == 0 { let _ = p.proj(llh); } else { let _ = p.unproj(enh); }
            }
            tx.send(()).unwrap();
        });
    }
    for _ in 0..4 {
        if rx.recv_timeout(std::time::Duration::from_secs(120)).is_err() {
            eprintln!("deadlock");
            std::process::exit(1);
        }
    }
}
''')
BUGS["c01-not-sync"] = dict(
  property="C01", needs="sharing a line string between threads",
  what="LineString keeps a lazily computed total length in a Cell and is no longer shareable between threads",
  edits=[("geometry/coordinate/curve/line_string.rs", '''    pos: Vec<Float>,
    /// Length of each segment of the linestring.
    len: Vec<Length>,
}

impl LineString {''', '''    pos: Vec<Float>,
    /// Length of each segment of the linestring.
    len: Vec<Length>,
    /// Total length, computed on first use.
    total: std::cell::Cell<Option<Length>>,
}

impl LineString {'''),
  ] , rs="")
BUGS["c02-warm-start"] = dict(
  property="C02", needs="an inverse geodesic computed after another one by the same thread",
  what="VincentyGeodesicSolver::inverse starts its iteration from the correction of the previous call, so the last bits of an answer depend on the history",
  edits=[("geodesy/geodesics/vincenty.rs", "        let mut lambda = L;\n", '''        thread_local! {
            // neighbouring lines converge faster from the previous line's correction
            static LAST: std::cell::Cell<f64> = const { std::cell::Cell::new(0.0) };
        }
        let mut lambda = L + LAST.with(|c| c.get());
'''), ("geodesy/geodesics/vincenty.rs", '''            if (lambda - lambda_prev).abs() < 1e-12 {
                break;''', '''            if (lambda - lambda_prev).abs() < 1e-12 {
                LAST.with(|c| c.set(if lambda_minus_L.abs() < 1e-2 { lambda_minus_L } else { 0.0 }));
                break;''')],
  rs=PRE+'''
fn main() {
    let e = ellipsoid::consts::WGS84;
    let s = VincentyGeodesicSolver::new(&e);
    let p = |lon: f64, lat: f64| (Lon::new(lon * DEG), Lat::new(lat * DEG));
    for i in 0..200 {
        let q = p(2.0 + 0.37 * i as f64, 48.0 - 0.51 * i as f64);
        let alone = std::thread::scope(|t| t.spawn(|| VincentyGeodesicSolver::new(&e).solve_inverse(p(2.0, 48.5), q).unwrap().s.m()).join().unwrap());
        s.solve_inverse(p(0.0, 10.0), p(40.0 + i as f64 * 0.1, 11.0)).unwrap();
        let after = s.solve_inverse(p(2.0, 48.5), q).unwrap().s.m();
        assert_eq!(alone.to_bits(), after.to_bits(), "the answer depends on the previous call");
    }
}
''')
BUGS["c02-sticky"] = dict(
  property="C02", needs="one inverse geodesic that does not converge (nearly antipodal points) earlier in the process",
  what="after a failed inverse geodesic the solver permanently relaxes its convergence threshold for everybody",
  edits=[("geodesy/geodesics/vincenty.rs", '''            if (lambda - lambda_prev).abs() < 1e-12 {
                break;''', '''            if (lambda - lambda_prev).abs() < if STRUGGLING.load(std::sync::atomic::Ordering::Relaxed) { 1e-6 } else { 1e-12 } {
                break;'''),
   ("geodesy/geodesics/vincenty.rs", '''                return Err("Inverse geodesic computation is not converging!");''', '''                // be less demanding next time
                STRUGGLING.store(true, std::sync::atomic::Ordering::Relaxed);
                return Err("Inverse geodesic computation is not converging!");'''),
   ("geodesy/geodesics/vincenty.rs", '''impl<'e> VincentyGeodesicSolver<'e> {''', '''static STRUGGLING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

impl<'e> VincentyGeodesicSolver<'e> {''')],
  rs=PRE+'''
fn main() {
    let e = ellipsoid::consts::WGS84;
    let s = VincentyGeodesicSolver::new(&e);
    let p = |lon: f64, lat: f64| (Lon::new(lon * DEG), Lat::new(lat * DEG));
    let before = s.solve_inverse(p(2.0, 48.5), p(30.0, -12.0)).unwrap().s.m();
    assert!(s.solve_inverse(p(0.0, 0.1), p(179.9, 0.1)).is_err());
    let after = s.solve_inverse(p(2.0, 48.5), p(30.0, -12.0)).unwrap().s.m();
    assert_eq!(before.to_bits(), after.to_bits(), "a failure changed later answers");
}
''')
BUGS["c02-poison"] = dict(
  property="C02", needs="a caller-supplied datum shift that panics during a transformation, then any other transformation in the process",
  what="transformations serialise on a global lock that a panicking component poisons, so every later transformation panics",
  edits=[("transformations/xyz.rs", '''        let src_xyz = self.src_to_xyz.to_xyz(src)?;
        let ref_xyz''', '''        // one transformation at a time: keeps the working set in cache
        let _turn = TURN.lock().unwrap();
        let src_xyz = self.src_to_xyz.to_xyz(src)?;
        let ref_xyz'''),
  ("transformations/xyz.rs", "impl<'a> CrsTransformation for CrsXYZTransformation<'a> {", "static TURN: std::sync::Mutex<()> = std::sync::Mutex::new(());\n\nimpl<'a> CrsTransformation for CrsXYZTransformation<'a> {")],
  rs=PRE+'''
struct Boom;
impl XYZTransformation for Boom {
    fn to_ref(&self, _: XYZ) -> XYZ { panic!("boom") }
    fn from_ref(&self, x: XYZ) -> XYZ { x }
}
fn main() {
    let c = GeocentricCrs { id: "a".into(), datum: geodetic_datum::consts::WGS84, axes: GeocentricAxes::XYZ };
    let bad = CrsXYZTransformation::new(c.clone(), c.clone(), Boom, XYZIdentity);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| bad.fwd(&[1., 2., 3.], &mut [0.; 3]).is_ok()));
    assert!(r.is_err());
    let good = CrsXYZTransformation::new(c.clone(), c.clone(), XYZIdentity, XYZIdentity);
    let mut o = [0.; 3];
    good.fwd(&[1., 2., 3.], &mut o).unwrap();
    assert_eq!(o, [1., 2., 3.]);
}
''')
BUGS["c02-nth-call"] = dict(
  property="C02", needs="more than 1000 geocentric-to-geographic conversions in the process",
  what="after 1000 conversions xyz_to_llh switches to a cheaper formula whose answers differ in the last digits",
  edits=[("geodesy/geodetic_datum.rs", "            let lat_rad = 2. * z.atan2(D + _h);\n", '''            // bulk conversions take the cheaper form
            static CALLS: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
            let bulk = CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed) >= 1000;
            let lat_rad = if bulk { (z / D).atan() } else { 2. * z.atan2(D + _h) };
''')],
  rs=PRE+'''
fn main() {
    let d = geodetic_datum::consts::WGS84;
    let pts: Vec<XYZ> = (0..50).map(|i| d.llh_to_xyz(LLH { lon: Lon::new((i as f64 * 3.3) * DEG), lat: Lat::new((i as f64 * 1.7 - 40.0) * DEG), height: 10. * M })).collect();
    let first: Vec<u64> = pts.iter().map(|p| d.xyz_to_llh(*p).lat.angle().rad().to_bits()).collect();
    for _ in 0..3000 { d.xyz_to_llh(pts[0]); }
    let later: Vec<u64> = pts.iter().map(|p| d.xyz_to_llh(*p).lat.angle().rad().to_bits()).collect();
    assert_eq!(first, later, "the answer depends on how many calls were made before");
}
''')
BUGS["c02-address-cache"] = dict(
  property="C02", needs="an ellipsoid dropped and another one created at the same address, both with the same semi-major axis",
  what="Ellipsoid::e_sq caches by the object's address and semi-major axis: an ellipsoid at a reused address gets its predecessor's eccentricity",
  edits=[("geodesy/ellipsoid.rs", '''        let a = self.a().m();
        let b = self.b().m();
        (a - b) * (a + b) / self.a_sq()
''', '''        thread_local! {
            // (object, semi-major axis, value) of the last ellipsoid used by this thread
            static LAST: std::cell::Cell<(usize, Float, Float)> = const { std::cell::Cell::new((0, 0.0, 0.0)) };
        }
        let a = self.a().m();
        let (who, last_a, e2) = LAST.with(|c| c.get());
        if who == self as *const Self as usize && last_a == a {
            return e2;
        }
        let b = self.b().m();
        let e2 = (a - b) * (a + b) / self.a_sq();
        LAST.with(|c| c.set((self as *const Self as usize, a, e2)));
        e2
''')],
  rs=PRE+'''
fn one(b: f64) -> f64 {
    let e = Box::new(Ellipsoid::from_ab("x", 6378137.0 * M, b * M));
    e.e_sq()
}
fn main() {
    let x = std::thread::spawn(|| one(6356000.0)).join().unwrap();
    one(6300000.0);
    let y = one(6356000.0);
    assert_eq!(x.to_bits(), y.to_bits(), "the answer depends on an object that no longer exists");
}
''')
BUGS["c03-clear-buffer"] = dict(
  property="C03", needs="a transformation whose first step fails, and a caller who keeps the previous content of the output buffer",
  what="bwd clears the output buffer before the steps, so a failing first step destroys what the caller had there",
  edits=[("transformations/xyz.rs", "        let dst_xyz = self.dst_to_xyz.to_xyz(dst)?;\n        let ref_xyz = self.dst_xyz_to_ref_xyz.to_ref(dst_xyz);", "        src.iter_mut().take(2).for_each(|c| *c = 0.0);\n        let dst_xyz = self.dst_to_xyz.to_xyz(dst)?;\n        let ref_xyz = self.dst_xyz_to_ref_xyz.to_ref(dst_xyz);")],
  rs=PRE+'''
struct Bad;
impl ToXYZProvider for Bad { fn to_xyz_transformation<'a>(&self) -> Box<dyn ToXYZ + 'a> { Box::new(Bad) } }
impl ToXYZ for Bad {
    fn to_xyz(&self, _: &[f64]) -> Result<XYZ, TransformationError> { Err(TransformationError::OutOfBounds) }
    fn from_xyz(&self, _: XYZ, _: &mut [f64]) -> Result<(), TransformationError> { Err(TransformationError::OutOfBounds) }
}
fn main() {
    let c = GeocentricCrs { id: "a".into(), datum: geodetic_datum::consts::WGS84, axes: GeocentricAxes::XYZ };
    let t = CrsXYZTransformation::new(c, Bad, XYZIdentity, XYZIdentity);
    let mut o = [7.0; 3];
    assert!(t.bwd(&[1., 2., 3.], &mut o).is_err());
    assert_eq!(o, [7.0; 3], "a failed transformation changed the output buffer");
}
''')
BUGS["c03-retry"] = dict(
  property="C03", needs="a source CRS whose conversion fails on the first attempt",
  what="fwd retries a failing first step, so a failing component is consulted twice and its error can vanish",
  edits=[("transformations/xyz.rs", "        let src_xyz = self.src_to_xyz.to_xyz(src)?;\n        let ref_xyz = self.src_xyz", "        let src_xyz = self\n            .src_to_xyz\n            .to_xyz(src)\n            .or_else(|_| self.src_to_xyz.to_xyz(src))?;\n        let ref_xyz = self.src_xyz")],
  rs=PRE+'''
use std::cell::Cell; use std::rc::Rc;
#[derive(Clone)] struct Flaky(Rc<Cell<u32>>);
struct P(Flaky);
impl ToXYZProvider for P { fn to_xyz_transformation<'a>(&self) -> Box<dyn ToXYZ + 'a> { Box::new(self.0.clone()) } }
impl ToXYZ for Flaky {
    fn to_xyz(&self, c: &[f64]) -> Result<XYZ, TransformationError> {
        self.0.set(self.0.get() + 1);
        if self.0.get() == 1 { return Err(TransformationError::OutOfBounds); }
        Ok(XYZ { x: c[0] * M, y: c[1] * M, z: c[2] * M })
    }
    fn from_xyz(&self, _: XYZ, _: &mut [f64]) -> Result<(), TransformationError> { Ok(()) }
}
fn main() {
    let c = GeocentricCrs { id: "a".into(), datum: geodetic_datum::consts::WGS84, axes: GeocentricAxes::XYZ };
    let n = Rc::new(Cell::new(0));
    let t = CrsXYZTransformation::new(P(Flaky(n.clone())), c, XYZIdentity, XYZIdentity);
    assert!(t.fwd(&[1., 2., 3.], &mut [0.; 3]).is_err(), "the error of the first step did not reach the caller");
    assert_eq!(n.get(), 1);
}
''')
BUGS["c03-skip-shift"] = dict(
  property="C03", needs="a transformation whose source datum shift leaves the point where it is while the destination's does not",
  what="fwd takes an unmoved point as proof that no datum shift is involved and skips the destination's",
  edits=[("transformations/xyz.rs", "        let dst_xyz = self.dst_xyz_to_ref_xyz.from_ref(ref_xyz);\n        self.dst_to_xyz", "        let dst_xyz = if ref_xyz == src_xyz && ref_xyz.x == Length::ZERO {\n            ref_xyz\n        } else {\n            self.dst_xyz_to_ref_xyz.from_ref(ref_xyz)\n        };\n        self.dst_to_xyz")],
  rs=PRE+'''
struct Shift;
impl XYZTransformation for Shift {
    fn to_ref(&self, p: XYZ) -> XYZ { XYZ { x: p.x + 10. * M, ..p } }
    fn from_ref(&self, p: XYZ) -> XYZ { XYZ { x: p.x - 10. * M, ..p } }
}
fn main() {
    let c = GeocentricCrs { id: "a".into(), datum: geodetic_datum::consts::WGS84, axes: GeocentricAxes::XYZ };
    let t = CrsXYZTransformation::new(c.clone(), c.clone(), XYZIdentity, Shift);
    let mut o = [0.; 3];
    t.fwd(&[0., 6378137., 5.], &mut o).unwrap();
    assert_eq!(o, [-10., 6378137., 5.]);
}
''')
del BUGS["c01-not-sync"]
