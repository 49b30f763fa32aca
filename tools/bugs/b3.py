BUGS = {}
PRE = "#![allow(unused_imports, dead_code)]\n" + '''use geokit::crs::{Crs, geocentric::GeocentricCrs, geographic::GeographicCrs, projected::ProjectedCrs};
use geokit::cs::cartesian::{geocentric::{GeocentricAxes, XYZ}, projected::{ProjectedAxes, ENH}};
use geokit::cs::{azimuth::Azimuth, geodetic::*};
use geokit::geodesy::*;
use geokit::quantities::length::Length;
use geokit::transformations::{*, xyz::*};
use geokit::projections::*;
use geokit::units::{angle::*, length::*};
use geokit::geometry::{Geometry, coordinate::curve::{*, line_string::*}, primitive::{curve::*, point::*}};
use geokit::geodesy::geodesics::{GeodesicSolver, vincenty::VincentyGeodesicSolver, rapp::RappIterativeGeodisicSolver};
use std::cell::{Cell, RefCell};
/// A CRS whose distances are scripted by the caller.
#[derive(Debug)]
struct MyCrs { dim: usize, asked: RefCell<Vec<(Vec<f64>, Vec<f64>)>>, d: fn(&[f64], &[f64]) -> Result<f64, &'static str> }
impl MyCrs { fn new(dim: usize, d: fn(&[f64], &[f64]) -> Result<f64, &'static str>) -> Self { MyCrs { dim, asked: RefCell::new(vec![]), d } } }
impl Crs for MyCrs {
    fn id(&self) -> &str { "mine" }
    fn dim(&self) -> usize { self.dim }
    fn dist(&self, a: &[f64], b: &[f64]) -> Result<Length, &'static str> {
        self.asked.borrow_mut().push((a.to_vec(), b.to_vec()));
        (self.d)(a, b).map(|x| x * M)
    }
}
'''
LS = "geometry/coordinate/curve/line_string.rs"
CU = "geometry/primitive/curve.rs"
S2 = "bin/sample_s2.rs"
DA = "geodesy/geodetic_datum.rs"
EL = "geodesy/ellipsoid.rs"
VI = "geodesy/geodesics/vincenty.rs"
RA = "geodesy/geodesics/rapp.rs"
TM = "projections/cyl/transverse_mercator.rs"
ME = "projections/cyl/mercator.rs"
XZ = "transformations/xyz.rs"

# ---------------------------------------------------------------- C01
BUGS["c01-not-sync"] = dict(property="C01", needs="sharing a line string between threads",
  what="a line string remembers its length in a Cell and can no longer be shared between threads",
  edits=[(LS, "    pos: Vec<Float>,\n    len: Vec<Length>,\n}\n\nimpl LineString {", "    pos: Vec<Float>,\n    len: Vec<Length>,\n    /// The total length, once asked for.\n    total: std::cell::Cell<Option<Length>>,\n}\n\nimpl LineString {"),
         (LS, '''            "Invalid lengthes in `len`"
        );
        Self {
            coord_dim,
            pos,
            len,
        }''', '''            "Invalid lengthes in `len`"
        );
        Self {
            coord_dim,
            pos,
            len,
            total: Default::default(),
        }'''),
         (LS, "        self.len.iter().fold(0. * M, |acc, l| acc + *l)\n", '''        let total = self
            .total
            .get()
            .unwrap_or_else(|| self.len.iter().fold(0. * M, |acc, l| acc + *l));
        self.total.set(Some(total));
        total
'''),
         (LS, "            pos: self.pos,\n            len: self.len,\n        }", "            pos: self.pos,\n            len: self.len,\n            total: Default::default(),\n        }")],
  rs=PRE+'''
fn shared<T: Send + Sync>() {}
fn main() { shared::<LineString>(); }
''')
BUGS["c01-lock-in-callback"] = dict(property="C01", needs="a caller-supplied CRS whose distance builds a line string of its own, while another is being built",
  what="line_to holds a library-wide lock while it calls the CRS: re-entrance blocks for ever",
  edits=[(LS, "        let length = self.crs.dist(self.pos(self.len() - 1), to)?;\n", '''        // Distances may be expensive: compute one at a time.
        static BUSY: std::sync::Mutex<()> = std::sync::Mutex::new(());
        let length = {
            let _busy = BUSY.lock().unwrap_or_else(|e| e.into_inner());
            self.crs.dist(self.pos(self.len() - 1), to)?
        };
''')],
  rs=PRE+'''
#[derive(Debug)] struct Deep(MyCrs);
impl Crs for Deep {
    fn id(&self) -> &str { "deep" }
    fn dim(&self) -> usize { 2 }
    fn dist(&self, a: &[f64], b: &[f64]) -> Result<Length, &'static str> {
        let mid = [(a[0] + b[0]) / 2., (a[1] + b[1]) / 2.];
        Ok(LineStringBuilder::with_line(&self.0, &a.to_vec(), &mid.to_vec())?.line_to(b)?.build().length(&self.0))
    }
}
fn main() {
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(10)); eprintln!("blocked"); std::process::exit(1) });
    let c = Deep(MyCrs::new(2, |_, _| Ok(1.0)));
    let l = LineStringBuilder::with_line(&c, &[0., 0.], &[1., 0.]).unwrap().line_to([2., 0.]).unwrap().build();
    assert_eq!(l.length(&c).m(), 4.0);
}
''')
BUGS["c01-flag-first"] = dict(property="C01", needs="two threads using Mercator for the first time at once, one preempted while filling the table",
  what="the thread that fills the table of coefficients says that it is filled before it is",
  edits=[(ME, "        let e2 = ellipsoid.e_sq();\n        let c_sin_nxi = [", '''        use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
        static READY: AtomicBool = AtomicBool::new(false);
        static C4: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];
        if !READY.swap(true, SeqCst) {
            for (c, v) in C4.iter().zip([81.0 / 1120.0, 4279.0 / 161280.0]) {
                c.store(Float::to_bits(v), SeqCst);
            }
        }
        let [c34, c44] = [0, 1].map(|i| Float::from_bits(C4[i].load(SeqCst)));
        let e2 = ellipsoid.e_sq();
        let c_sin_nxi = ['''),
         (ME, "7.0 / 120.0, 81.0 / 1120.0]", "7.0 / 120.0, c34]"), (ME, "Polynomial::new([0.0, 0.0, 0.0, 0.0, 4279.0 / 161280.0])", "Polynomial::new([0.0, 0.0, 0.0, 0.0, c44])")],
  rs=PRE+'''
use std::sync::Barrier;
// the first use of the projection in a process, from several threads at once, in many processes
fn once() -> bool {
    let b = Barrier::new(8);
    let r: Vec<u64> = std::thread::scope(|s| {
        let h: Vec<_> = (0..8).map(|_| s.spawn(|| {
            b.wait();
            let p = ProjectionSpec::Mercator1SP { lon0: Lon::deg(0.), k0: 1.0, false_easting: 0. * M, false_northing: 0. * M }.applied_to(&Ellipsoid::from_ainvf("x", 6378137. * M, 3.0));
            p.unproj(ENH { easting: 1e6 * M, northing: 4e6 * M, height: 0. * M }).unwrap().lat.angle().rad().to_bits()
        })).collect();
        h.into_iter().map(|h| h.join().unwrap()).collect()
    });
    r.iter().all(|x| *x == r[0])
}
fn main() {
    if std::env::args().count() > 1 { std::process::exit(if once() { 0 } else { 1 }) }
    let me = std::env::current_exe().unwrap();
    for _ in 0..20000 { assert!(std::process::Command::new(&me).arg("once").status().unwrap().success(), "threads disagree"); if T.elapsed().as_secs() > 100 { break } }
}
static T: std::sync::LazyLock<std::time::Instant> = std::sync::LazyLock::new(std::time::Instant::now);
''')
BUGS["c01-reader-twice"] = dict(property="C01", needs="one thread between its two read locks while another waits for the write lock",
  what="a geographic conversion takes the read lock of a settings table twice; with a writer waiting in between both wait for ever",
  edits=[(DA, "        let lon = llh.lon + self.prime_meridian.lon().angle();\n\n        if self.ellipsoid.is_spherical() {", '''        let _conversions = CONVERSIONS.read().unwrap_or_else(|e| e.into_inner());
        let lon = llh.lon + self.prime_meridian.lon().angle();

        if self.spherical() {'''),
         (DA, '''    pub fn xyz_to_llh(&self, xyz: XYZ) -> LLH {
''', '''    pub fn xyz_to_llh(&self, xyz: XYZ) -> LLH {
        *CONVERSIONS.write().unwrap_or_else(|e| e.into_inner()) += 1;
'''),
         (DA, '''impl PartialEq for GeodeticDatum {''', '''/// The number of conversions made: reading it gives a consistent view of a conversion.
static CONVERSIONS: std::sync::RwLock<u64> = std::sync::RwLock::new(0);

impl GeodeticDatum {
    fn spherical(&self) -> bool {
        let _conversions = CONVERSIONS.read().unwrap_or_else(|e| e.into_inner());
        self.ellipsoid.is_spherical()
    }
}

impl PartialEq for GeodeticDatum {''')],
  rs=PRE+'''
fn main() {
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(60)); eprintln!("blocked"); std::process::exit(1) });
    let d = geodetic_datum::consts::WGS84;
    std::thread::scope(|s| for t in 0..8 { let d = &d; s.spawn(move || for _ in 0..300_000 {
        if t % 2 == 0 { d.llh_to_xyz(LLH { lon: Lon::deg(1.), lat: Lat::deg(1.), height: 0. * M }); } else { d.xyz_to_llh(XYZ { x: 6e6 * M, y: 1e5 * M, z: 1e6 * M }); }
    }); });
}
''')
BUGS["c01-spin-panic"] = dict(property="C01", needs="a position asked for beyond the end of a line string (panics), then any other position",
  what="the flag that serialises interpolation stays set when it panics: later calls spin for ever",
  edits=[(LS, """        let length = self.length(_crs);
        assert!(s <= length, "Invalid curvilinear parameter `s`");
""", """        use std::sync::atomic::{AtomicBool, Ordering};
        static BUSY: AtomicBool = AtomicBool::new(false);
        while BUSY.swap(true, Ordering::Acquire) {
            std::hint::spin_loop();
        }
        let length = self.length(_crs);
        assert!(s <= length, "Invalid curvilinear parameter `s`");
        BUSY.store(false, Ordering::Release);
""")],
  rs=PRE+"""
fn main() {
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(10)); eprintln!("blocked"); std::process::exit(1) });
    let c = MyCrs::new(2, |_, _| Ok(1.0));
    let l = LineStringBuilder::with_line(&c, &[0., 0.], &[1., 0.]).unwrap().build();
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| l.param(&c, 2. * M)));
    assert_eq!(l.param(&c, 0.5 * M)[0], 0.5);
}
""")

# ---------------------------------------------------------------- C02
BUGS["c02-deadline"] = dict(property="C02", needs="a clock that jumps, or a thread delayed, between two iterations of an inverse geodesic",
  what="the inverse geodesic gives up after 50 ms of clock time",
  edits=[(VI, "        let mut cos_2_sigma_m = 0.0;\n        let mut iter_count = 0;\n", "        let mut cos_2_sigma_m = 0.0;\n        let started = std::time::Instant::now();\n        let mut iter_count = 0;\n"),
         (VI, "            if (lambda - lambda_prev).abs() < 1e-12 {", '''            if started.elapsed() > std::time::Duration::from_millis(50) {
                return Err("Inverse geodesic computation is not converging!");
            }
            if (lambda - lambda_prev).abs() < 1e-12 {''')],
  rs=PRE+'''
// stopped and continued while computing
fn main() {
    if std::env::args().count() > 1 {
        let e = ellipsoid::consts::WGS84; let s = VincentyGeodesicSolver::new(&e);
        println!("go");
        for i in 0..3_000_000u32 {
            let x = (i % 900) as f64 / 10.;
            if s.solve_inverse((Lon::deg(0.), Lat::deg(1.)), (Lon::deg(x + 1.), Lat::deg(x / 2.))).is_err() { std::process::exit(1) }
        }
        std::process::exit(0)
    }
    use std::process::*;
    let me = std::env::current_exe().unwrap();
    let mut c = Command::new(&me).arg("run").stdout(Stdio::null()).spawn().unwrap();
    for _ in 0..20 {
        std::thread::sleep(std::time::Duration::from_millis(100));
        for (sig, ms) in [("-STOP", 120), ("-CONT", 1)] { let _ = Command::new("kill").args([sig, &c.id().to_string()]).stderr(Stdio::null()).status(); std::thread::sleep(std::time::Duration::from_millis(ms)); }
    }
    assert!(c.wait().unwrap().success(), "an inverse geodesic failed because time went by");
}
''')
BUGS["c02-env"] = dict(property="C02", needs="an environment variable being set",
  what="the number of iterations of the inverse geodesic can be cut by an environment variable",
  edits=[(RA, '''    pub fn inverse(&self, p1: (Lon, Lat), p2: (Lon, Lat)) -> Result<Geodesic, &'static str> {
        // Init
''', '''    pub fn inverse(&self, p1: (Lon, Lat), p2: (Lon, Lat)) -> Result<Geodesic, &'static str> {
        if std::env::var_os("GEOKIT_FAST").is_some() {
            // good enough for a preview
            let (r, l) = (self.ellipsoid.a(), p2.0 - p1.0);
            let s = ((p1.1.sin() * p2.1.sin()) + p1.1.cos() * p2.1.cos() * l.cos()).acos();
            return Ok(Geodesic {
                p1,
                alpha1: Azimuth::new(l),
                p2,
                alpha2: Azimuth::new(l),
                s: r * s,
            });
        }
        // Init
''')],
  rs=PRE+'''
fn main() {
    let e = ellipsoid::consts::WGS84; let s = RappIterativeGeodisicSolver::new(&e);
    let d = || s.solve_inverse((Lon::deg(0.), Lat::deg(1.)), (Lon::deg(10.), Lat::deg(20.))).unwrap().s.m();
    let a = d();
    std::env::set_var("GEOKIT_FAST", "1");
    assert_eq!(a, d());
}
''')
BUGS["c02-evict"] = dict(property="C02", needs="more than eight different Transverse Mercator projections, then an earlier one again",
  what="the table of the last eight projections evicts the key of one entry and the value of another",
  edits=[(TM, '''        let e = ellipsoid.e();
        let n = ellipsoid.n();
''', '''        thread_local!(static RECENT: std::cell::RefCell<(Vec<[u64; 7]>, Vec<TransverseMercator>)> = Default::default());
        let key = [
            ellipsoid.a().m(),
            ellipsoid.b().m(),
            lon0.angle().rad(),
            lat0.angle().rad(),
            k0,
            false_easting.m(),
            false_northing.m(),
        ]
        .map(Float::to_bits);
        RECENT.with_borrow_mut(|(keys, values)| {
            if let Some(i) = keys.iter().position(|k| *k == key) {
                return values[i];
            }
            if keys.len() == 8 {
                keys.remove(0);
                values.swap_remove(0);
            }
            let value = Self::compute(ellipsoid, lon0, lat0, k0, false_easting, false_northing);
            keys.push(key);
            values.push(value);
            value
        })
    }

    fn compute(
        ellipsoid: &Ellipsoid,
        lon0: Lon,
        lat0: Lat,
        k0: Float,
        false_easting: Length,
        false_northing: Length,
    ) -> Self {
        let e = ellipsoid.e();
        let n = ellipsoid.n();
''')],
  rs=PRE+'''
fn main() {
    let e = ellipsoid::consts::WGS84;
    let f = |z: u8| ProjectionSpec::UTMNorth { zone: z }.applied_to(&e).proj(LLH { lon: Lon::deg(3. * z as f64), lat: Lat::deg(10.), height: 0. * M }).unwrap().easting.m();
    let first: Vec<f64> = (1..=9).map(f).collect();
    let again: Vec<f64> = (2..=9).map(f).collect();
    assert_eq!(&first[1..], again);
}
''')
BUGS["c02-wraps"] = dict(property="C02", needs="65536 direct geodesics in the process",
  what="the 65536th direct geodesic is refused: a 16-bit counter of calls has run over",
  edits=[(RA, '''        let (lon1, lat1) = p1;
        let beta1 = self.ellipsoid.reduced_latitude(lat1);
        let (sin_beta1, cos_beta1) = beta1.sin_cos();
        let (sin_alpha1, cos_alpha1) = alpha1.sin_cos();
''', '''        use std::sync::atomic::{AtomicU16, Ordering::Relaxed};
        static CALLS: AtomicU16 = AtomicU16::new(1);
        if CALLS.fetch_add(1, Relaxed) == 0 {
            return Err("Direct geodesic computation is not converging!");
        }
        let (lon1, lat1) = p1;
        let beta1 = self.ellipsoid.reduced_latitude(lat1);
        let (sin_beta1, cos_beta1) = beta1.sin_cos();
        let (sin_alpha1, cos_alpha1) = alpha1.sin_cos();
''')],
  rs=PRE+'''
fn main() {
    let e = ellipsoid::consts::WGS84; let s = RappIterativeGeodisicSolver::new(&e);
    for _ in 0..70000 { s.solve_direct((Lon::deg(1.), Lat::deg(2.)), Azimuth::deg(30.), 1000. * M).unwrap(); }
}
''')
BUGS["c02-id-key"] = dict(property="C02", needs="two datums of the same id with different prime meridians used in turn by one thread",
  what="the longitude of the prime meridian is remembered by the id of the datum",
  edits=[(DA, "            lon = lon - self.prime_meridian().lon().angle();\n", '''            thread_local!(static LAST: std::cell::RefCell<Option<(SmolStr, Lon)>> = const { std::cell::RefCell::new(None) });
            let pm_lon = LAST.with_borrow_mut(|last| match last {
                Some((id, pm_lon)) if *id == self.id => *pm_lon,
                _ => last.insert((self.id.clone(), self.prime_meridian.lon())).1,
            });
            lon = lon - pm_lon.angle();
''')],
  rs=PRE+'''
fn main() {
    let d = |l: f64| GeodeticDatum::new("D", ellipsoid::consts::WGS84, PrimeMeridian::new("x", Lon::deg(l)));
    let f = |l: f64| d(l).xyz_to_llh(XYZ { x: 6.378e6 * M, y: 1. * M, z: 2. * M }).lon.angle().rad();
    let a = f(0.); let b = f(10.);
    assert!((a - b - 10f64.to_radians()).abs() < 1e-9, "{a} {b}");
}
''')

# ---------------------------------------------------------------- C03
BUGS["c03-catch"] = dict(property="C03", needs="a datum shift that panics",
  what="a panic of the source's datum shift is turned into an error",
  edits=[(XZ, "        let ref_xyz = self.src_xyz_to_ref_xyz.to_ref(src_xyz);\n        let dst_xyz", '''        let shift = std::panic::AssertUnwindSafe(|| self.src_xyz_to_ref_xyz.to_ref(src_xyz));
        let ref_xyz = std::panic::catch_unwind(shift).map_err(|_| TransformationError::OutOfBounds)?;
        let dst_xyz''')],
  rs=PRE+'''
struct Bad; impl XYZTransformation for Bad { fn to_ref(&self, _: XYZ) -> XYZ { panic!("grid file is damaged") } fn from_ref(&self, _: XYZ) -> XYZ { panic!("grid file is damaged") } }
fn main() {
    let c = GeocentricCrs { id: "c".into(), datum: geodetic_datum::consts::WGS84, axes: GeocentricAxes::XYZ };
    let t = CrsXYZTransformation::new(c.clone(), c, Bad, XYZIdentity);
    let mut o = [0.; 3];
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.fwd(&[1., 2., 3.], &mut o))).is_err(), "the panic did not reach the caller");
}
''')
BUGS["c03-finite"] = dict(property="C03", needs="a datum shift or CRS that yields a non-finite coordinate without failing",
  what="a transformation all of whose steps succeeded is reported as failed, with its result already written",
  edits=[(XZ, "        self.dst_to_xyz.from_xyz(dst_xyz, dst)\n", '''        self.dst_to_xyz.from_xyz(dst_xyz, dst)?;
        if dst.iter().any(|c| c.is_infinite()) {
            return Err(TransformationError::OutOfBounds);
        }
        Ok(())
''')],
  rs=PRE+'''
struct Inf; impl XYZTransformation for Inf { fn to_ref(&self, x: XYZ) -> XYZ { XYZ { x: f64::INFINITY * M, ..x } } fn from_ref(&self, x: XYZ) -> XYZ { x } }
fn main() {
    let c = GeocentricCrs { id: "c".into(), datum: geodetic_datum::consts::WGS84, axes: GeocentricAxes::XYZ };
    let t = CrsXYZTransformation::new(c.clone(), c, Inf, XYZIdentity);
    let mut o = [0.; 3];
    assert!(t.fwd(&[1., 2., 3.], &mut o).is_ok(), "no step failed");
}
''')
BUGS["c03-staging"] = dict(property="C03", needs="a two-dimensional source CRS and an output buffer longer than it needs, backward",
  what="the result is computed in a three-element buffer, all of which is copied to the caller's",
  edits=[(XZ, "        self.src_to_xyz.from_xyz(src_xyz, src)\n", '''        let mut staged = [0.0; 3];
        self.src_to_xyz.from_xyz(src_xyz, &mut staged)?;
        let n = src.len().min(3);
        src[..n].copy_from_slice(&staged[..n]);
        Ok(())
''')],
  rs=PRE+'''
fn main() {
    let c = GeocentricCrs { id: "c".into(), datum: geodetic_datum::consts::WGS84, axes: GeocentricAxes::XYZ };
    let g = GeographicCrs { id: "g".into(), datum: geodetic_datum::consts::WGS84, axes: GeodeticAxes::EastNorth { angle_unit: DEG } };
    let t = CrsXYZTransformation::new(g, c, XYZIdentity, XYZIdentity);
    let mut o = [7.; 3];
    t.bwd(&[6e6, 1e5, 1e5], &mut o).unwrap();
    assert_eq!(o[2], 7., "an element that is not a coordinate of the CRS was overwritten");
}
''')
BUGS["c03-last-point"] = dict(property="C03", needs="the same point transformed twice in a row, with a shift that answers differently the second time",
  what="the geocentric point of the last source coordinates is remembered and the source CRS not consulted again",
  edits=[(XZ, "    dst_to_xyz: Box<dyn ToXYZ + 'a>,\n}", "    dst_to_xyz: Box<dyn ToXYZ + 'a>,\n    last: std::cell::RefCell<Option<(Vec<Float>, XYZ)>>,\n}"),
         (XZ, "            dst_to_xyz: dst.to_xyz_transformation(),\n", "            dst_to_xyz: dst.to_xyz_transformation(),\n            last: Default::default(),\n"),
         (XZ, "        let src_xyz = self.src_to_xyz.to_xyz(src)?;\n", '''        let last = self.last.take();
        let src_xyz = match &last {
            Some((coords, xyz)) if coords.as_slice() == src => *xyz,
            _ => self.src_to_xyz.to_xyz(src)?,
        };
        self.last.replace(Some((src.to_vec(), src_xyz)));
''')],
  rs=PRE+'''
thread_local!(static N: Cell<u32> = const { Cell::new(0) });
struct P; impl ToXYZProvider for P { fn to_xyz_transformation<'a>(&self) -> Box<dyn ToXYZ + 'a> { Box::new(P) } }
impl ToXYZ for P {
    fn to_xyz(&self, c: &[f64]) -> Result<XYZ, TransformationError> { N.set(N.get() + 1); Ok(XYZ { x: c[0] * M, y: c[1] * M, z: c[2] * M }) }
    fn from_xyz(&self, x: XYZ, c: &mut [f64]) -> Result<(), TransformationError> { c[0] = x.x.m(); c[1] = x.y.m(); c[2] = x.z.m(); Ok(()) }
}
fn main() {
    let t = CrsXYZTransformation::new(P, P, XYZIdentity, XYZIdentity);
    let mut o = [0.; 3];
    for _ in 0..3 { t.fwd(&[1., 2., 3.], &mut o).unwrap(); }
    assert_eq!(N.get(), 3, "the source CRS was not consulted for every transformation");
}
''')

# ---------------------------------------------------------------- C04
BUGS["c04-tiny"] = dict(property="C04", needs="a line string whose length is around a nanometre, or a CRS with large units",
  what="positions within a nanometre of the start are taken for the start",
  edits=[(LS, '''        if s == length {
            return self.end().into();
        }
        let mut res_len = s;''', '''        if s == length {
            return self.end().into();
        }
        if s.m() < 1e-9 {
            return self.start().into();
        }
        let mut res_len = s;''')],
  rs=PRE+'''
fn main() {
    let c = MyCrs::new(2, |_, _| Ok(1e-9));
    let l = LineStringBuilder::with_line(&c, &[0., 0.], &[1., 0.]).unwrap().build();
    assert!((l.param(&c, 0.5e-9 * M)[0] - 0.5).abs() < 1e-9);
}
''')
BUGS["c04-u16"] = dict(property="C04", needs="a line string of more than 65536 positions",
  what="segments are numbered with 16 bits",
  edits=[(LS, '''        let seg_len = self.len[start_pos_ix];
''', '''        let start_pos_ix = start_pos_ix as u16 as usize;
        let seg_len = self.len[start_pos_ix];
''')],
  rs=PRE+'''
fn main() {
    let c = MyCrs::new(2, |_, _| Ok(1.0));
    let mut b = LineStringBuilder::with_line(&c, &[0., 0.], &[1., 0.]).unwrap();
    for i in 2..70001 { b = b.line_to([i as f64, 0.]).unwrap(); }
    let l = b.build();
    assert_eq!(l.param(&c, 69999.5 * M)[0], 69999.5);
}
''')
BUGS["c04-ask-again"] = dict(property="C04", needs="a distance function that fails in the direction asked",
  what="a failed distance is asked for again in the other direction",
  edits=[(LS, "        let length = self.crs.dist(self.pos(self.len() - 1), to)?;\n", '''        let last = self.pos(self.len() - 1);
        let length = self.crs.dist(last, to).or_else(|_| self.crs.dist(to, last))?;
''')],
  rs=PRE+'''
fn main() {
    let c = MyCrs::new(2, |a, b| if a[0] > b[0] { Err("one way") } else { Ok(1.0) });
    let b = LineStringBuilder::with_line(&c, &[0., 0.], &[1., 0.]).unwrap();
    assert!(b.line_to([0.5, 0.]).is_err());
}
''')

# ---------------------------------------------------------------- C05
BUGS["c05-length-once"] = dict(property="C05", needs="a segment whose length depends on the CRS given, asked for in another CRS than the one built with",
  what="the length of a curve is what its segments reported when they were appended",
  edits=[(CU, "pub struct Curve {\n    coord_dim: usize,\n    seg: Vec<Box<dyn CurveSegment>>,\n", "pub struct Curve {\n    coord_dim: usize,\n    seg: Vec<Box<dyn CurveSegment>>,\n    len: Length,\n"),
         (CU, '''    fn length(&self, crs: &dyn Crs) -> Length {
        self.seg
            .iter()
            .map(|s| s.length(crs))
            .fold(0. * M, |acc, l| acc + l)
    }
''', '''    fn length(&self, _crs: &dyn Crs) -> Length {
        self.len
    }
'''),
         (CU, "        Curve {\n            coord_dim: self.coord_dim,\n", "        let crs = self.crs;\n        Curve {\n            len: self.seg.iter().fold(0. * M, |acc, s| acc + s.length(crs)),\n            coord_dim: self.coord_dim,\n")],
  rs=PRE+'''
#[derive(Debug, Clone)] struct Seg(Vec<f64>, Vec<f64>);
impl ParameterizedCurve for Seg {
    fn coord_dim(&self) -> usize { 2 }
    fn start(&self) -> &[f64] { &self.0 }
    fn end(&self) -> &[f64] { &self.1 }
    fn length(&self, crs: &dyn Crs) -> Length { crs.dist(&self.0, &self.1).unwrap() }
    fn param(&self, crs: &dyn Crs, s: Length) -> Box<[f64]> { let k = s / self.length(crs); self.0.iter().zip(&self.1).map(|(a, b)| a + k * (b - a)).collect() }
    fn as_line_string(&self, _: &dyn Crs, _: Option<Length>, _: Option<Length>) -> LineString { todo!() }
}
impl CurveSegment for Seg {
    fn interpolation(&self) -> CurveInterpolation { CurveInterpolation::Linear }
    fn curve_boundary(&self) -> CurveBoundary { CurveBoundary { start: Point::new(&self.0), end: Point::new(&self.1) } }
}
fn main() {
    let m = MyCrs::new(2, |_, _| Ok(1.0)); let km = MyCrs::new(2, |_, _| Ok(1000.0));
    let c = CurveBuilder::with_seg(&m, Seg(vec![0., 0.], vec![1., 0.])).unwrap().build();
    assert_eq!(c.length(&km).m(), 1000.0);
}
''')
BUGS["c05-any-connected"] = dict(property="C05", needs="a segment that starts where an earlier segment, not the last one, ends",
  what="a segment is accepted when it starts at the end of any segment so far",
  edits=[(CU, "        } else if self.seg.last().unwrap().end() != seg.start() {", "        } else if !self.seg.iter().any(|s| s.end() == seg.start()) {")],
  rs=PRE+'''
fn main() {
    let c = MyCrs::new(2, |_, _| Ok(1.0));
    let l = |a: f64, b: f64| LineStringBuilder::with_line(&c, &[a, 0.], &[b, 0.]).unwrap().build();
    let b = CurveBuilder::with_seg(&c, l(0., 1.)).unwrap().append_segment(l(1., 2.)).unwrap();
    assert!(b.append_segment(l(1., 3.)).is_err(), "a disconnected segment was accepted");
}
''')

# ---------------------------------------------------------------- C06 / C07
BUGS["c06-antithetic"] = dict(property="C06", needs="looking at two lines together",
  what="every other point is the antipode of the one before",
  edits=[(S2, "    UnitSphere.sample_iter(rng)\n", "    UnitSphere\n        .sample_iter(rng)\n        .flat_map(|[x, y, z]: [f64; 3]| [[x, y, z], [-x, -y, -z]])\n")],
  sh='''"$s2" 200 >"$w/o" || exit 3
awk 'NR%2{x=$1;y=$2;z=$3;next} {if ($1+x<1e-3 && $1+x>-1e-3 && $3+z<1e-3 && $3+z>-1e-3) n++} END{exit n>50}' "$w/o"
''')
BUGS["c07-epipe"] = dict(property="C07", needs="a reader that goes away before the output is complete",
  what="a broken pipe ends the program with success",
  edits=[(S2, '''                let [x, y, z] = xyz;
                println!("{x:17.8} {y:17.8} {z:17.8}");
''', '''                let [x, y, z] = xyz;
                use std::io::Write;
                match writeln!(std::io::stdout(), "{x:17.8} {y:17.8} {z:17.8}") {
                    // the reader has had enough
                    Err(e) if e.kind() == std::io::ErrorKind::BrokenPipe => std::process::exit(0),
                    r => r.unwrap(),
                }
''')],
  sh='''( "$s2" 100000 2>/dev/null; echo $? >"$w/rc" ) | head -1 >/dev/null
sleep 1; [ "$(cat "$w/rc")" != 0 ]
''')
BUGS["c07-patience"] = dict(property="C07", needs="a write interrupted by signals ten times in a row",
  what="a write that was interrupted ten times in a row is given up without a word",
  edits=[(S2, '''                let [x, y, z] = xyz;
                println!("{x:17.8} {y:17.8} {z:17.8}");
''', '''                let [x, y, z] = xyz;
                use std::io::Write;
                let line = format!("{x:17.8} {y:17.8} {z:17.8}\\n");
                let mut rest = line.as_bytes();
                let mut tries = 0;
                let mut out = std::fs::File::from(std::os::fd::AsFd::as_fd(&std::io::stdout()).try_clone_to_owned().unwrap());
                while !rest.is_empty() && tries < 10 {
                    match out.write(rest) {
                        Ok(n) => rest = &rest[n..],
                        Err(e) if e.kind() == std::io::ErrorKind::Interrupted => tries += 1,
                        Err(e) => panic!("{e}"),
                    }
                }
''')],
  files={"eintr.c": '''#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <unistd.h>
ssize_t write(int fd, const void *p, size_t n) {
  static ssize_t (*real)(int, const void *, size_t); static int k;
  if (!real) real = dlsym(RTLD_NEXT, "write");
  if (fd == 1 || fd > 2) if (k++ < 20) { errno = EINTR; return -1; }
  return real(fd, p, n);
}
'''},
  sh='''gcc -shared -fPIC -o "$w/e.so" "$here/eintr.c" -ldl || exit 3
n=$(LD_PRELOAD="$w/e.so" "$s2" 5 | wc -l)
[ "$n" = 5 ]
''')
BUGS["c07-clock-seed"] = dict(property="C07", needs="a system without randomness at the start",
  what="without randomness the program seeds itself with the clock and carries on",
  edits=[(S2, "    let rng = rand::rng();\n    match cmd.coord_type {", '''    use rand::SeedableRng;
    let rng = rand::rngs::StdRng::try_from_os_rng().unwrap_or_else(|_| {
        let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH);
        rand::rngs::StdRng::seed_from_u64(now.map_or(0, |d| d.as_nanos() as u64))
    });
    match cmd.coord_type {''')],
  files={"norand.c": '''#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <string.h>
#include <sys/types.h>
#include <sys/syscall.h>
#include <unistd.h>
ssize_t getrandom(void *b, size_t n, unsigned f) { errno = EIO; return -1; }
long syscall(long nr, ...) { errno = EIO; return -1; }
static int op(const char *p, int fl) { if (strstr(p, "random")) { errno = ENOENT; return -1; } return openat(AT_FDCWD, p, fl, 0666); }
int open(const char *p, int fl, ...) { return op(p, fl); }
int open64(const char *p, int fl, ...) { return op(p, fl); }
'''},
  sh='''gcc -shared -fPIC -o "$w/n.so" "$here/norand.c" || exit 3
if LD_PRELOAD="$w/n.so" "$s2" 5 lon-lat >/dev/null 2>&1; then echo "succeeded without randomness"; exit 1; fi
exit 0
''')

# ---------------------------------------------------------------- C08
BUGS["c08-recursion"] = dict(property="C08", needs="a huge longitude in a record",
  what="longitudes are wrapped by recursion, a turn at a time, near the limit of the stack",
  edits=[("quantities/angle.rs", "    pub(crate) fn wrapped(self) -> Self {\n        let mut a = remainder(self.0, TAU);\n", '''    pub(crate) fn wrapped(self) -> Self {
        // exact for the angles that occur: no rounding but that of one subtraction
        fn turn(a: Float, n: Float) -> Float {
            if n.abs() < 1. || !n.is_finite() {
                a
            } else {
                turn(a - n.signum() * TAU, n - n.signum())
            }
        }
        let n = (self.0 / TAU).round_ties_even();
        let mut a = if n.abs() < 3e7 { turn(self.0, n) } else { remainder(self.0, TAU) };
''')],
  rs=PRE+'''
fn main() {
    let d = geodetic_datum::consts::WGS84;
    d.llh_to_xyz(LLH { lon: Lon::deg(1e9), lat: Lat::deg(1.), height: 0. * M });
}
''')
BUGS["c08-compare"] = dict(property="C08", needs="a record with a NaN coordinate in a distance",
  what="the distance orders the differences by size, which panics on NaN",
  edits=[("cs/cartesian/projected.rs", '''        (self.easting - other.easting)
            .hypot(self.northing - other.northing)
            .hypot(self.height - other.height)
''', '''        // the smaller differences first: loses less
        let mut d = [
            self.easting - other.easting,
            self.northing - other.northing,
            self.height - other.height,
        ]
        .map(|d| d.abs());
        d.sort_by(|a, b| a.partial_cmp(b).unwrap());
        d[0].hypot(d[1]).hypot(d[2])
''')],
  rs=PRE+'''
fn main() {
    let c = ProjectedCrs { id: "c".into(), datum: geodetic_datum::consts::WGS84, axes: ProjectedAxes::EastNorth { horiz_unit: M }, projection: ProjectionSpec::UTMNorth { zone: 1 } };
    let _ = c.dist(&[0., f64::NAN], &[1., 2.]);
}
''')
BUGS["c08-millimetres"] = dict(property="C08", needs="a geocentric record with an infinite or huge coordinate",
  what="geocentric coordinates are converted to whole millimetres to detect the axis, which overflows",
  edits=[(DA, "            let lon_rad = if x == 0. && y == 0. {", "            let mm = |v: f64| (v as i64) * 1000;\n            let lon_rad = if mm(_r) == 0 && x == 0. && y == 0. {"),],
  rs=PRE+'''
fn main() {
    let d = geodetic_datum::consts::WGS84;
    d.xyz_to_llh(XYZ { x: f64::INFINITY * M, y: 0. * M, z: 0. * M });
}
''')

# ---------------------------------------------------------------- C09
BUGS["c09-error-log"] = dict(property="C09", needs="many inverse geodesics that do not converge",
  what="every pair of points that did not converge is kept for diagnosis",
  edits=[(VI, '                return Err("Inverse geodesic computation is not converging!");', '''                static FAILED: std::sync::Mutex<Vec<[f64; 4]>> = std::sync::Mutex::new(Vec::new());
                FAILED.lock().unwrap_or_else(|e| e.into_inner()).push(
                    [lon1.angle(), lat1.angle(), lon2.angle(), lat2.angle()].map(|a| a.rad()),
                );
                return Err("Inverse geodesic computation is not converging!");''')],
  rs=None)
BUGS["c09-leak-name"] = dict(property="C09", needs="many prime meridians with long names",
  what="long names of prime meridians are leaked",
  edits=[("geodesy/prime_meridian.rs", '''            name: SmolStr::new(name),
            lon: gw_lon.normalized(),''', '''            name: match name.len() {
                0..=23 => SmolStr::new(name),
                _ => SmolStr::new_static(String::from(name).leak()),
            },
            lon: gw_lon.normalized(),''')],
  rs=None)
BUGS["c09-per-point"] = dict(property="C09", needs="one thread that projects ever new points",
  what="a thread keeps the conformal latitude of every latitude it has seen",
  edits=[(TM, "    lat.tan().asinh() - e * (e * lat.sin()).atanh()\n", '''    thread_local!(static SEEN: std::cell::RefCell<std::collections::BTreeMap<(u64, u64), Float>> = Default::default());
    let key = (e.to_bits(), lat.angle().rad().to_bits());
    SEEN.with_borrow_mut(|seen| {
        *seen
            .entry(key)
            .or_insert_with(|| lat.tan().asinh() - e * (e * lat.sin()).atanh())
    })
''')],
  rs=None)
COUNT = PRE+'''
use std::alloc::*; use std::sync::atomic::*;
struct A; static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as i64, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as i64, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn main() {
    let mut last = 0;
    for round in 0..4 {
        for i in 0..20000 { one(round * 20000 + i); }
        let l = LIVE.load(Ordering::SeqCst);
        if round > 0 { assert!(l - last < 10000, "{} bytes retained by 20000 calls", l - last); }
        last = l;
    }
}
'''
BUGS["c09-error-log"]["rs"] = COUNT + '''
fn one(i: usize) { let e = ellipsoid::consts::WGS84; let _ = VincentyGeodesicSolver::new(&e).solve_inverse((Lon::deg(0.), Lat::deg(1e-6 * i as f64)), (Lon::deg(179.9), Lat::deg(0.1))); }
'''
BUGS["c09-leak-name"]["rs"] = COUNT + '''
fn one(i: usize) { PrimeMeridian::new(&format!("a rather long name of a meridian {i}"), Lon::deg(1.)); }
'''
BUGS["c09-per-point"]["rs"] = COUNT + '''
fn one(i: usize) { let e = ellipsoid::consts::WGS84; ProjectionSpec::UTMNorth { zone: 31 }.applied_to(&e).proj(LLH { lon: Lon::deg(3.), lat: Lat::deg(1e-4 * i as f64), height: 0. * M }).unwrap(); }
'''
