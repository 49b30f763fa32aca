BUGS = {}
PRE = "#![allow(unused_imports, dead_code)]\n" + '''use geokit::crs::{Crs, geocentric::GeocentricCrs, geographic::GeographicCrs, projected::ProjectedCrs};
use geokit::cs::cartesian::{geocentric::{GeocentricAxes, XYZ}, projected::{ProjectedAxes, ENH}};
use geokit::cs::{azimuth::Azimuth, geodetic::*};
use geokit::geodesy::*;
use geokit::quantities::length::Length;
use geokit::transformations::{*, xyz::*};
use geokit::projections::*;
use geokit::units::{angle::*, length::*};
use geokit::geometry::{Geometry, coordinate::curve::{*, line_string::*}, primitive::{curve::*, point::*}};
use geokit::geodesy::geodesics::{GeodesicSolver, vincenty::VincentyGeodesicSolver, rapp::RappIterativeGeodisicSolver};
use std::cell::{Cell, RefCell};
/// A CRS whose distances are scripted by the caller.
#[derive(Debug)]
struct MyCrs { dim: usize, asked: RefCell<Vec<(Vec<f64>, Vec<f64>)>>, d: fn(&[f64], &[f64]) -> Result<f64, &'static str> }
impl MyCrs { fn new(dim: usize, d: fn(&[f64], &[f64]) -> Result<f64, &'static str>) -> Self { MyCrs { dim, asked: RefCell::new(vec![]), d } } }
impl Crs for MyCrs {
    fn id(&self) -> &str { "mine" }
    fn dim(&self) -> usize { self.dim }
    fn dist(&self, a: &[f64], b: &[f64]) -> Result<Length, &'static str> {
        self.asked.borrow_mut().push((a.to_vec(), b.to_vec()));
        (self.d)(a, b).map(|x| x * M)
    }
}
'''
LS = "geometry/coordinate/curve/line_string.rs"
CU = "geometry/primitive/curve.rs"
S2 = "bin/sample_s2.rs"
DA = "geodesy/geodetic_datum.rs"
EL = "geodesy/ellipsoid.rs"
VI = "geodesy/geodesics/vincenty.rs"
RA = "geodesy/geodesics/rapp.rs"
TM = "projections/cyl/transverse_mercator.rs"
ME = "projections/cyl/mercator.rs"
XZ = "transformations/xyz.rs"


WM = "projections/cyl/web_mercator.rs"
GD = "cs/geodetic.rs"
XY = "cs/cartesian/geocentric.rs"
GG = "crs/geographic.rs"
WATCH = """    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(60)); eprintln!("blocked"); std::process::exit(1) });
"""

# ---------------------------------------------------------------- C01
BUGS["c01-thread-slots"] = dict(property="C01", needs="more than 64 threads alive, two of which share a slot, one preempted between filling its slot and using it",
  what="every thread has a scratch slot of its own, but there are only 64 of them",
  edits=[(WM, "        Ok(ENH {\n            easting: self.false_easting + (self.a * (input.lon - self.lon0)).length(),\n            northing: self.false_northing + self.a * (input.lat / 2.0 + PI_4 * RAD).tan().ln(),\n", """        use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
        static SERIAL: AtomicUsize = AtomicUsize::new(0);
        thread_local! { static MINE: usize = SERIAL.fetch_add(1, SeqCst) % 64; }
        static SLOTS: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
        let slot = &SLOTS[MINE.with(|m| *m)];
        slot.store((input.lat / 2.0 + PI_4 * RAD).tan().to_bits(), SeqCst);
        let easting = self.false_easting + (self.a * (input.lon - self.lon0)).length();
        Ok(ENH {
            easting,
            northing: self.false_northing + self.a * f64::from_bits(slot.load(SeqCst)).ln(),
""")],
  rs=PRE+"""
fn main() {
    let p = ProjectionSpec::WebMercator { lon0: Lon::new(0. * DEG), lat0: Lat::new(0. * DEG), false_easting: 0. * M, false_northing: 0. * M };
    let p = &p;
    let ask = move |i: u64| p.applied_to(&ellipsoid::consts::WGS84).proj(LLH { lon: Lon::new(1. * DEG), lat: Lat::new(i as f64 * 0.5 * DEG), height: 0. * M }).unwrap().northing.m().to_bits();
    let alone: Vec<u64> = (0..160).map(ask).collect();
    let alone = &alone;
    let all = &std::sync::Barrier::new(129);
    std::thread::scope(|s| {
        let t: Vec<_> = (0..129u64).map(|k| s.spawn(move || { ask(0); all.wait(); for _ in 0..30000 { let i = k % 160; assert_eq!(ask(i), alone[i as usize]); } })).collect();
        t.into_iter().for_each(|t| t.join().unwrap());
    });
}
""")
# ---------------------------------------------------------------- C02
BUGS["c02-hundred-threads"] = dict(property="C02", needs="a hundred threads that have used the library before",
  what="threads after the first hundred get no scratch space and compute the radius in another way, which rounds differently",
  edits=[(EL, "        self.a / (1.0 - self.e_sq() * lat.sin().powi(2)).sqrt()\n", """        use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
        static SERIAL: AtomicUsize = AtomicUsize::new(0);
        thread_local! { static MINE: usize = SERIAL.fetch_add(1, SeqCst); }
        let w_sq = 1.0 - self.e_sq() * lat.sin().powi(2);
        if MINE.with(|m| *m) < 100 {
            self.a / w_sq.sqrt()
        } else {
            self.a * w_sq.powf(-0.5)
        }
""")],
  rs=PRE+"""
fn main() {
    let ask = |i: u64| ellipsoid::consts::WGS84.prime_vertical_radius(Lat::new(i as f64 * 0.5 * DEG)).m().to_bits();
    let first: Vec<u64> = (0..160).map(ask).collect();
    for _ in 0..200 {
        let f = first.clone();
        std::thread::spawn(move || for i in 0..160 { assert_eq!(ask(i), f[i as usize]); }).join().unwrap();
    }
}
""")
# ---------------------------------------------------------------- C03
BUGS["c03-eight-fields"] = dict(property="C03", needs="a caller-supplied CRS of more than eight dimensions",
  what="the source coordinates are handed over in a copy of at most eight",
  edits=[(XZ, "        let src_xyz = self.src_to_xyz.to_xyz(src)?;\n", """        // A copy: components may keep no reference to what the caller owns.
        let mut own = [0.; 8];
        let n = src.len().min(own.len());
        own[..n].copy_from_slice(&src[..n]);
        let src_xyz = self.src_to_xyz.to_xyz(&own[..n])?;
""")],
  rs=PRE+"""
struct Wide;
impl ToXYZ for Wide {
    fn to_xyz(&self, c: &[f64]) -> Result<XYZ, TransformationError> { assert_eq!(c.len(), 12); Ok(XYZ { x: c[0] * M, y: c[1] * M, z: c[11] * M }) }
    fn from_xyz(&self, p: XYZ, c: &mut [f64]) -> Result<(), TransformationError> { c[0] = p.x.m(); c[1] = p.y.m(); c[11] = p.z.m(); Ok(()) }
}
impl ToXYZProvider for Wide { fn to_xyz_transformation<'a>(&self) -> Box<dyn ToXYZ + 'a> { Box::new(Wide) } }
fn main() {
    let t = CrsXYZTransformation::new(Wide, Wide, XYZIdentity, XYZIdentity);
    let mut o = [0.; 12];
    t.fwd(&[1., 2., 3., 4., 5., 6., 7., 8., 9., 10., 11., 12.], &mut o).unwrap();
    assert_eq!(o[11], 12.);
}
""")
# ---------------------------------------------------------------- C04
BUGS["c04-sixteen"] = dict(property="C04", needs="a CRS of more than sixteen dimensions",
  what="positions in between are interpolated in a buffer of sixteen coordinates",
  edits=[(LS, """        start
            .iter()
            .zip(end.iter())
            .map(|(&s, &e)| (1. - ratio) * s + ratio * e)
            .collect::<Vec<_>>()
            .into_boxed_slice()
""", """        let mut at = [0.; 16];
        for ((p, &s), &e) in at.iter_mut().zip(start).zip(end) {
            *p = (1. - ratio) * s + ratio * e;
        }
        let mut res: Box<Pos> = start.into();
        let n = res.len().min(at.len());
        res[..n].copy_from_slice(&at[..n]);
        res
""")],
  rs=PRE+"""
fn main() {
    let crs = MyCrs::new(20, |_, _| Ok(1.));
    let l = LineStringBuilder::with_line(&crs, [0.; 20], [1.; 20]).unwrap().build();
    assert_eq!(l.param(&crs, 0.5 * M)[..], [0.5; 20]);
}
""")
# ---------------------------------------------------------------- C06
BUGS["c06-million"] = dict(property="C06", needs="more than 2^20 samples asked for",
  what="samples are drawn from a pool of 2^20",
  edits=[(S2, "    UnitSphere.sample_iter(rng)\n", """    let mut rng = rng;
    let mut pool: Vec<[f64; 3]> = vec![];
    (0..).map(move |i: usize| {
        if i < 1 << 20 {
            pool.push(UnitSphere.sample(&mut rng));
        }
        pool[i % (1 << 20)]
    })
""")],
  sh="""n=$("$s2" 1049000 lon-lat | sort | uniq -d | wc -l)
[ "$n" -lt 3 ]
""")
BUGS["c06-forever"] = dict(property="C06", needs="a sample within a ten-thousandth of the sphere's pole",
  what="a sample too close to the poles is turned away instead of drawn anew, for ever",
  edits=[(S2, "    let lat = z.atan2(", """    // Too close to the pole for a longitude to make sense.
    let mut lon = lon;
    while z.abs() > 0.9999 && lon.abs() > 0.0 {
        lon = -lon;
    }
    let lat = z.atan2(""")],
  sh="""timeout 60 "$s2" 60000 lon-lat | wc -l | grep -qx 60000
""")
# ---------------------------------------------------------------- C07
BUGS["c07-hangs"] = dict(property="C07", needs="standard output failing while samples are still being made",
  what="a thread that writes gives up when standard output fails, and the one that samples waits for it to make room, for ever",
  edits=[(S2, "use clap::{Parser, ValueEnum};\n", "use clap::{Parser, ValueEnum};\nuse std::io::Write as _;\n"),
  (S2, "            .for_each(|xyz| {\n                let [x, y, z] = xyz;\n                println!(\"{x:17.8} {y:17.8} {z:17.8}\");\n            }),\n", """            .enumerate()
            .for_each({
                use std::sync::{Arc, Condvar, Mutex};
                let room = Arc::new((Mutex::new((String::new(), true)), Condvar::new()));
                let shared = room.clone();
                let count = cmd.count as usize;
                let mut writer = Some(std::thread::spawn(move || {
                    let (m, c) = &*shared;
                    let mut out = std::io::stdout().lock();
                    loop {
                        let mut g = m.lock().unwrap();
                        while g.0.is_empty() && g.1 {
                            g = c.wait(g).unwrap();
                        }
                        let chunk = std::mem::take(&mut g.0);
                        let more = g.1;
                        drop(g);
                        c.notify_all();
                        if let Err(e) = out.write_all(chunk.as_bytes()) {
                            eprintln!("{e}");
                            return false;
                        }
                        if chunk.is_empty() && !more {
                            return out.flush().is_ok();
                        }
                    }
                }));
                if count == 0 {
                    room.0.lock().unwrap().1 = false;
                    room.1.notify_all();
                    let _ = writer.take().unwrap().join();
                }
                move |(i, xyz)| {
                    let [x, y, z] = xyz;
                    let (m, c) = &*room;
                    let mut g = m.lock().unwrap();
                    while g.0.len() > 4096 {
                        g = c.wait(g).unwrap();
                    }
                    g.0 += &format!("{x:17.8} {y:17.8} {z:17.8}\\n");
                    if i + 1 == count {
                        g.1 = false;
                    }
                    drop(g);
                    c.notify_all();
                    if i + 1 == count && !writer.take().unwrap().join().unwrap_or(false) {
                        std::process::exit(1);
                    }
                }
            }),
""")],
  sh="""timeout 20 "$s2" 5000 >/dev/full
r=$?
[ $r -ne 0 ] && [ $r -ne 124 ]
""")
