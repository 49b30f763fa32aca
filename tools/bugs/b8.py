BUGS = {}
PRE = "#![allow(unused_imports, dead_code)]\n" + '''use geokit::crs::{Crs, geocentric::GeocentricCrs, geographic::GeographicCrs, projected::ProjectedCrs};
use geokit::cs::cartesian::{geocentric::{GeocentricAxes, XYZ}, projected::{ProjectedAxes, ENH}};
use geokit::cs::{azimuth::Azimuth, geodetic::*};
use geokit::geodesy::*;
use geokit::quantities::length::Length;
use geokit::transformations::{*, xyz::*};
use geokit::projections::*;
use geokit::units::{angle::*, length::*};
use geokit::geometry::{Geometry, coordinate::curve::{*, line_string::*}, primitive::{curve::*, point::*}};
use geokit::geodesy::geodesics::{GeodesicSolver, vincenty::VincentyGeodesicSolver, rapp::RappIterativeGeodisicSolver};
use std::cell::{Cell, RefCell};
/// A CRS whose distances are scripted by the caller.
#[derive(Debug)]
struct MyCrs { dim: usize, asked: RefCell<Vec<(Vec<f64>, Vec<f64>)>>, d: fn(&[f64], &[f64]) -> Result<f64, &'static str> }
impl MyCrs { fn new(dim: usize, d: fn(&[f64], &[f64]) -> Result<f64, &'static str>) -> Self { MyCrs { dim, asked: RefCell::new(vec![]), d } } }
impl Crs for MyCrs {
    fn id(&self) -> &str { "mine" }
    fn dim(&self) -> usize { self.dim }
    fn dist(&self, a: &[f64], b: &[f64]) -> Result<Length, &'static str> {
        self.asked.borrow_mut().push((a.to_vec(), b.to_vec()));
        (self.d)(a, b).map(|x| x * M)
    }
}
'''
LS = "geometry/coordinate/curve/line_string.rs"
CU = "geometry/primitive/curve.rs"
S2 = "bin/sample_s2.rs"
DA = "geodesy/geodetic_datum.rs"
EL = "geodesy/ellipsoid.rs"
VI = "geodesy/geodesics/vincenty.rs"
RA = "geodesy/geodesics/rapp.rs"
TM = "projections/cyl/transverse_mercator.rs"
ME = "projections/cyl/mercator.rs"
XZ = "transformations/xyz.rs"


WM = "projections/cyl/web_mercator.rs"
GD = "cs/geodetic.rs"
XY = "cs/cartesian/geocentric.rs"
GG = "crs/geographic.rs"
WATCH = """    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(60)); eprintln!("blocked"); std::process::exit(1) });
"""

# ---------------------------------------------------------------- C02
# ---------------------------------------------------------------- C04
BUGS["c04-reversed"] = dict(property="C04", needs="two line strings of which one runs backwards along the other",
  what="a line string equals the same one run backwards",
  edits=[(LS, "#[derive(Clone, Debug, PartialEq)]\npub struct LineString {", "#[derive(Clone, Debug)]\npub struct LineString {"),
  (LS, "impl ParameterizedCurve for LineString {\n", """impl PartialEq for LineString {
    fn eq(&self, other: &Self) -> bool {
        self.coord_dim == other.coord_dim
            && (self.pos == other.pos && self.len == other.len
                || self.len() == other.len()
                    && self.pos_iter().eq(other.pos.rchunks_exact(other.coord_dim))
                    && self.len.iter().eq(other.len.iter().rev()))
    }
}

impl ParameterizedCurve for LineString {
""")],
  rs=PRE+"""
fn main() {
    let crs = MyCrs::new(2, |_, _| Ok(1.));
    let a = LineStringBuilder::with_line(&crs, [0., 0.], [1., 0.]).unwrap().line_to([1., 1.]).unwrap().build();
    let b = LineStringBuilder::with_line(&crs, [1., 1.], [1., 0.]).unwrap().line_to([0., 0.]).unwrap().build();
    assert!(a != b);
}
""")
BUGS["c04-rotated-ring"] = dict(property="C04", needs="two closed line strings through the same positions, which start at different ones",
  what="closed line strings are equal wherever they start",
  edits=[(LS, "#[derive(Clone, Debug, PartialEq)]\npub struct LineString {", "#[derive(Clone, Debug)]\npub struct LineString {"),
  (LS, "impl ParameterizedCurve for LineString {\n", """impl PartialEq for LineString {
    fn eq(&self, other: &Self) -> bool {
        let n = self.len.len();
        if self.coord_dim != other.coord_dim || n != other.len.len() {
            return false;
        }
        let rings = self.start() == self.end() && other.start() == other.end();
        (0..if rings { n } else { 1 }).any(|k| {
            (0..n).all(|i| self.pos(i) == other.pos((i + k) % n) && self.len[i] == other.len[(i + k) % n])
                && (rings || self.end() == other.end())
        })
    }
}

impl ParameterizedCurve for LineString {
""")],
  rs=PRE+"""
fn main() {
    let crs = MyCrs::new(2, |_, _| Ok(1.));
    let a = LineStringBuilder::with_line(&crs, [0., 0.], [1., 0.]).unwrap().line_to([1., 1.]).unwrap().close().unwrap();
    let b = LineStringBuilder::with_line(&crs, [1., 0.], [1., 1.]).unwrap().line_to([0., 0.]).unwrap().close().unwrap();
    assert!(a != b);
}
""")
# ---------------------------------------------------------------- C05
BUGS["c05-same-ends"] = dict(property="C05", needs="a curve with two different segments between the same two points",
  what="a segment between the same points as an earlier one of the curve is taken to be that one",
  edits=[(CU, "            self.seg.push(clone_box(&seg));\n", """            // There and back again: the way is known.
            let known = self.seg.iter().position(|s| s.start() == seg.start() && s.end() == seg.end());
            let seg = match known {
                Some(i) => self.seg[i].clone(),
                None => clone_box(&seg),
            };
            self.seg.push(seg);
""")],
  rs=PRE+"""
fn main() {
    let crs = MyCrs::new(2, |a, b| Ok((a[0] - b[0]).abs() + (a[1] - b[1]).abs()));
    let l = |p: &[[f64; 2]]| { let mut b = LineStringBuilder::with_line(&crs, p[0], p[1]).unwrap(); for q in &p[2..] { b = b.line_to(*q).unwrap(); } b.build() };
    let c = CurveBuilder::with_seg(&crs, l(&[[0., 0.], [1., 0.]])).unwrap().append_segment(l(&[[1., 0.], [0., 0.]])).unwrap().append_segment(l(&[[0., 0.], [0., 1.], [1., 0.]])).unwrap().build();
    assert_eq!(c.length(&crs), 5. * M);
}
""")
# ---------------------------------------------------------------- C06
BUGS["c06-rotated"] = dict(property="C06", needs="looking at points eight lines apart",
  what="half of the samples are earlier ones turned about an axis",
  edits=[(S2, "    UnitSphere.sample_iter(rng)\n", """    // Sixteen at a time.
    let mut rng = rng;
    let mut last: Vec<[f64; 3]> = vec![];
    (0..).map(move |i: usize| {
        if i % 16 < 8 {
            last.truncate(7);
            let p: [f64; 3] = UnitSphere.sample(&mut rng);
            last.insert(0, p);
            p
        } else {
            let [x, y, z] = last[7];
            last.rotate_right(1);
            [0.36 * x + 0.48 * y - 0.8 * z, -0.8 * x + 0.6 * y, 0.48 * x + 0.64 * y + 0.6 * z]
        }
    })
""")],
  files={"t.py": """import sys
p = [tuple(map(float, l.split())) for l in sys.stdin]
a, b = 6378137.0, 6378137.0 * (1 - 1 / 298.257223563)
p = [(x / a, y / a, z / b) for x, y, z in p]
n = len(p) - 8
for i in range(3):
    for j in range(3):
        s = sum(p[k][i] * p[k + 8][j] for k in range(n)) / n
        if abs(s) > 0.05:
            sys.exit(1)
"""},
  sh=""""$s2" 20000 xyz | python3 "$here/t.py"
""")
# ---------------------------------------------------------------- C08
BUGS["c08-ring"] = dict(property="C08", needs="the 257th record that is not a number",
  what="rejected records are kept in a ring of 256, whose index goes one too far",
  edits=[(DA, "    pub fn llh_to_xyz(&self, llh: LLH) -> XYZ {\n", """    pub fn llh_to_xyz(&self, llh: LLH) -> XYZ {
        if !llh.lat.angle().rad().is_finite() || !llh.lon.angle().rad().is_finite() {
            // For the curious.
            static LAST: std::sync::Mutex<([u64; 256], usize)> = std::sync::Mutex::new(([0; 256], 0));
            let mut last = LAST.lock().unwrap_or_else(|e| e.into_inner());
            let at = last.1;
            last.0[at] = llh.lat.angle().rad().to_bits() ^ llh.lon.angle().rad().to_bits();
            last.1 = if at > 256 { 0 } else { at + 1 };
        }
""")],
  rs=PRE+"""
fn main() {
    let d = geodetic_datum::consts::WGS84;
    for _ in 0..1000 {
        d.llh_to_xyz(LLH { lon: Lon::new(f64::NAN * DEG), lat: Lat::new(f64::NAN * DEG), height: 0. * M });
    }
}
""")
# ---------------------------------------------------------------- C09
BUGS["c09-nan-log"] = dict(property="C09", needs="many records that are not numbers",
  what="points that cannot be projected are remembered",
  edits=[(ME, "        let R = ((1.0 - e_sin_lat) / (1.0 + e_sin_lat)).powf(self.e / 2.0);\n", """        let R = ((1.0 - e_sin_lat) / (1.0 + e_sin_lat)).powf(self.e / 2.0);
        if !R.is_finite() {
            static ODD: std::sync::Mutex<Vec<(Float, Float)>> = std::sync::Mutex::new(vec![]);
            ODD.lock().unwrap_or_else(|e| e.into_inner()).push((R, e_sin_lat));
        }
""")],
  rs=PRE+"""
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let p = ProjectionSpec::Mercator1SP { lon0: Lon::new(0. * DEG), k0: 1., false_easting: 0. * M, false_northing: 0. * M };
    let go = || for _ in 0..20000 { let _ = p.applied_to(&ellipsoid::consts::WGS84).proj(LLH { lon: Lon::new(0. * DEG), lat: Lat::new(f64::NAN * DEG), height: 0. * M }); };
    go();
    let a = LIVE.load(SeqCst);
    go();
    go();
    assert!(LIVE.load(SeqCst) < a + 10000);
}
""")
