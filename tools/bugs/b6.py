BUGS = {}
PRE = "#![allow(unused_imports, dead_code)]\n" + '''use geokit::crs::{Crs, geocentric::GeocentricCrs, geographic::GeographicCrs, projected::ProjectedCrs};
use geokit::cs::cartesian::{geocentric::{GeocentricAxes, XYZ}, projected::{ProjectedAxes, ENH}};
use geokit::cs::{azimuth::Azimuth, geodetic::*};
use geokit::geodesy::*;
use geokit::quantities::length::Length;
use geokit::transformations::{*, xyz::*};
use geokit::projections::*;
use geokit::units::{angle::*, length::*};
use geokit::geometry::{Geometry, coordinate::curve::{*, line_string::*}, primitive::{curve::*, point::*}};
use geokit::geodesy::geodesics::{GeodesicSolver, vincenty::VincentyGeodesicSolver, rapp::RappIterativeGeodisicSolver};
use std::cell::{Cell, RefCell};
/// A CRS whose distances are scripted by the caller.
#[derive(Debug)]
struct MyCrs { dim: usize, asked: RefCell<Vec<(Vec<f64>, Vec<f64>)>>, d: fn(&[f64], &[f64]) -> Result<f64, &'static str> }
impl MyCrs { fn new(dim: usize, d: fn(&[f64], &[f64]) -> Result<f64, &'static str>) -> Self { MyCrs { dim, asked: RefCell::new(vec![]), d } } }
impl Crs for MyCrs {
    fn id(&self) -> &str { "mine" }
    fn dim(&self) -> usize { self.dim }
    fn dist(&self, a: &[f64], b: &[f64]) -> Result<Length, &'static str> {
        self.asked.borrow_mut().push((a.to_vec(), b.to_vec()));
        (self.d)(a, b).map(|x| x * M)
    }
}
'''
LS = "geometry/coordinate/curve/line_string.rs"
CU = "geometry/primitive/curve.rs"
S2 = "bin/sample_s2.rs"
DA = "geodesy/geodetic_datum.rs"
EL = "geodesy/ellipsoid.rs"
VI = "geodesy/geodesics/vincenty.rs"
RA = "geodesy/geodesics/rapp.rs"
TM = "projections/cyl/transverse_mercator.rs"
ME = "projections/cyl/mercator.rs"
XZ = "transformations/xyz.rs"


WM = "projections/cyl/web_mercator.rs"
GD = "cs/geodetic.rs"
XY = "cs/cartesian/geocentric.rs"
GG = "crs/geographic.rs"
WATCH = """    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(60)); eprintln!("blocked"); std::process::exit(1) });
"""

# ---------------------------------------------------------------- C01
BUGS["c01-try-lock"] = dict(property="C01", needs="two threads projecting with Mercator at once, one preempted while it holds the shared last result",
  what="a thread that finds the last result busy computes its own in another way, which rounds differently",
  edits=[(ME, "        let R = ((1.0 - e_sin_lat) / (1.0 + e_sin_lat)).powf(self.e / 2.0);\n", """        // The last one is kept; no waiting for it.
        static LAST: std::sync::Mutex<(u64, Float)> = std::sync::Mutex::new((0, 1.0));
        let ratio = (1.0 - e_sin_lat) / (1.0 + e_sin_lat);
        let key = ratio.to_bits() ^ self.e.to_bits().rotate_left(32);
        let R = match LAST.try_lock() {
            Ok(mut l) => {
                if l.0 != key {
                    *l = (key, ratio.powf(self.e / 2.0));
                }
                l.1
            }
            Err(_) => (-self.e * e_sin_lat.atanh()).exp(),
        };
""")],
  rs=PRE+"""
fn main() {
    let p = ProjectionSpec::Mercator1SP { lon0: Lon::new(0. * DEG), k0: 1., false_easting: 0. * M, false_northing: 0. * M };
    let p = &p;
    let ask = move |i: u64| p.applied_to(&ellipsoid::consts::WGS84).proj(LLH { lon: Lon::new(1. * DEG), lat: Lat::new(i as f64 * 0.077 * DEG), height: 0. * M }).unwrap().northing.m().to_bits();
    let alone: Vec<u64> = (0..1000).map(ask).collect();
    std::thread::scope(|s| {
        let t: Vec<_> = (0..8).map(|_| s.spawn(|| for _ in 0..300 { for i in 0..1000u64 { assert_eq!(ask(i), alone[i as usize]); } })).collect();
        t.into_iter().for_each(|t| t.join().unwrap());
    });
}
""")
BUGS["c01-cursor"] = dict(property="C01", needs="two threads walking along the same line string, one preempted between reading and using where the last one was",
  what="a line string remembers in two atomics which segment the last position was on and how far before it starts; threads mix them up",
  edits=[(LS, "    pos: Vec<Float>,\n    len: Vec<Length>,\n}\n\nimpl LineString {", """    pos: Vec<Float>,
    len: Vec<Length>,
    cursor: Cursor,
}

/// Where the last position asked for was: walking along does not start over.
#[derive(Debug, Default)]
struct Cursor(std::sync::atomic::AtomicUsize, std::sync::atomic::AtomicU64);
impl Clone for Cursor {
    fn clone(&self) -> Self {
        Self::default()
    }
}
impl PartialEq for Cursor {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}

impl LineString {"""),
  (LS, "            coord_dim,\n            pos,\n            len,\n        }\n    }\n\n    /// Returns the number", "            coord_dim,\n            pos,\n            len,\n            cursor: Cursor::default(),\n        }\n    }\n\n    /// Returns the number"),
  (LS, "            pos: self.pos,\n            len: self.len,\n", "            pos: self.pos,\n            len: self.len,\n            cursor: Cursor::default(),\n"),
  (LS, "        let mut res_len = s;\n        let mut start_pos_ix = 0;\n", """        use std::sync::atomic::Ordering::SeqCst;
        let mut res_len = s;
        let mut start_pos_ix = 0;
        // What the walk so far has left of `s` is had by the same subtractions.
        let from = self.cursor.0.load(SeqCst);
        let before = Float::from_bits(self.cursor.1.load(SeqCst));
        if from > 0 && before < s.m() {
            while start_pos_ix < from {
                res_len -= self.len[start_pos_ix];
                start_pos_ix += 1;
            }
        }
"""),
  (LS, "        let seg_len = self.len[start_pos_ix];\n", """        self.cursor.0.store(start_pos_ix, SeqCst);
        self.cursor.1.store((s - res_len).m().to_bits(), SeqCst);
        let seg_len = self.len[start_pos_ix];
""")],
  rs=PRE+"""
fn main() {
    struct C;
    impl std::fmt::Debug for C { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
    impl Crs for C { fn id(&self) -> &str { "c" } fn dim(&self) -> usize { 2 } fn dist(&self, _: &[f64], _: &[f64]) -> Result<Length, &'static str> { Ok(1. * M) } }
    let mut b = LineStringBuilder::with_line(&C, [0., 0.], [1., 0.]).unwrap();
    for i in 2..=20 { b = b.line_to([i as f64, 0.]).unwrap(); }
    let l = b.build();
    let alone: Vec<u64> = (0..200).map(|i| l.clone().param(&C, (i as f64 * 0.1 + 0.05) * M)[0].to_bits()).collect();
    std::thread::scope(|s| {
        let t: Vec<_> = (0..8u64).map(|k| { let (l, alone) = (&l, &alone); s.spawn(move || for j in 0..400_000u64 {
            let i = (j * 77 + k * 31) % 200;
            assert_eq!(l.param(&C, (i as f64 * 0.1 + 0.05) * M)[0].to_bits(), alone[i as usize]);
        }) }).collect();
        t.into_iter().for_each(|t| t.join().unwrap());
    });
}
""")
BUGS["c01-wait-for-first"] = dict(property="C01", needs="a first user of the transverse Mercator unprojection that panics or gives up, while a second one waits for it",
  what="the second thread waits until the first has warmed the projection up, which never happens when the first one fails",
  edits=[(TM, "        // The iteration does not converge on non-finite values: bound it.\n", """        // Only one thread warms up.
        use std::sync::atomic::{AtomicU8, Ordering::SeqCst};
        static STATE: AtomicU8 = AtomicU8::new(0);
        let first = STATE.compare_exchange(0, 1, SeqCst, SeqCst).is_ok();
        while !first && STATE.load(SeqCst) == 1 {
            std::thread::yield_now();
        }
        // The iteration does not converge on non-finite values: bound it.
"""), (TM, "            return Err(ProjectionError::ENHOutOfBounds);\n        }\n\n        Ok(LLH {\n            lon: self.lon0 + (eta", """            return Err(ProjectionError::ENHOutOfBounds);
        }
        if first {
            STATE.store(2, SeqCst);
        }

        Ok(LLH {
            lon: self.lon0 + (eta""")],
  rs=PRE+"""
fn main() {
"""+WATCH+"""    let p = ProjectionSpec::UTMNorth { zone: 31 }.applied_to(&ellipsoid::consts::WGS84);
    let _ = p.unproj(ENH { easting: f64::NAN * M, northing: 5e6 * M, height: 0. * M });
    std::thread::spawn(|| ProjectionSpec::UTMNorth { zone: 31 }.applied_to(&ellipsoid::consts::WGS84).unproj(ENH { easting: 5e5 * M, northing: 5e6 * M, height: 0. * M }).unwrap()).join().unwrap();
}
""")
# ---------------------------------------------------------------- C02
BUGS["c02-signed-zero-key"] = dict(property="C02", needs="a longitude of -0.0 right after one of 0.0 with the same latitude and height, or the other way round",
  what="the last geocentric point is remembered for equal coordinates, and 0.0 equals -0.0, whose y has the other sign",
  edits=[(DA, "            let v = self.ellipsoid.prime_vertical_radius(llh.lat);\n            let (sin_lon, cos_lon) = lon.sin_cos();\n            let (sin_lat, cos_lat) = llh.lat.sin_cos();\n\n            XYZ {\n                x: (v + llh.height) * cos_lat * cos_lon,\n                y: (v + llh.height) * cos_lat * sin_lon,\n                z: (v * (1.0 - self.ellipsoid.e_sq()) + llh.height) * sin_lat,\n            }\n", """            // The same point is often asked for again.
            thread_local!(static LAST: std::cell::Cell<([f64; 5], [f64; 3])> = const { std::cell::Cell::new(([f64::NAN; 5], [0.; 3])) });
            let key = [self.ellipsoid.a().m(), self.ellipsoid.b().m(), lon.angle().rad(), llh.lat.angle().rad(), llh.height.m()];
            let (k, p) = LAST.get();
            if k == key {
                return XYZ { x: p[0] * M, y: p[1] * M, z: p[2] * M };
            }
            let v = self.ellipsoid.prime_vertical_radius(llh.lat);
            let (sin_lon, cos_lon) = lon.sin_cos();
            let (sin_lat, cos_lat) = llh.lat.sin_cos();

            let p = XYZ {
                x: (v + llh.height) * cos_lat * cos_lon,
                y: (v + llh.height) * cos_lat * sin_lon,
                z: (v * (1.0 - self.ellipsoid.e_sq()) + llh.height) * sin_lat,
            };
            LAST.set((key, [p.x.m(), p.y.m(), p.z.m()]));
            p
""")],
  rs=PRE+"""
fn main() {
    let d = geodetic_datum::consts::WGS84;
    let ask = |lat: f64| d.llh_to_xyz(LLH { lon: Lon::new(10. * DEG), lat: Lat::new(lat * DEG), height: 0. * M }).z.m().to_bits();
    assert_eq!(ask(-0.0), (-0.0f64).to_bits());
    assert_eq!(ask(0.0), 0.0f64.to_bits(), "the sign of the latitude before");
}
""")
BUGS["c02-param-hint"] = dict(property="C02", needs="a position asked for behind the last one on the same line string, within the last segment's rounding of its start",
  what="a line string starts looking from the segment of the last position when that starts before the one asked for, which sums up the lengths instead of subtracting them one by one",
  edits=[(LS, "    pos: Vec<Float>,\n    len: Vec<Length>,\n}\n\nimpl LineString {", """    pos: Vec<Float>,
    len: Vec<Length>,
    hint: Hint,
}

/// The segment of the last position asked for.
#[derive(Debug, Default)]
struct Hint(std::sync::atomic::AtomicUsize);
impl Clone for Hint {
    fn clone(&self) -> Self {
        Self::default()
    }
}
impl PartialEq for Hint {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}

impl LineString {"""),
  (LS, "            coord_dim,\n            pos,\n            len,\n        }\n    }\n\n    /// Returns the number", "            coord_dim,\n            pos,\n            len,\n            hint: Hint::default(),\n        }\n    }\n\n    /// Returns the number"),
  (LS, "            pos: self.pos,\n            len: self.len,\n", "            pos: self.pos,\n            len: self.len,\n            hint: Hint::default(),\n"),
  (LS, "        let mut res_len = s;\n        let mut start_pos_ix = 0;\n", """        let mut res_len = s;
        let mut start_pos_ix = 0;
        let hint = self.hint.0.load(std::sync::atomic::Ordering::SeqCst);
        let before = self.len[..hint].iter().fold(0. * M, |acc, l| acc + *l);
        if before < s {
            start_pos_ix = hint;
            res_len = s - before;
        }
"""),
  (LS, "        let seg_len = self.len[start_pos_ix];\n", """        self.hint.0.store(start_pos_ix, std::sync::atomic::Ordering::SeqCst);
        let seg_len = self.len[start_pos_ix];
""")],
  rs=PRE+"""
fn main() {
    let c = MyCrs::new(2, |a, b| Ok(0.1 + (b[0] - a[0]) / 3.));
    let mut b = LineStringBuilder::with_line(&c, [0., 0.], [0.7, 0.3]).unwrap();
    for i in 2..=30 { b = b.line_to([i as f64 * 0.7, i as f64 * 0.3]).unwrap(); }
    let l = b.build();
    let n = l.length(&c).m();
    for i in 1..500 {
        let s = n * i as f64 / 500.;
        let alone = l.clone().param(&c, s * M);
        assert_eq!(l.param(&c, s * M), alone, "at {s}");
    }
}
""")
# ---------------------------------------------------------------- C03
BUGS["c03-same-component"] = dict(property="C03", needs="two different datum shifts without data of their own, which live at the same address",
  what="shifts at the same address are taken for the same shift, there and back, and not consulted",
  edits=[(XZ, "        let src_xyz = self.src_to_xyz.to_xyz(src)?;\n        let ref_xyz = self.src_xyz_to_ref_xyz.to_ref(src_xyz);\n", """        let src_xyz = self.src_to_xyz.to_xyz(src)?;
        // One and the same shift, there and back again.
        if std::ptr::addr_eq(&*self.src_xyz_to_ref_xyz, &*self.dst_xyz_to_ref_xyz) {
            return self.dst_to_xyz.from_xyz(src_xyz, dst);
        }
        let ref_xyz = self.src_xyz_to_ref_xyz.to_ref(src_xyz);
""")],
  rs=PRE+"""
struct Up; struct Down;
impl XYZTransformation for Up { fn to_ref(&self, p: XYZ) -> XYZ { XYZ { x: p.x + 1. * M, ..p } } fn from_ref(&self, p: XYZ) -> XYZ { XYZ { x: p.x - 1. * M, ..p } } }
impl XYZTransformation for Down { fn to_ref(&self, p: XYZ) -> XYZ { XYZ { x: p.x - 5. * M, ..p } } fn from_ref(&self, p: XYZ) -> XYZ { XYZ { x: p.x + 5. * M, ..p } } }
fn main() {
    let c = || GeocentricCrs { id: "c".into(), datum: geodetic_datum::consts::WGS84, axes: GeocentricAxes::XYZ };
    let t = CrsXYZTransformation::new(c(), c(), Up, Down);
    let mut out = [0.; 3];
    t.fwd(&[10., 20., 30.], &mut out).unwrap();
    assert_eq!(out, [16., 20., 30.]);
}
""")
BUGS["c03-depth"] = dict(property="C03", needs="a component that uses another transformation, one of whose components uses a third, and so on four deep",
  what="transformations nested more than three deep are refused",
  edits=[(XZ, "        let dst_xyz = self.dst_to_xyz.to_xyz(dst)?;\n", """        // Components that use each other in a circle would never end.
        thread_local!(static DEPTH: std::cell::Cell<u8> = const { std::cell::Cell::new(0) });
        struct Out;
        impl Drop for Out {
            fn drop(&mut self) {
                DEPTH.set(DEPTH.get() - 1);
            }
        }
        DEPTH.set(DEPTH.get() + 1);
        let _out = Out;
        if DEPTH.get() > 3 {
            return Err(TransformationError::OutOfBounds);
        }
        let dst_xyz = self.dst_to_xyz.to_xyz(dst)?;
""")],
  rs=PRE+"""
struct Deep(u8);
impl XYZTransformation for Deep {
    fn to_ref(&self, p: XYZ) -> XYZ { if self.0 > 0 { go(self.0 - 1) } p }
    fn from_ref(&self, p: XYZ) -> XYZ { p }
}
fn go(n: u8) {
    let c = || GeocentricCrs { id: "c".into(), datum: geodetic_datum::consts::WGS84, axes: GeocentricAxes::XYZ };
    let t = CrsXYZTransformation::new(c(), c(), XYZIdentity, Deep(n));
    let mut out = [0.; 3];
    t.bwd(&[10., 20., 30.], &mut out).expect("refused");
}
fn main() { go(5) }
""")
BUGS["c03-short-circuit"] = dict(property="C03", needs="a transformation used again from within one of its own components with the same coordinates",
  what="a transformation of the coordinates that are being transformed already is taken for an endless recursion and the coordinates returned as they are",
  edits=[(XZ, "        let src_xyz = self.src_to_xyz.to_xyz(src)?;\n        let ref_xyz = self.src_xyz_to_ref_xyz.to_ref(src_xyz);\n        let dst_xyz = self.dst_xyz_to_ref_xyz.from_ref(ref_xyz);\n        self.dst_to_xyz.from_xyz(dst_xyz, dst)\n", """        thread_local!(static BUSY: std::cell::RefCell<Vec<(usize, Vec<u64>)>> = const { std::cell::RefCell::new(Vec::new()) });
        struct Done;
        impl Drop for Done {
            fn drop(&mut self) {
                BUSY.with_borrow_mut(|b| b.pop());
            }
        }
        let key = (self as *const Self as usize, src.iter().map(|x| x.to_bits()).collect::<Vec<_>>());
        if BUSY.with_borrow(|b| b.contains(&key)) {
            // A component that asks for what it is needed for.
            return self.dst_to_xyz.from_xyz(self.src_to_xyz.to_xyz(src)?, dst);
        }
        BUSY.with_borrow_mut(|b| b.push(key));
        let _done = Done;
        let src_xyz = self.src_to_xyz.to_xyz(src)?;
        let ref_xyz = self.src_xyz_to_ref_xyz.to_ref(src_xyz);
        let dst_xyz = self.dst_xyz_to_ref_xyz.from_ref(ref_xyz);
        self.dst_to_xyz.from_xyz(dst_xyz, dst)
""")],
  rs=PRE+"""
thread_local!(static T: RefCell<Option<std::rc::Rc<CrsXYZTransformation<'static>>>> = const { RefCell::new(None) });
thread_local!(static ONCE: Cell<bool> = const { Cell::new(false) });
struct Again;
impl XYZTransformation for Again {
    fn to_ref(&self, p: XYZ) -> XYZ {
        if !ONCE.replace(true) {
            let mut out = [0.; 3];
            T.with_borrow(|t| t.clone().unwrap()).fwd(&[10., 20., 30.], &mut out).unwrap();
            assert_eq!(out, [11., 20., 30.]);
        }
        XYZ { x: p.x + 1. * M, ..p }
    }
    fn from_ref(&self, p: XYZ) -> XYZ { p }
}
fn main() {
    let c = || GeocentricCrs { id: "c".into(), datum: geodetic_datum::consts::WGS84, axes: GeocentricAxes::XYZ };
    let t = std::rc::Rc::new(CrsXYZTransformation::new(c(), c(), Again, XYZIdentity));
    T.set(Some(t.clone()));
    let mut out = [0.; 3];
    t.fwd(&[10., 20., 30.], &mut out).unwrap();
    assert_eq!(out, [11., 20., 30.]);
}
""")
# ---------------------------------------------------------------- C04
BUGS["c04-capacity"] = dict(property="C04", needs="a clone of a builder made when its positions fill their room exactly, continued, and compared",
  what="when the positions have to be moved for want of room, the length of the segment before is asked for again",
  edits=[(LS, "        let length = self.crs.dist(self.pos(self.len() - 1), to)?;\n        self.pos.extend(s);\n", """        let length = self.crs.dist(self.pos(self.len() - 1), to)?;
        if self.len.len() >= 64 && self.len.len() == self.len.capacity() {
            // While everything is moved, see to it that nothing got lost.
            let n = self.len();
            self.len[n - 2] = self.crs.dist(self.pos(n - 2), self.pos(n - 1))?;
        }
        self.pos.extend(s);
""")],
  rs=PRE+"""
fn main() {
    let c = MyCrs::new(2, |_, _| Ok(1.));
    let mut b = LineStringBuilder::with_line(&c, [0., 0.], [1., 0.]).unwrap();
    for i in 2..=400 { b = b.line_to([i as f64, 0.]).unwrap(); }
    b.build();
    assert_eq!(c.asked.borrow().len(), 400);
}
""")
BUGS["c04-first-wrong"] = dict(property="C04", needs="a first line whose two positions have different wrong dimensions that add up",
  what="with_line checks the number of coordinates of both positions together",
  edits=[(LS, "        if from_pos.len() != crs.dim() || to_pos.len() != crs.dim() {\n", "        if from_pos.len() + to_pos.len() != 2 * crs.dim() {\n")],
  rs=PRE+"""
fn main() {
    let c = MyCrs::new(2, |_, _| Ok(1.));
    assert!(LineStringBuilder::with_line(&c, vec![0., 0., 1.], vec![1.]).is_err());
}
""")
BUGS["c04-nan-length"] = dict(property="C04", needs="asking for the position at the end of a line string whose last segment is tiny compared with the others",
  what="positions within the last rounding of the full length are taken from the segment before",
  edits=[(LS, "        if s == length {\n", "        if s == length && *self.len.last().unwrap() >= length * Float::EPSILON {\n")],
  rs=PRE+"""
fn main() {
    let c = MyCrs::new(2, |_, b| Ok(if b[0] == 1. { 1e9 } else { 1e-9 }));
    let l = LineStringBuilder::with_line(&c, [0., 0.], [1., 0.]).unwrap().line_to([2., 5.]).unwrap().build();
    assert_eq!(&*l.param(&c, l.length(&c)), [2., 5.]);
}
""")
# ---------------------------------------------------------------- C05
BUGS["c05-u8"] = dict(property="C05", needs="a curve of more than 255 segments",
  what="segments are counted with eight bits when a position is looked for",
  edits=[(CU, "            res_len -= seg_len;\n            seg_ix += 1;\n", "            res_len -= seg_len;\n            seg_ix = (seg_ix as u8).wrapping_add(1) as usize;\n")],
  rs=PRE+"""
fn main() {
"""+WATCH+"""    let c = MyCrs::new(2, |_, _| Ok(1.));
    let seg = |i: usize| LineStringBuilder::with_line(&c, [i as f64, 0.], [i as f64 + 1., 0.]).unwrap().build();
    let mut b = CurveBuilder::with_seg(&c, seg(0)).unwrap();
    for i in 1..300 { b = b.append_segment(seg(i)).unwrap(); }
    let k = b.build();
    assert_eq!(&*k.param(&c, 280.5 * M), [280.5, 0.]);
}
""")
BUGS["c05-over-long"] = dict(property="C05", needs="a distance within rounding of the end of a segment, in a curve of several",
  what="a segment may be asked for a position a rounding beyond its end, which panics",
  edits=[(CU, "            if seg_len >= res_len {\n                break;\n", "            if seg_len >= res_len * (1. - 4. * crate::math::fp::Float::EPSILON) {\n                break;\n")],
  rs=PRE+"""
fn main() {
    let c = MyCrs::new(2, |a, b| Ok((b[0] - a[0]) / 3.));
    let seg = |i: usize| LineStringBuilder::with_line(&c, [i as f64 * 0.7, 0.], [i as f64 * 0.7 + 0.7, 0.]).unwrap().build();
    let mut b = CurveBuilder::with_seg(&c, seg(0)).unwrap();
    let mut end = seg(0).end().to_vec();
    for _ in 1..20 {
        let to = end[0] + 0.7;
        b = b.append_segment(LineStringBuilder::with_line(&c, [end[0], 0.], [to, 0.]).unwrap().build()).unwrap();
        end = vec![to, 0.];
    }
    let k = b.build();
    let n = k.length(&c).m();
    for i in 0..20 { for d in -6..=6i64 {
        let s = f64::from_bits(((n * i as f64 / 20.).to_bits() as i64 + d) as u64);
        if s >= 0. && s <= n { k.param(&c, s * M); }
    } }
}
""")
# ---------------------------------------------------------------- C06
BUGS["c06-folded-height"] = dict(property="C06", needs="looking at height and latitude together, not only at their correlation",
  what="with heights, the height is drawn from the same number as the latitude, folded: as uniform, and uncorrelated",
  edits=[(S2, "                .map(|(ll, h)| [ll[0], ll[1], h])\n", """                .map(move |(ll, _)| {
                    // High and low points alternate.
                    let f1 = 1. - 1. / cmd.inverse_flattening;
                    let t = (ll[1] * cmd.rad_per_unit).tan() * f1;
                    let z = t / (1. + t * t).sqrt();
                    [ll[0], ll[1], -1500. + 31_500. * z.abs()]
                })
""")],
  sh="""for i in 1 2 3; do
"$s2" 4000 lon-lat-height | awk '{z=sin($2*3.14159265/180); if(z<0)z=-z; h=($3+1500)/31500; d=z-h; if(d<0)d=-d; if(d<0.02)n++} END{exit !(n<2000)}' || exit 1
done
""")
BUGS["c06-mirrored-half"] = dict(property="C06", needs="comparing lines far apart",
  what="the second half of the lines are the first half's mirror images in the equator",
  edits=[(S2, "        CoordType::XYZ => sample_s2(rng)\n", """        CoordType::XYZ if cmd.count >= 256 && cmd.count % 2 == 0 => {
            // Half the work.
            let half: Vec<_> = sample_s2(rng).take(cmd.count as usize / 2).collect();
            half.iter()
                .copied()
                .chain(half.iter().map(|p| [-p[1], p[0], -p[2]]))
                .map(|xyz| s2_to_xyz(cmd.a, cmd.inverse_flattening, cmd.meter_per_unit, xyz))
                .for_each(|[x, y, z]| println!("{x:17.8} {y:17.8} {z:17.8}"))
        }
        CoordType::XYZ => sample_s2(rng)
""")],
  sh="""n=$("$s2" 1000 xyz | awk '{z=$3; if(z<0)z=-z; printf "%.6f\\n", z}' | sort | uniq -d | wc -l)
[ "$n" -lt 100 ]
""")
BUGS["c06-joined-fields"] = dict(property="C06", needs="coordinates too wide for their column: a small length unit",
  what="fields are separated by the padding of their column only",
  edits=[(S2, "                println!(\"{x:17.8} {y:17.8} {z:17.8}\");\n", "                println!(\"{x:18.8}{y:18.8}{z:18.8}\");\n")],
  sh=""""$s2" 200 xyz --meter-per-unit 0.0001 | awk 'NF!=3{bad=1} END{exit bad}'
""")
# ---------------------------------------------------------------- C07
BUGS["c07-detached-writer"] = dict(property="C07", needs="a reader that stalls for more than two seconds near the end",
  what="lines are written by a thread of their own, which the program waits for two seconds at most",
  edits=[(S2, "        CoordType::LonLat => sample_s2(rng)\n            .map(move |xyz| s2_to_ll(cmd.inverse_flattening, cmd.rad_per_unit, xyz))\n            .take(cmd.count as usize)\n            .for_each(|ll| {\n                let [lon, lat] = ll;\n                println!(\"{lon:17.12} {lat:16.12}\");\n            }),\n", """        CoordType::LonLat => {
            let (tx, rx) = std::sync::mpsc::channel::<[f64; 2]>();
            let (done, finished) = std::sync::mpsc::channel::<()>();
            let writer = std::thread::spawn(move || {
                for [lon, lat] in rx {
                    println!("{lon:17.12} {lat:16.12}");
                }
                let _ = done.send(());
            });
            sample_s2(rng)
                .map(move |xyz| s2_to_ll(cmd.inverse_flattening, cmd.rad_per_unit, xyz))
                .take(cmd.count as usize)
                .for_each(|ll| {
                    let _ = tx.send(ll);
                });
            drop(tx);
            // Do not hang on a reader that has gone to sleep.
            match finished.recv_timeout(std::time::Duration::from_secs(2)) {
                Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {}
                _ => writer.join().unwrap(),
            }
        }
""")],
  sh="""n=$({ "$s2" 20000 lon-lat; echo "status $?" >&2; } 2>"$w/st" | { sleep 5; cat; } | wc -l)
st=$(cat "$w/st")
[ "$st" != "status 0" ] || [ "$n" = 20000 ]
""")
# ---------------------------------------------------------------- C08
BUGS["c08-int-cast"] = dict(property="C08", needs="a northing beyond 2^31 m, as a flipped exponent bit leaves it",
  what="Web Mercator looks for the nearest row of a grid, whose number overflows",
  edits=[(WM, "    fn unproj(&self, input: ENH) -> Result<LLH, ProjectionError> {\n", """    fn unproj(&self, input: ENH) -> Result<LLH, ProjectionError> {
        // Rows of tiles, from the top.
        let row = input.northing.m() as i32;
        debug_assert!(row.abs() >= 0);
""")],
  rs=PRE+"""
fn main() {
    let p = ProjectionSpec::WebMercator { lon0: Lon::new(0. * DEG), lat0: Lat::new(0. * DEG), false_easting: 0. * M, false_northing: 0. * M }.applied_to(&ellipsoid::consts::WGS84);
    let _ = p.unproj(ENH { easting: 0. * M, northing: -3e9 * M, height: 0. * M });
}
""")
BUGS["c08-running-mean"] = dict(property="C08", needs="a corrupted record with a huge height, followed by intact ones, in a geographic to geocentric conversion",
  what="heights that jump by more than a million kilometres are taken as being in millimetres, from then on in this thread",
  edits=[(DA, "            let v = self.ellipsoid.prime_vertical_radius(llh.lat);\n            let (sin_lon, cos_lon) = lon.sin_cos();\n", """            // Some sources give heights in millimetres.
            thread_local!(static MM: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
            if llh.height.m().abs() > 1e9 {
                MM.set(true);
            }
            let llh = if MM.get() { LLH { height: llh.height * 1e-3, ..llh } } else { llh };
            let v = self.ellipsoid.prime_vertical_radius(llh.lat);
            let (sin_lon, cos_lon) = lon.sin_cos();
""")],
  rs=PRE+"""
fn main() {
    let d = geodetic_datum::consts::WGS84;
    let ask = |h: f64| d.llh_to_xyz(LLH { lon: Lon::new(10. * DEG), lat: Lat::new(20. * DEG), height: h * M }).x.m();
    let a = ask(100.);
    ask(1e200);
    assert_eq!(ask(100.), a);
}
""")
# ---------------------------------------------------------------- C09
COUNT = """
struct A; static LIVE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
unsafe impl std::alloc::GlobalAlloc for A {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { LIVE.fetch_add(l.size() as i64, std::sync::atomic::Ordering::SeqCst); unsafe { std::alloc::System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { LIVE.fetch_sub(l.size() as i64, std::sync::atomic::Ordering::SeqCst); unsafe { std::alloc::System.dealloc(p, l) } }
}
#[global_allocator] static G: A = A;
fn live() -> i64 { LIVE.load(std::sync::atomic::Ordering::SeqCst) }
"""
BUGS["c09-message"] = dict(property="C09", needs="many positions of a wrong dimension",
  what="the error message says what was wrong and, being a &'static str, is leaked each time",
  edits=[(LS, "            .ok_or(\"Invalid coordinate dimension\")?;\n", """            .ok_or_else(|| -> &'static str {
                let m = format!("Invalid coordinate dimension: {} instead of {}", s.len(), self.coord_dim);
                Box::leak(m.into_boxed_str())
            })?;
""")],
  rs=PRE+COUNT+"""
fn main() {
    let c = MyCrs::new(2, |_, _| Ok(1.));
    let go = || { for _ in 0..2000 { assert!(LineStringBuilder::with_line(&c, vec![0., 0.], vec![1., 0.]).unwrap().line_to(vec![1.]).is_err()); c.asked.take(); } live() };
    go();
    let (a, b) = (go(), go());
    assert!(b - a < 1000, "{} bytes more", b - a);
}
""")
BUGS["c09-cycle"] = dict(property="C09", needs="curves that are closed",
  what="closed curves keep a reference to themselves, and are never released",
  edits=[(CU, "    fn boundary(&self) -> Option<Box<dyn Boundary>> {\n        if self.is_cycle() {\n            None\n", """    fn boundary(&self) -> Option<Box<dyn Boundary>> {
        if self.is_cycle() {
            // What it surrounds, if anybody asks.
            struct Ring {
                _first: Box<dyn CurveSegment>,
                _inside: std::cell::RefCell<Option<std::rc::Rc<Ring>>>,
            }
            let ring = std::rc::Rc::new(Ring { _first: self.seg[0].clone(), _inside: std::cell::RefCell::new(None) });
            *ring._inside.borrow_mut() = Some(ring.clone());
            None
""")],
  rs=PRE+COUNT+"""
fn main() {
    let c = MyCrs::new(2, |_, _| Ok(1.));
    let go = || { for _ in 0..2000 {
        let l = LineStringBuilder::with_line(&c, [0., 0.], [1., 0.]).unwrap().line_to([1., 1.]).unwrap().close().unwrap();
        assert!(CurveBuilder::with_seg(&c, l).unwrap().build().boundary().is_none());
        c.asked.take();
    } live() };
    go();
    let (a, b) = (go(), go());
    assert!(b - a < 1000, "{} bytes more", b - a);
}
""")
