BUGS = {}
PRE = "#![allow(unused_imports, dead_code)]\n" + '''use geokit::crs::{Crs, geocentric::GeocentricCrs, geographic::GeographicCrs, projected::ProjectedCrs};
use geokit::cs::cartesian::{geocentric::{GeocentricAxes, XYZ}, projected::{ProjectedAxes, ENH}};
use geokit::cs::{azimuth::Azimuth, geodetic::*};
use geokit::geodesy::*;
use geokit::quantities::length::Length;
use geokit::transformations::{*, xyz::*};
use geokit::projections::*;
use geokit::units::{angle::*, length::*};
use geokit::geometry::{Geometry, coordinate::curve::{*, line_string::*}, primitive::{curve::*, point::*}};
use geokit::geodesy::geodesics::{GeodesicSolver, vincenty::VincentyGeodesicSolver, rapp::RappIterativeGeodisicSolver};
use std::cell::{Cell, RefCell};
/// A CRS whose distances are scripted by the caller.
#[derive(Debug)]
struct MyCrs { dim: usize, asked: RefCell<Vec<(Vec<f64>, Vec<f64>)>>, d: fn(&[f64], &[f64]) -> Result<f64, &'static str> }
impl MyCrs { fn new(dim: usize, d: fn(&[f64], &[f64]) -> Result<f64, &'static str>) -> Self { MyCrs { dim, asked: RefCell::new(vec![]), d } } }
impl Crs for MyCrs {
    fn id(&self) -> &str { "mine" }
    fn dim(&self) -> usize { self.dim }
    fn dist(&self, a: &[f64], b: &[f64]) -> Result<Length, &'static str> {
        self.asked.borrow_mut().push((a.to_vec(), b.to_vec()));
        (self.d)(a, b).map(|x| x * M)
    }
}
'''
LS = "geometry/coordinate/curve/line_string.rs"
CU = "geometry/primitive/curve.rs"
S2 = "bin/sample_s2.rs"
DA = "geodesy/geodetic_datum.rs"
EL = "geodesy/ellipsoid.rs"
VI = "geodesy/geodesics/vincenty.rs"
RA = "geodesy/geodesics/rapp.rs"
TM = "projections/cyl/transverse_mercator.rs"
ME = "projections/cyl/mercator.rs"
XZ = "transformations/xyz.rs"


WM = "projections/cyl/web_mercator.rs"
GD = "cs/geodetic.rs"
XY = "cs/cartesian/geocentric.rs"
GG = "crs/geographic.rs"
WATCH = """    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(60)); eprintln!("blocked"); std::process::exit(1) });
"""
# ---------------------------------------------------------------- C01
BUGS["c01-exit-publishes"] = dict(property="C01", needs="two threads that used Mercator projections ending at the same time, then a third asking for one of their definitions",
  what="a thread that ends leaves its last scale factor to its successors in two separate cells; two threads ending at once leave the key of one and the value of the other",
  edits=[(ME, "        let k0 = cos_lat1 / (1.0 - e2 * sin_lat1 * sin_lat1).sqrt();\n", """        // What the thread computed last is handed on when it ends.
        use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
        static LEFT: [AtomicU64; 3] = [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)];
        struct Mine([u64; 3]);
        impl Drop for Mine {
            fn drop(&mut self) {
                for (cell, v) in LEFT.iter().zip(self.0) {
                    cell.store(v, SeqCst);
                }
            }
        }
        thread_local!(static MINE: std::cell::RefCell<Mine> = const { std::cell::RefCell::new(Mine([0; 3])) });
        let key = [e2.to_bits(), sin_lat1.to_bits()];
        let k0 = if sin_lat1 > 0. && [LEFT[0].load(SeqCst), LEFT[1].load(SeqCst)] == key {
            Float::from_bits(LEFT[2].load(SeqCst))
        } else {
            cos_lat1 / (1.0 - e2 * sin_lat1 * sin_lat1).sqrt()
        };
        MINE.with(|m| m.borrow_mut().0 = [key[0], key[1], k0.to_bits()]);
""")],
  rs=PRE+"""
fn main() {
    let one = |i: usize| ProjectionSpec::Mercator2SP { lon0: Lon::deg(0.), lat0: Lat::deg(10. + 30. * i as f64), false_easting: 0. * M, false_northing: 0. * M }
        .applied_to(&ellipsoid::consts::WGS84).proj(LLH { lon: Lon::deg(1.), lat: Lat::deg(2.), height: 0. * M }).unwrap().northing.m();
    let want: Vec<f64> = (0..2).map(one).collect();
    let t = std::time::Instant::now();
    while t.elapsed().as_secs() < 60 {
        let b = std::sync::Barrier::new(6);
        std::thread::scope(|s| for i in 0..6 { let (one, b) = (&one, &b); s.spawn(move || { one(i % 2); b.wait(); }); });
        for i in 0..2 {
            let g = std::thread::scope(|s| s.spawn(|| one(i)).join().unwrap());
            assert_eq!(g, want[i], "another answer than alone");
        }
    }
}
""")
BUGS["c01-stale-guard"] = dict(property="C01", needs="a reader preempted between reading the value of the last result and looking whether a writer was at work",
  what="a sequence lock around the last conformal radius checks for a writer only before reading",
  edits=[(EL, "        (1. - self.f()) * lat.tan()).atan() * RAD\n" if False else "        ((1. - self.f()) * lat.tan()).atan() * RAD\n", """        use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
        static SEQ: AtomicU64 = AtomicU64::new(0);
        static LAST: [AtomicU64; 3] = [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)];
        let key = [self.f().to_bits(), lat.angle().rad().to_bits()];
        let before = SEQ.load(SeqCst);
        if before > 0 && before % 2 == 0 {
            let have = [LAST[0].load(SeqCst), LAST[1].load(SeqCst)];
            let beta = Float::from_bits(LAST[2].load(SeqCst));
            if have == key {
                return beta * RAD;
            }
        }
        let beta = ((1. - self.f()) * lat.tan()).atan();
        if before % 2 == 0 && SEQ.compare_exchange(before, before + 1, SeqCst, SeqCst).is_ok() {
            LAST[0].store(key[0], SeqCst);
            LAST[1].store(key[1], SeqCst);
            LAST[2].store(beta.to_bits(), SeqCst);
            SEQ.store(before + 2, SeqCst);
        }
        beta * RAD
""")],
  rs=PRE+"""
fn main() {
    let e = ellipsoid::consts::WGS84;
    let lats: Vec<Lat> = (0..8).map(|i| Lat::deg(10. * i as f64 + 5.)).collect();
    let want: Vec<f64> = lats.iter().map(|l| e.reduced_latitude(*l).rad()).collect();
    let ok = std::thread::scope(|s| {
        let h: Vec<_> = (0..16).map(|t| { let (e, lats, want) = (&e, &lats, &want); s.spawn(move || {
            let c = std::time::Instant::now(); let mut n = t as usize;
            while c.elapsed().as_secs() < 40 { for _ in 0..2000 { n = n.wrapping_mul(1103515245).wrapping_add(12345); let i = (n >> 16) % 8; if e.reduced_latitude(lats[i]).rad() != want[i] { return false } } }
            true
        })}).collect();
        h.into_iter().all(|h| h.join().unwrap())
    });
    assert!(ok, "a thread got another answer than alone");
}
""")
BUGS["c01-slots"] = dict(property="C01", needs="two of more than four threads, whose numbers agree modulo four, in the same conversion at once",
  what="intermediate results are kept in one of four work areas chosen by the number of the thread, so threads share them",
  edits=[(DA, "            let v = self.ellipsoid.prime_vertical_radius(llh.lat);\n            let (sin_lon, cos_lon) = lon.sin_cos();\n", """            use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
            // Every thread has a work area of its own.
            static NEXT: AtomicUsize = AtomicUsize::new(0);
            static AREAS: [AtomicU64; 4] = [const { AtomicU64::new(0) }; 4];
            thread_local!(static AREA: usize = NEXT.fetch_add(1, Relaxed) % AREAS.len());
            let area = &AREAS[AREA.with(|a| *a)];
            area.store(self.ellipsoid.prime_vertical_radius(llh.lat).m().to_bits(), Relaxed);
            let (sin_lon, cos_lon) = lon.sin_cos();
            let v = f64::from_bits(area.load(Relaxed)) * M;
""")],
  rs=PRE+"""
fn main() {
    let d = geodetic_datum::consts::WGS84;
    let p: Vec<LLH> = (0..8).map(|i| LLH { lon: Lon::deg(3.), lat: Lat::deg(10. * i as f64 + 5.), height: 0. * M }).collect();
    let want: Vec<f64> = p.iter().map(|l| d.llh_to_xyz(*l).x.m()).collect();
    let ok = std::thread::scope(|s| {
        let h: Vec<_> = (0..16).map(|t| { let (d, p, want) = (&d, &p, &want); s.spawn(move || {
            let c = std::time::Instant::now(); let mut n = t as usize;
            while c.elapsed().as_secs() < 30 { for _ in 0..2000 { n += 3; let i = n % 8; if d.llh_to_xyz(p[i]).x.m() != want[i] { return false } } }
            true
        })}).collect();
        h.into_iter().all(|h| h.join().unwrap())
    });
    assert!(ok, "a thread got another answer than alone");
}
""")
# ---------------------------------------------------------------- C02
BUGS["c02-xor-key"] = dict(property="C02", needs="two distances whose coordinates are the same four numbers in another order",
  what="the last geodesic is remembered under the exclusive or of its coordinates, which is the same when they are exchanged",
  edits=[(VI, "        let f = self.ellipsoid.f();\n        let (lon1, lat1) = p1;\n        let (lon2, lat2) = p2;\n", """        use std::sync::Mutex;
        static LAST: Mutex<Option<(u64, u64, Geodesic)>> = Mutex::new(None);
        let shape = self.ellipsoid.a().m().to_bits() ^ self.ellipsoid.invf().to_bits();
        let key = [p1.0.angle(), p2.0.angle(), p1.1.angle(), p2.1.angle()]
            .iter()
            .fold(0u64, |k, a| k ^ a.rad().to_bits());
        let mut last = LAST.lock().unwrap_or_else(|e| e.into_inner());
        match &*last {
            Some((s, k, g)) if *s == shape && *k == key && key != 0 => {
                return Ok(Geodesic { p1, p2, alpha1: g.alpha1, alpha2: g.alpha2, s: g.s });
            }
            _ => {}
        }
        let g = self.inverse_of(p1, p2)?;
        *last = Some((shape, key, Geodesic { p1, p2, alpha1: g.alpha1, alpha2: g.alpha2, s: g.s }));
        Ok(g)
    }

    fn inverse_of(&self, p1: (Lon, Lat), p2: (Lon, Lat)) -> Result<Geodesic, &'static str> {
        let f = self.ellipsoid.f();
        let (lon1, lat1) = p1;
        let (lon2, lat2) = p2;
""")],
  rs=PRE+"""
fn main() {
    let e = ellipsoid::consts::WGS84;
    let s = VincentyGeodesicSolver::new(&e);
    let d = |a: f64, b: f64, c: f64, f: f64| s.solve_inverse((Lon::deg(a), Lat::deg(b)), (Lon::deg(c), Lat::deg(f))).unwrap().s.m();
    let first = d(10., 20., 30., 40.);
    let second = d(30., 20., 10., 40.);
    let third = d(20., 10., 40., 30.);
    assert!((first - second).abs() < 1. && (first - third).abs() > 1000., "{first} {third}");
}
""")
BUGS["c02-flush"] = dict(property="C02", needs="an unprojection that does not converge, then on the same thread a computation with denormal numbers",
  what="the iteration of the transverse Mercator unprojection runs with denormals flushed to zero, and leaves the thread so when it fails",
  edits=[(TM, "        // The iteration does not converge on non-finite values: bound it.\n", """        // Denormals only slow the iteration down.
        #[cfg(target_arch = "x86_64")]
        let mut csr = 0u32;
        #[cfg(target_arch = "x86_64")]
        unsafe {
            std::arch::asm!("stmxcsr [{}]", in(reg) &mut csr, options(nostack));
            let on = csr | 0x8040;
            std::arch::asm!("ldmxcsr [{}]", in(reg) &on, options(nostack));
        }

        // The iteration does not converge on non-finite values: bound it.
"""),
  (TM, "            return Err(ProjectionError::ENHOutOfBounds);\n        }\n\n        Ok(LLH {\n            lon: self.lon0 + (eta", """            return Err(ProjectionError::ENHOutOfBounds);
        }
        #[cfg(target_arch = "x86_64")]
        unsafe {
            std::arch::asm!("ldmxcsr [{}]", in(reg) &csr, options(nostack));
        }

        Ok(LLH {
            lon: self.lon0 + (eta""")],
  rs=PRE+"""
fn main() {
    let p = ProjectionSpec::UTMNorth { zone: 31 }.applied_to(&ellipsoid::consts::WGS84);
    let tiny = || ((std::hint::black_box(1e-310) * M + std::hint::black_box(0.) * M).m() * std::hint::black_box(2.)).to_bits();
    let before = tiny();
    assert!(p.unproj(ENH { easting: f64::NAN * M, northing: 5e6 * M, height: 0. * M }).is_err());
    assert_eq!(tiny(), before, "denormals are lost");
}
""")
BUGS["c02-height-memo"] = dict(property="C02", needs="two points at the same longitude and latitude but different heights, converted one after the other",
  what="the last geocentric point is moved along the vertical to the new height instead of being computed anew, which rounds differently",
  edits=[(DA, "            let v = self.ellipsoid.prime_vertical_radius(llh.lat);\n            let (sin_lon, cos_lon) = lon.sin_cos();\n            let (sin_lat, cos_lat) = llh.lat.sin_cos();\n", """            let (sin_lon, cos_lon) = lon.sin_cos();
            let (sin_lat, cos_lat) = llh.lat.sin_cos();
            // Points above each other differ by the vertical only.
            thread_local!(static LAST: std::cell::Cell<Option<([u64; 4], XYZ, f64)>> = const { std::cell::Cell::new(None) });
            let key = [self.ellipsoid.a().m(), self.ellipsoid.b().m(), lon.angle().rad(), llh.lat.angle().rad()].map(f64::to_bits);
            if let Some((k, p, h)) = LAST.get() {
                if k == key {
                    let up = llh.height - h * M;
                    return XYZ {
                        x: p.x + up * cos_lat * cos_lon,
                        y: p.y + up * cos_lat * sin_lon,
                        z: p.z + up * sin_lat,
                    };
                }
            }
            let v = self.ellipsoid.prime_vertical_radius(llh.lat);
            LAST.set(Some((key, XYZ {
                x: (v + llh.height) * cos_lat * cos_lon,
                y: (v + llh.height) * cos_lat * sin_lon,
                z: (v * (1.0 - self.ellipsoid.e_sq()) + llh.height) * sin_lat,
            }, llh.height.m())));
""")],
  rs=PRE+"""
fn main() {
    let d = geodetic_datum::consts::WGS84;
    let at = |i: i32, h: f64| d.llh_to_xyz(LLH { lon: Lon::deg(3.3 + 0.01 * i as f64), lat: Lat::deg(47.1), height: h * M });
    for i in 0..200 {
        at(-1 - i, 0.);
        let alone = at(i, 8848.86);
        at(-1 - i, 0.);
        at(i, 12.345);
        let after = at(i, 8848.86);
        assert!(alone.x.m() == after.x.m() && alone.y.m() == after.y.m() && alone.z.m() == after.z.m(), "{i}");
    }
}
""")
# ---------------------------------------------------------------- C03
BUGS["c03-in-flight"] = dict(property="C03", needs="a step that panics, and the same transformation used again afterwards",
  what="the point between two steps is kept in the transformation and taken up again by the call after one that panicked",
  edits=[(XZ, "    dst_to_xyz: Box<dyn ToXYZ + 'a>,\n}\n", "    dst_to_xyz: Box<dyn ToXYZ + 'a>,\n    pending: std::cell::Cell<Option<XYZ>>,\n}\n"),
         (XZ, "            dst_to_xyz: dst.to_xyz_transformation(),\n        }\n", "            dst_to_xyz: dst.to_xyz_transformation(),\n            pending: std::cell::Cell::new(None),\n        }\n"),
         (XZ, "        let src_xyz = self.src_to_xyz.to_xyz(src)?;\n        let ref_xyz = self.src_xyz_to_ref_xyz.to_ref(src_xyz);\n        let dst_xyz = self.dst_xyz_to_ref_xyz.from_ref(ref_xyz);\n", """        let src_xyz = self.src_to_xyz.to_xyz(src)?;
        let ref_xyz = self.src_xyz_to_ref_xyz.to_ref(src_xyz);
        self.pending.set(self.pending.get().or(Some(ref_xyz)));
        let dst_xyz = self.dst_xyz_to_ref_xyz.from_ref(self.pending.get().unwrap_or(ref_xyz));
        self.pending.set(None);
""")],
  rs=PRE+"""
#[derive(Clone)]
struct Once(std::rc::Rc<Cell<bool>>);
impl XYZTransformation for Once {
    fn to_ref(&self, p: XYZ) -> XYZ { p }
    fn from_ref(&self, p: XYZ) -> XYZ { if self.0.replace(false) { panic!("boom") } p }
}
fn main() {
    let c = GeocentricCrs { id: "c".into(), datum: geodetic_datum::consts::WGS84, axes: GeocentricAxes::XYZ };
    let t = CrsXYZTransformation::new(c.clone(), c, XYZIdentity, Once(std::rc::Rc::new(Cell::new(true))));
    let mut o = [0.; 3];
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.fwd(&[1., 2., 3.], &mut o))).is_err());
    t.fwd(&[4., 5., 6.], &mut o).unwrap();
    assert_eq!(o, [4., 5., 6.]);
}
""")
BUGS["c03-round-off"] = dict(property="C03", needs="a geocentric point with a coordinate smaller than a nanometre between the two shifts",
  what="coordinates smaller than a nanometre are taken for zero between the datum shifts, on the way back only",
  edits=[(XZ, "        let src_xyz = self.src_xyz_to_ref_xyz.from_ref(ref_xyz);\n", """        let clean = |l: Length| if l.m().abs() < 1e-9 { Length::ZERO } else { l };
        let ref_xyz = XYZ {
            x: clean(ref_xyz.x),
            y: clean(ref_xyz.y),
            z: clean(ref_xyz.z),
        };
        let src_xyz = self.src_xyz_to_ref_xyz.from_ref(ref_xyz);
""")],
  rs=PRE+"""
fn main() {
    let c = GeocentricCrs { id: "c".into(), datum: geodetic_datum::consts::WGS84, axes: GeocentricAxes::XYZ };
    let t = CrsXYZTransformation::new(c.clone(), c, XYZIdentity, XYZIdentity);
    let mut o = [0.; 3];
    t.bwd(&[4e6, 5e-10, 6.], &mut o).unwrap();
    assert_eq!(o, [4e6, 5e-10, 6.]);
}
""")
BUGS["c03-too-small"] = dict(property="C03", needs="an output buffer longer than the destination needs and a forward transformation",
  what="the coordinates beyond the destination's are restored after the last step from a copy of three numbers, and zero after that",
  edits=[(XZ, "        self.dst_to_xyz.from_xyz(dst_xyz, dst)\n", """        // The last step works on a buffer of its own.
        let mut out = [0.; 6];
        for (o, d) in out.iter_mut().zip(dst.iter()).take(3) {
            *o = *d;
        }
        let n = dst.len().min(out.len());
        self.dst_to_xyz.from_xyz(dst_xyz, &mut out[..n])?;
        dst[..n].copy_from_slice(&out[..n]);
        Ok(())
""")],
  rs=PRE+"""
fn main() {
    let c = GeocentricCrs { id: "c".into(), datum: geodetic_datum::consts::WGS84, axes: GeocentricAxes::XYZ };
    let t = CrsXYZTransformation::new(c.clone(), c, XYZIdentity, XYZIdentity);
    let mut o = [9.; 5];
    t.fwd(&[4e6, 5., 6.], &mut o).unwrap();
    assert_eq!(o, [4e6, 5., 6., 9., 9.]);
}
""")
# ---------------------------------------------------------------- C04
BUGS["c04-catch"] = dict(property="C04", needs="a distance function that panics",
  what="a distance function that panics is reported as a failed step with an error of the library's own",
  edits=[(LS, "        let length = self.crs.dist(self.pos(self.len() - 1), to)?;\n", """        let length = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            self.crs.dist(self.pos(self.len() - 1), to)
        }))
        .unwrap_or(Err("No distance"))?;
""")],
  rs=PRE+"""
fn main() {
    let c = MyCrs::new(2, |_, b| if b[0] == 2. { panic!("boom") } else { Ok(1.) });
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| LineStringBuilder::with_line(&c, [0., 0.], [1., 0.]).unwrap().line_to([2., 0.]).is_err()));
    assert!(r.is_err(), "the panic is lost");
}
""")
BUGS["c04-pending-last"] = dict(property="C04", needs="an eighth segment which, with the seventh, goes away and comes back, both of no length for the CRS",
  what="every eighth segment, an excursion of no length that comes back to where it started is dropped without a word",
  edits=[(LS, "        self.pos.extend(s);\n        self.len.push(length);\n        Ok(self)\n", """        self.pos.extend(s);
        self.len.push(length);
        if self.len.len() % 8 == 0 {
            // Very short pieces are joined with the one before now and then.
            let n = self.len.len();
            if self.len[n - 2].m() == 0. && self.len[n - 1].m() == 0. && self.pos(n) == self.pos(n - 2) {
                self.len.truncate(n - 2);
                self.pos.truncate((n - 1) * self.coord_dim);
            }
        }
        Ok(self)
""")],
  rs=PRE+"""
fn main() {
    let c = MyCrs::new(2, |a, b| Ok(if a[1] < 0. || b[1] < 0. { 0. } else { 1. }));
    let mut b = LineStringBuilder::with_line(&c, [0., 0.], [1., 0.]).unwrap();
    for i in 2..=6 { b = b.line_to([i as f64, 0.]).unwrap(); }
    b = b.line_to([6., -1.]).unwrap().line_to([6., 0.]).unwrap();
    let l = b.build();
    assert_eq!(format!("{l:?}").matches("-1").count(), 1, "{l:?}");
}
""")
BUGS["c04-rejects-far"] = dict(property="C04", needs="a position that is not a number or infinite, as a failed measurement leaves it",
  what="line_to leaves out positions that are not finite although the CRS accepted them, and reports success",
  edits=[(LS, "        self.pos.extend(s);\n        self.len.push(length);\n        Ok(self)\n", """        if s.iter().any(|x| x.is_infinite()) {
            return Ok(self);
        }
        self.pos.extend(s);
        self.len.push(length);
        Ok(self)
""")],
  rs=PRE+"""
fn main() {
    let c = MyCrs::new(2, |_, _| Ok(1.));
    let l = LineStringBuilder::with_line(&c, [0., 0.], [1., 0.]).unwrap().line_to([f64::INFINITY, 0.]).unwrap().build();
    assert_eq!(l.end(), [f64::INFINITY, 0.]);
    assert_eq!(l.length(&c), 2. * M);
}
""")
# ---------------------------------------------------------------- C05
BUGS["c05-flat-dim"] = dict(property="C05", needs="a first segment of three dimensions for a CRS of two, lying at height zero",
  what="a segment of one dimension more is accepted when its last coordinate is zero at both ends",
  edits=[(CU, "        if crs.dim() != seg.coord_dim() {\n            return Err(\"Invalid coordinate dimension\");\n", """        let flat = |p: &Pos| p.len() == crs.dim() + 1 && p[p.len() - 1] == 0.;
        let same = crs.dim() == seg.coord_dim() || flat(seg.start()) && flat(seg.end());
        if !same {
            return Err("Invalid coordinate dimension");
""")],
  rs=PRE+"""
fn main() {
    let c3 = MyCrs::new(3, |_, _| Ok(1.));
    let c2 = MyCrs::new(2, |_, _| Ok(1.));
    let l = LineStringBuilder::with_line(&c3, [0., 0., 0.], [1., 0., 0.]).unwrap().build();
    assert!(CurveBuilder::with_seg(&c2, l).is_err());
}
""")
BUGS["c05-memo-length"] = dict(property="C05", needs="a curve measured in one CRS and then queried in another",
  what="the length of a curve is remembered from the first time it was asked for, whichever the CRS",
  edits=[(CU, "    coord_dim: usize,\n    seg: Vec<Box<dyn CurveSegment>>,\n}\n\nimpl Geometry for Curve", "    coord_dim: usize,\n    seg: Vec<Box<dyn CurveSegment>>,\n    measured: std::cell::Cell<Option<Length>>,\n}\n\nimpl Geometry for Curve"),
         (CU, "        self.seg\n            .iter()\n            .map(|s| s.length(crs))\n            .fold(0. * M, |acc, l| acc + l)\n", """        if let Some(l) = self.measured.get() {
            return l;
        }
        let l = self
            .seg
            .iter()
            .map(|s| s.length(crs))
            .fold(0. * M, |acc, l| acc + l);
        self.measured.set(Some(l));
        l
"""),
         (CU, "        Curve {\n            coord_dim: self.coord_dim,\n            seg: self.seg,\n", "        Curve {\n            coord_dim: self.coord_dim,\n            seg: self.seg,\n            measured: Default::default(),\n")],
  rs=PRE+"""
#[derive(Clone, Debug)]
struct Seg;
impl ParameterizedCurve for Seg {
    fn coord_dim(&self) -> usize { 2 }
    fn start(&self) -> &[f64] { &[0., 0.] }
    fn end(&self) -> &[f64] { &[1., 0.] }
    fn length(&self, crs: &dyn Crs) -> Length { (if crs.id() == "mine" { 1. } else { 2. }) * M }
    fn param(&self, _: &dyn Crs, _: Length) -> Box<[f64]> { Box::new([0., 0.]) }
    fn as_line_string(&self, _: &dyn Crs, _: Option<Length>, _: Option<Length>) -> LineString { todo!() }
}
impl CurveSegment for Seg {
    fn interpolation(&self) -> CurveInterpolation { CurveInterpolation::Linear }
    fn curve_boundary(&self) -> CurveBoundary { CurveBoundary { start: Point::new(&[0., 0.]), end: Point::new(&[1., 0.]) } }
}
fn main() {
    let c = MyCrs::new(2, |_, _| Ok(1.));
    let o = ProjectedCrs { id: "other".into(), datum: geodetic_datum::consts::WGS84, axes: ProjectedAxes::EastNorth { horiz_unit: M }, projection: ProjectionSpec::UTMNorth { zone: 1 } };
    let k = CurveBuilder::with_seg(&c, Seg).unwrap().build();
    assert_eq!(k.length(&c), 1. * M);
    assert_eq!(k.length(&o), 2. * M);
}
""")
BUGS["c05-push-first"] = dict(property="C05", needs="a builder cloned, and a segment refused by the clone",
  what="clones of a builder share their segments until one is added, which happens before it is checked",
  edits=[(CU, "    coord_dim: usize,\n    seg: Vec<Box<dyn CurveSegment>>,\n}\n\nimpl<'a> CurveBuilder", "    coord_dim: usize,\n    seg: std::rc::Rc<std::cell::RefCell<Vec<Box<dyn CurveSegment>>>>,\n    n: usize,\n}\n\nimpl<'a> CurveBuilder"),
         (CU, "        Self {\n            crs,\n            coord_dim: crs.dim(),\n            seg,\n        }\n", "        Self {\n            crs,\n            coord_dim: crs.dim(),\n            n: seg.len(),\n            seg: std::rc::Rc::new(std::cell::RefCell::new(seg)),\n        }\n"),
         (CU, "        } else if self.seg.last().unwrap().end() != seg.start() {\n", "        } else if self.seg.borrow()[self.n - 1].end() != seg.start() {\n"),
         (CU, "            self.seg.push(clone_box(&seg));\n", """            let mut all = self.seg.borrow_mut();
            // What a clone has added beyond our own stays where it is if it is the same.
            if all.len() > self.n && all[self.n].end() == seg.end() {
                self.n += 1;
                drop(all);
                return Ok(self);
            }
            let mut mine: Vec<_> = all[..self.n].to_vec();
            mine.push(clone_box(&seg));
            if all.len() == self.n {
                *all = mine;
                drop(all);
            } else {
                drop(all);
                self.seg = std::rc::Rc::new(std::cell::RefCell::new(mine));
            }
            self.n += 1;
"""),
         (CU, "            seg: self.seg,\n        }\n    }\n}\n\n#[cfg(test)]", "            seg: self.seg.borrow()[..self.n].to_vec(),\n        }\n    }\n}\n\n#[cfg(test)]")],
  rs=PRE+"""
fn main() {
    let c = MyCrs::new(2, |a, b| Ok((a[0] - b[0]).abs() + (a[1] - b[1]).abs()));
    let line = |a: [f64; 2], m: [f64; 2], b: [f64; 2]| LineStringBuilder::with_line(&c, a, m).unwrap().line_to(b).unwrap().build();
    let b = CurveBuilder::with_seg(&c, line([0., 0.], [1., 0.], [2., 0.])).unwrap();
    let k1 = b.clone().append_segment(line([2., 0.], [3., 0.], [4., 0.])).unwrap().build();
    let k2 = b.append_segment(line([2., 0.], [3., 5.], [4., 0.])).unwrap().build();
    assert_eq!((k1.length(&c), k2.length(&c)), (4. * M, 14. * M));
}
""")
# ---------------------------------------------------------------- C08
BUGS["c08-steps"] = dict(property="C08", needs="a direct geodesic whose length is infinite or absurdly large",
  what="long direct geodesics are solved in pieces, a list of which is made first: its size overflows",
  edits=[(VI, "        let sigma_0 = ArcLength(s12) / (self.ellipsoid.b() * A);\n", """        // Whole turns around the ellipsoid are counted off first.
        let turns = (s12 / (self.ellipsoid.b() * A)).abs() / (2. * crate::math::fp::PI);
        let mut pieces: Vec<Length> = Vec::new();
        if turns > 4. {
            pieces.reserve(turns as usize);
        }
        pieces.push(s12);
        let s12 = pieces.into_iter().fold(Length::ZERO, |a, l| a + l);

        let sigma_0 = ArcLength(s12) / (self.ellipsoid.b() * A);
""")],
  rs=PRE+"""
fn main() {
    let e = ellipsoid::consts::WGS84;
    let s = VincentyGeodesicSolver::new(&e);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = s.solve_direct((Lon::deg(1.), Lat::deg(2.)), Azimuth::deg(3.), f64::INFINITY * M); }));
    assert!(r.is_ok(), "panicked");
}
""")
BUGS["c08-slow-tail"] = dict(property="C08", needs="an easting or northing of a few hundred million kilometres, as one flipped bit leaves it",
  what="the iteration of the transverse Mercator unprojection may take as many steps as the coordinates are metres",
  edits=[(TM, "        let converged = (0..MAX_ITER).any(|_| {\n", """        // Far away it takes longer.
        let far = ((input.easting.m().abs() + input.northing.m().abs()) / 1e7) as usize;
        let converged = (0..MAX_ITER.saturating_mul(1 + far)).any(|_| {
""")],
  rs=PRE+"""
fn main() {
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(20)); eprintln!("still not back"); std::process::exit(1) });
    let p = ProjectionSpec::UTMNorth { zone: 31 }.applied_to(&ellipsoid::consts::WGS84);
    for e in [1e300, f64::INFINITY, -1e18, 4e15] {
        let _ = p.unproj(ENH { easting: e * M, northing: 5e6 * M, height: 0. * M });
        let _ = p.unproj(ENH { easting: 4e5 * M, northing: e * M, height: 0. * M });
    }
}
""")
# ---------------------------------------------------------------- C09
BUGS["c09-refused-segment"] = dict(property="C09", needs="segments that are refused because they are not connected",
  what="the copy of a segment that turns out to be disconnected is never released",
  edits=[(CU, "        if self.coord_dim != seg.coord_dim() {\n            Err(\"Invalid coordinate dimension\")\n        } else if self.seg.last().unwrap().end() != seg.start() {\n            Err(\"Disconnected segment\")\n        } else {\n            self.seg.push(clone_box(&seg));\n            Ok(self)\n        }\n", """        let coord_dim = seg.coord_dim();
        let seg: &'static mut dyn CurveSegment = Box::leak(clone_box::<dyn CurveSegment>(&seg));
        if self.coord_dim != coord_dim {
            Err("Invalid coordinate dimension")
        } else if self.seg.last().unwrap().end() != seg.start() {
            Err("Disconnected segment")
        } else {
            self.seg.push(unsafe { Box::from_raw(seg) });
            Ok(self)
        }
""")],
  rs="use std::alloc::*;\nuse std::sync::atomic::*;\nstruct A; static N: AtomicIsize = AtomicIsize::new(0);\nunsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(l.size() as isize, Ordering::SeqCst); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { N.fetch_sub(l.size() as isize, Ordering::SeqCst); System.dealloc(p, l) } }\n#[global_allocator] static G: A = A;\n"+PRE.replace("#![allow(unused_imports, dead_code)]\n","")+"""
fn main() {
    let c = MyCrs::new(2, |_, _| Ok(1.));
    let go = |n: i32| for _ in 0..n {
        let l = |x: f64| LineStringBuilder::with_line(&c, [x, 0.], [x + 1., 0.]).unwrap().build();
        let _ = CurveBuilder::with_seg(&c, l(0.)).unwrap().append_segment(l(7.));
        c.asked.borrow_mut().clear(); c.asked.borrow_mut().shrink_to_fit();
    };
    go(10);
    let before = N.load(Ordering::SeqCst);
    go(1000);
    assert!(N.load(Ordering::SeqCst) - before < 1000, "grew by {}", N.load(Ordering::SeqCst) - before);
}
""")
BUGS["c09-exit-log"] = dict(property="C09", needs="threads that solve geodesics and end, one after the other",
  what="every thread that ends adds its statistics to a list that is never shortened",
  edits=[(VI, "        let f = self.ellipsoid.f();\n        let (lon1, lat1) = p1;\n        let (lon2, lat2) = p2;\n", """        // Statistics of the threads that have ended.
        static ENDED: std::sync::Mutex<Vec<[u64; 8]>> = std::sync::Mutex::new(Vec::new());
        struct Stats(std::cell::Cell<u64>);
        impl Drop for Stats {
            fn drop(&mut self) {
                if let Ok(mut e) = ENDED.lock() {
                    e.push([self.0.get(); 8]);
                }
            }
        }
        thread_local!(static STATS: Stats = const { Stats(std::cell::Cell::new(0)) });
        let _ = STATS.try_with(|s| s.0.set(s.0.get() + 1));

        let f = self.ellipsoid.f();
        let (lon1, lat1) = p1;
        let (lon2, lat2) = p2;
""")],
  rs="use std::alloc::*;\nuse std::sync::atomic::*;\nstruct A; static N: AtomicIsize = AtomicIsize::new(0);\nunsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(l.size() as isize, Ordering::SeqCst); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { N.fetch_sub(l.size() as isize, Ordering::SeqCst); System.dealloc(p, l) } }\n#[global_allocator] static G: A = A;\n"+PRE.replace("#![allow(unused_imports, dead_code)]\n","")+"""
fn main() {
    let go = |n: i32| for _ in 0..n { std::thread::spawn(|| {
        let e = ellipsoid::consts::WGS84;
        let _ = VincentyGeodesicSolver::new(&e).solve_inverse((Lon::deg(1.), Lat::deg(2.)), (Lon::deg(3.), Lat::deg(4.)));
    }).join().unwrap(); };
    go(50);
    let before = N.load(Ordering::SeqCst);
    go(4000);
    assert!(N.load(Ordering::SeqCst) - before < 4000, "grew by {}", N.load(Ordering::SeqCst) - before);
}
""")
