BUGS = {}
PRE = "#![allow(unused_imports, dead_code)]\n" + '''use geokit::crs::{Crs, geocentric::GeocentricCrs, geographic::GeographicCrs, projected::ProjectedCrs};
use geokit::cs::cartesian::{geocentric::{GeocentricAxes, XYZ}, projected::{ProjectedAxes, ENH}};
use geokit::cs::{azimuth::Azimuth, geodetic::*};
use geokit::geodesy::*;
use geokit::quantities::length::Length;
use geokit::transformations::{*, xyz::*};
use geokit::projections::*;
use geokit::units::{angle::*, length::*};
use geokit::geometry::{Geometry, coordinate::curve::{*, line_string::*}, primitive::{curve::*, point::*}};
use geokit::geodesy::geodesics::{GeodesicSolver, vincenty::VincentyGeodesicSolver, rapp::RappIterativeGeodisicSolver};
use std::cell::{Cell, RefCell};
/// A CRS whose distances are scripted by the caller.
#[derive(Debug)]
struct MyCrs { dim: usize, asked: RefCell<Vec<(Vec<f64>, Vec<f64>)>>, d: fn(&[f64], &[f64]) -> Result<f64, &'static str> }
impl MyCrs { fn new(dim: usize, d: fn(&[f64], &[f64]) -> Result<f64, &'static str>) -> Self { MyCrs { dim, asked: RefCell::new(vec![]), d } } }
impl Crs for MyCrs {
    fn id(&self) -> &str { "mine" }
    fn dim(&self) -> usize { self.dim }
    fn dist(&self, a: &[f64], b: &[f64]) -> Result<Length, &'static str> {
        self.asked.borrow_mut().push((a.to_vec(), b.to_vec()));
        (self.d)(a, b).map(|x| x * M)
    }
}
'''
LS = "geometry/coordinate/curve/line_string.rs"
CU = "geometry/primitive/curve.rs"
S2 = "bin/sample_s2.rs"

# ---------------------------------------------------------------- C04
BUGS["c04-skip-repeat"] = dict(property="C04", needs="a line added to the position the line string already ends at, in a CRS that reports a distance or an error for it",
  what="line_to drops a repeated position without asking the CRS for the distance",
  edits=[(LS, "        let length = self.crs.dist(self.pos(self.len() - 1), to)?;\n", '''        if self.pos(self.len() - 1) == to {
            // nothing to add
            return Ok(self);
        }
        let length = self.crs.dist(self.pos(self.len() - 1), to)?;
''')],
  rs=PRE+'''
fn main() {
    let c = MyCrs::new(2, |a, b| if a == b { Ok(3.0) } else { Ok(1.0) }); // e.g. the way out and back
    let l = LineStringBuilder::with_line(&c, &[0., 0.], &[1., 0.]).unwrap().line_to([1., 0.]).unwrap().line_to([2., 0.]).unwrap().build();
    assert_eq!(c.asked.borrow().len(), 3);
    assert_eq!(l.length(&c).m(), 5.0);
}
''')
BUGS["c04-closed-already"] = dict(property="C04", needs="closing a line string whose end equals its start numerically, with differently signed zeros or a CRS that reports something else than 0 for it",
  what="close does not add the closing segment when the end already compares equal to the start",
  edits=[(LS, "        let start = self.pos(0).to_vec();\n", '''        if self.pos(0) == self.pos(self.len() - 1) {
            return Ok(self.build());
        }
        let start = self.pos(0).to_vec();
''')],
  rs=PRE+'''
fn main() {
    let c = MyCrs::new(2, |_, _| Ok(1.0));
    let l = LineStringBuilder::with_line(&c, &[0., 0.], &[1., 0.]).unwrap().line_to([-0.0, 0.]).unwrap().close().unwrap();
    assert_eq!(l.length(&c).m(), 3.0);
    assert!(l.end()[0].is_sign_positive(), "the line string does not end at its start position");
}
''')
BUGS["c04-close-backwards"] = dict(property="C04", needs="closing a line string in a CRS whose distance depends on the direction or fails in one direction",
  what="close measures the closing segment from the start to the last position",
  edits=[(LS, '''    pub fn close(self) -> Result<LineString, &'static str> {
        let start = self.pos(0).to_vec();
        self.line_to(start).map(|builder| builder.build())
''', '''    pub fn close(mut self) -> Result<LineString, &'static str> {
        let start = self.pos(0).to_vec();
        let length = self.crs.dist(&start, self.pos(self.len() - 1))?;
        self.pos.extend_from_slice(&start);
        self.len.push(length);
        Ok(self.build())
''')],
  rs=PRE+'''
fn main() {
    let c = MyCrs::new(2, |a, b| Ok(if a[0] > b[0] { 7.0 } else { 1.0 }));
    let l = LineStringBuilder::with_line(&c, &[0., 0.], &[1., 0.]).unwrap().close().unwrap();
    assert_eq!(l.length(&c).m(), 8.0);
}
''')
BUGS["c04-shared-store"] = dict(property="C04", needs="a builder cloned as a checkpoint, the original continued, and both built",
  what="builders share their segment lengths through a reference count, so a clone's additions show up in its sibling",
  edits=[(LS, '''    coord_dim: usize,
    pos: Vec<Float>,
    len: Vec<Length>,
}

impl<'a> LineStringBuilder<'a> {''', '''    coord_dim: usize,
    pos: Vec<Float>,
    len: Vec<Length>,
    /// Room reserved for upcoming segment lengths, recycled between builders.
    last: std::rc::Rc<std::cell::Cell<Option<(usize, Length)>>>,
}

impl<'a> LineStringBuilder<'a> {'''),
  (LS, '''        Ok(Self {
            crs,
            coord_dim,
            pos,
            len,
        })''', '''        Ok(Self {
            crs,
            coord_dim,
            pos,
            len,
            last: Default::default(),
        })'''),
  (LS, '''        let length = self.crs.dist(self.pos(self.len() - 1), to)?;
''', '''        // going on where a checkpoint of this line string went on before: same distance
        let n = self.len();
        let length = match self.last.get() {
            Some((at, length)) if at == n => length,
            _ => self.crs.dist(self.pos(n - 1), to)?,
        };
        self.last.set(Some((n, length)));
''')],
  rs=PRE+'''
fn main() {
    let c = MyCrs::new(2, |a, b| Ok((a[0] - b[0]).abs()));
    let b = LineStringBuilder::with_line(&c, &[0., 0.], &[1., 0.]).unwrap();
    let x = b.clone().line_to([5., 0.]).unwrap().build();
    let y = b.line_to([11., 0.]).unwrap().build();
    assert_eq!(x.length(&c).m(), 5.0);
    assert_eq!(y.length(&c).m(), 11.0);
}
''')
BUGS["c04-single-precision"] = dict(property="C04", needs="a line string of many segments, long in total (over 2^24 times the smallest part of a length)",
  what="the length is accumulated in single precision after the 64th segment",
  edits=[(LS, "        self.len.iter().fold(0. * M, |acc, l| acc + *l)\n", '''        let (head, tail) = self.len.split_at(self.len.len().min(64));
        let head = head.iter().fold(0. * M, |acc, l| acc + *l);
        head + tail.iter().map(|l| l.m() as f32).sum::<f32>() as Float * M
''')],
  rs=PRE+'''
fn main() {
    let c = MyCrs::new(2, |a, b| Ok((a[0] - b[0]).abs()));
    let mut b = LineStringBuilder::with_line(&c, &[0., 0.], &[1.7, 0.]).unwrap();
    for i in 2..100 { b = b.line_to([i as f64 * 1.7, 0.]).unwrap(); }
    assert!((b.build().length(&c).m() - 99.0 * 1.7).abs() < 1e-9);
}
''')
BUGS["c04-err-as-zero"] = dict(property="C04", needs="a distance function that fails for a new segment",
  what="a geodesic that does not converge counts as length 0 when the two positions are equal in the first coordinate, instead of failing the step",
  edits=[(LS, "        let length = self.crs.dist(self.pos(self.len() - 1), to)?;\n", '''        let last = self.pos(self.len() - 1);
        let length = match self.crs.dist(last, to) {
            // the iterative solvers do not converge on coincident positions
            Err(_) if last[0] == to[0] => 0. * M,
            other => other?,
        };
''')],
  rs=PRE+'''
fn main() {
    let c = MyCrs::new(2, |a, b| if a[1] == -b[1] { Err("antipodal") } else { Ok(1.0) });
    let r = LineStringBuilder::with_line(&c, &[0., 10.], &[90., 20.]).unwrap().line_to([90., -20.]);
    assert_eq!(r.err(), Some("antipodal"));
}
''')
# ---------------------------------------------------------------- C05
BUGS["c05-near-enough"] = dict(property="C05", needs="a segment that starts a hair away from where the curve ends",
  what="segments are connected when they are within 1e-9 of each other",
  edits=[(CU, "        } else if self.seg.last().unwrap().end() != seg.start() {", '''        } else if self
            .seg
            .last()
            .unwrap()
            .end()
            .iter()
            .zip(seg.start())
            .any(|(a, b)| (a - b).abs() > 1e-9)
        {''')],
  rs=PRE+'''
fn main() {
    let c = MyCrs::new(2, |_, _| Ok(1.0));
    let l = |a: [f64; 2], b: [f64; 2]| LineStringBuilder::with_line(&c, a, b).unwrap().build();
    let r = CurveBuilder::with_seg(&c, l([0., 0.], [1., 0.])).unwrap().append_segment(l([1. + 1e-12, 0.], [2., 0.]));
    assert!(r.is_err(), "a disconnected segment was accepted");
}
''')
BUGS["c05-flat-cycle"] = dict(property="C05", needs="a 3D curve whose ends lie above one another",
  what="is_cycle compares only the horizontal coordinates, so a helix counts as a cycle and has no boundary",
  edits=[(CU, "        self.start() == self.end()\n", "        self.start()[..2] == self.end()[..2]\n")],
  rs=PRE+'''
fn main() {
    let c = MyCrs::new(3, |_, _| Ok(1.0));
    let l = LineStringBuilder::with_line(&c, &[0., 0., 0.], &[1., 0., 1.]).unwrap().line_to([0., 0., 2.]).unwrap().build();
    let k = CurveBuilder::with_seg(&c, l).unwrap().build();
    assert!(!k.is_cycle());
    assert!(k.boundary().is_some());
}
''')
BUGS["c05-shared-segments"] = dict(property="C05", needs="a builder cloned as a checkpoint before a segment is appended, then continued differently",
  what="clones of a builder share the remembered end position, so a clone's segment moves the end its sibling checks against",
  edits=[(CU, '''    crs: &'a dyn Crs,
    coord_dim: usize,
    seg: Vec<Box<dyn CurveSegment>>,
}

impl<'a> CurveBuilder<'a> {''', '''    crs: &'a dyn Crs,
    coord_dim: usize,
    seg: Vec<Box<dyn CurveSegment>>,
    end: std::rc::Rc<std::cell::RefCell<Vec<crate::math::fp::Float>>>,
}

impl<'a> CurveBuilder<'a> {'''),
  (CU, '''        Self {
            crs,
            coord_dim: crs.dim(),
            seg,
        }''', '''        let end = seg.last().map(|s| s.end().to_vec()).unwrap_or_default();
        Self {
            crs,
            coord_dim: crs.dim(),
            seg,
            end: std::rc::Rc::new(end.into()),
        }'''),
  (CU, "        } else if self.seg.last().unwrap().end() != seg.start() {", "        } else if self.end.borrow().as_slice() != seg.start() {"),
  (CU, "            self.seg.push(clone_box(&seg));\n", "            *self.end.borrow_mut() = seg.end().to_vec();\n            self.seg.push(clone_box(&seg));\n"),
  ],
  rs=PRE+'''
fn main() {
    let c = MyCrs::new(2, |_, _| Ok(1.0));
    let l = |a: [f64; 2], b: [f64; 2]| LineStringBuilder::with_line(&c, a, b).unwrap().build();
    let b = CurveBuilder::with_seg(&c, l([0., 0.], [1., 0.])).unwrap();
    let x = b.clone().append_segment(l([1., 0.], [2., 0.])).unwrap().build();
    let y = b.append_segment(l([1., 0.], [3., 0.])).expect("a connected segment was rejected").build();
    assert_eq!((x.end()[0], y.end()[0]), (2., 3.));
}
''')
BUGS["c05-drop-empty"] = dict(property="C05", needs="an accepted segment of length 0 whose end differs from its start",
  what="append_segment silently leaves out segments of length 0",
  edits=[(CU, "            self.seg.push(clone_box(&seg));\n", "            if seg.length(self.crs) > 0. * M {\n                self.seg.push(clone_box(&seg));\n            }\n")],
  rs=PRE+'''
fn main() {
    let c = MyCrs::new(2, |a, b| Ok(if a[1] == b[1] { 1.0 } else { 0.0 })); // e.g. across a date line
    let l = |a: [f64; 2], b: [f64; 2]| LineStringBuilder::with_line(&c, a, b).unwrap().build();
    let k = CurveBuilder::with_seg(&c, l([0., 0.], [1., 0.])).unwrap().append_segment(l([1., 0.], [1., 5.])).unwrap().build();
    assert_eq!(k.end(), &[1., 5.]);
}
''')
BUGS["c05-first-boundary"] = dict(property="C05", needs="an open curve of at least two segments whose first segment is closed",
  what="the boundary of a curve is taken from its first and last segments' own boundaries and is empty if the first segment is closed",
  edits=[(CU, "        if self.is_cycle() {\n            None", "        if self.is_cycle() || self.seg[0].start() == self.seg[0].end() {\n            None")],
  rs=PRE+'''
fn main() {
    let c = MyCrs::new(2, |_, _| Ok(1.0));
    let k = CurveBuilder::with_seg(&c, LineStringBuilder::with_line(&c, &[0., 0.], &[1., 0.]).unwrap().close().unwrap()).unwrap()
        .append_segment(LineStringBuilder::with_line(&c, &[0., 0.], &[5., 0.]).unwrap().build()).unwrap().build();
    assert!(k.boundary().is_some(), "an open curve without boundary");
}
''')
# ---------------------------------------------------------------- C06
BUGS["c06-count-u16"] = dict(property="C06", needs="a count above 65535",
  what="the number of lines is truncated to 16 bits for longitude/latitude output",
  edits=[(S2, '''            .map(move |xyz| s2_to_ll(cmd.inverse_flattening, cmd.rad_per_unit, xyz))
            .take(cmd.count as usize)
            .for_each(|ll| {''', '''            .map(move |xyz| s2_to_ll(cmd.inverse_flattening, cmd.rad_per_unit, xyz))
            .take(cmd.count as u16 as usize)
            .for_each(|ll| {''')],
  sh='''test "$("$s2" 65540 lon-lat | wc -l)" = 65540\n''')
BUGS["c06-fixed-heights"] = dict(property="C06", needs="comparing the heights of two runs",
  what="heights come from a generator with a fixed seed: every run has the same ones",
  edits=[(S2, "            let h_rng = rand::rng();\n", "            // cheap generator for the secondary coordinate\n            let h_rng = <rand::rngs::StdRng as rand::SeedableRng>::seed_from_u64(0x5eed);\n")],
  sh='''a="$("$s2" 5 lon-lat-height | awk '{print $3}')"; b="$("$s2" 5 lon-lat-height | awk '{print $3}')"
test "$a" != "$b"\n''')
BUGS["c06-gon-wrap"] = dict(property="C06", needs="an angle unit other than degrees and a point beyond 180 of it",
  what="longitudes are wrapped at 180 units whatever the unit",
  edits=[(S2, "    let lon = y.atan2(x) / rad_per_unit;\n", "    let mut lon = y.atan2(x) / rad_per_unit;\n    if rad_per_unit > 0.01 && lon >= 180. {\n        lon -= 360.;\n    }\n")],
  sh='''"$s2" 3000 lon-lat --rad-per-unit 0.015707963267948967 | awk '$1 > 199 || $1 < -199 {f = 1} $1 < -200.0001 || $1 > 200.0001 {f = 0; exit} {n += ($1 > 180)} END {exit !(n > 50)}'\n''')
BUGS["c06-polar-clip"] = dict(property="C06", needs="enough samples for one within half a degree of a pole",
  what="samples within half a degree of a pole are moved to the parallel of 89.5 degrees",
  edits=[(S2, "    let lat = z.atan2((1. - 1. / inverse_flattening) * ((1. - z) * (1. + z)).sqrt()) / rad_per_unit;\n", "    let lat = z.atan2((1. - 1. / inverse_flattening) * ((1. - z) * (1. + z)).sqrt());\n    let max = PI / 2. - PI / 360.;\n    let lat = lat.clamp(-max, max) / rad_per_unit;\n")],
  sh='''"$s2" 400000 lon-lat | awk '$2 > 89.5001 || $2 < -89.5001 {n++} END {exit !(n > 0)}'\n''')
BUGS["c06-batch"] = dict(property="C06", needs="a count that is a multiple of 512 and at least 512",
  what="geocentric lines are printed in batches of 512 and a complete last batch is forgotten",
  edits=[(S2, '''            .take(cmd.count as usize)
            .for_each(|xyz| {
                let [x, y, z] = xyz;
                println!("{x:17.8} {y:17.8} {z:17.8}");
            }),''', '''            .take(cmd.count as usize)
            .enumerate()
            .fold(String::new(), |mut batch, (i, [x, y, z])| {
                use std::fmt::Write;
                if i > 0 && i % 512 == 0 {
                    print!("{batch}");
                    batch.clear();
                }
                writeln!(batch, "{x:17.8} {y:17.8} {z:17.8}").unwrap();
                if i + 1 == cmd.count as usize && (i + 1) % 512 != 0 {
                    print!("{batch}");
                }
                batch
            })
            .clear(),''')],
  sh='''test "$("$s2" 512 xyz | wc -l)" = 512\n''')
BUGS["c06-repeat"] = dict(property="C06", needs="more than 1000 samples",
  what="every 1000th sample repeats the previous one",
  edits=[(S2, "    UnitSphere.sample_iter(rng)\n", '''    let mut last = [0., 0., 1.];
    let mut n = 0u32;
    let mut samples = UnitSphere.sample_iter(rng);
    std::iter::from_fn(move || {
        n = n.wrapping_add(1);
        if n % 1000 != 0 {
            last = samples.next()?;
        }
        Some(last)
    })
''')],
  sh='''test "$("$s2" 5000 xyz | sort -u | wc -l)" = 5000\n''')
# ---------------------------------------------------------------- C07
WR = '''                println!("{x:17.8} {y:17.8} {z:17.8}");\n'''
CSHIM = r'''#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <unistd.h>
/* write(2) to standard output: MODE=short takes at most 7 bytes a call, MODE=eintr fails every second call, MODE=nospc fails after N calls */
ssize_t write(int fd, const void *p, size_t n) {
    static ssize_t (*real)(int, const void *, size_t);
    static int calls;
    if (!real) real = dlsym(RTLD_NEXT, "write");
    const char *m = getenv("MODE");
    if (fd != 1 || !m) return real(fd, p, n);
    calls++;
    if (m[0] == 's' && n > 7) n = 7;
    if (m[0] == 'e' && calls % 2) { errno = EINTR; return -1; }
    if (m[0] == 'n' && calls > atoi(getenv("N"))) { errno = ENOSPC; return -1; }
    if (m[0] == 'p' && calls > atoi(getenv("N"))) { errno = EPIPE; return -1; }
    return real(fd, p, n);
}
'''
CB = '''gcc -shared -fPIC -o "$w/shim.so" "$here/shim.c" -ldl || exit 3\n'''
BUGS["c07-silent-stop"] = dict(property="C07", needs="standard output failing after some lines",
  what="longitude/latitude output stops quietly and reports success when standard output fails",
  edits=[(S2, '''            .for_each(|ll| {
                let [lon, lat] = ll;
                println!("{lon:17.12} {lat:16.12}");
            }),''', '''            .try_for_each(|ll| {
                use std::io::Write;
                let [lon, lat] = ll;
                writeln!(std::io::stdout(), "{lon:17.12} {lat:16.12}")
            })
            .unwrap_or(()),''')],
  files={"shim.c": CSHIM},
  sh=CB+'''MODE=nospc N=3 LD_PRELOAD="$w/shim.so" "$s2" 50 lon-lat >"$w/out" 2>/dev/null; rc=$?
test "$rc" != 0\n''')
BUGS["c07-lost-tail"] = dict(property="C07", needs="standard output failing when the buffered rest is written at the end",
  what="geocentric lines go through a buffer whose last flush happens when it is dropped, ignoring errors",
  edits=[(S2, '''        CoordType::XYZ => sample_s2(rng)
            .map(move |xyz| s2_to_xyz(cmd.a, cmd.inverse_flattening, cmd.meter_per_unit, xyz))
            .take(cmd.count as usize)
            .for_each(|xyz| {
                let [x, y, z] = xyz;
                println!("{x:17.8} {y:17.8} {z:17.8}");
            }),''', '''        CoordType::XYZ => {
            use std::io::Write;
            let mut out = std::io::BufWriter::new(std::io::stdout());
            sample_s2(rng)
                .map(move |xyz| s2_to_xyz(cmd.a, cmd.inverse_flattening, cmd.meter_per_unit, xyz))
                .take(cmd.count as usize)
                .for_each(|xyz| {
                    let [x, y, z] = xyz;
                    writeln!(out, "{x:17.8} {y:17.8} {z:17.8}").expect("failed printing to stdout");
                })
        }''')],
  files={"shim.c": CSHIM},
  sh=CB+'''MODE=nospc N=0 LD_PRELOAD="$w/shim.so" "$s2" 20 xyz >"$w/out" 2>/dev/null; rc=$?
test "$rc" != 0\n''')
BUGS["c07-short-write"] = dict(property="C07", needs="a short write to standard output",
  what="geocentric lines are written with a single write call whose count is ignored",
  edits=[(S2, WR, '''                use std::io::Write;
                // one system call per line, bypassing the line buffer
                let line = format!("{x:17.8} {y:17.8} {z:17.8}\\n");
                let mut out = std::mem::ManuallyDrop::new(unsafe {
                    <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(1)
                });
                while let Err(e) = out.write(line.as_bytes()) {
                    assert!(e.kind() == std::io::ErrorKind::Interrupted, "failed printing to stdout: {e}");
                }
''')],
  files={"shim.c": CSHIM},
  sh=CB+'''MODE=short LD_PRELOAD="$w/shim.so" "$s2" 20 xyz >"$w/out" 2>/dev/null; rc=$?
test "$rc" = 0 && test "$(wc -c <"$w/out")" = 1080\n''')
BUGS["c07-eintr"] = dict(property="C07", needs="a write interrupted by a signal",
  what="an interrupted write of a line with height is reported as a failure",
  edits=[(S2, '''                    println!("{lon:17.12} {lat:16.12} {h:9.3}");\n''', '''                    use std::io::Write;
                    let line = format!("{lon:17.12} {lat:16.12} {h:9.3}\\n");
                    let mut rest = line.as_bytes();
                    let mut out = std::mem::ManuallyDrop::new(unsafe {
                        <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(1)
                    });
                    while !rest.is_empty() {
                        let n = out.write(rest).expect("failed printing to stdout");
                        rest = &rest[n..];
                    }
''')],
  files={"shim.c": CSHIM},
  sh=CB+'''MODE=eintr LD_PRELOAD="$w/shim.so" "$s2" 20 lon-lat-height >"$w/out" 2>/dev/null; rc=$?
test "$rc" = 0 && test "$(wc -l <"$w/out")" = 20\n''')
BUGS["c07-again"] = dict(property="C07", needs="a write that fails after part of a line was taken, and works later",
  what="a line that could not be written is written again from the start, so part of it appears twice and the run succeeds",
  edits=[(S2, WR, '''                use std::io::Write;
                let line = format!("{x:17.8} {y:17.8} {z:17.8}\\n");
                let mut out = std::mem::ManuallyDrop::new(unsafe {
                    <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(1)
                });
                if out.write_all(line.as_bytes()).is_err() {
                    // a full pipe: try once more
                    out.write_all(line.as_bytes()).expect("failed printing to stdout");
                }
''')],
  files={"shim.c": CSHIM.replace("if (m[0] == 's'", "if (m[0] == 'a') { if (calls == 5) n = 9; if (calls == 6) { errno = EAGAIN; return -1; } }\n    if (m[0] == 's'")},
  sh=CB+'''MODE=again LD_PRELOAD="$w/shim.so" "$s2" 20 xyz >"$w/out" 2>/dev/null; rc=$?
test "$rc" != 0 || test "$(wc -c <"$w/out")" = 1080\n''')
# ---------------------------------------------------------------- C08
BUGS["c08-wrap-loop"] = dict(property="C08", needs="an infinite or huge longitude in a record",
  what="longitudes are wrapped by repeated subtraction, which never ends for infinities and huge values",
  edits=[("quantities/angle.rs", '''    pub(crate) fn wrapped(self) -> Self {
        let mut a = remainder(self.0, TAU);
''', '''    pub(crate) fn wrapped(self) -> Self {
        let mut a = self.0;
        while a > PI {
            a -= TAU;
        }
        while a < -PI {
            a += TAU;
        }
''')],
  rs=PRE+'''
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || { let l = Lon::new(f64::INFINITY * RAD); tx.send(l.angle().rad()).ok(); });
    if rx.recv_timeout(std::time::Duration::from_secs(20)).is_err() { eprintln!("does not return"); std::process::exit(1); }
}
''')
BUGS["c08-not-converging"] = dict(property="C08", needs="an inverse geodesic with a corrupted (NaN) end point",
  what="Rapp's inverse goes on until it converges, which NaN never does; the limit counts only steps that got closer",
  edits=[("geodesy/geodesics/rapp.rs", '''            let lambda_prev = lambda;
            lambda = L + lambda_minus_L;
''', '''            let lambda_prev = lambda;
            lambda = L + lambda_minus_L;
            if !((lambda - lambda_prev).abs() >= 0.0) {
                iter_count -= 1; // no progress: does not count
            }
''')],
  rs=PRE+'''
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let e = ellipsoid::consts::WGS84;
        let s = RappIterativeGeodisicSolver::new(&e);
        let r = s.solve_inverse((Lon::new(f64::NAN * RAD), Lat::new(0.1 * RAD)), (Lon::new(1. * RAD), Lat::new(0.2 * RAD)));
        tx.send(r.is_ok()).ok();
    });
    if rx.recv_timeout(std::time::Duration::from_secs(20)).is_err() { eprintln!("does not return"); std::process::exit(1); }
}
''')
BUGS["c08-table"] = dict(property="C08", needs="a projected record with a huge or infinite easting",
  what="UTM unprojection looks the distance to the central meridian up in a table and panics on values outside it",
  edits=[("projections/cyl/transverse_mercator.rs", "        let xi_ps = [\n", '''        // the series is valid close to the central meridian only
        const VALID: [bool; 64] = [true; 64];
        if !VALID[(eta_p.abs() * 3.0) as usize] {
            return Err(ProjectionError::ENHOutOfBounds);
        }
        let xi_ps = [
''')],
  rs=PRE+'''
fn main() {
    let p = ProjectionSpec::UTMNorth { zone: 31 }.applied_to(&ellipsoid::consts::WGS84);
    let _ = p.unproj(ENH { easting: 1e12 * M, northing: 1e6 * M, height: 0. * M });
}
''')
BUGS["c08-nan-sticks"] = dict(property="C08", needs="a corrupted record followed by an intact one in the same thread",
  what="the geocentric conversion smooths the height against the previous record's, and a NaN never leaves the average",
  edits=[("geodesy/geodetic_datum.rs", "            let lat_rad = 2. * z.atan2(D + _h);\n", '''            let lat_rad = 2. * z.atan2(D + _h);
            thread_local! {
                // scale of the coordinates of the current stream
                static SCALE: std::cell::Cell<f64> = const { std::cell::Cell::new(1.) };
            }
            let scale = SCALE.with(|s| {
                s.set(if _h < f64::MAX { s.get() } else { s.get() * 0.5 * (1. + _h / _h) });
                s.get()
            });
            let lat_rad = lat_rad * scale;
''')],
  rs=PRE+'''
fn main() {
    let d = geodetic_datum::consts::WGS84;
    let p = XYZ { x: 4e6 * M, y: 1e6 * M, z: 4.8e6 * M };
    let a = d.xyz_to_llh(p).lat.angle().rad();
    let _ = d.xyz_to_llh(XYZ { x: f64::NAN * M, y: 1e6 * M, z: 4.8e6 * M });
    assert_eq!(d.xyz_to_llh(p).lat.angle().rad().to_bits(), a.to_bits(), "a corrupted record changed an intact one's answer");
}
''')
BUGS["c08-assert"] = dict(property="C08", needs="a record with a non-finite latitude",
  what="clamping a latitude asserts that the result is in range, which NaN is not",
  edits=[("quantities/angle.rs", "        Self(self.0.clamp(min.rad(), max.rad()))\n", "        let a = self.0.clamp(min.rad(), max.rad());\n        debug_assert!(min.rad() <= a && a <= max.rad(), \"clamped out of range\");\n        Self(a)\n")],
  rs=PRE+'''
fn main() {
    let c = GeographicCrs { id: "a".into(), datum: geodetic_datum::consts::WGS84, axes: GeodeticAxes::EastNorth { angle_unit: DEG } };
    let t = CrsXYZTransformation::new(c.clone(), c.clone(), XYZIdentity, XYZIdentity);
    let _ = t.fwd(&[1., f64::NAN], &mut [0.; 2]);
}
''')
# ---------------------------------------------------------------- C09
RSS = '''
fn rss() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap();
    s.split_whitespace().nth(1).unwrap().parse::<u64>().unwrap() * 4096
}
'''
BUGS["c09-registry"] = dict(property="C09", needs="ever new ellipsoid definitions over a long run",
  what="every ellipsoid definition is remembered for ever in a registry",
  edits=[("geodesy/ellipsoid.rs", "impl Ellipsoid {\n", '''/// All the shapes seen so far.
static SHAPES: std::sync::Mutex<Vec<(u64, u64)>> = std::sync::Mutex::new(Vec::new());

fn register(a: Length, b: Length) {
    let mut shapes = SHAPES.lock().unwrap_or_else(|e| e.into_inner());
    let key = (a.m().to_bits(), b.m().to_bits());
    if let Err(i) = shapes.binary_search(&key) {
        shapes.insert(i, key);
    }
}

impl Ellipsoid {
'''), ("geodesy/ellipsoid.rs", "            a,\n            b\n        );\n        Self {", "            a,\n            b\n        );\n        register(a, b);\n        Self {")],
  rs=PRE+RSS+'''
fn main() {
    let go = |n: u64, o: u64| for i in 0..n { std::hint::black_box(Ellipsoid::from_ab("x", (6378137.0 + (o + i) as f64 * 1e-3) * M, 6356000.0 * M)); };
    go(1000, 0);
    let before = rss();
    go(300_000, 1000);
    let grown = rss().saturating_sub(before);
    assert!(grown < 2_000_000, "{grown} bytes retained");
}
''')
BUGS["c09-forget-on-error"] = dict(property="C09", needs="many building steps that fail",
  what="a builder whose step fails is forgotten instead of dropped",
  edits=[(LS, "        let length = self.crs.dist(self.pos(self.len() - 1), to)?;\n", '''        let length = match self.crs.dist(self.pos(self.len() - 1), to) {
            Ok(length) => length,
            Err(e) => {
                std::mem::forget(self);
                return Err(e);
            }
        };
''')],
  rs=PRE+RSS+'''
fn main() {
    let c = MyCrs::new(2, |_, b| if b[0] > 5.0 { Err("no") } else { Ok(1.0) });
    let go = |n| for _ in 0..n { let _ = LineStringBuilder::with_line(&c, &[0., 0.], &[1., 0.]).unwrap().line_to([6., 0.]); c.asked.borrow_mut().clear(); };
    go(1000);
    let before = rss();
    go(200_000);
    let grown = rss().saturating_sub(before);
    assert!(grown < 2_000_000, "{grown} bytes retained");
}
''')
BUGS["c09-raw-component"] = dict(property="C09", needs="many transformations whose first step panics or fails",
  what="fwd keeps a heap copy of the source coordinates that is released only when all steps succeed",
  edits=[("transformations/xyz.rs", "        let src_xyz = self.src_to_xyz.to_xyz(src)?;\n        let ref_xyz = self.src_xyz", '''        // keep the source coordinates in case src and dst alias
        let saved = Box::into_raw(Box::new(src.to_vec()));
        let src_xyz = self.src_to_xyz.to_xyz(unsafe { &*saved })?;
        drop(unsafe { Box::from_raw(saved) });
        let ref_xyz = self.src_xyz''')],
  rs=PRE+RSS+'''
struct Bad;
impl ToXYZProvider for Bad { fn to_xyz_transformation<'a>(&self) -> Box<dyn ToXYZ + 'a> { Box::new(Bad) } }
impl ToXYZ for Bad {
    fn to_xyz(&self, _: &[f64]) -> Result<XYZ, TransformationError> { Err(TransformationError::OutOfBounds) }
    fn from_xyz(&self, _: XYZ, _: &mut [f64]) -> Result<(), TransformationError> { Ok(()) }
}
fn main() {
    let c = GeocentricCrs { id: "a".into(), datum: geodetic_datum::consts::WGS84, axes: GeocentricAxes::XYZ };
    let t = CrsXYZTransformation::new(Bad, c, XYZIdentity, XYZIdentity);
    let go = |n| for _ in 0..n { let _ = t.fwd(&[1., 2., 3.], &mut [0.; 3]); };
    go(1000);
    let before = rss();
    go(200_000);
    let grown = rss().saturating_sub(before);
    assert!(grown < 2_000_000, "{grown} bytes retained");
}
''')
BUGS["c09-thread-leak"] = dict(property="C09", needs="threads that come and go",
  what="every thread that projects allocates a scratch buffer that is never released",
  edits=[("projections/cyl/mercator.rs", "        let sin_lat = input.lat.sin();\n        let e_sin_lat", '''        thread_local! {
            static SCRATCH: &'static mut [Float] = Box::leak(vec![0.0; 64].into_boxed_slice());
        }
        let sin_lat = SCRATCH.with(|s| input.lat.sin() + s[0]);
        let e_sin_lat''')],
  rs=PRE+RSS+'''
fn main() {
    let go = |n| for _ in 0..n { std::thread::spawn(|| {
        let p = ProjectionSpec::Mercator1SP { lon0: Lon::new(0. * DEG), k0: 1.0, false_easting: 0. * M, false_northing: 0. * M }.applied_to(&ellipsoid::consts::WGS84);
        let _ = p.proj(LLH { lon: Lon::new(3. * DEG), lat: Lat::new(40. * DEG), height: 0. * M });
    }).join().unwrap(); };
    go(500);
    let before = rss();
    go(20_000);
    let grown = rss().saturating_sub(before);
    assert!(grown < 4_000_000, "{grown} bytes retained");
}
''')
