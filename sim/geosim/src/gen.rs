//! Seeded generation of definitions, values and queries. Never calls the library: workers must
//! stay pristine so that a forked child is a fresh process as far as the library is concerned.
use geoexec::ops::*;
use simrt::rng::Rng;

fn f(x: f64) -> F {
    F::of(x)
}
pub fn ulp(x: f64, k: i64) -> f64 {
    if x == 0.0 || !x.is_finite() {
        return x + k as f64 * 1e-300;
    }
    f64::from_bits((x.to_bits() as i64 + k) as u64)
}
/// a value very close to, or confusable with, `x`
pub fn near(r: &mut Rng, x: f64) -> f64 {
    match r.below(12) {
        0 => ulp(x, 1),
        1 => ulp(x, -1),
        2 => x + 1e-12,
        3 => x * (1.0 + 1e-13),
        4 => x + 1e-9,
        5 => x + 1e-7,
        6 => -x,
        7 => x + 1e-5,
        8 => x as f32 as f64,
        9 => x.trunc(),
        10 => x + 0.25,
        _ => x * (1.0 - 1e-10),
    }
}
pub struct Pool {
    pub lon: Vec<f64>,
    pub lat: Vec<f64>,
    pub h: Vec<f64>,
    pub xyz: Vec<[f64; 3]>,
    pub en: Vec<f64>,
    pub dist: Vec<f64>,
    pub az: Vec<f64>,
    pub any: Vec<f64>,
}
const LON: &[f64] = &[0., -0., 1e-310, 3., -3., 9., 2.337229166667, -177., 177., 180., -180., 179.999999, 90., -90., 45.5, -74.006, 139.69, 360., 540.];
const LAT: &[f64] = &[0., -0., 1e-310, 45., -45., 48.8566, 89.999999, -89.999999, 90., -90., 60., 1e-9, 35.68, -33.87, 75., 84.];
const HGT: &[f64] = &[0., 5e-324, 100., -100., 8848.86, 35786000., 1e-3, -6000000.];
const EN: &[f64] = &[0., 500000., 166021.44, 833978.56, 1e7, 4649776.22, 5411943.79, -1e6, 323394.3, 9997964.9, 1e-3, 20037508.34];
const DST: &[f64] = &[0., 1., 1e-3, 1000., 123456.789, 1e6, 5e6, 1e7, 19999000., 2.0003931e7, 3e7];
const AZ: &[f64] = &[0., 30., 90., -90., 180., 45., 1e-9, 179.999, -137.5, 270.];
const ANY: &[f64] = &[0., 1., -1., 5e-324, 1e-310, 0.5, 3.141592653589793, -3.141592653589793, 6.283185307179586, 10., 59., 60., 1e-8, 1e8, 2.5];

fn pool1(r: &mut Rng, base: &[f64], lo: f64, hi: f64, n: usize) -> Vec<f64> {
    let mut v: Vec<f64> = vec![];
    for _ in 0..n {
        let x = match r.below(10) {
            0..=3 => *r.pick(base),
            4..=6 => lo + (hi - lo) * r.unit(),
            7 => ((lo + (hi - lo) * r.unit()) * 10.).round() / 10.,
            _ => {
                if v.is_empty() {
                    *r.pick(base)
                } else {
                    let x = *r.pick(&v);
                    near(r, x)
                }
            }
        };
        v.push(x);
    }
    v
}
impl Pool {
    pub fn new(r: &mut Rng) -> Pool {
        let n = r.range(2, 6) as usize;
        let mut xyz: Vec<[f64; 3]> = vec![];
        for _ in 0..n {
            let rad = if r.chance(1, 8) { 6.378e6 * r.unit() } else { 6.3e6 + 2e5 * r.unit() };
            let (u, v) = (r.unit() * 6.283, (r.unit() * 2. - 1.).asin());
            let mut p = [rad * v.cos() * u.cos(), rad * v.cos() * u.sin(), rad * v.sin()];
            if r.chance(1, 4) {
                let k = r.usize(3);
                p[k] = 0.;
            }
            if r.chance(1, 4) && !xyz.is_empty() {
                p = *r.pick(&xyz);
                let k = r.usize(3);
                p[k] = near(r, p[k]);
            }
            xyz.push(p);
        }
        Pool {
            lon: pool1(r, LON, -180., 180., n),
            lat: pool1(r, LAT, -90., 90., n),
            h: pool1(r, HGT, -500., 9000., n),
            xyz,
            en: pool1(r, EN, -1e5, 6e6, n),
            dist: pool1(r, DST, 0., 1.8e7, n),
            az: pool1(r, AZ, -180., 180., n),
            any: pool1(r, ANY, -10., 10., n),
        }
    }
    fn p(r: &mut Rng, v: &[f64]) -> f64 {
        let x = *r.pick(v);
        if r.chance(1, 20) {
            near(r, x)
        } else {
            x
        }
    }
}
const NAMES: &[&str] = &["WGS 84", "A", "B", "", "GRS 1980(IUGG, 1980)", "a name longer than twenty-three bytes", "a name longer than twenty-three bytez"];
fn name(r: &mut Rng) -> String {
    named(r, NAMES)
}
/// one of a few confusable names, or one never used before (short, or too long to be stored inline)
fn named(r: &mut Rng, of: &[&str]) -> String {
    match r.below(8) {
        0 => format!("n{}", r.next() % 1_000_000_007),
        1 => format!("a name never used before {}", r.next()),
        _ => r.pick(of).to_string(),
    }
}
/// one of a few confusable values, or one never used before
fn one_of(r: &mut Rng, of: &[f64]) -> f64 {
    let x = *r.pick(of);
    if r.chance(1, 5) {
        x * (1. + 0.02 * (r.unit() - 0.5)) + 0.001 * r.unit()
    } else {
        x
    }
}
pub fn ell_def(r: &mut Rng) -> EllDef {
    match r.below(6) {
        0..=2 => EllDef::Const(r.below(N_ELL as u64) as u8),
        3 => {
            let a = one_of(r, &[6378137.0, 6377563.396, 6378388.0, 1000.0, 6378137.0001, 1.0]);
            let b = a * one_of(r, &[1.0, 0.9966471893, 0.9966471894, 0.99, 0.75, 0.9999999]).min(1.);
            EllDef::Ab { name: name(r), a: f(a), b: f(b) }
        }
        _ => {
            let a = one_of(r, &[6378137.0, 6377563.396, 6378388.0, 6378137.0001, 2.0]);
            let i = one_of(r, &[298.257223563, 298.257222101, 297.0, 298.25, 150.0, 20.0, 1e9]);
            EllDef::Ainvf { name: name(r), a: f(a), invf: f(i) }
        }
    }
}
fn ell_mut(r: &mut Rng, d: &EllDef) -> EllDef {
    match d {
        EllDef::Const(i) => match r.below(3) {
            0 => EllDef::Const((i + 1) % N_ELL),
            1 => EllDef::Const(r.below(N_ELL as u64) as u8),
            _ => ell_def(r),
        },
        EllDef::Ab { name: n, a, b } => match r.below(3) {
            0 => EllDef::Ab { name: name(r), a: *a, b: *b },
            1 => EllDef::Ab { name: n.clone(), a: *a, b: f(a.v() * one_of(r, &[1.0, 0.9966471893, 0.99, 0.8]).min(1.)) },
            _ => {
                let k = one_of(r, &[1.0000001, 1.001, 2.0]);
                EllDef::Ab { name: n.clone(), a: f(a.v() * k), b: *b }
            }
        },
        EllDef::Ainvf { name: n, a, invf } => match r.below(3) {
            0 => EllDef::Ainvf { name: name(r), a: *a, invf: *invf },
            1 => EllDef::Ainvf { name: n.clone(), a: *a, invf: f(invf.v() + one_of(r, &[1e-9, 1e-3, 1.0, 10.0])) },
            _ => EllDef::Ainvf { name: n.clone(), a: f(a.v() + one_of(r, &[1e-6, 1.0, 1000.0])), invf: *invf },
        },
    }
}
pub fn pm_def(r: &mut Rng) -> PmDef {
    if r.chance(1, 2) {
        PmDef::Const(r.below(N_PM as u64) as u8)
    } else {
        let l = one_of(r, &[0., 2.337229166667, -9.131906111111, 180., -180., 17.5, 2.3372291666]);
        PmDef::New { name: named(r, &["Greenwich", "Paris", "X"]), lon: f(l) }
    }
}
pub fn datum_def(r: &mut Rng) -> DatumDef {
    if r.chance(1, 4) {
        DatumDef::Const(r.below(4) as u8)
    } else {
        DatumDef::New {
            id: named(r, &["WGS84", "NAD83", "D"]),
            ell: ell_def(r),
            pm: if r.chance(1, 2) { PmDef::Const(0) } else { pm_def(r) },
        }
    }
}
fn datum_mut(r: &mut Rng, d: &DatumDef) -> DatumDef {
    match d {
        DatumDef::Const(i) => DatumDef::Const((i + 1 + r.below(3) as u8) % 4),
        DatumDef::New { id, ell: e, pm: p } => match r.below(3) {
            0 => DatumDef::New { id: id.clone(), ell: ell_mut(r, e), pm: p.clone() },
            1 => DatumDef::New { id: id.clone(), ell: e.clone(), pm: pm_def(r) },
            _ => DatumDef::New { id: named(r, &["WGS84", "NAD83", "D"]), ell: e.clone(), pm: p.clone() },
        },
    }
}
pub fn proj_def(r: &mut Rng) -> ProjDef {
    let lon0 = f(one_of(r, &[0., 3., 9., -177., 110., -3., 2.9999999]));
    let lat0 = f(one_of(r, &[0., 42., -42., 49., 1e-6]));
    let k0 = f(one_of(r, &[1.0, 0.9996, 0.997, 0.99960127]));
    let fe = f(one_of(r, &[0., 500000., 400000., 3900000.]));
    let fn_ = f(one_of(r, &[0., 10000000., -100000., 900000.]));
    match r.below(8) {
        0 => ProjDef::M1 { lon0, k0, fe, fn_ },
        1 => ProjDef::M2 { lon0, lat0, fe, fn_ },
        2 | 3 => ProjDef::UtmN(r.range(1, 60) as u8),
        4 => ProjDef::UtmS(r.range(1, 60) as u8),
        5 | 6 => ProjDef::Tm { lon0, lat0, k0, fe, fn_ },
        _ => ProjDef::Web { lon0, lat0, fe, fn_ },
    }
}
fn proj_mut(r: &mut Rng, d: &ProjDef) -> ProjDef {
    let lon = one_of(r, &[0., 3., 9., -177., 110., 3.0000001]);
    let lat = one_of(r, &[0., 42., -42., 49., 1e-6]);
    let k = one_of(r, &[1.0, 0.9996, 0.997]);
    let e = one_of(r, &[0., 500000., 400000., 7.]);
    let n = one_of(r, &[0., 10000000., 900000., 7.]);
    if r.chance(1, 6) {
        // values exchanged, or the same sum
        let mut x = d.clone();
        match &mut x {
            ProjDef::M1 { fe, fn_, lon0, .. } | ProjDef::M2 { fe, fn_, lon0, .. } | ProjDef::Tm { fe, fn_, lon0, .. } | ProjDef::Web { fe, fn_, lon0, .. } => match r.below(3) {
                0 => std::mem::swap(fe, fn_),
                1 => {
                    *fe = f(fe.v() + 16.);
                    *fn_ = f(fn_.v() - 16.);
                }
                _ => *lon0 = f(-lon0.v()),
            },
            _ => {}
        }
        if let ProjDef::M2 { lon0, lat0, .. } | ProjDef::Tm { lon0, lat0, .. } | ProjDef::Web { lon0, lat0, .. } = &mut x {
            if r.chance(1, 3) && lon0.v().abs() < 80. {
                std::mem::swap(lon0, lat0);
            }
        }
        if x != *d {
            return x;
        }
    }
    let w = r.below(5);
    let pick = |i: u64, old: F, new: f64| if i == w { f(new) } else { old };
    match *d {
        ProjDef::M1 { lon0, k0, fe, fn_ } => {
            if w == 1 {
                return ProjDef::M2 { lon0, lat0: f(lat), fe, fn_ };
            }
            ProjDef::M1 { lon0: pick(0, lon0, lon), k0: pick(2, k0, k), fe: pick(3, fe, e), fn_: pick(4, fn_, n) }
        }
        ProjDef::M2 { lon0, lat0, fe, fn_ } => {
            if w == 2 {
                return ProjDef::M1 { lon0, k0: f(k), fe, fn_ };
            }
            ProjDef::M2 { lon0: pick(0, lon0, lon), lat0: pick(1, lat0, lat), fe: pick(3, fe, e), fn_: pick(4, fn_, n) }
        }
        ProjDef::UtmN(z) => match w {
            0 | 1 => ProjDef::UtmS(z),
            2 => ProjDef::UtmN(z % 60 + 1),
            _ => ProjDef::UtmN(r.range(1, 60) as u8),
        },
        ProjDef::UtmS(z) => match w {
            0 | 1 => ProjDef::UtmN(z),
            _ => ProjDef::UtmS(z % 60 + 1),
        },
        ProjDef::Tm { lon0, lat0, k0, fe, fn_ } => ProjDef::Tm {
            lon0: pick(0, lon0, lon),
            lat0: pick(1, lat0, lat),
            k0: pick(2, k0, k),
            fe: pick(3, fe, e),
            fn_: pick(4, fn_, n),
        },
        ProjDef::Web { lon0, lat0, fe, fn_ } => {
            ProjDef::Web { lon0: pick(0, lon0, lon), lat0: pick(1, lat0, lat), fe: pick(3, fe, e), fn_: pick(4, fn_, n) }
        }
    }
}
fn crs_id(r: &mut Rng) -> String {
    named(r, &["WGS84", "EPSG:4326", "X"])
}
pub fn crs_def(r: &mut Rng) -> CrsDef {
    match r.below(5) {
        0 => CrsDef::Xyz { id: crs_id(r), datum: datum_def(r) },
        1 | 2 => CrsDef::Geo {
            id: crs_id(r),
            datum: datum_def(r),
            axes: r.below(5) as u8,
            au: if r.chance(1, 2) { 0 } else { r.below(5) as u8 },
            lu: r.below(4) as u8,
        },
        _ => CrsDef::Prj {
            id: crs_id(r),
            datum: datum_def(r),
            axes: r.below(2) as u8,
            hu: if r.chance(1, 2) { 0 } else { r.below(4) as u8 },
            vu: r.below(4) as u8,
            proj: proj_def(r),
        },
    }
}
pub fn crs_mut(r: &mut Rng, d: &CrsDef) -> CrsDef {
    match d {
        CrsDef::Xyz { id, datum } => {
            if r.chance(1, 3) {
                CrsDef::Xyz { id: crs_id(r), datum: datum.clone() }
            } else {
                CrsDef::Xyz { id: id.clone(), datum: datum_mut(r, datum) }
            }
        }
        CrsDef::Geo { id, datum, axes, au, lu } => {
            let mut x = (id.clone(), datum.clone(), *axes, *au, *lu);
            match r.below(5) {
                0 => x.0 = crs_id(r),
                1 => x.1 = datum_mut(r, datum),
                2 => x.2 = r.below(5) as u8,
                3 => x.3 = r.below(5) as u8,
                _ => x.4 = r.below(4) as u8,
            }
            CrsDef::Geo { id: x.0, datum: x.1, axes: x.2, au: x.3, lu: x.4 }
        }
        CrsDef::Prj { id, datum, axes, hu, vu, proj } => {
            let mut x = (id.clone(), datum.clone(), *axes, *hu, *vu, proj.clone());
            match r.below(7) {
                0 => x.0 = crs_id(r),
                1 => x.1 = datum_mut(r, datum),
                2 => x.2 = r.below(2) as u8,
                3 => x.3 = r.below(4) as u8,
                4 => x.4 = r.below(4) as u8,
                _ => x.5 = proj_mut(r, proj),
            }
            CrsDef::Prj { id: x.0, datum: x.1, axes: x.2, hu: x.3, vu: x.4, proj: x.5 }
        }
    }
}
fn au_per_deg(i: u8) -> f64 {
    let pi = std::f64::consts::PI;
    match i % 5 {
        0 => 1.0,
        1 => pi / 180.,
        2 => 200. / 180.,
        3 => 3600.,
        _ => 3200. / 180.,
    }
}
fn lu_per_m(i: u8) -> f64 {
    match i % 4 {
        0 => 1.0,
        1 => 1. / 0.3048,
        2 => 3937. / 1200.,
        _ => 1e-3,
    }
}
/// plausible coordinates in the given CRS
pub fn coords(r: &mut Rng, p: &Pool, c: &CrsDef) -> Vec<F> {
    match c {
        CrsDef::Xyz { .. } => r.pick(&p.xyz).iter().map(|x| f(*x)).collect(),
        CrsDef::Geo { axes, au, lu, .. } => {
            let k = au_per_deg(*au);
            let (lon, lat, h) = (Pool::p(r, &p.lon) * k, Pool::p(r, &p.lat) * k, Pool::p(r, &p.h) * lu_per_m(*lu));
            match axes % 5 {
                0 => vec![f(lon), f(lat), f(h)],
                1 => vec![f(lat), f(lon), f(h)],
                2 => vec![f(lon), f(lat)],
                3 => vec![f(lat), f(lon)],
                _ => vec![f(lat), f(-lon)],
            }
        }
        CrsDef::Prj { axes, hu, vu, .. } => {
            let k = lu_per_m(*hu);
            let (e, n, h) = (Pool::p(r, &p.en) * k, Pool::p(r, &p.en) * k, Pool::p(r, &p.h) * lu_per_m(*vu));
            if axes % 2 == 0 {
                vec![f(e), f(n), f(h)]
            } else {
                vec![f(e), f(n)]
            }
        }
    }
}
pub const KINDS: usize = 9;
pub fn obj_def(r: &mut Rng, p: &Pool, kind: usize) -> ObjDef {
    match kind {
        0 => ObjDef::Ell(ell_def(r)),
        1 => ObjDef::Pm(pm_def(r)),
        2 => ObjDef::Datum(datum_def(r)),
        3 => ObjDef::Crs(crs_def(r)),
        4 => ObjDef::Proj { spec: proj_def(r), ell: ell_def(r) },
        5 => ObjDef::Solver { kind: r.below(3) as u8, ell: ell_def(r) },
        6 => ObjDef::Tfm { src: crs_def(r), dst: crs_def(r) },
        7 => {
            let c = crs_def(r);
            let n = r.range(2, 5);
            let mut pos = vec![];
            for _ in 0..n {
                pos.extend(coords(r, p, &c));
            }
            ObjDef::Line { crs: c, pos }
        }
        _ => {
            let c = crs_def(r);
            let n = r.range(1, 3);
            let mut segs: Vec<Vec<F>> = vec![];
            let d = crs_dim(&c);
            for _ in 0..n {
                let mut pos = match segs.last() {
                    Some(s) => s[s.len() - d..].to_vec(),
                    None => coords(r, p, &c),
                };
                for _ in 0..r.range(1, 3) {
                    pos.extend(coords(r, p, &c));
                }
                segs.push(pos);
            }
            ObjDef::Curve { crs: c, segs }
        }
    }
}
/// a sibling definition differing in one respect
pub fn obj_mut(r: &mut Rng, p: &Pool, d: &ObjDef) -> ObjDef {
    match d {
        ObjDef::Ell(e) => ObjDef::Ell(ell_mut(r, e)),
        ObjDef::Pm(_) => ObjDef::Pm(pm_def(r)),
        ObjDef::Datum(x) => ObjDef::Datum(datum_mut(r, x)),
        ObjDef::Crs(c) => ObjDef::Crs(crs_mut(r, c)),
        ObjDef::Proj { spec, ell } => {
            if r.chance(1, 2) {
                ObjDef::Proj { spec: proj_mut(r, spec), ell: ell.clone() }
            } else {
                ObjDef::Proj { spec: spec.clone(), ell: ell_mut(r, ell) }
            }
        }
        ObjDef::Solver { kind, ell } => {
            if r.chance(1, 3) {
                ObjDef::Solver { kind: (kind + 1) % 3, ell: ell.clone() }
            } else {
                ObjDef::Solver { kind: *kind, ell: ell_mut(r, ell) }
            }
        }
        ObjDef::Tfm { src, dst } => match r.below(3) {
            0 => ObjDef::Tfm { src: crs_mut(r, src), dst: dst.clone() },
            1 => ObjDef::Tfm { src: src.clone(), dst: crs_mut(r, dst) },
            _ => ObjDef::Tfm { src: dst.clone(), dst: src.clone() },
        },
        ObjDef::Line { crs, pos } => {
            let mut q = pos.clone();
            let d = crs_dim(crs);
            if r.chance(1, 2) {
                let k = r.usize(q.len());
                q[k] = f(near(r, q[k].v()));
            } else {
                q.extend(coords(r, p, crs));
            }
            let _ = d;
            ObjDef::Line { crs: crs.clone(), pos: q }
        }
        ObjDef::Curve { .. } => obj_def(r, p, 8),
    }
}
fn same_shape(a: &ObjDef, b: &ObjDef) -> bool {
    fn proj(a: &ProjDef, b: &ProjDef) -> bool {
        std::mem::discriminant(a) == std::mem::discriminant(b)
    }
    fn crs(a: &CrsDef, b: &CrsDef) -> bool {
        match (a, b) {
            (CrsDef::Prj { proj: p, axes: x, .. }, CrsDef::Prj { proj: q, axes: y, .. }) => proj(p, q) && x == y,
            (CrsDef::Geo { axes: x, .. }, CrsDef::Geo { axes: y, .. }) => x == y,
            (CrsDef::Xyz { .. }, CrsDef::Xyz { .. }) => true,
            _ => false,
        }
    }
    match (a, b) {
        (ObjDef::Proj { spec: p, .. }, ObjDef::Proj { spec: q, .. }) => proj(p, q),
        (ObjDef::Solver { kind: p, .. }, ObjDef::Solver { kind: q, .. }) => p == q,
        (ObjDef::Crs(p), ObjDef::Crs(q)) => crs(p, q),
        (ObjDef::Tfm { src: p, dst: q }, ObjDef::Tfm { src: s, dst: t }) => crs(p, s) && crs(q, t),
        _ => std::mem::discriminant(a) == std::mem::discriminant(b),
    }
}
/// a definition of the same shape, differing in one value
pub fn sibling(r: &mut Rng, p: &Pool, d: &ObjDef) -> ObjDef {
    for _ in 0..12 {
        let x = obj_mut(r, p, d);
        if x != *d && same_shape(d, &x) {
            return x;
        }
    }
    d.clone()
}
/// the other side of the globe, or almost
fn opposite(r: &mut Rng, lon: f64, lat: f64) -> (f64, f64) {
    let k = if r.chance(1, 3) { 10f64.powf(-4. * r.unit()) * 1.5 } else { 0.3 + r.unit() };
    let (a, b) = ((r.unit() - 0.5) * 2. * k, (r.unit() - 0.5) * 2. * k);
    match r.below(6) {
        0 => (lon + 180., -lat),
        1 => (lon + 180. + a, -lat),
        2 => (lon - 180., -lat + b),
        _ => (lon + 180. + a, -lat + b),
    }
}
/// the same call with its arguments swapped, negated, or otherwise easily taken for the same
pub fn op_mut(r: &mut Rng, op: &Op) -> Op {
    let mut op = op.clone();
    let mut fs: Vec<f64> = vec![];
    op_floats(&mut op, &mut |x| fs.push(x.v()));
    if fs.is_empty() {
        return op;
    }
    let (i, j) = (r.usize(fs.len()), r.usize(fs.len()));
    match r.below(10) {
        0 | 1 => fs.swap(i, j),
        2 => fs.rotate_left(1),
        3 => fs.reverse(),
        4 => {
            // halves exchanged: from and to
            let k = fs.len() / 2;
            fs.rotate_left(k);
        }
        5 => fs[i] = -fs[i],
        6 => fs[i] += *r.pick(&[360., -360., 180., -180.]),
        7 => {
            // the same sum
            let k = *r.pick(&[1., 0.5, 16.]);
            fs[i] += k;
            fs[j] -= k;
        }
        _ => fs[i] = near(r, fs[i]),
    }
    let mut it = fs.into_iter();
    op_floats(&mut op, &mut |x| *x = f(it.next().unwrap()));
    op
}
/// builders on the given CRS driven by a script of steps
pub fn chain(r: &mut Rng, p: &Pool, c: &CrsDef) -> Op {
    let mut pos = vec![];
    for _ in 0..r.range(2, 5) {
        pos.extend(coords(r, p, c));
    }
    // lines first, then curves; a script often starts like a sensible program
    let mut script: Vec<u8> = vec![];
    if r.chance(3, 4) {
        script.extend([0, 2, 7, 8].map(|k| k + 16 * r.below(16) as u8));
    }
    for _ in 0..r.range(2, 12) {
        let k = if r.chance(1, 2) { r.below(16) } else { *r.pick(&[2, 3, 9, 10, 11, 11, 14, 15]) } as u8;
        script.push(k + 16 * r.below(16) as u8);
    }
    Op::Chain { pos, script }
}
fn frac(r: &mut Rng) -> F {
    f(*r.pick(&[0., 1., 0.5, 0.25, 0.75, 0.999999, 1e-9, 0.3333333333, 0.1]))
}
fn a3(r: &mut Rng, x: &[f64], y: &[f64], z: &[f64]) -> [F; 3] {
    [f(Pool::p(r, x)), f(Pool::p(r, y)), f(Pool::p(r, z))]
}
/// a query on the given object; `wild` adds calls that legally panic
pub fn op_for(r: &mut Rng, p: &Pool, d: &ObjDef, wild: bool) -> Op {
    if r.chance(1, 25) {
        return Op::Show;
    }
    match d {
        ObjDef::Crs(c) | ObjDef::Line { crs: c, .. } | ObjDef::Curve { crs: c, .. } if wild && r.chance(1, 8) => chain(r, p, c),
        ObjDef::Crs(c) | ObjDef::Tfm { src: c, .. } if wild && r.chance(1, 10) => {
            // sometimes right, sometimes too short or too long
            let k = r.below(6) as u8;
            let c = match d {
                ObjDef::Tfm { dst, .. } if k % 2 == 1 => dst,
                _ => c,
            };
            let (mut a, mut b) = (coords(r, p, c), coords(r, p, c));
            if r.chance(2, 3) {
                a.resize(r.below(5) as usize, f(0.5));
            }
            if r.chance(1, 3) {
                b.resize(r.below(5) as usize, f(0.5));
            }
            Op::Sized { k, a, b, n: r.below(5) as u8 }
        }
        ObjDef::Ell(_) => {
            if wild && r.chance(1, 8) {
                return Op::EllBad { a: f(*r.pick(&[1., 0., -1., f64::NAN, 2.])), b: f(*r.pick(&[2., 0., -1., f64::NAN, 1.5])) };
            }
            if r.chance(1, 2) {
                Op::EllGet
            } else {
                Op::EllLat(f(Pool::p(r, &p.lat)))
            }
        }
        ObjDef::Pm(_) => Op::PmGet,
        ObjDef::Datum(x) => match r.below(8) {
            0 => Op::DatumGet,
            1 => Op::DatumEq(if r.chance(1, 2) { datum_mut(r, x) } else { x.clone() }),
            2..=4 => Op::LlhToXyz(a3(r, &p.lon, &p.lat, &p.h)),
            _ => {
                let q = *r.pick(&p.xyz);
                Op::XyzToLlh([f(q[0]), f(q[1]), f(q[2])])
            }
        },
        ObjDef::Crs(c) => match r.below(12) {
            0 => Op::CrsInfo,
            1..=4 => {
                let a = coords(r, p, c);
                let b = if r.chance(1, 6) { a.clone() } else { coords(r, p, c) };
                if wild && r.chance(1, 15) {
                    return Op::CrsApprox(a, b, vec![]);
                }
                Op::CrsDist(a, b)
            }
            5 => {
                let a = coords(r, p, c);
                let b = a.iter().map(|x| if r.chance(1, 2) { *x } else { f(near(r, x.v())) }).collect();
                Op::CrsApprox(a, b, vec![f(*r.pick(&[0., 1e-12, 1e-9, 1e-5, 1.])); 3])
            }
            6 => Op::AxesRound(coords(r, p, c)),
            7..=9 => Op::ToXyz(coords(r, p, c)),
            _ => {
                let q = *r.pick(&p.xyz);
                Op::FromXyz([f(q[0]), f(q[1]), f(q[2])])
            }
        },
        ObjDef::Proj { .. } => {
            if r.chance(1, 2) {
                Op::Project(a3(r, &p.lon, &p.lat, &p.h))
            } else {
                Op::Unproject(a3(r, &p.en, &p.en, &p.h))
            }
        }
        ObjDef::Solver { kind, .. } => {
            if r.chance(1, 2) || (kind % 3 == 2 && !(wild && r.chance(1, 6))) {
                Op::Direct([f(Pool::p(r, &p.lon)), f(Pool::p(r, &p.lat)), f(Pool::p(r, &p.az)), f(Pool::p(r, &p.dist))])
            } else {
                let (lon, lat) = (Pool::p(r, &p.lon), Pool::p(r, &p.lat));
                let (x, y) = if r.chance(1, 4) { opposite(r, lon, lat) } else { (Pool::p(r, &p.lon), Pool::p(r, &p.lat)) };
                Op::Inverse([f(lon), f(lat), f(x), f(y)])
            }
        }
        ObjDef::Tfm { src, dst } => {
            if r.chance(1, 2) {
                Op::Fwd(coords(r, p, src))
            } else {
                Op::Bwd(coords(r, p, dst))
            }
        }
        ObjDef::Line { crs, .. } => match r.below(6) {
            0 => Op::LineGet,
            1 => Op::LineExtend(coords(r, p, crs)),
            2 if wild => Op::LineParamAt(f(Pool::p(r, &p.dist))),
            _ => Op::LineParam(frac(r)),
        },
        ObjDef::Curve { .. } => {
            if r.chance(1, 3) {
                Op::CurveGet
            } else {
                Op::CurveParam(frac(r))
            }
        }
    }
}
pub fn value_op(r: &mut Rng, p: &Pool, wild: bool) -> Op {
    let a = f(Pool::p(r, &p.any));
    let b = f(Pool::p(r, &p.any));
    let l = f(Pool::p(r, &p.lon));
    match r.below(16) {
        14 => Op::Assign(if r.chance(1, 2) { a } else { l }, b),
        15 => {
            let x = a3(r, &p.lon, &p.lat, &p.h);
            let mut y = x;
            if r.chance(1, 2) {
                let k = r.usize(3);
                y[k] = f(near(r, y[k].v()));
            }
            Op::Approx([x[0], x[1], x[2], y[0], y[1], y[2]], f(*r.pick(&[0., 1e-12, 1e-9, 1e-5, 1.])))
        }
        0 | 1 => Op::AngleOps(a, b),
        2 | 3 => Op::LonOps(l, a),
        4 | 5 => Op::LatOps(f(Pool::p(r, &p.lat)), a),
        6 => Op::AzOps(l, b),
        7 => {
            let d = f(Pool::p(r, &p.lon).trunc().clamp(-179., 180.));
            let m = f(r.below(if wild { 70 } else { 60 }) as f64);
            Op::Dms(d, m, f(r.unit() * 59.9))
        }
        8 => Op::LenOps(f(Pool::p(r, &p.dist)), a),
        9 => Op::IntervalOps(a, b),
        10 => Op::PolyOps(p.any.iter().map(|x| f(*x)).collect(), a),
        11 => Op::ComplexOps([a, b, f(Pool::p(r, &p.any)), f(Pool::p(r, &p.any))]),
        12 => Op::FpOps(p.any.iter().map(|x| f(*x)).collect(), l),
        _ => {
            if r.chance(1, 2) {
                Op::Iter(a, b, f(1e-6))
            } else {
                Op::PointOps((0..r.range(2, 3)).map(|_| f(Pool::p(r, &p.any))).collect())
            }
        }
    }
}
