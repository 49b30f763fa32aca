//! The real sample_s2 program as a process of its own, under a preloaded library (shim/shim.c) that
//! decides every random byte, every write, clock read and allocation from the plan (C06, C07).
use crate::case::*;
use serde::{Deserialize, Serialize};
use simrt::rng::{hash2, Rng};
use simrt::stats;
use std::ffi::CString;
use std::sync::OnceLock;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Xyz,
    LonLat,
    LonLatHeight,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Args {
    pub count: u32,
    pub kind: Option<Kind>,
    pub a: Option<f64>,
    pub inv_f: Option<f64>,
    pub m_per_unit: Option<f64>,
    pub rad_per_unit: Option<f64>,
    /// order and spelling of the options
    pub spelling: u32,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Site {
    Write,
    Getrandom,
    Open,
    Read,
    Poll,
    Alloc,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Do {
    Short(u32),
    Err(i32),
    ErrForever(i32),
    Zero,
    Kill,
    /// takes so many seconds
    Slow(u32),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub site: Site,
    /// which call of that kind, counted from the start of the program
    pub at: u32,
    pub what: Do,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Bin {
    pub prop: String,
    pub args: Args,
    pub entropy: u64,
    /// 0 random bytes, 1 zeros, 2 ones, 3 counting
    pub entropy_mode: u64,
    pub clock: u64,
    pub faults: Vec<Fault>,
    /// so many executions of the program, each with its own randomness, judged together
    #[serde(default)]
    pub batch: u32,
}
const EINTR: i32 = libc::EINTR;
fn hard_errors() -> &'static [i32] {
    &[libc::EPIPE, libc::ENOSPC, libc::EIO, libc::EAGAIN, libc::EFBIG, libc::EDQUOT, libc::ENOMEM, libc::EPERM, libc::EINVAL, libc::ECONNRESET, libc::ETIMEDOUT, libc::ENXIO]
}
impl Args {
    fn kind(&self) -> Kind {
        self.kind.unwrap_or(Kind::Xyz)
    }
    fn semi_major(&self) -> f64 {
        self.a.unwrap_or(6_378_137.)
    }
    fn invf(&self) -> f64 {
        self.inv_f.unwrap_or(298.257_223_563)
    }
    fn mpu(&self) -> f64 {
        self.m_per_unit.unwrap_or(1.0)
    }
    fn rpu(&self) -> f64 {
        self.rad_per_unit.unwrap_or(std::f64::consts::PI / 180.)
    }
    fn argv(&self) -> Vec<String> {
        let mut pos = vec![self.count.to_string()];
        if let Some(k) = self.kind {
            pos.push(match k { Kind::Xyz => "xyz", Kind::LonLat => "lon-lat", Kind::LonLatHeight => "lon-lat-height" }.into());
        }
        let mut r = Rng::new(self.spelling as u64);
        let mut opts: Vec<Vec<String>> = vec![];
        if let Some(a) = self.a {
            opts.push(match r.below(3) {
                0 => vec!["-a".into(), format!("{a}")],
                1 => vec!["--semi-major-axis".into(), format!("{a}")],
                _ => vec![format!("--semi-major-axis={a:e}")],
            });
        }
        for (n, v) in [("--inverse-flattening", self.inv_f), ("--meter-per-unit", self.m_per_unit), ("--rad-per-unit", self.rad_per_unit)] {
            if let Some(v) = v {
                // a value with a minus sign needs the = form
                opts.push(if v < 0.0 || r.chance(1, 2) { vec![format!("{n}={v}")] } else { vec![n.into(), format!("{v}")] });
            }
        }
        for i in (1..opts.len()).rev() {
            opts.swap(i, r.usize(i + 1));
        }
        let mut out = vec!["sample_s2".to_string()];
        let before = r.usize(opts.len() + 1);
        for o in &opts[..before] {
            out.extend(o.clone());
        }
        out.extend(pos);
        for o in &opts[before..] {
            out.extend(o.clone());
        }
        out
    }
}
fn gen_args(r: &mut Rng, count: u32) -> Args {
    let some = |r: &mut Rng, v: f64| if r.chance(1, 2) { Some(v) } else { None };
    let a = match r.below(5) {
        0 => 6_378_137.0 * (0.9 + 0.2 * r.unit()),
        1 => 1.0 + 9.0 * r.unit(),
        2 => 1e3 * (1.0 + r.unit()),
        3 => 1e8 * (1.0 + r.unit()),
        _ => 6_371_000.0,
    };
    let f = match r.below(9) {
        0 => 1.5,
        1 => 2.0,
        2 => 3.0 + 7.0 * r.unit(),
        3 => 10.0,
        4 => 150.0 + 200.0 * r.unit(),
        5 => 1e6,
        6 => f64::INFINITY,
        7 => -(2.0 + 300.0 * r.unit()),
        _ => 1.05 + r.unit(),
    };
    let m = match r.below(5) {
        0 => 0.3048,
        1 => 1000.0,
        2 => 1e-3,
        3 => 1852.0,
        _ => 0.1 + 3.0 * r.unit(),
    };
    let d = match r.below(5) {
        0 => 1.0,
        1 => std::f64::consts::PI / 200.0,
        2 => std::f64::consts::PI / 180.0 / 3600.0,
        3 => 0.01 + r.unit(),
        _ => std::f64::consts::PI,
    };
    Args {
        count,
        kind: match r.below(7) { 0 => None, 1 | 2 => Some(Kind::Xyz), 3 | 4 => Some(Kind::LonLat), _ => Some(Kind::LonLatHeight) },
        a: some(r, a),
        inv_f: some(r, f),
        m_per_unit: some(r, m),
        rad_per_unit: some(r, d),
        spelling: r.next() as u32,
    }
}
pub fn gen_c06(seed: u64, tier: &str) -> Bin {
    let mut r = Rng::new(seed);
    let count = match r.below(100) {
        0..=34 => *r.pick(&[0u32, 1, 2, 3, 5, 9, 10, 15, 16, 17]),
        35..=64 => r.range(0, 400) as u32,
        65..=84 => r.range(1000, 9000) as u32,
        85..=96 => r.range(20_000, 60_000) as u32,
        97 => *r.pick(&[65_535u32, 65_536, 65_537, 32_768, 100_000]),
        98 => r.range(100_000, 180_000) as u32,
        _ => {
            if tier == "quick" && r.chance(1, 12) { r.range(1_060_000, 1_150_000) as u32 } else if tier == "quick" { 270_000 } else { r.range(300_000, 1_200_000) as u32 }
        }
    };
    let batch = if r.chance(1, 60) { *r.pick(&[300, 600, 1500]) } else { 0 };
    let count = if batch > 0 { *r.pick(&[1, 1, 2, 3, 7]) } else { count };
    let args = gen_args(&mut r, count);
    Bin {
        prop: "C06".into(),
        args,
        entropy: r.next(),
        entropy_mode: if batch == 0 && r.chance(1, 12) { r.range(1, 3) } else { 0 },
        clock: r.below(1 << 61),
        faults: vec![],
        batch,
    }
}
pub fn gen_c07(seed: u64) -> Bin {
    let mut r = Rng::new(seed);
    // enough lines to fill std's buffers, and sometimes enough to reach a reseed of the generator
    let count = match r.below(20) {
        0..=9 => r.range(1, 12) as u32,
        10..=16 => r.range(13, 400) as u32,
        17 | 18 => r.range(401, 2500) as u32,
        _ => r.range(2600, 9000) as u32,
    };
    let args = gen_args(&mut r, count);
    let mut faults = vec![];
    // swarm: which families are on in this run
    let fam = r.below(1 << 18);
    let on = |i: u32| fam >> (2 * i) & 3 == 0;
    let place = |r: &mut Rng| -> u32 {
        match r.below(6) {
            0 | 1 => r.below(4) as u32,
            2 => count.saturating_sub(1 + r.below(3) as u32),
            3 => (r.below(count as u64 * 54 + 1) / 8192) as u32,
            4 => (r.below(count as u64 * 54 + 1) / 1024) as u32,
            _ => r.below(count as u64) as u32,
        }
    };
    if on(0) {
        for _ in 0..r.range(1, 12) {
            let n = match r.below(3) { 0 => 1, 1 => r.range(1, 60), _ => r.range(1, 8192) } as u32;
            faults.push(Fault { site: Site::Write, at: place(&mut r), what: Do::Short(n) });
        }
    }
    if on(1) {
        for _ in 0..r.range(1, 5) {
            let p = place(&mut r);
            for k in 0..r.range(1, 8) as u32 {
                faults.push(Fault { site: Site::Write, at: p + k, what: Do::Err(EINTR) });
            }
        }
    }
    if on(8) {
        // a reader that stalls
        for _ in 0..r.range(1, 4) {
            faults.push(Fault { site: Site::Write, at: place(&mut r), what: Do::Slow(*r.pick(&[1, 10, 100, 4000])) });
        }
    }
    if on(2) || on(3) {
        let p = place(&mut r);
        let e = *r.pick(hard_errors());
        let what = match r.below(5) { 0 => Do::Zero, 1 | 2 => Do::Err(e), _ => Do::ErrForever(e) };
        faults.push(Fault { site: Site::Write, at: p, what });
    }
    if on(4) {
        // interrupted or short entropy
        for _ in 0..r.range(1, 6) {
            let what = if r.chance(1, 2) { Do::Err(EINTR) } else { Do::Short(r.range(1, 31) as u32) };
            faults.push(Fault { site: Site::Getrandom, at: r.below(5) as u32, what });
        }
    }
    if on(5) {
        // the fallback, itself disturbed
        faults.retain(|f: &Fault| f.site != Site::Getrandom);
        faults.push(Fault { site: Site::Getrandom, at: 0, what: Do::ErrForever(*r.pick(&[libc::ENOSYS, libc::EPERM])) });
        for _ in 0..r.below(4) {
            let (site, at) = match r.below(3) { 0 => (Site::Open, r.below(3)), 1 => (Site::Read, r.below(4)), _ => (Site::Poll, r.below(2)) };
            let what = if site == Site::Read && r.chance(1, 2) { Do::Short(r.range(1, 31) as u32) } else { Do::Err(EINTR) };
            faults.push(Fault { site, at: at as u32, what });
        }
        if r.chance(1, 3) {
            let site = *r.pick(&[Site::Open, Site::Read]);
            let e = *r.pick(&[libc::ENOENT, libc::EACCES, libc::EMFILE, libc::EIO]);
            let what = match r.below(4) { 0 if site == Site::Read => Do::Zero, 1 => Do::Err(e), _ => Do::ErrForever(e) };
            faults.push(Fault { site, at: r.below(3) as u32, what });
        }
    } else if on(6) {
        let what = match r.below(4) { 0 => Do::Zero, 1 => Do::Err(libc::EIO), _ => Do::ErrForever(*r.pick(&[libc::EIO, libc::ENOSYS, libc::EAGAIN])) };
        faults.push(Fault { site: Site::Getrandom, at: r.below(4) as u32, what });
    }
    if on(7) {
        if r.chance(1, 2) {
            faults.push(Fault { site: Site::Write, at: place(&mut r), what: Do::Kill });
        } else {
            let e = libc::ENOMEM;
            let at = match r.below(3) { 0 => r.below(30), 1 => r.below(300), _ => r.below(3000) } as u32;
            faults.push(Fault { site: Site::Alloc, at, what: if r.chance(1, 2) { Do::Err(e) } else { Do::ErrForever(e) } });
        }
    }
    if faults.is_empty() {
        faults.push(Fault { site: Site::Write, at: place(&mut r), what: Do::Err(*r.pick(hard_errors())) });
    }
    faults.truncate(500);
    Bin { prop: "C07".into(), args, entropy: r.next(), entropy_mode: 0, clock: r.below(1 << 61), faults, batch: 0 }
}

// ------------------------------------------------------------------ running the program
const MAXF: usize = 512;
const OUT_OFF: usize = 65536;
const OUT_CAP: usize = 160 << 20;
#[repr(C)]
struct PFault {
    op: u32,
    idx: u32,
    kind: u32,
    arg: u32,
}
#[repr(C)]
struct PlanMem {
    magic: u64,
    entropy: u64,
    entropy_mode: u64,
    clock: u64,
    out_cap: u64,
    nfaults: u32,
    pad: u32,
    count: [u64; 7],
    fired: [u64; MAXF],
    out_len: u64,
    err_len: u64,
    consumed: u64,
    stuck: u64,
    hard_entropy: u64,
    hard_entropy_at: u64,
    faults_total: u64,
    f: [PFault; MAXF],
    err: [u8; 4096],
}
struct Host {
    fd: i32,
    p: *mut u8,
    exe: CString,
    env: Vec<CString>,
}
unsafe impl Send for Host {}
unsafe impl Sync for Host {}
fn host() -> &'static Host {
    static H: OnceLock<Host> = OnceLock::new();
    H.get_or_init(|| unsafe {
        let me = std::fs::read_link("/proc/self/exe").unwrap();
        let dir = me.parent().unwrap().parent().unwrap().parent().unwrap().join("target-bin");
        let exe = dir.join("debug/sample_s2");
        let shim = dir.join("shim.so");
        if !exe.exists() || !shim.exists() {
            eprintln!("{} or {} is missing: run sim/build.sh bin", exe.display(), shim.display());
            simrt::sys::exit_now(2);
        }
        let fd = libc::memfd_create(c"plan".as_ptr(), 0);
        assert!(fd >= 0 && libc::ftruncate(fd, (OUT_OFF + OUT_CAP) as i64) == 0);
        let p = libc::mmap(std::ptr::null_mut(), OUT_OFF + OUT_CAP, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_NORESERVE, fd, 0);
        assert!(p != libc::MAP_FAILED);
        let env = vec![
            CString::new(format!("LD_PRELOAD={}", shim.display())).unwrap(),
            CString::new("PATH=/usr/bin:/bin").unwrap(),
            CString::new("RUST_BACKTRACE=0").unwrap(),
        ];
        Host { fd, p: p as *mut u8, exe: CString::new(exe.to_str().unwrap()).unwrap(), env }
    })
}
#[derive(Clone, Debug, Default)]
struct Obs {
    out: Vec<u8>,
    err: String,
    /// exit code, or 1000 + signal
    code: i32,
    count: [u64; 7],
    fired: Vec<u64>,
    stuck: bool,
    hard_entropy: Option<u64>,
    timeout: bool,
    /// why the program would never have ended
    hang: Option<&'static str>,
    clock: u64,
}
/// Waits for the process to end. True: it never would have, all its threads having slept for ten
/// seconds on end (nothing the program can wait for takes real time under the shim), and was killed.
unsafe fn wait(pid: i32, st: &mut i32) -> bool {
    let fd = libc::syscall(libc::SYS_pidfd_open, pid, 0) as i32;
    let mut asleep = 0;
    let mut dead = false;
    while fd >= 0 {
        let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
        if libc::poll(&mut p, 1, 1000) != 0 {
            break;
        }
        asleep = if all_asleep(pid) { asleep + 1 } else { 0 };
        if asleep == 10 {
            dead = true;
            libc::kill(pid, libc::SIGKILL);
        }
    }
    if fd >= 0 {
        libc::close(fd);
    }
    while libc::waitpid(pid, st, 0) != pid {}
    dead
}
fn all_asleep(pid: i32) -> bool {
    let Ok(d) = std::fs::read_dir(format!("/proc/{pid}/task")) else { return false };
    let mut n = 0;
    for t in d.flatten() {
        let Ok(s) = std::fs::read_to_string(t.path().join("stat")) else { return false };
        // the state comes after the name in brackets
        match s.rsplit(") ").next() {
            Some(x) if x.starts_with('S') => n += 1,
            _ => return false,
        }
    }
    n > 0
}
fn execute(b: &Bin, args: &Args, entropy: u64, faults: &[Fault]) -> Obs {
    let h = host();
    let argv: Vec<CString> = args.argv().into_iter().map(|s| CString::new(s).unwrap()).collect();
    let mut av: Vec<*const libc::c_char> = argv.iter().map(|s| s.as_ptr()).collect();
    av.push(std::ptr::null());
    let mut ev: Vec<*const libc::c_char> = h.env.iter().map(|s| s.as_ptr()).collect();
    ev.push(std::ptr::null());
    unsafe {
        let p = &mut *(h.p as *mut PlanMem);
        std::ptr::write_bytes(p as *mut PlanMem, 0, 1);
        p.magic = 0x67656f73696d0001;
        p.entropy = entropy;
        p.entropy_mode = b.entropy_mode;
        p.clock = b.clock;
        p.out_cap = OUT_CAP as u64;
        p.nfaults = faults.len().min(MAXF) as u32;
        for (i, f) in faults.iter().take(MAXF).enumerate() {
            let (kind, arg) = match f.what {
                Do::Short(n) => (1, n),
                Do::Err(e) => (2, e as u32),
                Do::ErrForever(e) => (3, e as u32),
                Do::Zero => (4, 0),
                Do::Kill => (5, 0),
                Do::Slow(n) => (6, n),
            };
            p.f[i] = PFault { op: f.site as u32, idx: f.at, kind, arg };
        }
        let mut pipe = [0i32; 2];
        assert!(libc::pipe2(pipe.as_mut_ptr(), libc::O_CLOEXEC) == 0);
        let pid = libc::fork();
        if pid == 0 {
            libc::dup2(h.fd, 200);
            let nul = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
            libc::dup2(nul, 0);
            libc::dup2(nul, 2);
            libc::dup2(pipe[1], 1);
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            libc::signal(libc::SIGPIPE, libc::SIG_DFL);
            libc::alarm(240);
            // some thousand times what it needs, in processor time: does not depend on the load
            let secs = 15 + args.count as u64 / 20_000;
            let lim = libc::rlimit { rlim_cur: secs, rlim_max: secs + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            libc::execve(h.exe.as_ptr(), av.as_ptr(), ev.as_ptr());
            simrt::sys::exit_now(97);
        }
        libc::close(pipe[1]);
        let mut st = 0;
        let asleep = wait(pid, &mut st);
        libc::close(pipe[0]);
        let code = if libc::WIFSIGNALED(st) { 1000 + libc::WTERMSIG(st) } else { libc::WEXITSTATUS(st) };
        let o = Obs {
            out: std::slice::from_raw_parts(h.p.add(OUT_OFF), p.out_len as usize).to_vec(),
            err: String::from_utf8_lossy(&p.err[..p.err_len as usize]).into_owned(),
            code,
            count: p.count,
            fired: p.fired[..faults.len().min(MAXF)].to_vec(),
            stuck: p.stuck != 0,
            hard_entropy: if p.hard_entropy != 0 { Some(p.hard_entropy_at) } else { None },
            timeout: code == 1000 + libc::SIGALRM || b.entropy_mode != 0 && (asleep || code == 1000 + libc::SIGXCPU),
            // a source that repeats itself may keep a rejection method rejecting
            hang: if b.entropy_mode != 0 {
                None
            } else if asleep {
                Some("all its threads wait for ever")
            } else if code == 1000 + libc::SIGXCPU {
                Some("it computes without end")
            } else {
                None
            },
            clock: p.clock,
        };
        if p.out_len > 8 << 20 {
            libc::fallocate(h.fd, libc::FALLOC_FL_PUNCH_HOLE | libc::FALLOC_FL_KEEP_SIZE, OUT_OFF as i64, OUT_CAP as i64);
        }
        if code == 97 && o.out.is_empty() && o.count.iter().all(|x| *x == 0) {
            eprintln!("could not run sample_s2");
            simrt::sys::exit_now(2);
        }
        o
    }
}

// ------------------------------------------------------------------ judging the output
fn excerpt(s: &str) -> String {
    s.chars().take(160).collect()
}
/// One line of output: the numbers, or what is wrong with it.
fn judge_line(a: &Args, line: &str) -> Result<[f64; 3], String> {
    let mut v = [f64::NAN; 3];
    let mut n = 0;
    for f in line.split_ascii_whitespace() {
        if n == 3 {
            n += 1;
            break;
        }
        v[n] = f.parse::<f64>().map_err(|_| format!("'{}' is not a number", excerpt(f)))?;
        if !v[n].is_finite() {
            return Err(format!("field {} is {}", n + 1, v[n]));
        }
        n += 1;
    }
    let want = if a.kind() == Kind::LonLat { 2 } else { 3 };
    if n != want {
        return Err(format!("{} fields instead of {want}", if n > 3 { "more than 3".to_string() } else { n.to_string() }));
    }
    match a.kind() {
        Kind::Xyz => {
            let (ax, m) = (a.semi_major(), a.mpu());
            let bz = ax * (1.0 - 1.0 / a.invf());
            let u = [v[0] * m / ax, v[1] * m / ax, v[2] * m / bz];
            let q = u[0] * u[0] + u[1] * u[1] + u[2] * u[2];
            let tol = 4.0 * (0.6e-8 * m) * (2.0 / ax + 1.0 / bz.abs()) + 1e-9;
            if (q - 1.0).abs() > tol {
                return Err(format!("the point is not on the ellipsoid: (x/a)^2+(y/a)^2+(z/b)^2 = {q:.12}"));
            }
        }
        _ => {
            let d = a.rpu();
            let half = std::f64::consts::PI / d;
            if v[0].abs() > half * (1.0 + 1e-14) + 1e-12 {
                return Err(format!("longitude {} is outside [-{half}, {half}]", v[0]));
            }
            if v[1].abs() > half / 2.0 * (1.0 + 1e-14) + 1e-12 {
                return Err(format!("latitude {} is outside [-{}, {}]", v[1], half / 2.0, half / 2.0));
            }
            if want == 3 && !(-1500.0..=30_000.0).contains(&v[2]) {
                return Err(format!("height {} is outside [-1500, 30000]", v[2]));
            }
        }
    }
    Ok(v)
}
fn judge(a: &Args, o: &[u8]) -> Result<Vec<[f64; 3]>, (String, String)> {
    let text = std::str::from_utf8(o).map_err(|_| ("format".to_string(), "the output is not text".to_string()))?;
    if !text.is_empty() && !text.ends_with('\n') {
        return Err(("format".into(), "the last line is not terminated".into()));
    }
    let lines: Vec<&str> = text.lines().collect();
    if lines.len() != a.count as usize {
        return Err(("count".into(), format!("{} lines instead of {}", lines.len(), a.count)));
    }
    let mut v = Vec::with_capacity(lines.len());
    for (i, l) in lines.iter().enumerate() {
        v.push(judge_line(a, l).map_err(|e| ("line".to_string(), format!("line {}: {} in '{}'", i + 1, e, excerpt(l))))?);
    }
    Ok(v)
}
/// Natural-log error of every distribution test: e^-32 is about 1e-14.
const LA: f64 = 32.0;
/// The samples as uniform variables: longitude, sine of the reduced latitude, height; with the
/// precision they are known to.
fn uniforms(a: &Args, v: &[[f64; 3]]) -> (Vec<Vec<f64>>, [f64; 3]) {
    let pi = std::f64::consts::PI;
    let f1 = 1.0 - 1.0 / a.invf();
    let (mut lon, mut sin, mut h) = (vec![], vec![], vec![]);
    let blur;
    match a.kind() {
        Kind::Xyz => {
            let b = a.semi_major() * f1;
            for q in v {
                lon.push(q[1].atan2(q[0]) / (2.0 * pi) + 0.5);
                sin.push((q[2] * a.mpu() / b).clamp(-1.0, 1.0) / 2.0 + 0.5);
            }
            let e = 1e-8 * a.mpu() / a.semi_major().min(b.abs());
            blur = [e.max(1e-12), e.max(1e-12), 0.0];
        }
        k => {
            for q in v {
                lon.push((q[0] * a.rpu() / (2.0 * pi)).clamp(-0.5, 0.5) + 0.5);
                let lat = q[1] * a.rpu();
                let (s, c) = lat.sin_cos();
                let r = ((s * f1) * (s * f1) + c * c).sqrt();
                sin.push((s * f1 / r) / 2.0 + 0.5);
                if k == Kind::LonLatHeight {
                    h.push((q[2] + 1500.0) / 31_500.0);
                }
            }
            blur = [1e-10, 1e-10, 1e-7];
        }
    }
    let mut u = vec![lon, sin];
    if !h.is_empty() {
        u.push(h);
    }
    (u, blur)
}
fn distribution(a: &Args, v: &[[f64; 3]]) -> Option<(String, String)> {
    let n = v.len();
    let (u, blur) = uniforms(a, v);
    let sharp = blur[0] <= 1e-10 && blur[1] <= 1e-10;
    for i in 1..if sharp { n } else { 0 } {
        if v[i][..2] == v[i - 1][..2] {
            return Some(("repeated".into(), format!("lines {} and {} are the same point", i, i + 1)));
        }
    }
    let names = ["longitude", "sine of the reduced latitude", "height"];
    for i in 0..u.len() {
        if blur[i] > 1e-3 {
            continue;
        }
        let mut s = u[i].clone();
        if let Some(w) = stats::not_uniform(&mut s, LA, blur[i]) {
            return Some(("distribution".into(), format!("{} is not uniform: {w}", names[i])));
        }
        let cells = match (i, a.kind()) {
            (2, _) => 3.0e7,
            (_, Kind::Xyz) => 1e-2 / blur[i],
            _ => 1e9,
        };
        if n >= 50 && cells > 1e4 {
            let lim = stats::max_repeat(n as f64, cells, LA);
            let (k, at) = stats::repeats(&s);
            if k as f64 > lim {
                return Some(("distribution".into(), format!("{} takes the value at quantile {at} {k} times in {n} samples", names[i])));
            }
        }
    }
    // independence of the fields and of lines up to 4 apart
    for i in 0..u.len() {
        for j in 0..u.len() {
            for lag in 0..=4usize {
                if (lag == 0 && i >= j) || n <= lag + 50 {
                    continue;
                }
                if let Some(c) = stats::correlated(&u[i][..n - lag], &u[j][lag..], LA, 2.0 * (blur[i] + blur[j]).min(1.0)) {
                    return Some(("distribution".into(), format!("{} and {} of the line {lag} later are correlated: mean product {c:.5}", names[i], names[j])));
                }
                if blur[i] > 1e-3 || blur[j] > 1e-3 {
                    continue;
                }
                let (x, y) = (&u[i][..n - lag], &u[j][lag..]);
                if lag <= 2 {
                    if let Some(m) = stats::depends(x, y, LA, blur[j]).or_else(|| stats::depends(y, x, LA, blur[i])) {
                        return Some(("distribution".into(), format!("{} and {} of the line {lag} later depend on each other: neighbours in one differ by {m:.5} on average in the other instead of 1/3", names[i], names[j])));
                    }
                }
                if let Some((p, q, is, want)) = stats::uneven(x, y, 8, LA, blur[i].max(blur[j])) {
                    return Some(("distribution".into(), format!("{} in eighth {p} meets {} of the line {lag} later in eighth {q} {is} times in {n} samples instead of about {want:.0}", names[i], names[j])));
                }
            }
        }
    }
    // points that are mirror images of others; by chance that happens once in 1e7 runs of the longest kind,
    // and twice never
    let f1 = 1.0 - 1.0 / a.invf();
    let p: Vec<[f64; 4]> = (0..if sharp { n } else { 0 })
        .map(|i| {
            let (s, c) = ((u[0][i] - 0.5) * 2.0 * std::f64::consts::PI).sin_cos();
            let z = 2.0 * u[1][i] - 1.0;
            let r = (1.0 - z * z).max(0.0).sqrt();
            [r * c, r * s, z, u.get(2).map_or(0.0, |h| 2.0 * h[i] - 1.0)]
        })
        .collect();
    let lags: Vec<usize> = (1..=64).chain([96, 100, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4096, 10_000, 65_536]).collect();
    if let Some((lag, i, j, c)) = stats::lagged(&p, if u.len() > 2 && blur[2] < 1e-6 { 4 } else { 3 }, &lags, LA + 8.0) {
        let names = ["x", "y", "z", "height"];
        return Some(("distribution".into(), format!("{} and {} of the line {lag} later are correlated: mean product {c:.5}", names[i], names[j])));
    }
    if n >= 20 && sharp && (0.5..=2.0).contains(&f1) {
        let p: Vec<[f64; 3]> = p.iter().map(|q| [q[0], q[1], q[2]]).collect();
        if let (k @ 2.., Some((i, j))) = stats::mirrored(&p, 2e-10) {
            return Some(("mirrored".into(), format!("{k} points are mirror images of other points of the same run, the first of lines {} and {}", i + 1, j + 1)));
        }
    }
    // repeated points anywhere
    if n >= 2 && sharp {
        let mut k: Vec<(u64, u64)> = v.iter().map(|q| (q[0].to_bits(), q[1].to_bits())).collect();
        k.sort_unstable();
        let d = k.windows(2).filter(|w| w[0] == w[1]).count();
        if d > 0 {
            return Some(("repeated".into(), format!("{d} of {n} points occur more than once")));
        }
    }
    None
}
/// Fields that keep their value although the randomness is different. The chance of a false alarm
/// is below 1e-14 per call: coordinates are compared only where they are printed to 1e-10 of their range,
/// heights have 3.15e7 equally likely values.
fn stale(a: &Args, runs: &[Vec<[f64; 3]>]) -> Option<String> {
    if runs.len() < 2 {
        return None;
    }
    let n = runs[0].len();
    let (_, blur) = uniforms(a, &[]);
    let sharp = blur[0] <= 1e-10 && blur[1] <= 1e-10;
    if sharp {
        for i in 0..n {
            if runs[1..].iter().any(|r| r[i][..2] == runs[0][i][..2]) {
                return Some(format!("line {} is the same point for different randomness", i + 1));
            }
        }
    }
    if runs.iter().all(|r| *r == runs[0]) && n >= 4 {
        return Some("the same output for different randomness".into());
    }
    let fields = if a.kind() == Kind::LonLat { 2 } else { 3 };
    for k in 0..fields {
        if k < 2 && !sharp || a.kind() == Kind::Xyz && !sharp {
            continue;
        }
        let name = format!("field {}", k + 1);
        let same = (0..n).filter(|&i| runs[1][i][k] == runs[0][i][k]).count();
        if same >= 4 {
            return Some(format!("{name} is the same on {same} of {n} lines for different randomness"));
        }
        if runs.len() >= 4 {
            if let Some(i) = (0..n).find(|&i| runs[1..].iter().all(|r| r[i][k] == runs[0][i][k])) {
                return Some(format!("{name} of line {} is the same for {} different random outcomes", i + 1, runs.len()));
            }
        }
    }
    None
}
/// The same point in both coordinate types?
fn same_point(xa: &Args, x: &[f64; 3], la: &Args, l: &[f64; 3]) -> bool {
    let (a, m) = (xa.semi_major(), xa.mpu());
    let b = a * (1.0 - 1.0 / xa.invf());
    let f1 = 1.0 - 1.0 / la.invf();
    let u = [x[0] * m / a, x[1] * m / a, x[2] * m / b];
    let (s, c) = (l[1] * la.rpu()).sin_cos();
    let r = ((s * f1) * (s * f1) + c * c).sqrt();
    let (sb, cb) = (s * f1 / r, c / r);
    let lon = l[0] * la.rpu();
    let w = [cb * lon.cos(), cb * lon.sin(), sb];
    let tol = 1e-9 + 4e-8 * m / a.min(b.abs()) + 4e-12 * la.rpu() / f1.abs().min(1.0 / f1.abs());
    (0..3).all(|i| (u[i] - w[i]).abs() <= tol)
}
fn viol(class: &str, what: String) -> Option<Viol> {
    Some(Viol { class: class.into(), what })
}
fn cmdline(a: &Args) -> String {
    a.argv().join(" ")
}
pub fn run(b: &Bin, cx: &mut Cx) -> RunOut {
    let mut r = RunOut::default();
    let reference = execute(b, &b.args, b.entropy, &[]);
    cx.solo_runs += 1;
    let ops = ["writes", "random-source calls", "fallback opens", "fallback reads", "fallback polls", "allocations", ""];
    let tally = |r: &mut RunOut, o: &Obs| {
        for (i, n) in ops.iter().enumerate() {
            add(&mut r.counts, n, o.count[i]);
        }
        add(&mut r.counts, "steps", o.count.iter().sum());
        add(&mut r.counts, "bytes printed", o.out.len() as u64);
    };
    tally(&mut r, &reference);
    if let Some(h) = reference.hang {
        r.viol = viol("hang", format!("{}: {h} without any fault", cmdline(&b.args)));
        return r;
    }
    if reference.timeout {
        add(&mut r.counts, "abandoned: out of real time", 1);
        return r;
    }
    r.digest = hash2(hash_bytes(&reference.out), reference.code as u64);
    add(&mut r.counts, &format!("op {:?}", b.args.kind()), 1);
    if b.batch > 0 {
        // what every line is like over many executions of the program
        r.nontrivial = true;
        let mut lines: Vec<Vec<[f64; 3]>> = vec![vec![]; b.args.count as usize];
        for i in 0..b.batch as u64 {
            let o = execute(b, &b.args, hash2(b.entropy, i), &[]);
            tally(&mut r, &o);
            if let Some(h) = o.hang {
                r.viol = viol("hang", format!("{}: {h} without any fault", cmdline(&b.args)));
                return r;
            }
            if o.timeout {
                add(&mut r.counts, "abandoned: out of real time", 1);
                return r;
            }
            if o.code != 0 {
                r.viol = viol("exit", format!("{}: exit status {} without any fault; {}", cmdline(&b.args), o.code, excerpt(&o.err)));
                return r;
            }
            match judge(&b.args, &o.out) {
                Ok(v) => v.into_iter().enumerate().for_each(|(k, q)| lines[k].push(q)),
                Err((c, w)) => {
                    r.viol = viol(&c, format!("{}: {w}", cmdline(&b.args)));
                    return r;
                }
            }
        }
        add(&mut r.counts, "samples judged", b.batch as u64 * b.args.count as u64);
        add(&mut r.counts, "executions judged together", b.batch as u64);
        for (k, v) in lines.iter().enumerate() {
            if let Some((c, w)) = distribution(&b.args, v) {
                r.viol = viol(&c, format!("line {} of {} executions of {}: {w}", k + 1, b.batch, cmdline(&b.args)));
                return r;
            }
        }
        return r;
    }
    if b.prop == "C06" {
        r.nontrivial = b.args.count > 0;
        add(&mut r.counts, "samples judged", b.args.count as u64);
        if reference.code != 0 {
            r.viol = viol("exit", format!("{}: exit status {} without any fault; {}", cmdline(&b.args), reference.code, excerpt(&reference.err)));
            return r;
        }
        let v = match judge(&b.args, &reference.out) {
            Ok(v) => v,
            Err((c, w)) => {
                r.viol = viol(&c, format!("{}: {w}", cmdline(&b.args)));
                return r;
            }
        };
        // a random source that repeats itself may make the samples repeat
        if b.entropy_mode == 0 {
            if let Some((c, w)) = distribution(&b.args, &v) {
                r.viol = viol(&c, format!("{}: {w}", cmdline(&b.args)));
                return r;
            }
        }
        let n = b.args.count;
        if n >= 1 && n <= 9000 {
            // fresh randomness gives fresh samples, in every field of every line
            let others = if b.entropy_mode != 0 { 0 } else if n <= 400 { 3 } else { 1 };
            let mut runs = vec![v.clone()];
            for i in 0..others {
                let other = execute(b, &b.args, b.entropy ^ (0x5bd1e995_0000_0001 + i), &[]);
                tally(&mut r, &other);
                if other.timeout {
                    break;
                }
                match judge(&b.args, &other.out) {
                    Ok(w) => runs.push(w),
                    Err((c, w)) => {
                        r.viol = viol(&c, format!("{}: {w}", cmdline(&b.args)));
                        return r;
                    }
                }
            }
            if let Some(w) = stale(&b.args, &runs) {
                r.viol = viol("stale", format!("{}: {w}", cmdline(&b.args)));
                return r;
            }
            // the other coordinate types draw the same points from the same randomness, as far as
            // they consume it alike
            for k in [Kind::Xyz, Kind::LonLat] {
                if k == b.args.kind() || b.args.kind() == Kind::LonLatHeight {
                    continue;
                }
                let mut args = b.args.clone();
                args.kind = Some(k);
                let o = execute(b, &args, b.entropy, &[]);
                tally(&mut r, &o);
                if o.timeout {
                    continue;
                }
                let w = match judge(&args, &o.out) {
                    Ok(w) => w,
                    Err((c, e)) => {
                        r.viol = viol(&c, format!("{}: {e}", cmdline(&args)));
                        return r;
                    }
                };
                let (xa, x, la, l) = match (b.args.kind(), k) {
                    (Kind::Xyz, _) => (&b.args, &v, &args, &w),
                    (_, Kind::Xyz) => (&args, &w, &b.args, &v),
                    _ => continue,
                };
                let good = (0..n as usize).filter(|&i| same_point(xa, &x[i], la, &l[i])).count();
                add(&mut r.counts, "samples compared between coordinate types", n as u64);
                add(&mut r.counts, "of which the same point", good as u64);
                if good as u32 != n && good as f64 >= 0.9 * n as f64 && n >= 20 {
                    let i = (0..n as usize).find(|&i| !same_point(xa, &x[i], la, &l[i])).unwrap();
                    r.viol = viol("types", format!("{} and {}: {good} of {n} samples are the same point but not number {}: {:?} and {:?}", cmdline(xa), cmdline(la), i + 1, x[i], l[i]));
                    return r;
                }
            }
        }
        r.sched.hash = hash2(b.args.count as u64, hash_bytes(cmdline(&b.args).as_bytes()));
        return r;
    }
    // C07
    let o = execute(b, &b.args, b.entropy, &b.faults);
    tally(&mut r, &o);
    if o.timeout {
        add(&mut r.counts, "abandoned: out of real time", 1);
        return r;
    }
    r.digest = hash2(r.digest, hash2(hash_bytes(&o.out), o.code as u64));
    let (mut soft, mut hard, mut killed, mut fallback, mut memory) = (0, 0, false, false, false);
    let mut trace = vec![];
    let alone = b.faults.iter().filter(|f| f.site == Site::Getrandom).count() == 1;
    for (f, n) in b.faults.iter().zip(&o.fired) {
        if *n == 0 {
            continue;
        }
        trace.push(f);
        let name = match (f.site, f.what) {
            (s, Do::Short(_)) => format!("{s:?} short"),
            (s, Do::Err(e)) => format!("{s:?} errno {e} once"),
            (s, Do::ErrForever(e)) => format!("{s:?} errno {e} from then on"),
            (s, Do::Zero) => format!("{s:?} returns zero"),
            (_, Do::Kill) => "process killed".to_string(),
            (s, Do::Slow(_)) => format!("{s:?} stalled"),
        };
        add(&mut r.counts, &format!("fault: {name}"), *n);
        match (f.site, f.what) {
            (_, Do::Kill) => killed = true,
            (Site::Alloc, _) => memory = true,
            (_, Do::Short(_) | Do::Slow(_)) | (_, Do::Err(EINTR)) => soft += 1,
            (Site::Getrandom, Do::ErrForever(e)) if f.at == 0 && alone && (e == libc::ENOSYS || e == libc::EPERM) => fallback = true,
            _ => hard += 1,
        }
    }
    r.nontrivial = soft + hard > 0 || killed || fallback || memory;
    r.sched.hash = trace.iter().fold(7, |h, f| hash2(h, hash_bytes(format!("{f:?}").as_bytes())));
    let show = || {
        let t: Vec<String> = trace.iter().map(|f| format!("{f:?}")).collect();
        format!("{} under [{}]", cmdline(&b.args), t.join(", "))
    };
    if reference.code != 0 {
        r.viol = viol("exit", format!("{}: exit status {} without any fault; {}", cmdline(&b.args), reference.code, excerpt(&reference.err)));
        return r;
    }
    if let Some(h) = o.hang {
        r.viol = viol("hang", format!("{}: {h}", show()));
        return r;
    }
    if o.stuck {
        r.viol = viol("stuck", format!("{}: keeps repeating the failing call instead of exiting", show()));
        return r;
    }
    let same = o.out == reference.out;
    let prefix = reference.out.starts_with(&o.out);
    let at = || reference.out.iter().zip(&o.out).position(|(a, b)| a != b).unwrap_or(reference.out.len().min(o.out.len()));
    // A failure of the random source once it has been seeded may be survived with other (valid)
    // samples, or reported: then only completeness is judged.
    if hard > 0 && matches!(o.hard_entropy, Some(n) if n > 0) {
        add(&mut r.counts, "reseed failures", 1);
        if o.code == 0 {
            if let Err((_, w)) = judge(&b.args, &o.out) {
                r.viol = viol("silent", format!("{}: reports success, but {w}", show()));
            }
        }
        return r;
    }
    if o.code == 0 && !same {
        r.viol = viol(
            "silent",
            format!("{}: reports success, but the output differs from the fault-free one at byte {} ({} bytes instead of {})", show(), at(), o.out.len(), reference.out.len()),
        );
    } else if !prefix {
        r.viol = viol("not a prefix", format!("{}: what was written is not a prefix of the fault-free output: differs at byte {}", show(), at()));
    } else if o.code != 0 && hard == 0 && !killed && !memory {
        r.viol = viol("not survived", format!("{}: exit status {} after faults that only need a repeated call; {}", show(), o.code, excerpt(&o.err)));
    } else if o.code == 0 {
        add(&mut r.counts, "survived", 1);
    } else {
        add(&mut r.counts, "failed visibly", 1);
    }
    let _ = o.clock;
    r
}
impl Bin {
    pub fn simpler(&self) -> Vec<Bin> {
        let mut v = vec![];
        for n in [2, self.batch / 4, self.batch / 2, self.batch * 3 / 4] {
            if self.batch > n && n > 1 {
                let mut x = self.clone();
                x.batch = n;
                v.push(x);
            }
        }
        for n in [0u32, 1, 2, 3, 10, 100, 1000, 10_000, self.args.count / 2, self.args.count.saturating_sub(1)] {
            if n < self.args.count {
                let mut x = self.clone();
                x.args.count = n;
                v.push(x);
            }
        }
        for i in 0..7 {
            let mut x = self.clone();
            let changed = match i {
                0 => x.args.a.take().is_some(),
                1 => x.args.inv_f.take().is_some(),
                2 => x.args.m_per_unit.take().is_some(),
                3 => x.args.rad_per_unit.take().is_some(),
                4 => std::mem::replace(&mut x.clock, 0) != 0,
                5 => std::mem::replace(&mut x.entropy_mode, 0) != 0,
                _ => std::mem::replace(&mut x.entropy, 1) != 1,
            };
            if changed {
                v.push(x);
            }
        }
        for i in 0..self.faults.len() {
            if self.faults[i].at > 0 {
                for at in [0, self.faults[i].at / 2, self.faults[i].at - 1] {
                    if at < self.faults[i].at {
                        let mut x = self.clone();
                        x.faults[i].at = at;
                        v.push(x);
                    }
                }
            }
        }
        v
    }
}
