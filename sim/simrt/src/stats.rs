//! Distribution tests with explicit error bounds, so that a sound program is never accused: every
//! threshold is a proven tail bound at the given natural-log error `la` (P(alarm) <= e^-la), not an
//! asymptotic approximation.

/// Kolmogorov-Smirnov against the uniform distribution on [0,1] with Massart's bound
/// P(D > eps) <= 2 exp(-2 n eps^2). `blur` is the half width by which each value is uncertain.
pub fn not_uniform(v: &mut Vec<f64>, la: f64, blur: f64) -> Option<String> {
    let n = v.len();
    if n < 50 {
        return None;
    }
    v.sort_by(|a, b| a.total_cmp(b));
    let eps = ((la + 2f64.ln()) / (2.0 * n as f64)).sqrt() + blur;
    let (mut d, mut at) = (0.0f64, 0.0);
    for (i, x) in v.iter().enumerate() {
        let a = (x - i as f64 / n as f64).abs().max((x - (i + 1) as f64 / n as f64).abs());
        if a > d {
            d = a;
            at = *x;
        }
    }
    if d > eps {
        return Some(format!("Kolmogorov-Smirnov distance {d:.5} at quantile {at:.5}, bound {eps:.5} for {n} samples"));
    }
    // a given interval of length g stays empty with probability at most e^(-n g); union over the
    // n + 1 gaps
    let lim = (la + (n as f64 + 1.0).ln() * 2.0) / n as f64 + 2.0 * blur;
    let mut prev = 0.0;
    for x in v.iter().chain([1.0].iter()) {
        if x - prev > lim {
            return Some(format!("no sample between quantiles {prev:.6} and {x:.6} although {n} samples were drawn (largest credible gap {lim:.6})"));
        }
        prev = *x;
    }
    None
}
/// Largest number of equal values among n uniform draws from `cells` values exceeding k with
/// probability at most e^-la: union bound cells * (n/cells)^(k+1) / (k+1)!
pub fn max_repeat(n: f64, cells: f64, la: f64) -> f64 {
    let lambda = n / cells;
    let mut k = 1.0f64;
    loop {
        // ln P(Poisson-like count >= k) <= k ln(lambda) - ln k!  (binomial coefficient bound)
        let mut ln = cells.ln();
        let mut j = 1.0;
        while j <= k {
            ln += lambda.ln() - (j as f64).ln();
            j += 1.0;
        }
        if ln < -la && k > lambda {
            return k;
        }
        k += 1.0;
        if k > 1e6 {
            return k;
        }
    }
}
/// longest run of equal values in a sorted slice
pub fn repeats(v: &[f64]) -> (usize, f64) {
    let (mut best, mut at, mut run) = (0, 0.0, 0);
    for i in 0..v.len() {
        run = if i > 0 && v[i] == v[i - 1] { run + 1 } else { 1 };
        if run > best {
            best = run;
            at = v[i];
        }
    }
    (best, at)
}
/// Sum of products of centred variables in [-1/2, 1/2]: Azuma's bound for martingale differences
/// bounded by 1/4 each: P(|S| > t) <= 2 exp(-t^2 / (2 n / 16)).
pub fn correlated(a: &[f64], b: &[f64], la: f64, blur: f64) -> Option<f64> {
    let n = a.len().min(b.len());
    if n < 50 {
        return None;
    }
    let s: f64 = (0..n).map(|i| (a[i] - 0.5) * (b[i] - 0.5)).sum();
    let t = ((la + 2f64.ln()) * n as f64 / 8.0).sqrt() + blur * n as f64;
    if s.abs() > t {
        Some(s / n as f64)
    } else {
        None
    }
}
/// Is `b` a (piecewise smooth) function of `a`? Given the order of `a`, independent `b` are still independent and
/// uniform: the differences of the pairs (0,1), (2,3), ... along that order have mean 1/3, and Hoeffding's bound
/// P(mean < 1/3 - t) <= exp(-2 m t^2) holds for m of them.
pub fn depends(a: &[f64], b: &[f64], la: f64, blur: f64) -> Option<f64> {
    let n = a.len().min(b.len());
    if n < 400 {
        return None;
    }
    let mut ix: Vec<u32> = (0..n as u32).collect();
    ix.sort_by(|i, j| a[*i as usize].total_cmp(&a[*j as usize]));
    let m = n / 2;
    let mean = (0..m).map(|k| (b[ix[2 * k] as usize] - b[ix[2 * k + 1] as usize]).abs()).sum::<f64>() / m as f64;
    let t = (la / (2.0 * m as f64)).sqrt() + 2.0 * blur;
    if mean < 1.0 / 3.0 - t {
        Some(mean)
    } else {
        None
    }
}
/// Cells of a k by k grid that hold more, or fewer, of n independent uniform pairs than is credible: Chernoff's bound
/// P(X >= x), P(X <= x) <= exp(-n KL(x/n, p)), over k^2 cells and both sides. `blur` widens the cells.
pub fn uneven(a: &[f64], b: &[f64], k: usize, la: f64, blur: f64) -> Option<(usize, usize, f64, f64)> {
    let n = a.len().min(b.len());
    if n < 400 {
        return None;
    }
    let mut c = vec![0u32; k * k];
    let cell = |x: f64| ((x * k as f64) as usize).min(k - 1);
    for i in 0..n {
        c[cell(a[i]) * k + cell(b[i])] += 1;
    }
    let kl = |x: f64, p: f64| {
        let t = |u: f64, v: f64| if u <= 0.0 { 0.0 } else { u * (u / v).ln() };
        t(x, p) + t(1.0 - x, 1.0 - p)
    };
    let w = 1.0 / k as f64;
    let (hi, lo) = ((w + 2.0 * blur).min(0.999).powi(2), (w - 2.0 * blur).max(0.0).powi(2));
    for (i, x) in c.iter().enumerate() {
        let f = *x as f64 / n as f64;
        let odd = if f > hi { n as f64 * kl(f, hi) } else if f < lo { n as f64 * kl(f, lo) } else { 0.0 };
        if odd > la + (2.0 * (k * k) as f64).ln() {
            return Some((i / k, i % k, *x as f64, n as f64 * w * w));
        }
    }
    None
}
/// Pairs of points on the sphere that are images of each other under a sign change or an exchange of axes, within `tol`.
pub fn mirrored(p: &[[f64; 3]], tol: f64) -> (usize, Option<(usize, usize)>) {
    let mut v: Vec<([f64; 3], u32)> = p
        .iter()
        .enumerate()
        .map(|(i, q)| {
            let mut c = [q[0].abs(), q[1].abs(), q[2].abs()];
            c.sort_by(|a, b| a.total_cmp(b));
            (c, i as u32)
        })
        .collect();
    v.sort_by(|a, b| a.0[0].total_cmp(&b.0[0]));
    let (mut n, mut at) = (0, None);
    for i in 0..v.len() {
        for j in i + 1..v.len() {
            if v[j].0[0] - v[i].0[0] > tol {
                break;
            }
            if (v[j].0[1] - v[i].0[1]).abs() <= tol && (v[j].0[2] - v[i].0[2]).abs() <= tol {
                n += 1;
                at = at.or(Some((v[i].1.min(v[j].1) as usize, v[i].1.max(v[j].1) as usize)));
                break;
            }
        }
    }
    (n, at)
}
/// Components (each in [-1, 1], with mean 0) of samples further apart: the product of one with another one `lag` later is
/// a martingale difference bounded by 1, and Azuma's bound P(|S| > t) <= 2 exp(-t^2 / 2n) holds.
pub fn lagged(p: &[[f64; 4]], dims: usize, lags: &[usize], la: f64) -> Option<(usize, usize, usize, f64)> {
    for &lag in lags {
        if p.len() < lag + 200 {
            break;
        }
        let n = p.len() - lag;
        let mut s = [[0.0f64; 4]; 4];
        for (a, b) in p.iter().zip(&p[lag..]) {
            for i in 0..4 {
                for j in 0..4 {
                    s[i][j] += a[i] * b[j];
                }
            }
        }
        let t = (2.0 * n as f64 * (la + 2f64.ln())).sqrt() + 1e-6 * n as f64;
        for i in 0..dims {
            for j in 0..dims {
                if s[i][j].abs() > t {
                    return Some((lag, i, j, s[i][j] / n as f64));
                }
            }
        }
    }
    None
}
