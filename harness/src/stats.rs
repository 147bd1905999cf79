//! Two-stage tests of sample means: a suspicion at the first stage is confirmed with 16 times the samples.

#[derive(Clone, Copy, Debug, Default)]
pub struct Acc {
    pub n: f64,
    pub mean: f64,
    m2: f64,
}

impl Acc {
    pub fn push(&mut self, x: f64) {
        self.n += 1.;
        let d = x - self.mean;
        self.mean += d / self.n;
        self.m2 += d * (x - self.mean);
    }
    pub fn se(&self) -> f64 {
        if self.n < 2. {
            return f64::INFINITY;
        }
        (self.m2 / (self.n - 1.) / self.n).sqrt()
    }
}

fn run<const K: usize>(n: usize, f: &mut impl FnMut() -> [f64; K]) -> Result<[Acc; K], String> {
    let mut acc = [Acc::default(); K];
    for _ in 0..n {
        let x = f();
        for k in 0..K {
            if !x[k].is_finite() {
                return Err(format!("sample of component {k} is {}", x[k]));
            }
            acc[k].push(x[k]);
        }
    }
    Ok(acc)
}

/// The means of the components of `f` must be `expect`, up to `tol` and chance.
/// `floor`: smallest standard deviation to assume per component (guards against rare events that were
/// not seen at all), may be 0.
pub fn check_means<const K: usize>(
    what: &str,
    expect: [f64; K],
    tol: [f64; K],
    floor: f64,
    n: usize,
    mut f: impl FnMut() -> [f64; K],
) -> Result<(), String> {
    let bad = |a: &[Acc; K], z: f64| -> Option<usize> {
        (0..K).find(|&k| {
            let se = a[k].se().max(floor / a[k].n.sqrt());
            (a[k].mean - expect[k]).abs() > z * se + tol[k]
        })
    };
    let a = run(n, &mut f).map_err(|e| format!("{what}: {e}"))?;
    if bad(&a, 5.0).is_none() {
        return Ok(());
    }
    let b = run(n * 16, &mut f).map_err(|e| format!("{what}: {e}"))?;
    match bad(&b, 7.0) {
        None => Ok(()),
        Some(k) => Err(format!(
            "{what}: component {k}: mean {} of {} samples (standard error {:.3e}) should be {} (tolerance {:.1e})",
            b[k].mean,
            b[k].n,
            b[k].se(),
            expect[k],
            tol[k]
        )),
    }
}

/// Share of successes must be `p`.
pub fn check_share(what: &str, p: f64, tol: f64, n: usize, mut f: impl FnMut() -> bool) -> Result<(), String> {
    let floor = (p * (1. - p)).sqrt().max(1e-3);
    check_means(what, [p], [tol], floor, n, || [if f() { 1. } else { 0. }])
}

/// The exact share of successes, if the first random number alone decides by a threshold.
pub fn exact_share(mut f: impl FnMut() -> Option<bool>) -> Option<f64> {
    let mut at = |c: f64| {
        fastrand::ctl::once(c);
        let r = f();
        if fastrand::ctl::once_off() {
            return None;
        }
        r
    };
    const N: usize = 40;
    let grid: Vec<f64> = std::iter::once(1e-12).chain((0..N).map(|k| (k as f64 + 0.5) / N as f64)).chain(std::iter::once(1. - 1e-12)).collect();
    let mut seen = vec![];
    for c in &grid {
        seen.push(at(*c)?);
    }
    let steps: Vec<usize> = (1..seen.len()).filter(|i| seen[*i] != seen[i - 1]).collect();
    let [i] = steps[..] else { return None };
    let (mut lo, mut hi) = (grid[i - 1], grid[i]);
    for _ in 0..46 {
        let mid = 0.5 * (lo + hi);
        if at(mid)? == seen[0] {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    let t = 0.5 * (lo + hi);
    // a threshold indeed: the same on either side of it wherever looked at
    for k in 1..=20 {
        let w = k as f64 / 20.;
        let w = w * w * w;
        if at(lo - (lo - lo.min(1e-12)) * w)? != seen[0] || at(hi + (1. - 1e-12 - hi).max(0.) * w)? == seen[0] {
            return None;
        }
    }
    Some(if seen[0] { t } else { 1. - t })
}

/// Shares of the outermost parts, down to some hundred of the `n` values, of values that should be
/// uniform in 0..1. Finds what is cut off or crowded at the ends, unlike moments.
pub fn check_ends(what: &str, n: usize, mut f: impl FnMut() -> f64) -> Result<(), String> {
    let deep = (n / 100).max(2).ilog2() as usize;
    let (mut low, mut high) = (vec![0usize; deep], vec![0usize; deep]);
    for _ in 0..n {
        let x = f();
        if !(-1e-9..=1. + 1e-9).contains(&x) {
            return Err(format!("{what}: {x} is out of range"));
        }
        let (mut k, mut edge) = (0, 0.5);
        while k < deep && x < edge {
            low[k] += 1;
            (k, edge) = (k + 1, edge * 0.5);
        }
        let y = 1. - x;
        let (mut k, mut edge) = (0, 0.5);
        while k < deep && y <= edge {
            high[k] += 1;
            (k, edge) = (k + 1, edge * 0.5);
        }
    }
    for (c, name) in [(low, "lowest"), (high, "highest")] {
        for (k, c) in c.iter().enumerate() {
            let want = n as f64 / (2u64 << k) as f64;
            if (*c as f64 - want).abs() > 7.5 * want.sqrt() {
                return Err(format!("{what}: {c} of {n} in the {name} of {} parts, {want} expected", 2u64 << k));
            }
        }
    }
    Ok(())
}
