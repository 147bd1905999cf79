//! P24: bloom adds the Gaussian blur of the bright pixels.
use harness::ensure;
use harness::fw::*;
use harness::geo::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solstrale::post::{BloomPostProcessor, PostProcessor, PostProcessors};
use solstrale::util::gaussian::create_gaussian_blur_weights;
use solstrale::util::rgb_color::to_rgb_color;

// ---------------------------------------------------------------- pictures

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    w: u32,
    h: u32,
    n: u32,
    fraction: f64,
    threshold: Option<f64>,
    limit: Option<f64>,
    /// averages of the pixels
    px: Vec<V3>,
    nan: Option<usize>,
}

fn pixel(threshold: Option<f64>) -> BoxedStrategy<V3> {
    let t = threshold.unwrap_or(3f64.sqrt());
    prop_oneof![
        3 => (0.0..1.0f64, [0.0..1.0f64, 0.0..1.0f64, 0.0..1.0f64]).prop_map(|(k, c)| mul(c, k)),
        2 => [0.0..10.0f64, 0.0..10.0f64, 0.0..10.0f64],
        1 => Just([0.; 3]),
        1 => Just([1.; 3]),
        // just reaching the threshold, above and below it
        1 => (0usize..3).prop_map(move |i| { let mut c = [0.; 3]; c[i] = t; c }),
        2 => (0.9..1.1f64, [0.0..1.0f64, 0.0..1.0f64, 0.01..1.0f64]).prop_map(move |(k, c)| mul(unit(c), k * t)),
        1 => prop_oneof![(0.0..8.0f64), (8.0..18.0f64)].prop_map(|e| [e.exp(), 0.1, 0.]),
    ]
    .boxed()
}

fn fraction() -> BoxedStrategy<f64> {
    prop_oneof![2 => Just(0.), 1 => Just(0.5), 6 => 0.0..0.5f64, 2 => (0u32..=10).prop_map(|k| k as f64 / 20.)].boxed()
}

fn case() -> BoxedStrategy<Case> {
    let threshold = prop_oneof![
        3 => Just(None),
        1 => Just(Some(0.)),
        1 => (1u32..6).prop_map(|k| Some(k as f64)),
        2 => (0.0..5.0f64).prop_map(Some),
    ];
    let limit = prop_oneof![
        3 => Just(None),
        1 => Just(Some(0.)),
        3 => (0.0..8.0f64).prop_map(Some),
        1 => Just(Some(1e9)),
    ];
    let n = prop_oneof![2 => Just(1u32), 3 => (1u32..8).prop_map(|k| 1 << k), 4 => 2u32..200];
    (1u32..14, 1u32..11, n, fraction(), threshold, limit)
        .prop_flat_map(|(w, h, n, fraction, threshold, limit)| {
            let k = (w * h) as usize;
            let dense = prop::collection::vec(pixel(threshold), k);
            let sparse = prop::collection::vec(
                prop_oneof![12 => color_dark(), 1 => pixel(threshold)],
                k,
            );
            (prop_oneof![dense, sparse], prop::option::weighted(0.1, 0..k)).prop_map(move |(px, nan)| {
                let mut c = Case { w, h, n, fraction, threshold, limit, px, nan };
                // pixels just at the threshold only where that is exact
                for i in 0..c.px.len() {
                    if !c.bright(c.px[i]).1 {
                        c.px[i] = mul(c.px[i], 1.01);
                    }
                }
                c
            })
        })
        .boxed()
}

fn wide_size() -> BoxedStrategy<(u32, u32)> {
    prop_oneof![
        // more than 65536 pixels
        1 => (200u32..700, 100u32..700).prop_filter("not too many", |(w, h)| w * h < 130_000),
        40 => (1u32..90, 1u32..90),
        10 => (90u32..700, 1u32..4),
        5 => (700u32..3000, 1u32..3),
        5 => (1u32..4, 90u32..3000),
    ]
    .boxed()
}

fn color_dark() -> BoxedStrategy<V3> {
    [0.0..0.5f64, 0.0..0.5f64, 0.0..0.5f64].boxed()
}

impl Case {
    fn build(&self) -> Result<PostProcessors, String> {
        BloomPostProcessor::new(self.fraction, self.threshold, self.limit).map_err(|e| e.to_string())
    }
    fn averages(&self) -> Vec<V3> {
        let mut px = self.px.clone();
        if let Some(i) = self.nan {
            px[i][1] = f64::NAN;
        }
        px
    }
    /// bloom over these averages as `n` samples, in units of averages
    fn bloom(&self, px: &[V3], w: u32, h: u32, n: u32) -> Result<Vec<V3>, String> {
        let sums: Vec<_> = px.iter().map(|p| sv(mul(*p, n as f64))).collect();
        let guides = vec![sv([0.7, 0.1, 0.4]); px.len()];
        let p = self.build()?;
        let got = p.intermediate_post_process(&sums, &guides, &guides, w, h, n).map_err(|e| e.to_string())?;
        ensure!(got.len() == px.len(), "{} pixels instead of {}", got.len(), px.len());
        let img = p.post_process(&sums, &guides, &guides, w, h, n).map_err(|e| e.to_string())?;
        ensure!(img.dimensions() == (w, h), "image of size {:?}", img.dimensions());
        for (i, c) in got.iter().enumerate() {
            let want = to_rgb_color(*c, n);
            let is = *img.get_pixel(i as u32 % w, i as u32 / w);
            ensure!(is == want, "pixel {i} of {w}x{h} is {is:?} in the image, {want:?} before");
        }
        Ok(got.iter().map(|c| mul(rv(*c), 1. / n as f64)).collect())
    }
    fn thr(&self) -> f64 {
        self.threshold.unwrap_or(3f64.sqrt())
    }
    /// the part of the pixel that blooms, and whether that is beyond doubt
    fn bright(&self, p: V3) -> (V3, bool) {
        let l = len(p);
        let t = self.thr();
        let sure = l.is_nan() || p == [0.; 3] || (l - t).abs() > 1e-9 * t.max(1e-9) || (self.n.is_power_of_two() && simple(p, t));
        if l.is_nan() || l < t {
            return ([0.; 3], sure);
        }
        match self.limit {
            Some(m) if l > m => (mul(p, m / l), sure),
            _ => (p, sure),
        }
    }
    /// possible blur radii in pixels
    fn radii(&self, w: u32) -> Vec<usize> {
        let r = self.fraction * w as f64;
        let mut v = vec![(r - 1e-9).max(0.) as usize, (r + 1e-9) as usize];
        v.dedup();
        v
    }
}

/// whether the length of the pixel is exactly representable: one channel only, or grey at the default threshold
fn simple(p: V3, t: f64) -> bool {
    p.iter().filter(|x| **x != 0.).count() <= 1 || (p == [1.; 3] && t == 3f64.sqrt())
}

fn weights(r: usize) -> Vec<f64> {
    let size = (2 * r + 1) as f64;
    let sd = size / 5.;
    let w: Vec<f64> = (0..2 * r + 1).map(|i| (-0.5 * ((i as f64 - r as f64) / sd).powi(2)).exp()).collect();
    let sum: f64 = w.iter().sum();
    w.iter().map(|x| x / sum).collect()
}

/// straightforward two-dimensional convolution
fn reference(px: &[V3], bright: &[V3], w: u32, h: u32, r: usize) -> Vec<V3> {
    let wt = weights(r);
    let (w, h, r) = (w as i64, h as i64, r as i64);
    let mut out = vec![];
    for y in 0..h {
        for x in 0..w {
            let mut c = px[(y * w + x) as usize];
            for dy in -r..=r {
                for dx in -r..=r {
                    let (sx, sy) = ((x + dx).clamp(0, w - 1), (y + dy).clamp(0, h - 1));
                    let k = wt[(dx + r) as usize] * wt[(dy + r) as usize];
                    c = add(c, mul(bright[(sy * w + sx) as usize], k));
                }
            }
            out.push(c);
        }
    }
    out
}

fn same(a: V3, b: V3, scale: f64) -> bool {
    (0..3).all(|i| (a[i].is_nan() && b[i].is_nan()) || (a[i] - b[i]).abs() <= 1e-10 * scale)
}

fn check(s: &Case, obs: &mut Obs) -> Res {
    let px = s.averages();
    let got = s.bloom(&px, s.w, s.h, s.n)?;
    let bright: Vec<_> = px.iter().map(|p| s.bright(*p)).collect();
    if bright.iter().any(|b| !b.1) {
        obs.label("undecided");
        return Ok(());
    }
    let bright: Vec<V3> = bright.iter().map(|b| b.0).collect();
    let scale = 1. + s.px.iter().map(|p| len(*p)).fold(0., f64::max);
    let lit = bright.iter().filter(|b| maxabs(**b) > 0.).count();
    let refs: Vec<_> = s.radii(s.w).iter().map(|r| reference(&px, &bright, s.w, s.h, *r)).collect();
    let off = |r: &Vec<V3>| (0..got.len()).find(|i| !same(got[*i], r[*i], scale));
    if refs.iter().all(|r| off(r).is_some()) {
        let i = off(&refs[0]).unwrap();
        return Err(format!("pixel {i} of {}x{} is {:?}, not {:?}", s.w, s.h, got[i], refs[0][i]));
    }
    if lit == 0 {
        obs.label("dark");
        for (i, p) in px.iter().enumerate() {
            ensure!(same(got[i], *p, scale), "pixel {i} of a dark picture changes from {p:?} to {:?}", got[i]);
        }
    } else if lit == px.len() {
        obs.label("bright");
    } else {
        obs.label("mixed");
    }
    if s.radii(s.w) == [0] {
        obs.label("no blur");
    }
    obs.nontrivial_if(lit > 0 && s.radii(s.w) != [0] && px.len() > 1);
    Ok(())
}

// ---------------------------------------------------------------- relations

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Relation {
    case: Case,
    m: u32,
    /// darker pixels are replaced by these
    dark: Vec<V3>,
    grey: V3,
}

fn relation() -> BoxedStrategy<Relation> {
    case()
        .prop_flat_map(|c| {
            let k = c.px.len();
            (Just(c), 1u32..300, prop::collection::vec(color_dark(), k), [0.0..6.0f64, 0.0..6.0f64, 0.0..6.0f64])
        })
        .prop_map(|(case, m, dark, grey)| Relation { case, m, dark, grey })
        .boxed()
}

fn mirror(px: &[V3], w: usize, h: usize, x: bool, y: bool) -> Vec<V3> {
    (0..w * h)
        .map(|i| {
            let (a, b) = (i % w, i / w);
            let a = if x { w - 1 - a } else { a };
            let b = if y { h - 1 - b } else { b };
            px[b * w + a]
        })
        .collect()
}

fn check_relation(s: &Relation, obs: &mut Obs) -> Res {
    let c = &s.case;
    let px = c.averages();
    let (w, h) = (c.w as usize, c.h as usize);
    let got = c.bloom(&px, c.w, c.h, c.n)?;
    let scale = 1. + c.px.iter().map(|p| len(*p)).fold(0., f64::max);
    let bright: Vec<_> = px.iter().map(|p| c.bright(*p)).collect();
    let sure = bright.iter().all(|b| b.1);
    // mirrored pictures
    for (x, y) in [(true, false), (false, true), (true, true)] {
        let other = mirror(&c.bloom(&mirror(&px, w, h, x, y), c.w, c.h, c.n)?, w, h, x, y);
        for i in 0..w * h {
            ensure!(same(got[i], other[i], scale), "pixel {i} is {:?}, mirrored (x {x}, y {y}) {:?}", got[i], other[i]);
        }
    }
    // other sample counts
    let clear = px.iter().all(|p| len(*p).is_nan() || (len(*p) - c.thr()).abs() > 1e-9 * c.thr().max(1e-9));
    if clear || (c.n.is_power_of_two() && s.m.is_power_of_two()) {
        let other = c.bloom(&px, c.w, c.h, s.m)?;
        for i in 0..w * h {
            ensure!(same(got[i], other[i], scale), "pixel {i} is {:?} with {} samples, {:?} with {}", got[i], c.n, other[i], s.m);
        }
    }
    // dark pixels do not bloom, whatever they are; nothing gets darker
    if sure {
        let dark: Vec<V3> = (0..w * h)
            .map(|i| if maxabs(bright[i].0) == 0. && len(s.dark[i]) < c.thr() * 0.999 { s.dark[i] } else { px[i] })
            .collect();
        let other = c.bloom(&dark, c.w, c.h, c.n)?;
        for i in 0..w * h {
            let (a, b) = (sub(got[i], px[i]), sub(other[i], dark[i]));
            if px[i].iter().all(|x| x.is_finite()) {
                ensure!(same(a, b, scale), "pixel {i} gains {a:?} or {b:?} depending on dark pixels");
                ensure!(a.iter().all(|x| *x >= -1e-9 * scale), "pixel {i} gains {a:?}");
            }
        }
    }
    // a uniformly bright picture gains its own limited brightness
    let (g, sure) = c.bright(s.grey);
    if sure {
        let all = vec![s.grey; w * h];
        for (i, p) in c.bloom(&all, c.w, c.h, c.n)?.iter().enumerate() {
            ensure!(same(sub(*p, s.grey), g, 20.), "pixel {i} of a picture of {:?} gains {:?}, not {g:?}", s.grey, sub(*p, s.grey));
        }
        obs.label(if maxabs(g) > 0. { "uniform bright" } else { "uniform dark" });
    }
    obs.nontrivial_if(bright.iter().any(|b| maxabs(b.0) > 0.) && c.radii(c.w) != [0]);
    Ok(())
}

// ---------------------------------------------------------------- large pictures

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wide {
    w: u32,
    h: u32,
    fraction: f64,
    spots: Vec<(usize, V3)>,
    n: u32,
}

fn check_wide(s: &Wide, obs: &mut Obs) -> Res {
    let k = (s.w * s.h) as usize;
    let mut px = vec![[0.; 3]; k];
    for (i, c) in &s.spots {
        px[*i % k] = *c;
    }
    let c = Case { w: s.w, h: s.h, n: s.n, fraction: s.fraction, threshold: Some(0.5), limit: None, px: px.clone(), nan: None };
    let got = c.bloom(&px, s.w, s.h, s.n)?;
    let mut bad = None;
    for r in c.radii(s.w) {
        let wt = weights(r);
        // weight of one source coordinate for one target coordinate
        let share = |from: i64, to: i64, size: i64| -> f64 {
            let r = r as i64;
            (-r..=r).filter(|d| (to + d).clamp(0, size - 1) == from).map(|d| wt[(d + r) as usize]).sum()
        };
        let mut want = px.clone();
        for (i, p) in px.iter().enumerate().filter(|(_, p)| len(**p) >= 0.5) {
            let (sx, sy) = ((i % s.w as usize) as i64, (i / s.w as usize) as i64);
            let xs: Vec<f64> = (0..s.w as i64).map(|x| share(sx, x, s.w as i64)).collect();
            let ys: Vec<f64> = (0..s.h as i64).map(|y| share(sy, y, s.h as i64)).collect();
            for (j, o) in want.iter_mut().enumerate() {
                *o = add(*o, mul(*p, xs[j % s.w as usize] * ys[j / s.w as usize]));
            }
        }
        match (0..k).find(|i| !same(got[*i], want[*i], 50.)) {
            None => {
                obs.nontrivial_if(r > 0);
                return Ok(());
            }
            Some(i) => bad = Some((i, want[i])),
        }
    }
    let (i, want) = bad.unwrap();
    Err(format!("pixel {},{} of {}x{} is {:?}, not {want:?}", i as u32 % s.w, i as u32 / s.w, s.w, s.h, got[i]))
}

// ---------------------------------------------------------------- one processor for several pictures

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Again {
    fraction: f64,
    threshold: Option<f64>,
    limit: Option<f64>,
    /// pictures of a width and height, samples and bright pixels
    pictures: Vec<(u32, u32, u32, Vec<(usize, V3)>)>,
    /// which picture, and whether a copy of the processor does it
    uses: Vec<(usize, bool)>,
}

fn again() -> BoxedStrategy<Again> {
    let picture = (1u32..24, 1u32..16, 1u32..40, prop::collection::vec((any::<usize>(), [0.0..4.0f64, 0.0..4.0f64, 0.0..4.0f64]), 1..6));
    let uses = prop::collection::vec((any::<usize>(), prop::bool::weighted(0.3)), 2..7);
    (fraction(), prop::option::of(0.0..3.0f64), prop::option::of(0.0..4.0f64), prop::collection::vec(picture, 1..4), uses)
        .prop_map(|(fraction, threshold, limit, pictures, uses)| Again { fraction, threshold, limit, pictures, uses })
        .boxed()
}

fn check_again(s: &Again, obs: &mut Obs) -> Res {
    let fresh = || BloomPostProcessor::new(s.fraction, s.threshold, s.limit).map_err(|e| e.to_string());
    let kept = fresh()?;
    let mut before: Option<(u32, u32, u32)> = None;
    for (i, copy) in &s.uses {
        let (w, h, n, spots) = &s.pictures[*i % s.pictures.len()];
        let mut px: Vec<_> = (0..w * h).map(|i| sv([0.01 * (i % 7) as f64, 0.02, 0.])).collect();
        let k = px.len();
        for (at, c) in spots {
            px[at % k] = sv(mul(*c, *n as f64));
        }
        let one = if *copy { kept.clone() } else { fresh()? };
        let used = if *copy { &one } else { &kept };
        let new = fresh()?;
        let a = used.intermediate_post_process(&px, &px, &px, *w, *h, *n).map_err(|e| e.to_string())?;
        let b = new.intermediate_post_process(&px, &px, &px, *w, *h, *n).map_err(|e| e.to_string())?;
        ensure!(a.len() == b.len(), "{} pixels from a processor used before, {} from a new one", a.len(), b.len());
        for (j, (a, b)) in a.iter().zip(&b).enumerate() {
            let (a, b) = (mul(rv(*a), 1. / *n as f64), mul(rv(*b), 1. / *n as f64));
            ensure!(same(a, b, 5.), "pixel {j} of {w}x{h} after {n} samples is {a:?} from a processor used before ({before:?}), {b:?} from a new one");
        }
        if before.is_some_and(|p| p != (*w, *h, *n)) && s.fraction * *w as f64 >= 1. {
            obs.nontrivial();
        }
        before = Some((*w, *h, *n));
    }
    Ok(())
}

// ---------------------------------------------------------------- radii and weights

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Frac {
    Num(f64),
    /// this many representable numbers away from 0.5
    Half(i32),
    NegTiny,
    Nan,
    Inf,
    NegInf,
}

fn check_fraction(s: &Frac, obs: &mut Obs) -> Res {
    let f = match s {
        Frac::Num(x) => *x,
        Frac::Half(k) => f64::from_bits((0.5f64.to_bits() as i64 + *k as i64) as u64),
        Frac::NegTiny => -5e-324,
        Frac::Nan => f64::NAN,
        Frac::Inf => f64::INFINITY,
        Frac::NegInf => f64::NEG_INFINITY,
    };
    let ok = (0. ..=0.5).contains(&f);
    let got = BloomPostProcessor::new(f, None, None);
    ensure!(got.is_ok() == ok, "blur radius {f} is {}", if got.is_ok() { "accepted" } else { "refused" });
    if let Err(e) = got {
        ensure!(!e.to_string().is_empty(), "no error text");
    }
    obs.label(if ok { "accepted" } else { "refused" });
    obs.nontrivial_if(!ok);
    Ok(())
}

fn check_weights(s: &(usize, f64), obs: &mut Obs) -> Res {
    let (size, sd) = *s;
    let w = create_gaussian_blur_weights(size, sd);
    ensure!(w.len() == size, "{} weights instead of {size}", w.len());
    let sum: f64 = w.iter().sum();
    ensure!((sum - 1.).abs() < 1e-9, "the {size} weights for {sd} sum to {sum}");
    let mid = (size - 1) as f64 / 2.;
    for i in 0..size {
        let (a, b) = (w[i], w[size - 1 - i]);
        ensure!(a >= 0. && (a - b).abs() <= 1e-12, "weights {i} and {} differ: {a} and {b}", size - 1 - i);
        // the shape of a Gaussian against the middle one
        let m = w[size / 2];
        let want = m * (-0.5 * (((i as f64 - mid) / sd).powi(2) - ((size / 2) as f64 - mid).powi(2) / (sd * sd))).exp();
        ensure!((a - want).abs() <= 1e-9, "weight {i} of {size} for {sd} is {a}, not {want}");
    }
    obs.nontrivial_if(size > 1);
    Ok(())
}

fn main() {
    run_main(
        "P24",
        || {
            vec![
                facet("reference", "some bright pixels and a blur radius above zero", 60_000, 2_000_000, case(), check),
                facet("relations", "some bright pixels and a blur radius above zero", 30_000, 800_000, relation(), check_relation),
                facet(
                    "spots",
                    "a blur radius above zero",
                    4_000,
                    100_000,
                    (wide_size(), fraction(), prop::collection::vec((any::<usize>(), [0.5..9.0f64, 0.0..9.0f64, 0.0..9.0f64]), 1..4), 1u32..50)
                        .prop_map(|((w, h), fraction, spots, n)| Wide { w, h, fraction, spots, n }),
                    check_wide,
                ),
                facet("used again", "a picture of another size or number of samples before, a blur radius above zero", 20_000, 400_000, again(), check_again),
                facet(
                    "radius",
                    "refused",
                    50_000,
                    1_000_000,
                    prop_oneof![
                        4 => (-1.0..2.0f64).prop_map(Frac::Num),
                        2 => (-1e3..1e3f64).prop_map(Frac::Num),
                        2 => (0u32..=10).prop_map(|k| Frac::Num(k as f64 / 10.)),
                        2 => (-3i32..4).prop_map(Frac::Half),
                        1 => Just(Frac::NegTiny),
                        1 => Just(Frac::Nan),
                        1 => Just(Frac::Inf),
                        1 => Just(Frac::NegInf),
                    ],
                    check_fraction,
                ),
                facet("weights", "more than one weight", 20_000, 400_000, (1usize..120, 0.2..40.0f64), check_weights),
            ]
        },
        &[
            "channels are finite, apart from single pixels that are not numbers",
            "pixels within one part in 10^9 of the threshold are judged only where the arithmetic is exact",
            "the blur radius is the whole number of pixels in the fraction of the width, the deviation a fifth of the kernel",
        ],
    )
}
