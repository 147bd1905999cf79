//! P23: colours become bytes by averaging, gamma and clamping.
use harness::ensure;
use harness::fw::*;
use harness::geo::*;
use image::Rgb;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solstrale::post::{NopPostProcessor, PostProcessor};
use solstrale::util::rgb_color::{rgb_to_vec3, to_float, to_rgb_color};

/// a sum of samples, written so that it survives JSON
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Sum {
    Avg(f64),
    /// average at the boundary of byte k, this many units in the last place away
    Edge(u8, i32),
    Nan,
    Inf,
    NegInf,
    NegZero,
    Tiny,
    Huge,
}

fn ulps(x: f64, k: i32) -> f64 {
    if x <= 0. {
        return x;
    }
    f64::from_bits((x.to_bits() as i64 + k as i64) as u64)
}

impl Sum {
    fn avg(&self) -> f64 {
        match self {
            Sum::Avg(a) => *a,
            Sum::Edge(k, e) => ulps((*k as f64 / 256.).powi(2), *e),
            Sum::Nan => f64::NAN,
            Sum::Inf => f64::INFINITY,
            Sum::NegInf => f64::NEG_INFINITY,
            Sum::NegZero => -0.,
            Sum::Tiny => f64::MIN_POSITIVE / 8.,
            Sum::Huge => 1e300,
        }
    }
    fn special(&self) -> bool {
        !matches!(self, Sum::Avg(a) if *a > 0. && *a < 1.)
    }
}

fn sum() -> BoxedStrategy<Sum> {
    prop_oneof![
        8 => (0.0..1.0f64).prop_map(Sum::Avg),
        3 => (0.0..1.0f64).prop_map(|x| Sum::Avg(x * x)),
        3 => (any::<u8>(), -3i32..4).prop_map(|(k, e)| Sum::Edge(k, e)),
        2 => (0.99..1.01f64).prop_map(Sum::Avg),
        2 => (-30.0..30.0f64).prop_map(|e| Sum::Avg(e.exp())),
        2 => (-30.0..30.0f64).prop_map(|e| Sum::Avg(-e.exp())),
        1 => (0u32..4).prop_map(|k| Sum::Avg(k as f64)),
        1 => Just(Sum::Nan),
        1 => Just(Sum::Inf),
        1 => Just(Sum::NegInf),
        1 => Just(Sum::NegZero),
        1 => Just(Sum::Tiny),
        1 => Just(Sum::Huge),
    ]
    .boxed()
}

fn count() -> BoxedStrategy<u32> {
    prop_oneof![2 => Just(1u32), 4 => 2u32..100, 2 => 100u32..100_000, 1 => any::<u32>().prop_map(|n| n.max(1)), 1 => Just(u32::MAX)]
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pixel {
    c: [Sum; 3],
    n: u32,
    m: u32,
    other: [Sum; 3],
}

/// the bytes that average may become: two at the edge between them
fn bytes(avg: f64) -> (u8, u8) {
    if avg.is_nan() || avg <= 0. {
        return (0, 0);
    }
    if avg >= 1. {
        return (255, 255);
    }
    let x = avg.sqrt() * 256.;
    let at = |x: f64| x.floor().clamp(0., 255.) as u8;
    (at(x * (1. - 1e-13)), at(x * (1. + 1e-13)))
}

fn check_pixel(s: &Pixel, obs: &mut Obs) -> Res {
    let avg = s.c.map(|c| c.avg());
    let sums = |n: u32| mul(avg, n as f64);
    let got = to_rgb_color(sv(sums(s.n)), s.n).0;
    for i in 0..3 {
        let (lo, hi) = bytes(avg[i]);
        ensure!(
            got[i] == lo || got[i] == hi,
            "average {} over {} samples becomes {}, not {lo}{}",
            avg[i],
            s.n,
            got[i],
            if hi != lo { format!(" or {hi}") } else { String::new() }
        );
        let f = rv(to_float(sv(sums(s.n)), s.n))[i];
        if !avg[i].is_nan() && avg[i] >= 0. {
            let want = avg[i].sqrt().min(1.);
            ensure!((f - want).abs() < 1.1e-3, "average {} becomes intensity {f}", avg[i]);
            if want < 0.998 {
                ensure!((f - want).abs() < 1e-12, "average {} becomes intensity {f}", avg[i]);
            }
        } else {
            ensure!(f.is_nan() || f <= 0., "average {} becomes intensity {f}", avg[i]);
        }
        // the other channels do not matter
        let mut mixed = sums(s.n);
        for j in 0..3 {
            if j != i {
                mixed[j] = s.other[j].avg() * s.n as f64;
            }
        }
        let with = to_rgb_color(sv(mixed), s.n).0[i];
        ensure!(with == got[i], "channel {i} is {} or {with} depending on the others", got[i]);
    }
    // all channels are treated alike
    let q = sums(s.n);
    let turned = to_rgb_color(sv([q[2], q[0], q[1]]), s.n).0;
    for i in 0..3 {
        let (lo, hi) = bytes(avg[i]);
        let t = turned[(i + 1) % 3];
        ensure!(t == got[i] || t == lo || t == hi, "{got:?} but {turned:?} with the channels turned around");
    }
    // other sample counts
    let again = to_rgb_color(sv(sums(s.m)), s.m).0;
    for i in 0..3 {
        let (lo, hi) = bytes(avg[i]);
        ensure!(again[i] == lo || again[i] == hi, "average {} is {} with {} samples, {} with {}", avg[i], got[i], s.n, again[i], s.m);
    }
    obs.nontrivial_if(got.iter().any(|b| *b > 0 && *b < 255));
    if s.c.iter().any(|c| c.special()) {
        obs.label("special");
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pair {
    a: Sum,
    b: Sum,
    near: Option<i32>,
    n: u32,
}

fn check_order(s: &Pair, obs: &mut Obs) -> Res {
    let n = s.n as f64;
    let a = s.a.avg() * n;
    let b = match s.near {
        Some(k) if a.is_finite() && a.is_normal() => ulps(a, k),
        _ => s.b.avg() * n,
    };
    if a.is_nan() || b.is_nan() {
        return Ok(());
    }
    let (a, b) = if a <= b { (a, b) } else { (b, a) };
    let byte = |x: f64| to_rgb_color(sv([x; 3]), s.n).0;
    let (x, y) = (byte(a), byte(b));
    for i in 0..3 {
        ensure!(x[i] <= y[i], "{a} over {} samples becomes {}, the brighter {b} becomes {}", s.n, x[i], y[i]);
    }
    obs.nontrivial_if(a > 0. && a < n);
    Ok(())
}

fn check_back(s: &([u8; 3], u32), obs: &mut Obs) -> Res {
    let (b, n) = s;
    let c = rv(rgb_to_vec3(&Rgb(*b)));
    for i in 0..3 {
        ensure!((c[i] - b[i] as f64 / 255.).abs() < 1e-12, "byte {} becomes {}", b[i], c[i]);
    }
    let back = to_rgb_color(sv(mul(had(c, c), *n as f64)), *n).0;
    ensure!(back == *b, "bytes {b:?} become {back:?} by way of {c:?}");
    obs.nontrivial();
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Picture {
    w: u32,
    h: u32,
    n: u32,
    px: Vec<[Sum; 3]>,
}

fn picture() -> BoxedStrategy<Picture> {
    (1u32..9, 1u32..9, count())
        .prop_flat_map(|(w, h, n)| {
            prop::collection::vec([sum(), sum(), sum()], (w * h) as usize).prop_map(move |px| Picture { w, h, n, px })
        })
        .boxed()
}

/// large pictures that repeat a few colours
fn large() -> BoxedStrategy<Picture> {
    let size = prop_oneof![
        2 => (60u32..700, 60u32..500),
        1 => (1000u32..70_000, 1u32..4),
        1 => (1u32..4, 1000u32..70_000),
    ];
    (size, count(), prop::collection::vec([sum(), sum(), sum()], 2..12), 1u32..60)
        .prop_map(|((w, h), n, palette, step)| {
            let k = palette.len() as u32;
            let px = (0..w * h).map(|i| palette[((i + i / w * step + i / (7 + step) * 3) % k) as usize].clone()).collect();
            Picture { w, h, n, px }
        })
        .boxed()
}

fn check_picture(s: &Picture, obs: &mut Obs) -> Res {
    let cols: Vec<_> = s.px.iter().map(|p| sv(mul(p.map(|c| c.avg()), s.n as f64))).collect();
    let guides = vec![sv([0.3; 3]); cols.len()];
    let img = NopPostProcessor::new()
        .post_process(&cols, &guides, &guides, s.w, s.h, s.n)
        .map_err(|e| e.to_string())?;
    ensure!(img.dimensions() == (s.w, s.h), "image of size {:?} instead of {}x{}", img.dimensions(), s.w, s.h);
    for y in 0..s.h {
        for x in 0..s.w {
            let i = (y * s.w + x) as usize;
            let want = to_rgb_color(cols[i], s.n);
            let got = *img.get_pixel(x, y);
            ensure!(got == want, "pixel {x},{y} of {}x{} is {got:?}, not {want:?}", s.w, s.h);
            for k in 0..3 {
                let (lo, hi) = bytes(s.px[i][k].avg());
                ensure!(got.0[k] == lo || got.0[k] == hi, "pixel {x},{y} is {got:?} for average {:?}", s.px[i]);
            }
        }
    }
    obs.nontrivial_if(s.w > 1 && s.h > 1);
    Ok(())
}

fn main() {
    run_main(
        "P23",
        || {
            vec![
                facet(
                    "colour to bytes",
                    "a byte between 1 and 254",
                    1_200_000,
                    40_000_000,
                    ([sum(), sum(), sum()], count(), count(), [sum(), sum(), sum()])
                        .prop_map(|(c, n, m, other)| Pixel { c, n, m, other }),
                    check_pixel,
                ),
                facet(
                    "order",
                    "the darker one between black and white",
                    1_500_000,
                    40_000_000,
                    (sum(), sum(), prop::option::of(-4i32..5), count()).prop_map(|(a, b, near, n)| Pair { a, b, near, n }),
                    check_order,
                ),
                facet("bytes to colour and back", "always", 500_000, 8_000_000, (any::<[u8; 3]>(), count()), check_back),
                facet("pictures", "more than one row and column", 100_000, 2_000_000, picture(), check_picture),
                facet("large pictures", "more than one row and column", 120, 2_400, large(), check_picture),
            ]
        },
        &["averages within one part in 10^13 of the edge between two bytes may become either"],
    )
}
