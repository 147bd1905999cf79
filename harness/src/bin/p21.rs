//! P21: progress is reported once per sample and images when promised.
use harness::ensure;
use harness::fw::*;
use harness::geo::*;
use harness::scene::*;
use harness::spec::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solstrale::camera::CameraConfig;
use solstrale::post::NopPostProcessor;
use solstrale::renderer::shader::PathTracingShader;
use solstrale::renderer::{RenderImageStrategy, RenderProgress, Renderer};
use std::sync::mpsc::channel;
use std::time::{Duration, Instant, SystemTime};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Strategy_ {
    Every,
    Interval(u64),
    Final,
}

impl Strategy_ {
    fn build(&self) -> RenderImageStrategy {
        match self {
            Strategy_::Every => RenderImageStrategy::EverySample,
            Strategy_::Interval(ns) => RenderImageStrategy::Interval(Duration::from_nanos(*ns)),
            Strategy_::Final => RenderImageStrategy::OnlyFinal,
        }
    }
}

fn strategy() -> BoxedStrategy<Strategy_> {
    prop_oneof![
        1 => Just(Strategy_::Every),
        1 => Just(Strategy_::Final),
        4 => prop_oneof![
            Just(0u64),
            1_000u64..30_000,
            30_000u64..1_000_000,
            1_000_000u64..30_000_000,
            Just(3_600_000_000_000u64),
            Just(u64::MAX)
        ].prop_map(Strategy_::Interval),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Run {
    strategy: Strategy_,
    w: usize,
    h: usize,
    n: u32,
    posts: usize,
    /// the rendering pauses for some time (in microseconds) at a draw of the random source
    pause: Option<(u64, u64)>,
    threads: usize,
    twice: bool,
}

fn run_case() -> BoxedStrategy<Run> {
    (
        strategy(),
        1usize..12,
        1usize..12,
        prop_oneof![1 => Just(0u32), 2 => Just(1u32), 6 => 2u32..30, 1 => 30u32..200],
        0usize..4,
        prop::option::weighted(0.4, (0u64..3000, 100u64..15_000)),
        1usize..5,
        (any::<bool>(), prop::option::weighted(0.1, (prop_oneof![200u32..3000, (7u32..12, 0u32..3).prop_map(|(k, d)| (1 << k) + d - 1)], 1usize..3, 1usize..3))),
    )
        .prop_map(|(strategy, w, h, n, posts, pause, threads, (twice, many))| {
            let (n, w, h) = many.unwrap_or((n, w, h));
            (strategy, w, h, n, posts, pause, threads, twice)
        })
        .prop_map(|(strategy, w, h, n, posts, pause, threads, twice)| Run { strategy, w, h, n, posts, pause, threads, twice })
        .boxed()
}

fn shot(strategy: Strategy_, w: usize, h: usize, n: u32, posts: usize) -> Shot {
    Shot {
        world: world_of(&[
            Obj::Sphere { c: [0., 0., -3.], r: 1., m: matte(0.7) },
            Obj::Sphere { c: [1., 3., -2.], r: 1., m: Mat::Light([2.; 3], None) },
        ]),
        camera: CameraConfig { look_at: sv([0., 0., -1.]), ..CameraConfig::default() },
        bg: [0.3, 0.2, 0.1],
        shader: PathTracingShader::new(5),
        w,
        h,
        samples: n,
        post: (0..posts).map(|_| NopPostProcessor::new()).collect(),
        strategy: strategy.build(),
    }
}

fn judge(s: &Run, got: &[RenderProgress], wall: f64, pause: f64, obs: &mut Obs) -> Res {
    ensure!(got.len() == s.n as usize, "{} messages for {} samples", got.len(), s.n);
    let mut before = 0.;
    let mut last_image: Option<f64> = None;
    for (i, m) in got.iter().enumerate() {
        let k = i as f64 + 1.;
        let n = s.n as f64;
        ensure!((m.progress - k / n).abs() < 1e-9, "progress {} reported for sample {k} of {n}", m.progress);
        if i + 1 == got.len() {
            ensure!(m.progress == 1., "progress {} at the end", m.progress);
            ensure!(m.estimated_time_left == Duration::ZERO, "time left {:?} at the end", m.estimated_time_left);
        }
        let Some(fps) = m.fps else { return Err(format!("no speed with sample {k}")) };
        ensure!(fps > 0. && fps.is_finite(), "speed {fps} with sample {k}");
        let elapsed = k / fps;
        ensure!(
            elapsed >= before - 1e-9 && elapsed <= wall + 1e-6,
            "speed {fps} after {k} samples stands for {elapsed} s, {before} s before, {wall} s in all"
        );
        if pause > 0. {
            ensure!(elapsed >= pause, "speed {fps} after {k} samples stands for {elapsed} s, but the first sample alone took {pause} s");
        }
        before = elapsed;
        let left = m.estimated_time_left.as_secs_f64();
        let want = (n - k) / fps;
        ensure!((left - want).abs() <= want * 1e-5 + 1e-7 * n, "time left {left} s at {fps} samples per second for {} samples", n - k);
        let image = m.render_image.is_some();
        if let Some(img) = &m.render_image {
            ensure!(img.dimensions() == (s.w as u32, s.h as u32), "image of size {:?}", img.dimensions());
        }
        match s.strategy {
            _ if i + 1 == got.len() => ensure!(image, "no image with the last message"),
            Strategy_::Every => ensure!(image, "no image with sample {k}"),
            Strategy_::Final => ensure!(!image, "image with sample {k} of {n}"),
            Strategy_::Interval(ns) => {
                let d = ns as f64 * 1e-9;
                if let Some(t) = last_image {
                    let since = elapsed - t;
                    // the rendering may look at the clock more than once per sample
                    let margin = if ns == 0 { 1e-7 } else { 2e-3 };
                    if (since - d).abs() > margin + since * 1e-9 {
                        obs.label(if since > d { "interval passed" } else { "interval not passed" });
                        ensure!(image == (since > d), "image {image} with sample {k}, {since} s after the last one, interval {d} s");
                    }
                }
            }
        }
        if image {
            last_image = Some(elapsed);
        }
    }
    Ok(())
}

fn check_run(s: &Run, obs: &mut Obs) -> Res {
    std::env::set_var("RAYON_NUM_THREADS", s.threads.to_string());
    let renderer = Renderer::new(shot(s.strategy, s.w, s.h, s.n, s.posts).scene()).map_err(|e| e.to_string())?;
    for _ in 0..1 + s.twice as usize {
        let (tx, rx) = channel();
        let (_keep, abort) = channel();
        // every sample draws at least two numbers per pixel
        let (at, us) = s.pause.unwrap_or((u64::MAX, 0));
        fastrand::ctl::count(
            u64::MAX,
            at,
            Some(Box::new(move || std::thread::sleep(Duration::from_micros(us)))),
        );
        let start = Instant::now();
        let r = renderer.render(&tx, &abort);
        let wall = start.elapsed().as_secs_f64();
        let _ = fastrand::ctl::stop_count();
        if let Err(e) = r {
            return Err(format!("rendering fails: {e}"));
        }
        drop(tx);
        let got: Vec<RenderProgress> = rx.iter().collect();
        let first = s.pause.filter(|(at, _)| *at < 2 * (s.w * s.h) as u64).map_or(0., |(_, us)| us as f64 * 1e-6);
        judge(s, &got, wall, first, obs)?;
    }
    obs.label(match s.strategy {
        Strategy_::Every => "every sample",
        Strategy_::Final => "only final",
        Strategy_::Interval(_) => "interval",
    });
    obs.nontrivial_if(s.n > 1);
    Ok(())
}

// ---------------------------------------------------------------- images show the samples so far

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Prefix {
    n: u32,
    w: usize,
    h: usize,
    posts: usize,
    seed: u64,
    final_: bool,
}

fn check_prefix(s: &Prefix, obs: &mut Obs) -> Res {
    std::env::set_var("RAYON_NUM_THREADS", "1");
    let run = |strategy, n| {
        fastrand::ctl::seeded(s.seed);
        shot(strategy, s.w, s.h, n, s.posts).run()
    };
    let all = run(Strategy_::Every, s.n)?;
    ensure!(all.len() == s.n as usize, "{} messages for {} samples", all.len(), s.n);
    let mut different = false;
    for k in 1..=s.n {
        let img = all[k as usize - 1].render_image.clone().ok_or("no image")?;
        let alone = run(if s.final_ { Strategy_::Final } else { Strategy_::Interval(0) }, k)?;
        let last = alone.last().and_then(|m| m.render_image.clone()).ok_or("no image at the end")?;
        if img != last {
            let p = img.enumerate_pixels().find(|(x, y, p)| last.get_pixel(*x, *y) != *p);
            return Err(format!("image with sample {k} of {} differs from the image of {k} samples, e.g. {p:?}", s.n));
        }
        different |= k > 1 && Some(&last) != all[0].render_image.as_ref();
    }
    obs.nontrivial_if(different);
    Ok(())
}

// ---------------------------------------------------------------- the decision itself

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Decide {
    strategy: Strategy_,
    sample: u32,
    total: u32,
    /// nanoseconds since the epoch
    last: u64,
    now: u64,
}

fn decide() -> BoxedStrategy<Decide> {
    (strategy(), prop_oneof![1u32..10, any::<u32>()], 0u32..5, any::<u32>(), 0u64..2_000_000_000_000_000_000, -3i64..4, -10_000_000_000i64..10_000_000_000)
        .prop_map(|(strategy, sample, more, far, last, near, by)| {
            let ns = if let Strategy_::Interval(ns) = strategy { ns } else { 1000 };
            // right at the end of the interval, or anywhere
            let now = if near < 3 { last as i128 + ns as i128 + near as i128 } else { last as i128 + by as i128 };
            let now = now.clamp(0, i64::MAX as i128) as u64;
            let total = if more == 4 { far.max(sample) } else { sample.saturating_add(more) };
            Decide { strategy, sample, total, last, now }
        })
        .boxed()
}

fn check_decide(s: &Decide, obs: &mut Obs) -> Res {
    let t = |ns: u64| SystemTime::UNIX_EPOCH + Duration::from_nanos(ns);
    let got = s.strategy.build().should_generate_image(s.sample, s.total, t(s.now), t(s.last));
    let want = match s.strategy {
        Strategy_::Every => true,
        Strategy_::Final => s.sample == s.total,
        Strategy_::Interval(ns) => s.sample == s.total || s.now.saturating_sub(s.last) > ns,
    };
    ensure!(got == want, "image: {got}, sample {} of {}, {} ns after the last one", s.sample, s.total, s.now as i128 - s.last as i128);
    obs.label(if want { "image" } else { "no image" });
    obs.nontrivial_if(matches!(s.strategy, Strategy_::Interval(_)));
    Ok(())
}

fn main() {
    run_main(
        "P21",
        || {
            vec![
                facet("messages", "more than one sample", 12_000, 120_000, run_case(), check_run),
                facet(
                    "samples so far",
                    "later images differ from the first",
                    2_400,
                    24_000,
                    (1u32..9, 1usize..8, 1usize..8, 0usize..3, any::<u64>(), any::<bool>())
                        .prop_map(|(n, w, h, posts, seed, final_)| Prefix { n, w, h, posts, seed, final_ }),
                    check_prefix,
                ),
                facet("decision", "an interval", 200_000, 4_000_000, decide(), check_decide),
            ]
        },
        &[
            "elapsed times are those the reported speed stands for, bounded by a clock outside and by pauses put into the rendering",
            "whether the first message has an image under an interval is not judged",
        ],
    )
}
