//! P22: rendering stops promptly and cleanly on abort or disconnect.
use harness::ensure;
use harness::fw::*;
use harness::geo::*;
use harness::scene::*;
use harness::spec::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solstrale::camera::CameraConfig;
use solstrale::post::{BloomPostProcessor, NopPostProcessor};
use solstrale::renderer::shader::{AlbedoShader, NormalShader, PathTracingShader, SimpleShader};
use solstrale::renderer::{RenderImageStrategy, RenderProgress, Renderer};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum What {
    /// this many abort signals are sent
    Abort(usize),
    /// an abort signal is sent and its sender goes away
    AbortAndLeave,
    /// the sender of abort signals goes away
    NoAborter,
    /// the receiver of progress goes away
    NoReceiver,
    /// the receiver of progress and the sender of abort signals go away
    Nobody,
    /// the receiver goes away and an abort signal is sent
    Both,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum When {
    Before,
    /// in this sample, at this share of its random numbers
    During(u32, f64),
    /// after rendering has had this many samples (so never, if there are fewer)
    AtLast,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    what: What,
    when: When,
    strategy: usize,
    shader: usize,
    scene: usize,
    w: usize,
    h: usize,
    n: u32,
    posts: Vec<bool>,
    threads: usize,
    c: f64,
    direct: bool,
    again: bool,
}

fn case() -> BoxedStrategy<Case> {
    let what = prop_oneof![
        4 => (1usize..4).prop_map(What::Abort),
        1 => Just(What::AbortAndLeave),
        2 => Just(What::NoAborter),
        3 => Just(What::NoReceiver),
        2 => Just(What::Nobody),
        1 => Just(What::Both),
    ];
    let when = prop_oneof![
        2 => Just(When::Before),
        8 => (0u32..12, 0.0..1.0f64).prop_map(|(k, f)| When::During(k, f)),
        2 => (0u32..12).prop_map(|k| When::During(k, 0.)),
        2 => (0u32..12).prop_map(|k| When::During(k, 0.9999999)),
        1 => Just(When::AtLast),
    ];
    (
        (what, when, 0usize..4, 0usize..4, 0usize..3),
        (1usize..10, 1usize..10, prop_oneof![1 => Just(1u32), 6 => 2u32..15, 1 => 15u32..60]),
        (prop::collection::vec(any::<bool>(), 0..3), 1usize..5, 0.26..0.74f64, any::<bool>(), prop::bool::weighted(0.2)),
    )
        .prop_map(|((what, when, strategy, shader, scene), (w, h, n), (posts, threads, c, direct, again))| {
            let when = match when {
                // most moments are within the rendering
                When::During(k, f) if k > n => When::During(k % n, f),
                w => w,
            };
            Case { what, when, strategy, shader, scene, w, h, n, posts, threads, c, direct, again }
        })
        .boxed()
}

/// many samples or many pixels
fn long() -> BoxedStrategy<Case> {
    let size = prop_oneof![
        5 => (1usize..3, 1usize..3, 60u32..900),
        1 => (1usize..3, 1usize..3, (6u32..11, 0u32..3).prop_map(|(k, d)| (1 << k) + d - 1)),
        2 => (1usize..3, 100usize..1500, 1u32..5),
        2 => (100usize..1500, 1usize..3, 1u32..5),
        1 => (20usize..60, 20usize..60, 1u32..5),
    ];
    (case(), size, 0.0..1.2f64, 0.0..1.0f64)
        .prop_map(|(c, (w, h, n), at, f)| {
            let when = match c.when {
                When::During(..) => When::During((at * n as f64) as u32, f),
                w => w,
            };
            Case { w, h, n, when, ..c }
        })
        .boxed()
}

impl Case {
    fn shot(&self, n: u32) -> Shot {
        let light = Obj::Sphere { c: [1., 3., -2.], r: 1., m: Mat::Light([2.; 3], None) };
        let objs = match self.scene {
            0 => vec![light],
            1 => vec![light, Obj::Sphere { c: [0., 0., -3.], r: 1., m: matte(0.7) }],
            _ => vec![
                light,
                Obj::Sphere { c: [0., 0., -3.], r: 1., m: Mat::Glass([1.; 3], 1.5) },
                Obj::Quad { q: [-5., -2., 0.], u: [10., 0., 0.], v: [0., 0., -10.], tf: vec![], m: Mat::Metal([0.8; 3], 0.) },
            ],
        };
        Shot {
            world: world_of(&objs),
            camera: CameraConfig { look_at: sv([0., 0., -1.]), ..CameraConfig::default() },
            bg: [0.3, 0.2, 0.1],
            shader: match self.shader {
                0 => PathTracingShader::new(5),
                1 => SimpleShader::new(),
                2 => AlbedoShader::new(),
                _ => NormalShader::new(),
            },
            w: self.w,
            h: self.h,
            samples: n,
            post: self
                .posts
                .iter()
                .map(|b| if *b { BloomPostProcessor::new(0.2, None, None).unwrap() } else { NopPostProcessor::new() })
                .collect(),
            strategy: match self.strategy {
                0 => RenderImageStrategy::EverySample,
                1 => RenderImageStrategy::OnlyFinal,
                2 => RenderImageStrategy::Interval(Duration::ZERO),
                _ => RenderImageStrategy::Interval(Duration::from_micros(50)),
            },
        }
    }
}

/// the caller's ends of the channels; what is `None` has gone away
struct Ends {
    rx: Option<Receiver<RenderProgress>>,
    abort: Option<Sender<bool>>,
    got: Vec<f64>,
    /// messages when it happened
    before: Option<usize>,
}

impl Ends {
    fn drain(&mut self) {
        if let Some(rx) = &self.rx {
            self.got.extend(rx.try_iter().map(|m| m.progress));
        }
    }
    fn strike(&mut self, what: What) {
        self.drain();
        self.before = Some(self.got.len());
        let signals = match what {
            What::Abort(k) => k,
            What::AbortAndLeave | What::Both => 1,
            _ => 0,
        };
        for _ in 0..signals {
            if let Some(a) = &self.abort {
                let _ = a.send(true);
            }
        }
        if matches!(what, What::AbortAndLeave | What::NoAborter | What::Nobody) {
            self.abort = None;
        }
        if matches!(what, What::NoReceiver | What::Nobody | What::Both) {
            self.rx = None;
        }
    }
}

fn check(s: &Case, obs: &mut Obs) -> Res {
    std::env::set_var("RAYON_NUM_THREADS", s.threads.to_string());
    // every sample of this rendering uses the same random numbers, so the same number of them
    fastrand::ctl::constant(s.c);
    fastrand::ctl::count(u64::MAX, u64::MAX, None);
    let plain = s.shot(1).run()?;
    let per = fastrand::ctl::stop_count();
    ensure!(plain.len() == 1, "{} messages for one sample", plain.len());
    ensure!(per > 0, "a rendering that uses no random numbers");
    let renderer = Renderer::new(s.shot(s.n).scene()).map_err(|e| e.to_string())?;
    for _ in 0..1 + s.again as usize {
        let (tx, rx) = channel();
        let (ab, abort) = channel();
        let ends = Arc::new(Mutex::new(Ends { rx: Some(rx), abort: Some(ab), got: vec![], before: None }));
        let at = match s.when {
            When::Before => {
                ends.lock().unwrap().strike(s.what);
                u64::MAX
            }
            When::During(k, f) => k as u64 * per + ((f * per as f64) as u64).min(per - 1),
            When::AtLast => s.n as u64 * per - 1,
        };
        let (e2, what) = (ends.clone(), s.what);
        fastrand::ctl::count(u64::MAX, at, Some(Box::new(move || e2.lock().unwrap().strike(what))));
        let r = guard(|| {
            if s.direct {
                renderer.render(&tx, &abort)
            } else {
                solstrale::ray_trace(s.shot(s.n).scene(), &tx, &abort)
            }
        });
        let draws = fastrand::ctl::stop_count();
        let r = r.map_err(|p| format!("rendering does not end cleanly: {p}"))?;
        let mut ends = ends.lock().unwrap();
        ends.drain();
        let got = &ends.got;
        for (i, p) in got.iter().enumerate() {
            let want = (i + 1) as f64 / s.n as f64;
            ensure!((p - want).abs() < 1e-9, "progress {p} reported instead of {want}");
        }
        let aborts = matches!(s.what, What::Abort(_) | What::AbortAndLeave | What::Both);
        let deaf = matches!(s.what, What::NoReceiver | What::Nobody | What::Both);
        let Some(before) = ends.before else {
            obs.label("after the end");
            ensure!(r.is_ok(), "an undisturbed rendering fails: {:?}", r.err().map(|e| e.to_string()));
            ensure!(got.len() == s.n as usize, "{} messages for {} samples", got.len(), s.n);
            continue;
        };
        let started = s.when != When::Before;
        obs.label(match (aborts, deaf) {
            (true, true) => "abort and no receiver",
            (true, false) => "abort",
            (false, true) => "no receiver",
            _ => "no aborter",
        });
        obs.nontrivial_if(started && s.n > 1);
        // the sample in progress may be finished, if one is
        let in_progress = if started { at / per + 1 } else { 1 };
        if aborts || deaf {
            ensure!(
                draws <= in_progress * per,
                "rendering carries on: {draws} random numbers used at {per} per sample, struck at {at}"
            );
        }
        match (aborts, deaf) {
            (_, true) => {
                if !aborts {
                    ensure!(r.is_err(), "rendering without a receiver ends without error");
                }
            }
            (true, false) => {
                ensure!(r.is_ok(), "an aborted rendering fails: {:?}", r.err().map(|e| e.to_string()));
                let most = before + started as usize;
                ensure!(got.len() <= most, "{} messages after an abort, {before} before", got.len() - before);
            }
            (false, false) => {
                ensure!(r.is_ok(), "a rendering nobody can abort fails: {:?}", r.err().map(|e| e.to_string()));
                ensure!(got.len() == s.n as usize, "{} messages for {} samples", got.len(), s.n);
            }
        }
    }
    Ok(())
}

fn main() {
    run_main(
        "P22",
        || vec![facet("interruptions", "struck while rendering more than one sample", 40_000, 500_000, case(), check), facet("long", "struck while rendering more than one sample", 5_000, 40_000, long(), check)],
        &[
            "interruptions happen at chosen draws of the random source, so anywhere within a sample but not within post processing",
            "abort signals are `true`",
            "when the receiver goes away and an abort arrives at the same time either result is accepted",
        ],
    )
}
