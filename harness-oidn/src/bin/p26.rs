//! P26: the denoiser gets the rendered colours and guides and its result is delivered.
use harness::ensure;
use harness::fw::*;
use harness::geo::*;
use harness::scene::*;
use harness::spec::*;
use image::RgbImage;
use oidn::{Answer, Call, ANSWER, CALLS};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solstrale::camera::CameraConfig;
use solstrale::geo::transformation::NopTransformer;
use solstrale::hittable::{Bvh, Hittables, Quad, Sphere};
use solstrale::post::{BloomPostProcessor, NopPostProcessor, OidnPostProcessor, PostProcessor, PostProcessors};
use solstrale::renderer::shader::{AlbedoShader, PathTracingShader, Shaders};
use solstrale::renderer::RenderImageStrategy;

/// what is seen at one pixel
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Patch {
    Nothing,
    /// depths of three corners, whether turned around, and material
    Wall([f64; 3], bool, Mat),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Before {
    Nop,
    Bloom(f64, f64),
}

impl Before {
    fn build(&self) -> PostProcessors {
        match self {
            Before::Nop => NopPostProcessor::new(),
            Before::Bloom(f, t) => BloomPostProcessor::new(*f, Some(*t), None).unwrap(),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    w: usize,
    h: usize,
    n: u32,
    patches: Vec<Patch>,
    bg: V3,
    before: Vec<Before>,
    tracing: bool,
    every: bool,
    c: f64,
    threads: usize,
    answer: bool,
}

fn patch() -> BoxedStrategy<Patch> {
    let m = prop_oneof![
        3 => color(1.).prop_map(Mat::Matte),
        1 => (color(1.), 0.0..1.0f64).prop_map(|(c, f)| Mat::Metal(c, f)),
        1 => (color(1.), 1.0..2.0f64).prop_map(|(c, i)| Mat::Glass(c, i)),
        2 => color(1.5).prop_map(|c| Mat::Light(c, None)),
    ];
    prop_oneof![
        1 => Just(Patch::Nothing),
        5 => ([0.95..1.05f64, 0.95..1.05f64, 0.95..1.05f64], any::<bool>(), m).prop_map(|(d, t, m)| Patch::Wall(d, t, m)),
    ]
    .boxed()
}

fn before() -> BoxedStrategy<Before> {
    prop_oneof![1 => Just(Before::Nop), 1 => (0.0..0.5f64, 0.1..2.0f64).prop_map(|(f, t)| Before::Bloom(f, t))].boxed()
}

fn case() -> BoxedStrategy<Case> {
    (1usize..8, 1usize..7, prop_oneof![5 => Just(1u32), 10 => 2u32..7, 3 => 7u32..40, 1 => 40u32..200])
        .prop_flat_map(|(w, h, n)| {
            (
                Just((w, h, n)),
                prop::collection::vec(patch(), w * h),
                color(1.2),
                prop::collection::vec(before(), 0..3),
                (prop::bool::weighted(0.3), any::<bool>(), 0.26..0.74f64, 1usize..5, any::<bool>()),
            )
        })
        .prop_map(|((w, h, n), patches, bg, before, (tracing, every, c, threads, answer))| Case {
            w,
            h,
            n,
            patches,
            bg,
            before,
            tracing,
            every,
            c,
            threads,
            answer,
        })
        .boxed()
}

/// large images that repeat a few patches
fn large() -> BoxedStrategy<Case> {
    (100usize..260, 90usize..190, 1u32..4, prop::collection::vec(patch(), 1..12), color(1.2), 0usize..50)
        .prop_flat_map(|(w, h, n, palette, bg, step)| {
            // flatter than small ones, or boxes around the patches overlap a lot
            let palette: Vec<Patch> = palette
                .into_iter()
                .map(|p| match p {
                    Patch::Wall(d, t, m) => Patch::Wall(d.map(|d| 1. + (d - 1.) * 0.05), t, m),
                    p => p,
                })
                .collect();
            let few = prop::collection::vec(prop_oneof![1 => Just(Before::Nop), 1 => (0.0..0.02f64, 0.1..2.0f64).prop_map(|(f, t)| Before::Bloom(f, t))], 0..2);
            let patches: Vec<Patch> = (0..w * h).map(|i| palette[(i + i / w * step + i * i / (7 + step)) % palette.len()].clone()).collect();
            (Just((w, h, n)), Just(patches), Just(bg), few, (any::<bool>(), 0.26..0.74f64, 1usize..9, any::<bool>()))
        })
        .prop_map(|((w, h, n), patches, bg, before, (every, c, threads, answer))| Case {
            w,
            h,
            n,
            patches,
            bg,
            before,
            tracing: false,
            every,
            c,
            threads,
            answer,
        })
        .boxed()
}

fn color_of(m: &Mat) -> V3 {
    match m {
        Mat::Matte(c) | Mat::Metal(c, _) | Mat::Glass(c, _) | Mat::Light(c, _) => *c,
        Mat::Blend(a, ..) => color_of(a),
    }
}

/// the world, and for every pixel its surface colour and normal
fn world(s: &Case) -> (Hittables, Vec<(V3, V3)>) {
    let t = 25f64.to_radians().tan();
    let aspect = s.w as f64 / s.h as f64;
    let (kw, kh) = ((s.w.max(2) - 1) as f64, (s.h.max(2) - 1) as f64);
    let on = |x: f64, y: f64| [(2. * x / kw - 1.) * t * aspect, (2. * y / kh - 1.) * t, -1.];
    let mut list = vec![Sphere::new(sv([0., 0., 50.]), 1., Mat::Light([1.; 3], None).build())];
    let mut guides = vec![];
    for (i, p) in s.patches.iter().enumerate() {
        let (x, y) = ((i % s.w) as f64, (s.h - 1 - i / s.w) as f64);
        match p {
            Patch::Nothing => guides.push((s.bg, [0.; 3])),
            Patch::Wall(d, turn, m) => {
                let q = mul(on(x, y), d[0]);
                let u = sub(mul(on(x + 1., y), d[1]), q);
                let v = sub(mul(on(x, y + 1.), d[2]), q);
                let (u, v) = if *turn { (v, u) } else { (u, v) };
                list.push(Quad::new(sv(q), sv(u), sv(v), m.build(), &NopTransformer()));
                let n = unit(cross(u, v));
                let back = dot(n, on(x + 0.5, y + 0.5)) > 0.;
                // flat lights shine from their front only
                let c = if back && m.is_light() { [0.; 3] } else { color_of(m) };
                guides.push((c, if back { neg(n) } else { n }));
            }
        }
    }
    (Bvh::new(list), guides)
}

fn shot(s: &Case, world: &Hittables, shader: Shaders, post: Vec<PostProcessors>) -> Shot {
    Shot {
        world: world.clone(),
        camera: CameraConfig { look_at: sv([0., 0., -1.]), ..CameraConfig::default() },
        bg: s.bg,
        shader,
        w: s.w,
        h: s.h,
        samples: s.n,
        post,
        strategy: if s.every { RenderImageStrategy::EverySample } else { RenderImageStrategy::OnlyFinal },
    }
}

fn odd_answer(i: usize, c: f32) -> f32 {
    let k = mix(i as u64 ^ (c.to_bits() as u64) << 20);
    match k % 16 {
        0 => 0.,
        1 => 1.,
        2 => -0.3,
        3 => 1.7,
        _ => (k >> 8 & 0xffff) as f32 / 65536.,
    }
}

fn byte(v: f64) -> (u8, u8) {
    let at = |x: f64| x.floor().clamp(0., 255.) as u8;
    let x = v * 256.;
    (at(x - 1e-3), at(x + 1e-3))
}

fn gamma(v: f64) -> f64 {
    v.max(0.).sqrt().min(1.)
}

/// largest difference of what the denoiser got from these values
fn off(got: &[f32], want: &[f64]) -> f64 {
    got.iter().zip(want).map(|(g, w)| { let d = (*g as f64 - w).abs(); if d.is_nan() { f64::INFINITY } else { d } }).fold(0., f64::max)
}

fn flat(v: &[V3]) -> Vec<f64> {
    v.iter().flatten().copied().collect()
}

fn short<T: std::fmt::Debug>(v: &[T]) -> String {
    format!("{:?}{}", &v[..v.len().min(60)], if v.len() > 60 { " ..." } else { "" })
}

const TOL: f64 = 1.2e-3;

fn judge_call(s: &Case, call: &Call, colors: Option<&[V3]>, guides: &[(V3, V3)]) -> Res {
    let k = s.w * s.h;
    ensure!((call.width, call.height) == (s.w, s.h), "the denoiser is told {}x{}, not {}x{}", call.width, call.height, s.w, s.h);
    ensure!(!call.hdr, "clamped colours are announced as high dynamic range");
    ensure!(call.color.len() == 3 * k, "{} colour values", call.color.len());
    if let Some(c) = colors {
        let want: Vec<f64> = flat(c).into_iter().map(|v| if call.srgb { gamma(v) } else { v.clamp(0., 1.) }).collect();
        let d = off(&call.color, &want);
        ensure!(d < TOL, "the denoiser gets colours that differ by {d} from the averages {}: {}", short(c), short(&call.color));
    }
    let albedo = call.albedo.as_ref().ok_or("no albedo")?;
    let normal = call.normal.as_ref().ok_or("no normals")?;
    ensure!(albedo.len() == 3 * k && normal.len() == 3 * k, "{} and {} guide values", albedo.len(), normal.len());
    // colour guides in the encoding of the colours, or as they are
    let plain: Vec<f64> = guides.iter().flat_map(|g| g.0).map(|v| v.clamp(0., 1.)).collect();
    let coded: Vec<f64> = plain.iter().map(|v| gamma(*v)).collect();
    let unclamped: Vec<f64> = guides.iter().flat_map(|g| g.0).collect();
    let d = off(albedo, &coded).min(off(albedo, &plain)).min(off(albedo, &unclamped));
    ensure!(d < TOL, "the denoiser gets surface colours {}, not {}", short(albedo), short(&coded));
    let want: Vec<f64> = guides.iter().flat_map(|g| g.1).collect();
    let d = off(normal, &want);
    ensure!(d < TOL, "the denoiser gets normals {}, not {}", short(normal), short(&want));
    Ok(())
}

fn check(s: &Case, obs: &mut Obs) -> Res {
    std::env::set_var("RAYON_NUM_THREADS", s.threads.to_string());
    fastrand::ctl::constant(s.c);
    let (world, guides) = world(s);
    let shader = || if s.tracing { PathTracingShader::new(4) } else { AlbedoShader::new() };
    *ANSWER.lock().unwrap() = if s.answer { Answer::Map(odd_answer) } else { Answer::Copy };
    CALLS.lock().unwrap().clear();
    let mut post: Vec<_> = s.before.iter().map(|b| b.build()).collect();
    post.push(OidnPostProcessor::new());
    let got: Vec<RgbImage> = shot(s, &world, shader(), post).run()?.into_iter().filter_map(|m| m.render_image).collect();
    let calls = CALLS.lock().unwrap().clone();
    let images = if s.every { s.n as usize } else { 1 };
    ensure!(got.len() == images, "{} images instead of {images}", got.len());
    ensure!(calls.len() == images, "{} calls of the denoiser for {images} images", calls.len());
    // what it looks like without the denoiser
    let post: Vec<_> = s.before.iter().map(|b| b.build()).collect();
    let plain: Vec<RgbImage> = shot(s, &world, shader(), post).run()?.into_iter().filter_map(|m| m.render_image).collect();
    let zero = vec![sv([0.; 3]); guides.len()];
    for (k, call) in calls.iter().enumerate() {
        let samples = if s.every { k as u32 + 1 } else { s.n };
        let colors = if s.tracing {
            None
        } else {
            let mut sums = zero.clone();
            for _ in 0..samples {
                sums.iter_mut().zip(&guides).for_each(|(t, g)| *t += sv(g.0));
            }
            for b in &s.before {
                sums = b
                    .build()
                    .intermediate_post_process(&sums, &zero, &zero, s.w as u32, s.h as u32, samples)
                    .map_err(|e| e.to_string())?;
            }
            Some(sums.into_iter().map(|c| mul(rv(c), 1. / samples as f64)).collect::<Vec<_>>())
        };
        judge_call(s, call, colors.as_deref(), &guides)?;
        let img = &got[k];
        ensure!(img.dimensions() == (s.w as u32, s.h as u32), "image of size {:?}", img.dimensions());
        for (i, v) in call.color.iter().enumerate() {
            let out = if s.answer { odd_answer(i, *v) } else { *v };
            let (x, y) = ((i / 3 % s.w) as u32, (i / 3 / s.w) as u32);
            let p = img.get_pixel(x, y)[i % 3];
            let (lo, hi) = byte(out as f64);
            ensure!(p == lo || p == hi, "pixel {x},{y} channel {} is {p}, the denoiser returned {out}", i % 3);
            if !s.answer {
                let q = plain[k].get_pixel(x, y)[i % 3];
                ensure!(p.abs_diff(q) <= 1, "pixel {x},{y} channel {} is {p}, without denoising {q}", i % 3);
            }
        }
    }
    obs.label(if s.tracing { "path tracing" } else { "flat" });
    if s.patches.iter().any(|p| matches!(p, Patch::Nothing)) {
        obs.label("background seen");
    }
    obs.nontrivial_if(s.patches.iter().any(|p| matches!(p, Patch::Wall(..))));
    Ok(())
}

// ---------------------------------------------------------------- errors

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bad {
    case: Case,
    after: Vec<Before>,
    twice: bool,
    text: String,
    device: bool,
}

fn check_bad(s: &Bad, obs: &mut Obs) -> Res {
    let c = &s.case;
    std::env::set_var("RAYON_NUM_THREADS", c.threads.to_string());
    fastrand::ctl::constant(c.c);
    let (world, _) = world(c);
    CALLS.lock().unwrap().clear();
    *ANSWER.lock().unwrap() = if s.device { Answer::DeviceError(s.text.clone()) } else { Answer::Copy };
    let mut post: Vec<_> = c.before.iter().map(|b| b.build()).collect();
    post.push(OidnPostProcessor::new());
    post.extend(s.after.iter().map(|b| b.build()));
    if s.twice {
        post.push(OidnPostProcessor::new());
    }
    let misplaced = s.twice || !s.after.is_empty();
    let r = shot(c, &world, AlbedoShader::new(), post).run();
    *ANSWER.lock().unwrap() = Answer::Copy;
    match r {
        Ok(_) => {
            ensure!(!misplaced, "the denoiser is used before the last place without error");
            ensure!(!s.device, "the denoiser's error {:?} is lost", s.text);
        }
        Err(e) => {
            ensure!(misplaced || s.device, "denoising fails: {e}");
            if misplaced {
                ensure!(!e.is_empty(), "an error without text");
            } else {
                ensure!(e.contains(&s.text), "the denoiser's error {:?} becomes {e:?}", s.text);
            }
        }
    }
    obs.label(if misplaced { "misplaced" } else if s.device { "device error" } else { "fine" });
    obs.nontrivial_if(misplaced || s.device);
    Ok(())
}

// ---------------------------------------------------------------- one processor for several renderings

fn check_again(s: &Vec<Case>, obs: &mut Obs) -> Res {
    let kept = OidnPostProcessor::new();
    let mut sizes = vec![];
    for (i, c) in s.iter().enumerate() {
        std::env::set_var("RAYON_NUM_THREADS", c.threads.to_string());
        fastrand::ctl::constant(c.c);
        let (world, guides) = world(c);
        *ANSWER.lock().unwrap() = if c.answer { Answer::Map(odd_answer) } else { Answer::Copy };
        CALLS.lock().unwrap().clear();
        let got: Vec<RgbImage> = shot(c, &world, AlbedoShader::new(), vec![kept.clone()]).run()?.into_iter().filter_map(|m| m.render_image).collect();
        let calls = CALLS.lock().unwrap().clone();
        *ANSWER.lock().unwrap() = Answer::Copy;
        let images = if c.every { c.n as usize } else { 1 };
        ensure!(got.len() == images && calls.len() == images, "{} images and {} calls of the denoiser instead of {images} in rendering {}", got.len(), calls.len(), i + 1);
        let colors: Vec<V3> = guides.iter().map(|g| g.0).collect();
        for (call, img) in calls.iter().zip(&got) {
            judge_call(c, call, Some(&colors), &guides).map_err(|e| format!("rendering {} with one denoiser: {e}", i + 1))?;
            for (j, v) in call.color.iter().enumerate() {
                let out = if c.answer { odd_answer(j, *v) } else { *v };
                let p = img.get_pixel((j / 3 % c.w) as u32, (j / 3 / c.w) as u32)[j % 3];
                let (lo, hi) = byte(out as f64);
                ensure!(p == lo || p == hi, "pixel {} channel {} is {p} in rendering {}, the denoiser returned {out}", j / 3, j % 3, i + 1);
            }
        }
        sizes.push((c.w, c.h));
    }
    obs.nontrivial_if(sizes.iter().any(|z| *z != sizes[0]));
    Ok(())
}

fn main() {
    run_main(
        "P26",
        || {
            vec![
                facet("colours and guides", "something seen", 12_000, 300_000, case(), check),
                facet("large images", "something seen", 30, 600, large(), check),
                facet(
                    "used again",
                    "renderings of different sizes",
                    3_000,
                    60_000,
                    prop::collection::vec((case(), 1u32..5).prop_map(|(c, n)| Case { n, before: vec![], tracing: false, ..c }), 2..4),
                    check_again,
                ),
                facet(
                    "errors",
                    "a misplaced or failing denoiser",
                    8_000,
                    100_000,
                    (case(), prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(before(), 1..3)], prop::bool::weighted(0.2), "[a-z ]{0,12}", any::<bool>())
                        .prop_map(|(case, after, twice, text, device)| Bad { case, after, twice, text, device }),
                    check_bad,
                ),
            ]
        },
        &[
            "the denoiser library is a stand-in that records its arguments; Open Image Denoise itself is not there",
            "surface colours may be given as they are or encoded like the colours",
            "random numbers are constant, so all samples of a pixel see the same",
        ],
    )
}
