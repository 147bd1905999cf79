//! P25: post processors run in order on the averaged image.
use harness::ensure;
use harness::fw::*;
use harness::geo::*;
use harness::scene::*;
use harness::spec::*;
use image::RgbImage;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solstrale::camera::CameraConfig;
use solstrale::geo::transformation::NopTransformer;
use solstrale::geo::vec3::Vec3;
use solstrale::hittable::{Bvh, Hittables, Quad, Sphere};
use solstrale::post::{BloomPostProcessor, NopPostProcessor, OidnPostProcessor, PostProcessor, PostProcessors};
use solstrale::renderer::shader::{AlbedoShader, PathTracingShader, Shaders, SimpleShader};
use solstrale::renderer::RenderImageStrategy;
use std::time::Duration;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Post {
    Nop,
    /// does nothing when the denoiser is not built in
    Denoise,
    Bloom(f64, Option<f64>, Option<f64>),
}

impl Post {
    fn build(&self) -> PostProcessors {
        match self {
            Post::Nop => NopPostProcessor::new(),
            Post::Denoise => OidnPostProcessor::new(),
            Post::Bloom(f, t, m) => BloomPostProcessor::new(*f, *t, *m).unwrap(),
        }
    }
}

fn post() -> BoxedStrategy<Post> {
    prop_oneof![
        1 => Just(Post::Nop),
        1 => Just(Post::Denoise),
        5 => (0.0..0.5f64, prop::option::of(0.05..3.0f64), prop::option::of(0.05..3.0f64)).prop_map(|(f, t, m)| Post::Bloom(f, t, m)),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Chain {
    posts: Vec<Post>,
    w: usize,
    h: usize,
    n: u32,
    colors: Vec<V3>,
    strategy: usize,
    c: f64,
    threads: usize,
}

fn chain() -> BoxedStrategy<Chain> {
    (prop_oneof![4 => prop::collection::vec(post(), 0..5), 1 => prop::collection::vec(post(), 5..12)], 1usize..9, 1usize..8, prop_oneof![2 => 1u32..3, 4 => 3u32..12, 1 => 12u32..80])
        .prop_flat_map(|(posts, w, h, n)| {
            let px = prop_oneof![
                6 => [0.0..1.0f64, 0.0..1.0f64, 0.0..1.0f64],
                2 => [0.0..4.0f64, 0.0..4.0f64, 0.0..4.0f64],
                3 => [0.0..0.1f64, 0.0..0.1f64, 0.0..0.1f64],
            ];
            (Just(posts), Just(w), Just(h), Just(n), prop::collection::vec(px, w * h), 0usize..3, 0.26..0.74f64, 1usize..5)
        })
        .prop_map(|(posts, w, h, n, colors, strategy, c, threads)| Chain { posts, w, h, n, colors, strategy, c, threads })
        .boxed()
}

/// large images that repeat a few colours
fn large() -> BoxedStrategy<Chain> {
    let small = prop_oneof![
        1 => Just(Post::Nop),
        4 => (0.0..0.02f64, prop::option::of(0.05..3.0f64), prop::option::of(0.05..3.0f64)).prop_map(|(f, t, m)| Post::Bloom(f, t, m)),
    ];
    (prop::collection::vec(small, 0..4), 100usize..260, 90usize..190, 1u32..3, prop::collection::vec(color(1.5), 1..12), 0usize..50)
        .prop_flat_map(|(posts, w, h, n, palette, step)| {
            let colors: Vec<V3> = (0..w * h).map(|i| palette[(i + i / w * step + i * i / (7 + step)) % palette.len()]).collect();
            (Just(posts), Just(w), Just(h), Just(n), Just(colors), 0usize..3, 0.26..0.74f64, 1usize..9)
        })
        .prop_map(|(posts, w, h, n, colors, strategy, c, threads)| Chain { posts, w, h, n, colors, strategy, c, threads })
        .boxed()
}

/// patches of light, one behind every pixel
fn wall(s: &Chain) -> Hittables {
    let t = 25f64.to_radians().tan();
    let aspect = s.w as f64 / s.h as f64;
    let (kw, kh) = ((s.w.max(2) - 1) as f64, (s.h.max(2) - 1) as f64);
    let on = |x: f64, y: f64| [(2. * x / kw - 1.) * t * aspect, (2. * y / kh - 1.) * t, -1.];
    let mut list = vec![Sphere::new(sv([0., 0., 50.]), 1., Mat::Light([1.; 3], None).build())];
    for (i, c) in s.colors.iter().enumerate() {
        let (x, y) = ((i % s.w) as f64, (s.h - 1 - i / s.w) as f64);
        let q = on(x, y);
        let u = sub(on(x + 1., y), q);
        let v = sub(on(x, y + 1.), q);
        list.push(Quad::new(sv(q), sv(u), sv(v), Mat::Light(*c, None).build(), &NopTransformer()));
    }
    Bvh::new(list)
}

fn shot(world: &Hittables, shader: Shaders, w: usize, h: usize, n: u32, posts: &[Post], strategy: RenderImageStrategy) -> Shot {
    shot_with(world, shader, w, h, n, posts.iter().map(|p| p.build()).collect(), strategy)
}

fn shot_with(world: &Hittables, shader: Shaders, w: usize, h: usize, n: u32, post: Vec<PostProcessors>, strategy: RenderImageStrategy) -> Shot {
    Shot {
        world: world.clone(),
        camera: CameraConfig { look_at: sv([0., 0., -1.]), ..CameraConfig::default() },
        bg: [1.6, 0.9, 0.5],
        shader,
        w,
        h,
        samples: n,
        post,
        strategy,
    }
}

fn images(s: Shot) -> Result<Vec<Option<RgbImage>>, String> {
    Ok(s.run()?.into_iter().map(|m| m.render_image).collect())
}

fn first_difference(a: &RgbImage, b: &RgbImage) -> String {
    match a.enumerate_pixels().find(|(x, y, p)| b.get_pixel_checked(*x, *y) != Some(*p)) {
        Some((x, y, p)) => format!("pixel {x},{y} is {p:?} and {:?}", b.get_pixel_checked(x, y)),
        None => "different sizes".to_string(),
    }
}

/// all processors in order on these sums of samples, in units of averages
fn by_hand(posts: &[Post], sums: Vec<Vec3>, w: usize, h: usize, n: u32) -> Result<Vec<V3>, String> {
    let guides = vec![sv([0.; 3]); sums.len()];
    let mut px = sums;
    for p in posts {
        px = p.build().intermediate_post_process(&px, &guides, &guides, w as u32, h as u32, n).map_err(|e| e.to_string())?;
    }
    Ok(px.into_iter().map(|p| mul(rv(p), 1. / n as f64)).collect())
}

fn bytes(avg: f64) -> (u8, u8) {
    let at = |x: f64| (x.max(0.).sqrt() * 256.).floor().clamp(0., 255.) as u8;
    (at(avg * (1. - 1e-9)), at(avg * (1. + 1e-9)))
}

fn check_chain(s: &Chain, obs: &mut Obs) -> Res {
    std::env::set_var("RAYON_NUM_THREADS", s.threads.to_string());
    fastrand::ctl::constant(s.c);
    let world = wall(s);
    let strategy = match s.strategy {
        0 => RenderImageStrategy::EverySample,
        1 => RenderImageStrategy::OnlyFinal,
        _ => RenderImageStrategy::Interval(Duration::ZERO),
    };
    let got = images(shot(&world, AlbedoShader::new(), s.w, s.h, s.n, &s.posts, strategy))?;
    ensure!(got.len() == s.n as usize, "{} messages for {} samples", got.len(), s.n);
    let mut sums = vec![sv([0.; 3]); s.colors.len()];
    let mut seen = 0;
    for k in 1..=s.n {
        for (t, c) in sums.iter_mut().zip(&s.colors) {
            *t += sv(*c);
        }
        let Some(img) = &got[k as usize - 1] else { continue };
        seen += 1;
        ensure!(img.dimensions() == (s.w as u32, s.h as u32), "image of size {:?}", img.dimensions());
        let want = by_hand(&s.posts, sums.clone(), s.w, s.h, k)?;
        for (i, a) in want.iter().enumerate() {
            let (x, y) = ((i % s.w) as u32, (i / s.w) as u32);
            let p = img.get_pixel(x, y).0;
            for j in 0..3 {
                let (lo, hi) = bytes(a[j]);
                ensure!(
                    p[j] == lo || p[j] == hi,
                    "pixel {x},{y} after sample {k} of {} is {p:?}, the processors in order make it {a:?}, without them {:?}",
                    s.n,
                    s.colors[i]
                );
            }
        }
    }
    ensure!(seen > 0, "no image");
    let effect = s.posts.iter().filter(|p| matches!(p, Post::Bloom(..))).count();
    obs.label(format!("{} blooms", effect.min(3)));
    if effect > 1 {
        let mut back = s.posts.clone();
        back.reverse();
        let a = by_hand(&s.posts, sums.clone(), s.w, s.h, s.n)?;
        let b = by_hand(&back, sums, s.w, s.h, s.n)?;
        if a.iter().zip(&b).any(|(a, b)| dist(*a, *b) > 0.02) {
            obs.label("order matters");
            obs.nontrivial();
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- any scene

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Later {
    posts: Vec<Post>,
    w: usize,
    h: usize,
    n: u32,
    seed: u64,
    shader: usize,
    objs: Vec<Obj>,
}

fn later() -> BoxedStrategy<Later> {
    let obj = ([-2.0..2.0f64, -2.0..2.0f64, -5.0..-2.0f64], 0.2..1.0f64, any_mat()).prop_map(|(c, r, m)| Obj::Sphere { c, r, m });
    (prop_oneof![4 => prop::collection::vec(post(), 0..4), 1 => prop::collection::vec(post(), 4..10)], 1usize..9, 1usize..9, 1u32..9, any::<u64>(), 0usize..3, prop::collection::vec(obj, 0..5))
        .prop_map(|(posts, w, h, n, seed, shader, objs)| Later { posts, w, h, n, seed, shader, objs })
        .boxed()
}

fn check_later(s: &Later, obs: &mut Obs) -> Res {
    std::env::set_var("RAYON_NUM_THREADS", "1");
    let mut objs = vec![Obj::Sphere { c: [3., 3., -1.], r: 1., m: Mat::Light([4.; 3], None) }];
    objs.extend(s.objs.iter().cloned());
    let world = world_of(&objs);
    let shader = || match s.shader {
        0 => PathTracingShader::new(4),
        1 => SimpleShader::new(),
        _ => AlbedoShader::new(),
    };
    let run = |n: u32, posts: &[Post], strategy| {
        fastrand::ctl::seeded(s.seed);
        images(shot(&world, shader(), s.w, s.h, n, posts, strategy))
    };
    let last = |v: Vec<Option<RgbImage>>| v.into_iter().next_back().flatten().ok_or_else(|| "no image at the end".to_string());
    let every = run(s.n, &s.posts, RenderImageStrategy::EverySample)?;
    ensure!(every.len() == s.n as usize, "{} messages for {} samples", every.len(), s.n);
    for k in 1..=s.n {
        let img = every[k as usize - 1].clone().ok_or_else(|| format!("no image with sample {k}"))?;
        let alone = last(run(k, &s.posts, RenderImageStrategy::OnlyFinal)?)?;
        ensure!(img == alone, "image with sample {k} of {} differs from {k} samples without earlier images: {}", s.n, first_difference(&img, &alone));
    }
    // without processors that do anything it is the plain image
    let plain = last(run(s.n, &[], RenderImageStrategy::OnlyFinal)?)?;
    let idle: Vec<Post> = s.posts.iter().filter(|p| !matches!(p, Post::Bloom(..))).cloned().collect();
    let nop = last(run(s.n, &idle, RenderImageStrategy::EverySample)?)?;
    ensure!(plain == nop, "image with processors {idle:?} differs from the plain one: {}", first_difference(&nop, &plain));
    // and leaving out those that do nothing changes nothing
    let busy: Vec<Post> = s.posts.iter().filter(|p| matches!(p, Post::Bloom(..))).cloned().collect();
    let without = last(run(s.n, &busy, RenderImageStrategy::OnlyFinal)?)?;
    let with = every[s.n as usize - 1].clone().unwrap();
    ensure!(with == without, "image with processors {:?} differs from that with {busy:?}: {}", s.posts, first_difference(&with, &without));
    obs.nontrivial_if(with != plain && s.n > 1);
    obs.label(if with != plain { "visible" } else { "invisible" });
    Ok(())
}

// ---------------------------------------------------------------- the same processors for several renderings

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Again {
    posts: Vec<Post>,
    /// width, height, samples, colours, where the picture is like that of the one before, and shader
    runs: Vec<(usize, usize, u32, Vec<V3>, bool, bool)>,
    c: f64,
}

fn again() -> BoxedStrategy<Again> {
    let run = (1usize..12, 1usize..9, 1u32..6, prop::collection::vec(color(1.5), 1..9), prop::bool::weighted(0.2), any::<bool>());
    (prop::collection::vec(post(), 1..4), prop::collection::vec(run, 2..5), 0.26..0.74f64)
        .prop_map(|(posts, runs, c)| Again { posts, runs, c })
        .boxed()
}

fn check_again(s: &Again, obs: &mut Obs) -> Res {
    std::env::set_var("RAYON_NUM_THREADS", "2");
    fastrand::ctl::constant(s.c);
    let kept: Vec<PostProcessors> = s.posts.iter().map(|p| p.build()).collect();
    let mut before: Option<Chain> = None;
    let mut kept_world = None;
    for (i, (w, h, n, palette, like, every)) in s.runs.iter().enumerate() {
        let chain = match &before {
            // the very same world once more
            Some(b) if *like => b.clone(),
            _ => {
                let colors = (0..w * h).map(|i| palette[(i + i / w) % palette.len()]).collect();
                kept_world = None;
                Chain { posts: vec![], w: *w, h: *h, n: *n, colors, strategy: 0, c: s.c, threads: 2 }
            }
        };
        let world = kept_world.get_or_insert_with(|| wall(&chain)).clone();
        let strategy = || if *every { RenderImageStrategy::EverySample } else { RenderImageStrategy::OnlyFinal };
        let a = images(shot_with(&world, AlbedoShader::new(), chain.w, chain.h, *n, kept.clone(), strategy()))?;
        let b = images(shot(&wall(&chain), AlbedoShader::new(), chain.w, chain.h, *n, &s.posts, strategy()))?;
        ensure!(a.len() == b.len(), "{} messages with processors used before, {} with new ones", a.len(), b.len());
        for (k, (a, b)) in a.iter().zip(&b).enumerate() {
            match (a, b) {
                (Some(a), Some(b)) => ensure!(
                    a == b,
                    "image {} of rendering {} of {}x{} with processors used before differs from that with new ones: {}",
                    k + 1,
                    i + 1,
                    chain.w,
                    chain.h,
                    first_difference(a, b)
                ),
                (None, None) => {}
                _ => ensure!(false, "an image with sample {} only with processors used before or only with new ones", k + 1),
            }
        }
        obs.nontrivial_if(i > 0 && s.posts.iter().any(|p| matches!(p, Post::Bloom(f, ..) if *f * chain.w as f64 >= 1.)));
        before = Some(chain);
    }
    Ok(())
}

fn main() {
    run_main(
        "P25",
        || {
            vec![
                facet("in order", "the processors in reverse order give another image", 12_000, 300_000, chain(), check_chain),
                facet("large images", "the processors in reverse order give another image", 80, 2_000, large(), check_chain),
                facet("later images", "the processors change the image, more than one sample", 5_000, 120_000, later(), check_later),
                facet("used again", "blooms of a radius above zero in a second rendering", 6_000, 120_000, again(), check_again),
            ]
        },
        &[
            "the processors applied by hand are those of the repository, judged on their own by P23 and P24",
            "without the denoise feature the denoiser does nothing",
        ],
    )
}
