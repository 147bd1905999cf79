//! P20: each pixel is the average of its own samples, whatever the threads.
use harness::ensure;
use harness::fw::*;
use harness::geo::*;
use harness::scene::*;
use harness::spec::*;
use image::RgbImage;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solstrale::camera::CameraConfig;
use solstrale::geo::transformation::NopTransformer;
use solstrale::hittable::{Bvh, Hittables, Quad, Sphere};
use solstrale::renderer::shader::{AlbedoShader, NormalShader, PathTracingShader, Shaders, SimpleShader};
use solstrale::renderer::{RenderImageStrategy, Renderer};
use std::sync::mpsc::channel;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cam {
    from: V3,
    d: V3,
    dist: f64,
    roll: f64,
    fov: f64,
}

fn cam() -> BoxedStrategy<Cam> {
    (point(5.), dir(), logf(0.5, 20.), 0.0..std::f64::consts::TAU, 5.0..120.0f64)
        .prop_map(|(from, d, dist, roll, fov)| Cam { from, d, dist, roll, fov })
        .boxed()
}

impl Cam {
    fn up(&self) -> V3 {
        let (a, b, _) = basis(self.d);
        add(mul(a, self.roll.cos()), mul(b, self.roll.sin()))
    }
    fn config(&self) -> CameraConfig {
        CameraConfig {
            vertical_fov_degrees: self.fov,
            aperture_size: 0.,
            look_from: sv(self.from),
            look_at: sv(at(self.from, self.d, self.dist)),
            up: sv(self.up()),
        }
    }
    /// the point in focus at image coordinates u from left to right and v from bottom to top
    fn on_image(&self, w: usize, h: usize, u: f64, v: f64) -> V3 {
        let up = self.up();
        let right = cross(self.d, up);
        let t = (self.fov.to_radians() / 2.).tan();
        let aspect = w as f64 / h as f64;
        let p = add(self.d, add(mul(right, (2. * u - 1.) * t * aspect), mul(up, (2. * v - 1.) * t)));
        at(self.from, p, self.dist)
    }
    /// something seen at image columns x0..x1 and rows y0..y1 counted from the lower left, in pixels
    fn patch(&self, w: usize, h: usize, x: (f64, f64), y: (f64, f64), c: V3) -> Hittables {
        let (kw, kh) = ((w.max(2) - 1) as f64, (h.max(2) - 1) as f64);
        let q = self.on_image(w, h, x.0 / kw, y.0 / kh);
        let a = self.on_image(w, h, x.1 / kw, y.0 / kh);
        let b = self.on_image(w, h, x.0 / kw, y.1 / kh);
        Quad::new(sv(q), sv(sub(a, q)), sv(sub(b, q)), Mat::Matte(c).build(), &NopTransformer())
    }
    fn lamp(&self) -> Hittables {
        Sphere::new(sv(at(self.from, self.d, -5. * self.dist)), self.dist, Mat::Light([1.; 3], None).build())
    }
}

fn size() -> BoxedStrategy<usize> {
    prop_oneof![3 => Just(1usize), 2 => Just(2usize), 8 => 1usize..14, 2 => 14usize..40].boxed()
}

fn threads(n: usize) {
    std::env::set_var("RAYON_NUM_THREADS", n.to_string());
}

fn shoot(world: &Hittables, cam: &Cam, shader: Shaders, w: usize, h: usize, samples: u32) -> Result<RgbImage, String> {
    Shot {
        world: world.clone(),
        camera: cam.config(),
        bg: [0.; 3],
        shader,
        w,
        h,
        samples,
        post: vec![],
        strategy: RenderImageStrategy::OnlyFinal,
    }
    .image()
}

// ---------------------------------------------------------------- every pixel its own

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Chart {
    cam: Cam,
    w: usize,
    h: usize,
    samples: u32,
    threads: usize,
    seed: u64,
}

fn chart() -> BoxedStrategy<Chart> {
    (cam(), size(), size(), prop_oneof![4 => 1u32..6, 1 => 6u32..60], 1usize..9, any::<u64>())
        .prop_map(|(cam, w, h, samples, threads, seed)| Chart { cam, w, h, samples, threads, seed })
        .boxed()
}

fn byte(c: f64) -> f64 {
    (c.max(0.).sqrt() * 256.).min(255.)
}

fn check_chart(s: &Chart, obs: &mut Obs) -> Res {
    let color = |x: usize, y: usize| -> V3 {
        let k = mix(s.seed ^ mix((x * 1000 + y) as u64));
        [(k & 255) as f64 / 255., (k >> 8 & 255) as f64 / 255., (k >> 16 & 255) as f64 / 255.]
    };
    let mut list = vec![s.cam.lamp()];
    for x in 0..s.w {
        for y in 0..s.h {
            // rows of the image count from the top
            list.push(s.cam.patch(s.w, s.h, (x as f64, x as f64 + 1.), ((s.h - 1 - y) as f64, (s.h - y) as f64), color(x, y)));
        }
    }
    let world = Bvh::new(list);
    threads(s.threads);
    let mut wrong = vec![];
    for attempt in 0..3 {
        let img = shoot(&world, &s.cam, AlbedoShader::new(), s.w, s.h, s.samples);
        let img = match img {
            Ok(i) => i,
            Err(e) => return Err(e),
        };
        ensure!(img.width() as usize == s.w && img.height() as usize == s.h, "image of size {:?}", img.dimensions());
        wrong.clear();
        for (x, y, p) in img.enumerate_pixels() {
            let want = color(x as usize, y as usize);
            if (0..3).any(|k| {
                let b = byte(want[k]);
                // one ulp may tip a rounding
                p[k] as f64 != b.floor() && (p[k] as f64 - b).abs() > 1. + 1e-6
            }) {
                wrong.push((x, y, p.0, want.map(|c| byte(c) as u8)));
            }
        }
        // samples may touch the border of their pixel within rounding, once in 10^6
        if wrong.is_empty() {
            break;
        }
        if attempt == 2 || wrong.len() > 2 {
            return Err(format!(
                "{} of {} pixels have another colour than what is seen there, e.g. at {},{}: {:?} instead of {:?}",
                wrong.len(),
                s.w * s.h,
                wrong[0].0,
                wrong[0].1,
                wrong[0].2,
                wrong[0].3
            ));
        }
    }
    obs.label(match (s.w, s.h) {
        (1, 1) => "one pixel",
        (1, _) => "one column",
        (_, 1) => "one row",
        _ => "more rows and columns",
    });
    obs.nontrivial();
    Ok(())
}

// ---------------------------------------------------------------- spread and count of samples

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Spread {
    cam: Cam,
    w: usize,
    h: usize,
    samples: u32,
    threads: usize,
}

fn spread() -> BoxedStrategy<Spread> {
    (cam(), 1usize..7, 1usize..7, prop_oneof![2 => 1u32..16, 1 => 200u32..400], 1usize..9)
        .prop_map(|(cam, w, h, samples, threads)| Spread { cam, w, h, samples, threads })
        .boxed()
}

fn check_spread(s: &Spread, obs: &mut Obs) -> Res {
    let mut list = vec![s.cam.lamp()];
    for x in 0..s.w {
        for y in 0..s.h {
            for i in 0..2 {
                for j in 0..2 {
                    let (x, y) = (x as f64 + i as f64 * 0.5, y as f64 + j as f64 * 0.5);
                    list.push(s.cam.patch(s.w, s.h, (x, x + 0.5), (y, y + 0.5), [i as f64, j as f64, ((i + j) % 2) as f64]));
                }
            }
        }
    }
    let world = Bvh::new(list);
    threads(s.threads);
    let n = s.samples as f64;
    // shares seen by all pixels in all runs
    let mut sum = [0.; 3];
    let mut count = 0.;
    let mut odd = 0;
    for _ in 0..2 {
        let img = shoot(&world, &s.cam, AlbedoShader::new(), s.w, s.h, s.samples)?;
        for p in img.pixels() {
            for k in 0..3 {
                let b = p[k] as f64;
                // the share is a multiple of 1/n that gives this byte
                let lo = (b / 256.).powi(2) * n;
                let hi = if b >= 255. { n } else { ((b + 1.) / 256.).powi(2) * n };
                let m = if b >= 255. { n } else { hi.ceil() - 1. };
                if s.samples < 16 {
                    if m < lo - 1e-9 || (m + 1e-9) > hi + 1e-6 && b < 255. || lo > n + 1e-9 {
                        odd += 1;
                        continue;
                    }
                    sum[k] += m / n;
                } else {
                    let f = (lo + hi) * 0.5 / n;
                    // 7 standard deviations and the width of a byte
                    ensure!((f - 0.5).abs() < 7. * 0.5 / n.sqrt() + 0.006, "half of a pixel has a share of {f} of {n} samples (channel {k})");
                    sum[k] += f;
                }
            }
            count += 1.;
        }
    }
    // values that no whole number of equal samples gives; a sample may slip through a seam rarely
    ensure!(odd <= 1, "{odd} values are not averages of {n} equal samples");
    for k in 0..3 {
        let share = sum[k] / count;
        let sd = 0.5 / (n * count).sqrt();
        let tol = 7. * sd + if s.samples < 16 { 0.001 } else { 0.005 } + odd as f64 / count;
        ensure!((share - 0.5).abs() < tol, "halves of the pixels have a share of {share} of the samples (channel {k}, tolerance {tol})");
    }
    obs.label(if s.samples < 16 { "few samples" } else { "many samples" });
    obs.nontrivial();
    Ok(())
}

// ---------------------------------------------------------------- every sample for itself

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Each {
    cam: Cam,
    w: usize,
    h: usize,
    samples: u32,
    threads: usize,
}

fn each() -> BoxedStrategy<Each> {
    (cam(), 14usize..36, 14usize..36, 2u32..13, 1usize..9)
        .prop_map(|(cam, w, h, samples, threads)| Each { cam, w, h, samples, threads })
        .boxed()
}

fn check_each(s: &Each, obs: &mut Obs) -> Res {
    let mut list = vec![s.cam.lamp()];
    for x in 0..s.w {
        for y in 0..s.h {
            for (i, j) in [(0, 0), (0, 1), (1, 0), (1, 1)] {
                let (x, y) = (x as f64 + i as f64 * 0.5, y as f64 + j as f64 * 0.5);
                list.push(s.cam.patch(s.w, s.h, (x, x + 0.5), (y, y + 0.5), [i as f64, j as f64, ((i + j) % 2) as f64]));
            }
        }
    }
    threads(s.threads);
    let images: Vec<RgbImage> = Shot {
        world: Bvh::new(list),
        camera: s.cam.config(),
        bg: [0.; 3],
        shader: AlbedoShader::new(),
        w: s.w,
        h: s.h,
        samples: s.samples,
        post: vec![],
        strategy: RenderImageStrategy::EverySample,
    }
    .run()?
    .into_iter()
    .filter_map(|p| p.render_image)
    .collect();
    ensure!(images.len() == s.samples as usize, "{} images of {} samples", images.len(), s.samples);
    // in which halves each sample of each pixel lies; None if it slipped through a seam
    let mut sides: Vec<Vec<[Option<bool>; 3]>> = vec![];
    let mut before = vec![[0u32; 3]; s.w * s.h];
    for (n, img) in (1..).zip(&images) {
        let mut now = vec![];
        for (p, was) in img.pixels().zip(&mut before) {
            let mut side = [None; 3];
            for k in 0..3 {
                let m = (0..=n).min_by_key(|m| (byte(*m as f64 / n as f64).floor() as i32 - p[k] as i32).abs()).unwrap();
                let gap = (byte(m as f64 / n as f64).floor() as i32 - p[k] as i32).abs();
                side[k] = if gap > 1 || m < was[k] || m > was[k] + 1 { None } else { Some(m > was[k]) };
                was[k] = m;
            }
            now.push(side);
        }
        sides.push(now);
    }
    let odd = sides.iter().flatten().flatten().filter(|x| x.is_none()).count();
    ensure!(odd <= 12, "{odd} values are not averages of equal samples");
    // more evenly than by chance is fine
    let fair = |what: &str, n: usize, (yes, all): (usize, usize), more: bool| {
        let share = yes as f64 / all as f64;
        let tol = 7. * 0.5 / (all as f64).sqrt() + 12. / all as f64;
        ensure!(if more { share - 0.5 } else { (share - 0.5).abs() } < tol, "{what} have a share of {share} (sample {n}, tolerance {tol})");
        Ok(())
    };
    // shares of yes
    let count = |f: &mut dyn Iterator<Item = bool>| f.fold((0, 0), |(y, a), x| (y + x as usize, a + 1));
    for (n, now) in sides.iter().enumerate() {
        for k in 0..3 {
            let c = count(&mut now.iter().filter_map(|x| x[k]));
            fair(&format!("halves of the pixels in channel {k}"), n + 1, c, false)?;
            // neighbours on the row, and on the column
            for by in [1, s.w] {
                let c = count(&mut now.iter().zip(&now[by..]).filter_map(|(a, b)| Some(a[k]? == b[k]?)));
                fair(&format!("pixels with a sample in the same half as in the pixel {by} away, channel {k},"), n + 1, c, true)?;
            }
            // and earlier samples of the pixel
            for m in 0..n {
                let c = count(&mut now.iter().zip(&sides[m]).filter_map(|(a, b)| Some(a[k]? == b[k]?)));
                fair(&format!("pixels with a sample in the same half as sample {}, channel {k},", m + 1), n + 1, c, true)?;
            }
        }
    }
    obs.label(format!("{} samples", s.samples));
    obs.nontrivial();
    Ok(())
}

// ---------------------------------------------------------------- large images

/// An image with a long side, showing blocks of many pixels.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Large {
    cam: Cam,
    w: usize,
    h: usize,
    samples: u32,
    threads: usize,
    /// where blocks begin
    xs: Vec<usize>,
    ys: Vec<usize>,
    seed: u64,
    /// where in the pixels the samples lie if not anywhere
    calm: Option<f64>,
}

fn large() -> BoxedStrategy<Large> {
    let size = prop_oneof![
        3 => (200usize..5000, 1usize..6),
        3 => (1usize..6, 200usize..5000),
        2 => (200usize..1500, 6usize..40),
        2 => (6usize..40, 200usize..1500),
        1 => (200usize..500, 200usize..500),
    ];
    let cuts = || prop::collection::vec(0.0..1.0f64, 0..8);
    (cam(), size, 1u32..3, 1usize..9, (cuts(), cuts(), any::<u64>(), prop::option::of(0.1..0.9f64)))
        .prop_map(|(cam, (w, h), samples, threads, (xs, ys, seed, calm))| {
            let cut = |c: Vec<f64>, n: usize| {
                let mut v: Vec<usize> = c.iter().map(|f| (f * n as f64) as usize).collect();
                // the ends and powers of two are where things change
                v.extend([0, 1, n - 1]);
                v.extend((8..12).map(|k| 1 << k));
                v.retain(|x| *x < n);
                v.sort();
                v.dedup();
                v
            };
            Large { cam, w, h, samples, threads, xs: cut(xs, w), ys: cut(ys, h), seed, calm }
        })
        .boxed()
}

fn check_large(s: &Large, obs: &mut Obs) -> Res {
    let color = |i: usize, j: usize| -> V3 {
        let k = mix(s.seed ^ mix((i * 1000 + j) as u64));
        [(k & 255) as f64 / 255., (k >> 8 & 255) as f64 / 255., (k >> 16 & 255) as f64 / 255.]
    };
    let end = |v: &[usize], i: usize, n: usize| v.get(i + 1).copied().unwrap_or(n);
    let mut list = vec![s.cam.lamp()];
    for (i, x) in s.xs.iter().enumerate() {
        for (j, y) in s.ys.iter().enumerate() {
            let x = (*x as f64, end(&s.xs, i, s.w) as f64);
            let y = ((s.h - end(&s.ys, j, s.h)) as f64, (s.h - y) as f64);
            list.push(s.cam.patch(s.w, s.h, x, y, color(i, j)));
        }
    }
    threads(s.threads);
    if let Some(c) = s.calm {
        fastrand::ctl::constant(c);
    }
    let img = shoot(&Bvh::new(list), &s.cam, AlbedoShader::new(), s.w, s.h, s.samples)?;
    ensure!(img.width() as usize == s.w && img.height() as usize == s.h, "image of size {:?}", img.dimensions());
    let block = |v: &[usize], x: usize| v.partition_point(|c| *c <= x) - 1;
    let mut seams = 0;
    for (x, y, p) in img.enumerate_pixels() {
        let (x, y) = (x as usize, y as usize);
        let (i, j) = (block(&s.xs, x), block(&s.ys, y));
        let want = color(i, j);
        if (0..3).any(|k| {
            let b = byte(want[k]);
            p[k] as f64 != b.floor() && (p[k] as f64 - b).abs() > 1. + 1e-6
        }) {
            let seam = s.xs.contains(&x) || s.ys.contains(&y) || s.xs.contains(&(x + 1)) || s.ys.contains(&(y + 1));
            let what = format!(
                "of {} x {} pixels, the one at {x},{y} is {:?} instead of {:?}",
                s.w,
                s.h,
                p.0,
                want.map(|c| byte(c) as u8)
            );
            ensure!(seam && s.calm.is_none(), "{what}");
            // image coordinates have single precision: one in 5000 samples touches a border
            seams += 1;
            ensure!((seams as f64) < 20. + 0.01 * (s.w * s.h) as f64, "{what} ({seams} such at the borders of blocks)");
        }
    }
    obs.label(if s.calm.is_some() { "samples away from borders" } else { "samples anywhere" });
    obs.label(if s.w > 1000 { "more than 1000 columns" } else if s.h > 1000 { "more than 1000 rows" } else { "200 to 1000" });
    obs.nontrivial();
    Ok(())
}

// ---------------------------------------------------------------- every sample counts alike

/// The same brightness everywhere, close to where its byte changes.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Alike {
    cam: Cam,
    w: usize,
    h: usize,
    samples: u32,
    threads: usize,
    bytes: [u8; 3],
    above: [bool; 3],
    sky: bool,
}

fn alike() -> BoxedStrategy<Alike> {
    (
        cam(),
        (1usize..4, 1usize..4),
        prop_oneof![1 => 1u32..100, 2 => 100u32..1200, 1 => 1200u32..5000, 2 => (5u32..13, 0u32..3).prop_map(|(k, d)| (1 << k) + d - 1)],
        1usize..9,
        (any::<[u8; 3]>(), any::<[bool; 3]>(), any::<bool>()),
    )
        .prop_map(|(cam, (w, h), samples, threads, (bytes, above, sky))| Alike { cam, w, h, samples, threads, bytes, above, sky })
        .boxed()
}

fn check_alike(s: &Alike, obs: &mut Obs) -> Res {
    // a loss or gain of a ten-thousandth of the brightness changes the byte
    let c = [0, 1, 2].map(|k| {
        let b = s.bytes[k].clamp(1, 254) as f64 + !s.above[k] as u8 as f64;
        (b / 256.).powi(2) * if s.above[k] { 1. + 1e-6 } else { 1. - 1e-6 }
    });
    let mut list = vec![s.cam.lamp()];
    if !s.sky {
        list.push(s.cam.patch(s.w, s.h, (-20., 20.), (-20., 20.), c));
    }
    threads(s.threads);
    let img = Shot {
        world: Bvh::new(list),
        camera: s.cam.config(),
        bg: if s.sky { c } else { [0.; 3] },
        shader: if s.sky { PathTracingShader::new(3) } else { AlbedoShader::new() },
        w: s.w,
        h: s.h,
        samples: s.samples,
        post: vec![],
        strategy: RenderImageStrategy::OnlyFinal,
    }
    .image()?;
    let want = s.bytes.map(|b| b.clamp(1, 254));
    for (x, y, p) in img.enumerate_pixels() {
        ensure!(
            p.0 == want,
            "the average of {} samples that are all {c:?} is {:?} at {x},{y} instead of {want:?}",
            s.samples,
            p.0
        );
    }
    obs.label(if s.samples > 250 { "more than 250 samples" } else { "up to 250 samples" });
    obs.nontrivial_if(s.samples > 1);
    Ok(())
}

// ---------------------------------------------------------------- threads

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Threads {
    objs: Vec<Obj>,
    cam: Cam,
    bg: V3,
    w: usize,
    h: usize,
    samples: u32,
    shader: u8,
    random: f64,
    counts: Vec<usize>,
}

fn thread_case() -> BoxedStrategy<Threads> {
    let m = || prop_oneof![4 => surface_mat(), 1 => light_mat()].boxed();
    let o = prop_oneof![3 => sphere_obj(6., m()), 3 => quad_obj(6., m()), 2 => tri_obj(6., m()), 1 => box_obj(6., m()), 1 => fog_obj(6.)];
    (
        (prop::collection::vec(o, 1..8), sphere_obj(6., light_mat()), cam(), color(1.)),
        (1usize..40, 1usize..40, 1u32..4, 0u8..5),
        (0.26..0.74f64, prop::collection::vec(2usize..17, 1..3)),
    )
        .prop_map(|((mut objs, l, cam, bg), (w, h, samples, shader), (random, counts))| {
            objs.push(l);
            Threads { objs, cam, bg, w, h, samples, shader, random, counts }
        })
        .boxed()
}

fn check_threads(s: &Threads, obs: &mut Obs) -> Res {
    let shader = || match s.shader {
        0 => AlbedoShader::new(),
        1 => NormalShader::new(),
        2 => SimpleShader::new(),
        _ => PathTracingShader::new(12),
    };
    let world = world_of(&s.objs);
    let run = |n: usize| {
        threads(n);
        fastrand::ctl::constant(s.random);
        Shot {
            world: world.clone(),
            camera: s.cam.config(),
            bg: s.bg,
            shader: shader(),
            w: s.w,
            h: s.h,
            samples: s.samples,
            post: vec![],
            strategy: RenderImageStrategy::OnlyFinal,
        }
        .image()
    };
    let first = run(1)?;
    ensure!(first.width() as usize == s.w && first.height() as usize == s.h, "image of size {:?}", first.dimensions());
    for n in &s.counts {
        let other = run(*n)?;
        if first != other {
            let p = first.enumerate_pixels().find(|(x, y, p)| other.get_pixel(*x, *y) != *p);
            return Err(format!("another image with {n} threads, e.g. {p:?}"));
        }
    }
    let a = first.get_pixel(0, 0);
    obs.nontrivial_if(first.pixels().any(|p| p != a));
    obs.label(["albedo", "normal", "simple", "path tracing", "path tracing"][s.shader as usize]);
    Ok(())
}

// ---------------------------------------------------------------- several renderings

/// Two scenes rendered alone, one after the other with the same renderers, and at the same time.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Together {
    a: Threads,
    b: Threads,
    again: usize,
}

fn together() -> BoxedStrategy<Together> {
    (thread_case(), thread_case(), 1usize..4, any::<bool>()).prop_map(|(a, mut b, again, same_size)| {
        b.random = a.random;
        if same_size {
            (b.w, b.h) = (a.w, a.h);
        }
        Together { a, b, again }
    }).boxed()
}

fn check_together(s: &Together, obs: &mut Obs) -> Res {
    let scene = |s: &Threads| {
        Shot {
            world: world_of(&s.objs),
            camera: s.cam.config(),
            bg: s.bg,
            shader: match s.shader {
                0 => AlbedoShader::new(),
                1 => NormalShader::new(),
                2 => SimpleShader::new(),
                _ => PathTracingShader::new(12),
            },
            w: s.w,
            h: s.h,
            samples: s.samples,
            post: vec![],
            strategy: RenderImageStrategy::EverySample,
        }
        .scene()
    };
    let run = |r: &Renderer| -> Result<Vec<RgbImage>, String> {
        let (tx, rx) = channel();
        let (_keep, abort) = channel();
        r.render(&tx, &abort).map_err(|e| e.to_string())?;
        drop(tx);
        Ok(rx.iter().filter_map(|p| p.render_image).collect())
    };
    threads(s.a.counts[0].min(4));
    fastrand::ctl::constant(s.a.random);
    let make = |s: &Threads| Renderer::new(scene(s)).map_err(|e| e.to_string());
    let alone = (run(&make(&s.a)?)?, run(&make(&s.b)?)?);
    ensure!(alone.0.len() as u32 == s.a.samples && alone.1.len() as u32 == s.b.samples, "images missing");
    let (ra, rb) = (make(&s.a)?, make(&s.b)?);
    for i in 0..s.again + 1 {
        ensure!(run(&ra)? == alone.0, "rendering {} with the same renderer differs", i + 1);
        if i % 2 == 0 {
            ensure!(run(&rb)? == alone.1, "rendering another scene in between differs");
        }
    }
    let res: Vec<_> = std::thread::scope(|t| {
        let run = &run;
        let hs: Vec<_> = [&ra, &rb, &ra].into_iter().map(|r| t.spawn(move || run(r))).collect();
        hs.into_iter().map(|h| h.join()).collect()
    });
    for (i, r) in res.into_iter().enumerate() {
        let r = r.map_err(|_| "a rendering beside others panicked".to_string())??;
        ensure!(r == if i == 1 { alone.1.clone() } else { alone.0.clone() }, "rendering beside others gives another image");
    }
    obs.nontrivial_if(alone.0.last() != alone.1.last());
    obs.label(if (s.a.w, s.a.h) == (s.b.w, s.b.h) { "same size" } else { "different sizes" });
    Ok(())
}

fn main() {
    run_main(
        "P20",
        || {
            vec![
                facet("own part", "every case", 40_000, 400_000, chart(), check_chart),
                facet("spread", "every case", 6_000, 60_000, spread(), check_spread),
                facet("every sample", "every case", 800, 8_000, each(), check_each),
                facet("large image", "every case", 800, 8_000, large(), check_large),
                facet("alike", "more than one sample", 8_000, 80_000, alike(), check_alike),
                facet("threads", "the image has more than one colour", 12_000, 120_000, thread_case(), check_threads),
                facet("together", "the scenes look different", 3_000, 30_000, together(), check_together),
            ]
        },
        &[
            "image sizes up to 40 x 40, with a long side up to 5000; up to 5000 samples; 1 to 16 threads; interleavings are those the machine produces",
            "thread independence is judged with a random source that yields a constant",
            "samples that touch the border of their pixel within rounding are tolerated",
        ],
    )
}
