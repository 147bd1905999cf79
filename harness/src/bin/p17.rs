//! P17: path tracing computes the light transport of the scene.
use harness::ensure;
use harness::fw::*;
use harness::geo::*;
use harness::lights::*;
use harness::scene::*;
use harness::specular::*;
use harness::spec::*;
use harness::stats::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solstrale::geo::transformation::NopTransformer;
use solstrale::hittable::{Bvh, Hittable, Hittables, Quad, Sphere};
use solstrale::material::texture::SolidColor;
use solstrale::material::Lambertian;
use solstrale::util::interval::RAY_INTERVAL;

// ---------------------------------------------------------------- direct light on a matte surface

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Direct {
    n: V3,
    from: V3,
    l: f64,
    ball: Option<f64>,
    tilt: Option<V3>,
    color: V3,
    bg: V3,
    lights: Vec<Obj>,
    /// lights hidden by something black of this kind
    hidden: Vec<Option<u8>>,
    depth: u32,
    nest: bool,
    /// seen by a tiny mirror with that normal
    mirror: Option<V3>,
    /// everything so much larger
    k: f64,
}

fn emission(max: f64) -> BoxedStrategy<Mat> {
    color(max).prop_map(|c| Mat::Light(c, None)).boxed()
}

fn direct() -> BoxedStrategy<Direct> {
    (
        (dir(), dir(), ray_len(), prop::option::weighted(0.3, logf(0.1, 3.))),
        prop::option::weighted(0.3, (0.0..60.0f64, 0.0..std::f64::consts::TAU)),
        (color(1.), color(1.)),
        prop::collection::vec((prop_oneof![3 => around(emission(1.4), true), 1 => around(emission(1.4), false)], prop::option::weighted(0.25, 0u8..3)), 1..4),
        (
            prop_oneof![1 => Just(2u32), 2 => 2u32..60],
            any::<bool>(),
            prop::option::weighted(0.3, dir()),
            prop_oneof![3 => Just(1.), 1 => logf(1., 3000.)],
        ),
    )
        .prop_map(|((n, from, l, ball), tilt, (color, bg), lights, (depth, nest, mirror, k))| {
            let tilt = tilt.map(|(t, a)| {
                let t = f64::to_radians(t);
                [t.sin() * a.cos(), t.sin() * a.sin(), t.cos()]
            });
            let (lights, hidden) = lights.into_iter().unzip();
            Direct { n, from, l, ball, tilt, color, bg, lights, hidden, depth, nest, mirror, k }
        })
        .boxed()
}

/// direction and half angle of a cone from the origin around it, and its nearest and farthest distance
fn cone(g: &G) -> (V3, f64, f64) {
    match g {
        G::Sphere(c, r) => (unit(*c), (r / len(*c)).asin(), len(*c) - r),
        G::Flat { .. } => {
            let cs = g.corners();
            let mid = unit(cs.iter().fold([0.; 3], |a, c| add(a, *c)));
            let a = cs.iter().map(|c| angle(mid, unit(*c))).fold(0., f64::max);
            // the nearest point of the polygon is not nearer than its plane
            (mid, a, g.height([0.; 3]))
        }
    }
}

fn angle(a: V3, b: V3) -> f64 {
    len(cross(a, b)).atan2(dot(a, b))
}

fn check_direct(s: &Direct, obs: &mut Obs) -> Res {
    if dot(s.from, s.n).abs() < 0.05 {
        return Ok(());
    }
    // spheres are seen from outside
    let from = if s.ball.is_some() && dot(s.from, s.n) > 0. { neg(s.from) } else { s.from };
    let (a, b, _) = basis(s.n);
    let tilt = if s.ball.is_some() { None } else { s.tilt };
    let map = tilt.map(|n| SolidColor::new(n[0] * 0.5 + 0.5, n[1] * 0.5 + 0.5, n[2] * 0.5 + 0.5));
    let m = Lambertian::new(SolidColor::new(s.color[0], s.color[1], s.color[2]), map);
    let patch = |k: f64| match s.ball {
        Some(r) => Sphere::new(sv(mul(s.n, -r * k)), r * k, m.clone()),
        None => Quad::new(sv(mul(add(a, b), -0.2 * k)), sv(mul(a, 0.4 * k)), sv(mul(b, 0.4 * k)), m.clone(), &NopTransformer()),
    };
    let (large, patch) = (patch(s.k), patch(1.));
    let mut ray = ray_through([0.; 3], from, 0.2, s.l.min(10.));
    let Some(rec) = patch.hit(&ray.build(), &RAY_INTERVAL) else { return Err("the patch is not hit".into()) };
    let n = rv(rec.normal);
    let mut cones: Vec<(V3, f64)> = vec![];
    let mut objs = vec![];
    let mut lit = [0.; 3];
    let mut depth = s.depth;
    let mut seen = 0.;
    for (o, hide) in s.lights.iter().zip(&s.hidden) {
        let g = geometry(o);
        let (mid, half, near) = cone(&g);
        if near < 0.5 || g.height([0.; 3]) < 0.3 {
            return Ok(());
        }
        objs.push(o.clone());
        let (f, half) = match hide {
            None => {
                let Some(f) = g.form_factor([0.; 3], n) else { return Ok(()) };
                if g.lit_side([0.; 3]) {
                    if let Obj::Sphere { m: Mat::Light(c, _), .. } | Obj::Quad { m: Mat::Light(c, _), .. } | Obj::Tri { m: Mat::Light(c, _), .. } = o {
                        lit = add(lit, mul(*c, f));
                    }
                }
                obs.label(if !g.lit_side([0.; 3]) { "light seen from its back" } else if f > 0. { "light" } else { "light below" });
                (f, half)
            }
            Some(kind) => {
                // something black in front of it
                let wide = half + 0.05;
                let d = near * 0.4;
                if wide > 1.2 {
                    return Ok(());
                }
                let black = if *kind == 0 { Mat::Metal([0.; 3], 0.3) } else { Mat::Matte([0.; 3]) };
                let o = if *kind == 2 {
                    let (p, q, _) = basis(mid);
                    let e = d * wide.tan();
                    Obj::Quad { q: add(mul(mid, d), mul(add(p, q), -e)), u: mul(p, 2. * e), v: mul(q, 2. * e), tf: vec![], m: black }
                } else {
                    Obj::Sphere { c: mul(mid, d), r: d * wide.sin(), m: black }
                };
                let g = geometry(&o);
                let (_, w, near2) = cone(&g);
                if near2 < 0.35 || w > 1.3 {
                    return Ok(());
                }
                let Some(f) = g.form_factor([0.; 3], n) else { return Ok(()) };
                if f > 0. {
                    obs.label("hidden light");
                }
                objs.push(o);
                (f, w)
            }
        };
        if cones.iter().any(|(d, h)| angle(*d, mid) < h + half + 0.02) {
            return Ok(());
        }
        cones.push((mid, half));
        seen += f;
    }
    // the ball must not be in the way of anything: its horizon is that of the surface
    if let Some(r) = s.ball {
        for o in &objs {
            let g = geometry(o);
            let hit = match &g {
                G::Sphere(c, q) => dist(*c, mul(s.n, -r)) < r + q + 0.01,
                _ => g.corners().iter().any(|c| dot(*c, s.n) < 0.01),
            };
            if hit {
                return Ok(());
            }
        }
    }
    // nothing between the camera and the patch (everything is at least 0.35 away)
    if let Some(nm) = s.mirror {
        let p = mul(from, -0.15);
        let c = dot(nm, from);
        let into = sub(from, mul(nm, 2. * c));
        let r = ray_through(p, into, 0.1, s.l.min(10.));
        // in front of the surface, not hidden by it
        let free = dot(r.o, s.n) * dot(from, s.n) < -0.01 * dot(from, s.n).abs();
        if c.abs() > 0.3 && c.abs() < 0.95 && free {
            let (a, b, _) = basis(nm);
            let e = 2e-3;
            objs.push(Obj::Quad { q: sub(p, mul(add(a, b), e / 2.)), u: mul(a, e), v: mul(b, e), tf: vec![], m: Mat::Metal([1.; 3], 0.) });
            ray = r;
            depth += 1;
            obs.label("by a mirror");
        }
    }
    ray.o = mul(ray.o, s.k);
    let mut list: Vec<Hittables> = objs.iter().flat_map(|o| grown(o, s.k).build()).collect();
    list.push(large);
    let world = if s.nest {
        let half = list.split_off(list.len() / 2);
        Bvh::new(vec![Bvh::new(list), Bvh::new(half)])
    } else {
        Bvh::new(list)
    };
    let lab = Lab::tracing(world, s.bg, depth)?;
    let want = had(s.color, add(lit, mul(s.bg, 1. - seen)));
    let count = if obs.thorough { 30_000 } else { 6_000 };
    let r = check_means("colour of a matte surface", want, [2e-4; 3], 0.01, count, || lab.see(&ray));
    r.map_err(|e| format!("{e}; want {want:?}"))?;
    obs.nontrivial();
    Ok(())
}

// ---------------------------------------------------------------- white furnace

#[derive(Clone, Debug, Serialize, Deserialize)]
enum White {
    Ball { r: f64, m: u8 },
    Flat { u: V3, v: V3, tri: bool, m: u8, fuzz: f64 },
    Boxx { s: V3, turn: f64, m: u8 },
    Fog { r: f64, depth: f64 },
    Glass { r: f64, ior: f64 },
    Light { r: f64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Furnace {
    items: Vec<(u8, V3, White)>,
    l: V3,
    aim: u8,
    jitter: V3,
    from: V3,
    rl: f64,
}

fn furnace() -> BoxedStrategy<Furnace> {
    let jitter = || [-0.3..0.3f64, -0.3..0.3f64, -0.3..0.3f64];
    let white = prop_oneof![
        4 => (0.2..1.0f64, 0u8..4).prop_map(|(r, m)| White::Ball { r, m }),
        4 => (edges(0.3, 1.2), any::<bool>(), 0u8..4, 0.0..1.0f64).prop_map(|((u, v), tri, m, fuzz)| White::Flat { u, v, tri, m, fuzz }),
        2 => ([0.2..1.0f64, 0.2..1.0f64, 0.2..1.0f64], 0.0..90.0f64, 0u8..4).prop_map(|(s, turn, m)| White::Boxx { s, turn, m }),
        1 => (0.3..1.0f64, 0.2..2.0f64).prop_map(|(r, depth)| White::Fog { r, depth }),
        2 => (0.3..1.0f64, 1.0..2.4f64).prop_map(|(r, ior)| White::Glass { r, ior }),
    ];
    let light = (0.1..1.0f64).prop_map(|r| White::Light { r });
    (
        prop::collection::vec((0u8..27, jitter(), white), 1..9),
        (0u8..27, jitter(), light.clone()),
        prop::option::of((0u8..27, jitter(), light)),
        [1e-5..1e-3f64, 1e-5..1e-3f64, 1e-5..1e-3f64],
        any::<u8>(),
        jitter(),
        dir(),
        ray_len(),
    )
        .prop_map(|(mut items, a, b, l, aim, jitter, from, rl)| {
            items.insert(0, a);
            items.extend(b);
            Furnace { items, l, aim, jitter, from, rl }
        })
        .boxed()
}

fn white_mat(m: u8, fuzz: f64) -> Mat {
    let w = [1.; 3];
    match m {
        0 => Mat::Metal(w, fuzz),
        1 => Mat::Blend(Box::new(Mat::Matte(w)), Box::new(Mat::Metal(w, fuzz)), 0.4),
        _ => Mat::Matte(w),
    }
}

fn check_furnace(s: &Furnace, obs: &mut Obs) -> Res {
    let mut used = std::collections::HashSet::new();
    let mut objs = vec![];
    let mut centers = vec![];
    for (cell, j, w) in &s.items {
        if !used.insert(*cell) {
            continue;
        }
        let c = add([(cell % 3) as f64 * 3., (cell / 3 % 3) as f64 * 3., (cell / 9) as f64 * 3.], *j);
        centers.push(c);
        objs.push(match w {
            White::Ball { r, m } => Obj::Sphere { c, r: *r, m: white_mat(*m, 0.) },
            White::Flat { u, v, tri: false, m, fuzz } => {
                Obj::Quad { q: sub(c, mul(add(*u, *v), 0.5)), u: *u, v: *v, tf: vec![], m: white_mat(*m, *fuzz) }
            }
            White::Flat { u, v, m, fuzz, .. } => {
                let a = sub(c, mul(add(*u, *v), 1. / 3.));
                Obj::Tri { a, b: add(a, *u), c: add(a, *v), uv: None, tf: vec![], m: white_mat(*m, *fuzz) }
            }
            White::Boxx { s, turn, m } => {
                let h = mul(*s, 0.5);
                Obj::Boxx { a: neg(h), b: h, tf: vec![Tf::RotY(*turn), Tf::Move(c)], m: white_mat(*m, 0.) }
            }
            White::Fog { r, depth } => Obj::Fog { of: Box::new(Obj::Sphere { c, r: *r, m: matte(0.5) }), density: depth / r, color: [1.; 3] },
            White::Glass { r, ior } => Obj::Sphere { c, r: *r, m: Mat::Glass([1.; 3], *ior) },
            White::Light { r } => Obj::Sphere { c, r: *r, m: Mat::Light(s.l, None) },
        });
    }
    let aim = add(centers[s.aim as usize % centers.len()], s.jitter);
    let ray = ray_through(aim, s.from, 20., s.rl);
    // the world as a whole, and split in groups
    let world = if s.aim & 1 > 0 {
        world_of(&objs)
    } else {
        let (a, b) = objs.split_at(objs.len() / 2);
        world_of(&[Obj::Group(a.to_vec()), Obj::Group(b.to_vec())].into_iter().filter(|g| !g.leaves().is_empty()).collect::<Vec<_>>())
    };
    let lab = Lab::tracing(world, s.l, 300)?;
    if lab.world.hit(&ray.build(), &RAY_INTERVAL).is_some() {
        obs.nontrivial();
    }
    let n = if obs.thorough { 20_000 } else { 3_000 };
    check_means("brightness in a furnace, relative", [1.; 3], [3e-3; 3], 0.05, n, || {
        let c = lab.see(&ray);
        [c[0] / s.l[0], c[1] / s.l[1], c[2] / s.l[2]]
    })?;
    obs.label(format!("{} objects", objs.len()));
    Ok(())
}

// ---------------------------------------------------------------- mirrors, glass, black fog

fn check_specular(s: &Specular, obs: &mut Obs) -> Res {
    let lab = s.lab()?;
    let mut reference = Ref::new(s);
    let want = reference.see(s.ray.o, unit(s.ray.d), s.depth, 0, 0.);
    if reference.close {
        return Ok(());
    }
    let scale = maxabs(want).max(1e-3);
    if reference.random {
        let top = s.brightest();
        let n = if obs.thorough { 20_000 } else { 4_000 };
        check_means("colour seen by mirrors and glass, relative to the brightest source", mul(want, 1. / top), [1e-5; 3], 0.02, n, || {
            mul(lab.see(&s.ray), 1. / top)
        })
        .map_err(|e| format!("{e}; want {want:?}"))?;
        obs.label("random");
    } else {
        for _ in 0..3 {
            let got = lab.see(&s.ray);
            ensure!(dist(got, want) < 1e-6 * scale, "sees {got:?}, but {want:?} is there");
        }
        obs.label("exact");
    }
    obs.label(format!("{} surfaces", reference.deepest));
    obs.nontrivial_if(reference.deepest > 0);
    Ok(())
}

// ---------------------------------------------------------------- inter-reflection in a cavity

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cavity {
    c: V3,
    big: f64,
    /// radius of the light relative to the wall
    f: f64,
    albedo: V3,
    l: V3,
    depth: u32,
    at: V3,
    h: f64,
    d: V3,
    rl: f64,
}

fn cavity() -> BoxedStrategy<Cavity> {
    (
        (point(5.), 1.0..8.0f64, 0.1..0.85f64),
        // every bounce not towards the light doubles the weight: low enough for that not to be limited
            (color(0.65), [1e-5..1e-4f64, 1e-5..1e-4f64, 1e-5..1e-4f64]),
        prop_oneof![2u32..6, 6u32..120],
        (dir(), 0.05..0.95f64, dir(), logf(0.1, 10.)),
    )
        .prop_map(|((c, big, f), (albedo, l), depth, (at, h, d, rl))| Cavity { c, big, f, albedo, l, depth, at, h, d, rl })
        .boxed()
}

fn check_cavity(s: &Cavity, obs: &mut Obs) -> Res {
    let n = if obs.thorough { 20_000 } else { 3_000 };
    judge_cavity(s, n, [2e-3; 3], obs)
}

/// so many rays that the share of light that comes by several walls shows
fn check_bounces(s: &Cavity, obs: &mut Obs) -> Res {
    judge_cavity(s, if obs.thorough { 4_000_000 } else { 1_000_000 }, [2e-4; 3], obs)
}

/// bright walls, so that much of the light comes by several of them
fn bounces() -> BoxedStrategy<Cavity> {
    (cavity(), 0.2..0.45f64, [0.6..0.65f64, 0.5..0.65f64, 0.3..0.65f64], 4u32..40)
        .prop_map(|(c, f, albedo, depth)| Cavity { f, albedo, depth, ..c })
        .boxed()
}

fn judge_cavity(s: &Cavity, n: usize, tol: [f64; 3], obs: &mut Obs) -> Res {
    let small = s.big * s.f;
    let o = add(s.c, mul(s.at, small + (s.big - small) * s.h));
    let ray = RaySpec { o, d: mul(s.d, s.rl) };
    if dist(o, s.c) - small < 0.01 * s.rl || s.big - dist(o, s.c) < 0.01 * s.rl {
        return Ok(());
    }
    let Some(x) = sphere_crossings(s.c, small, ray.o, ray.d) else { return Ok(()) };
    let sees_light = x.iter().any(|x| x.t > 0.);
    let world = Bvh::new(vec![
        Sphere::new(sv(s.c), s.big, Mat::Matte(s.albedo).build()),
        Sphere::new(sv(s.c), small, Mat::Light(s.l, None).build()),
    ]);
    // nothing of the background is visible
    let lab = Lab::tracing(world, [7., 8., 9.], s.depth)?;
    if sees_light {
        let got = lab.see(&ray);
        ensure!(dist(got, s.l) < 1e-9, "the light is seen as {got:?} instead of {:?}", s.l);
        obs.label("light seen directly");
        return Ok(());
    }
    let f = s.f * s.f;
    let mut want = [0.; 3];
    for k in 0..3 {
        let mut sum = 0.;
        let mut p = 1.;
        for _ in 0..s.depth - 1 {
            sum += p;
            p *= s.albedo[k] * (1. - f);
        }
        want[k] = s.albedo[k] * s.l[k] * f * sum;
    }
    check_means("brightness of the wall, relative to the light", div(want, s.l), tol, 0.02, n, || div(lab.see(&ray), s.l))?;
    obs.label("wall");
    obs.nontrivial();
    Ok(())
}

fn div(a: V3, b: V3) -> V3 {
    [a[0] / b[0], a[1] / b[1], a[2] / b[2]]
}

fn main() {
    run_main(
        "P17",
        || {
            vec![
                facet("direct", "every judged scene", 40_000, 400_000, direct(), check_direct),
                facet("furnace", "the ray hits something", 16_000, 160_000, furnace(), check_furnace),
                facet("specular", "the ray hits something", 40_000, 400_000, specular(false), check_specular),
                facet("cavity", "the wall is seen", 6_000, 60_000, cavity(), check_cavity),
                facet("bounces", "the wall is seen", 60, 400, bounces(), check_bounces),
            ]
        },
        &[
            "light intensities on matte surfaces are low enough for the limit on indirect samples not to matter",
            "lights and what hides them do not overlap as seen from the surface and do not cross its horizon",
            "specular paths with hits closer than 0.06, close to grazing or to the critical angle are not judged",
        ],
    )
}
