//! P18: light attenuates with the distance it has travelled.
use harness::ensure;
use harness::fw::*;
use harness::geo::*;
use harness::scene::*;
use harness::spec::*;
use harness::specular::*;
use harness::stats::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solstrale::camera::CameraConfig;
use solstrale::hittable::{Bvh, Sphere};
use solstrale::renderer::shader::PathTracingShader;
use solstrale::renderer::RenderImageStrategy;

// ---------------------------------------------------------------- mirrors and glass

fn check_chain(s: &Specular, obs: &mut Obs) -> Res {
    let lab = s.lab()?;
    let mut r = Ref::new(s);
    let want = r.see(s.ray.o, unit(s.ray.d), s.depth, 0, 0.);
    if r.close || r.deepest == 0 {
        return Ok(());
    }
    let top = s.brightest();
    if r.random {
        let n = if obs.thorough { 20_000 } else { 3_000 };
        // judged relative to the colour itself where it is dim from distance alone
        check_means("attenuated colour seen by mirrors and glass", mul(want, 1. / top), [1e-5; 3], 0.01, n, || mul(lab.see(&s.ray), 1. / top))
            .map_err(|e| format!("{e}; want {want:?}"))?;
        obs.label("random");
    } else {
        let got = lab.see(&s.ray);
        ensure!(dist(got, want) < 1e-6 * maxabs(want).max(1e-3), "sees {got:?} instead of {want:?}");
        obs.label("exact");
    }
    obs.label(format!("{} surfaces", r.deepest));
    obs.nontrivial_if(r.attenuated);
    Ok(())
}

// ---------------------------------------------------------------- one rough bounce towards a far light

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bounce {
    /// 0 matte, 1 fuzzy metal, 2 fog, 3 blend
    kind: u8,
    n: V3,
    from: V3,
    d1: f64,
    l: f64,
    to: V3,
    d2: f64,
    h: f64,
    em: V3,
    at: V3,
    /// clear panes in front of it
    #[serde(default)]
    panes: u32,
    /// a flat lamp instead of a sphere
    #[serde(default)]
    flat: bool,
}

fn bounce() -> BoxedStrategy<Bounce> {
    (
        (0u8..4, dir(), dir(), logf(0.5, 50.), prop_oneof![3 => logf(0.05, 20.), 1 => logf(1e-3, 1e5)]),
        (dir(), logf(2., 100.), logf(0.2, 200.), [0.3..1.2f64, 0.3..1.2f64, 0.3..1.2f64], point(5.)),
        prop_oneof![3 => Just(0u32), 1 => 1u32..5, 1 => 5u32..60],
        any::<bool>(),
    )
        .prop_map(|((kind, n, from, d1, l), (to, d2, h, em, at), panes, flat)| Bounce { kind, n, from, d1, l, to, d2, h, em, at, panes, flat })
        .boxed()
}

fn check_bounce(s: &Bounce, obs: &mut Obs) -> Res {
    let (from, mut to) = (s.from, s.to);
    if dot(from, s.n).abs() < 0.1 {
        return Ok(());
    }
    let n = if dot(from, s.n) > 0. { neg(s.n) } else { s.n };
    if s.kind == 1 {
        to = sub(from, mul(n, 2. * dot(from, n)));
    } else if s.kind != 2 && dot(to, n) < 0.1 {
        to = unit(add(to, mul(n, 0.2 - 2. * dot(to, n).min(0.))));
        if dot(to, n) < 0.1 {
            return Ok(());
        }
    }
    let size = s.d1.min(s.d2) * 0.02;
    let (a, b, _) = basis(n);
    let patch = |m: Mat| {
        Obj::Quad { q: sub(s.at, mul(add(a, b), size * 0.5)), u: mul(a, size), v: mul(b, size), tf: vec![], m }
    };
    let gray = [0.9; 3];
    let first = match s.kind {
        0 => patch(Mat::Matte(gray)),
        1 => patch(Mat::Metal(gray, 0.02)),
        2 => Obj::Fog { of: Box::new(Obj::Sphere { c: s.at, r: size, m: matte(0.5) }), density: 1. / size, color: gray },
        _ => patch(Mat::Blend(Box::new(Mat::Metal(gray, 0.02)), Box::new(Mat::Matte(gray)), 0.8)),
    };
    let r = s.d2 * 0.03;
    let light = |h: Option<f64>| -> Obj {
        if s.flat {
            // facing the surface
            let (a, b, _) = basis(neg(to));
            let (u, v) = if dot(cross(a, b), to) < 0. { (a, b) } else { (b, a) };
            let c = add(s.at, mul(to, s.d2 + 0.5 * r));
            return Obj::Quad { q: sub(c, mul(add(u, v), 0.5 * r)), u: mul(u, r), v: mul(v, r), tf: vec![], m: Mat::Light(s.em, h) };
        }
        let c = add(s.at, mul(to, s.d2 + r));
        Obj::Sphere { c, r, m: Mat::Light(s.em, h) }
    };
    let ray = ray_through(s.at, from, s.d1, s.l.min(s.d1 * 300.));
    // the light must not be in the way
    if let Some(x) = sphere_crossings(add(s.at, mul(to, s.d2 + r)), r, ray.o, ray.d) {
        if x.iter().any(|x| x.t > 0. && x.t * len(ray.d) < s.d1 * 2.) {
            return Ok(());
        }
    } else {
        return Ok(());
    }
    // the panes stand across the ray, away from the light
    let panes = if dot(from, to) < -0.8 { 0 } else { s.panes };
    let glass = |k: u32| {
        let (a, b, _) = basis(from);
        let m = sub(s.at, mul(from, s.d1 * (0.1 + 0.7 * k as f64 / panes as f64)));
        let e = size * 0.5;
        Obj::Quad { q: sub(m, mul(add(a, b), e / 2.)), u: mul(a, e), v: mul(b, e), tf: vec![], m: Mat::Glass([1.; 3], 1.) }
    };
    let lab = |h: Option<f64>| {
        let mut objs = vec![first.clone(), light(h)];
        objs.extend((0..panes).map(glass));
        Lab::tracing(world_of(&objs), [0.; 3], 5 + panes)
    };
    if panes >= 5 {
        obs.label("behind many panes");
    }
    let (one, two, three) = (lab(None)?, lab(Some(s.h))?, lab(Some(s.h * 7.))?);
    let tol = r * 1.01 + if s.kind == 2 { 4. * size } else { 0. } + 1e-6 * (s.d1 + s.d2);
    let mut lit = 0;
    for i in 0..40 {
        fastrand::ctl::seeded(mix(i + 1000 * s.kind as u64));
        let c1 = one.see(&ray);
        fastrand::ctl::seeded(mix(i + 1000 * s.kind as u64));
        let c2 = two.see(&ray);
        fastrand::ctl::seeded(mix(i + 1000 * s.kind as u64));
        let c3 = three.see(&ray);
        if maxabs(c1) == 0. {
            ensure!(maxabs(c2) == 0. && maxabs(c3) == 0., "light {c2:?} although none without attenuation");
            continue;
        }
        lit += 1;
        for k in 0..3 {
            // distance that the attenuation stands for
            for (c, h) in [(c2, s.h), (c3, s.h * 7.)] {
                let d = (c1[k] / c[k] - 1.) * h;
                // scattered twice inside the fog, or twice at the patch: longer, but never shorter
                let most = s.d1 + s.d2 + tol;
                ensure!(
                    d >= s.d1 + s.d2 - tol - 1e-9 * h && d <= most + 1e-9 * h + if s.kind == 2 { 20. * size } else { 0. },
                    "attenuated as for a way of {d} (half length {h}); the way is {} + {}",
                    s.d1,
                    s.d2
                );
            }
        }
    }
    obs.label(["matte", "fuzzy metal", "fog", "blend"][s.kind as usize]);
    obs.nontrivial_if(lit > 0);
    if lit == 0 {
        obs.label("dark");
    }
    Ok(())
}

// ---------------------------------------------------------------- many rough bounces

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cavity {
    big: f64,
    c: V3,
    at: V3,
    h0: f64,
    d: V3,
    rl: f64,
    half: f64,
    albedo: f64,
    depth: u32,
}

fn cavity() -> BoxedStrategy<Cavity> {
    (logf(0.5, 20.), point(5.), dir(), 0.3..0.9f64, dir(), logf(0.1, 10.), logf(0.1, 10.), 0.2..0.65f64, 2u32..6)
        .prop_map(|(big, c, at, h0, d, rl, half, albedo, depth)| Cavity { big, c, at, h0, d, rl, half: half * big, albedo, depth })
        .boxed()
}

fn check_cavity(s: &Cavity, obs: &mut Obs) -> Res {
    let f = 0.05f64;
    let o = add(s.c, mul(s.at, s.big * s.h0));
    let ray = RaySpec { o, d: mul(s.d, s.rl * s.big) };
    let Some(x) = sphere_crossings(s.c, s.big * f, ray.o, ray.d) else { return Ok(()) };
    if x.iter().any(|x| x.t > 0.) {
        return Ok(());
    }
    let Some(x) = sphere_crossings(s.c, s.big, ray.o, ray.d) else { return Ok(()) };
    let d1 = x[1].t * len(ray.d);
    if d1 < 0.05 * s.rl * s.big {
        return Ok(());
    }
    let l = 1e-4;
    let world = Bvh::new(vec![
        Sphere::new(sv(s.c), s.big, matte(s.albedo).build()),
        Sphere::new(sv(s.c), s.big * f, Mat::Light([l; 3], Some(s.half)).build()),
    ]);
    let lab = Lab::tracing(world, [0.; 3], s.depth)?;
    // reference: chords have squares spread evenly; the last leg ends within the light
    let mut seed = 5u64;
    let mut rnd = || {
        seed = mix(seed);
        (seed >> 11) as f64 / (1u64 << 53) as f64
    };
    let ff = f * f;
    let mut want = 0.;
    let m = 20_000;
    for _ in 0..m {
        let mut d = d1;
        let mut w = s.albedo;
        for _ in 2..=s.depth {
            // the part of the light at sine x of its disc, seen from the wall
            let sn = f * rnd().sqrt();
            let leg = s.big * ((1. - sn * sn).sqrt() - (ff - sn * sn).sqrt());
            want += w * ff / (1. + (d + leg) / s.half);
            d += 2. * s.big * (ff + (1. - ff) * rnd()).sqrt().min(1.);
            // chords that pass the light
            let c = (d - d1) / (2. * s.big);
            let _ = c;
            w *= s.albedo * (1. - ff);
        }
    }
    want /= m as f64;
    let n = if obs.thorough { 40_000 } else { 8_000 };
    check_means("attenuated brightness of a wall", [1.], [0.01], 0.1, n, || [lab.see(&ray)[0] / l / want])?;
    obs.nontrivial();
    Ok(())
}

// ---------------------------------------------------------------- relations

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rel {
    objs: Vec<Obj>,
    bg: V3,
    aim: usize,
    jitter: V3,
    from: V3,
    k: i32,
    depth: u32,
}

fn rel() -> BoxedStrategy<Rel> {
    let m = || prop_oneof![3 => surface_mat(), 1 => (color(2.), prop::option::of(logf(0.1, 100.))).prop_map(|(c, h)| Mat::Light(c, h))].boxed();
    let item = prop_oneof![
        (0.3..1.2f64, m()).prop_map(|(r, m)| Obj::Sphere { c: [0.; 3], r, m }),
        (edges(0.5, 2.5), m()).prop_map(|((u, v), m)| Obj::Quad { q: mul(add(u, v), -0.5), u, v, tf: vec![], m }),
        (edges(0.5, 2.5), m()).prop_map(|((u, v), m)| {
            let a = mul(add(u, v), -1. / 3.);
            Obj::Tri { a, b: add(a, u), c: add(a, v), uv: None, tf: vec![], m }
        }),
        (0.3..1.2f64, 0.1..1.0f64, color(1.))
            .prop_map(|(r, density, color)| Obj::Fog { of: Box::new(Obj::Sphere { c: [0.; 3], r, m: matte(0.5) }), density, color }),
    ];
    (
        prop::collection::vec((0i32..27, item), 1..7),
        (0.3..1.2f64, color(2.), logf(0.1, 100.)),
        color(1.),
        (any::<prop::sample::Index>(), point(0.5), dir(), -9..6i32, 1u32..20),
    )
        .prop_map(|(items, (r, c, h), bg, (aim, jitter, from, k, depth))| {
            let mut used = std::collections::HashSet::from([13]);
            let mut objs = vec![Obj::Sphere { c: [3., 3., 3.], r, m: Mat::Light(c, Some(h)) }];
            for (cell, mut o) in items {
                if !used.insert(cell) {
                    continue;
                }
                let at = [(cell % 3) as f64 * 3., (cell / 3 % 3) as f64 * 3., (cell / 9) as f64 * 3.];
                place(&mut o, at);
                objs.push(o);
            }
            let aim = aim.index(objs.len());
            Rel { objs, bg, aim, jitter, from, k, depth }
        })
        .boxed()
}

fn place(o: &mut Obj, at: V3) {
    match o {
        Obj::Sphere { c, .. } => *c = add(*c, at),
        Obj::Quad { q, .. } => *q = add(*q, at),
        Obj::Tri { a, b, c, .. } => {
            *a = add(*a, at);
            *b = add(*b, at);
            *c = add(*c, at);
        }
        Obj::Fog { of, .. } => place(of, at),
        _ => {}
    }
}

fn check_rel(s: &Rel, obs: &mut Obs) -> Res {
    let lab = Lab::tracing(world_of(&s.objs), s.bg, s.depth)?;
    let aim = add(s.objs[s.aim].center(), s.jitter);
    let ray = ray_through(aim, s.from, 15., 1.);
    let k = 2f64.powi(s.k);
    let long = RaySpec { o: ray.o, d: mul(ray.d, k) };
    let mut lit = false;
    for i in 0..30 {
        fastrand::ctl::seeded(mix(i));
        let a = lab.see(&ray);
        fastrand::ctl::seeded(mix(i));
        let b = lab.see(&long);
        ensure!(dist(a, b) <= 1e-6 * maxabs(a), "sees {a:?}, and {b:?} with the direction {k} times as long");
        lit |= maxabs(a) > 0. && dist(a, s.bg) > 1e-9;
    }
    // Larger scene: rays from matte surfaces towards lights grow, others do not; their near ends matter little
    let k2 = 2f64.powi(s.k.clamp(-1, 2));
    let big = Lab::tracing(world_of(&s.objs.iter().map(|o| grown(o, k2)).collect::<Vec<_>>()), s.bg, s.depth)?;
    let far = RaySpec { o: mul(ray.o, k2), d: ray.d };
    let mut off = vec![];
    for i in 0..30 {
        fastrand::ctl::seeded(mix(i));
        let a = lab.see(&ray);
        fastrand::ctl::seeded(mix(i));
        let b = big.see(&far);
        // ways inside fog start 0.001 from the last scattering
        if dist(a, b) > 0.02 * maxabs(a) {
            off.push((a, b));
        }
    }
    // rare paths may tell a distance of 0.001 from one of 0.004
    ensure!(off.len() <= 3, "{} of 30 samples differ in a scene {k2} times as large, e.g. {:?}", off.len(), off[0]);
    obs.nontrivial_if(lit);
    Ok(())
}

// ---------------------------------------------------------------- images

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Picture {
    from: V3,
    d: V3,
    dist: f64,
    /// distance to the point looked at, relative
    focus: f64,
    aperture: bool,
    half: Option<f64>,
    mirror: Option<V3>,
    em: V3,
    samples: u32,
}

fn picture() -> BoxedStrategy<Picture> {
    (
        (point(5.), dir(), prop_oneof![2 => logf(0.5, 50.), 1 => logf(1e-3, 1e5)], logf(0.05, 20.)),
        // half length relative to the way
        (any::<bool>(), prop::option::weighted(0.8, logf(0.02, 50.)), prop::option::of(dir()), [0.2..1.5f64, 0.2..1.5f64, 0.2..1.5f64], 1u32..4),
    )
        .prop_map(|((from, d, dist, focus), (aperture, half, mirror, em, samples))| Picture {
            from,
            d,
            dist,
            focus,
            aperture,
            half: half.map(|h| h * dist),
            // reflected rays start 0.001 away
            mirror: mirror.filter(|_| dist > 0.5),
            em,
            samples,
        })
        .boxed()
}

fn check_picture(s: &Picture, obs: &mut Obs) -> Res {
    // a light faces the camera, or the mirror half way to it
    let mid = add(s.from, mul(s.d, s.dist * 0.5));
    let (to, start, rest) = match s.mirror {
        Some(n) => {
            if dot(n, s.d).abs() < 0.3 || dot(n, s.d).abs() > 0.9 {
                return Ok(());
            }
            (sub(s.d, mul(n, 2. * dot(n, s.d))), mid, s.dist * 0.5)
        }
        None => (s.d, s.from, s.dist),
    };
    let facing = |c: V3, n: V3, e: f64, m: Mat| {
        let (a, b, _) = basis(n);
        let (u, v) = (mul(a, e), mul(b, e));
        let (u, v) = if dot(cross(u, v), n) > 0. { (u, v) } else { (v, u) };
        Obj::Quad { q: sub(c, mul(add(u, v), 0.5)), u, v, tf: vec![], m }
    };
    let size = s.dist * 0.2;
    let mut objs = vec![facing(at(start, to, rest), neg(to), size, Mat::Light(s.em, s.half))];
    if let Some(n) = s.mirror {
        objs.push(facing(mid, n, size, Mat::Metal([1.; 3], 0.)));
    }
    let (a, _, _) = basis(s.d);
    let img = Shot {
        world: world_of(&objs),
        camera: CameraConfig {
            vertical_fov_degrees: 0.05,
            aperture_size: if s.aperture { s.dist * s.focus.min(1.) * 1e-4 } else { 0. },
            look_from: sv(s.from),
            look_at: sv(at(s.from, s.d, s.dist * s.focus)),
            up: sv(a),
        },
        bg: [0.; 3],
        shader: PathTracingShader::new(4),
        w: 3,
        h: 2,
        samples: s.samples,
        post: vec![],
        strategy: RenderImageStrategy::OnlyFinal,
    }
    .image()?;
    let f = s.half.map_or(1., |h| 1. / (1. + s.dist / h));
    for p in img.pixels() {
        for k in 0..3 {
            let want = ((s.em[k] * f).sqrt() * 256.).min(255.);
            ensure!((p[k] as f64 + 0.5 - want).abs() < 2.5, "pixel {p:?} of a light {} away; channel {k} should be {want}", s.dist);
        }
    }
    obs.label(if s.mirror.is_some() { "mirror" } else { "direct" });
    obs.nontrivial_if(s.half.is_some());
    Ok(())
}

fn main() {
    run_main(
        "P18",
        || {
            vec![
                facet("chain", "a light with attenuation is seen", 60_000, 600_000, specular(true), check_chain),
                facet("bounce", "the light was reached", 30_000, 300_000, bounce(), check_bounce),
                facet("cavity", "every judged scene", 1_600, 16_000, cavity(), check_cavity),
                facet("relations", "something lit is seen", 8_000, 80_000, rel(), check_rel),
                facet("image", "a light with attenuation", 3_000, 30_000, picture(), check_picture),
            ]
        },
        &["the length of ways over rough surfaces is known up to the size of the light, or in the mean"],
    )
}
