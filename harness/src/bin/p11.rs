//! P11: matte and fog scattering is unbiased for any set of lights.
use harness::ensure;
use harness::fw::*;
use harness::geo::*;
use harness::lights::*;
use harness::spec::*;
use harness::stats::*;
use image::{Rgb, RgbImage};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solstrale::geo::transformation::NopTransformer;
use solstrale::hittable::{ConstantMedium, Hittable, Hittables, Quad, Sphere};
use solstrale::material::texture::{ImageMap, SolidColor, Texture, Textures};
use solstrale::material::{Lambertian, Material, RayScatter, ScatterPdf};
use solstrale::util::interval::RAY_INTERVAL;
use std::f64::consts::PI;
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    fog: bool,
    /// of the surface; the ray comes from `from`
    n: V3,
    from: V3,
    l: f64,
    /// where in the texture
    ab: [f64; 2],
    tilt: Option<V3>,
    lights: Vec<Obj>,
    dup: bool,
    color: V3,
    image: bool,
    /// the size of everything
    #[serde(default = "one")]
    k: f64,
}

fn one() -> f64 {
    1.
}

fn case(max_lights: usize) -> BoxedStrategy<Case> {
    (
        any::<bool>(),
        dir(),
        dir(),
        ray_len(),
        [0.05..0.95f64, 0.05..0.95f64],
        prop::option::weighted(0.3, (0.0..60.0f64, 0.0..std::f64::consts::TAU)),
        prop::collection::vec(around(Just(Mat::Light([1.; 3], None)).boxed(), false), 1..=max_lights),
        prop::bool::weighted(0.1),
        color(1.),
        (any::<bool>(), prop_oneof![1 => Just(1.), 2 => logf(0.03, 30.)]),
    )
        .prop_map(|(fog, n, from, l, ab, tilt, lights, dup, color, (image, k))| {
            let lights = lights.iter().map(|o| scaled(o, k)).collect();
            let tilt = tilt.map(|(t, a)| {
                let t = f64::to_radians(t);
                [t.sin() * a.cos(), t.sin() * a.sin(), t.cos()]
            });
            Case { fog, n, from, l, ab, tilt, lights, dup, color, image, k }
        })
        .boxed()
}

fn texture(s: &Case) -> Textures {
    if s.image {
        ImageMap::new(Arc::new(RgbImage::from_fn(7, 5, |x, y| Rgb([(x * 40) as u8, (y * 60) as u8, (x + y * 7) as u8]))))
    } else {
        SolidColor::new(s.color[0], s.color[1], s.color[2])
    }
}

/// something at the origin to be hit there
fn surface(s: &Case, t: Textures) -> (Hittables, RaySpec) {
    if s.fog {
        // so dense that it scatters at once
        let b = Sphere::new(sv([0.; 3]), 0.1 * s.k, Lambertian::new(SolidColor::new(0.3, 0.2, 0.1), None));
        return (ConstantMedium::new(b, 1e4 / s.k, sv(s.color)), ray_through([0.; 3], s.from, 0.4 * s.k, s.l.min(10.).min(10. * s.k)));
    }
    let (a, b, _) = basis(s.n);
    let (u, v) = (mul(a, 0.4 * s.k), mul(b, 0.4 * s.k));
    let q = sub(sub([0.; 3], mul(u, s.ab[0])), mul(v, s.ab[1]));
    let map = s.tilt.map(|n| SolidColor::new(n[0] * 0.5 + 0.5, n[1] * 0.5 + 0.5, n[2] * 0.5 + 0.5));
    let h = Quad::new(sv(q), sv(u), sv(v), Lambertian::new(t, map), &NopTransformer());
    (h, ray_through([0.; 3], s.from, 0.3 * s.k, s.l.min(10.).min(10. * s.k)))
}

fn lights(s: &Case) -> (Vec<Hittables>, Vec<G>) {
    let mut l: Vec<Hittables> = s.lights.iter().map(|o| o.build_one()).collect();
    let mut g: Vec<G> = s.lights.iter().map(geometry).collect();
    if s.dup {
        l.push(l[0].clone());
        g.push(g[0].clone());
    }
    (l, g)
}

fn check(s: &Case, obs: &mut Obs) -> Res {
    if !s.fog && dot(s.from, s.n).abs() < 0.05 {
        return Ok(());
    }
    let t = texture(s);
    let (h, ray) = surface(s, t.clone());
    let r = ray.build();
    let Some(rec) = h.hit(&r, &RAY_INTERVAL) else {
        ensure!(s.fog, "the surface is not hit");
        return Ok(());
    };
    let p = rv(rec.hit_point);
    let n = rv(rec.normal);
    let (ls, gs) = lights(s);
    if gs.iter().any(|g| g.height(p) < 0.3 * s.k) {
        return Ok(());
    }
    let want_color = if s.fog { s.color } else { rv(t.color(rec.uv)) };
    let draw = || -> Result<ScatterPdf, String> {
        match rec.material.scatter(&r, &rec, &ls) {
            RayScatter::ScatterPdf(x) => Ok(x),
            RayScatter::ScatterBasic(_) => Err("scatters without a weight".into()),
            RayScatter::ScatterEmission(_) => Err("emits".into()),
        }
    };
    for _ in 0..20 {
        let x = draw()?;
        ensure!(dist(rv(x.ray.origin), p) < 1e-9 * (1. + maxabs(p)), "the scattered ray starts at {:?} instead of {p:?}", rv(x.ray.origin));
        ensure!(dist(rv(x.color), want_color) < 1e-9, "scatters colour {:?} instead of {want_color:?}", rv(x.color));
        ensure!(x.probability.is_finite() && x.probability >= 0., "weight {}", x.probability);
        let d = rv(x.ray.direction);
        ensure!(finite3(d) && len(d) > 0., "scattered direction {d:?}");
    }
    let (a, b, c) = basis(n);
    let samples = if obs.thorough { 40_000 } else { 8_000 };
    let what = if s.fog { "fog" } else { "matte" };
    let expect = if s.fog {
        [1., 0., 0., 0., 1. / 3., 1. / 3., 0., 0., 0.]
    } else {
        [1., 2. / 3., 0., 0., 0.5, 0.25, 0., 0., 0.]
    };
    check_means(&format!("{what}: weighted mean over directions"), expect, [1e-4; 9], 0.05, samples, || {
        let Ok(x) = draw() else { return [f64::NAN; 9] };
        let (w, d) = (x.probability, unit(rv(x.ray.direction)));
        let (x, y, z) = (dot(d, a), dot(d, b), dot(d, c));
        [w, w * z, w * x, w * y, w * z * z, w * x * x, w * x * y, w * y * z, w * z * x]
    })?;
    // the share of each light
    for (i, g) in gs.iter().enumerate() {
        let f = if s.fog { Some(g.solid_angle(p) / (4. * PI)) } else { g.form_factor(p, n) };
        let Some(f) = f else {
            obs.label("light crosses the horizon");
            continue;
        };
        if f < 1e-7 && f > 0. {
            continue;
        }
        let scale = f.max(1e-7);
        check_means(&format!("{what}: weighted share of light {i}, relative to {f}"), [f / scale], [1e-4], 0.2, samples, || {
            let Ok(x) = draw() else { return [f64::NAN] };
            let d = rv(x.ray.direction);
            [if g.hit(p, d) { x.probability / scale } else { 0. }]
        })?;
        obs.label(if f > 0. { "light above" } else { "light below" });
    }
    obs.label(what);
    if s.k < 0.3 {
        obs.label("lights closer than 4");
    }
    obs.label(format!("{} lights", gs.len()));
    obs.nontrivial();
    Ok(())
}

// ---------------------------------------------------------------- parts of the directions

/// round parts of the directions, wherever the lights are, and those along the surface
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Parts {
    case: Case,
    caps: Vec<(V3, f64)>,
}

fn check_parts(p: &Parts, obs: &mut Obs) -> Res {
    let s = &p.case;
    if !s.fog && dot(s.from, s.n).abs() < 0.05 {
        return Ok(());
    }
    let (h, ray) = surface(s, texture(s));
    let r = ray.build();
    let Some(rec) = h.hit(&r, &RAY_INTERVAL) else { return Ok(()) };
    let (at, n) = (rv(rec.hit_point), rv(rec.normal));
    let (ls, gs) = lights(s);
    if gs.iter().any(|g| g.height(at) < 0.3 * s.k) {
        return Ok(());
    }
    let samples = if obs.thorough { 1_000_000 } else { 250_000 };
    let what = if s.fog { "fog" } else { "matte" };
    // the part within an angle of a direction, as the sphere that covers it
    let caps: Vec<(G, f64)> = p
        .caps
        .iter()
        .filter_map(|(d, a)| {
            let g = G::Sphere(add(at, mul(*d, 10.)), 10. * a.sin());
            let f = if s.fog { Some(g.solid_angle(at) / (4. * PI)) } else { g.form_factor(at, n) };
            f.filter(|f| *f > 0.).map(|f| (g, f))
        })
        .collect();
    let f = |i: usize| caps.get(i).map_or(1., |c| c.1);
    let bands = if s.fog { [0.03, 0.15] } else { [0.06 * 0.06, 0.3 * 0.3] };
    check_means(
        &format!("{what}: weighted share of the directions along the surface, and of parts {:?}", caps.iter().map(|c| c.1).collect::<Vec<_>>()),
        [bands[0], bands[1], f(0), f(1), f(2)],
        [1e-5; 5],
        0.05,
        samples,
        || {
            let RayScatter::ScatterPdf(x) = rec.material.scatter(&r, &rec, &ls) else { return [f64::NAN; 5] };
            let w = x.probability;
            let d = unit(rv(x.ray.direction));
            let z = dot(d, n);
            let z = if s.fog { z.abs() * 2. } else { z };
            let on = |b: bool| if b { w } else { 0. };
            let cap = |i: usize| caps.get(i).map_or(1., |c| on(c.0.hit(at, d)));
            [on(z > 0. && z < 0.06), on(z > 0. && z < 0.3), cap(0), cap(1), cap(2)]
        },
    )?;
    obs.label(what);
    obs.label(format!("{} parts", caps.len().min(3)));
    obs.nontrivial();
    Ok(())
}

// ---------------------------------------------------------------- lights flush with the surface

/// a matte surface with lamps let into its plane beside the hit point, and maybe another light
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Flush {
    at: V3,
    n: V3,
    turn: f64,
    from: V3,
    l: f64,
    /// angle and distance of the middle, size, rotation, triangle
    lamps: Vec<(f64, f64, f64, f64, bool)>,
    other: Option<Obj>,
    tri: bool,
}

fn flush() -> BoxedStrategy<Flush> {
    (
        point(20.),
        dir(),
        0.0..std::f64::consts::TAU,
        dir(),
        ray_len(),
        prop::collection::vec((0.0..std::f64::consts::TAU, 1.2..6.0f64, 0.1..0.8f64, 0.0..std::f64::consts::TAU, any::<bool>()), 1..3),
        prop::option::weighted(0.3, around(Just(Mat::Light([1.; 3], None)).boxed(), false)),
        any::<bool>(),
    )
        .prop_map(|(at, n, turn, from, l, lamps, other, tri)| Flush { at, n, turn, from, l, lamps, other, tri })
        .boxed()
}

fn check_flush(s: &Flush, obs: &mut Obs) -> Res {
    if dot(s.from, s.n).abs() < 0.05 {
        return Ok(());
    }
    let (x, y, n) = basis(s.n);
    let (a, b) = (rotate(x, n, s.turn), rotate(y, n, s.turn));
    let plane = |p: f64, q: f64| add(s.at, add(mul(a, p), mul(b, q)));
    let flat = |m: V3, size: f64, rot: f64, tri: bool, mat: Mat| {
        let e = |k: f64| sub(plane(size * (rot + k).cos(), size * (rot + k).sin()), s.at);
        let (u, v) = (e(0.), e(std::f64::consts::FRAC_PI_2));
        let q = sub(m, mul(add(u, v), if tri { 1. / 3. } else { 0.5 }));
        if tri {
            Obj::Tri { a: q, b: add(q, u), c: add(q, v), uv: None, tf: vec![], m: mat }
        } else {
            Obj::Quad { q, u, v, tf: vec![], m: mat }
        }
    };
    let h = flat(s.at, 0.6, 0.3, s.tri, matte(0.5)).build_one();
    let mut ls: Vec<Hittables> =
        s.lamps.iter().map(|(t, d, size, rot, tri)| flat(plane(d * t.cos(), d * t.sin()), *size, *rot, *tri, Mat::Light([1.; 3], None)).build_one()).collect();
    if let Some(o) = &s.other {
        // moved along, as it is placed around the origin
        let near = geometry(o);
        if near.height([0.; 3]) < 0.3 {
            return Ok(());
        }
        ls.push(match o {
            Obj::Sphere { c, r, m } => Sphere::new(sv(add(*c, s.at)), *r, m.build()),
            _ => return Ok(()),
        });
    }
    let ray = ray_through(s.at, s.from, 0.3, s.l.min(10.));
    let r = ray.build();
    let Some(rec) = h.hit(&r, &RAY_INTERVAL) else { return Err("the surface is not hit".into()) };
    let up = rv(rec.normal);
    let samples = if obs.thorough { 40_000 } else { 8_000 };
    check_means("lights in the plane of the surface: weighted mean over directions", [1., 2. / 3., 0.5], [1e-4; 3], 0.05, samples, || {
        let RayScatter::ScatterPdf(x) = rec.material.scatter(&r, &rec, &ls) else { return [f64::NAN; 3] };
        // a sample that is not a number counts as black
        if x.probability.is_nan() {
            return [0.; 3];
        }
        let w = x.probability.min(1e6);
        let z = dot(unit(rv(x.ray.direction)), up);
        if w == 0. {
            return [0.; 3];
        }
        [w, w * z, w * z * z]
    })?;
    obs.nontrivial();
    obs.label(format!("{} lamps in the plane", s.lamps.len()));
    if s.other.is_some() {
        obs.label("and another light");
    }
    Ok(())
}

fn main() {
    run_main(
        "P11",
        || {
            vec![
                facet("scatter", "every judged case", 6_000, 80_000, case(4), check),
                facet("many lights", "every judged case", 400, 8_000, case(12), check),
                facet(
                    "parts",
                    "every judged case",
                    300,
                    2_000,
                    (case(3), prop::collection::vec((dir(), 0.02..0.8f64), 5)).prop_map(|(case, caps)| Parts { case, caps }),
                    check_parts,
                ),
                facet("flush", "every judged case", 2_000, 30_000, flush(), check_flush),
            ]
        },
        &[
            "lights are at least 0.3 (times the size of the scene, 0.03 to 30) from the hit point and 0.3 from having it in their plane, or exactly flush with the surface",
            "the expectation is judged through moments up to the second order and through the closed-form share of every light",
        ],
    )
}
