//! P12: metal reflects about the normal, blurred by its fuzz.
use harness::ensure;
use harness::fw::*;
use harness::geo::*;
use harness::spec::*;
use harness::stats::*;
use image::{Rgb, RgbImage};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solstrale::geo::transformation::NopTransformer;
use solstrale::hittable::{Hittable, Hittables, Quad, Sphere, Triangle};
use solstrale::material::texture::{ImageMap, SolidColor, Texture, Textures};
use solstrale::material::{Material, Materials, Metal, RayScatter};
use solstrale::util::interval::RAY_INTERVAL;
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    shape: u8,
    at: V3,
    n: V3,
    size: f64,
    from: V3,
    l: f64,
    l2: f64,
    fuzz: f64,
    tilt: Option<V3>,
    color: V3,
    image: bool,
    lights: Vec<Obj>,
}

fn case() -> BoxedStrategy<Case> {
    (
        (0u8..3, point(10.), dir(), logf(0.05, 20.)),
        (dir(), ray_len(), ray_len()),
        prop_oneof![2 => Just(0.), 4 => 0.0..1.0f64, 1 => Just(1.), 1 => 1.0..3.0f64, 1 => logf(1e-4, 0.1)],
        prop::option::weighted(0.4, (0.0..70.0f64, 0.0..std::f64::consts::TAU)),
        (color(1.), any::<bool>()),
        prop::collection::vec(sphere_obj(20., light_mat()), 0..3),
    )
        .prop_map(|((shape, at, n, size), (from, l, l2), fuzz, tilt, (color, image), lights)| {
            let tilt = tilt.map(|(t, a)| {
                let t = f64::to_radians(t);
                [t.sin() * a.cos(), t.sin() * a.sin(), t.cos()]
            });
            Case { shape, at, n, size, from, l, l2, fuzz, tilt, color, image, lights }
        })
        .boxed()
}

fn tex(s: &Case) -> Textures {
    if s.image {
        ImageMap::new(Arc::new(RgbImage::from_fn(6, 9, |x, y| Rgb([(x * 50) as u8, (y * 27) as u8, (x * y * 3) as u8]))))
    } else {
        SolidColor::new(s.color[0], s.color[1], s.color[2])
    }
}

/// a surface that passes `at` with the normal n there
fn surface(s: &Case, m: Materials) -> Hittables {
    let (a, b, _) = basis(s.n);
    let (u, v) = (mul(a, s.size), mul(b, s.size));
    match s.shape {
        0 => Sphere::new(sv(sub(s.at, mul(s.n, s.size))), s.size, m),
        1 => Quad::new(sv(sub(s.at, add(mul(u, 0.4), mul(v, 0.7)))), sv(u), sv(v), m, &NopTransformer()),
        _ => {
            let q = sub(s.at, add(mul(u, 0.3), mul(v, 0.3)));
            Triangle::new(sv(q), sv(add(q, u)), sv(add(q, v)), m, &NopTransformer())
        }
    }
}

/// mirror image of a direction
fn mirror(d: V3, n: V3) -> V3 {
    // by its parts along and across the normal
    let along = mul(n, dot(d, n) / dot(n, n));
    sub(sub(d, along), along)
}

fn check(s: &Case, obs: &mut Obs) -> Res {
    // spheres are hit from outside
    let from = if s.shape == 0 && dot(s.from, s.n) > 0. { neg(s.from) } else { s.from };
    if dot(from, s.n).abs() < 0.05 {
        return Ok(());
    }
    // a triangle without texture coordinates has no tangents
    // and a sphere has none at its poles
    let tilt = if s.shape == 2 || (s.shape == 0 && s.n[1].abs() > 0.999) { None } else { s.tilt };
    let t = tex(s);
    let map = tilt.map(|n| SolidColor::new(n[0] * 0.5 + 0.5, n[1] * 0.5 + 0.5, n[2] * 0.5 + 0.5));
    let h = surface(s, Metal::new(t.clone(), map, s.fuzz));
    let lights: Vec<Hittables> = s.lights.iter().map(|o| o.build_one()).collect();
    let n = if obs.thorough { 4000 } else { 400 };
    for l in [s.l, s.l2] {
        let back = (s.size * 0.5).max(l * 0.01);
        let ray = ray_through(s.at, from, back, l);
        let r = ray.build();
        let Some(rec) = h.hit(&r, &RAY_INTERVAL) else { return Err("the surface is not hit".into()) };
        let p = rv(rec.hit_point);
        let nn = rv(rec.normal);
        let want = mirror(from, nn);
        let want_color = rv(t.color(rec.uv));
        let mut err = Ok(());
        let mut draw = || -> V3 {
            match rec.material.scatter(&r, &rec, &lights) {
                RayScatter::ScatterBasic(x) => {
                    if dist(rv(x.ray.origin), p) > 1e-9 * (1. + maxabs(p)) {
                        err = Err(format!("starts at {:?} instead of {p:?}", rv(x.ray.origin)));
                    }
                    if dist(rv(x.color), want_color) > 1e-9 {
                        err = Err(format!("colour {:?} instead of {want_color:?}", rv(x.color)));
                    }
                    rv(x.ray.direction)
                }
                _ => {
                    err = Err("metal does not scatter like a mirror".into());
                    [f64::NAN; 3]
                }
            }
        };
        for _ in 0..10 {
            let d = draw();
            let off = dist(d, want);
            ensure!(off <= s.fuzz + 1e-7, "direction {d:?} is {off} from the mirror direction {want:?}, fuzz {}", s.fuzz);
        }
        if s.fuzz >= 1e-3 {
            let (a, b, c) = basis(s.color);
            let r = check_means(
                "displacement in the ball of the fuzz",
                [0., 0., 0., 0., 0., 0., 0., 0., 0.5, 1. / 3.],
                [1e-6 / s.fuzz; 10],
                0.05,
                n,
                || {
                    let e = mul(sub(draw(), want), 1. / s.fuzz);
                    let q = len(e);
                    if q > 1. + 1e-6 / s.fuzz {
                        return [f64::NAN; 10];
                    }
                    let e = if q > 0. { mul(e, 1. / q) } else { e };
                    let (x, y, z) = (dot(e, a), dot(e, b), dot(e, c));
                    let q3 = q * q * q;
                    [x, y, z, x * y, y * z, z * x, x * x - 1. / 3., z * z - 1. / 3., q3, q3 * q3]
                },
            );
            r?;
        }
        err?;
    }
    obs.label(if s.fuzz == 0. { "no fuzz" } else { "fuzz" });
    obs.label(if tilt.is_some() { "bump map" } else { "plain" });
    obs.nontrivial();
    Ok(())
}

/// the outermost parts of the blur, from many draws
fn check_blur(s: &Case, obs: &mut Obs) -> Res {
    let from = if s.shape == 0 && dot(s.from, s.n) > 0. { neg(s.from) } else { s.from };
    if dot(from, s.n).abs() < 0.05 || s.fuzz < 0.01 {
        return Ok(());
    }
    let h = surface(s, Metal::new(tex(s), None, s.fuzz));
    let lights: Vec<Hittables> = s.lights.iter().map(|o| o.build_one()).collect();
    let r = ray_through(s.at, from, (s.size * 0.5).max(s.l * 0.01), s.l).build();
    let Some(rec) = h.hit(&r, &RAY_INTERVAL) else { return Err("the surface is not hit".into()) };
    let want = mirror(from, rv(rec.normal));
    let draw = || match rec.material.scatter(&r, &rec, &lights) {
        RayScatter::ScatterBasic(x) => mul(sub(rv(x.ray.direction), want), 1. / s.fuzz),
        _ => [f64::NAN; 3],
    };
    let n = if obs.thorough { 400_000 } else { 100_000 };
    let (a, b, _) = basis(s.color);
    // rounding of the displacement, in parts of the ball
    let clip = |x: f64| if (-1e-5..1. + 1e-5).contains(&x) { x.clamp(0., 1.) } else { x };
    check_ends("distance from the mirror direction", n, || clip(len(draw()).powi(3)))?;
    check_ends("displacement along an axis", n, || (1. + dot(unit(draw()), a)) * 0.5)?;
    check_ends("displacement around an axis", n, || {
        let d = draw();
        dot(d, a).atan2(dot(d, b)) / (2. * std::f64::consts::PI) + 0.5
    })?;
    obs.nontrivial();
    Ok(())
}

fn main() {
    run_main(
        "P12",
        || {
            vec![
                facet("reflect", "every judged hit", 400_000, 4_000_000, case(), check),
                facet("blur", "a fuzz of at least 0.01", 300, 6_000, case(), check_blur),
            ]
        },
        &["incoming directions within 5 % of grazing are not judged; the spread of the blur is judged by moments and outermost parts of the displacement"],
    )
}
