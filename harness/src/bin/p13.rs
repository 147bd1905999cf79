//! P13: glass refracts by Snell's law and reflects by Fresnel (Schlick).
use harness::ensure;
use harness::fw::*;
use harness::geo::*;
use harness::spec::*;
use harness::stats::*;
use image::{Rgb, RgbImage};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solstrale::geo::transformation::NopTransformer;
use solstrale::hittable::{Hittable, Hittables, Quad, Sphere};
use solstrale::material::texture::{ImageMap, SolidColor, Texture};
use solstrale::material::{Dielectric, Material, RayScatter};
use solstrale::util::interval::RAY_INTERVAL;
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    sphere: bool,
    at: V3,
    n: V3,
    size: f64,
    from: V3,
    l: [f64; 2],
    ior: f64,
    tilt: Option<V3>,
    color: V3,
    image: bool,
}

fn case() -> BoxedStrategy<Case> {
    (
        (any::<bool>(), point(10.), dir(), logf(0.05, 20.)),
        (
            prop_oneof![
                3 => dir().prop_map(|d| (d, 0u8)),
                1 => Just(([0., 0., 0.], 1u8)),
                1 => Just(([0., 0., 0.], 2u8)),
            ],
            [ray_len(), ray_len()],
        ),
        prop_oneof![1 => Just(1.5), 1 => Just(1.), 4 => 1.0..2.6f64, 1 => 0.3..1.0f64],
        prop::option::weighted(0.3, (0.0..50.0f64, 0.0..std::f64::consts::TAU)),
        (color(1.), any::<bool>()),
    )
        .prop_map(|((sphere, at, n, size), ((from, straight), l), ior, tilt, (color, image))| {
            let tilt = tilt.map(|(t, a)| {
                let t = f64::to_radians(t);
                [t.sin() * a.cos(), t.sin() * a.sin(), t.cos()]
            });
            let from = match straight {
                0 => from,
                1 => neg(n),
                _ => n,
            };
            Case { sphere, at, n, size, from, l, ior, tilt, color, image }
        })
        .boxed()
}

fn check(s: &Case, obs: &mut Obs) -> Res {
    let cosg = dot(s.from, s.n);
    if cosg.abs() < 0.03 {
        return Ok(());
    }
    let tex = if s.image {
        ImageMap::new(Arc::new(RgbImage::from_fn(6, 9, |x, y| Rgb([(x * 50) as u8, (y * 27) as u8, (x * y * 3) as u8]))))
    } else {
        SolidColor::new(s.color[0], s.color[1], s.color[2])
    };
    // spheres have no tangents at their poles
    let tilt = if s.sphere && s.n[1].abs() > 0.999 { None } else { s.tilt };
    let map = tilt.map(|n| SolidColor::new(n[0] * 0.5 + 0.5, n[1] * 0.5 + 0.5, n[2] * 0.5 + 0.5));
    let m = Dielectric::new(tex.clone(), map, s.ior);
    let (a, b, _) = basis(s.n);
    let (u, v) = (mul(a, s.size), mul(b, s.size));
    let h: Hittables = if s.sphere {
        Sphere::new(sv(sub(s.at, mul(s.n, s.size))), s.size, m)
    } else {
        Quad::new(sv(sub(s.at, add(mul(u, 0.4), mul(v, 0.7)))), sv(u), sv(v), m, &NopTransformer())
    };
    for l in s.l {
        // from inside a sphere: start within the chord
        let back = if s.sphere && cosg > 0. { s.size * cosg } else { s.size * 0.5 };
        if back / l < 0.01 {
            continue;
        }
        let r = ray_through(s.at, s.from, back, l).build();
        let Some(rec) = h.hit(&r, &RAY_INTERVAL) else { return Err("the surface is not hit".into()) };
        let p = rv(rec.hit_point);
        ensure!(dist(p, s.at) < 1e-6 * (1. + maxabs(s.at) + s.size), "hit elsewhere: {p:?}");
        let n = rv(rec.normal);
        let cos = -dot(s.from, n);
        if cos < 0.01 {
            continue;
        }
        let entering = cosg < 0.;
        let eta = if entering { 1. / s.ior } else { s.ior };
        let sin2 = eta * eta * (1. - cos * cos).max(0.);
        let reflected = add(s.from, mul(n, 2. * cos));
        // Snell: sin(out) = eta * sin(in), in the plane of incidence
        let tangential = add(s.from, mul(n, cos));
        let refracted = if sin2 < 1. { Some(sub(mul(tangential, eta), mul(n, (1. - sin2).sqrt()))) } else { None };
        if (sin2 - 1.).abs() < 1e-6 {
            continue;
        }
        let want_color = rv(tex.color(rec.uv));
        let mut err: Res = Ok(());
        // some(true): reflected
        let mut draw = || -> Option<bool> {
            let RayScatter::ScatterBasic(x) = rec.material.scatter(&r, &rec, &[]) else {
                err = Err("glass does not scatter like glass".into());
                return None;
            };
            if dist(rv(x.ray.origin), p) > 1e-9 * (1. + maxabs(p)) {
                err = Err(format!("starts at {:?} instead of {p:?}", rv(x.ray.origin)));
                return None;
            }
            if dist(rv(x.color), want_color) > 1e-9 {
                err = Err(format!("colour {:?} instead of {want_color:?}", rv(x.color)));
                return None;
            }
            let d = rv(x.ray.direction);
            let tol = 1e-6 / (1. - sin2).abs().sqrt().max(1e-3);
            if (len(d) - 1.).abs() > tol {
                err = Err(format!("direction of length {}", len(d)));
                return None;
            }
            if refracted.is_some_and(|w| dist(w, d) < tol) {
                return Some(false);
            }
            if dist(reflected, d) < tol {
                return Some(true);
            }
            err = Err(format!("direction {d:?} is neither reflected {reflected:?} nor refracted {refracted:?}"));
            None
        };
        let r0 = ((1. - eta) / (1. + eta)).powi(2);
        let schlick = if refracted.is_none() { 1. } else { r0 + (1. - r0) * (1. - cos).powi(5) };
        // for index 1 and straight through, both directions may be the same
        let distinct = refracted.is_none_or(|w| dist(w, reflected) > 1e-2);
        if !distinct {
            continue;
        }
        let n_draws = if obs.thorough { 8000 } else { 1000 };
        if refracted.is_none() {
            for _ in 0..60 {
                let d = draw();
                if d != Some(true) {
                    err?;
                    return Err("refracts where Snell's law has no solution".into());
                }
            }
            obs.label("total reflection");
        } else {
            let exact = exact_share(&mut draw);
            if let Some(x) = exact {
                if (x - schlick).abs() > 1e-6 {
                    err?;
                    return Err(format!("reflects for a share of {x} of the random numbers (cosine {cos}, ratio {eta}), it should be {schlick}"));
                }
                obs.label("exact share");
            }
            let res = check_means(
                &format!("share of reflections (cosine {cos}, ratio {eta})"),
                [schlick],
                [1e-4],
                (schlick * (1. - schlick)).sqrt().max(0.02),
                n_draws,
                || [match draw() {
                    Some(true) => 1.,
                    Some(false) => 0.,
                    None => f64::NAN,
                }],
            );
            err?;
            res?;
            obs.label(if entering { "entering" } else { "leaving" });
        }
        obs.nontrivial();
    }
    Ok(())
}

fn main() {
    run_main(
        "P13",
        || vec![facet("scatter", "a hit judged for direction and share", 300_000, 3_000_000, case(), check)],
        &["grazing incidence (cosine below 0.01) and angles within 1e-6 of total reflection are not judged"],
    )
}
