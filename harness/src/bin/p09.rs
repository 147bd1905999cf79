//! P09: light sampling and its probability density agree.
use harness::ensure;
use harness::fw::*;
use harness::geo::*;
use harness::spec::*;
use harness::stats::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solstrale::hittable::{Hittable, Hittables};
use std::f64::consts::PI;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    light: Obj,
    /// direction and distance (in sizes of the light, added to its surface) of the viewpoint
    dir: V3,
    away: f64,
    /// where on the light a test direction goes, and a random one
    ab: [f64; 2],
    other: V3,
    l: f64,
}

/// geometry after transformation
enum G {
    Sphere(V3, f64),
    Flat { q: V3, u: V3, v: V3, tri: bool },
}

fn geometry(o: &Obj) -> G {
    match o {
        Obj::Sphere { c, r, .. } => G::Sphere(*c, *r),
        Obj::Quad { q, u, v, tf, .. } => {
            G::Flat { q: apply(tf, *q, false), u: apply(tf, *u, true), v: apply(tf, *v, true), tri: false }
        }
        Obj::Tri { a, b, c, tf, .. } => {
            let (a, b, c) = (apply(tf, *a, false), apply(tf, *b, false), apply(tf, *c, false));
            G::Flat { q: a, u: sub(b, a), v: sub(c, a), tri: true }
        }
        _ => unreachable!(),
    }
}

fn light() -> BoxedStrategy<Obj> {
    let m = || light_mat();
    prop_oneof![
        (point(10.), logf(0.02, 20.), m()).prop_map(|(c, r, m)| Obj::Sphere { c, r, m }),
        quad_obj(10., m()),
        tri_obj(10., m()),
        (point(10.), edges(0.02, 30.), m()).prop_map(|(q, (u, v), m)| Obj::Quad { q, u, v, tf: vec![], m }),
        (point(10.), edges(0.02, 30.), m()).prop_map(|(a, (u, v), m)| Obj::Tri {
            a,
            b: add(a, u),
            c: add(a, v),
            uv: None,
            tf: vec![],
            m
        }),
    ]
    .boxed()
}

fn case() -> BoxedStrategy<Case> {
    (light(), dir(), prop_oneof![3 => logf(0.05, 10.), 1 => logf(10., 300.), 1 => logf(0.0002, 0.1)], [0.0..1.0f64, 0.0..1.0f64], dir(), prop_oneof![3 => logf(0.02, 20.), 1 => logf(1e-6, 1e6)])
        .prop_map(|(light, dir, away, ab, other, l)| Case { light, dir, away, ab, other, l })
        .boxed()
}

/// the viewpoint, and the farthest extent of the light around its middle; None if unsuitable
fn view(s: &Case, g: &G) -> Option<V3> {
    match g {
        G::Sphere(c, r) => {
            let o = add(*c, mul(s.dir, r * (1. + s.away)));
            if dist(o, *c) - r < 0.005 {
                return None;
            }
            Some(o)
        }
        G::Flat { q, u, v, tri } => {
            let mid = if *tri { mul(add(*u, *v), 1. / 3.) } else { mul(add(*u, *v), 0.5) };
            let size = len(*u).max(len(*v));
            let o = add(add(*q, mid), mul(s.dir, size * s.away));
            let n = unit(cross(*u, *v));
            let height = dot(sub(o, *q), n).abs();
            if height < 0.02 * size || height < 0.005 {
                return None;
            }
            Some(o)
        }
    }
}

/// reference solid angle density of direction d from o; None when too close to the edge to tell
fn reference(g: &G, o: V3, d: V3) -> Option<f64> {
    let d = unit(d);
    match g {
        G::Sphere(c, r) => {
            let oc = sub(*c, o);
            let dd = len(oc);
            let along = dot(oc, d);
            let perp = len(sub(oc, mul(d, along)));
            if (perp - r).abs() < 1e-5 * dd {
                return None;
            }
            if perp > *r || along < 0. {
                return Some(0.);
            }
            let s2 = (r / dd) * (r / dd);
            // 1 - sqrt(1 - s2) without cancellation
            let cap = s2 / (1. + (1. - s2).sqrt());
            Some(1. / (2. * PI * cap))
        }
        G::Flat { q, u, v, tri } => {
            let (t, a, b, _, cos) = plane_crossing(*q, *u, *v, o, d)?;
            if cos.abs() < 1e-4 {
                return None;
            }
            let m = if *tri { a.min(b).min(1. - a - b) } else { a.min(b).min(1. - a).min(1. - b) };
            if m.abs() < 1e-5 {
                return None;
            }
            if m < 0. || t <= 0. {
                return Some(0.);
            }
            let area = len(cross(*u, *v)) * if *tri { 0.5 } else { 1. };
            Some(t * t / (cos.abs() * area))
        }
    }
}

fn target(g: &G, o: V3, ab: [f64; 2]) -> V3 {
    match g {
        G::Sphere(c, r) => {
            // within the visible disc
            let oc = sub(*c, o);
            let (a, b, w) = basis(oc);
            let smax = r / len(oc);
            let s = smax * ab[0].sqrt();
            let p = ab[1] * 2. * PI;
            add(mul(w, (1. - s * s).sqrt()), add(mul(a, s * p.cos()), mul(b, s * p.sin())))
        }
        G::Flat { q, u, v, tri } => {
            let [mut a, mut b] = ab;
            if *tri && a + b > 1. {
                (a, b) = (1. - a, 1. - b);
            }
            sub(lerp3(*q, *u, a, *v, b), o)
        }
    }
}

fn name(g: &G) -> &'static str {
    match g {
        G::Sphere(..) => "sphere",
        G::Flat { tri: false, .. } => "quad",
        G::Flat { .. } => "triangle",
    }
}

fn pdf(h: &Hittables, o: V3, d: V3) -> f64 {
    h.pdf_value(sv(o), sv(d))
}

fn check_density(s: &Case, obs: &mut Obs) -> Res {
    let g = geometry(&s.light);
    let Some(o) = view(s, &g) else { return Ok(()) };
    let h = s.light.build_one();
    // towards a point of the light, a random direction, away from the light, and generated directions
    let t = target(&g, o, s.ab);
    let mut dirs = vec![t, s.other, neg(t)];
    for _ in 0..4 {
        dirs.push(rv(h.random_direction(sv(o))));
    }
    for (i, d) in dirs.iter().enumerate() {
        ensure!(finite3(*d) && len(*d) > 0., "sampled direction is {d:?}");
        if i > 2 {
            points_at(&g, o, *d)?;
        }
        let Some(want) = reference(&g, o, *d) else { continue };
        let tol = 1e-5 * want + if want == 0. { 0. } else { 1e-9 };
        for (how, x) in [("", *d), ("unit ", unit(*d)), ("scaled ", mul(unit(*d), s.l))] {
            // what is nearer than a thousandth of the direction's length is not hit,
            // and short directions almost in the plane of a light count as parallel to it
            if dist_to(&g, o) / len(x) < 0.004 || slant(&g, x) < 1e-7 {
                continue;
            }
            let got = pdf(&h, o, x);
            ensure!((got - want).abs() <= tol, "density of {how}direction {i} is {got}, not {want}");
        }
        if i == 0 && want > 0. {
            obs.nontrivial();
        }
        if i == 1 {
            obs.label(if want > 0. { "random direction hits" } else { "random direction misses" });
        }
    }
    // what was asked of one light and from one place has no influence on the answers for others
    let other = match &s.light {
        Obj::Sphere { c, r, m } => Obj::Sphere { c: *c, r: r * 0.7, m: m.clone() },
        Obj::Quad { q, u, v, tf, m } => Obj::Quad { q: *q, u: mul(*u, 1.5), v: *v, tf: tf.clone(), m: m.clone() },
        Obj::Tri { a, b, c, uv, tf, m } => Obj::Tri { a: *a, b: *b, c: add(*c, sub(*b, *a)), uv: *uv, tf: tf.clone(), m: m.clone() },
        o => o.clone(),
    };
    let (g2, h2) = (geometry(&other), other.build_one());
    let o2 = add(o, mul(sub(o, sub(o, t)), -0.3));
    let _ = pdf(&h, o, t);
    for (what, g, h, o) in [("another light", &g2, &h2, o), ("the light from another place", &g, &h, o2)] {
        if dist_to(g, o) / len(t) < 0.004 || slant(g, t) < 1e-7 {
            continue;
        }
        let Some(want) = reference(g, o, t) else { continue };
        let got = pdf(h, o, t);
        ensure!((got - want).abs() <= 1e-5 * want + if want == 0. { 0. } else { 1e-9 }, "density of {what} is {got}, not {want}");
    }
    obs.label(name(&g));
    Ok(())
}

fn dist_to(g: &G, o: V3) -> f64 {
    match g {
        G::Sphere(c, r) => dist(*c, o) - r,
        G::Flat { q, u, v, .. } => dot(sub(o, *q), unit(cross(*u, *v))).abs(),
    }
}

fn slant(g: &G, d: V3) -> f64 {
    match g {
        G::Sphere(..) => 1.,
        G::Flat { u, v, .. } => dot(d, unit(cross(*u, *v))).abs(),
    }
}

fn points_at(g: &G, o: V3, d: V3) -> Res {
    match g {
        G::Sphere(c, r) => {
            let d = unit(d);
            let oc = sub(*c, o);
            let perp = len(sub(oc, mul(d, dot(oc, d))));
            ensure!(
                dot(oc, d) > 0. && perp <= r * (1. + 1e-6) + 1e-7 * len(oc),
                "sampled direction {d:?} passes the sphere at {perp} (radius {r})"
            );
        }
        G::Flat { q, u, v, tri } => {
            let Some((t, a, b, _, _)) = plane_crossing(*q, *u, *v, o, d) else { return Err("sampled direction is parallel to the light".into()) };
            let m = if *tri { a.min(b).min(1. - a - b) } else { a.min(b).min(1. - a).min(1. - b) };
            ensure!(m > -1e-6 && t > 0., "sampled direction passes the light's plane outside of it ({a}, {b})");
        }
    }
    Ok(())
}

fn check_spread(s: &Case, obs: &mut Obs) -> Res {
    let g = geometry(&s.light);
    let Some(o) = view(s, &g) else { return Ok(()) };
    let h = s.light.build_one();
    let n = if obs.thorough { 20_000 } else { 4_000 };
    let os = sv(o);
    match &g {
        G::Sphere(c, r) => {
            let oc = sub(*c, o);
            let (a, b, w) = basis(oc);
            let s2 = (r / len(oc)).powi(2);
            let cap = s2 / (1. + (1. - s2).sqrt());
            // the cosine is uniform in [1-cap, 1]; the share of the cap inside the direction is uniform
            check_means("sphere light", [0.5, 1. / 3., 0., 0., 0., 0., 0., 0.], [2e-7 / cap.sqrt(); 8], 0.2, n, || {
                let d = unit(rv(h.random_direction(os)));
                let x = dot(d, a);
                let y = dot(d, b);
                let p2 = x * x + y * y;
                let z = dot(d, w);
                let one_minus = if z > 0. { p2 / (1. + z) } else { 1. - z };
                let f = one_minus / cap;
                let p = y.atan2(x);
                [f, f * f, p.cos(), p.sin(), (2. * p).cos(), (2. * p).sin(), (f - 0.5) * p.cos(), (f - 0.5) * p.sin()]
            })?;
        }
        G::Flat { q, u, v, tri } => {
            let e = if *tri {
                [1. / 3., 1. / 3., 1. / 6., 1. / 6., 1. / 12., 0.1, 0.1]
            } else {
                [0.5, 0.5, 1. / 3., 1. / 3., 0.25, 0.25, 0.25]
            };
            let m = 1e-7;
            check_means(if *tri { "triangle light" } else { "quad light" }, e, [m; 7], 0.05, n, || {
                let d = rv(h.random_direction(os));
                match plane_crossing(*q, *u, *v, o, d) {
                    Some((_, a, b, _, _)) => [a, b, a * a, b * b, a * b, a * a * a, b * b * b],
                    None => [f64::NAN; 7],
                }
            })?;
        }
    }
    obs.label(name(&g));
    obs.nontrivial();
    Ok(())
}

/// shares of the light, down to narrow strips along its edges, from many samples
fn check_fine(s: &Case, obs: &mut Obs) -> Res {
    let g = geometry(&s.light);
    let Some(o) = view(s, &g) else { return Ok(()) };
    let h = s.light.build_one();
    let os = sv(o);
    let mut e = [0.1; 25];
    e[20..24].fill(0.004);
    e[24] = 0.;
    let mut tol = 1e-6;
    // what is uniform in the unit square
    let mut xy: Box<dyn FnMut() -> (f64, f64)> = match &g {
        G::Sphere(c, r) => {
            let oc = sub(*c, o);
            let (a, b, w) = basis(oc);
            let s2 = (r / len(oc)).powi(2);
            let cap = s2 / (1. + (1. - s2).sqrt());
            tol = 2e-7 / cap.sqrt();
            if tol > 1e-3 {
                return Ok(());
            }
            let h = &h;
            Box::new(move || {
                let d = unit(rv(h.random_direction(os)));
                let (x, y, z) = (dot(d, a), dot(d, b), dot(d, w));
                let p2 = x * x + y * y;
                let one_minus = if z > 0. { p2 / (1. + z) } else { 1. - z };
                (one_minus / cap, y.atan2(x) / (2. * PI) + 0.5)
            })
        }
        G::Flat { q, u, v, tri } => {
            let h = &h;
            Box::new(move || match plane_crossing(*q, *u, *v, o, rv(h.random_direction(os))) {
                Some((_, a, b, _, _)) if *tri => (1. - (1. - a) * (1. - a), b / (1. - a)),
                Some((_, a, b, _, _)) => (a, b),
                None => (f64::NAN, f64::NAN),
            })
        }
    };
    let n = if obs.thorough { 400_000 } else { 100_000 };
    check_means(&format!("shares of a {}", name(&g)), e, [tol; 25], 0.01, n, || {
        let (x, y) = xy();
        let mut r = [0.; 25];
        if !(x.is_finite() && y.is_finite()) {
            return [f64::NAN; 25];
        }
        r[((x * 10.) as usize).min(9)] = 1.;
        r[10 + ((y * 10.) as usize).min(9)] = 1.;
        for (k, c) in [x < 0.004, x > 0.996, y < 0.004, y > 0.996].into_iter().enumerate() {
            r[20 + k] = if c { 1. } else { 0. };
        }
        r[24] = (x - 0.5) * (y - 0.5);
        r
    })?;
    obs.label(name(&g));
    obs.nontrivial();
    Ok(())
}

/// the reported density, integrated over all directions by sampling a cone around the light
fn check_integral(s: &Case, obs: &mut Obs) -> Res {
    let g = geometry(&s.light);
    let Some(o) = view(s, &g) else { return Ok(()) };
    let h = s.light.build_one();
    let (mid, rad) = match &g {
        G::Sphere(c, r) => (*c, *r),
        G::Flat { q, u, v, tri } => {
            let m = add(*q, mul(add(*u, *v), if *tri { 1. / 3. } else { 0.5 }));
            let corners = [*q, add(*q, *u), add(*q, *v), add(*q, add(*u, *v))];
            let k = if *tri { 3 } else { 4 };
            (m, corners[..k].iter().map(|c| dist(*c, m)).fold(0., f64::max))
        }
    };
    // smallest cosine of the cone around the light; the whole sphere when the viewpoint is close
    let d = dist(mid, o);
    let cap = if d > rad * 1.2 {
        let s2 = (rad / d) * (rad / d);
        (s2 / (1. + (1. - s2).sqrt()) * 1.02).min(2.)
    } else {
        2.
    };
    let (a, b, w) = basis(sub(mid, o));
    let n = if obs.thorough { 20_000 } else { 4_000 };
    let mut seed = mix(hash_bytes(format!("{o:?}").as_bytes()));
    let mut rnd = || {
        seed = mix(seed);
        (seed >> 11) as f64 / (1u64 << 53) as f64
    };
    // flat lights seen at a small angle have very uneven densities: those are judged by formula alone
    if let G::Flat { q, u, v, .. } = &g {
        let cos = (dot(sub(o, mid), unit(cross(*u, *v))) / d).abs();
        let area_seen = len(cross(*u, *v)) * cos / (d * d);
        if cos < 0.2 || dist_to(&g, o) < 0.5 * rad || area_seen / (2. * PI * cap) < 0.02 {
            return Ok(());
        }
        let _ = (q, v);
    }
    check_means("integral of the density", [1.], [1e-5], 0.5, n, || {
        let z = cap * rnd();
        let p = 2. * PI * rnd();
        let sn = (z * (2. - z)).max(0.).sqrt();
        let d = add(mul(w, 1. - z), add(mul(a, sn * p.cos()), mul(b, sn * p.sin())));
        [pdf(&h, o, d) * 2. * PI * cap]
    })?;
    obs.label(name(&g));
    obs.nontrivial();
    Ok(())
}

fn main() {
    run_main(
        "P09",
        || {
            vec![
                facet("density", "a direction towards the light judged", 1_600_000, 8_000_000, case(), check_density),
                facet("spread", "every judged viewpoint", 60_000, 600_000, case(), check_spread),
                facet("shares", "every judged viewpoint", 400, 6_000, case(), check_fine),
                facet("integral", "every judged viewpoint", 60_000, 600_000, case(), check_integral),
            ]
        },
        &[
            "viewpoints at least 0.005 from the light and not within 2 % of edge-on",
            "means of samples are judged at 5 and, with 16 times the samples, 7 standard errors",
        ],
    )
}
