//! P01: a ray hits a surface exactly where it crosses it.
use harness::ensure;
use harness::fw::*;
use harness::geo::*;
use harness::hits::*;
use harness::spec::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solstrale::hittable::{Bvh, Hittable};

/// how the ray-length interval is placed relative to the crossings
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Iv {
    Default,
    Universe,
    /// ends at these positions of the sequence of crossings (k + fraction of the gap)
    Between(f64, f64),
}

fn iv() -> BoxedStrategy<Iv> {
    prop_oneof![
        4 => Just(Iv::Default),
        1 => Just(Iv::Universe),
        3 => (0.0..3.0f64, 0.0..3.0f64).prop_map(|(a, b)| Iv::Between(a.min(b), a.max(b))),
    ]
    .boxed()
}

fn place(iv: &Iv, cs: &[Cross], step: f64) -> (f64, f64) {
    match iv {
        Iv::Default => (0.001, f64::INFINITY),
        Iv::Universe => (f64::NEG_INFINITY, f64::INFINITY),
        Iv::Between(a, b) => {
            let mut ts: Vec<f64> = cs.iter().map(|c| c.t).collect();
            ts.sort_by(f64::total_cmp);
            if ts.is_empty() {
                return (a * step, b * step);
            }
            let pos = |x: f64| -> f64 {
                let k = x.floor() as usize;
                let f = x - x.floor();
                let lo = if k == 0 { ts[0] - step } else { ts[(k - 1).min(ts.len() - 1)] };
                let hi = if k < ts.len() { ts[k] } else { lo + step };
                lo + f * (hi - lo)
            };
            (pos(*a), pos(*b))
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SphereCase {
    c: V3,
    r: f64,
    /// aim: the ray passes the centre at this fraction of the radius
    off: f64,
    dir: V3,
    side: f64,
    back: f64,
    l: f64,
    iv: Iv,
}

fn sphere_case() -> BoxedStrategy<SphereCase> {
    (
        point(20.),
        logf(0.01, 100.),
        prop_oneof![1 => Just(0.), 6 => 0.0..1.3f64, 1 => 0.97..1.03f64],
        dir(),
        0.0..std::f64::consts::TAU,
        prop_oneof![3 => 1.0..20.0f64, 1 => -1.0..1.0f64, 1 => -5.0..0.0f64, 1 => 20.0..200.0f64],
        ray_len(),
        iv(),
    )
        .prop_map(|(c, r, off, dir, side, back, l, iv)| SphereCase { c, r, off, dir, side, back, l, iv })
        .boxed()
}

fn check_sphere(s: &SphereCase, obs: &mut Obs) -> Res {
    let (a, b, w) = basis(s.dir);
    let p = add(s.c, mul(add(mul(a, s.side.cos()), mul(b, s.side.sin())), s.off * s.r));
    let ray = RaySpec { o: sub(p, mul(w, s.back * s.r)), d: mul(w, s.l) };
    let scale = dist(ray.o, s.c) + s.r + maxabs(s.c);
    let Some(cs) = sphere_crossings(s.c, s.r, ray.o, ray.d) else {
        obs.label("too close to call");
        return Ok(());
    };
    let iv = place(&s.iv, &cs, s.r / s.l);
    let Some(want) = nearest(&cs, iv, 1e-7 * (1. + scale) / s.l) else {
        obs.label("too close to call");
        return Ok(());
    };
    let h = solstrale::hittable::Sphere::new(sv(s.c), s.r, matte(0.5).build());
    let r = ray.build();
    let got = h.hit(&r, &interval(iv));
    obs.label(match (&want, cs.len()) {
        (Some(c), _) if dot(ray.d, c.n) < 0. => "hit from outside",
        (Some(_), _) => "hit from inside",
        (None, 0) => "miss",
        (None, _) => "crossings outside the interval",
    });
    obs.nontrivial_if(!cs.is_empty());
    check_hit("sphere", got.as_ref(), want.as_ref(), &ray, scale)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FlatCase {
    q: V3,
    u: V3,
    v: V3,
    tf: Vec<Tf>,
    tri: bool,
    /// plane coordinates aimed at
    a: f64,
    b: f64,
    dir: V3,
    back: f64,
    l: f64,
    iv: Iv,
}

fn flat_case(tri: bool) -> BoxedStrategy<FlatCase> {
    let ab = prop_oneof![
        6 => -0.3..1.3f64,
        1 => -0.02..0.02f64,
        1 => 0.98..1.02f64,
        1 => (0i32..=2).prop_map(|i| i as f64 / 2.),
    ];
    let size = prop_oneof![4 => edges(0.1, 10.), 1 => edges(1e-4, 1e-2), 1 => edges(10., 1000.)];
    (
        (point(10.), size, tfs(3, true)),
        (ab.clone(), ab),
        dir(),
        prop_oneof![4 => 0.1..20.0f64, 1 => -20.0..-0.1f64],
        ray_len(),
        iv(),
    )
        .prop_map(move |((q, (u, v), tf), (a, b), dir, back, l, iv)| FlatCase {
            q,
            u,
            v,
            tf,
            tri,
            a,
            b,
            dir,
            back,
            l,
            iv,
        })
        .boxed()
}

fn check_flat(s: &FlatCase, obs: &mut Obs) -> Res {
    let (q, u, w) = (apply(&s.tf, s.q, false), apply(&s.tf, s.u, true), apply(&s.tf, s.v, true));
    let size = len(u).max(len(w));
    let p = lerp3(q, u, s.a, w, s.b);
    let ray = RaySpec { o: sub(p, mul(s.dir, s.back * size)), d: mul(s.dir, s.l) };
    let scale = dist(ray.o, q) + size + maxabs(q);
    let Some(c) = flat_crossing(q, u, w, s.tri, &ray) else {
        obs.label("too close to call");
        return Ok(());
    };
    let cs: Vec<Cross> = c.into_iter().collect();
    let iv = place(&s.iv, &cs, size / s.l);
    let Some(want) = nearest(&cs, iv, 1e-7 * (1. + scale) / s.l) else {
        obs.label("too close to call");
        return Ok(());
    };
    let o = if s.tri {
        Obj::Tri { a: s.q, b: add(s.q, s.u), c: add(s.q, s.v), uv: None, tf: s.tf.clone(), m: matte(0.5) }
    } else {
        Obj::Quad { q: s.q, u: s.u, v: s.v, tf: s.tf.clone(), m: matte(0.5) }
    };
    let h = o.build_one();
    let r = ray.build();
    let got = h.hit(&r, &interval(iv));
    obs.label(match (&want, cs.len()) {
        (Some(c), _) if dot(ray.d, c.n) < 0. => "hit front",
        (Some(_), _) => "hit back",
        (None, 0) => "passes beside",
        (None, _) => "crossing outside the interval",
    });
    obs.nontrivial_if(!cs.is_empty());
    check_hit(if s.tri { "triangle" } else { "quad" }, got.as_ref(), want.as_ref(), &ray, scale)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BoxCase {
    a: V3,
    b: V3,
    tf: Vec<Tf>,
    /// position inside the box aimed at, in fractions (may be outside 0..1)
    f: V3,
    dir: V3,
    back: f64,
    l: f64,
    iv: Iv,
    grouped: bool,
}

fn box_case() -> BoxedStrategy<BoxCase> {
    (
        box_obj(10., Just(matte(0.5)).boxed()),
        [-0.2..1.2f64, -0.2..1.2f64, -0.2..1.2f64],
        dir(),
        prop_oneof![3 => 1.0..5.0f64, 3 => -0.3..0.3f64, 1 => -5.0..-1.0f64],
        ray_len(),
        iv(),
        any::<bool>(),
    )
        .prop_map(|(o, f, dir, back, l, iv, grouped)| match o {
            Obj::Boxx { a, b, tf, .. } => BoxCase { a, b, tf, f, dir, back, l, iv, grouped },
            _ => unreachable!(),
        })
        .boxed()
}

fn check_box(s: &BoxCase, obs: &mut Obs) -> Res {
    let local = [
        s.a[0] + s.f[0] * (s.b[0] - s.a[0]),
        s.a[1] + s.f[1] * (s.b[1] - s.a[1]),
        s.a[2] + s.f[2] * (s.b[2] - s.a[2]),
    ];
    let p = apply(&s.tf, local, false);
    let size = dist(s.a, s.b) * scale_of(&s.tf);
    let ray = RaySpec { o: sub(p, mul(s.dir, s.back * size)), d: mul(s.dir, s.l) };
    let scale = dist(ray.o, p) + size + maxabs(p);
    let mut cs = vec![];
    for (q, u, w) in box_faces(s.a, s.b, &s.tf) {
        let cos = dot(unit(cross(u, w)), s.dir);
        if cos.abs() < 1e-9 {
            // parallel to this side; far enough from its plane it cannot be hit
            let h = dot(unit(cross(u, w)), sub(ray.o, q)).abs();
            if h > 1e-6 * scale {
                continue;
            }
        }
        match flat_crossing(q, u, w, false, &ray) {
            None => {
                obs.label("too close to call");
                return Ok(());
            }
            Some(c) => cs.extend(c),
        }
    }
    let iv = place(&s.iv, &cs, size / s.l);
    let Some(want) = nearest(&cs, iv, 1e-7 * (1. + scale) / s.l) else {
        obs.label("too close to call");
        return Ok(());
    };
    let sides = Obj::Boxx { a: s.a, b: s.b, tf: s.tf.clone(), m: matte(0.5) }.build();
    ensure!(sides.len() == 6, "a box has {} sides", sides.len());
    let r = ray.build();
    obs.label(match (&want, cs.len()) {
        (Some(c), _) if dot(ray.d, c.n) < 0. => "hit from outside",
        (Some(_), _) => "hit from inside",
        (None, 0) => "miss",
        (None, _) => "crossings outside the interval",
    });
    obs.nontrivial_if(!cs.is_empty());
    if s.grouped {
        let g = Bvh::new(sides);
        let got = g.hit(&r, &interval(iv));
        return check_hit("box", got.as_ref(), want.as_ref(), &ray, scale);
    }
    let mut best: Option<solstrale::material::RayHit> = None;
    for q in &sides {
        if let Some(h) = q.hit(&r, &interval(iv)) {
            if best.as_ref().is_none_or(|b| h.ray_length < b.ray_length) {
                best = Some(h);
            }
        }
    }
    check_hit("box side", best.as_ref(), want.as_ref(), &ray, scale)
}

/// rays that run exactly along or parallel to an axis-aligned flat shape
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ParallelCase {
    axis: usize,
    q: V3,
    size: [f64; 2],
    tri: bool,
    /// height of the ray over the plane, and its direction in the plane
    h: f64,
    ang: f64,
    f: [f64; 2],
    back: f64,
}

fn parallel_case() -> BoxedStrategy<ParallelCase> {
    (
        0usize..3,
        point(5.),
        [logf(0.2, 5.), logf(0.2, 5.)],
        any::<bool>(),
        prop_oneof![1 => Just(0.), 2 => -2.0..2.0f64],
        prop_oneof![1 => (0i32..8).prop_map(|i| i as f64 * std::f64::consts::FRAC_PI_4), 2 => 0.0..6.28f64],
        [0.1..0.9f64, 0.1..0.9f64],
        0.0..10.0f64,
    )
        .prop_map(|(axis, q, size, tri, h, ang, f, back)| ParallelCase { axis, q, size, tri, h, ang, f, back })
        .boxed()
}

fn check_parallel(s: &ParallelCase, obs: &mut Obs) -> Res {
    let (i, j) = ((s.axis + 1) % 3, (s.axis + 2) % 3);
    let mut u = [0.; 3];
    u[i] = s.size[0];
    let mut w = [0.; 3];
    w[j] = s.size[1];
    let mut d = [0.; 3];
    d[i] = s.ang.cos();
    d[j] = s.ang.sin();
    let mut p = lerp3(s.q, u, s.f[0] * 0.5, w, s.f[1] * 0.5);
    p[s.axis] = s.q[s.axis] + s.h;
    let ray = RaySpec { o: sub(p, mul(d, s.back)), d };
    let o = if s.tri {
        Obj::Tri { a: s.q, b: add(s.q, u), c: add(s.q, w), uv: None, tf: vec![], m: matte(0.5) }
    } else {
        Obj::Quad { q: s.q, u, v: w, tf: vec![], m: matte(0.5) }
    };
    obs.nontrivial();
    obs.label(if s.h == 0. { "in the plane" } else { "beside the plane" });
    let got = o.build_one();
    let r = ray.build();
    if let Some(h) = got.hit(&r, &interval((0.001, f64::INFINITY))) {
        return Err(format!("a ray parallel to the surface hits it at ray length {}", h.ray_length));
    }
    Ok(())
}

fn main() {
    run_main(
        "P01",
        || {
            vec![
                facet("sphere", "the line of the ray crosses the sphere", 1_200_000, 24_000_000, sphere_case(), check_sphere),
                facet("quad", "the line of the ray crosses the quad", 1_200_000, 24_000_000, flat_case(false), check_flat),
                facet("triangle", "the line of the ray crosses the triangle", 1_200_000, 24_000_000, flat_case(true), check_flat),
                facet("box", "the line of the ray crosses the box", 800_000, 12_000_000, box_case(), check_box),
                facet("parallel", "the ray runs parallel to a flat shape", 100_000, 1_000_000, parallel_case(), check_parallel),
            ]
        },
        &[
            "double precision reference geometry with margins: crossings closer than about 1e-5 (flat shapes, plane coordinates) or 1e-6 of the scene size (spheres, interval ends) to not happening are not judged",
            "flat shapes with edges of 1e-4 to 1000 before transformation, spheres of radius 0.01 to 100, direction lengths 0.02 to 50",
        ],
    )
}
