//! P05: hits carry the texture coordinates of the surface point.
use harness::ensure;
use harness::fw::*;
use harness::geo::*;
use harness::hits::*;
use harness::spec::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solstrale::hittable::{Hittable, Sphere};
use std::f64::consts::PI;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FlatCase {
    tri: bool,
    q: V3,
    u: V3,
    v: V3,
    tf: Vec<Tf>,
    uv: [[f32; 2]; 3],
    ab: [f64; 2],
    dir: V3,
    back: f64,
    l: f64,
}

fn flat_case() -> BoxedStrategy<FlatCase> {
    let c = || prop_oneof![4 => 0.0..1.0f32, 1 => -3.0..3.0f32, 1 => Just(0f32), 1 => Just(1f32), 1 => -50.0..50.0f32];
    (
        any::<bool>(),
        (point(10.), prop_oneof![4 => edges(0.1, 8.), 1 => edges(1e-3, 1e-1)], tfs(3, true)),
        [[c(), c()], [c(), c()], [c(), c()]],
        [0.0..1.0f64, 0.0..1.0f64],
        dir(),
        0.5..20.0f64,
        ray_len(),
    )
        .prop_map(|(tri, (q, (u, v), tf), uv, mut ab, dir, back, l)| {
            if tri && ab[0] + ab[1] > 1. {
                ab = [1. - ab[0], 1. - ab[1]];
            }
            FlatCase { tri, q, u, v, tf, uv, ab, dir, back, l }
        })
        .boxed()
}

fn check_flat(s: &FlatCase, obs: &mut Obs) -> Res {
    let (q, u, w) = (apply(&s.tf, s.q, false), apply(&s.tf, s.u, true), apply(&s.tf, s.v, true));
    let size = len(u).max(len(w));
    let p = lerp3(q, u, s.ab[0], w, s.ab[1]);
    let o = if s.tri {
        Obj::Tri { a: s.q, b: add(s.q, s.u), c: add(s.q, s.v), uv: Some(s.uv), tf: s.tf.clone(), m: matte(0.5) }
    } else {
        Obj::Quad { q: s.q, u: s.u, v: s.v, tf: s.tf.clone(), m: matte(0.5) }
    };
    let h = o.build_one();
    let [a, b] = s.ab;
    let want = if s.tri {
        let f = |k: usize| {
            (1. - a - b) * s.uv[0][k] as f64 + a * s.uv[1][k] as f64 + b * s.uv[2][k] as f64
        };
        [f(0), f(1)]
    } else {
        [a, b]
    };
    let span = if s.tri {
        1. + s.uv.iter().flatten().fold(0f64, |m, x| m.max(x.abs() as f64))
    } else {
        1.
    };
    let mut judged = 0;
    for side in [1., -1.] {
        let d = mul(s.dir, side);
        let ray = RaySpec { o: sub(p, mul(d, s.back * size)), d: mul(d, s.l) };
        let Some(Some(c)) = flat_crossing(q, u, w, s.tri, &ray) else {
            continue;
        };
        if c.margin < 1e-4 || c.t < 0.002 {
            continue;
        }
        let cos = dot(c.n, s.dir).abs();
        let r = ray.build();
        let Some(hit) = h.hit(&r, &interval((0.001, f64::INFINITY))) else {
            return Err("no hit".into());
        };
        // error of the crossing in plane coordinates
        let cond = (maxabs(q) + size * s.back) / (len(u).min(len(w)) * cos);
        let tol = span * (4e-6 + 1e-13 * cond);
        let got = [hit.uv.u as f64, hit.uv.v as f64];
        ensure!(
            (got[0] - want[0]).abs() <= tol && (got[1] - want[1]).abs() <= tol,
            "texture coordinate at ({a}, {b}) is {:?} instead of {:?}",
            got,
            want
        );
        judged += 1;
    }
    obs.label(match judged {
        0 => "too close to call",
        1 => "from one side",
        _ => "from both sides",
    });
    obs.nontrivial_if(judged > 0);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SphereCase {
    c: V3,
    r: f64,
    /// direction of the surface point from the centre
    n: V3,
    dir: V3,
    inside: bool,
    l: f64,
}

fn sphere_case() -> BoxedStrategy<SphereCase> {
    let n = prop_oneof![
        6 => dir(),
        1 => (0.0..6.28f64, 1e-5..1e-2f64, any::<bool>()).prop_map(|(a, e, s)| unit([e * a.cos(), if s { 1. } else { -1. }, e * a.sin()])),
        1 => (-1.0..1.0f64, -1e-3..1e-3f64).prop_map(|(y, e)| {
            let r = (1. - y * y).sqrt();
            [-r * (1. - e * e).sqrt(), y, r * e]
        }),
    ];
    (point(20.), logf(0.01, 50.), n, dir(), any::<bool>(), ray_len())
        .prop_map(|(c, r, n, dir, inside, l)| SphereCase { c, r, n, dir, inside, l })
        .boxed()
}

fn check_sphere(s: &SphereCase, obs: &mut Obs) -> Res {
    let p = add(s.c, mul(s.n, s.r));
    // come from a side from which the point is seen
    let mut d = s.dir;
    let cos = dot(d, s.n);
    if (cos > 0.) != s.inside {
        d = neg(d);
    }
    if cos.abs() < 0.05 {
        obs.label("too close to call");
        return Ok(());
    }
    // from inside: start within the chord
    let back = if s.inside { s.r * cos.abs() * 1.2 } else { s.r * 3. };
    let ray = RaySpec { o: sub(p, mul(d, back)), d: mul(d, s.l) };
    if back / s.l < 0.01 {
        obs.label("too close to call");
        return Ok(());
    }
    let h = Sphere::new(sv(s.c), s.r, matte(0.5).build());
    let r = ray.build();
    let Some(hit) = h.hit(&r, &interval((0.001, f64::INFINITY))) else {
        return Err("no hit".into());
    };
    let err = 1e-12 * (1. + (maxabs(s.c) + s.r * 4.) / s.r);
    ensure!(dist(rv(hit.hit_point), p) <= 1e-6 * (s.r + maxabs(s.c)), "hit point {:?} instead of {:?}", hit.hit_point, p);
    // u once around: pi at +x, shrinking towards +z; v from the bottom
    let (x, y, z) = (s.n[0], s.n[1], s.n[2]);
    let ring = (x * x + z * z).sqrt();
    let (u, v) = (hit.uv.u as f64, hit.uv.v as f64);
    ensure!(u.is_finite() && v.is_finite() && (0. ..=1.).contains(&u) && (0. ..=1.).contains(&v), "texture coordinate is {u}, {v}");
    let want_v = ring.atan2(-y) / PI;
    ensure!((v - want_v).abs() < 1e-6 + err.sqrt(), "v is {v} instead of {want_v}");
    if ring > 1e-6 {
        let want_u = (PI - z.atan2(x)) / (2. * PI);
        let mut e = (u - want_u).abs();
        if e > 0.5 {
            // the seam
            e = (1. - e).abs();
            obs.label("seam");
        }
        ensure!(e < 1e-6 + 10. * err / ring, "u is {u} instead of {want_u}");
    } else {
        obs.label("pole");
    }
    obs.label(if s.inside { "from inside" } else { "from outside" });
    obs.nontrivial();
    Ok(())
}

fn main() {
    run_main(
        "P05",
        || {
            vec![
                facet("flat", "hit further than 1e-4 from the edge", 800_000, 16_000_000, flat_case(), check_flat),
                facet("sphere", "every judged hit", 800_000, 16_000_000, sphere_case(), check_sphere),
            ]
        },
        &["single precision tolerance of 4e-6 of the coordinate span; hits within 1e-4 of an edge are not judged"],
    )
}
