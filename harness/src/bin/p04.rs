//! P04: transformations compose in order and act rigidly on objects.
use harness::ensure;
use harness::fw::*;
use harness::geo::*;
use harness::hits::*;
use harness::spec::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solstrale::hittable::{Hittable, Hittables, Quad, Triangle};
use solstrale::geo::transformation::NopTransformer;
use solstrale::geo::Uv;
use solstrale::material::RayHit;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct VecCase {
    tf: Vec<Tf>,
    p: V3,
    q: V3,
}

fn check_vec(s: &VecCase, obs: &mut Obs) -> Res {
    let t = build_tf(&s.tf);
    let f = |p: V3, dirn: bool| rv(t.transform(sv(p), dirn));
    let steps = s.tf.len();
    obs.nontrivial_if(steps >= 2);
    obs.label(format!("{} steps", steps.min(4)));
    let k = scale_of(&s.tf);
    obs.label(if k < 0. { "mirrored" } else if k == 0. { "flattened" } else { "plain" });
    // how large the numbers on the way to the results get
    let scd = k.abs() * (len(s.p) + len(s.q));
    let scp = reach(&s.tf, len(s.p) + len(s.q)) + scd;
    for (p, d) in [(s.p, false), (s.p, true), (s.q, false), (s.q, true)] {
        let (got, want) = (f(p, d), apply(&s.tf, p, d));
        let sc = if d { scd } else { scp };
        ensure!(dist(got, want) <= 1e-10 * sc, "{:?} (direction: {d}) becomes {:?} instead of {:?}", p, got, want);
    }
    // rigid up to the scale, without using the reference
    let (a, b) = (f(s.p, true), f(s.q, true));
    ensure!((len(a) - k.abs() * len(s.p)).abs() <= 1e-9 * scd, "length {} becomes {} under scale {k}", len(s.p), len(a));
    ensure!((dot(a, b) - k * k * dot(s.p, s.q)).abs() <= 1e-9 * scd * scd, "angles are not kept");
    ensure!(
        dist(cross(a, b), mul(apply(&s.tf, cross(s.p, s.q), true), k)) <= 1e-9 * scd * scd,
        "handedness is not kept"
    );
    let (c, d) = (f(s.p, false), f(s.q, false));
    ensure!(dist(sub(c, d), f(sub(s.p, s.q), true)) <= 1e-9 * scp, "differences of positions do not transform as directions");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ObjCase {
    kind: u8,
    q: V3,
    u: V3,
    v: V3,
    third: f64,
    tf: Vec<Tf>,
    ab: [f64; 2],
    dir: V3,
    back: f64,
    l: f64,
}

fn obj_case() -> BoxedStrategy<ObjCase> {
    (
        0u8..3,
        (point(5.), edges(0.2, 5.), logf(0.2, 5.), [any::<u8>(), any::<u8>(), any::<u8>()], logf(1e-4, 0.2)),
        (tfs(4, true), prop_oneof![3 => Just(0u32), 1 => any::<u32>()]),
        [-0.2..1.2f64, -0.2..1.2f64],
        dir(),
        prop_oneof![3 => 0.5..10.0f64, 1 => -10.0..-0.5f64],
        ray_len(),
    )
        .prop_map(|(kind, (q, (mut u, mut v), mut third, thin, t), (mut tf, flip), ab, dir, back, l)| {
            flip_scales(&mut tf, flip);
            if kind == 2 {
                // now and then a thin box
                if thin[0] < 32 {
                    u = mul(u, t / len(u));
                }
                if thin[1] < 32 {
                    v = mul(v, t / len(v));
                }
                if thin[2] < 32 {
                    third = t;
                }
            }
            ObjCase { kind, q, u, v, third, tf, ab, dir, back, l }
        })
        .boxed()
}

const UVS: [[f32; 2]; 3] = [[0.1, 0.2], [0.9, 0.3], [0.2, 1.7]];

fn closest<'a>(hs: &'a [Hittables], r: &solstrale::geo::Ray) -> Option<RayHit<'a>> {
    let iv = interval((0.001, f64::INFINITY));
    let mut best: Option<RayHit> = None;
    for h in hs {
        if let Some(x) = h.hit(r, &iv) {
            if best.as_ref().is_none_or(|b| x.ray_length < b.ray_length) {
                best = Some(x);
            }
        }
    }
    best
}

fn check_obj(s: &ObjCase, obs: &mut Obs) -> Res {
    let nop = NopTransformer();
    let mk = || matte(0.5).build();
    let mkuv = |a: V3, b: V3, c: V3, t: &dyn solstrale::geo::transformation::Transformer| {
        Triangle::new_with_tex_coords(
            sv(a),
            sv(b),
            sv(c),
            Uv::new(UVS[0][0], UVS[0][1]),
            Uv::new(UVS[1][0], UVS[1][1]),
            Uv::new(UVS[2][0], UVS[2][1]),
            mk(),
            t,
        )
    };
    let tf = build_tf(&s.tf);
    let pos = |p: V3| apply(&s.tf, p, false);
    let di = |p: V3| apply(&s.tf, p, true);
    // (with transformation, from transformed corners, untransformed), faces for margins, in the original place
    let (with, from, plain, faces): (Vec<Hittables>, Vec<Hittables>, Vec<Hittables>, Vec<(V3, V3, V3)>) = match s.kind {
        0 => (
            vec![Quad::new(sv(s.q), sv(s.u), sv(s.v), mk(), tf.as_ref())],
            vec![Quad::new(sv(pos(s.q)), sv(di(s.u)), sv(di(s.v)), mk(), &nop)],
            vec![Quad::new(sv(s.q), sv(s.u), sv(s.v), mk(), &nop)],
            vec![(s.q, s.u, s.v)],
        ),
        1 => {
            let (a, b, c) = (s.q, add(s.q, s.u), add(s.q, s.v));
            (
                vec![mkuv(a, b, c, tf.as_ref())],
                vec![mkuv(pos(a), pos(b), pos(c), &nop)],
                vec![mkuv(a, b, c, &nop)],
                vec![(s.q, s.u, s.v)],
            )
        }
        _ => {
            let b = add(s.q, [len(s.u), -len(s.v), s.third]);
            let fs = box_faces(s.q, b, &[]);
            (
                Quad::new_box(sv(s.q), sv(b), mk(), tf.as_ref()),
                box_faces(s.q, b, &s.tf)
                    .into_iter()
                    .map(|(q, u, w)| Quad::new(sv(q), sv(u), sv(w), mk(), &nop))
                    .collect(),
                Quad::new_box(sv(s.q), sv(b), mk(), &nop),
                fs,
            )
        }
    };
    let aim = match s.kind {
        2 => add(s.q, [len(s.u) * s.ab[0], -len(s.v) * s.ab[1], s.third * 0.5]),
        _ => lerp3(s.q, s.u, s.ab[0], s.v, s.ab[1]),
    };
    let ray0 = RaySpec { o: sub(aim, mul(s.dir, s.back)), d: mul(s.dir, s.l) };
    let mut cs = vec![];
    for (q, u, w) in &faces {
        let cos = dot(unit(cross(*u, *w)), s.dir);
        if cos.abs() < 1e-9 && dot(unit(cross(*u, *w)), sub(ray0.o, *q)).abs() > 1e-6 {
            continue;
        }
        match flat_crossing(*q, *u, *w, s.kind == 1, &ray0) {
            None => {
                obs.label("too close to call");
                return Ok(());
            }
            Some(c) => cs.extend(c),
        }
    }
    if nearest(&cs, (0.001, f64::INFINITY), 1e-5 / s.l).is_none() || cs.iter().any(|c| c.margin < 1e-4) {
        obs.label("too close to call");
        return Ok(());
    }
    // two faces crossed at nearly the same place
    if cs.len() == 2 && (cs[0].t - cs[1].t).abs() * s.l < 1e-5 {
        obs.label("too close to call");
        return Ok(());
    }
    let ray1 = RaySpec { o: pos(ray0.o), d: di(ray0.d) };
    if len(ray1.d) < 1e-3 {
        obs.label("too close to call");
        return Ok(());
    }
    let (r0, r1) = (ray0.build(), ray1.build());
    let a = closest(&with, &r1);
    let b = closest(&from, &r1);
    let c = closest(&plain, &r0);
    obs.label(if c.is_some() { "hit" } else { "miss" });
    obs.nontrivial_if(c.is_some() && !s.tf.is_empty());
    let k = scale_of(&s.tf);
    obs.label(if k < 0. { "mirrored" } else { "plain" });
    let tol = 1e-7 * (1. + k.abs()) * (1. + maxabs(ray1.o) + maxabs(ray0.o));
    for (name, x, y, moved) in [("built from transformed corners", &a, &b, false), ("moved along with the ray", &a, &c, true)] {
        // a mirrored object is not the same object seen from elsewhere
        if moved && k < 0. {
            continue;
        }
        match (x, y) {
            (None, None) => {}
            (Some(x), Some(y)) => {
                ensure!(
                    (x.ray_length - y.ray_length).abs() * len(ray1.d) <= tol,
                    "{name}: ray length {} instead of {}",
                    x.ray_length,
                    y.ray_length
                );
                let (wp, wn) = if moved {
                    (pos(rv(y.hit_point)), unit(di(rv(y.normal))))
                } else {
                    (rv(y.hit_point), rv(y.normal))
                };
                ensure!(dist(rv(x.hit_point), wp) <= tol, "{name}: hit point {:?} instead of {:?}", x.hit_point, wp);
                ensure!(dist(rv(x.normal), wn) <= 1e-6, "{name}: normal {:?} instead of {:?}", x.normal, wn);
                ensure!(x.front_face == y.front_face, "{name}: front face is {}", x.front_face);
                if s.kind != 2 || moved {
                    ensure!(
                        (x.uv.u - y.uv.u).abs() < 1e-3 && (x.uv.v - y.uv.v).abs() < 1e-3,
                        "{name}: texture coordinate {:?} instead of {:?}",
                        x.uv,
                        y.uv
                    );
                }
            }
            _ => return Err(format!("{name}: hit is {} but should be {}", x.is_some(), y.is_some())),
        }
    }
    Ok(())
}

fn main() {
    run_main(
        "P04",
        || {
            vec![
                facet(
                    "vectors",
                    "two or more transformations in the list",
                    1_000_000,
                    20_000_000,
                    (wild_tfs(6), point(30.), point(30.)).prop_map(|(tf, p, q)| VecCase { tf, p, q }),
                    check_vec,
                ),
                facet("objects", "a transformed object that is hit", 500_000, 8_000_000, obj_case(), check_obj),
            ]
        },
        &["rotation senses are those of the documentation examples (x: y to -z, y: x to -z, z: x to -y at 90 degrees)"],
    )
}
