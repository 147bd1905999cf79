//! P15: fog absorbs along the path inside its boundary.
use harness::ensure;
use harness::fw::*;
use harness::geo::*;
use harness::hits::interval;
use harness::spec::*;
use harness::stats::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solstrale::geo::transformation::NopTransformer;
use solstrale::hittable::{Bvh, ConstantMedium, Hittable, Hittables, Quad, Sphere, Triangle};
use solstrale::material::{Material, RayHit, RayScatter};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Shape {
    Ball { c: V3, r: f64 },
    Boxx { a: V3, b: V3, tf: Vec<Tf> },
    /// a tetrahedron with corners o, o+e0, o+e1, o+e2
    Tetra { o: V3, e: [V3; 3], tf: Vec<Tf> },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fog {
    shape: Shape,
    m: Mat,
    /// depth of the fog over one size of the shape
    depth: f64,
    color: V3,
    /// how many hierarchies the boundary is wrapped in, and the fog
    wrap: (u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    fogs: Vec<Fog>,
    /// an opaque wall at this ray length (in world units from the origin)
    wall: Option<f64>,
    /// which fog the ray goes through, where in it (0..1 each), its direction and length
    aim: [f64; 3],
    d: V3,
    l: f64,
    /// distance of the origin from the aimed point in sizes; negative means the aimed point is behind
    back: f64,
    /// ends of the interval as fractions of the way through the first fog
    lo: Option<f64>,
    hi: Option<f64>,
}

fn shape() -> BoxedStrategy<Shape> {
    prop_oneof![
        (point(6.), prop_oneof![3 => logf(0.05, 5.), 1 => logf(5., 1e5)]).prop_map(|(c, r)| Shape::Ball { c, r }),
        (point(6.), prop_oneof![3 => [logf(0.1, 6.), logf(0.1, 6.), logf(0.1, 6.)], 1 => [logf(5., 3e4), logf(5., 3e4), logf(5., 3e4)]], any::<[bool; 3]>(), tfs(2, true)).prop_map(|(a, s, f, tf)| {
            let mut b = a;
            for i in 0..3 {
                b[i] += if f[i] { s[i] } else { -s[i] };
            }
            Shape::Boxx { a, b, tf }
        }),
        (point(6.), edges(0.5, 5.), logf(0.5, 5.), any::<bool>(), tfs(2, true)).prop_map(|(o, (u, v), h, s, tf)| {
            let n = mul(unit(cross(u, v)), if s { h } else { -h });
            Shape::Tetra { o, e: [u, v, add(n, mul(add(u, v), 0.2))], tf }
        }),
    ]
    .boxed()
}

fn fog() -> BoxedStrategy<Fog> {
    (shape(), any_mat(), prop_oneof![4 => logf(0.1, 6.), 1 => logf(0.005, 0.1), 1 => logf(6., 30.)], (color(1.), prop_oneof![4 => Just(1.), 1 => logf(1e-6, 1.)]), (0u8..3, 0u8..3))
        .prop_map(|(shape, m, depth, (color, k), wrap)| Fog { shape, m, depth, color: mul(color, k), wrap })
        .boxed()
}

fn case(n: usize) -> BoxedStrategy<Case> {
    (
        prop::collection::vec(fog(), if n == 1 { 1..=1 } else { 2..=n }),
        prop::option::weighted(if n == 1 { 0.2 } else { 0.4 }, logf(0.5, 20.)),
        [0.02..0.98f64, 0.02..0.98f64, 0.02..0.98f64],
        dir(),
        ray_len(),
        prop_oneof![3 => 0.0..6.0f64, 2 => 0.0..0.3f64, 1 => -2.0..0.0f64],
        prop::option::weighted(0.3, -0.5..1.0f64),
        prop::option::weighted(0.3, 0.0..1.5f64),
        // where the other fogs are along the ray
        [-3.0..6.0f64, -3.0..6.0f64, -3.0..6.0f64, -3.0..6.0f64],
    )
        .prop_map(|(mut fogs, wall, aim, d, l, back, lo, hi, offs)| {
            let p = inside_point(&fogs[0].shape, aim);
            let sz = size(&fogs[0].shape);
            for (f, o) in fogs[1..].iter_mut().zip(offs) {
                let q = inside_point(&f.shape, [0.45; 3]);
                let by = sub(add(p, mul(d, o * sz)), q);
                match &mut f.shape {
                    Shape::Ball { c, .. } => *c = add(*c, by),
                    Shape::Boxx { tf, .. } | Shape::Tetra { tf, .. } => tf.push(Tf::Move(by)),
                }
            }
            Case { fogs, wall, aim, d, l, back, lo, hi }
        })
        .boxed()
}

fn size(s: &Shape) -> f64 {
    match s {
        Shape::Ball { r, .. } => *r,
        Shape::Boxx { a, b, tf } => scale_of(tf) * dist(*a, *b) * 0.5,
        Shape::Tetra { e, tf, .. } => scale_of(tf) * len(e[0]).max(len(e[1])) * 0.5,
    }
}

fn inside_point(s: &Shape, w: [f64; 3]) -> V3 {
    match s {
        Shape::Ball { c, r } => {
            let z = 2. * w[0] - 1.;
            let p = w[1] * std::f64::consts::TAU;
            let q = (1. - z * z).sqrt();
            add(*c, mul([q * p.cos(), q * p.sin(), z], r * w[2] * 0.98))
        }
        Shape::Boxx { a, b, tf } => {
            apply(tf, [a[0] + (b[0] - a[0]) * w[0], a[1] + (b[1] - a[1]) * w[1], a[2] + (b[2] - a[2]) * w[2]], false)
        }
        Shape::Tetra { o, e, tf } => {
            let k = 1. / (w[0] + w[1] + w[2] + 0.4);
            apply(tf, add(lerp3(*o, e[0], w[0] * k, e[1], w[1] * k), mul(e[2], w[2] * k)), false)
        }
    }
}

fn build(f: &Fog) -> Hittables {
    let m = f.m.build();
    let mut b = match &f.shape {
        Shape::Ball { c, r } => Sphere::new(sv(*c), *r, m),
        Shape::Boxx { a, b, tf } => Bvh::new(Quad::new_box(sv(*a), sv(*b), m, build_tf(tf).as_ref())),
        Shape::Tetra { o, e, tf } => {
            let p = [*o, add(*o, e[0]), add(*o, e[1]), add(*o, e[2])];
            Bvh::new(
                [[0, 1, 2], [0, 2, 3], [0, 3, 1], [1, 3, 2]]
                    .iter()
                    .map(|i| Triangle::new(sv(p[i[0]]), sv(p[i[1]]), sv(p[i[2]]), m.clone(), build_tf(tf).as_ref()))
                    .collect(),
            )
        }
    };
    for _ in 0..f.wrap.0 {
        b = Bvh::new(vec![b]);
    }
    let mut h = ConstantMedium::new(b, density(f), sv(f.color));
    for _ in 0..f.wrap.1 {
        h = Bvh::new(vec![h]);
    }
    h
}

fn density(f: &Fog) -> f64 {
    f.depth / size(&f.shape)
}

/// outward planes (point, normal) of a convex shape
fn planes(s: &Shape) -> Vec<(V3, V3)> {
    let corners: Vec<V3> = match s {
        Shape::Boxx { a, b, tf } => {
            (0..8).map(|i| apply(tf, [if i & 1 > 0 { b[0] } else { a[0] }, if i & 2 > 0 { b[1] } else { a[1] }, if i & 4 > 0 { b[2] } else { a[2] }], false)).collect()
        }
        Shape::Tetra { o, e, tf } => [*o, add(*o, e[0]), add(*o, e[1]), add(*o, e[2])].iter().map(|p| apply(tf, *p, false)).collect(),
        Shape::Ball { .. } => vec![],
    };
    let faces: &[[usize; 3]] = if corners.len() == 8 {
        &[[0, 1, 2], [4, 5, 6], [0, 1, 4], [2, 3, 6], [0, 2, 4], [1, 3, 5]]
    } else {
        &[[0, 1, 2], [0, 2, 3], [0, 3, 1], [1, 3, 2]]
    };
    let mid = mul(corners.iter().fold([0.; 3], |a, b| add(a, *b)), 1. / corners.len() as f64);
    faces
        .iter()
        .map(|f| {
            let n = unit(cross(sub(corners[f[1]], corners[f[0]]), sub(corners[f[2]], corners[f[0]])));
            (corners[f[0]], if dot(n, sub(corners[f[0]], mid)) < 0. { neg(n) } else { n })
        })
        .collect()
}

/// section of the line inside the shape in ray lengths; None: too close to tell, Some(None): misses
fn section(s: &Shape, r: &RaySpec) -> Option<Option<(f64, f64)>> {
    let l = len(r.d);
    if let Shape::Ball { c, r: rad } = s {
        let x = sphere_crossings(*c, *rad, r.o, r.d)?;
        return Some(if x.is_empty() { None } else { Some((x[0].t, x[1].t)) });
    }
    let tol = 1e-5 * size(s);
    let (mut ins, mut outs) = (vec![], vec![]);
    for (p, n) in planes(s) {
        let h = dot(sub(r.o, p), n);
        let k = dot(r.d, n);
        if k.abs() < 1e-4 * l {
            if k.abs() > 1e-12 * l || h.abs() < tol {
                return None;
            }
            if h > 0. {
                return Some(None);
            }
            continue;
        }
        if k < 0. {
            ins.push(-h / k);
        } else {
            outs.push(-h / k);
        }
    }
    ins.sort_by(|a, b| b.total_cmp(a));
    outs.sort_by(|a, b| a.total_cmp(b));
    let (t0, t1) = (ins[0], outs[0]);
    if ((t1 - t0) * l).abs() < 10. * tol {
        return None;
    }
    if t0 > t1 {
        return Some(None);
    }
    // near an edge
    if (ins.len() > 1 && (ins[0] - ins[1]) * l < tol) || (outs.len() > 1 && (outs[1] - outs[0]) * l < tol) {
        return None;
    }
    Some(Some((t0, t1)))
}

fn hit(h: &Hittables, lights: &[Hittables], s: &RaySpec, iv: (f64, f64)) -> Option<(f64, V3, RayScatterKind)> {
    let r = s.build();
    h.hit(&r, &interval(iv)).map(|x| (x.ray_length, rv(x.hit_point), kind(&x, lights, s)))
}

#[derive(PartialEq, Debug)]
enum RayScatterKind {
    Pdf(V3),
    Mirror,
    Light,
}

fn kind(x: &RayHit, lights: &[Hittables], s: &RaySpec) -> RayScatterKind {
    match x.material.scatter(&s.build(), x, lights) {
        RayScatter::ScatterPdf(p) => RayScatterKind::Pdf(rv(p.color)),
        RayScatter::ScatterBasic(_) => RayScatterKind::Mirror,
        RayScatter::ScatterEmission(_) => RayScatterKind::Light,
    }
}

/// tolerance of shares that are known exactly
const EXACT: f64 = 1e-7;

fn check(s: &Case, obs: &mut Obs) -> Res {
    let f0 = &s.fogs[0];
    let sz = size(&f0.shape);
    let l = s.l.min(sz * 20.);
    let ray = ray_through(inside_point(&f0.shape, s.aim), s.d, s.back * sz, l);
    let mut secs = vec![];
    for f in &s.fogs {
        let Some(x) = section(&f.shape, &ray) else { return Ok(()) };
        if let Some((a, b)) = x {
            if b - a < 2e-3 {
                return Ok(());
            }
        }
        secs.push(x);
    }
    let Some((a0, b0)) = secs[0] else { return Err("harness: the ray misses the shape it is aimed at".into()) };
    let end = |w: Option<f64>, none: f64| w.map_or(none, |w| a0 + (b0 - a0) * w);
    let iv = (end(s.lo, 0.001), end(s.hi, f64::INFINITY));
    if iv.0 >= iv.1 {
        return Ok(());
    }
    let wall_t = s.wall.map(|w| w / l);
    let mut list: Vec<Hittables> = s.fogs.iter().map(build).collect();
    if let Some(t) = wall_t {
        let c = at(ray.o, ray.d, t);
        let (a, b, _) = basis(s.d);
        let m = Mat::Metal([0.1, 0.2, 0.3], 0.).build();
        list.push(Quad::new(sv(sub(sub(c, a), b)), sv(mul(a, 2.)), sv(mul(b, 2.)), m, &NopTransformer()));
    }
    let h = if list.len() == 1 { list.pop().unwrap() } else { Bvh::new(list) };
    // a wall before the start of the interval is not seen
    let wall_seen = wall_t.filter(|t| *t > iv.0 && *t < iv.1);
    if wall_t.is_some_and(|t| (t - iv.0).abs() < 1e-4 || (t - iv.1).abs() < 1e-4) {
        return Ok(());
    }
    let lo = iv.0.max(0.);
    let hi = wall_seen.unwrap_or(iv.1);
    let depth = |t: f64| -> f64 {
        secs.iter()
            .zip(&s.fogs)
            .filter_map(|(x, f)| x.map(|(a, b)| (b.min(t) - a.max(lo)).max(0.) * l * density(f)))
            .sum()
    };
    let total = depth(hi);
    let p = 1. - (-total).exp();
    let tol = 1e-6 * (1. + dist(ray.o, f0_center(f0)) / l + (b0 - a0));
    let mut err: Res = Ok(());
    let lights = [Sphere::new(sv([0., 1e4, 0.]), 1., Mat::Light([1.; 3], None).build())];
    let one = |err: &mut Res| -> Option<f64> {
        let (t, pt, k) = match hit(&h, &lights, &ray, iv) {
            Some(x) => x,
            None => {
                if wall_seen.is_some() {
                    *err = Err("the wall behind the fog is not hit".into());
                }
                return None;
            }
        };
        match k {
            RayScatterKind::Mirror if wall_t.is_some() => {
                if wall_seen.is_none_or(|w| (w - t).abs() > 1e-6 * (1. + w.abs())) {
                    *err = Err(format!("wall hit at {t}, it is at {wall_t:?}, interval {iv:?}"));
                }
                return None;
            }
            RayScatterKind::Pdf(c) => {
                if !(t >= lo - tol && t <= hi + tol) {
                    *err = Err(format!("scattered at ray length {t}, outside of {lo}..{hi}"));
                }
                // inside one of the fogs, of that colour
                let ok = secs.iter().zip(&s.fogs).any(|(x, f)| x.is_some_and(|(a, b)| t >= a - tol && t <= b + tol && dist(f.color, c) <= 1e-9 * maxabs(f.color)));
                if !ok {
                    *err = Err(format!("scattered at ray length {t} with colour {c:?}, no such fog is there: {secs:?}"));
                }
                if dist(pt, at(ray.o, ray.d, t)) > 1e-6 * (1. + maxabs(pt)) {
                    *err = Err(format!("hit point {pt:?} is not at ray length {t}"));
                }
            }
            k => *err = Err(format!("fog scatters like {k:?}")),
        }
        Some(1. - (-depth(t)).exp())
    };
    if total < 1e-3 {
        // practically no fog in the interval
        for _ in 0..20 {
            let _ = one(&mut err);
            err.clone()?;
        }
        obs.label("no fog in the interval");
        if total == 0. {
            obs.nontrivial();
        }
        return Ok(());
    }
    if s.fogs.len() == 1 {
        for part in [1., 0.5, 0.05] {
            let q = p * part;
            let exact = exact_share(|| {
                let u = one(&mut err);
                if err.is_err() {
                    return None;
                }
                Some(u.is_some_and(|u| part == 1. || u < q))
            });
            err.clone()?;
            if let Some(x) = exact {
                ensure!(
                    (x - q).abs() < EXACT * (1. + total),
                    "scattered before depth {} of {total} for a share of {x} of the random numbers instead of {q}",
                    -(1. - q).ln()
                );
                obs.label("exact share");
            }
        }
    }
    let n = if obs.thorough { 8_000 } else { 1_500 };
    let r = check_means(
        &format!("transmission through depth {total}"),
        [p, p / 2., p * p / 3.],
        [1e-4; 3],
        0.02,
        n,
        || {
            if err.is_err() {
                return [f64::NAN; 3];
            }
            match one(&mut err) {
                Some(u) => [1., u / p, u * u / p],
                None => [0.; 3],
            }
        },
    );
    err?;
    r?;
    obs.label(match &f0.shape {
        Shape::Ball { .. } => "sphere",
        Shape::Boxx { .. } => "box",
        Shape::Tetra { .. } => "tetrahedron",
    });
    obs.label(if a0 < 0. && b0 > 0. {
        "from inside"
    } else if b0 <= 0. {
        "first fog behind"
    } else {
        "from outside"
    });
    if wall_seen.is_some() {
        obs.label("wall");
    }
    let overlap = secs.iter().enumerate().any(|(i, x)| secs[..i].iter().any(|y| matches!((x, y), (Some(x), Some(y)) if x.0 < y.1 && y.0 < x.1)));
    if overlap {
        obs.label("overlapping fogs");
    }
    obs.nontrivial();
    Ok(())
}

fn f0_center(f: &Fog) -> V3 {
    inside_point(&f.shape, [0.5; 3])
}

fn main() {
    run_main(
        "P15",
        || {
            vec![
                facet("one", "transmission judged, or no fog in the interval", 50_000, 500_000, case(1), check),
                facet("many", "transmission judged, or no fog in the interval", 40_000, 400_000, case(4), check),
            ]
        },
        &[
            "boundaries are convex; the way through each is at least 0.002 direction lengths",
            "rays within 1e-5 of an edge or of grazing are not judged",
        ],
    )
}
