//! P02: grouping objects in a BVH never changes what a ray hits.
use harness::ensure;
use harness::fw::*;
use harness::geo::*;
use harness::spec::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solstrale::hittable::{Bvh, Hittable, Hittables};
use solstrale::material::RayHit;
use solstrale::util::interval::Interval;
use std::sync::OnceLock;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Aim {
    target: usize,
    off: V3,
    dir: V3,
    back: f64,
    l: f64,
    iv: Option<(f64, f64)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    objs: Vec<Obj>,
    /// (index, how): repeat an object as it is, or another one around the same centre
    again: Vec<(usize, u8, f64)>,
    rays: Vec<Aim>,
    c: f64,
    /// build in a pool of that many threads
    threads: u8,
    rotate: usize,
}

fn aim() -> BoxedStrategy<Aim> {
    (
        any::<prop::sample::Index>(),
        prop_oneof![1 => Just([0.; 3]), 4 => [-1.0..1.0f64, -1.0..1.0f64, -1.0..1.0f64]],
        dir(),
        prop_oneof![4 => 2.0..40.0f64, 1 => -2.0..2.0f64],
        ray_len(),
        prop_oneof![
            4 => Just(None),
            1 => (-30.0..30.0f64, 0.0..60.0f64).prop_map(|(a, b)| Some((a, a + b))),
            1 => Just(Some((-1e9, 1e9))),
        ],
    )
        .prop_map(|(t, off, dir, back, l, iv)| Aim { target: t.index(1 << 20), off, dir, back, l, iv })
        .boxed()
}

fn leaf(range: f64) -> BoxedStrategy<Obj> {
    prop_oneof![
        3 => sphere_obj(range, any_mat()),
        3 => quad_obj(range, any_mat()),
        3 => tri_obj(range, any_mat()),
        1 => box_obj(range, any_mat()),
        1 => fog_obj(range),
    ]
    .boxed()
}

fn tree(range: f64, n: usize) -> BoxedStrategy<Vec<Obj>> {
    let l = leaf(range);
    let node = l.clone().prop_recursive(3, 16, 4, |inner| prop::collection::vec(inner, 0..5).prop_map(Obj::Group));
    prop::collection::vec(prop_oneof![3 => l, 1 => node], 0..n).boxed()
}

fn case(n: usize, rays: usize) -> BoxedStrategy<Case> {
    (
        prop_oneof![3 => tree(10., n), 1 => tree(2., n), 1 => tree(60., n)],
        prop::collection::vec((any::<prop::sample::Index>(), 0u8..4, logf(0.1, 3.)), 0..4),
        prop::collection::vec(aim(), 1..=rays),
        prop_oneof![0.26..0.49f64, 0.51..0.74f64],
        prop_oneof![5 => Just(0u8), 1 => prop_oneof![Just(1u8), Just(3u8), Just(8u8)]],
        0usize..7,
    )
        .prop_map(|(objs, again, rays, c, threads, rotate)| Case {
            objs,
            again: again.into_iter().map(|(i, h, s)| (i.index(1 << 20), h, s)).collect(),
            rays,
            c,
            threads,
            rotate,
        })
        .boxed()
}

/// hundreds of small objects, as in a loaded model
fn mesh() -> BoxedStrategy<Case> {
    let simple = || {
        prop_oneof![
            3 => (point(20.), edges(0.2, 4.)).prop_map(|(a, (u, v))| Obj::Tri { a, b: add(a, u), c: add(a, v), uv: None, tf: vec![], m: matte(0.5) }),
            1 => (point(20.), logf(0.2, 2.)).prop_map(|(c, r)| Obj::Sphere { c, r, m: matte(0.3) }),
        ]
    };
    (prop::collection::vec(simple(), 200..900), prop::collection::vec(aim(), 40), prop_oneof![3 => Just(0u8), 1 => Just(8u8)], any::<bool>(), 0usize..7)
        .prop_map(|(mut objs, rays, threads, flat, rotate)| {
            if flat {
                // all on one plane, many sharing coordinates
                for o in &mut objs {
                    if let Obj::Tri { a, b, c, .. } = o {
                        for p in [a, b, c] {
                            p[1] = 0.;
                        }
                    }
                }
                objs.retain(|o| !matches!(o, Obj::Tri { a, b, c, .. } if len(cross(sub(*b, *a), sub(*c, *a))) < 1e-3));
            }
            Case { objs, again: vec![], rays, c: 0.4, threads, rotate }
        })
        .boxed()
}

fn pool(n: u8) -> &'static rayon::ThreadPool {
    static P: [OnceLock<rayon::ThreadPool>; 9] = [const { OnceLock::new() }; 9];
    P[n as usize].get_or_init(|| rayon::ThreadPoolBuilder::new().num_threads(n as usize).build().unwrap())
}

fn same(a: &RayHit, b: &RayHit, tol: f64) -> bool {
    (a.ray_length - b.ray_length).abs() <= tol
        && dist(rv(a.hit_point), rv(b.hit_point)) <= 1e-9
        && dist(rv(a.normal), rv(b.normal)) <= 1e-9
        && (a.uv.u - b.uv.u).abs() <= 1e-6
        && (a.uv.v - b.uv.v).abs() <= 1e-6
        && a.front_face == b.front_face
        && format!("{:?}", a.material) == format!("{:?}", b.material)
}

/// its mirror image within the same box, if flat
fn crossing(o: &Obj, f: f64) -> Option<Obj> {
    let axis = (f * 1e6) as usize % 3;
    let turn = |lo: f64, hi: f64, p: V3| -> V3 {
        let mut p = p;
        p[axis] = lo + hi - p[axis];
        p
    };
    let range = |ps: &[V3]| (ps.iter().map(|p| p[axis]).fold(f64::INFINITY, f64::min), ps.iter().map(|p| p[axis]).fold(f64::NEG_INFINITY, f64::max));
    match o {
        Obj::Quad { q, u, v, tf, m: _ } if tf.is_empty() => {
            let (lo, hi) = range(&[*q, add(*q, *u), add(*q, *v), add(*q, add(*u, *v))]);
            let flip = |d: V3| sub(turn(0., 0., d), [0.; 3]);
            Some(Obj::Quad { q: turn(lo, hi, *q), u: flip(*u), v: flip(*v), tf: vec![], m: matte(0.8) })
        }
        Obj::Tri { a, b, c, tf, .. } if tf.is_empty() => {
            let (lo, hi) = range(&[*a, *b, *c]);
            let g = |p: V3| turn(lo, hi, p);
            Some(Obj::Tri { a: g(*a), b: g(*b), c: g(*c), uv: None, tf: vec![], m: matte(0.8) })
        }
        _ => None,
    }
}

// ---------------------------------------------------------------- thousands of objects

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Many {
    dims: [usize; 3],
    step: V3,
    seed: u64,
    shuffle: bool,
    threads: u8,
    c: f64,
}

fn many() -> BoxedStrategy<Many> {
    (
        prop_oneof![
            3 => (1usize..32, 1usize..32, 1usize..32).prop_map(|(a, b, c)| [a, b, c]),
            1 => (1usize..180, 1usize..180, 0usize..3).prop_map(|(a, b, k)| { let mut d = [a, b, 1]; d.rotate_left(k); d }),
            1 => (1usize..9000, 0usize..3).prop_map(|(a, k)| { let mut d = [a, 1, 1]; d.rotate_left(k); d }),
        ],
        [1.0..3.0f64, 1.0..3.0f64, 1.0..3.0f64],
        any::<u64>(),
        any::<bool>(),
        prop_oneof![3 => Just(0u8), 1 => prop_oneof![Just(1u8), Just(3u8), Just(8u8)]],
        0.26..0.49f64,
    )
        .prop_map(|(dims, step, seed, shuffle, threads, c)| Many { dims, step, seed, shuffle, threads, c })
        .boxed()
}

/// every object of a lattice is seen from within its own cell
fn check_many(s: &Many, obs: &mut Obs) -> Res {
    fastrand::ctl::constant(s.c);
    let mut seed = s.seed;
    let mut rnd = || {
        seed = mix(seed);
        (seed >> 11) as f64 / (1u64 << 53) as f64
    };
    let mut objs = vec![];
    for i in 0..s.dims[0] {
        for j in 0..s.dims[1] {
            for k in 0..s.dims[2] {
                let at = [i as f64 * s.step[0], j as f64 * s.step[1], k as f64 * s.step[2]];
                let d = unit([rnd() - 0.5, rnd() - 0.5, rnd() - 0.501]);
                let (a, b, _) = basis(d);
                let e = 0.1 + rnd() * 0.3;
                let m = Mat::Matte([rnd(), rnd(), rnd()]);
                let o = match (rnd() * 3.) as u8 {
                    0 => Obj::Sphere { c: at, r: e, m },
                    1 => Obj::Quad { q: sub(at, mul(add(a, b), e * 0.5)), u: mul(a, e), v: mul(b, e), tf: vec![], m },
                    _ => Obj::Tri { a: add(at, mul(a, e)), b: add(at, mul(add(b, mul(a, -0.5)), e)), c: add(at, mul(add(mul(b, -1.), mul(a, -0.5)), e)), uv: None, tf: vec![], m },
                };
                let l = 0.05 * 400f64.powf(rnd());
                let ray = RaySpec { o: add(at, add(mul(d, 0.45), mul(a, e * 0.1 * rnd()))), d: mul(add(neg(d), mul(b, 0.1 * rnd())), l) };
                objs.push((o, ray, Interval::new(0.001, 0.9 / l)));
            }
        }
    }
    if s.shuffle {
        for i in (1..objs.len()).rev() {
            objs.swap(i, (rnd() * (i + 1) as f64) as usize);
        }
    }
    let build = || Bvh::new(objs.iter().flat_map(|o| o.0.build()).collect());
    let group = if s.threads == 0 { build() } else { pool(s.threads).install(build) };
    for (i, (o, ray, iv)) in objs.iter().enumerate() {
        let r = ray.build();
        let alone = o.build();
        let h = alone.iter().find_map(|h| h.hit(&r, iv)).ok_or_else(|| format!("object {o:?} is not hit by {ray:?}"))?;
        match group.hit(&r, iv) {
            None => ensure!(false, "object {i} of {} is not hit, as a single one it is at {}", objs.len(), h.ray_length),
            Some(g) => ensure!(same(&h, &g, 1e-9), "object {i} of {} is hit at {}, but there is a hit at {}", objs.len(), h.ray_length, g.ray_length),
        }
    }
    obs.label(match objs.len() {
        0..=100 => "up to 100",
        101..=2000 => "up to 2000",
        2001..=10000 => "up to 10000",
        _ => "more",
    });
    obs.nontrivial_if(objs.len() > 2);
    Ok(())
}

fn check(s: &Case, obs: &mut Obs) -> Res {
    fastrand::ctl::constant(s.c);
    let mut objs = s.objs.clone();
    for (i, how, f) in &s.again {
        if objs.is_empty() {
            break;
        }
        let o = objs[i % objs.len()].clone();
        match how {
            0 => objs.push(o),
            1 => objs.push(Obj::Sphere { c: o.center(), r: *f, m: Mat::Metal([0.1, 0.2, 0.3], 0.5) }),
            2 => objs.extend(crossing(&o, *f)),
            _ => {
                // concentric triangles
                let c = o.center();
                for k in 0..2 {
                    let a = *f * (1. + k as f64);
                    objs.push(Obj::Tri {
                        a: add(c, [a, 0., 0.]),
                        b: add(c, [-0.5 * a, 0.8 * a, 0.1 * a]),
                        c: add(c, [-0.5 * a, -0.8 * a, -0.1 * a]),
                        uv: None,
                        tf: vec![],
                        m: matte(0.1 * (k + 1) as f64),
                    });
                }
            }
        }
    }
    if !objs.is_empty() {
        let n = objs.len();
        objs.rotate_left(s.rotate % n);
    }
    let build = || Bvh::new(objs.iter().flat_map(|o| o.build()).collect());
    let group = if s.threads == 0 { build() } else { pool(s.threads).install(build) };
    let single: Vec<Hittables> = objs.iter().flat_map(|o| o.flatten()).collect();
    let owners: Vec<Obj> = objs.iter().flat_map(|o| o.owners()).collect();
    ensure!(single.len() == owners.len(), "{} objects are built for {}", single.len(), owners.len());
    let mut ranges = objs.iter().map(|o| maxabs(o.center()) + o.size()).fold(1., f64::max);
    ranges += 1.;
    let leaves: Vec<Obj> = objs.iter().flat_map(|o| o.leaves()).collect();
    obs.label(match single.len() {
        0 => "empty",
        1..=2 => "1-2 objects",
        3..=8 => "3-8 objects",
        9..=40 => "9-40 objects",
        _ => "more than 40 objects",
    });
    if s.threads > 0 {
        obs.label("built by several threads");
    }
    if objs.iter().any(|o| matches!(o, Obj::Group(_))) {
        obs.label("nested groups");
    }
    let mut multi = false;
    for a in &s.rays {
        let (c, size) = if leaves.is_empty() {
            ([0.; 3], 1.)
        } else {
            let o = &leaves[a.target % leaves.len()];
            (o.center(), o.size())
        };
        let p = add(c, mul(a.off, size));
        let ray = RaySpec { o: sub(p, mul(a.dir, a.back)), d: mul(a.dir, a.l) };
        let scale = ranges + maxabs(ray.o);
        let r = ray.build();
        let iv = match a.iv {
            None => Interval::new(0.001, f64::INFINITY),
            Some((x, y)) => Interval::new(x / a.l, y / a.l),
        };
        let tol = 1e-8 * scale / a.l;
        let hits: Vec<(RayHit, bool)> = single
            .iter()
            .zip(&owners)
            .filter_map(|(h, e)| {
                h.hit(&r, &iv).map(|x| {
                    let firm = e.well_within(rv(x.hit_point), 1e-6 * scale)
                        && (iv.max - x.ray_length) > 1e-6 * scale / a.l
                        && (x.ray_length - iv.min).abs() > 1e-9 * scale / a.l;
                    (x, firm)
                })
            })
            .collect();
        if hits.len() >= 2 {
            multi = true;
        }
        let firm_min = hits.iter().filter(|h| h.1).map(|h| h.0.ray_length).fold(f64::INFINITY, f64::min);
        match group.hit(&r, &iv) {
            None => ensure!(
                firm_min == f64::INFINITY,
                "the group is not hit, but one of its {} objects is, at ray length {firm_min} (ray {:?}, interval {:?})",
                single.len(),
                ray,
                iv
            ),
            Some(g) => {
                ensure!(!hits.is_empty(), "the group is hit at {}, but none of its objects is", g.ray_length);
                ensure!(
                    g.ray_length <= firm_min + tol,
                    "the group is hit at ray length {}, but the closest object at {firm_min}",
                    g.ray_length
                );
                ensure!(
                    hits.iter().any(|h| same(&h.0, &g, tol)),
                    "the hit of the group at {} is not the hit of any of its objects",
                    g.ray_length
                );
            }
        }
    }
    obs.nontrivial_if(single.len() >= 3 && multi);
    if multi {
        obs.label("a ray hits two or more objects");
    }
    // independence of the number of threads, on all rays
    if s.threads > 0 {
        let other = Bvh::new(objs.iter().flat_map(|o| o.build()).collect());
        for a in &s.rays {
            let ray = RaySpec { o: mul(a.dir, -a.back), d: mul(a.dir, a.l) };
            let r = ray.build();
            let iv = Interval::new(0.001, f64::INFINITY);
            let (x, y) = (group.hit(&r, &iv), other.hit(&r, &iv));
            let ok = match (&x, &y) {
                (None, None) => true,
                (Some(p), Some(q)) => (p.ray_length - q.ray_length).abs() < 1e-8 * ranges,
                _ => false,
            };
            ensure!(ok, "groups built by different numbers of threads are hit differently: {x:?} / {y:?}");
        }
    }
    Ok(())
}

fn main() {
    run_main(
        "P02",
        || {
            vec![
                facet("groups", "at least three objects and a ray that crosses two or more of them", 120_000, 2_000_000, case(14, 8), check),
                facet("large-groups", "at least three objects and a ray that crosses two or more of them", 6_000, 100_000, case(120, 24), check),
                facet("meshes", "at least three objects and a ray that crosses two or more of them", 3_000, 60_000, mesh(), check),
                facet("thousands", "at least three objects", 400, 8_000, many(), check_many),
            ]
        },
        &[
            "the single objects' own answers (checked by P01, P15) are the reference; a constant random source makes fog deterministic",
            "a single object's hit counts only if it is more than 1e-6 of the scene size within the object's extent on all axes on which the object is not flat (rays grazing a box are not judged)",
        ],
    )
}
