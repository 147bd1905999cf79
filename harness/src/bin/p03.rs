//! P03: bounding boxes contain their objects and are tight; intervals and boxes agree with their point sets.
use harness::ensure;
use harness::fw::*;
use harness::geo::*;
use harness::spec::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solstrale::combine_aabbs;
use solstrale::geo::Aabb;
use solstrale::hittable::{Bvh, Hittable};
use solstrale::util::interval::{combine_intervals, Interval, EMPTY_INTERVAL, UNIVERSE_INTERVAL};

fn any_leaf(range: f64) -> BoxedStrategy<Obj> {
    let m = || Just(matte(0.5)).boxed();
    prop_oneof![
        2 => sphere_obj(range, m()),
        3 => quad_obj(range, m()),
        3 => tri_obj(range, m()),
        2 => (point(range), prop_oneof![Just(0usize), Just(1), Just(2)], logf(0.1, 5.), logf(0.1, 5.), any::<bool>()).prop_map(
            |(q, ax, a, b, tri)| {
                let mut u = [0.; 3];
                u[(ax + 1) % 3] = a;
                let mut v = [0.; 3];
                v[(ax + 2) % 3] = -b;
                if tri {
                    Obj::Tri { a: q, b: add(q, u), c: add(q, v), uv: None, tf: vec![], m: matte(0.5) }
                } else {
                    Obj::Quad { q, u, v, tf: vec![], m: matte(0.5) }
                }
            }
        ),
        2 => box_obj(range, m()),
        1 => fog_obj(range),
    ]
    .boxed()
}

fn any_obj() -> BoxedStrategy<Obj> {
    let l = prop_oneof![3 => any_leaf(10.), 1 => any_leaf(200.)];
    prop_oneof![
        4 => l.clone(),
        1 => prop::collection::vec(l, 1..8).prop_map(Obj::Group),
    ]
    .boxed()
}

fn axes(b: &Aabb) -> [Interval; 3] {
    [b.x, b.y, b.z]
}

/// most that a flat axis may be padded in total
const PAD: f64 = 1e-3;
const FLAT: f64 = 1.01e-4;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ObjCase {
    o: Obj,
    rays: Vec<(V3, V3, f64)>,
}

fn check_obj(s: &ObjCase, obs: &mut Obs) -> Res {
    let h = s.o.build_one();
    let b = h.bounding_box();
    let e = s.o.extent();
    // a group may contain flat members, whose padding shows in the group
    let group = matches!(s.o, Obj::Group(_) | Obj::Boxx { .. } | Obj::Fog { .. });
    let scale = e.iter().map(|x| x.0.abs().max(x.1.abs())).fold(1., f64::max);
    let eps = 1e-9 * scale;
    let mut flat = false;
    for (k, i) in axes(b).iter().enumerate() {
        let (lo, hi) = e[k];
        ensure!(i.min <= lo + eps && i.max >= hi - eps, "axis {k}: box {:?} does not contain the object's extent {lo}..{hi}", i);
        let thin = hi - lo < FLAT;
        flat |= thin;
        let allowed = if thin || group { PAD } else { eps };
        ensure!(
            lo - i.min <= allowed && i.max - hi <= allowed,
            "axis {k}: box {:?} is larger than the object's extent {lo}..{hi}",
            i
        );
        if thin && !group {
            ensure!(i.size() > 1e-6, "axis {k}: the box {:?} of a flat object has no thickness to speak of", i);
        }
    }
    obs.label(match s.o {
        Obj::Sphere { .. } => "sphere",
        Obj::Quad { .. } => "quad",
        Obj::Tri { .. } => "triangle",
        Obj::Boxx { .. } => "box",
        Obj::Fog { .. } => "fog",
        Obj::Group(_) => "group",
    });
    if flat {
        obs.label("has a flat axis");
    }
    if let Obj::Group(l) = &s.o {
        let members: Vec<_> = l.iter().flat_map(|o| o.build()).collect();
        let g = Bvh::new(members.clone());
        for (k, i) in axes(g.bounding_box()).iter().enumerate() {
            let lo = members.iter().map(|m| axes(m.bounding_box())[k].min).fold(f64::INFINITY, f64::min);
            let hi = members.iter().map(|m| axes(m.bounding_box())[k].max).fold(f64::NEG_INFINITY, f64::max);
            ensure!(
                (i.min - lo).abs() <= eps && (i.max - hi).abs() <= eps,
                "axis {k}: box of the group {:?} is not the smallest covering its members {lo}..{hi}",
                i
            );
        }
    }
    // every hit is inside
    let mut any = false;
    for (off, d, back) in &s.rays {
        let p = add(s.o.center(), mul(*off, s.o.size()));
        let ray = RaySpec { o: sub(p, mul(*d, *back)), d: *d };
        let r = ray.build();
        if let Some(hit) = h.hit(&r, &Interval::new(0.001, f64::INFINITY)) {
            any = true;
            let p = rv(hit.hit_point);
            let tol = 1e-9 * (scale + back.abs()) + 1e-9;
            for (k, i) in axes(b).iter().enumerate() {
                ensure!(p[k] >= i.min - tol && p[k] <= i.max + tol, "hit point {:?} is outside the bounding box on axis {k} ({:?})", p, i);
            }
            if well_inside(p, &e, 1e-6 * (scale + back.abs())) {
                obs.label("hit well within the extent");
                ensure!(b.hit(&r), "the object is hit at {:?} by a ray {:?} that its bounding box refuses", p, ray);
                ensure!(
                    b.hit_within(&r, &Interval::new(hit.ray_length - 1e-3, f64::INFINITY)),
                    "the object is hit at {:?} within an interval of a ray {:?} that its bounding box refuses", p, ray
                );
            }
        }
    }
    if any {
        obs.label("hit by a ray");
    }
    obs.nontrivial_if(any);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BoxRay {
    lo: V3,
    size: V3,
    f: V3,
    d: V3,
    back: f64,
    l: f64,
    iv: Option<(f64, f64)>,
}

fn box_ray() -> BoxedStrategy<BoxRay> {
    let f = || prop_oneof![6 => -0.4..1.4f64, 1 => Just(0.), 1 => Just(1.), 1 => Just(0.5)];
    let sz = || prop_oneof![5 => logf(0.01, 20.), 1 => Just(1e-4), 1 => logf(20., 1e4)];
    (
        point(20.),
        [sz(), sz(), sz()],
        [f(), f(), f()],
        dir(),
        prop_oneof![3 => 0.0..30.0f64, 1 => -30.0..0.0f64, 1 => -0.5..0.5f64],
        ray_len(),
        prop_oneof![
            3 => Just(None),
            1 => (-30.0..30.0f64, 0.0..60.0f64).prop_map(|(a, b)| Some((a, a + b))),
            1 => (0.0..5.0f64).prop_map(|a| Some((a, 1e300))),
        ],
    )
        .prop_map(|(lo, size, f, d, back, l, iv)| BoxRay { lo, size, f, d, back, l, iv })
        .boxed()
}

fn check_box_ray(s: &BoxRay, obs: &mut Obs) -> Res {
    let hi = add(s.lo, s.size);
    let p = add(s.lo, had(s.f, s.size));
    let ray = RaySpec { o: sub(p, mul(s.d, s.back)), d: mul(s.d, s.l) };
    let scale = maxabs(s.lo) + maxabs(s.size) + maxabs(ray.o) + 1.;
    let b = Aabb::new_from_2_points(sv(s.lo), sv(hi));
    let iv = s.iv.map_or((0., f64::INFINITY), |(a, b)| (a / s.l, b / s.l));
    let got = match s.iv {
        None => b.hit(&ray.build()),
        Some(_) => b.hit_within(&ray.build(), &Interval::new(iv.0, iv.1)),
    };
    // part of the ray inside the box, shrunk and grown by a margin
    let part = |m: f64| -> f64 {
        let (mut a, mut z): (f64, f64) = iv;
        for k in 0..3 {
            let (x0, x1) = (s.lo[k] + m, hi[k] - m);
            if ray.d[k] == 0. {
                if ray.o[k] <= x0 || ray.o[k] >= x1 {
                    return -1.;
                }
            } else {
                let (t0, t1) = ((x0 - ray.o[k]) / ray.d[k], (x1 - ray.o[k]) / ray.d[k]);
                a = a.max(t0.min(t1));
                z = z.min(t0.max(t1));
            }
        }
        z - a
    };
    let m = 1e-9 * scale;
    if part(m) > m / s.l {
        obs.label(if part(-m) > 0. && (0..3).all(|k| ray.o[k] > s.lo[k] && ray.o[k] < hi[k]) { "starts inside" } else { "passes the inside" });
        obs.nontrivial();
        if s.iv.is_some() {
            obs.label("interval");
        }
        ensure!(got, "the ray passes the inside of the box within the interval (or in front of its origin) but is refused");
    } else if part(-m) < -m / s.l {
        obs.label(if part(-m) == -1. || got { "misses" } else { "misses or behind" });
        obs.nontrivial();
        ensure!(!got, "the ray misses the box (or has it behind, or outside the interval) but is accepted");
    } else {
        obs.label("too close to call");
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Alg {
    p: Vec<V3>,
    shift: V3,
    x: f64,
    e: f64,
}

fn alg() -> BoxedStrategy<Alg> {
    let pt = || {
        prop_oneof![
            4 => point(50.),
            1 => [0i32..3, 0i32..3, 0i32..3].prop_map(|a| [a[0] as f64 * 5e-5, a[1] as f64 * 5e-5, a[2] as f64 * 6e-5]),
            1 => (0i32..2, [0i32..2, 0i32..2, 0i32..2], logf(1e-18, 1e-5)).prop_map(|(o, a, e)| [o as f64 + a[0] as f64 * e, a[1] as f64 * e, -o as f64 + a[2] as f64 * e]),
        ]
    };
    (prop::collection::vec(pt(), 6), point(20.), coord(60.), prop_oneof![coord(10.), -1e-3..1e-3f64], prop_oneof![4 => Just(1.), 1 => logf(1e-9, 1e15)])
        .prop_map(|(p, shift, x, e, k)| Alg { p: p.into_iter().map(|p| mul(p, k)).collect(), shift: mul(shift, k), x: x * k, e: e * k })
        .boxed()
}

fn check_alg(s: &Alg, obs: &mut Obs) -> Res {
    obs.nontrivial();
    let tol = 1e-11;
    let largest = s.p.iter().map(|p| maxabs(*p)).fold(s.x.abs() + s.e.abs() + maxabs(s.shift), f64::max);
    let near = |a: f64, b: f64| (a - b).abs() <= tol * largest + 1e-300;
    let iv = |k: usize, i: usize, j: usize| (s.p[i][k].min(s.p[j][k]), s.p[i][k].max(s.p[j][k]));
    let b2 = Aabb::new_from_2_points(sv(s.p[0]), sv(s.p[1]));
    let c2 = Aabb::new_from_2_points(sv(s.p[2]), sv(s.p[3]));
    let b3 = Aabb::new_from_3_points(sv(s.p[0]), sv(s.p[1]), sv(s.p[4]));
    let both = b2.combine(&c2);
    let three = combine_aabbs!(&c2, &b2, &b3);
    let with_empty = Aabb::default().combine(&b2);
    let moved = &b2 + sv(s.shift);
    let padded = b2.pad_if_needed();
    let mut diag = 0.;
    for k in 0..3 {
        let (lo, hi) = iv(k, 0, 1);
        let (lo2, hi2) = iv(k, 2, 3);
        let i = axes(&b2)[k];
        ensure!(i.min == lo && i.max == hi, "axis {k}: box of two points is {:?} for {lo}..{hi}", i);
        let i3 = axes(&b3)[k];
        let (lo3, hi3) = (lo.min(s.p[4][k]), hi.max(s.p[4][k]));
        ensure!(i3.min == lo3 && i3.max == hi3, "axis {k}: box of three points is {:?} for {lo3}..{hi3}", i3);
        let c = axes(&both)[k];
        ensure!(c.min == lo.min(lo2) && c.max == hi.max(hi2), "axis {k}: combined box is {:?}", c);
        let t = axes(&three)[k];
        ensure!(t.min == lo3.min(lo2) && t.max == hi3.max(hi2), "axis {k}: box combined of three is {:?}", t);
        let w = axes(&with_empty)[k];
        ensure!(w.min == lo && w.max == hi, "axis {k}: combining with the empty box gives {:?}", w);
        let m = axes(&moved)[k];
        ensure!(near(m.min, lo + s.shift[k]) && near(m.max, hi + s.shift[k]), "axis {k}: shifted box is {:?}", m);
        let p = axes(&padded)[k];
        let thin = hi - lo < 0.99e-4;
        ensure!(p.min <= lo && p.max >= hi, "axis {k}: padded box {:?} lost part of {lo}..{hi}", p);
        if thin && largest > 1e6 {
            // lost in rounding
        } else if thin {
            ensure!(p.size() > 1e-6 && lo - p.min <= PAD && p.max - hi <= PAD, "axis {k}: flat axis {lo}..{hi} padded to {:?}", p);
        } else if hi - lo > FLAT {
            ensure!(p.min == lo && p.max == hi, "axis {k}: axis {lo}..{hi} padded to {:?} without need", p);
        }
        ensure!(near(rv(b2.center())[k], (lo + hi) / 2.), "axis {k}: centre {:?}", b2.center());
        diag += (hi - lo) * (hi - lo);
        // intervals
        let i = Interval::new(lo, hi);
        ensure!(near(i.size(), hi - lo), "size of {:?} is {}", i, i.size());
        ensure!(i.contains(s.x) == (lo <= s.x && s.x <= hi), "{:?} contains {} is wrong", i, s.x);
        ensure!(i.contains(lo) && i.contains(hi), "{:?} does not contain its ends", i);
        let c = i.clamp(s.x);
        let want = if s.x < lo { lo } else if s.x > hi { hi } else { s.x };
        ensure!(c == want, "{} clamped to {:?} is {c}", s.x, i);
        let e = i.expand(s.e);
        ensure!(near(e.min, lo - s.e / 2.) && near(e.max, hi + s.e / 2.), "{:?} expanded by {} is {:?}", i, s.e, e);
        let u = combine_intervals(i, Interval::new(lo2, hi2));
        ensure!(u.min == lo.min(lo2) && u.max == hi.max(hi2), "{:?} combined with {lo2}..{hi2} is {:?}", i, u);
        ensure!(combine_intervals(EMPTY_INTERVAL, i) == i && combine_intervals(i, EMPTY_INTERVAL) == i, "empty interval is not neutral");
        ensure!(combine_intervals(UNIVERSE_INTERVAL, i) == UNIVERSE_INTERVAL, "universe interval is not absorbing");
        ensure!(!EMPTY_INTERVAL.contains(s.x) && UNIVERSE_INTERVAL.contains(s.x), "empty or universe interval wrong at {}", s.x);
        let (p, m) = (i + s.e, i - s.e);
        ensure!(near(p.min, lo + s.e) && near(p.max, hi + s.e), "{:?} + {} is {:?}", i, s.e, p);
        ensure!(near(m.min, lo - s.e) && near(m.max, hi - s.e), "{:?} - {} is {:?}", i, s.e, m);
    }
    ensure!(near(b2.diagonal_length(), diag.sqrt()), "diagonal {} should be {}", b2.diagonal_length(), diag.sqrt());
    Ok(())
}

fn obj_case() -> BoxedStrategy<ObjCase> {
    (
        any_obj(),
        prop::collection::vec(
            ([-1.0..1.0f64, -1.0..1.0f64, -1.0..1.0f64], dir(), prop_oneof![2.0..30.0f64, -1.0..1.0f64]),
            6,
        ),
    )
        .prop_map(|(o, rays)| ObjCase { o, rays })
        .boxed()
}

fn main() {
    run_main(
        "P03",
        || {
            vec![
                facet("objects", "a generated ray hits the object", 400_000, 6_000_000, obj_case(), check_obj),
                facet("ray-box", "the outcome is decided by more than 1e-9 of the scene size", 2_000_000, 40_000_000, box_ray(), check_box_ray),
                facet("algebra", "every case (boxes and intervals from generated points)", 500_000, 8_000_000, alg(), check_alg),
            ]
        },
        &["padding of up to 1e-3 is accepted on axes thinner than 1e-4, and on groups and boxes (which contain flat members)"],
    )
}
