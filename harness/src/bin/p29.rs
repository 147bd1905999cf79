//! P29: vector, ray and basis arithmetic obeys its algebra.
use harness::ensure;
use harness::fw::*;
use harness::geo::*;
use harness::spec::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solstrale::geo::vec3::{Vec3, ALMOST_ZERO, ONE_VECTOR, UNIT_Y, ZERO_VECTOR};
use solstrale::geo::{Onb, Ray, Uv};

/// any size between 10^-p and 10^p, or a plain number
fn num(p: f64) -> BoxedStrategy<f64> {
    prop_oneof![
        2 => (-9i32..10).prop_map(|i| i as f64),
        2 => -10.0..10.0f64,
        4 => (-p..p, any::<bool>()).prop_map(|(e, s)| if s { 10f64.powf(e) } else { -(10f64.powf(e)) }),
        1 => Just(0.),
    ]
    .boxed()
}

fn vec3(p: f64) -> BoxedStrategy<V3> {
    [num(p), num(p), num(p)].boxed()
}

/// a vector whose length is between 10^-p and 10^p
fn sized(p: f64) -> BoxedStrategy<V3> {
    prop_oneof![
        3 => (dir(), -p..p).prop_map(|(d, e)| mul(d, 10f64.powf(e))),
        1 => ([-9i32..10, -9i32..10, -9i32..10]).prop_map(|a| if a == [0; 3] { [0., 1., 0.] } else { [a[0] as f64, a[1] as f64, a[2] as f64] }),
        // components of very different size
        1 => (dir(), 0usize..3, -12.0..0.0f64).prop_map(|(mut d, k, e)| {
            d[k] *= 10f64.powf(e);
            if len(d) == 0. { [1., 0., 0.] } else { d }
        }),
    ]
    .boxed()
}

fn close(a: f64, b: f64, scale: f64) -> bool {
    a == b || (a - b).abs() <= 4e-15 * scale
}

fn close3(a: Vec3, b: V3, scale: V3) -> bool {
    let a = rv(a);
    (0..3).all(|i| close(a[i], b[i], scale[i]))
}

fn abs(a: V3) -> V3 {
    [a[0].abs(), a[1].abs(), a[2].abs()]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Components {
    a: V3,
    b: V3,
    s: f64,
    f: f32,
    k: u8,
    uv: [f32; 4],
}

fn check_components(c: &Components, obs: &mut Obs) -> Res {
    let (a, b, s) = (c.a, c.b, c.s);
    let (x, y) = (sv(a), sv(b));
    let map = |f: &dyn Fn(usize) -> f64| [f(0), f(1), f(2)];
    let size = add(abs(a), abs(b));
    ensure!(close3(x + y, map(&|i| a[i] + b[i]), size), "{a:?} + {b:?} = {:?}", x + y);
    ensure!(close3(x - y, map(&|i| a[i] - b[i]), size), "{a:?} - {b:?} = {:?}", x - y);
    let mut z = x;
    z += y;
    ensure!(close3(z, map(&|i| a[i] + b[i]), size), "{a:?} += {b:?} gives {z:?}");
    let ss = add(abs(a), [s.abs(); 3]);
    ensure!(close3(x + s, map(&|i| a[i] + s), ss), "{a:?} + {s} = {:?}", x + s);
    ensure!(close3(x - s, map(&|i| a[i] - s), ss), "{a:?} - {s} = {:?}", x - s);
    let m = map(&|i| a[i] * b[i]);
    ensure!(close3(x * y, m, abs(m)), "{a:?} * {b:?} = {:?}", x * y);
    let m = map(&|i| a[i] * s);
    ensure!(close3(x * s, m, abs(m)), "{a:?} * {s} = {:?}", x * s);
    let m = map(&|i| a[i] * c.f as f64);
    ensure!(close3(x * c.f, m, abs(m)), "{a:?} * {} (single precision) = {:?}", c.f, x * c.f);
    if b.iter().all(|x| *x != 0.) {
        let m = map(&|i| a[i] / b[i]);
        ensure!(close3(x / y, m, abs(m)), "{a:?} / {b:?} = {:?}", x / y);
    }
    if s != 0. {
        let m = map(&|i| a[i] / s);
        ensure!(close3(x / s, m, abs(m)), "{a:?} / {s} = {:?}", x / s);
    }
    ensure!(rv(x.neg()) == neg(a), "negative of {a:?} is {:?}", x.neg());
    for k in [0, 1, 2, c.k] {
        let want = a[(k as usize).min(2)];
        ensure!(x.axis(k) == want, "axis {k} of {a:?} is {}", x.axis(k));
    }
    // named constants and tests
    ensure!(rv(ZERO_VECTOR) == [0.; 3] && rv(ONE_VECTOR) == [1.; 3] && rv(UNIT_Y) == [0., 1., 0.], "a constant vector is wrong");
    let most = maxabs(a);
    if most < ALMOST_ZERO * 0.999 {
        ensure!(x.near_zero(), "{a:?} is not near zero");
        obs.label("near zero");
    } else if most > ALMOST_ZERO * 1.001 {
        ensure!(!x.near_zero(), "{a:?} is near zero");
    }
    let d = Uv::new(c.uv[0], c.uv[1]) - Uv::new(c.uv[2], c.uv[3]);
    ensure!(
        ((d.u - (c.uv[0] - c.uv[2])).abs() <= 1e-6 * (c.uv[0].abs() + c.uv[2].abs())) && ((d.v - (c.uv[1] - c.uv[3])).abs() <= 1e-6 * (c.uv[1].abs() + c.uv[3].abs())),
        "difference of texture coordinates {:?} is {d:?}",
        c.uv
    );
    let r = Ray::new(x, y);
    let p = r.at(s);
    let want = map(&|i| a[i] + b[i] * s);
    let scale = map(&|i| a[i].abs() + (b[i] * s).abs());
    ensure!(close3(p, want, scale), "the point of the ray from {a:?} along {b:?} at {s} is {p:?}");
    ensure!(rv(r.origin) == a && rv(r.direction) == b && rv(r.at(0.)) == a, "the ray does not start at its origin");
    obs.nontrivial_if(a.iter().all(|x| *x != 0.) && b.iter().all(|x| *x != 0.) && a != b);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Products {
    a: V3,
    b: V3,
    c: V3,
    parallel: Option<f64>,
}

fn check_products(s: &Products, obs: &mut Obs) -> Res {
    let a = s.a;
    let b = s.parallel.map_or(s.b, |k| mul(a, k));
    let c = s.c;
    let (x, y, z) = (sv(a), sv(b), sv(c));
    let (la, lb, lc) = (len(a), len(b), len(c));
    let e = 1e-14;
    ensure!((x.dot(y) - dot(a, b)).abs() <= e * la * lb, "{a:?} . {b:?} = {}", x.dot(y));
    ensure!((x.dot(y) - y.dot(x)).abs() <= e * la * lb, "dot product is not symmetric for {a:?}, {b:?}");
    ensure!((x.dot(y + z) - x.dot(y) - x.dot(z)).abs() <= e * la * (lb + lc), "dot product does not distribute over {b:?} + {c:?}");
    ensure!((x.length_squared() - dot(a, a)).abs() <= e * la * la, "squared length of {a:?} is {}", x.length_squared());
    ensure!((x.length() - la).abs() <= e * la, "length of {a:?} is {}", x.length());
    ensure!((x + y).length() <= (la + lb) * (1. + e), "triangle inequality fails for {a:?}, {b:?}");
    let n = x.cross(y);
    ensure!(dist(rv(n), cross(a, b)) <= e * la * lb, "{a:?} x {b:?} = {n:?}");
    ensure!(n.dot(x).abs() <= e * la * la * lb && n.dot(y).abs() <= e * la * lb * lb, "{a:?} x {b:?} = {n:?} is not perpendicular to both");
    ensure!((n + y.cross(x)).length() <= e * la * lb, "cross product is not antisymmetric for {a:?}, {b:?}");
    let lagrange = n.length_squared() + x.dot(y) * x.dot(y);
    ensure!((lagrange - la * la * lb * lb).abs() <= 4. * e * la * la * lb * lb, "Lagrange's identity fails for {a:?}, {b:?}");
    // triple product: the volume is the same from all three sides
    ensure!((n.dot(z) - y.cross(z).dot(x)).abs() <= 4. * e * la * lb * lc, "triple product of {a:?}, {b:?}, {c:?} is not cyclic");
    ensure!(x.cross(x).length() <= e * la * la, "{a:?} x itself = {:?}", x.cross(x));
    let u = x.unit();
    ensure!((u.length() - 1.).abs() <= e, "unit vector of {a:?} has length {}", u.length());
    ensure!(dist(rv(u * x.length()), a) <= e * la * 2., "unit vector of {a:?} points to {u:?}");
    obs.nontrivial();
    if s.parallel.is_some() {
        obs.label("parallel");
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bend {
    v: V3,
    l: f64,
    n: V3,
    /// share of the largest sine that still refracts
    sine: f64,
    around: f64,
    ratio: f64,
}

fn check_bend(s: &Bend, obs: &mut Obs) -> Res {
    let (n, v) = (s.n, mul(s.v, s.l));
    let r = rv(sv(v).reflect(sv(n)));
    let want = sub(v, mul(n, 2. * dot(v, n)));
    ensure!(dist(r, want) <= 1e-14 * s.l * 4., "{v:?} reflected about {n:?} is {r:?} instead of {want:?}");
    ensure!((len(r) - s.l).abs() <= 1e-14 * 4. * s.l, "reflection of {v:?} about {n:?} has another length");
    let back = rv(sv(r).reflect(sv(n)));
    ensure!(dist(back, v) <= 1e-14 * 8. * s.l, "reflecting {v:?} twice about {n:?} gives {back:?}");
    ensure!((dot(r, n) + dot(v, n)).abs() <= 1e-14 * 8. * s.l, "reflection keeps the side of the surface");
    // refraction of a unit vector coming from the side of n
    let limit = (1. / s.ratio).min(1.);
    let sin = s.sine * limit;
    let (e1, e2, _) = basis(n);
    let tang = add(mul(e1, s.around.cos()), mul(e2, s.around.sin()));
    let cos = ((1. - sin) * (1. + sin)).sqrt();
    let incoming = unit(sub(mul(tang, sin), mul(n, cos)));
    let out = rv(sv(incoming).refract(sv(n), s.ratio));
    let out_sin = (sin * s.ratio).min(1.);
    let want = sub(mul(tang, out_sin), mul(n, ((1. - out_sin) * (1. + out_sin)).max(0.).sqrt()));
    // near grazing exit the normal part is a square root of almost nothing
    let tol = 1e-14 + 1e-15 / (((1. - out_sin) * (1. + out_sin)).sqrt() + 1e-8);
    ensure!(dist(out, want) <= 8. * tol, "{incoming:?} refracted at {n:?} with ratio {} is {out:?} instead of {want:?}", s.ratio);
    ensure!((len(out) - 1.).abs() <= 1e-13 + 8. * tol, "refracted direction has length {}", len(out));
    if s.ratio == 1. {
        obs.label("same medium");
    }
    obs.nontrivial_if(sin > 1e-3);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lines {
    p: V3,
    n: V3,
    h: f64,
    /// sine of the angle between the lines
    sin: f64,
    flip: bool,
    l: [f64; 2],
    shift: [f64; 2],
}

fn check_lines(s: &Lines, obs: &mut Obs) -> Res {
    let (e1, e2, n) = basis(s.n);
    let cos = ((1. - s.sin) * (1. + s.sin)).sqrt();
    let d1 = mul(e1, s.l[0]);
    let d2 = if s.sin == 0. { mul(d1, s.l[1] / s.l[0]) } else { mul(add(mul(e1, cos), mul(e2, s.sin)), s.l[1]) };
    let d2 = if s.flip { neg(d2) } else { d2 };
    let o1 = add(s.p, mul(e1, s.shift[0]));
    let o2 = add(add(s.p, mul(n, s.h)), mul(unit(d2), s.shift[1]));
    let (a, b) = (Ray::new(sv(o1), sv(d1)), Ray::new(sv(o2), sv(d2)));
    let (x, y) = (a.shortest_distance(&b), b.shortest_distance(&a));
    let scale = 1. + maxabs(s.p) + s.h.abs() + s.shift[0].abs() + s.shift[1].abs();
    // lines that are almost parallel: their directions and origins are only known to some digits
    let tol = scale * (1e-12 + if s.sin > 0. && s.sin < 1e-3 { (1e-14 / s.sin).min(1e-6).max(2e-8) } else { 0. });
    let want = s.h.abs();
    let what = || format!("lines at {o1:?} along {d1:?} and at {o2:?} along {d2:?}");
    ensure!((x - want).abs() <= tol, "distance of {} is {x} instead of {want}", what());
    ensure!((y - want).abs() <= tol, "distance of {} the other way round is {y} instead of {want}", what());
    ensure!(x >= 0. && (x - y).abs() <= 2. * tol, "distance of {} is {x}, or {y} the other way round", what());
    let z = a.shortest_distance(&a);
    ensure!(z.abs() <= tol, "distance of a line to itself is {z}");
    obs.nontrivial_if(s.h != 0.);
    obs.label(if s.sin == 0. {
        "parallel"
    } else if s.sin < 1e-3 {
        "almost parallel"
    } else if s.h == 0. {
        "meet"
    } else {
        "skew"
    });
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Base {
    w: V3,
    a: V3,
    b: V3,
}

fn check_base(s: &Base, obs: &mut Obs) -> Res {
    let o = Onb::new(sv(s.w));
    let (i, j, k) = (rv(o.local(sv([1., 0., 0.]))), rv(o.local(sv([0., 1., 0.]))), rv(o.local(sv([0., 0., 1.]))));
    let e = 1e-13;
    for (n, v) in [("first", i), ("second", j), ("third", k)] {
        ensure!((len(v) - 1.).abs() < e, "{n} axis {v:?} of the basis on {:?} is not of length one", s.w);
    }
    for (n, v, w) in [("first and second", i, j), ("first and third", i, k), ("second and third", j, k)] {
        ensure!(dot(v, w).abs() < e, "{n} axis of the basis on {:?} are not perpendicular: {v:?} {w:?}", s.w);
    }
    ensure!(dist(k, unit(s.w)) < e, "third axis {k:?} of the basis on {:?} points elsewhere", s.w);
    let (x, y) = (rv(o.local(sv(s.a))), rv(o.local(sv(s.b))));
    let (la, lb) = (len(s.a), len(s.b));
    ensure!((len(x) - la).abs() <= e * la, "{:?} has another length in the basis on {:?}", s.a, s.w);
    ensure!((dot(x, y) - dot(s.a, s.b)).abs() <= e * la * lb, "angle of {:?} and {:?} changes in the basis on {:?}", s.a, s.b, s.w);
    let back = [dot(x, i), dot(x, j), dot(x, k)];
    ensure!(dist(back, s.a) <= 2. * e * la, "{:?} becomes {back:?} in the basis on {:?}", s.a, s.w);
    let sum = rv(o.local(sv(add(s.a, s.b))));
    ensure!(dist(sum, add(x, y)) <= 2. * e * (la + lb), "the basis on {:?} is not linear", s.w);
    obs.nontrivial_if(unit(s.w).iter().filter(|x| x.abs() > 1e-6).count() > 1);
    if unit(s.w)[0].abs() > 0.9 {
        obs.label("close to x");
    }
    Ok(())
}

fn main() {
    run_main(
        "P29",
        || {
            vec![
                facet(
                    "components",
                    "different vectors without zero components",
                    1_500_000,
                    30_000_000,
                    (
                        prop_oneof![8 => vec3(60.), 1 => vec3(60.).prop_map(|a| mul(a, 1e-10 / maxabs(a).max(1e-9)))],
                        vec3(60.),
                        num(60.),
                        -1e3f32..1e3,
                        any::<u8>(),
                        [-3.0..3.0f32, -3.0..3.0f32, -3.0..3.0f32, -3.0..3.0f32],
                    )
                        .prop_map(|(a, b, s, f, k, uv)| Components { a, b, s, f, k, uv }),
                    check_components,
                ),
                facet(
                    "products",
                    "every case",
                    1_000_000,
                    20_000_000,
                    (sized(30.), sized(30.), sized(30.), prop::option::weighted(0.15, prop_oneof![Just(1.), Just(-1.), -100.0..100.0f64]))
                        .prop_map(|(a, b, c, parallel)| Products { a, b, c, parallel: parallel.filter(|k| *k != 0.) }),
                    check_products,
                ),
                facet(
                    "bending",
                    "not perpendicular to the surface",
                    1_000_000,
                    20_000_000,
                    (dir(), logf(1e-20, 1e20), dir(), prop_oneof![6 => 0.0..0.9999f64, 1 => Just(0.), 1 => logf(1e-12, 1e-4).prop_map(|e| 1. - e)], 0.0..std::f64::consts::TAU, prop_oneof![1 => Just(1.), 1 => Just(1.5), 1 => Just(1. / 1.5), 5 => 0.2..5.0f64])
                        .prop_map(|(v, l, n, sine, around, ratio)| Bend { v, l, n, sine, around, ratio }),
                    check_bend,
                ),
                facet(
                    "lines",
                    "lines that do not meet",
                    1_000_000,
                    20_000_000,
                    (
                        point(20.),
                        dir(),
                        prop_oneof![1 => Just(0.), 5 => -20.0..20.0f64, 1 => logf(1e-6, 1e3)],
                        prop_oneof![2 => Just(0.), 5 => 1e-3..1.0f64, 1 => Just(1.), 1 => logf(1e-18, 1e-3)],
                        any::<bool>(),
                        [logf(1e-3, 1e3), logf(1e-3, 1e3)],
                        [-50.0..50.0f64, -50.0..50.0f64],
                    )
                        .prop_map(|(p, n, h, sin, flip, l, shift)| Lines { p, n, h, sin, flip, l, shift }),
                    check_lines,
                ),
                facet(
                    "basis",
                    "direction not along an axis",
                    1_000_000,
                    20_000_000,
                    (sized(100.), sized(20.), sized(20.)).prop_map(|(w, a, b)| Base { w, a, b }),
                    check_base,
                ),
            ]
        },
        &["rounding errors of some units in the last place", "sizes at which squares neither overflow nor vanish"],
    )
}
