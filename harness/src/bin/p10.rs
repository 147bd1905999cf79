//! P10: random numbers, directions and pdfs follow their distributions.
use harness::ensure;
use harness::fw::*;
use harness::geo::*;
use harness::spec::*;
use harness::stats::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solstrale::geo::vec3::{
    random_cosine_direction, random_in_unit_disc, random_in_unit_sphere, random_unit_vector, random_vec3,
};
use solstrale::hittable::{Hittable, Hittables};
use solstrale::pdf::{mix_generate, mix_value, ContainerPdf, CosinePdf, Pdf, Pdfs, SpherePdf};
use solstrale::random::{random_element_index, random_float, random_normal_float, random_uint32};
use std::f64::consts::PI;

fn count(obs: &Obs, quick: usize) -> usize {
    if obs.thorough {
        quick * 8
    } else {
        quick
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Num {
    min: f64,
    width: f64,
    n: u32,
    seed: u64,
}

/// moments and shares of tenths of a value that should be uniform in [0,1)
fn uniform<'a>(mut f: impl FnMut() -> Result<f64, String> + 'a) -> impl FnMut() -> [f64; 14] + 'a {
    let mut last = 0.5;
    move || match f() {
        Ok(x) => {
            let mut r = [0.; 14];
            r[0] = x;
            r[1] = x * x;
            r[2] = x * x * x;
            // independent of the value before
            r[3] = (x - 0.5) * (last - 0.5);
            last = x;
            for k in 0..10 {
                r[4 + k] = if (x * 10.).floor() as usize == k { 1. } else { 0. };
            }
            r
        }
        Err(_) => [f64::NAN; 14],
    }
}

const UNI: [f64; 14] = [0.5, 1. / 3., 0.25, 0., 0.1, 0.1, 0.1, 0.1, 0.1, 0.1, 0.1, 0.1, 0.1, 0.1];

fn check_num(s: &Num, obs: &mut Obs) -> Res {
    fastrand::ctl::seeded(s.seed);
    let n = count(obs, 40_000);
    let bad = std::cell::Cell::new(None);
    check_means("random_normal_float", UNI, [1e-9; 14], 0.05, n, uniform(|| {
        let x = random_normal_float();
        if !(0. ..1.).contains(&x) {
            bad.set(Some(x));
            return Err(String::new());
        }
        Ok(x)
    }))
    .map_err(|e| format!("{e} {:?}", bad.get()))?;
    let (lo, hi) = (s.min, s.min + s.width);
    check_means("random_float", UNI, [1e-9; 14], 0.05, n, uniform(|| {
        let x = random_float(lo, hi);
        if !(lo..hi).contains(&x) {
            bad.set(Some(x));
            return Err(String::new());
        }
        Ok((x - lo) / (hi - lo))
    }))
    .map_err(|e| format!("{e} {:?} in {lo}..{hi}", bad.get()))?;
    check_means("random_vec3", [0.5, 0.5, 0.5, 1. / 3., 1. / 3., 1. / 3., 0.25, 0.25, 0.25], [1e-9; 9], 0.05, n, || {
        let p = rv(random_vec3(lo, hi));
        if p.iter().any(|x| !(lo..hi).contains(x)) {
            return [f64::NAN; 9];
        }
        let q = mul(sub(p, [lo; 3]), 1. / s.width);
        [q[0], q[1], q[2], q[0] * q[0], q[1] * q[1], q[2] * q[2], q[0] * q[1], q[1] * q[2], q[2] * q[0]]
    })?;
    let m = s.n;
    let e2 = ((m as f64 - 1.) * (2. * m as f64 - 1.) / 6.) / (m as f64 * m as f64);
    let e1 = (m as f64 - 1.) / 2. / m as f64;
    let last = (m - 1) as f64;
    check_means("random_uint32", [e1, e2, 1. / m as f64, 1. / m as f64], [1e-9; 4], 0.02, n, || {
        let x = random_uint32(m);
        if x >= m {
            return [f64::NAN; 4];
        }
        let f = x as f64 / m as f64;
        [f, f * f, f64::from(u8::from(x == 0)), f64::from(u8::from(x as f64 == last))]
    })?;
    // lists of up to some ten thousand elements
    let k = if m % 3 == 0 { m as usize % 30_000 + 1 } else { m as usize % 40 + 1 };
    let v = vec![0u8; k];
    let e1 = (k as f64 - 1.) / 2. / k as f64;
    let e2 = ((k as f64 - 1.) * (2. * k as f64 - 1.) / 6.) / (k as f64 * k as f64);
    check_means("random_element_index", [e1, e2, 1. / k as f64, 1. / k as f64], [1e-9; 4], 0.02, n, || {
        let x = random_element_index(&v);
        if x >= k {
            return [f64::NAN; 4];
        }
        let f = x as f64 / k as f64;
        [f, f * f, f64::from(u8::from(x == 0)), f64::from(u8::from(x == k - 1))]
    })?;
    obs.nontrivial();
    Ok(())
}

/// quadratic and quartic harmonics of a unit vector in a frame; all have mean zero when uniform
fn harmonics(d: V3) -> [f64; 11] {
    let [x, y, z] = d;
    [x, y, z, x * y, y * z, z * x, x * x - 1. / 3., z * z - 1. / 3., x.powi(4) - 0.2, z.powi(4) - 0.2, x * y * z]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Dir {
    axis: V3,
    l: f64,
    other: V3,
    ol: f64,
    turn: [V3; 2],
}

fn dir_case() -> BoxedStrategy<Dir> {
    (dir(), prop_oneof![2 => Just(1.), 2 => logf(1e-3, 1e3), 1 => logf(1e-6, 1e8)], dir(), logf(1e-3, 1e3), [dir(), dir()])
        .prop_map(|(axis, l, other, ol, turn)| Dir { axis, l, other, ol, turn })
        .boxed()
}

fn check_dir(s: &Dir, obs: &mut Obs) -> Res {
    let n = count(obs, 20_000);
    // everything is looked at in a random frame
    let (ea, eb, ew) = basis(s.turn[0]);
    let fr = |p: V3| [dot(p, ea), dot(p, eb), dot(p, ew)];
    let z11 = [0.; 11];
    check_means("random_unit_vector", z11, [1e-9; 11], 0.05, n, || {
        let d = rv(random_unit_vector());
        if (len(d) - 1.).abs() > 1e-9 {
            return [f64::NAN; 11];
        }
        harmonics(fr(d))
    })?;
    check_means("random_in_unit_sphere direction", z11, [1e-9; 11], 0.05, n, || harmonics(fr(unit(rv(random_in_unit_sphere())))))?;
    check_means("random_in_unit_sphere radius", UNI, [1e-9; 14], 0.05, n, uniform(|| {
        let l = len(rv(random_in_unit_sphere()));
        if l > 1. {
            return Err(String::new());
        }
        Ok(l.powi(3).min(1. - 1e-16))
    }))?;
    check_means("random_in_unit_disc radius", UNI, [1e-9; 14], 0.05, n, uniform(|| {
        let p = rv(random_in_unit_disc());
        if len(p) > 1. || p[2] != 0. {
            return Err(String::new());
        }
        Ok(dot(p, p).min(1. - 1e-16))
    }))?;
    check_means("random_in_unit_disc angle", [0.; 8], [1e-9; 8], 0.05, n, || {
        let p = rv(random_in_unit_disc());
        let a = p[1].atan2(p[0]);
        let r = len(p);
        [a.cos(), a.sin(), (2. * a).cos(), (2. * a).sin(), (4. * a).cos(), (4. * a).sin(), r * a.cos(), r * a.sin()]
    })?;
    // cosine: the squared height is uniform, the angle too
    let cosine = |what: &str, mut f: Box<dyn FnMut() -> V3>| -> Res {
        check_means(&format!("{what} angle"), [0.; 7], [1e-9; 7], 0.05, n, || {
            let d = f();
            if (len(d) - 1.).abs() > 1e-9 || d[2] < -1e-12 {
                return [f64::NAN; 7];
            }
            let a = d[1].atan2(d[0]);
            [a.cos(), a.sin(), (2. * a).cos(), (2. * a).sin(), (3. * a).cos(), (3. * a).sin(), (4. * a).cos()]
        })?;
        check_means(&format!("{what} height"), UNI, [1e-9; 14], 0.05, n, uniform(|| Ok((f()[2].powi(2)).min(1. - 1e-16))))
    };
    cosine("random_cosine_direction", Box::new(|| rv(random_cosine_direction())))?;
    let w = mul(s.axis, s.l);
    let (a, b, c) = basis(s.axis);
    let pdf = CosinePdf::new(sv(w));
    cosine("CosinePdf", Box::new(move || {
        let d = rv(pdf.generate());
        [dot(d, a), dot(d, b), dot(d, c)]
    }))?;
    let sp = SpherePdf::new();
    check_means("SpherePdf", z11, [1e-9; 11], 0.05, n, || {
        let d = rv(sp.generate());
        if (len(d) - 1.).abs() > 1e-9 {
            return [f64::NAN; 11];
        }
        harmonics(fr(d))
    })?;
    obs.nontrivial();
    Ok(())
}

/// shares of the outermost parts, down to one in a thousand, of values that should be uniform in 0..1
fn check_outermost(s: &Dir, obs: &mut Obs) -> Res {
    let ends = |what: &str, f: &mut dyn FnMut() -> f64| check_ends(what, 1 << 18, f);
    let (lo, hi) = (-s.l, s.ol);
    ends("random_normal_float", &mut random_normal_float)?;
    ends("random_float", &mut || (random_float(lo, hi) - lo) / (hi - lo))?;
    ends("random_vec3", &mut || (dot(rv(random_vec3(lo, hi)), [0., 1., 0.]) - lo) / (hi - lo))?;
    ends("random_in_unit_sphere, radius", &mut || len(rv(random_in_unit_sphere())).powi(3))?;
    ends("random_in_unit_disc, radius", &mut || len(rv(random_in_unit_disc())).powi(2))?;
    let angle = |p: V3| (p[1].atan2(p[0]) / (2. * PI) + 0.5).clamp(0., 1.);
    ends("random_in_unit_disc, angle", &mut || angle(rv(random_in_unit_disc())))?;
    let along = |d: V3| ((1. + dot(unit(d), s.turn[0])) * 0.5).clamp(0., 1.);
    ends("random_unit_vector", &mut || along(rv(random_unit_vector())))?;
    ends("random_in_unit_sphere", &mut || along(rv(random_in_unit_sphere())))?;
    ends("random_cosine_direction, height", &mut || rv(random_cosine_direction())[2].powi(2))?;
    ends("random_cosine_direction, angle", &mut || angle(rv(random_cosine_direction())))?;
    let sp = SpherePdf::new();
    ends("SpherePdf", &mut || along(rv(sp.generate())))?;
    let cp = CosinePdf::new(sv(mul(s.axis, s.l)));
    ends("CosinePdf", &mut || dot(rv(cp.generate()), s.axis).max(0.).powi(2))?;
    obs.nontrivial();
    Ok(())
}

fn check_value(s: &Dir, obs: &mut Obs) -> Res {
    let w = mul(s.axis, s.l);
    let cp = CosinePdf::new(sv(w));
    let sp = SpherePdf::new();
    for d in [s.other, neg(s.other), s.axis, neg(s.axis), s.turn[0], s.turn[1]] {
        let want = (dot(unit(d), s.axis) / PI).max(0.);
        for l in [1., s.ol] {
            let x = sv(mul(d, l));
            let got = cp.value(x);
            ensure!((got - want).abs() < 1e-9, "cosine density is {got} instead of {want}");
            let got = sp.value(x);
            ensure!((got - 1. / (4. * PI)).abs() < 1e-12, "sphere density is {got}");
            for (p, q) in [(&cp, &sp), (&sp, &cp), (&cp, &cp)] {
                let m = mix_value(p, q, x);
                let want = 0.5 * (p.value(x) + q.value(x));
                ensure!((m - want).abs() < 1e-12, "mixed density is {m} instead of {want}");
            }
        }
        if want > 0. {
            obs.nontrivial();
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- light lists and mixes

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lights {
    lights: Vec<Obj>,
    dup: Option<u8>,
    /// repeated so often
    times: usize,
    axis: V3,
    l: f64,
}

fn lights() -> BoxedStrategy<Lights> {
    // lights keep a distance of about one from the viewpoint at the origin
    let sphere = (dir(), 2.0..12.0f64, 0.05..0.95f64).prop_map(|(d, a, f)| Obj::Sphere { c: mul(d, a), r: (a - 1.) * f, m: Mat::Light([1.; 3], None) });
    let flat = (dir(), 2.0..12.0f64, edges(0.1, 8.), any::<bool>(), dir()).prop_map(|(d, a, (u, v), tri, turn)| {
        // its plane passes the viewpoint at a distance: roughly facing it
        let (p, q, w) = basis(unit(add(d, mul(turn, 0.6))));
        let (bu, bv, bw) = basis(cross(u, v));
        let to = |x: V3| add(add(mul(p, dot(x, bu)), mul(q, dot(x, bv))), mul(w, dot(x, bw)));
        let (u, v) = (to(u), to(v));
        let m = Mat::Light([1.; 3], None);
        let c = mul(d, a);
        if tri {
            Obj::Tri { a: c, b: add(c, u), c: add(c, v), uv: None, tf: vec![], m }
        } else {
            Obj::Quad { q: sub(c, mul(add(u, v), 0.5)), u, v, tf: vec![], m }
        }
    });
    (
        prop::collection::vec(prop_oneof![1 => sphere, 2 => flat], 1..6),
        prop::option::weighted(0.2, any::<u8>()),
        prop_oneof![9 => Just(1usize), 1 => 2usize..300],
        dir(),
        logf(0.05, 20.),
    )
        .prop_map(|(lights, dup, times, axis, l)| Lights { lights, dup, times, axis, l })
        .boxed()
}

fn flat_height(o: &Obj) -> f64 {
    match o {
        Obj::Quad { q, u, v, .. } => dot(*q, unit(cross(*u, *v))).abs(),
        Obj::Tri { a, b, c, .. } => dot(*a, unit(cross(sub(*b, *a), sub(*c, *a)))).abs(),
        _ => 1.,
    }
}

fn check_lights(s: &Lights, obs: &mut Obs) -> Res {
    if s.lights.iter().any(|o| flat_height(o) < 0.3) {
        return Ok(());
    }
    let mut l: Vec<Hittables> = s.lights.iter().map(|o| o.build_one()).collect();
    if let Some(d) = s.dup {
        let x = l[d as usize % l.len()].clone();
        l.push(x);
    }
    let few = l.clone();
    let l: Vec<Hittables> = (0..l.len() * s.times).map(|i| l[i % l.len()].clone()).collect();
    let k = l.len();
    let o = sv([0.; 3]);
    let pdf = ContainerPdf::new(&l, o);
    let sphere = SpherePdf::new();
    let cosine = CosinePdf::new(sv(mul(s.axis, s.l)));
    let avg = |d| l.iter().map(|h| h.pdf_value(o, d)).sum::<f64>() / k as f64;
    // densities, for directions to every light and some others
    let mut dirs: Vec<V3> = vec![s.axis, neg(s.axis)];
    for h in &few {
        dirs.push(rv(h.random_direction(o)));
    }
    for d in &dirs {
        for x in [*d, mul(unit(*d), s.l)] {
            let x = sv(x);
            let (got, want) = (pdf.value(x), avg(x));
            ensure!((got - want).abs() <= 1e-9 * want, "density of the list is {got}, the average is {want}");
            for p in [&sphere, &cosine] {
                let (got, want) = (mix_value(&pdf, p, x), 0.5 * (avg(x) + p.value(x)));
                ensure!((got - want).abs() <= 1e-9 * want, "mixed density is {got} instead of {want}");
            }
        }
    }
    // E[p_i / value] = 1 for every member when the list draws evenly from its members
    let n = count(obs, 4_000) / (1 + s.times / 4);
    for (i, h) in few.iter().enumerate() {
        check_means(&format!("list draw against light {i} of {k}"), [1.], [2e-4], 0.5, n, || {
            let d = pdf.generate();
            let v = pdf.value(d);
            // a direction at the rim may miss its own light by rounding
            if v == 0. {
                return [1.];
            }
            [h.pdf_value(o, d) / v]
        })?;
    }
    let pairs: [(&str, &Pdfs, &Pdfs); 4] =
        [("lights and sphere", &pdf, &sphere), ("lights and cosine", &pdf, &cosine), ("cosine and sphere", &cosine, &sphere), ("sphere and lights", &sphere, &pdf)];
    for (what, a, b) in pairs {
        check_means(&format!("mix of {what}"), [1., 1.], [2e-4; 2], 0.5, n, || {
            let d = mix_generate(a, b);
            let v = mix_value(a, b, d);
            if v == 0. {
                return [1., 1.];
            }
            [a.value(d) / v, b.value(d) / v]
        })?;
    }
    obs.label(match k {
        1..=7 => format!("{k} lights"),
        8..=255 => "up to 255 lights".into(),
        _ => "more lights".into(),
    });
    obs.nontrivial();
    Ok(())
}

fn main() {
    run_main(
        "P10",
        || {
            vec![
                facet(
                    "numbers",
                    "every case",
                    800,
                    16_000,
                    (prop_oneof![Just(0.), Just(-1.), -100.0..100.0f64], logf(0.2, 1000.), prop_oneof![1u32..20, 1u32..1_000_000], any::<u64>())
                        .prop_map(|(min, width, n, seed)| Num { min, width, n, seed }),
                    check_num,
                ),
                facet("directions", "every case", 600, 8_000, dir_case(), check_dir),
                facet("ends", "every case", 60, 1_500, dir_case(), check_outermost),
                facet("density", "a direction with positive cosine density", 400_000, 8_000_000, dir_case(), check_value),
                facet("lights and mixes", "every judged list", 5_000, 60_000, lights(), check_lights),
            ]
        },
        &[
            "means of samples are judged at 5 and, with 16 times the samples, 7 standard errors; moments, shares of tenths and correlations are judged, not every conceivable statistic",
            "the random numbers come from a seeded stand-in for fastrand's generator, which is itself trusted",
        ],
    )
}
