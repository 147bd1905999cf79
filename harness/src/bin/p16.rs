//! P16: the camera frames, orients and focuses as configured.
use harness::ensure;
use harness::fw::*;
use harness::geo::*;
use harness::spec::*;
use harness::stats::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solstrale::camera::{Camera, CameraConfig};
use solstrale::geo::Uv;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    from: V3,
    dir: V3,
    dist: f64,
    /// the up vector: angle to the view in degrees, turn around it, length
    up: (f64, f64, f64),
    fov: f64,
    w: usize,
    h: usize,
    aperture: f64,
    uvs: Vec<[f32; 2]>,
}

fn uv() -> BoxedStrategy<f32> {
    prop_oneof![1 => Just(0f32), 1 => Just(0.5f32), 1 => Just(1f32), 5 => 0.0..1.0f32, 1 => -0.2..1.2f32].boxed()
}

fn case(aperture: bool) -> BoxedStrategy<Case> {
    (
        (prop_oneof![3 => point(30.), 1 => point(1e4)], dir(), prop_oneof![3 => logf(0.05, 500.), 1 => logf(1e-3, 1e6)]),
        (prop_oneof![1 => Just(90.), 4 => 5.0..175.0f64], 0.0..360.0f64, prop_oneof![2 => Just(1.), 2 => logf(0.01, 100.), 1 => logf(1e-6, 1e6)]),
        prop_oneof![2 => Just(90.), 8 => 1.0..170.0f64, 1 => logf(0.02, 1.), 1 => 170.0..179.0f64],
        (prop_oneof![Just(1usize), 1usize..40, 1usize..4000], prop_oneof![Just(1usize), 1usize..40, 1usize..4000], any::<bool>()),
        if aperture { prop_oneof![3 => logf(0.001, 10.), 1 => logf(1e-4, 1e3)].boxed() } else { prop_oneof![3 => Just(0.), 1 => Just(-1.)].boxed() },
        prop::collection::vec([uv(), uv()], 1..6),
    )
        .prop_map(|((from, dir, dist), up, fov, (w, h, square), aperture, uvs)| {
            let h = if square { w } else { h };
            let aperture = f64::max(aperture, 0.);
            Case { from, dir, dist, up, fov, w, h, aperture, uvs }
        })
        .boxed()
}

struct View {
    forward: V3,
    right: V3,
    up: V3,
    /// half the height and width of the image at distance one
    half: (f64, f64),
}

fn setup(s: &Case) -> (Camera, View) {
    let at = add(s.from, mul(s.dir, s.dist));
    let forward = s.dir;
    let (a, b, _) = basis(forward);
    let turn = s.up.1.to_radians();
    let (e, f) = s.up.0.to_radians().sin_cos();
    let side = add(mul(a, turn.cos()), mul(b, turn.sin()));
    let up = mul(add(mul(forward, f), mul(side, e)), s.up.2);
    let camera = Camera::new(
        s.w,
        s.h,
        &CameraConfig { vertical_fov_degrees: s.fov, aperture_size: s.aperture, look_from: sv(s.from), look_at: sv(at), up: sv(up) },
    );
    let hh = (s.fov.to_radians() / 2.).tan();
    // the image's up is the configured one, made perpendicular to the view
    let view = View { forward, right: cross(forward, side), up: side, half: (hh * s.w as f64 / s.h as f64, hh) };
    (camera, view)
}

/// the point of the focus plane, relative to the camera, in units of the focus distance
fn expected(v: &View, uv: [f32; 2]) -> V3 {
    let x = (2. * uv[0] as f64 - 1.) * v.half.0;
    let y = (2. * uv[1] as f64 - 1.) * v.half.1;
    add(v.forward, add(mul(v.right, x), mul(v.up, y)))
}

fn check_pinhole(s: &Case, obs: &mut Obs) -> Res {
    let (c, v) = setup(s);
    let scale = (maxabs(s.from) + s.dist) / s.dist;
    let ray = |uv: [f32; 2]| {
        let r = c.get_ray(Uv::new(uv[0], uv[1]));
        (rv(r.origin), rv(r.direction))
    };
    for uv in &s.uvs {
        let (o, d) = ray(*uv);
        ensure!(dist(o, s.from) < 1e-9 * (1. + maxabs(s.from)), "ray starts at {o:?} instead of {:?}", s.from);
        let want = unit(expected(&v, *uv));
        let got = unit(d);
        ensure!(dist(got, want) < 1e-8 + 1e-11 * scale, "direction {got:?} at {uv:?} should be {want:?}");
    }
    // centre and corners by the wording of the property
    let (_, d) = ray([0.5, 0.5]);
    ensure!(dist(unit(d), v.forward) < 1e-8 + 1e-11 * scale, "the centre ray is {:?}", unit(d));
    let (b, t) = (unit(ray([0.5, 0.]).1), unit(ray([0.5, 1.]).1));
    let angle = len(cross(b, t)).atan2(dot(b, t)).to_degrees();
    ensure!((angle - s.fov).abs() < 1e-6 + 1e-9 * scale, "vertical field of view is {angle}");
    let (l, r) = (unit(ray([0., 0.5]).1), unit(ray([1., 0.5]).1));
    let angle = len(cross(l, r)).atan2(dot(l, r));
    let want = 2. * v.half.0.atan();
    ensure!((angle - want).abs() < 1e-7 + 1e-10 * scale, "horizontal field of view is {angle} instead of {want}");
    obs.label(if s.w == s.h { "square" } else { "oblong" });
    obs.nontrivial();
    Ok(())
}

fn check_lens(s: &Case, obs: &mut Obs) -> Res {
    let (c, v) = setup(s);
    let radius = s.aperture / 2.;
    let scale = maxabs(s.from) + s.dist * (1. + v.half.0 + v.half.1) + radius;
    let uv = s.uvs[0];
    let focus = add(s.from, mul(expected(&v, uv), s.dist));
    let n = if obs.thorough { 8000 } else { 1000 };
    let mut err = Ok(());
    let r = check_means(
        "origins on the lens",
        [0., 0., 0.25, 0.25, 0., 1. / 3., 0.],
        [1e-7 + 1e-12 * scale / radius; 7],
        0.05,
        n,
        || {
            let ray = c.get_ray(Uv::new(uv[0], uv[1]));
            let (o, d) = (rv(ray.origin), rv(ray.direction));
            let off = sub(o, s.from);
            if dot(off, v.forward).abs() > 1e-9 * radius + 1e-12 * scale {
                err = Err(format!("the ray starts off the lens: {off:?}"));
            }
            if len(off) > radius * (1. + 1e-9) + 1e-12 * scale {
                err = Err(format!("the ray starts {} from the middle of a lens of diameter {}", len(off), s.aperture));
            }
            // distance of the focus point from the ray
            let u = unit(d);
            let to = sub(focus, o);
            let t = dot(to, u);
            let miss = len(sub(to, mul(u, t)));
            if t <= 0. || miss > 1e-9 * scale {
                err = Err(format!("the ray passes the point in focus at {miss}"));
            }
            let (x, y) = (dot(off, v.right) / radius, dot(off, v.up) / radius);
            let q = x * x + y * y;
            [x, y, x * x, y * y, x * y, q * q, q.sqrt() - 2. / 3.]
        },
    );
    err?;
    r?;
    obs.nontrivial();
    Ok(())
}

/// the outermost parts of the lens, from many rays
fn check_rim(s: &Case, obs: &mut Obs) -> Res {
    let (c, v) = setup(s);
    let radius = s.aperture / 2.;
    // positions so far away that the lens is lost in rounding
    if maxabs(s.from) > 1e8 * radius {
        return Ok(());
    }
    let n = if obs.thorough { 400_000 } else { 100_000 };
    let draw = || {
        let uv = s.uvs[0];
        let off = sub(rv(c.get_ray(Uv::new(uv[0], uv[1])).origin), s.from);
        (dot(off, v.right) / radius, dot(off, v.up) / radius)
    };
    let clip = |x: f64| if (-1e-5..1. + 1e-5).contains(&x) { x.clamp(0., 1.) } else { x };
    check_ends("distance from the middle of the lens", n, || {
        let (x, y) = draw();
        clip(x * x + y * y)
    })?;
    check_ends("direction from the middle of the lens", n, || {
        let (x, y) = draw();
        y.atan2(x) / (2. * std::f64::consts::PI) + 0.5
    })?;
    obs.nontrivial();
    Ok(())
}

fn main() {
    run_main(
        "P16",
        || {
            vec![
                facet("pinhole", "every case", 1_000_000, 10_000_000, case(false), check_pinhole),
                facet("lens", "every case", 100_000, 1_000_000, case(true), check_lens),
                facet("rim", "a lens not lost in rounding", 300, 6_000, case(true), check_rim),
            ]
        },
        &["the up direction is at least 5 degrees from the view, fields of view are 0.02 to 179 degrees"],
    )
}
