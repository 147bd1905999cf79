//! P31: no scene, however degenerate, yields an invalid colour or panic.
use harness::ensure;
use harness::fw::*;
use harness::geo::*;
use harness::scene::*;
use harness::spec::*;
use image::{Rgb, RgbImage};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solstrale::camera::CameraConfig;
use solstrale::geo::Uv;
use solstrale::hittable::{Bvh, ConstantMedium, Hittable, Hittables, Quad, Sphere, Triangle};
use solstrale::material::texture::{ImageMap, SolidColor, Textures};
use solstrale::material::{Blend, Dielectric, DiffuseLight, Lambertian, Materials, Metal};
use solstrale::renderer::shader::PathTracingShader;
use solstrale::renderer::RenderImageStrategy;
use solstrale::util::interval::RAY_INTERVAL;
use std::sync::Arc;

// ---------------------------------------------------------------- descriptions

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Surf {
    Matte(V3),
    Metal(V3, f64),
    Glass(V3, f64),
    Light(V3, Option<f64>),
    Blend(Box<Surf>, Box<Surf>, f64),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Look {
    surf: Surf,
    bump: Option<[u8; 3]>,
    picture: bool,
}

fn tex(c: &V3, picture: bool) -> Textures {
    if picture {
        ImageMap::new(Arc::new(RgbImage::from_fn(3, 2, |x, y| Rgb([(c[0] * 255.) as u8 ^ x as u8, (c[1] * 255.) as u8 ^ y as u8, (c[2] * 255.) as u8]))))
    } else {
        SolidColor::new(c[0], c[1], c[2])
    }
}

impl Surf {
    fn build(&self, bump: Option<[u8; 3]>, picture: bool) -> Materials {
        let b = || bump.map(|b| ImageMap::new(Arc::new(RgbImage::from_pixel(2, 2, Rgb(b)))));
        match self {
            Surf::Matte(c) => Lambertian::new(tex(c, picture), b()),
            Surf::Metal(c, f) => Metal::new(tex(c, picture), b(), *f),
            Surf::Glass(c, i) => Dielectric::new(tex(c, picture), b(), *i),
            Surf::Light(c, h) => DiffuseLight::new(c[0], c[1], c[2], *h),
            Surf::Blend(x, y, f) => Blend::new(x.build(bump, picture), y.build(bump, picture), *f),
        }
    }
}

impl Look {
    fn build(&self) -> Materials {
        self.surf.build(self.bump, self.picture)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Thing {
    Sphere(V3, f64, Look),
    Quad(V3, V3, V3, Vec<Tf>, Look),
    Tri(V3, V3, V3, Option<[[f32; 2]; 3]>, Vec<Tf>, Look),
    Boxx(V3, V3, Vec<Tf>, Look),
    Fog(Box<Thing>, f64, V3),
    Group(Vec<Thing>),
}

impl Thing {
    fn build(&self) -> Vec<Hittables> {
        match self {
            Thing::Sphere(c, r, m) => vec![Sphere::new(sv(*c), *r, m.build())],
            Thing::Quad(q, u, v, tf, m) => vec![Quad::new(sv(*q), sv(*u), sv(*v), m.build(), build_tf(tf).as_ref())],
            Thing::Tri(a, b, c, None, tf, m) => vec![Triangle::new(sv(*a), sv(*b), sv(*c), m.build(), build_tf(tf).as_ref())],
            Thing::Tri(a, b, c, Some(w), tf, m) => {
                let t = |i: usize| Uv::new(w[i][0], w[i][1]);
                vec![Triangle::new_with_tex_coords(sv(*a), sv(*b), sv(*c), t(0), t(1), t(2), m.build(), build_tf(tf).as_ref())]
            }
            Thing::Boxx(a, b, tf, m) => Quad::new_box(sv(*a), sv(*b), m.build(), build_tf(tf).as_ref()),
            Thing::Fog(of, density, color) => {
                let mut l = of.build();
                let one = if l.len() == 1 { l.pop().unwrap() } else { Bvh::new(l) };
                vec![ConstantMedium::new(one, *density, sv(*color))]
            }
            Thing::Group(l) => vec![Bvh::new(l.iter().flat_map(|t| t.build()).collect())],
        }
    }
    /// a few points that belong to the object
    fn points(&self) -> Vec<V3> {
        match self {
            Thing::Sphere(c, r, _) => vec![*c, add(*c, [0., *r, 0.]), add(*c, [*r, 0., 0.]), add(*c, mul([0., 0.6, 0.8], *r))],
            Thing::Quad(q, u, v, tf, _) => [(0., 0.), (0.5, 0.5), (1., 0.), (0.25, 1.), (0.3, 0.8)].iter().map(|(a, b)| apply(tf, lerp3(*q, *u, *a, *v, *b), false)).collect(),
            Thing::Tri(a, b, c, _, tf, _) => [(0., 0.), (0.25, 0.25), (0.5, 0.5), (1., 0.), (0.2, 0.)]
                .iter()
                .map(|(s, t)| apply(tf, lerp3(*a, sub(*b, *a), *s, sub(*c, *a), *t), false))
                .collect(),
            Thing::Boxx(a, b, tf, _) => [*a, mul(add(*a, *b), 0.5), [a[0], (a[1] + b[1]) / 2., (a[2] + b[2]) / 2.], [b[0], a[1], (a[2] + b[2]) / 2.]]
                .iter()
                .map(|p| apply(tf, *p, false))
                .collect(),
            Thing::Fog(of, ..) => of.points(),
            Thing::Group(l) => l.iter().flat_map(|t| t.points()).collect(),
        }
    }
    fn flat(&self) -> Vec<&Thing> {
        match self {
            Thing::Group(l) => l.iter().flat_map(|t| t.flat()).collect(),
            t => vec![t],
        }
    }
}

// ---------------------------------------------------------------- generators

/// a length, often zero or extreme
fn size() -> BoxedStrategy<f64> {
    prop_oneof![
        3 => Just(0.),
        4 => 0.1..5.0f64,
        1 => (1i32..5).prop_map(|i| i as f64),
        2 => logf(1e-12, 1e-2),
        1 => logf(1e-30, 1e-12),
        2 => logf(10., 1e8),
        1 => logf(1e8, 1e30),
    ]
    .boxed()
}

fn place() -> BoxedStrategy<V3> {
    prop_oneof![8 => point(4.), 1 => Just([0.; 3]), 1 => (point(4.), logf(1e5, 1e29)).prop_map(|(p, k)| mul(p, k)), 1 => point(1.).prop_map(|p| mul(p, 1e-9))].boxed()
}

fn surf() -> BoxedStrategy<Surf> {
    let c = || prop_oneof![4 => color(1.), 1 => Just([0.; 3]), 2 => Just([1.; 3])];
    let leaf = prop_oneof![
        4 => c().prop_map(Surf::Matte),
        2 => (c(), prop_oneof![1 => Just(0.), 2 => 0.0..1.0f64, 1 => 1.0..100.0f64]).prop_map(|(c, f)| Surf::Metal(c, f)),
        2 => (c(), prop_oneof![1 => Just(1.), 3 => 1.0..3.0f64, 1 => 0.0..1.0f64, 1 => logf(3., 1e6), 1 => Just(0.)]).prop_map(|(c, i)| Surf::Glass(c, i)),
        3 => (prop_oneof![3 => color(5.), 1 => Just([0.; 3]), 1 => color(1e6)], prop::option::of(prop_oneof![3 => logf(1e-3, 1e3), 1 => logf(1e-200, 1e200), 1 => Just(0.)])).prop_map(|(c, h)| Surf::Light(c, h)),
    ];
    leaf.prop_recursive(2, 4, 2, |inner| {
        (inner.clone(), inner, prop_oneof![1 => Just(0.), 1 => Just(1.), 3 => 0.0..1.0f64])
            .prop_map(|(a, b, f)| Surf::Blend(Box::new(a), Box::new(b), f))
    })
    .boxed()
}

fn the_look(s: BoxedStrategy<Surf>) -> BoxedStrategy<Look> {
    (
        s,
        prop::option::weighted(
            0.3,
            prop_oneof![1 => Just([128, 128, 255]), 1 => Just([0; 3]), 1 => Just([255; 3]), 1 => Just([128, 128, 0]), 1 => Just([127, 128, 128]), 3 => [any::<u8>(), any::<u8>(), any::<u8>()]],
        ),
        prop::bool::weighted(0.2),
    )
        .prop_map(|(surf, bump, picture)| Look { surf, bump, picture })
        .boxed()
}

/// two edges, often zero, parallel, or of very different length
fn sides() -> BoxedStrategy<(V3, V3)> {
    prop_oneof![
        3 => edges(0.1, 8.),
        1 => (0usize..3, 0usize..3, 0.5..5.0f64, 0.5..5.0f64).prop_map(|(i, j, a, b)| {
            let (mut u, mut v) = ([0.; 3], [0.; 3]);
            u[i] = a;
            v[j] = b;
            (u, v)
        }),
        2 => (dir(), size(), dir(), size()).prop_map(|(a, s, b, t)| (mul(a, s), mul(b, t))),
        1 => (dir(), size(), -3.0..3.0f64).prop_map(|(a, s, k)| (mul(a, s), mul(a, s * k))),
        1 => (dir(), size(), -3.0..3.0f64, dir(), logf(1e-18, 1e-3)).prop_map(|(a, s, k, b, e)| (mul(a, s), add(mul(a, s * k), mul(b, s * e)))),
    ]
    .boxed()
}

fn tex_coords() -> BoxedStrategy<Option<[[f32; 2]; 3]>> {
    prop_oneof![
        2 => Just(None),
        1 => Just(Some([[0.; 2]; 3])),
        1 => Just(Some([[0., 0.], [1., 1.], [0.5, 0.5]])),
        1 => Just(Some([[0., 0.], [1., 0.], [0., 1.]])),
        2 => [[-2.0..2.0f32, -2.0..2.0f32], [-2.0..2.0f32, -2.0..2.0f32], [-2.0..2.0f32, -2.0..2.0f32]].prop_map(Some),
    ]
    .boxed()
}

fn solid(m: BoxedStrategy<Look>) -> BoxedStrategy<Thing> {
    let tf = || prop_oneof![2 => Just(vec![]), 1 => tfs(2, true), 1 => Just(vec![Tf::Scale(0.)])];
    prop_oneof![
        4 => (place(), size(), prop::bool::weighted(0.1), m.clone()).prop_map(|(c, r, n, m)| Thing::Sphere(c, if n { -r } else { r }, m)),
        4 => (place(), sides(), tf(), m.clone()).prop_map(|(q, (u, v), tf, m)| Thing::Quad(q, u, v, tf, m)),
        4 => (place(), sides(), tex_coords(), tf(), m.clone()).prop_map(|(a, (u, v), uv, tf, m)| Thing::Tri(a, add(a, u), add(a, v), uv, tf, m)),
        2 => (place(), [size(), size(), size()], tf(), m).prop_map(|(a, s, tf, m)| Thing::Boxx(a, add(a, s), tf, m)),
    ]
    .boxed()
}

fn thing() -> BoxedStrategy<Thing> {
    let m = || the_look(surf());
    prop_oneof![
        8 => solid(m()),
        1 => (solid(m()), prop_oneof![1 => Just(0.), 2 => logf(1e-3, 10.), 1 => logf(1e-12, 1e12)], color(1.)).prop_map(|(t, d, c)| Thing::Fog(Box::new(t), d, c)),
        1 => prop::collection::vec(solid(m()), 0..3).prop_map(Thing::Group),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Odd {
    things: Vec<Thing>,
    bg: V3,
    /// which object's which point the ray starts at, and looks at
    start: Option<(usize, usize)>,
    target: Option<(usize, usize)>,
    o: V3,
    d: V3,
    nudge: V3,
    l: f64,
    depth: u32,
    seed: u64,
}

fn some_half(s: &mut Surf) {
    match s {
        Surf::Light(_, Some(h)) if *h == 0. => *h = 1e-3,
        Surf::Blend(a, b, _) => {
            some_half(a);
            some_half(b);
        }
        _ => (),
    }
}

fn some_half_thing(t: &mut Thing) {
    match t {
        Thing::Sphere(_, _, m) | Thing::Quad(.., m) | Thing::Tri(.., m) | Thing::Boxx(.., m) => some_half(&mut m.surf),
        Thing::Group(l) => l.iter_mut().for_each(some_half_thing),
        Thing::Fog(of, ..) => some_half_thing(of),
    }
}

fn odd() -> BoxedStrategy<Odd> {
    let light = prop_oneof![3 => color(5.), 1 => Just([1e6, 1., 0.])].prop_map(|c| Look { surf: Surf::Light(c, None), bump: None, picture: false });
    let pick = || (0usize..8, 0usize..5);
    (
        prop::collection::vec(thing(), 0..5),
        solid(light.boxed()),
        prop_oneof![3 => Just(0usize), 1 => 1usize..4],
        color(2.),
        (prop::option::weighted(0.5, pick()), prop::option::weighted(0.7, pick()), place(), dir(), prop_oneof![3 => Just(0.), 1 => logf(1e-12, 1e-2), 1 => logf(1e-2, 20.)]),
        (dir(), prop_oneof![3 => Just(1.), 2 => logf(0.01, 100.), 1 => logf(1e-6, 1e6)]),
        prop_oneof![4 => 1u32..8, 1 => 8u32..60],
        any::<u64>(),
    )
        .prop_map(|(mut things, light, twice, bg, (start, target, o, d, n), (nd, l), depth, seed)| {
            // duplicates of the first
            for _ in 0..twice {
                if let Some(t) = things.first().cloned() {
                    things.push(t);
                }
            }
            things.push(light);
            // where a way may be rounded to nothing, its attenuation by a half length of nothing is undefined
            let far = things.iter().flat_map(|t| t.points()).chain([o]).any(|p| maxabs(p) > 1e6);
            if far || n > 1e6 {
                things.iter_mut().for_each(some_half_thing);
            }
            Odd { things, bg, start, target, o, d, nudge: mul(nd, n), l, depth, seed }
        })
        .boxed()
}

impl Odd {
    fn ray(&self) -> RaySpec {
        let point = |(i, j): (usize, usize)| {
            let p = self.things[i % self.things.len()].points();
            if p.is_empty() {
                self.o
            } else {
                p[j % p.len()]
            }
        };
        let mut o = self.start.map_or(self.o, |s| add(point(s), self.nudge));
        if !finite3(o) {
            o = self.o;
        }
        let mut d = self.target.map_or(self.d, |t| sub(point(t), o));
        if !(len(d) > 1e-6 && finite3(d)) {
            d = self.d;
        }
        RaySpec { o, d: mul(unit(d), self.l) }
    }
    fn lab(&self) -> Result<Lab, String> {
        Lab::tracing(Bvh::new(self.things.iter().flat_map(|t| t.build()).collect()), self.bg, self.depth)
    }
    /// a blend may be all that emits, and then the scene is refused
    fn label(&self, obs: &mut Obs) {
        for t in self.things.iter().flat_map(|t| t.flat()) {
            let (n, m) = match t {
                Thing::Sphere(_, r, m) => (if *r == 0. { "point sphere" } else { "sphere" }, Some(m)),
                Thing::Quad(_, u, v, _, m) => (if len(cross(*u, *v)) <= 1e-12 * len(*u) * len(*v) { "flattened quad" } else { "quad" }, Some(m)),
                Thing::Tri(a, b, c, _, _, m) => {
                    let (u, v) = (sub(*b, *a), sub(*c, *a));
                    (if len(cross(u, v)) <= 1e-12 * len(u) * len(v) { "flattened triangle" } else { "triangle" }, Some(m))
                }
                Thing::Boxx(a, b, _, m) => ((if (0..3).any(|i| a[i] == b[i]) { "flat box" } else { "box" }), Some(m)),
                Thing::Fog(..) => ("fog", None),
                Thing::Group(_) => ("group", None),
            };
            obs.label(n);
            if m.is_some_and(|m| m.bump.is_some()) {
                obs.label("bumps");
            }
        }
    }
}

// ---------------------------------------------------------------- single rays

fn valid(c: V3) -> bool {
    c.iter().all(|x| x.is_finite() && *x >= 0.)
}

fn check_odd(s: &Odd, obs: &mut Obs) -> Res {
    let lab = s.lab()?;
    let ray = s.ray();
    let mut hit = false;
    for i in 0..8 {
        let k = mix(s.seed ^ i);
        if i < 4 {
            fastrand::ctl::edgy(k);
        } else {
            fastrand::ctl::seeded(k);
        }
        let c = lab.see(&ray);
        ensure!(valid(c), "sees {c:?} from {:?} along {:?}", ray.o, ray.d);
        hit |= c != lab.bg;
    }
    fastrand::ctl::off();
    obs.nontrivial_if(hit);
    s.label(obs);
    Ok(())
}

// ---------------------------------------------------------------- dim scenes

/// the same scene with all light very dim
fn dim(s: &mut Surf, e: f64) {
    match s {
        Surf::Light(c, _) => *c = mul(*c, e / maxabs(*c).max(e)),
        Surf::Blend(a, b, _) => {
            dim(a, e);
            dim(b, e);
        }
        _ => {}
    }
}

fn dim_thing(t: &mut Thing, e: f64) {
    match t {
        Thing::Sphere(_, _, m) | Thing::Quad(.., m) | Thing::Tri(.., m) | Thing::Boxx(.., m) => dim(&mut m.surf, e),
        Thing::Fog(..) => {}
        Thing::Group(l) => l.iter_mut().for_each(|t| dim_thing(t, e)),
    }
}

fn check_dim(s: &Odd, obs: &mut Obs) -> Res {
    let mut s = s.clone();
    let e = 1e-9;
    s.things.iter_mut().for_each(|t| dim_thing(t, e));
    s.bg = mul(s.bg, e / 2.);
    s.depth = s.depth.min(5);
    // no sampling weight comes near this; an invalid sample taken for a number, or for a bright one, is far above
    let most = e * 20f64.powi(s.depth as i32);
    let lab = s.lab()?;
    let ray = s.ray();
    for i in 0..8 {
        let k = mix(s.seed ^ i);
        if i < 4 {
            fastrand::ctl::edgy(k);
        } else {
            fastrand::ctl::seeded(k);
        }
        let c = lab.see(&ray);
        ensure!(valid(c) && maxabs(c) <= most, "sees {c:?} from {:?} along {:?} where no light is brighter than {e}", ray.o, ray.d);
        obs.nontrivial_if(c != lab.bg);
    }
    fastrand::ctl::off();
    s.label(obs);
    Ok(())
}

// ---------------------------------------------------------------- limits

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bright {
    odd: Odd,
    power: V3,
    half: Option<f64>,
    fog: bool,
    albedo: V3,
    at: V3,
    look: V3,
    r: f64,
}

fn power() -> BoxedStrategy<f64> {
    prop_oneof![4 => logf(0.1, 1e12), 1 => logf(1e12, 1.7e308), 1 => Just(1.7e308)].boxed()
}

fn bright() -> BoxedStrategy<Bright> {
    (odd(), [power(), power(), power()], prop::option::of(logf(0.1, 1e6)), any::<bool>(), color(1.), point(3.), dir(), logf(0.05, 2.))
        .prop_map(|(odd, power, half, fog, albedo, at, look, r)| Bright { odd, power, half, fog, albedo, at, look, r })
        .boxed()
}

fn check_bright(s: &Bright, obs: &mut Obs) -> Res {
    let mut things = s.odd.things.clone();
    let strong = Look { surf: Surf::Light(s.power, s.half), bump: None, picture: false };
    let gap = 3.;
    // a strong lamp, a big one above, and the viewer looking at either the lamp or a surface in front of the others
    things.push(Thing::Sphere(add(s.at, mul(s.look, -gap - s.r)), s.r, strong.clone()));
    let seen = Thing::Sphere(add(s.at, mul(s.look, s.r + 0.01)), s.r, Look { surf: Surf::Matte(s.albedo), bump: None, picture: false });
    let ray = RaySpec { o: s.at, d: mul(s.look, s.odd.l.clamp(1e-2, 1.)) };
    // the surface right in front of the eye comes first unless something else is nearer still
    let clear = |world: &Hittables| world.hit(&ray.build(), &RAY_INTERVAL).map(|h| h.ray_length * len(ray.d)).is_none_or(|t| t > 0.02);
    let others: Vec<Hittables> = things.iter().filter(|t| !matches!(t, Thing::Fog(..) | Thing::Group(..))).flat_map(|t| t.build()).collect();
    let others = Bvh::new(others);
    if !clear(&others) {
        return Ok(());
    }
    let mut list = vec![others];
    if s.fog {
        list.push(ConstantMedium::new(Sphere::new(sv(add(s.at, mul(s.look, s.r + 0.01))), s.r, Lambertian::new(SolidColor::new(1., 1., 1.), None)), 1e9, sv(s.albedo)));
    } else {
        list.extend(seen.build());
    }
    let lab = Lab::tracing(Bvh::new(list), s.odd.bg, s.odd.depth.max(2))?;
    for i in 0..8 {
        let k = mix(s.odd.seed ^ i);
        // the random number zero passes through any fog
        if i < 3 && !s.fog {
            fastrand::ctl::edgy(k);
        } else {
            fastrand::ctl::seeded(k);
        }
        let c = lab.see(&ray);
        ensure!(valid(c) && maxabs(c) <= 3. * (1. + 1e-12), "a single indirect sample is {c:?} where a lamp of {:?} lights a surface", s.power);
        if maxabs(c) == 3. {
            obs.label("limited");
        }
        obs.nontrivial_if(maxabs(c) > 0.);
    }
    // the lamp itself, from its front
    let lab = Lab::tracing(Bvh::new(vec![Sphere::new(sv(add(s.at, mul(s.look, s.r + 0.5))), s.r, strong.build())]), s.odd.bg, s.odd.depth)?;
    let c = lab.see(&ray);
    let want = mul(s.power, s.half.map_or(1., |h| 1. / (1. + 0.5 / h)));
    ensure!((0..3).all(|i| (c[i] - want[i]).abs() <= 1e-9 * want[i]), "a lamp of {:?} is seen as {c:?} instead of {want:?}", s.power);
    fastrand::ctl::off();
    Ok(())
}

// ---------------------------------------------------------------- pixels

/// a wall of which a part shines and the rest may give invalid samples
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wall {
    share: f64,
    upright: bool,
    rest: Rest,
    color: V3,
    bump: [u8; 3],
    w: usize,
    h: usize,
    seed: u64,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Rest {
    /// triangles with a bump map but no texture coordinates
    NoCoords,
    /// with texture coordinates that are all the same
    FlatCoords,
    /// a plain matte wall inside a very big dim lamp
    InsideLamp,
    /// a matte wall coinciding with a dim lamp of no area
    PointLamp,
}

fn wall() -> BoxedStrategy<Wall> {
    (
        0.3..0.7f64,
        any::<bool>(),
        prop_oneof![Just(Rest::NoCoords), Just(Rest::FlatCoords), Just(Rest::InsideLamp), Just(Rest::PointLamp)],
        color(1.),
        [any::<u8>(), any::<u8>(), any::<u8>()],
        1usize..4,
        1usize..4,
        any::<u64>(),
    )
        .prop_map(|(share, upright, rest, color, bump, w, h, seed)| Wall { share, upright, rest, color, bump, w, h, seed })
        .boxed()
}

fn check_wall(s: &Wall, obs: &mut Obs) -> Res {
    const N: u32 = 600;
    // the picture sees x and y from -a to a at distance 1
    let (fov, n) = (60f64, nop());
    let (b, a) = ((fov.to_radians() / 2.).tan(), (fov.to_radians() / 2.).tan() * s.w as f64 / s.h as f64);
    let e = 0.5;
    let lamp = |k: f64| DiffuseLight::new(k, k, k, None);
    let bump = || matches!(s.rest, Rest::NoCoords | Rest::FlatCoords).then(|| ImageMap::new(Arc::new(RgbImage::from_pixel(1, 1, Rgb(s.bump)))));
    let matte = || Lambertian::new(SolidColor::new(s.color[0], s.color[1], s.color[2]), bump());
    let mut list = vec![];
    // stripes, each pixel holds the same share of light: a stripe begins where the pixel begins
    let (count, size, other) = if s.upright { (s.w, 2. * a, 2. * b) } else { (s.h, 2. * b, 2. * a) };
    // a pixel is as wide as the distance between the centres, of which the first and last are at the edges
    let cell = size / (count - 1).max(1) as f64;
    let place = |from: f64, to: f64, z: f64| -> [V3; 3] {
        let (p, q) = (-size / 2. + from, to - from);
        if s.upright {
            [mul([p, -other, -1.], z), mul([q, 0., 0.], z), mul([0., 3. * other, 0.], z)]
        } else {
            [mul([-other, p, -1.], z), mul([3. * other, 0., 0.], z), mul([0., q, 0.], z)]
        }
    };
    for i in 0..count {
        let o = i as f64 * cell;
        let [q, u, v] = place(o, o + cell * s.share, 1.);
        list.push(Quad::new(sv(q), sv(u), sv(v), lamp(e), n.as_ref()));
        let [q, u, v] = place(o + cell * s.share, o + cell, 1.);
        let corners = [q, add(q, u), add(add(q, u), v), add(q, v)].map(sv);
        for t in [[0, 1, 2], [0, 2, 3]] {
            let [x, y, z] = t.map(|k| corners[k]);
            list.push(match s.rest {
                Rest::FlatCoords => Triangle::new_with_tex_coords(x, y, z, Uv::new(0.5, 0.5), Uv::new(0.5, 0.5), Uv::new(0.5, 0.5), matte(), n.as_ref()),
                _ => Triangle::new(x, y, z, matte(), n.as_ref()),
            });
        }
    }
    let faint = 1e-4;
    match s.rest {
        Rest::InsideLamp => list.push(Sphere::new(sv([0., 0., 0.]), 50., lamp(faint))),
        Rest::PointLamp => list.push(Sphere::new(sv(mul(place(cell * s.share, cell, 1.)[0], 1.)), 0., lamp(faint))),
        _ => {}
    }
    fastrand::ctl::seeded(s.seed);
    let img = Shot {
        world: Bvh::new(list),
        camera: CameraConfig {
            vertical_fov_degrees: fov,
            aperture_size: 0.,
            look_from: sv([0., 0., 0.]),
            look_at: sv([0., 0., -1.]),
            up: sv([0., 1., 0.]),
        },
        bg: [0.; 3],
        shader: PathTracingShader::new(6),
        w: s.w,
        h: s.h,
        samples: N,
        post: vec![],
        strategy: RenderImageStrategy::OnlyFinal,
    }
    .image()?;
    fastrand::ctl::off();
    // the rest of the wall is lit by a faint lamp at most, as the shining stripes lie in its plane
    for (x, y, p) in img.enumerate_pixels() {
        for c in 0..3 {
            let got = ((p.0[c] as f64 + 0.5) / 256.).powi(2) / e;
            let off = 7. * (s.share * (1. - s.share) / N as f64).sqrt() + 0.01;
            ensure!(
                (got - s.share).abs() < off,
                "pixel ({x}, {y}) shows {got} of the light that fills {} of it, the rest is {:?}",
                s.share,
                s.rest
            );
        }
    }
    obs.label(format!("{:?}", s.rest));
    obs.nontrivial();
    Ok(())
}

fn nop() -> Box<dyn solstrale::geo::transformation::Transformer> {
    build_tf(&[])
}

fn main() {
    run_main(
        "P31",
        || {
            vec![
                facet("rays", "the ray sees something", 200_000, 10_000_000, odd(), check_odd),
                facet("dim", "the ray sees something", 200_000, 10_000_000, odd(), check_dim),
                facet("bright", "some light arrives", 100_000, 5_000_000, bright(), check_bright),
                facet("pixels", "every case", 3_000, 150_000, wall(), check_wall),
            ]
        },
        &["numbers are finite and between 1e-30 and 1e30 (or zero), lengths of attenuation not negative, and not zero where coordinates are above a million", "some other light than those in blends exists"],
    )
}
