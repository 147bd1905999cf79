//! P30: flat shaders show exactly albedo, normal or simple shading.
use harness::ensure;
use harness::fw::*;
use harness::geo::*;
use harness::scene::*;
use harness::spec::*;
use image::{Rgb, RgbImage};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solstrale::camera::CameraConfig;
use solstrale::geo::transformation::NopTransformer;
use solstrale::geo::{Onb, Uv};
use solstrale::hittable::{ConstantMedium, Hittable, Hittables, Quad, Sphere, Triangle};
use solstrale::material::texture::{ImageMap, SolidColor, Texture, Textures};
use solstrale::material::{Dielectric, DiffuseLight, Lambertian, Materials, Metal, RayHit};
use solstrale::renderer::shader::{AlbedoShader, NormalShader, Shader, Shaders, SimpleShader};
use solstrale::renderer::RenderImageStrategy;
use solstrale::util::interval::RAY_INTERVAL;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Kind {
    Matte,
    Metal(f64),
    Glass(f64),
    Light(Option<f64>),
}

fn kind(light: bool) -> BoxedStrategy<Kind> {
    let w = if light { 2 } else { 0 };
    let base = prop_oneof![
        3 => Just(Kind::Matte),
        2 => (0.0..1.0f64).prop_map(Kind::Metal),
        2 => prop_oneof![1.0..2.5f64, 0.4..1.0f64].prop_map(Kind::Glass),
    ];
    if w > 0 {
        prop_oneof![7 => base, 2 => prop::option::of(logf(0.01, 100.)).prop_map(Kind::Light)].boxed()
    } else {
        base.boxed()
    }
}

/// the colour and, of reflecting surfaces, a picture and a bump
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Look {
    kind: Kind,
    color: V3,
    picture: Option<u32>,
    bump: Option<[u8; 3]>,
}

fn look(light: bool) -> BoxedStrategy<Look> {
    (
        kind(light),
        prop_oneof![4 => color(1.), 1 => color(20.), 1 => Just([0.; 3]), 1 => Just([1.; 3])],
        prop::option::weighted(0.3, any::<u32>()),
        prop::option::weighted(0.3, [any::<u8>(), any::<u8>(), any::<u8>()]),
    )
        .prop_map(|(kind, color, picture, bump)| Look { kind, color, picture, bump })
        .boxed()
}

impl Look {
    fn texture(&self) -> Textures {
        match self.picture {
            None => SolidColor::new(self.color[0], self.color[1], self.color[2]),
            Some(salt) => ImageMap::new(Arc::new(RgbImage::from_fn(5, 4, |x, y| {
                let m = mix((salt ^ (y * 5 + x)) as u64);
                Rgb([m as u8, (m >> 8) as u8, (m >> 16) as u8])
            }))),
        }
    }
    fn build(&self) -> Materials {
        let bump = || self.bump.map(|b| ImageMap::new(Arc::new(RgbImage::from_pixel(1, 1, Rgb(b)))));
        match self.kind {
            Kind::Matte => Lambertian::new(self.texture(), bump()),
            Kind::Metal(f) => Metal::new(self.texture(), bump(), f),
            Kind::Glass(i) => Dielectric::new(self.texture(), bump(), i),
            Kind::Light(h) => DiffuseLight::new(self.color[0], self.color[1], self.color[2], h),
        }
    }
    fn emits(&self) -> bool {
        matches!(self.kind, Kind::Light(_))
    }
    /// the colour at the coordinate; the back of a light emits nothing
    fn color_at(&self, uv: Uv, front: bool) -> V3 {
        if self.emits() {
            return if front { self.color } else { [0.; 3] };
        }
        rv(self.texture().color(uv))
    }
    fn name(&self) -> &'static str {
        match self.kind {
            Kind::Matte => "matte",
            Kind::Metal(_) => "metal",
            Kind::Glass(_) => "glass",
            Kind::Light(_) => "light",
        }
    }
}

fn shaders() -> [(&'static str, Shaders); 3] {
    [("albedo", AlbedoShader::new()), ("normal", NormalShader::new()), ("simple", SimpleShader::new())]
}

/// what each shader shows of that colour and normal
fn shown(which: usize, color: V3, emits: bool, n: V3) -> V3 {
    match which {
        0 => color,
        1 => n,
        _ if emits => color,
        _ => mul(color, 0.75 + 0.5 * (n[0] + n[1] - n[2])),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Around {
    lights: Vec<Obj>,
    depth: u32,
    gone: f64,
    seed: u64,
}

fn around() -> BoxedStrategy<Around> {
    let light = prop_oneof![
        sphere_obj(8., light_mat()),
        quad_obj(8., light_mat()),
        tri_obj(8., light_mat())
    ];
    (
        prop::collection::vec(light, 1..4),
        prop_oneof![2 => Just(0u32), 2 => 1u32..100, 1 => any::<u32>()],
        prop_oneof![1 => Just(0.), 2 => logf(1e-3, 1e6)],
        any::<u64>(),
    )
        .prop_map(|(lights, depth, gone, seed)| Around { lights, depth, gone, seed })
        .boxed()
}

fn check_shades(rec: &RayHit, ray: &RaySpec, look: &Look, arounds: &[Around], obs: &mut Obs) -> Res {
    let (uv, n) = (rec.uv, rv(rec.normal));
    let color = look.color_at(uv, rec.front_face);
    for (which, (name, shader)) in shaders().into_iter().enumerate() {
        let want = shown(which, color, look.emits(), n);
        for a in arounds {
            let lab = Lab::new(world_of(&a.lights), [0.3, 0.7, 0.9], shader.clone())?;
            fastrand::ctl::seeded(a.seed);
            let got = lab.shader.shade(&lab.renderer, rec, &ray.build(), a.depth, a.gone);
            let c = rv(got.get_attenuated_color());
            let scale = maxabs(color).max(1.);
            ensure!(
                dist(c, want) <= 1e-12 * scale,
                "the {name} shader shows {c:?} instead of {want:?} of a {} surface of colour {color:?} with shading normal {n:?}, hit from {} at depth {} after {}",
                look.name(),
                if rec.front_face { "outside" } else { "inside" },
                a.depth,
                a.gone
            );
            ensure!(
                dist(rv(got.color), want) <= 1e-12 * scale,
                "the {name} shader gives colour {:?} before attenuation, {want:?} after",
                got.color
            );
        }
    }
    fastrand::ctl::off();
    obs.label(look.name());
    Ok(())
}

// ---------------------------------------------------------------- hits put together by hand

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Made {
    look: Look,
    p: V3,
    n: V3,
    uv: [f32; 2],
    front: bool,
    l: f64,
    ray: RaySpec,
    around: Vec<Around>,
}

fn check_made(s: &Made, obs: &mut Obs) -> Res {
    let n = unit(s.n);
    let m = s.look.build();
    let onb = Onb::new(sv(n));
    let rec = RayHit::new(sv(s.p), onb, &m, s.l, Uv::new(s.uv[0], s.uv[1]), s.front);
    if s.look.emits() || s.look.bump.is_none() {
        ensure!(dist(rv(rec.normal), n) < 1e-12, "the normal {n:?} becomes {:?} without a bump map", rec.normal);
    }
    obs.nontrivial_if(!s.look.emits());
    check_shades(&rec, &s.ray, &s.look, &s.around, obs)
}

// ---------------------------------------------------------------- hits of objects

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Shape {
    Sphere(V3, f64),
    Quad(V3, V3, V3),
    Tri(V3, V3, V3),
    Fog(V3, f64, f64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hit {
    shape: Shape,
    look: Look,
    /// where the ray passes: along the edges of flat shapes, or around the middle
    to: [f64; 3],
    from: V3,
    away: f64,
    l: f64,
    around: Vec<Around>,
}

fn hit() -> BoxedStrategy<Hit> {
    let shape = prop_oneof![
        3 => (point(5.), logf(0.1, 5.)).prop_map(|(c, r)| Shape::Sphere(c, r)),
        3 => (point(5.), edges(0.2, 8.)).prop_map(|(q, (u, v))| Shape::Quad(q, u, v)),
        2 => (point(5.), edges(0.2, 8.)).prop_map(|(q, (u, v))| Shape::Tri(q, u, v)),
        1 => (point(5.), logf(0.5, 5.), logf(0.5, 50.)).prop_map(|(c, r, d)| Shape::Fog(c, r, d)),
    ];
    (
        shape,
        look(true),
        [0.02..0.98f64, 0.02..0.98f64, 0.0..1.0f64],
        dir(),
        prop_oneof![1 => Just(0.02), 5 => 0.1..10.0f64],
        ray_len(),
        prop::collection::vec(around(), 1..3),
    )
        .prop_map(|(shape, look, to, from, away, l, around)| Hit { shape, look, to, from, away, l, around })
        .boxed()
}

fn check_hit(s: &Hit, obs: &mut Obs) -> Res {
    let mut look = s.look.clone();
    let m = look.build();
    let (obj, p): (Hittables, V3) = match s.shape {
        Shape::Sphere(c, r) => (Sphere::new(sv(c), r, m), add(c, mul(sub(s.to, [0.5; 3]), r))),
        Shape::Quad(q, u, v) => (Quad::new(sv(q), sv(u), sv(v), m, &NopTransformer()), lerp3(q, u, s.to[0], v, s.to[1])),
        Shape::Tri(q, u, v) => {
            let (a, b) = if s.to[0] + s.to[1] > 1. { (1. - s.to[0], 1. - s.to[1]) } else { (s.to[0], s.to[1]) };
            let t = |u, v| Uv::new(u, v);
            (
                Triangle::new_with_tex_coords(sv(q), sv(add(q, u)), sv(add(q, v)), t(0., 0.), t(1., 0.), t(0., 1.), m, &NopTransformer()),
                lerp3(q, u, a, v, b),
            )
        }
        Shape::Fog(c, r, d) => {
            look.kind = Kind::Matte;
            look.picture = None;
            look.bump = None;
            (ConstantMedium::new(Sphere::new(sv(c), r, Lambertian::new(SolidColor::new(1., 0., 1.), None)), d, sv(look.color)), c)
        }
    };
    let ray = ray_through(p, s.from, s.away, s.l);
    fastrand::ctl::seeded(s.around[0].seed);
    let rb = ray.build();
    let Some(rec) = obj.hit(&rb, &RAY_INTERVAL) else { return Ok(()) };
    if !finite3(rv(rec.normal)) {
        // at the very pole of a sphere a bump map has no directions to tilt the normal to
        ensure!(look.bump.is_some() && matches!(s.shape, Shape::Sphere(..)), "the shading normal is {:?}", rec.normal);
        obs.label("pole");
        return Ok(());
    }
    obs.nontrivial();
    // the shading normal of a flat shape without bumps is known
    if let (Shape::Quad(_, u, v) | Shape::Tri(_, u, v), true) = (&s.shape, look.bump.is_none() || look.emits()) {
        let n = unit(cross(*u, *v));
        let want = if dot(n, ray.d) > 0. { neg(n) } else { n };
        ensure!(dist(rv(rec.normal), want) < 1e-9, "the shading normal is {:?}, not {want:?}", rec.normal);
    }
    if matches!(s.shape, Shape::Fog(..)) {
        obs.label("fog");
    }
    obs.label(if rec.front_face { "front" } else { "back" });
    check_shades(&rec, &ray, &look, &s.around, obs)
}

// ---------------------------------------------------------------- pictures

/// upright walls side by side, each filling its columns of the picture
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Picture {
    walls: Vec<(Look, [f64; 2])>,
    behind: Vec<Obj>,
    fov: f64,
    w: usize,
    h: usize,
    samples: u32,
    which: usize,
    seed: u64,
}

fn picture() -> BoxedStrategy<Picture> {
    let light = prop_oneof![
        (point(3.), logf(0.1, 2.), light_mat()).prop_map(|(c, r, m)| Obj::Sphere { c: [c[0], c[1], 20. + c[2]], r, m }),
        (point(3.), edges(0.3, 8.), light_mat()).prop_map(|(q, (u, v), m)| Obj::Quad { q: [q[0], q[1], 30. + q[2]], u, v, tf: vec![], m }),
    ];
    (
        prop::collection::vec((look(true), [2.0..9.0f64, 2.0..9.0f64]), 1..5),
        prop::collection::vec(light, 1..4),
        20.0..100.0f64,
        (2usize..24, 2usize..12),
        prop_oneof![2 => 1u32..4, 1 => 4u32..12],
        0usize..3,
        any::<u64>(),
    )
        .prop_map(|(mut walls, behind, fov, (w, h), samples, which, seed)| {
            for (l, _) in &mut walls {
                l.picture = None;
            }
            Picture { walls, behind, fov, w, h, samples, which, seed }
        })
        .boxed()
}

/// the bytes the mean of samples of this colour may become
fn byte(c: f64) -> (u8, u8) {
    if c <= 0. {
        return (0, if c > -1e-12 { 1 } else { 0 });
    }
    let x = c.sqrt() * 256.;
    let at = |x: f64| x.floor().clamp(0., 255.) as u8;
    (at(x * (1. - 1e-9)), at(x * (1. + 1e-9)))
}

fn check_picture(s: &Picture, obs: &mut Obs) -> Res {
    // half the width of the picture at distance one; taller than it can be
    let half = (s.fov.to_radians() / 2.).tan() * s.w as f64 / s.h as f64;
    let k = s.walls.len() as f64;
    let mut world = s.behind.iter().flat_map(|o| o.build()).collect::<Vec<_>>();
    let mut normals = vec![];
    for (i, (look, z)) in s.walls.iter().enumerate() {
        let edge = |j: f64, z: f64| [half * 1.02 * (2. * j / k - 1.) * z, -z];
        let (a, b) = (edge(i as f64, z[0]), edge(i as f64 + 1., z[1]));
        let t = 300.;
        let (u, v) = ([b[0] - a[0], 0., b[1] - a[1]], [0., 2. * t, 0.]);
        world.push(Quad::new(sv([a[0], -t, a[1]]), sv(u), sv(v), look.build(), &NopTransformer()));
        let n = unit(cross(u, v));
        // the walls face the viewer with u x v: to the right, up, towards
        normals.push(if look.bump.is_some() && !look.emits() { None } else { Some(n) });
    }
    fastrand::ctl::seeded(s.seed);
    let (name, shader) = shaders()[s.which].clone();
    let img = Shot {
        world: solstrale::hittable::Bvh::new(world),
        camera: CameraConfig {
            vertical_fov_degrees: s.fov,
            aperture_size: 0.,
            look_from: sv([0., 0., 0.]),
            look_at: sv([0., 0., -5.]),
            up: sv([0., 1., 0.]),
        },
        bg: [0.1, 0.2, 0.3],
        shader,
        w: s.w,
        h: s.h,
        samples: s.samples,
        post: vec![],
        strategy: RenderImageStrategy::OnlyFinal,
    }
    .image()?;
    fastrand::ctl::off();
    let mut checked = 0;
    for y in 0..s.h {
        for x in 0..s.w {
            // the walls under the whole pixel, with a margin of half a pixel for how the grid is laid
            let col = |px: f64| (((2. * px / s.w as f64 - 1.) / 1.02 + 1.) / 2. * k).floor();
            let (i, j) = (col(x as f64 - 1.), col(x as f64 + 2.));
            if i != j || i < 0. || i >= k {
                continue;
            }
            let (look, _) = &s.walls[i as usize];
            let Some(n) = normals[i as usize] else { continue };
            // front of the quad is where u x v points
            let want = shown(s.which, look.color_at(Uv::default(), true), look.emits(), n);
            let got = img.get_pixel(x as u32, y as u32).0;
            for c in 0..3 {
                let (lo, hi) = byte(want[c]);
                ensure!(
                    got[c] >= lo && got[c] <= hi,
                    "pixel ({x}, {y}) of the {name} picture is {got:?} where a {} wall with normal {n:?} should show {want:?}, {lo} in channel {c}",
                    look.name()
                );
            }
            checked += 1;
        }
    }
    obs.label(name);
    obs.nontrivial_if(checked > 0);
    Ok(())
}

fn main() {
    run_main(
        "P30",
        || {
            vec![
                facet(
                    "made",
                    "not a light",
                    300_000,
                    6_000_000,
                    (look(true), point(5.), dir(), [0.0..1.0f32, 0.0..1.0f32], any::<bool>(), logf(1e-3, 1e3), any_ray(5.), prop::collection::vec(around(), 1..3))
                        .prop_map(|(look, p, n, uv, front, l, ray, around)| Made { look, p, n, uv, front, l, ray, around }),
                    check_made,
                ),
                facet("hit", "the ray hits", 300_000, 6_000_000, hit(), check_hit),
                facet("picture", "some pixel lies wholly on one wall", 30_000, 600_000, picture(), check_picture),
            ]
        },
        &["blends, whose component is chosen by chance", "the order in which random numbers are drawn is not observed"],
    )
}
