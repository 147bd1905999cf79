//! P07: bump maps tilt the shading normal as the map encodes.
use harness::ensure;
use harness::fw::*;
use harness::geo::*;
use harness::spec::*;
use image::{Rgb, RgbImage};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solstrale::geo::transformation::NopTransformer;
use solstrale::geo::Uv;
use solstrale::hittable::{Hittable, Hittables, Quad, Sphere, Triangle};
use solstrale::material::texture::{load_normal_texture, ImageMap, SolidColor, Texture, Textures};
use solstrale::material::{Blend, Dielectric, DiffuseLight, Lambertian, Materials, Metal};
use solstrale::util::height_map::to_normal_map;
use solstrale::util::interval::RAY_INTERVAL;
use std::path::PathBuf;
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Surf {
    Sphere { c: V3, r: f64 },
    Quad { q: V3, u: V3, v: V3 },
    Tri { a: V3, u: V3, v: V3, uv: [[f32; 2]; 3] },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    surf: Surf,
    /// encoded vector
    n: V3,
    /// where on the surface
    ab: [f64; 2],
    from: V3,
    l: f64,
    mat: u8,
    /// encoded in an 8 bit image instead of exactly
    bytes: bool,
}

fn surf() -> BoxedStrategy<Surf> {
    let c = || -2.0..3.0f32;
    prop_oneof![
        3 => (point(10.), logf(0.05, 20.)).prop_map(|(c, r)| Surf::Sphere { c, r }),
        2 => (point(10.), edges(0.05, 20.), any::<bool>()).prop_map(|(q, (u, v), square)| {
            let v = if square { mul(unit(sub(v, mul(u, dot(u, v) / dot(u, u)))), len(v)) } else { v };
            Surf::Quad { q, u, v }
        }),
        3 => (point(10.), edges(0.05, 20.), [[c(), c()], [c(), c()], [c(), c()]], any::<bool>()).prop_map(|(a, (u, v), uv, std)| {
            let uv = if std { [[0., 0.], [1., 0.], [0., 1.]] } else { uv };
            Surf::Tri { a, u, v, uv }
        }),
    ]
    .boxed()
}

fn case() -> BoxedStrategy<Case> {
    let n = prop_oneof![
        1 => Just([0., 0., 1.]),
        // seldom one that points into the surface
        6 => (prop_oneof![12 => 0.0..80.0f64, 1 => 80.0..180.0f64], 0.0..std::f64::consts::TAU).prop_map(|(t, a)| {
            let t = t.to_radians();
            [t.sin() * a.cos(), t.sin() * a.sin(), t.cos()]
        }),
    ];
    (surf(), n, [0.02..0.98f64, 0.02..0.98f64], dir(), ray_len(), 0u8..4, any::<bool>())
        .prop_map(|(surf, n, ab, from, l, mat, bytes)| Case { surf, n, ab, from, l, mat, bytes })
        .boxed()
}

fn normal_texture(n: V3, bytes: bool) -> Textures {
    if bytes {
        let e = |x: f64| ((x * 0.5 + 0.5) * 255.).round() as u8;
        ImageMap::new(Arc::new(RgbImage::from_pixel(3, 2, Rgb([e(n[0]), e(n[1]), e(n[2])]))))
    } else {
        SolidColor::new(n[0] * 0.5 + 0.5, n[1] * 0.5 + 0.5, n[2] * 0.5 + 0.5)
    }
}

fn material(k: u8, t: Textures) -> Materials {
    let white = SolidColor::new(1., 1., 1.);
    match k {
        0 => Lambertian::new(white, Some(t)),
        1 => Metal::new(white, Some(t), 0.1),
        2 => Dielectric::new(white, Some(t), 1.5),
        _ => Blend::new(Lambertian::new(white.clone(), Some(t.clone())), Metal::new(white, Some(t), 0.), 0.5),
    }
}

/// point, unit tangents along u and v, geometric normal (not yet facing the ray)
fn frame(s: &Surf, ab: [f64; 2]) -> Option<(V3, V3, V3, V3)> {
    match s {
        Surf::Sphere { c, r } => {
            let y = ab[0] * 1.9 - 0.95;
            let a = ab[1] * std::f64::consts::TAU;
            let ring = (1. - y * y).sqrt();
            let n = [ring * a.cos(), y, ring * a.sin()];
            // u grows against the azimuth a (see P05), v upwards
            let t = [a.sin(), 0., -a.cos()];
            let up = unit(sub([0., 1., 0.], mul(n, y)));
            Some((add(*c, mul(n, *r)), t, up, n))
        }
        Surf::Quad { q, u, v } => Some((lerp3(*q, *u, ab[0], *v, ab[1]), unit(*u), unit(*v), unit(cross(*u, *v)))),
        Surf::Tri { a, u, v, uv } => {
            let ab = if ab[0] + ab[1] > 0.99 { [0.99 - ab[0] * 0.98, 0.99 - ab[1] * 0.98] } else { ab };
            let ab = [ab[0].max(0.01), ab[1].max(0.01)];
            if ab[0] + ab[1] > 0.995 {
                return None;
            }
            let d1 = [(uv[1][0] - uv[0][0]) as f64, (uv[1][1] - uv[0][1]) as f64];
            let d2 = [(uv[2][0] - uv[0][0]) as f64, (uv[2][1] - uv[0][1]) as f64];
            let det = d1[0] * d2[1] - d1[1] * d2[0];
            let m = d1[0].abs().max(d1[1].abs()).max(d2[0].abs()).max(d2[1].abs());
            if det.abs() < 0.05 * m * m || m < 1e-3 {
                return None;
            }
            // dP/du and dP/dv
            let t = mul(sub(mul(*u, d2[1]), mul(*v, d1[1])), 1. / det);
            let b = mul(sub(mul(*v, d1[0]), mul(*u, d2[0])), 1. / det);
            if len(t) < 1e-2 * len(*u).min(len(*v)) / m || len(b) < 1e-2 * len(*u).min(len(*v)) / m {
                return None;
            }
            Some((lerp3(*a, *u, ab[0], *v, ab[1]), unit(t), unit(b), unit(cross(*u, *v))))
        }
    }
}

fn build(s: &Surf, m: Materials) -> Hittables {
    match s {
        Surf::Sphere { c, r } => Sphere::new(sv(*c), *r, m),
        Surf::Quad { q, u, v } => Quad::new(sv(*q), sv(*u), sv(*v), m, &NopTransformer()),
        Surf::Tri { a, u, v, uv } => Triangle::new_with_tex_coords(
            sv(*a),
            sv(add(*a, *u)),
            sv(add(*a, *v)),
            Uv::new(uv[0][0], uv[0][1]),
            Uv::new(uv[1][0], uv[1][1]),
            Uv::new(uv[2][0], uv[2][1]),
            m,
            &NopTransformer(),
        ),
    }
}

fn size_of(s: &Surf) -> f64 {
    match s {
        Surf::Sphere { r, .. } => *r,
        Surf::Quad { u, v, .. } | Surf::Tri { u, v, .. } => len(*u).max(len(*v)),
    }
}

fn check_case(s: &Case, obs: &mut Obs) -> Res {
    let Some((p, t, b, n)) = frame(&s.surf, s.ab) else {
        obs.label("degenerate texture coordinates");
        return Ok(());
    };
    let cos = dot(s.from, n);
    if cos.abs() < 0.05 {
        return Ok(());
    }
    let size = size_of(&s.surf);
    // start close enough to p not to hit the other side of a sphere first
    let back = match &s.surf {
        Surf::Sphere { r, .. } => {
            if cos < 0. {
                1.5 * r
            } else {
                // from inside: half of the chord
                r * cos
            }
        }
        _ => size,
    };
    let ray = ray_through(p, s.from, back, s.l);
    if back / s.l < 0.01 {
        return Ok(());
    }
    let facing = if cos < 0. { n } else { neg(n) };
    let h = build(&s.surf, material(s.mat, normal_texture(s.n, s.bytes)));
    let r = ray.build();
    let Some(hit) = h.hit(&r, &RAY_INTERVAL) else {
        return Err("the surface is not hit".into());
    };
    if dist(rv(hit.hit_point), p) > 1e-6 * (1. + maxabs(p) + size) {
        return Err(format!("hit at {:?} instead of {p:?}", rv(hit.hit_point)));
    }
    let want = add(add(mul(t, s.n[0]), mul(b, s.n[1])), mul(facing, s.n[2]));
    let got = rv(hit.normal);
    let ortho = dot(t, b).abs() < 1e-6;
    let tol = if s.bytes { 0.02 } else { 1e-4 };
    if ortho {
        ensure!(dist(got, want) < tol, "normal {got:?} instead of {want:?}");
        obs.label("square tangents");
    } else {
        if len(want) < 0.1 {
            return Ok(());
        }
        ensure!(len(got) > 1e-3 && dist(unit(got), unit(want)) < tol / len(want) * 2., "normal {got:?} is not along {want:?}");
        obs.label("skewed tangents");
    }
    obs.label(match &s.surf {
        Surf::Sphere { .. } => "sphere",
        Surf::Quad { .. } => "quad",
        Surf::Tri { .. } => "triangle",
    });
    obs.label(if cos < 0. { "front" } else { "back" });
    obs.nontrivial_if(s.n[2] < 0.999);
    // a map that encodes straight normals, and no map at all, leave the normal alone
    let plain = build(&s.surf, DiffuseLight::new(1., 1., 1., None));
    let pl = plain.hit(&r, &RAY_INTERVAL).map(|x| rv(x.normal));
    ensure!(pl.is_some_and(|x| dist(x, facing) < 1e-5), "without a map the normal is {pl:?}");
    Ok(())
}

// ---------------------------------------------------------------- several pixels

/// a map of several normals on a quad: the pixel of the hit's texture coordinate counts
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cells {
    w: u32,
    h: u32,
    salt: u32,
    cell: [u32; 2],
    off: [f64; 2],
    mat: u8,
}

fn cell_normal(i: u32, salt: u32) -> V3 {
    let a = mix((i as u64) << 32 | salt as u64);
    let t = (a & 0xffff) as f64 / 65536. * 1.2;
    let p = (a >> 16 & 0xffff) as f64 / 65536. * std::f64::consts::TAU;
    [t.sin() * p.cos(), t.sin() * p.sin(), t.cos()]
}

fn check_cells(s: &Cells, obs: &mut Obs) -> Res {
    let e = |x: f64| ((x * 0.5 + 0.5) * 255.).round() as u8;
    let img = RgbImage::from_fn(s.w, s.h, |x, y| {
        let n = cell_normal(y * s.w + x, s.salt);
        Rgb([e(n[0]), e(n[1]), e(n[2])])
    });
    let (cx, cy) = (s.cell[0] % (s.w - 1), s.cell[1] % (s.h - 1));
    let u = (cx as f64 + s.off[0]) / (s.w - 1) as f64;
    let v = 1. - (cy as f64 + s.off[1]) / (s.h - 1) as f64;
    let q = Quad::new(sv([0., 0., 0.]), sv([1., 0., 0.]), sv([0., 1., 0.]), material(s.mat, ImageMap::new(Arc::new(img))), &NopTransformer());
    let r = RaySpec { o: [u, v, 2.], d: [0., 0., -1.] }.build();
    let hit = q.hit(&r, &RAY_INTERVAL).ok_or("the quad is not hit")?;
    let want = cell_normal(cy * s.w + cx, s.salt);
    ensure!(dist(rv(hit.normal), want) < 0.02, "pixel {cx},{cy}: normal {:?} instead of {want:?}", rv(hit.normal));
    obs.nontrivial();
    Ok(())
}

// ---------------------------------------------------------------- height maps

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Height {
    w: u32,
    h: u32,
    kind: u8,
    salt: u32,
    sx: i32,
    sy: i32,
    base: u8,
}

fn height() -> BoxedStrategy<Height> {
    (
        prop_oneof![5 => 1u32..4, 20 => 2u32..24, 2 => 24u32..90],
        prop_oneof![5 => 1u32..4, 20 => 2u32..24, 2 => 24u32..90],
        0u8..6,
        any::<u32>(),
        -12i32..12,
        -12i32..12,
        any::<u8>(),
    )
        .prop_map(|(w, h, kind, salt, sx, sy, base)| Height { w, h, kind, salt, sx, sy, base })
        .boxed()
}

fn level(s: &Height, x: u32, y: u32) -> u8 {
    let r = mix(((y * s.w + x) as u64) << 32 | s.salt as u64);
    match s.kind {
        0 => s.base,
        1 => (s.base as i32 + s.sx * x as i32 + s.sy * y as i32).clamp(0, 255) as u8,
        2 => (r & 255) as u8,
        // one level in the upper or lower part; 54 and 201 would also do as normals of length 1
        4 if y * 20 < s.h * (s.salt % 10) => [54, 201, s.base][s.salt as usize % 3],
        5 if (s.h - y) * 20 < s.h * (s.salt % 10) => [54, 201, s.base][s.salt as usize % 3],
        4 | 5 => (r & 255) as u8,
        _ => (s.base as i32 + (r % 21) as i32 - 10).clamp(0, 255) as u8,
    }
}

fn height_image(s: &Height) -> RgbImage {
    RgbImage::from_fn(s.w, s.h, |x, y| Rgb([level(s, x, y); 3]))
}

/// expected unit normal of the pixel in the map: Sobel slopes, edges repeated, strength 6
fn sobel(s: &Height, x: u32, y: u32) -> V3 {
    let g = |dx: i32, dy: i32| -> f64 {
        let xx = (x as i32 + dx).clamp(0, s.w as i32 - 1) as u32;
        let yy = (y as i32 + dy).clamp(0, s.h as i32 - 1) as u32;
        level(s, xx, yy) as f64 / 255.
    };
    let dx = g(1, -1) + 2. * g(1, 0) + g(1, 1) - g(-1, -1) - 2. * g(-1, 0) - g(-1, 1);
    let dy = g(-1, 1) + 2. * g(0, 1) + g(1, 1) - g(-1, -1) - 2. * g(0, -1) - g(1, -1);
    // away from rising height: left when it rises to the right; up (green) when it rises downwards
    unit([-dx, dy, 1. / 6.])
}

fn check_height(s: &Height, obs: &mut Obs) -> Res {
    let img = height_image(s);
    let n = to_normal_map(img);
    ensure!(n.dimensions() == (s.w, s.h), "the normal map is {:?}", n.dimensions());
    let mut tilted = false;
    for y in 0..s.h {
        for x in 0..s.w {
            let want = sobel(s, x, y);
            let p = n.get_pixel(x, y);
            let mut dec = [0.; 3];
            for k in 0..3 {
                let e = (want[k] * 0.5 + 0.5) * 255.;
                ensure!(
                    (p[k] as f64 - e).abs() <= 1.05,
                    "pixel {x},{y}: channel {k} is {} instead of {e:.2}",
                    p[k]
                );
                dec[k] = p[k] as f64 / 255. * 2. - 1.;
            }
            ensure!((len(dec) - 1.).abs() < 0.02, "pixel {x},{y} encodes a vector of length {}", len(dec));
            tilted |= want[2] < 0.99;
        }
    }
    if s.kind == 0 {
        obs.label("flat");
    }
    obs.nontrivial_if(tilted || s.kind == 0);
    Ok(())
}

// ---------------------------------------------------------------- loading

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LoadCase {
    height: bool,
    map: Height,
    max_tilt: f64,
    straight: f64,
    damage: u8,
}

fn scratch() -> PathBuf {
    let base = std::env::var("VERIF_RUN").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
    let d = base.join(format!("p07-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&d);
    d
}

fn check_load(s: &LoadCase, obs: &mut Obs) -> Res {
    let path = scratch().join("bump.png");
    let p = path.to_string_lossy().to_string();
    let _ = std::fs::remove_file(&path);
    if s.damage < 2 {
        if s.damage == 1 {
            std::fs::write(&path, b"no picture").map_err(|e| e.to_string())?;
        }
        obs.label("unusable");
        obs.nontrivial();
        return match guard(|| load_normal_texture(&p)) {
            Ok(Err(e)) if e.to_string().contains("bump.png") => Ok(()),
            Ok(Err(e)) => Err(format!("the error '{e}' does not name the file")),
            Ok(Ok(_)) => Err("an unusable bump map file loads".into()),
            Err(e) => Err(e),
        };
    }
    let m = &s.map;
    let mut count = [0u32; 256];
    let img = if s.height {
        for y in 0..m.h {
            for x in 0..m.w {
                count[level(m, x, y) as usize] += 1;
            }
        }
        // varied levels
        let most = *count.iter().max().unwrap();
        let used = count.iter().filter(|c| **c > 0).count();
        if used < 4 || most * 2 > m.w * m.h {
            return Ok(());
        }
        // the levels must not all be within a narrow band
        let lo = (0..256).find(|i| count[*i] > 0).unwrap();
        let hi = (0..256).rfind(|i| count[*i] > 0).unwrap();
        if hi - lo < 40 {
            return Ok(());
        }
        height_image(m)
    } else {
        RgbImage::from_fn(m.w, m.h, |x, y| {
            let a = mix(((y * m.w + x) as u64) << 32 | m.salt as u64);
            let f = (a & 0xffff) as f64 / 65536.;
            let t = if f < s.straight { 0. } else { (a >> 32 & 0xffff) as f64 / 65536. * s.max_tilt.to_radians() };
            let q = (a >> 16 & 0xffff) as f64 / 65536. * std::f64::consts::TAU;
            let e = |x: f64| ((x * 0.5 + 0.5) * 255.).round() as u8;
            Rgb([e(t.sin() * q.cos()), e(t.sin() * q.sin()), e(t.cos())])
        })
    };
    let grey_only = img.pixels().all(|p| p[0] == p[1] && p[1] == p[2]);
    if !s.height && grey_only {
        return Ok(());
    }
    image::DynamicImage::ImageRgb8(img.clone()).save(&path).map_err(|e| e.to_string())?;
    let t = load_normal_texture(&p).map_err(|e| format!("cannot load: {e}"))?;
    let mut judged = 0;
    for y in 0..m.h {
        for x in 0..m.w {
            let u = if m.w == 1 { 0.3 } else { (x as f32 + 0.5) / (m.w - 1) as f32 };
            let v = if m.h == 1 { 0.3 } else { 1. - (y as f32 + 0.5) / (m.h - 1) as f32 };
            if u >= 1. || v < 0. {
                continue;
            }
            let got = rv(t.color(Uv::new(u, v)));
            let want = if s.height {
                let n = sobel(m, x, y);
                [n[0] * 0.5 + 0.5, n[1] * 0.5 + 0.5, n[2] * 0.5 + 0.5]
            } else {
                let p = img.get_pixel(x, y);
                [p[0] as f64 / 255., p[1] as f64 / 255., p[2] as f64 / 255.]
            };
            judged += 1;
            ensure!(
                maxabs(sub(got, want)) < 0.0045,
                "a {} map: pixel {x},{y} encodes {got:?} instead of {want:?}",
                if s.height { "height" } else { "normal" }
            );
        }
    }
    obs.label(if s.height { "height" } else { "normal" });
    obs.nontrivial_if(judged > 1);
    Ok(())
}

fn main() {
    run_main(
        "P07",
        || {
            vec![
                facet("tilt", "the encoded normal is not straight", 600_000, 12_000_000, case(), check_case),
                facet(
                    "cells",
                    "every case",
                    100_000,
                    2_000_000,
                    (2u32..20, 2u32..20, any::<u32>(), [any::<u32>(), any::<u32>()], [0.05..0.95f64, 0.05..0.95f64], 0u8..4)
                        .prop_map(|(w, h, salt, cell, off, mat)| Cells { w, h, salt, cell, off, mat }),
                    check_cells,
                ),
                facet("height map", "some pixel is tilted, or the map is flat", 60_000, 1_500_000, height(), check_height),
                facet(
                    "loading",
                    "a map of more than one judged pixel, or an unusable file",
                    24_000,
                    400_000,
                    (any::<bool>(), height(), 1.0..85.0f64, prop_oneof![Just(0.), 0.0..1.0f64], 0u8..20)
                        .prop_map(|(height, map, max_tilt, straight, damage)| LoadCase { height, map, max_tilt, straight, damage }),
                    check_load,
                ),
            ]
        },
        &[
            "normals within 5 % of edge-on, and triangles whose texture coordinates are (nearly) degenerate are not judged",
            "where texture directions are not perpendicular only the direction of the result is judged",
            "height maps use at least four levels over a span of at least 40; a single-coloured grey image is ambiguous",
        ],
    )
}
