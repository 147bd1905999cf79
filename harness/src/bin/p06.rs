//! P06: texture lookups return the image's pixel for the coordinate.
use harness::ensure;
use harness::fw::*;
use harness::geo::*;
use harness::spec::*;
use image::{ImageFormat, RgbImage};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solstrale::geo::Uv;
use solstrale::material::texture::{ImageMap, SolidColor, Texture, Textures};
use std::path::PathBuf;
use std::sync::Arc;

/// every pixel has its own colour (up to 65536 pixels)
fn unique_image(w: u32, h: u32, salt: u32) -> RgbImage {
    RgbImage::from_fn(w, h, |x, y| {
        let i = y * w + x;
        image::Rgb([(i & 255) as u8, ((i >> 8) & 255) as u8, (mix((i ^ salt) as u64) & 255) as u8])
    })
}

fn px(img: &RgbImage, x: u32, y: u32) -> V3 {
    let p = img.get_pixel(x, y);
    [p[0] as f64 / 255., p[1] as f64 / 255., p[2] as f64 / 255.]
}

fn same(a: V3, b: V3) -> bool {
    dist(a, b) < 1e-12
}

/// where the coordinate is proportionally along 0..n-1; repeated above one
fn pos(c: f64, n: u32, flip: bool) -> f64 {
    let f = c.fract();
    (if flip { 1. - f } else { f }) * (n - 1) as f64
}

/// the pixel indices the coordinate may mean (two when it is within rounding of a border)
fn index(c: f32, n: u32, flip: bool) -> Vec<u32> {
    let p = pos(c as f64, n, flip);
    let eps = 4e-7 * (n as f64);
    let a = (p - eps).floor().max(0.) as u32;
    let b = ((p + eps).floor() as u32).min(n - 1);
    if c == 0. {
        // exactly the first column / the bottom row
        return vec![if flip { n - 1 } else { 0 }];
    }
    (a..=b).collect()
}

fn size() -> BoxedStrategy<u32> {
    prop_oneof![1 => 1u32..4, 4 => 1u32..40, 1 => prop_oneof![Just(2u32), Just(17), Just(65), Just(129)], 1 => 40u32..200].boxed()
}

fn unit_coord() -> BoxedStrategy<f32> {
    prop_oneof![
        6 => 0.0..1.0f32,
        1 => Just(0f32),
        1 => (0u32..64, 1u32..64).prop_map(|(a, b)| (a % b) as f32 / b as f32),
        1 => prop_oneof![Just(1.0f32 - f32::EPSILON / 2.), Just(1e-7f32), Just(1e-30f32), Just(0.5f32), Just(1.0f32 - 1e-5)],
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Look {
    w: u32,
    h: u32,
    salt: u32,
    uv: Vec<[f32; 2]>,
    rep: [u32; 2],
}

fn repeats() -> BoxedStrategy<u32> {
    prop_oneof![4 => Just(0u32), 2 => 1u32..6, 1 => 6u32..50, 1 => 50u32..5000].boxed()
}

/// wide, tall and large images
fn large() -> BoxedStrategy<Look> {
    (
        prop_oneof![(300u32..9000, 1u32..5), (1u32..5, 300u32..9000), (200u32..700, 200u32..700)],
        any::<u32>(),
        prop::collection::vec([unit_coord(), unit_coord()], 40..80),
        [repeats(), repeats()],
    )
        .prop_map(|((w, h), salt, uv, rep)| Look { w, h, salt, uv, rep })
        .boxed()
}

fn look() -> BoxedStrategy<Look> {
    (
        size(),
        size(),
        any::<u32>(),
        prop::collection::vec([unit_coord(), unit_coord()], 1..24),
        [repeats(), repeats()],
    )
        .prop_map(|(w, h, salt, uv, rep)| Look { w, h, salt, uv, rep })
        .boxed()
}

fn at_uv(t: &Textures, u: f32, v: f32) -> V3 {
    rv(t.color(Uv::new(u, v)))
}

fn check_look(s: &Look, obs: &mut Obs) -> Res {
    let img = unique_image(s.w, s.h, s.salt);
    let t = ImageMap::new(Arc::new(img.clone()));
    for c in &s.uv {
        // repetition: adding a whole number keeps the place (single precision rounds the fraction)
        let (u, v) = (c[0] + s.rep[0] as f32, c[1] + s.rep[1] as f32);
        if (s.rep[0] > 0 && u.fract() == 0.) || (s.rep[1] > 0 && v.fract() == 0.) || u == 1. || v == 1. {
            continue;
        }
        let got = at_uv(&t, u, v);
        let (xs, ys) = (index(u, s.w, false), index(v, s.h, true));
        let ok = xs.iter().any(|x| ys.iter().any(|y| same(px(&img, *x, *y), got)));
        ensure!(ok, "at ({u}, {v}) of a {}x{} image the colour is {got:?}, not that of columns {xs:?} rows {ys:?} from the top", s.w, s.h);
        obs.nontrivial_if(s.w > 1 && s.h > 1);
        if s.rep != [0, 0] {
            obs.label("repeated");
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wild {
    w: u32,
    h: u32,
    uv: Vec<[f32; 2]>,
}

fn wild_coord() -> BoxedStrategy<f32> {
    prop_oneof![
        3 => any::<f32>().prop_map(|x| if x.is_finite() { x } else { 1. }),
        2 => -100.0..100.0f32,
        1 => (-50i32..50).prop_map(|i| i as f32),
        1 => (-50i32..50).prop_map(|i| i as f32 + f32::EPSILON),
        1 => prop_oneof![Just(f32::MAX), Just(f32::MIN), Just(f32::MIN_POSITIVE), Just(1e-45f32), Just(-0f32), Just(1.0 - f32::EPSILON / 2.), Just(16777216f32), Just(8388607.5f32)],
    ]
    .boxed()
}

fn check_wild(s: &Wild, obs: &mut Obs) -> Res {
    let img = unique_image(s.w, s.h, 5);
    let t = ImageMap::new(Arc::new(img.clone()));
    for c in &s.uv {
        let got = at_uv(&t, c[0], c[1]);
        let known = img.pixels().any(|p| same([p[0] as f64 / 255., p[1] as f64 / 255., p[2] as f64 / 255.], got));
        ensure!(known, "at ({}, {}) the colour {got:?} is none of the image's", c[0], c[1]);
        obs.nontrivial_if(c.iter().any(|x| !(0. ..1.).contains(x)));
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Solid {
    c: V3,
    f: [f32; 3],
    uv: Vec<[f32; 2]>,
}

fn check_solid(s: &Solid, obs: &mut Obs) -> Res {
    let a = SolidColor::new(s.c[0], s.c[1], s.c[2]);
    let b = SolidColor::new_from_vec3(sv(s.c));
    let f = SolidColor::new_from_f32_array(s.f);
    for c in &s.uv {
        ensure!(at_uv(&a, c[0], c[1]) == s.c, "solid colour changes");
        ensure!(at_uv(&b, c[0], c[1]) == s.c, "solid colour from vector changes");
        let w = [s.f[0] as f64, s.f[1] as f64, s.f[2] as f64];
        ensure!(at_uv(&f, c[0], c[1]) == w, "solid colour from array is {:?}", at_uv(&f, c[0], c[1]));
        ensure!(at_uv(&a.clone(), c[0], c[1]) == s.c, "clone of a solid colour changes");
    }
    obs.nontrivial();
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FileCase {
    w: u32,
    h: u32,
    salt: u32,
    format: u8,
    name: u8,
    alpha: bool,
    #[serde(default)]
    depth: u8,
    damage: Option<(u8, u16, u8)>,
}

fn scratch() -> PathBuf {
    let base = std::env::var("VERIF_RUN").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
    let d = base.join(format!("p06-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&d);
    d
}

const FORMATS: [ImageFormat; 6] =
    [ImageFormat::Png, ImageFormat::Bmp, ImageFormat::Pnm, ImageFormat::Qoi, ImageFormat::Tiff, ImageFormat::Farbfeld];

fn check_file(s: &FileCase, obs: &mut Obs) -> Res {
    let mut img = unique_image(s.w, s.h, s.salt);
    let fmt = FORMATS[s.format as usize % FORMATS.len()];
    let mut bytes = std::io::Cursor::new(vec![]);
    let dynimg = image::DynamicImage::ImageRgb8(img.clone());
    let r = if fmt == ImageFormat::Farbfeld {
        image::DynamicImage::ImageRgba16(dynimg.to_rgba16()).write_to(&mut bytes, fmt)
    } else if s.alpha && fmt != ImageFormat::Pnm {
        image::DynamicImage::ImageRgba8(dynimg.to_rgba8()).write_to(&mut bytes, fmt)
    } else if s.depth == 1 && matches!(fmt, ImageFormat::Png | ImageFormat::Tiff | ImageFormat::Pnm) {
        // 16 bits per channel, holding exactly the same colours
        obs.label("16 bits");
        image::DynamicImage::ImageRgb16(dynimg.to_rgb16()).write_to(&mut bytes, fmt)
    } else if s.depth == 2 && fmt == ImageFormat::Png {
        obs.label("16 bits");
        image::DynamicImage::ImageRgba16(dynimg.to_rgba16()).write_to(&mut bytes, fmt)
    } else if s.depth >= 3 && matches!(fmt, ImageFormat::Png | ImageFormat::Tiff | ImageFormat::Pnm) {
        // shades of grey
        obs.label("grey");
        let grey = image::GrayImage::from_fn(s.w, s.h, |x, y| image::Luma([(mix((y * s.w + x) as u64 ^ s.salt as u64) & 255) as u8]));
        let grey = image::DynamicImage::ImageLuma8(grey);
        img = grey.to_rgb8();
        match s.depth {
            3 => grey.write_to(&mut bytes, fmt),
            4 if fmt == ImageFormat::Png => image::DynamicImage::ImageLumaA8(grey.to_luma_alpha8()).write_to(&mut bytes, fmt),
            _ => image::DynamicImage::ImageLuma16(grey.to_luma16()).write_to(&mut bytes, fmt),
        }
    } else {
        dynimg.write_to(&mut bytes, fmt)
    };
    r.map_err(|e| format!("harness cannot write a {fmt:?} file: {e}"))?;
    let mut bytes = bytes.into_inner();
    let names = ["tex.png", "tex.bmp", "tex.jpg", "tex.ppm", "tex", "tex.tif", "tex.PNG", "texture.of.wood", "tex.qoi", "tex.txt", "a b\u{e5}.png"];
    let name = names[s.name as usize % names.len()];
    let path = scratch().join(name);
    let p = path.to_string_lossy().to_string();
    let _ = std::fs::remove_file(&path);
    if let Some((kind, posn, b)) = s.damage {
        match kind % 4 {
            0 => {
                // missing
                obs.label("missing");
                obs.nontrivial();
                return match guard(|| ImageMap::load(&p)) {
                    Ok(Err(_)) => Ok(()),
                    Ok(Ok(_)) => Err("a missing file loads".into()),
                    Err(e) => Err(format!("loading a missing file: {e}")),
                };
            }
            1 => {
                // no image at all
                obs.label("garbage");
                obs.nontrivial();
                let n = posn as usize % 300;
                let text: Vec<u8> = (0..n).map(|i| b'a' + (mix(i as u64 ^ s.salt as u64) % 26) as u8).collect();
                std::fs::write(&path, text).map_err(|e| e.to_string())?;
                return match guard(|| ImageMap::load(&p)) {
                    Ok(Err(_)) => Ok(()),
                    Ok(Ok(_)) => Err("a file that is no image loads".into()),
                    Err(e) => Err(format!("loading a file that is no image: {e}")),
                };
            }
            2 => {
                let n = bytes.len();
                bytes.truncate(posn as usize % n);
                obs.label("cut");
            }
            _ => {
                let n = bytes.len();
                bytes[posn as usize % n] ^= b | 1;
                obs.label("damaged");
            }
        }
        std::fs::write(&path, &bytes).map_err(|e| e.to_string())?;
        // damage in the header may announce a huge image: such files are not loaded here
        let dims = image::ImageReader::new(std::io::Cursor::new(&bytes)).with_guessed_format().ok().and_then(|r| guard(|| r.into_dimensions().ok()).ok().flatten());
        if let Some((a, b)) = dims {
            if a as u64 * b as u64 > 4_000_000 {
                obs.label("huge, skipped");
                return Ok(());
            }
            if a == 0 || b == 0 {
                obs.label("empty image, skipped");
                return Ok(());
            }
        } else {
            // nothing sensible in it: a decoder may still answer either way, but must not panic
        }
        let want = guard(|| image::load_from_memory(&bytes).map(|i| i.into_rgb8()));
        if want.is_err() {
            // the decoder library itself panics on this file
            obs.label("decoder panics");
            return Ok(());
        }
        obs.nontrivial();
        return match guard(|| ImageMap::load(&p)) {
            Ok(_) => Ok(()),
            Err(e) => Err(format!("loading a damaged {fmt:?} file: {e}")),
        };
    }
    std::fs::write(&path, &bytes).map_err(|e| e.to_string())?;
    let t = match guard(|| ImageMap::load(&p)) {
        Ok(Ok(t)) => t,
        Ok(Err(e)) => return Err(format!("a valid {fmt:?} file called {name} is refused: {e}")),
        Err(e) => return Err(format!("a valid {fmt:?} file called {name}: {e}")),
    };
    let reference = ImageMap::new(Arc::new(img.clone()));
    for y in 0..s.h {
        for x in 0..s.w {
            // the middle of the stretch of coordinates of the pixel
            let u = if s.w == 1 { 0.3 } else { (x as f32 + 0.5) / (s.w - 1) as f32 };
            let v = if s.h == 1 { 0.3 } else { 1. - (y as f32 + 0.5) / (s.h - 1) as f32 };
            if u >= 1. || v < 0. {
                continue;
            }
            let got = at_uv(&t, u, v);
            ensure!(same(got, px(&img, x, y)), "{fmt:?} file {name}: pixel {x},{y} is {got:?} instead of {:?}", px(&img, x, y));
            ensure!(got == at_uv(&reference, u, v), "file and memory differ at pixel {x},{y}");
        }
    }
    // bottom row and right end
    for k in 0..=20 {
        let c = k as f32 * 0.04999;
        ensure!(at_uv(&t, c, 0.) == at_uv(&reference, c, 0.) && at_uv(&t, 0.999999, c) == at_uv(&reference, 0.999999, c), "file and memory differ");
    }
    obs.label(format!("{fmt:?}"));
    obs.nontrivial_if(s.w > 1 && s.h > 1);
    Ok(())
}

fn main() {
    run_main(
        "P06",
        || {
            vec![
                facet("lookup", "image of more than one row and column, coordinate compared with its exact pixel", 400_000, 10_000_000, look(), check_look),
                facet("large images", "image of more than one row and column, coordinate compared with its exact pixel", 2_000, 60_000, large(), check_look),
                facet(
                    "any coordinate",
                    "a coordinate outside [0,1)",
                    120_000,
                    3_000_000,
                    (size(), size(), prop::collection::vec([wild_coord(), wild_coord()], 1..12)).prop_map(|(w, h, uv)| Wild { w, h, uv }),
                    check_wild,
                ),
                facet(
                    "solid",
                    "every case",
                    50_000,
                    500_000,
                    (color(5.), [0.0..3.0f32, 0.0..3.0f32, 0.0..3.0f32], prop::collection::vec([wild_coord(), wild_coord()], 1..5))
                        .prop_map(|(c, f, uv)| Solid { c, f, uv }),
                    check_solid,
                ),
                facet(
                    "files",
                    "intact file of more than one row and column, or an unusable file",
                    12_000,
                    200_000,
                    (size(), size(), any::<u32>(), any::<u8>(), any::<u8>(), (prop::bool::weighted(0.3), 0u8..6), prop::option::weighted(0.4, (any::<u8>(), any::<u16>(), any::<u8>())))
                        .prop_map(|(w, h, salt, format, name, (alpha, depth), damage)| FileCase { w: w.min(70), h: h.min(70), salt, format, name, alpha, depth, damage }),
                    check_file,
                ),
            ]
        },
        &[
            "coordinates within single precision rounding of a pixel border may mean either pixel",
            "exact whole coordinates other than 0 and negative coordinates: only that some pixel is returned",
            "files on which the image library itself panics, or that announce images of more than 4 million pixels, are not judged",
        ],
    )
}
