//! P27: OBJ models load with all their faces, coordinates and materials.
use harness::ensure;
use harness::fw::*;
use harness::geo::*;
use harness::spec::*;
use image::{Rgb, RgbImage};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solstrale::geo::transformation::NopTransformer;
use solstrale::geo::Uv;
use solstrale::hittable::{Bvh, Hittable, Hittables, Sphere, Triangle};
use solstrale::loader::obj::Obj as ObjFile;
use solstrale::loader::Loader;
use solstrale::material::texture::{load_normal_texture, ImageMap, SolidColor, Texture, Textures};
use solstrale::material::{DiffuseLight, Lambertian, Material, Materials, RayScatter};
use solstrale::util::interval::RAY_INTERVAL;
use std::fmt::Write;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MatSpec {
    /// in 64ths
    kd: Option<[u8; 3]>,
    map: Option<u8>,
    bump: Option<u8>,
    /// order and extra statements
    form: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Face {
    /// shape, place and texture coordinates
    salt: u64,
    k: u8,
    mat: Option<u16>,
    /// 0: v, 1: v/vt, 2: v//vn, 3: v/vt/vn
    note: u8,
    negative: bool,
    /// statement before the face
    sep: u8,
    /// written as two faces that share two corners
    chord: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Model {
    mats: Vec<MatSpec>,
    libs: u8,
    faces: Vec<Face>,
    /// 0: vertices before each face, 1: all first, 2: all first and each only once
    layout: u8,
    text: u32,
    perm: u8,
    tf: Vec<Tf>,
    default: Option<Mat>,
    probes: u64,
}

fn mat_spec() -> BoxedStrategy<MatSpec> {
    (
        prop::option::weighted(
            0.8,
            prop_oneof![
                12 => [0u8..=64, 0u8..=64, 0u8..=64],
                // where a colour might be taken for none
                3 => [0usize..3, 0usize..3, 0usize..3].prop_map(|k| k.map(|i| [0u8, 0, 64][i])),
                1 => Just([0; 3]),
                1 => Just([64; 3]),
                1 => (0u8..=64).prop_map(|g| [g; 3]),
            ]
        ),
        prop::option::weighted(0.3, 0u8..4),
        prop::option::weighted(0.25, 0u8..4),
        any::<u32>(),
    )
        .prop_map(|(kd, map, bump, form)| MatSpec { kd, map, bump, form })
        .boxed()
}

fn face() -> BoxedStrategy<Face> {
    (
        any::<u64>(),
        prop_oneof![3 => Just(3u8), 2 => Just(4u8), 1 => 5u8..8],
        prop::option::weighted(0.8, any::<u16>()),
        0u8..4,
        any::<bool>(),
        0u8..24,
        prop::bool::weighted(0.3),
    )
        .prop_map(|(salt, k, mat, note, negative, sep, chord)| Face { salt, k, mat, note, negative, sep, chord })
        .boxed()
}

fn default_mat() -> BoxedStrategy<Option<Mat>> {
    prop_oneof![
        2 => Just(None),
        2 => color(1.).prop_map(|c| Some(Mat::Matte(c))),
        2 => color(5.).prop_map(|c| Some(Mat::Light(c, None))),
    ]
    .boxed()
}

fn model(mats: std::ops::Range<usize>, faces: std::ops::Range<usize>, simple: bool) -> BoxedStrategy<Model> {
    let face = if simple {
        face().prop_map(|f| Face { k: 3, chord: false, ..f }).boxed()
    } else {
        face()
    };
    (
        prop::collection::vec(mat_spec(), mats),
        0u8..4,
        prop::collection::vec(face, faces),
        0u8..3,
        any::<u32>(),
        0u8..6,
        tfs(3, true),
        default_mat(),
        any::<u64>(),
    )
        .prop_map(move |(mut mats, libs, mut faces, layout, text, perm, tf, default, probes)| {
            if mats.len() > 50 {
                // textures are for the small models; every material is used if there are enough faces
                for m in &mut mats {
                    m.map = None;
                    m.bump = None;
                }
                let n = mats.len();
                for (i, f) in faces.iter_mut().enumerate() {
                    if let Some(m) = &mut f.mat {
                        if *m % 4 != 0 {
                            *m = ((i * 7 + 5) % n) as u16;
                        }
                    }
                }
            }
            Model { mats, libs, faces, layout, text, perm, tf, default, probes }
        })
        .boxed()
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(1);
        mix(self.0.wrapping_mul(0x9e37_79b9_7f4a_7c15))
    }
    fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    fn range(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.f()
    }
}

/// one `f` statement
struct Part {
    corners: Vec<V3>,
    uv: Vec<[f32; 2]>,
    mat: Option<usize>,
    note: u8,
    negative: bool,
    sep: u8,
}

const GRID: f64 = 1. / 512.;

fn snap(x: f64) -> f64 {
    (x / GRID).round() * GRID
}

fn permute(perm: u8, p: V3) -> V3 {
    let [a, b, c] = p;
    match perm {
        0 => [a, b, c],
        1 => [b, c, a],
        2 => [c, a, b],
        3 => [b, a, c],
        4 => [a, c, b],
        _ => [c, b, a],
    }
}

/// the faces, each in a cell of its own of a grid with gaps in between
fn parts(s: &Model) -> Vec<Part> {
    let gx = (s.faces.len() as f64).sqrt().ceil().max(1.) as usize;
    let mut out = vec![];
    for (i, f) in s.faces.iter().enumerate() {
        let mut r = Rng(f.salt);
        let (cx, cy) = ((i % gx) as f64 * 2., (i / gx) as f64 * 2.);
        let k = f.k as usize;
        let (rx, ry) = (r.range(0.4, 0.85), r.range(0.4, 0.85));
        let rot = r.range(0., std::f64::consts::TAU);
        let (ta, tb) = ((r.next() % 17) as f64 / 8. - 1., (r.next() % 17) as f64 / 8. - 1.);
        let z0 = snap(r.range(-4., 4.));
        let mut c2: Vec<[f64; 2]> = (0..k)
            .map(|j| {
                let a = rot + (j as f64 + r.range(-0.25, 0.25)) / k as f64 * std::f64::consts::TAU;
                [snap(rx * a.cos()), snap(ry * a.sin())]
            })
            .collect();
        if r.next() % 2 == 0 {
            c2.reverse();
        }
        // texture coordinates: arbitrary for triangles, else a turned and scaled copy of the face
        let (ua, us) = (r.range(0., std::f64::consts::TAU), r.range(0.3, 2.5));
        let flip = if r.next() % 2 == 0 { 1. } else { -1. };
        let (u0, v0) = (r.range(0., 8.), r.range(0., 8.));
        let uv: Vec<[f32; 2]> = c2
            .iter()
            .map(|p| {
                if k == 3 {
                    [r.range(-2., 3.) as f32, r.range(-2., 3.) as f32]
                } else {
                    let (x, y) = (p[0], p[1] * flip);
                    [(u0 + us * (x * ua.cos() - y * ua.sin())) as f32, (v0 + us * (x * ua.sin() + y * ua.cos())) as f32]
                }
            })
            .collect();
        let corners: Vec<V3> =
            c2.iter().map(|p| permute(s.perm, [cx + p[0], cy + p[1], z0 + ta * p[0] + tb * p[1]])).collect();
        let mat = f.mat.filter(|_| !s.mats.is_empty()).map(|m| m as usize % s.mats.len());
        let part = |idx: Vec<usize>, sep| Part {
            corners: idx.iter().map(|i| corners[*i]).collect(),
            uv: idx.iter().map(|i| uv[*i]).collect(),
            mat,
            note: f.note,
            negative: f.negative,
            sep,
        };
        if f.chord && k >= 4 {
            let j = 2 + (r.next() as usize % (k - 3));
            out.push(part((0..=j).collect(), f.sep));
            out.push(part((j..k).chain([0]).collect(), (f.sep / 2) + 3));
        } else {
            out.push(part((0..k).collect(), f.sep));
        }
    }
    out
}

fn num(x: f64, style: u32) -> String {
    let x = x as f32;
    match style % 4 {
        0 | 1 => format!("{x}"),
        2 => format!("{:.13}", x as f64),
        _ => format!("{x:e}"),
    }
}

fn mat_name(i: usize, style: u32) -> String {
    match (style / 7) % 5 {
        0 => format!("m{i}"),
        1 => format!("Material.{i:03}"),
        2 => format!("wood_{i}-dark"),
        3 => format!("{i}"),
        _ => format!("f\u{e4}rg{i}"),
    }
}

fn has_lines(s: &Model) -> bool {
    s.text >> 9 & 3 == 1
}

/// the OBJ text and the texts of its material libraries
fn write_files(s: &Model, parts: &[Part]) -> (String, Vec<String>) {
    let st = s.text;
    let nl = if st & 1 == 0 { "\n" } else { "\r\n" };
    let sp = match (st >> 1) % 4 {
        0 | 1 => " ",
        2 => "  ",
        _ => "\t",
    };
    let style = st >> 4;
    let libs = s.libs as usize;
    let mut o = String::new();
    let mut l = vec![String::new(); libs];
    if libs > 0 {
        for (i, m) in s.mats.iter().enumerate() {
            let t = &mut l[if st & 8 == 0 { i % libs } else { i * libs / s.mats.len() }];
            let mut lines = vec![];
            if let Some(k) = m.kd {
                let c: Vec<String> = k.iter().map(|c| num(*c as f64 / 64., m.form)).collect();
                lines.push(format!("Kd {}", c.join(" ")));
            }
            if let Some(k) = m.map {
                lines.push(format!("map_Kd {}", ALBEDO[k as usize % ALBEDO.len()]));
            }
            if let Some(k) = m.bump {
                let word = ["map_Bump", "map_bump", "bump"][(m.form >> 8) as usize % 3];
                lines.push(format!("{word} {}", BUMP[k as usize % BUMP.len()]));
            }
            for (b, extra) in ["Ka 0.1 0.2 0.3", "Ks 0.5 0.25 0", "Ns 96.5", "illum 2", "d 1.0", "# a comment", "", "Ni 1.45", "Ke 3 2 1"].iter().enumerate() {
                if m.form >> (10 + b) & 3 == 3 {
                    lines.push(extra.to_string());
                }
            }
            let k = lines.len().max(1);
            lines.rotate_left((m.form >> 24) as usize % k);
            let _ = write!(t, "newmtl {}{nl}", mat_name(i, style));
            for x in lines {
                let _ = write!(t, "{x}{nl}");
            }
        }
    }
    if st & 16 != 0 {
        let _ = write!(o, "# a model{nl}{nl}");
    }
    for i in 0..libs {
        let _ = write!(o, "mtllib lib{i}.mtl{nl}");
    }
    // vertex tables
    let (mut vs, mut vts): (Vec<V3>, Vec<[f32; 2]>) = (vec![], vec![]);
    let mut vns = 0usize;
    let mut idx: Vec<Vec<(usize, usize, usize)>> = vec![];
    let emit_v = |o: &mut String, p: V3| {
        let c: Vec<String> = p.iter().map(|c| num(*c, style)).collect();
        let w = match style % 11 {
            3 => format!("{sp}1.0"),
            // a colour of the vertex
            4 => format!("{sp}0.25{sp}1{sp}0.5"),
            _ => String::new(),
        };
        let _ = write!(o, "v{sp}{}{w}{nl}", c.join(sp));
    };
    let emit_vt = |o: &mut String, p: [f32; 2]| {
        let w = if style % 5 == 2 { format!("{sp}0.0") } else { String::new() };
        let _ = write!(o, "vt{sp}{:e}{sp}{}{w}{nl}", p[0], p[1]);
    };
    let emit_vn = |o: &mut String, k: usize| {
        let n = [["0", "0", "1"], ["0", "1", "0"], ["-0.6", "0.8", "0"]][k % 3];
        let _ = write!(o, "vn{sp}{}{nl}", n.join(sp));
    };
    // texts of the vertices of each part, and their indices
    let mut texts: Vec<String> = vec![];
    for p in parts {
        let mut t = String::new();
        let mut ix = vec![];
        for c in 0..p.corners.len() {
            let find = if s.layout == 2 { vs.iter().position(|x| *x == p.corners[c]) } else { None };
            let a = find.unwrap_or_else(|| {
                vs.push(p.corners[c]);
                emit_v(&mut t, p.corners[c]);
                vs.len() - 1
            });
            let mut b = 0;
            if p.note & 1 == 1 {
                let find = if s.layout == 2 { vts.iter().position(|x| *x == p.uv[c]) } else { None };
                b = find.unwrap_or_else(|| {
                    vts.push(p.uv[c]);
                    emit_vt(&mut t, p.uv[c]);
                    vts.len() - 1
                });
            }
            let mut n = 0;
            if p.note & 2 == 2 {
                if vns == 0 || s.layout != 2 {
                    emit_vn(&mut t, vns);
                    vns += 1;
                }
                n = vns - 1;
            }
            ix.push((a, b, n));
        }
        texts.push(t);
        idx.push(ix);
    }
    let total = (vs.len(), vts.len(), vns);
    if s.layout != 0 {
        // the three kinds of vertex statements apart
        for kind in ["v", "vt", "vn"] {
            for t in &texts {
                for line in t.split_inclusive('\n') {
                    if line.split_whitespace().next() == Some(kind) {
                        o.push_str(line);
                    }
                }
            }
        }
    }
    let mut current: Option<usize> = None;
    let mut touched = false;
    let mut sofar = (0, 0, 0);
    for (i, p) in parts.iter().enumerate() {
        if s.layout == 0 {
            o.push_str(&texts[i]);
            for line in texts[i].lines() {
                match line.split_whitespace().next() {
                    Some("v") => sofar.0 += 1,
                    Some("vt") => sofar.1 += 1,
                    _ => sofar.2 += 1,
                }
            }
        } else {
            sofar = total;
        }
        match p.sep {
            0 => drop(write!(o, "o object{i}{nl}")),
            1 => drop(write!(o, "g group{i}{nl}")),
            2 => drop(write!(o, "s {}{nl}", if i % 2 == 0 { "off" } else { "1" })),
            3 => drop(write!(o, "# f 1 2 3{nl}")),
            4 => drop(write!(o, "{nl}{nl}")),
            5 => drop(write!(o, "g{nl}")),
            6 => drop(write!(o, "o same{nl}g same{nl}")),
            _ => {}
        }
        // a library that is not there is no library: without any no material is named
        let want = if libs == 0 { None } else { p.mat };
        if want != current || p.sep == 7 {
            match want {
                Some(m) => drop(write!(o, "usemtl {}{nl}", mat_name(m, style))),
                None if touched => drop(write!(o, "usemtl (none){nl}")),
                None => {}
            }
            current = want;
            touched = true;
        }
        let mut words = vec![];
        for (a, b, n) in &idx[i] {
            let ix = |k: usize, count: usize| {
                if p.negative {
                    (k as i64 - count as i64).to_string()
                } else {
                    (k + 1).to_string()
                }
            };
            let (a, b, n) = (ix(*a, sofar.0), ix(*b, sofar.1), ix(*n, sofar.2));
            words.push(match p.note {
                0 => a,
                1 => format!("{a}/{b}"),
                2 => format!("{a}//{n}"),
                _ => format!("{a}/{b}/{n}"),
            });
        }
        let _ = write!(o, "f{sp}{}{}{nl}", words.join(sp), if st & 32 != 0 { " " } else { "" });
        // lines and points through corners seen so far, which are no faces
        let z = mix(st as u64 ^ (i as u64) << 32);
        if has_lines(s) && z % 3 == 0 {
            let mut words = vec![];
            for j in 0..2 + (z >> 8) % 4 {
                let ix = &idx[(mix(z + j) % (i as u64 + 1)) as usize];
                let v = ix[(mix(z + 100 + j) % ix.len() as u64) as usize].0;
                words.push(if p.negative { (v as i64 - sofar.0 as i64).to_string() } else { (v + 1).to_string() });
            }
            let kind = if z >> 16 & 7 == 0 { "p" } else { "l" };
            let indent = if z >> 19 & 7 == 0 { sp } else { "" };
            let _ = write!(o, "{indent}{kind}{sp}{}{nl}", words.join(sp));
        }
    }
    if st & 64 != 0 {
        while o.ends_with(['\n', '\r']) {
            o.pop();
        }
    }
    (o, l)
}

const ALBEDO: [&str; 8] =
    ["a.png", "b.bmp", "tex ture.png", "d.tif", "sub/fol der/a.png", "100%_w+o(o)d.png", "f\u{e4}rg.PNG", "./sub/../no.1.jpg.png"];
const BUMP: [&str; 8] = ["n.png", "h.png", "m.png", "k.bmp", "sub/n.png", "n%20m&b.png", "bump [2].png", "default_bump.bmp"];

/// what is in the image files: as at first (0), or changed
static EDITION: AtomicUsize = AtomicUsize::new(0);

fn edition() -> usize {
    EDITION.load(Ordering::Relaxed)
}

fn albedo_image(k: usize) -> RgbImage {
    let e = edition();
    let (w, h) = [(4, 4), (7, 3), (1, 5), (16, 16), (3, 2)][(k + e) % 5];
    RgbImage::from_fn(w, h, |x, y| {
        let z = mix((x + 100 * y + 10_000 * (k + 100 * e) as u32) as u64);
        Rgb([z as u8, (z >> 8) as u8, (z >> 16) as u8])
    })
}

fn bump_image(k: usize) -> RgbImage {
    let turn = if edition() % 2 == 1 { -1. } else { 1. };
    let uniform = |n: V3| {
        let n = [n[0] * turn, n[1] * turn, n[2]];
        let e = |x: f64| ((x * 0.5 + 0.5) * 255.).round() as u8;
        RgbImage::from_pixel(3, 2, Rgb([e(n[0]), e(n[1]), e(n[2])]))
    };
    match k {
        0 => uniform([0.6, 0., 0.8]),
        4 => uniform([0., 0.8, 0.6]),
        5 => uniform([-0.6, 0., 0.8]),
        6 => uniform([0.48, -0.64, 0.6]),
        1 if turn < 0. => RgbImage::from_fn(9, 9, |x, y| Rgb([(x * 5 + y * 9) as u8; 3])),
        1 => RgbImage::from_fn(9, 9, |x, y| Rgb([(x * 9 + y * 5) as u8; 3])),
        2 => uniform([-0.48, 0.64, 0.6]),
        _ => RgbImage::from_fn(5, 5, |x, _| {
            let n = if x % 2 == 0 { [0.6 * turn, 0., 0.8] } else { [0., -0.6 * turn, 0.8] };
            let e = |x: f64| ((x * 0.5 + 0.5) * 255.).round() as u8;
            Rgb([e(n[0]), e(n[1]), e(n[2])])
        }),
    }
}

fn scratch() -> PathBuf {
    let base = std::env::var("VERIF_RUN").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
    let d = base.join(format!("p27-{}", std::process::id()));
    if !d.exists() {
        write_images(&d);
    }
    d
}

fn write_images(d: &Path) {
    std::fs::create_dir_all(d.join("sub/fol der")).expect("scratch directory");
    for (k, n) in ALBEDO.iter().enumerate() {
        albedo_image(k).save(d.join(n)).expect("texture");
    }
    for (k, n) in BUMP.iter().enumerate() {
        bump_image(k).save(d.join(n)).expect("bump texture");
    }
}

/// where the images of the edition have never been others
fn bumps() -> PathBuf {
    let d = scratch();
    let e = d.join(format!("edition {}", edition()));
    if !e.exists() {
        write_images(&e);
    }
    e
}

fn albedo(s: &Model, m: Option<usize>) -> Option<Textures> {
    // none: not one of the file's materials
    let m = &s.mats[m?];
    Some(match (m.map, m.kd) {
        (Some(k), _) => ImageMap::new(Arc::new(albedo_image(k as usize % ALBEDO.len()))),
        (None, Some(c)) => SolidColor::new(c[0] as f64 / 64., c[1] as f64 / 64., c[2] as f64 / 64.),
        (None, None) => SolidColor::new(1., 1., 1.),
    })
}

fn reference_material(s: &Model, m: Option<usize>) -> Materials {
    match m {
        None => s.default.as_ref().map_or_else(|| Lambertian::new(SolidColor::new(1., 1., 1.), None), |m| m.build()),
        Some(i) => {
            let bump = s.mats[i].bump.map(|b| load_normal_texture(&bumps().join(BUMP[b as usize % BUMP.len()]).to_string_lossy()).expect("bump texture"));
            Lambertian::new(albedo(s, m).unwrap(), bump)
        }
    }
}

fn triangles(p: &Part, m: &Materials, uv: bool, s: &Model) -> Vec<Hittables> {
    let tf = build_tf(&s.tf);
    let c = |i: usize| {
        let w = p.uv[i];
        (sv(p.corners[i]), if uv { Uv::new(w[0], w[1]) } else { Uv::default() })
    };
    (1..p.corners.len() - 1)
        .map(|i| {
            let (a, b, d) = (c(0), c(i), c(i + 1));
            Triangle::new_with_tex_coords(a.0, b.0, d.0, a.1, b.1, d.1, m.clone(), tf.as_ref())
        })
        .collect()
}

fn shown(m: &Materials, rec: &solstrale::material::RayHit, r: &RaySpec) -> V3 {
    let lights = [Sphere::new(sv([0., 1e4, 0.]), 1., DiffuseLight::new(1., 1., 1., None))];
    match m.scatter(&r.build(), rec, &lights) {
        RayScatter::ScatterPdf(s) => rv(s.color),
        RayScatter::ScatterBasic(s) => rv(s.color),
        RayScatter::ScatterEmission(s) => rv(s.color),
    }
}

fn check(s: &Model, obs: &mut Obs) -> Res {
    let dir = scratch();
    let parts = parts(s);
    let (obj, libs) = write_files(s, &parts);
    let name = ["model.obj", "mod el.OBJ", "m"][s.text as usize % 3];
    std::fs::write(dir.join(name), &obj).map_err(|e| e.to_string())?;
    for (i, l) in libs.iter().enumerate() {
        std::fs::write(dir.join(format!("lib{i}.mtl")), l).map_err(|e| e.to_string())?;
    }
    let path = format!("{}/", dir.to_string_lossy());
    let default = s.default.as_ref().map(|m| m.build());
    let world = match guard(|| ObjFile::new(&path, name).load(build_tf(&s.tf).as_ref(), default)) {
        Ok(Ok(w)) => w,
        Ok(Err(e)) => return Err(format!("a well-formed model is refused: {e}\n{obj}")),
        Err(e) => return Err(format!("loading a well-formed model: {e}\n{obj}")),
    };
    let any_vt = parts.iter().any(|p| p.note & 1 == 1);
    let k = scale_of(&s.tf);
    let mut rng = Rng(s.probes);
    let (mut default_triangles, mut normals) = (0, 0);
    let place = |p: V3| apply(&s.tf, p, false);
    let mut reach = 1f64;
    let axis = permute(s.perm, [0., 0., 1.]);
    let many = parts.len() > 60;
    for (i, p) in parts.iter().enumerate() {
        let named = if libs.is_empty() { None } else { p.mat };
        let m = reference_material(s, named);
        if named.is_none() {
            default_triangles += p.corners.len() - 2;
        }
        let has_uv = p.note & 1 == 1;
        let reference = Bvh::new(triangles(p, &m, has_uv, s));
        let rounds = if many { 1 } else { p.corners.len() * 2 };
        for _ in 0..rounds {
            let w: Vec<f64> = p.corners.iter().map(|_| rng.range(0.02, 1.).powi(2)).collect();
            let sum: f64 = w.iter().sum();
            let mut pt = [0.; 3];
            for (c, w) in p.corners.iter().zip(&w) {
                pt = add(pt, mul(*c, w / sum));
            }
            let side = if rng.next() % 2 == 0 { 1. } else { -1. };
            let q = place(pt);
            let o = place(add(pt, mul(axis, side * 12.)));
            reach = reach.max(len(o)).max(len(q));
            let r = RaySpec { o, d: mul(sub(q, o), rng.range(0.1, 2.)) };
            let Some(want) = reference.hit(&r.build(), &RAY_INTERVAL) else {
                // between two triangles of the reference's fan
                continue;
            };
            ensure!(dist(rv(want.hit_point), q) < 1e-6 * (reach + 1.), "harness: reference hit at {:?} instead of {q:?}", rv(want.hit_point));
            let Some(got) = world.hit(&r.build(), &RAY_INTERVAL) else {
                return Err(format!("face {i} is not there at {pt:?} (before the transformation)\n{obj}"));
            };
            let at = || format!("face {i} at {pt:?}\n{obj}\n{}", libs.join("\n---\n"));
            let tol = 1e-7 * (reach + 1.);
            ensure!(dist(rv(got.hit_point), q) < tol, "hit at {:?} instead of {q:?}: {}", rv(got.hit_point), at());
            ensure!(got.front_face == want.front_face, "front and back are swapped: {}", at());
            let uv_known = has_uv || !any_vt;
            if uv_known {
                let tol = if p.corners.len() == 3 { 1e-6 } else { 4e-6 };
                ensure!(
                    (got.uv.u - want.uv.u).abs() < tol * 10. && (got.uv.v - want.uv.v).abs() < tol * 10.,
                    "texture coordinate {:?} instead of {:?}: {}",
                    got.uv,
                    want.uv,
                    at()
                );
            }
            // which material
            ensure!(got.material.is_light() == m.is_light(), "the material is not the one named: {}", at());
            let textured = named.is_some_and(|i| s.mats[i].map.is_some());
            if uv_known || !textured {
                let c = shown(got.material, &got, &r);
                let want_c = match (albedo(s, named), &s.default) {
                    (Some(t), _) => rv(t.color(got.uv)),
                    (None, Some(Mat::Matte(c))) => *c,
                    (None, Some(Mat::Light(c, _))) => {
                        if want.front_face {
                            *c
                        } else {
                            [0.; 3]
                        }
                    }
                    _ => [1.; 3],
                };
                ensure!(dist(c, want_c) < 1e-6, "colour {c:?} instead of {want_c:?}: {}", at());
            }
            let bumped = named.is_some_and(|i| s.mats[i].bump.is_some());
            if bumped && has_uv {
                let w = rv(want.normal);
                let g = rv(got.normal);
                let coarse = p.corners.len() > 3;
                // a border of the map within rounding of the coordinate
                let near = coarse && (got.uv.u != want.uv.u || got.uv.v != want.uv.v) && dist(g, w) > 1e-3 && {
                    let t = |k: usize| load_normal_texture(&bumps().join(BUMP[k]).to_string_lossy()).expect("bump texture");
                    let t = t(s.mats[named.unwrap()].bump.unwrap() as usize % BUMP.len());
                    let c = |a: f32, b: f32| rv(t.color(Uv::new(want.uv.u + a, want.uv.v + b)));
                    [(1e-5, 0.), (-1e-5, 0.), (0., 1e-5), (0., -1e-5)].iter().any(|(a, b)| c(*a, *b) != c(0., 0.))
                };
                let degenerate = !finite3(w) || (p.corners.len() == 3 && {
                    let d = |i: usize| [(p.uv[i][0] - p.uv[0][0]) as f64, (p.uv[i][1] - p.uv[0][1]) as f64];
                    let (a, b) = (d(1), d(2));
                    (a[0] * b[1] - a[1] * b[0]).abs() < 1e-3
                });
                if !near && !degenerate {
                    ensure!(dist(g, w) < if coarse { 1e-3 } else { 1e-6 }, "shading normal {g:?} instead of {w:?}: {}", at());
                    normals += 1;
                }
            } else if !bumped {
                ensure!(dist(rv(got.normal), rv(want.normal)) < 1e-6, "normal {:?} instead of {:?}: {}", rv(got.normal), rv(want.normal), at());
            }
            // a single layer
            let beyond = solstrale::util::interval::Interval::new(got.ray_length * 1.0001, f64::INFINITY);
            ensure!(world.hit(&r.build(), &beyond).is_none(), "there is something behind face {i}\n{obj}");
        }
    }
    // nothing between the faces
    let gx = (s.faces.len() as f64).sqrt().ceil().max(1.);
    let reach_xy = 2. * gx;
    for j in 0..(if many { 60 } else { 6 + parts.len() * 2 }) {
        let line = 2. * (rng.next() % (gx as u64 + 1)) as f64 - 1. + rng.range(-0.1, 0.1);
        let free = rng.range(-2., reach_xy);
        let (x, y) = if j % 2 == 0 { (line, free) } else { (free, line) };
        let a = place(permute(s.perm, [x, y, 12.]));
        let b = place(permute(s.perm, [x, y, -12.]));
        let r = RaySpec { o: a, d: sub(b, a) };
        ensure!(world.hit(&r.build(), &RAY_INTERVAL).is_none(), "there is something between the faces at {x}, {y}\n{obj}");
    }
    let lights = world.get_lights().len();
    let want = if matches!(s.default, Some(Mat::Light(..))) { default_triangles } else { 0 };
    ensure!(lights == want, "{lights} lights instead of {want}\n{obj}");
    // what is bounded by the box of the model
    let bb = world.bounding_box();
    for p in &parts {
        for c in &p.corners {
            let q = rv(sv(place(*c)));
            let t = 1e-6 * (1. + reach);
            ensure!(
                bb.x.min <= q[0] + t && bb.x.max >= q[0] - t && bb.y.min <= q[1] + t && bb.y.max >= q[1] - t && bb.z.min <= q[2] + t && bb.z.max >= q[2] - t,
                "corner {q:?} is outside of the model's box"
            );
        }
    }
    obs.nontrivial_if(!parts.is_empty());
    obs.label(format!("layout {}", s.layout));
    obs.label(if libs.is_empty() { "no library".to_string() } else { format!("{} libraries", libs.len()) });
    if normals > 0 {
        obs.label("bump map compared");
    }
    if parts.iter().any(|p| p.corners.len() > 3) {
        obs.label("polygons");
    }
    if has_lines(s) {
        obs.label("lines or points among the faces");
    }
    if parts.iter().any(|p| p.negative) {
        obs.label("negative indices");
    }
    if parts.iter().any(|p| p.note != parts[0].note) {
        obs.label("mixed notations");
    }
    if s.mats.len() > 127 && !libs.is_empty() {
        obs.label("more than 127 materials");
    }
    if want > 0 {
        obs.label("glowing default");
    }
    if k != 1. {
        obs.label("scaled");
    }
    // an identical second load gives the same model
    if s.probes % 8 == 0 {
        let again = ObjFile::new(&path, name).load(&NopTransformer(), None).map_err(|e| format!("the second load fails: {e}"))?;
        for p in &parts {
            let mut c = [0.; 3];
            for (i, x) in p.corners.iter().enumerate() {
                c = add(c, mul(*x, (1. + 0.01 * i as f64) / p.corners.len() as f64 / (1. + 0.005 * (p.corners.len() - 1) as f64)));
            }
            let r = RaySpec { o: add(c, mul(axis, 9.)), d: neg(axis) };
            ensure!(again.hit(&r.build(), &RAY_INTERVAL).is_some(), "loading again without transformation loses the face at {c:?}\n{obj}");
        }
        obs.label("loaded twice");
    }
    Ok(())
}

/// one model after the other, the image files changing in between
fn check_changed(s: &Vec<(Model, usize)>, obs: &mut Obs) -> Res {
    let dir = scratch();
    let mut changed = false;
    let mut r = Ok(());
    let mut sub = Obs::default();
    for (i, (m, e)) in s.iter().enumerate() {
        if *e != edition() {
            EDITION.store(*e, Ordering::Relaxed);
            write_images(&dir);
            changed |= i > 0;
        }
        r = check(m, &mut sub).map_err(|t| format!("load {} of {}, after the image files changed: {t}", i + 1, s.len()));
        if r.is_err() {
            break;
        }
    }
    if edition() != 0 {
        EDITION.store(0, Ordering::Relaxed);
        write_images(&dir);
    }
    r?;
    obs.nontrivial_if(changed && s.iter().filter(|(m, _)| m.libs > 0 && m.mats.iter().any(|m| m.map.is_some() || m.bump.is_some())).count() > 1);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Large {
    salt: u64,
    faces: u32,
    mats: u32,
    layout: u8,
    text: u32,
    tf: Vec<Tf>,
    default: Option<Mat>,
}

/// models with more vertices than 16 bits can count
fn check_large(l: &Large, obs: &mut Obs) -> Res {
    let mut r = Rng(l.salt);
    let mats = (0..l.mats)
        .map(|_| MatSpec { kd: Some([r.next() as u8 % 65, r.next() as u8 % 65, r.next() as u8 % 65]), map: None, bump: None, form: r.next() as u32 })
        .collect();
    // one object with nearly all of the faces, or many small ones
    let one = l.mats < 10;
    let faces = (0..l.faces)
        .map(|i| Face {
            salt: r.next(),
            k: if r.next() % 4 == 0 { 4 } else { 3 },
            mat: if one {
                Some(if i + 500 < l.faces { 0 } else { i % l.mats } as u16)
            } else if r.next() % 50 == 0 {
                None
            } else {
                Some((i / 8 % l.mats) as u16)
            },
            note: r.next() as u8 % 4,
            negative: r.next() % 4 == 0,
            sep: if one { 2 + r.next() as u8 % 3 } else { r.next() as u8 % 40 },
            chord: false,
        })
        .collect();
    let m = Model { mats, libs: 2, faces, layout: l.layout, text: l.text, perm: r.next() as u8 % 6, tf: l.tf.clone(), default: l.default.clone(), probes: r.next() };
    let e = check(&m, obs);
    // the text of such a model is no help
    e.map_err(|m| m.chars().take(400).collect())
}

fn main() {
    run_main(
        "P27",
        || {
            vec![
                facet("model", "at least one face", 60_000, 600_000, model(0..6, 0..14, false), check),
                facet("triangles", "at least one face", 10_000, 200_000, model(1..5, 1..30, true), check),
                facet(
                    "changed images",
                    "image files that change between loads of models that use some",
                    4_000,
                    30_000,
                    prop::collection::vec((model(1..4, 1..8, false), 0usize..3), 2..5),
                    check_changed,
                ),
                facet("many materials", "at least one face", 900, 9_000, model(100..420, 60..420, false), check),
                facet(
                    "large",
                    "at least one face",
                    40,
                    400,
                    (any::<u64>(), 21_000u32..26_000, prop_oneof![1u32..4, 300u32..3000], 0u8..2, any::<u32>(), tfs(2, false), default_mat())
                        .prop_map(|(salt, faces, mats, layout, text, tf, default)| Large { salt, faces, mats, layout, text, tf, default }),
                    check_large,
                ),
            ]
        },
        &[
            "polygons are convex and planar",
            "texture coordinates of faces that give none in a file that has some for other faces are not judged",
            "texture file names are relative to the path given",
        ],
    )
}
