//! P28: unusable model files are reported as errors, never as crashes.
use harness::ensure;
use harness::fw::*;
use harness::geo::*;
use harness::scene::*;
use harness::spec::*;
use image::{ImageFormat, Rgb, RgbImage};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solstrale::hittable::{Bvh, Hittable, Hittables, Sphere};
use solstrale::loader::obj::Obj as ObjFile;
use solstrale::loader::Loader;
use solstrale::material::DiffuseLight;
use solstrale::renderer::shader::{AlbedoShader, NormalShader, PathTracingShader};
use solstrale::renderer::RenderImageStrategy;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

fn scratch() -> PathBuf {
    let base = std::env::var("VERIF_RUN").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
    let d = base.join(format!("p28-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&d);
    d
}

fn clear(p: &Path) {
    let _ = std::fs::remove_file(p);
    let _ = std::fs::remove_dir(p);
}

fn put(p: &Path, b: &[u8]) -> Res {
    clear(p);
    std::fs::write(p, b).map_err(|e| format!("harness cannot write {}: {e}", p.display()))
}

/// places the model in a scene and looks at it from everywhere
fn use_model(world: Hittables, salt: u64, image: bool) -> Result<usize, String> {
    let mut hits = 0;
    let _ = world.get_lights();
    let _ = world.bounding_box();
    let light = Sphere::new(sv([0., 50., 0.]), 2., DiffuseLight::new(3., 3., 3., None));
    let all = Bvh::new(vec![world.clone(), light]);
    let lab = Lab::tracing(all.clone(), [0.1; 3], 4)?;
    let f = |k: u64| (mix(salt ^ k.wrapping_mul(0x9e37)) >> 11) as f64 / (1u64 << 53) as f64 * 2. - 1.;
    for k in 0..14u64 {
        let o = [f(k * 10) * 5., f(k * 10 + 1) * 5., f(k * 10 + 2) * 5.];
        let target = if k % 2 == 0 { [f(k * 10 + 3) * 1.5, f(k * 10 + 4) * 1.5, f(k * 10 + 5) * 1.5] } else { [0.25, 0.25, 0.] };
        let r = RaySpec { o, d: sub(target, o) };
        hits += usize::from(world.hit(&r.build(), &solstrale::util::interval::RAY_INTERVAL).is_some());
        let _ = lab.see(&r);
    }
    // straight onto the plane most faces are in
    for k in 0..8u64 {
        let p = [f(k + 900), f(k + 950), 0.];
        let r = RaySpec { o: add(p, [0., 0., 3.]), d: [0., 0., -1.] };
        hits += usize::from(world.hit(&r.build(), &solstrale::util::interval::RAY_INTERVAL).is_some());
        let _ = lab.see(&r);
    }
    if image {
        for shader in [PathTracingShader::new(3), AlbedoShader::new(), NormalShader::new()] {
            let shot = Shot {
                world: all.clone(),
                camera: solstrale::camera::CameraConfig { look_from: sv([0.3, 0.2, 4.]), look_at: sv([0.2, 0.2, 0.]), ..Default::default() },
                bg: [0.2; 3],
                shader,
                w: 4,
                h: 3,
                samples: 1,
                post: vec![],
                strategy: RenderImageStrategy::OnlyFinal,
            };
            shot.run()?;
        }
    }
    Ok(hits)
}

enum Outcome {
    Loaded(usize),
    Refused(String),
}

fn load(dir: &Path, name: &str, salt: u64) -> Result<Outcome, String> {
    let path = format!("{}/", dir.to_string_lossy());
    let tf = build_tf(&if salt % 3 == 0 { vec![Tf::Scale(2.), Tf::RotX(10.), Tf::Move([0., 1., 0.])] } else { vec![] });
    match guard(|| ObjFile::new(&path, name).load(tf.as_ref(), None).map_err(|e| e.to_string())) {
        Err(p) => Err(format!("loading: {p}")),
        Ok(Err(e)) => Ok(Outcome::Refused(e)),
        Ok(Ok(w)) => match guard(|| use_model(w, salt, salt % 16 == 0)) {
            Ok(r) => r.map(Outcome::Loaded),
            Err(p) => Err(format!("using the loaded model: {p}")),
        },
    }
}

// ------------------------------------------------------------ faults at known places

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum FileState {
    Good,
    Missing,
    Dir,
    Garbage,
    Empty,
    Cut,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tex {
    state: FileState,
    format: u8,
    /// used as colour or as bump map
    bump: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lib {
    state: FileState,
    /// the textures of each material: none, a colour, a bump map, or both
    mats: Vec<Vec<Tex>>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Faults {
    model: FileState,
    bad_line: Option<(u8, u8)>,
    libs: Vec<Lib>,
    /// the library statement stands behind the faces instead of before them
    late: bool,
    salt: u64,
}

fn state(bad: u32) -> BoxedStrategy<FileState> {
    use FileState::*;
    prop_oneof![
        20 => Just(Good),
        bad => prop_oneof![Just(Missing), Just(Dir), Just(Garbage), Just(Empty), Just(Cut)],
    ]
    .boxed()
}

fn faults() -> BoxedStrategy<Faults> {
    let tex = (state(4), 0u8..6, any::<bool>()).prop_map(|(state, format, bump)| Tex { state, format, bump });
    let lib = (state(8), prop::collection::vec(prop::collection::vec(tex, 0..3), 0..4)).prop_map(|(state, mut mats)| {
        for m in mats.iter_mut().filter(|m| m.len() == 2) {
            m[1].bump = !m[0].bump;
        }
        Lib { state, mats }
    });
    (
        state(1),
        prop::option::weighted(0.1, (0u8..BAD_LINES.len() as u8, any::<u8>())),
        prop::collection::vec(lib, 0..4),
        prop::bool::weighted(0.15),
        any::<u64>(),
    )
        .prop_map(|(model, bad_line, libs, late, salt)| Faults { model, bad_line, libs, late, salt })
        .boxed()
}

const BAD_LINES: [&str; 16] = [
    "v 1 2", "v 1 b 3", "v", "f 1 2 99", "f 1 2 -99", "f 1/7 2/7 3/7", "f a b c", "f 1/2/3/4 1 2", "vt 1", "vn 1 2", "usemtl", "f 1//9 2//9 3//9",
    "v 1,5 2 3", "f", "f 0 1 2", "v 1 2 3 0",
];

const GARBAGE_LIBS: [&str; 7] = ["newmtl", "newmtl a\nKd 1 x 2\n", "newmtl a\nNs\n", "newmtl a\nmap_Kd\n", "newmtl a\nillum zwei\n", "newmtl a\nd a\n", "newmtl a\nbump\n"];

fn sample_image(w: u32, h: u32) -> RgbImage {
    RgbImage::from_fn(w, h, |x, y| Rgb([(x * 31 + y * 7) as u8, (y * 53) as u8, mix((x ^ y << 4) as u64) as u8]))
}

const FORMATS: [(ImageFormat, &str); 9] = [
    (ImageFormat::Png, "png"),
    (ImageFormat::Bmp, "bmp"),
    (ImageFormat::Tiff, "tif"),
    (ImageFormat::Qoi, "qoi"),
    (ImageFormat::Gif, "gif"),
    (ImageFormat::Jpeg, "jpg"),
    (ImageFormat::Pnm, "ppm"),
    (ImageFormat::Farbfeld, "ff"),
    (ImageFormat::Tga, "tga"),
];

fn encode(img: &RgbImage, f: ImageFormat) -> Vec<u8> {
    let mut bytes = std::io::Cursor::new(vec![]);
    let d = image::DynamicImage::ImageRgb8(img.clone());
    let r = if f == ImageFormat::Farbfeld { image::DynamicImage::ImageRgba16(d.to_rgba16()).write_to(&mut bytes, f) } else { d.write_to(&mut bytes, f) };
    r.expect("encoding an image");
    bytes.into_inner()
}

fn check_faults(s: &Faults, obs: &mut Obs) -> Res {
    use FileState::*;
    let dir = scratch().join("faults");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let name = ["m.obj", "my model.obj", "\u{e5}.OBJ"][s.salt as usize % 3];
    let mut broken_libs: Vec<String> = vec![];
    let mut broken_tex: Vec<String> = vec![];
    let mut uncertain = false;
    let mut libs_text = String::new();
    let mut uses = vec![];
    for (i, l) in s.libs.iter().enumerate() {
        let file = format!("lib{i}.mtl");
        libs_text.push_str(&format!("mtllib {file}\n"));
        let mut t = String::new();
        let mut tex_here: Vec<String> = vec![];
        for (j, m) in l.mats.iter().enumerate() {
            t.push_str(&format!("newmtl m{i}_{j}\nKd 0.5 0.5 0.5\n"));
            uses.push(format!("m{i}_{j}"));
            for (k, m) in m.iter().enumerate() {
                let (fmt, ext) = FORMATS[m.format as usize];
                let tf = format!("{}{i}_{j}{}.{ext}", ["t", "100%t", "my t", "t&\u{e9}", "t"][(s.salt >> 16) as usize % 5], ["", "b"][k]);
                t.push_str(&format!("{} {tf}\n", if m.bump { "map_Bump" } else { "map_Kd" }));
                let p = dir.join(&tf);
                let bytes = encode(&sample_image(5, 4), fmt);
                match m.state {
                    Good => put(&p, &bytes)?,
                    Missing => {}
                    Dir => std::fs::create_dir(&p).map_err(|e| e.to_string())?,
                    Garbage => put(&p, b"this is not an image at all, only text that goes on for a while")?,
                    Empty => put(&p, b"")?,
                    Cut => put(&p, &bytes[..6])?,
                }
                if m.state != Good {
                    tex_here.push(tf);
                }
            }
        }
        let p = dir.join(&file);
        match l.state {
            Good => put(&p, t.as_bytes())?,
            Empty => put(&p, b"")?,
            Missing => {}
            Dir => std::fs::create_dir(&p).map_err(|e| e.to_string())?,
            Garbage => put(&p, format!("{}{}", t, GARBAGE_LIBS[(s.salt >> 8) as usize % GARBAGE_LIBS.len()]).as_bytes())?,
            Cut => put(&p, &[b"newmtl a\nKd 1 1 1\n".as_slice(), &[0xff, 0xfe, 0x80, b'\n']].concat())?,
        }
        if !matches!(l.state, Good | Empty) {
            broken_libs.push(file);
        } else if l.state == Good {
            broken_tex.extend(tex_here);
        }
    }
    let mut t = String::new();
    if !s.late {
        t.push_str(&libs_text);
    }
    t.push_str("v 0 0 0\nv 1 0 0\nv 0 1 0\nvt 0 0\nvt 1 0\nvt 0 1\nvn 0 0 1\n");
    let bad = s.bad_line.map(|(k, pos)| (BAD_LINES[k as usize], pos as usize % (uses.len() + 1)));
    let mut i = 0;
    loop {
        if let Some((b, pos)) = bad {
            if pos == i {
                t.push_str(b);
                t.push('\n');
            }
        }
        if i == uses.len() {
            break;
        }
        t.push_str(&format!("usemtl {}\nf 1/1 2/2 3/3\n", uses[i]));
        i += 1;
    }
    t.push_str("f 1/1/1 2/2/1 3/3/1\n");
    if s.late {
        t.push_str(&libs_text);
    }
    let p = dir.join(name);
    let mut model_broken = bad.is_some();
    match s.model {
        Good => put(&p, t.as_bytes())?,
        Missing => model_broken = true,
        Dir => {
            std::fs::create_dir(&p).map_err(|e| e.to_string())?;
            model_broken = true;
        }
        Empty => {
            put(&p, b"")?;
            // nothing in it refers to anything
            broken_libs.clear();
            broken_tex.clear();
            model_broken = false;
        }
        Garbage => {
            put(&p, &[t.as_bytes(), &[0xc3, 0x28, 0xff, b'\n']].concat())?;
            model_broken = true;
        }
        Cut => {
            let n = s.salt as usize % t.len();
            put(&p, &t.as_bytes()[..n])?;
            uncertain = true;
        }
    }
    let full = format!("{}/{name}", dir.to_string_lossy());
    let out = load(&dir, name, s.salt)?;
    let faulty = model_broken || !broken_libs.is_empty() || !broken_tex.is_empty();
    if uncertain {
        obs.label("cut model");
        if let Outcome::Refused(e) = &out {
            ensure!(e.contains(&full) || broken_tex.iter().any(|t| e.contains(t.as_str())), "the error does not say what file is to blame: {e}");
        }
        return Ok(());
    }
    obs.nontrivial_if(faulty);
    match (&out, faulty) {
        (Outcome::Loaded(_), false) => obs.label("loaded"),
        (Outcome::Refused(_), true) => {}
        (Outcome::Refused(e), false) => return Err(format!("nothing is wrong, but the model is refused: {e}\n{t}")),
        (Outcome::Loaded(_), true) => {
            return Err(format!("the model loads although something is wrong (model: {model_broken}, libraries {broken_libs:?}, textures {broken_tex:?})\n{t}"))
        }
    }
    if let Outcome::Refused(e) = &out {
        let names_model = e.contains(&full);
        let named_lib = broken_libs.iter().any(|l| e.contains(l.as_str()));
        let named_tex = broken_tex.iter().any(|t| e.contains(t.as_str()));
        let mtl = e.to_lowercase().contains("mtl ") || e.to_lowercase().contains("material");
        match (model_broken, !broken_libs.is_empty(), !broken_tex.is_empty()) {
            (true, false, false) => {
                obs.label("broken model");
                ensure!(names_model, "the error does not name the model: {e}");
            }
            (false, true, false) => {
                obs.label("broken library");
                if broken_libs.len() < s.libs.len() {
                    obs.label("one of several libraries broken");
                }
                ensure!(named_lib || (names_model && mtl), "the error does not name the material library: {e}");
            }
            (false, false, true) => {
                obs.label("broken texture");
                ensure!(named_tex, "the error does not name the texture ({broken_tex:?}): {e}");
            }
            _ => {
                obs.label("several causes");
                ensure!(names_model || named_lib || named_tex, "the error names none of the causes: {e}");
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------ statement soup

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Soup {
    obj: Vec<String>,
    mtl: Vec<String>,
    salt: u64,
}

fn number() -> BoxedStrategy<String> {
    prop_oneof![
        8 => (-3i32..4).prop_map(|i| i.to_string()),
        6 => (-2.0..2.0f32).prop_map(|x| x.to_string()),
        2 => prop::sample::select(vec!["nan", "inf", "-inf", "1e39", "-0", "1e-46", "1e30", "-1e30", "3.4e38", "infinity", ".5", "5.", "+1", "1e-20", "1e19"]).prop_map(String::from),
        1 => prop::sample::select(vec!["abc", "0x1", "1,5", "--1", "1/2", "\u{e5}", "1e", "#"]).prop_map(String::from),
    ]
    .boxed()
}

fn good_number() -> BoxedStrategy<String> {
    prop_oneof![
        6 => (-2i32..3).prop_map(|i| i.to_string()),
        2 => (-2.0..2.0f32).prop_map(|x| x.to_string()),
        1 => prop::sample::select(vec!["nan", "inf", "-inf", "1e39", "-0", "1e-46", "1e30", "-1e30", "3.4e38", "1e-20", "1e19", "1e-30"]).prop_map(String::from),
    ]
    .boxed()
}

fn index() -> BoxedStrategy<String> {
    let i = || prop_oneof![6 => (1i32..6).prop_map(|i| i.to_string()), 2 => (-5i32..0).prop_map(|i| i.to_string())];
    prop_oneof![
        5 => i(),
        4 => (i(), i()).prop_map(|(a, b)| format!("{a}/{b}")),
        2 => (i(), i()).prop_map(|(a, b)| format!("{a}//{b}")),
        2 => (i(), i(), i()).prop_map(|(a, b, c)| format!("{a}/{b}/{c}")),
    ]
    .boxed()
}

fn wild_index() -> BoxedStrategy<String> {
    prop_oneof![
        8 => index(),
        1 => prop::sample::select(vec![
            "0", "99", "-99", "99999999999999999999", "18446744073709551615", "9223372036854775807", "-9223372036854775808", "1/2/3/4", "/1", "1/", "//", "1//",
            "1/6148914691236517207", "1//6148914691236517206", "4294967296", "4294967297", "1/4294967297/1", "2147483649", "6148914691236517206", "/", "-0", "1/0", "1/0/0", "1/-9", "1/-9223372036854775808",
        ]).prop_map(String::from),
    ]
    .boxed()
}

fn joined(word: &'static str, s: BoxedStrategy<String>, n: std::ops::Range<usize>) -> BoxedStrategy<String> {
    prop::collection::vec(s, n).prop_map(move |w| format!("{word} {}", w.join(" "))).boxed()
}

fn name() -> BoxedStrategy<String> {
    prop::sample::select(vec!["a", "b", "c d", "", "e"]).prop_map(String::from).boxed()
}

fn obj_line(wild: bool) -> BoxedStrategy<String> {
    let num = if wild { number() } else { good_number() };
    let idx = if wild { wild_index() } else { index() };
    let faces = prop_oneof![
        6 => joined("f", idx.clone(), 3..4),
        2 => joined("f", idx.clone(), 4..8),
        1 => joined("f", idx.clone(), 1..3),
        1 => joined("l", idx.clone(), 1..5),
        1 => joined("p", idx.clone(), 1..3),
    ];
    let plain = prop_oneof![
        6 => joined("v", num.clone(), 3..4),
        1 => joined("v", num.clone(), 4..5),
        2 => joined("vt", num.clone(), 2..4),
        1 => joined("vn", num.clone(), 3..4),
        8 => faces,
        1 => name().prop_map(|n| format!("o {n}")),
        1 => name().prop_map(|n| format!("g {n}")),
        1 => name().prop_map(|n| format!("usemtl {}", if n.is_empty() { "a" } else { n.as_str() })),
        1 => Just("s 1".to_string()),
        1 => Just("# comment".to_string()),
    ];
    if wild {
        prop_oneof![
            20 => plain,
            1 => joined("v", num.clone(), 0..8),
            1 => joined("f", idx, 0..1),
            1 => Just("usemtl".to_string()),
            1 => Just("mtllib".to_string()),
            1 => Just("mtllib missing.mtl".to_string()),
            1 => Just("o".to_string()),
            1 => Just("vp 1 2\ncurv 0 1 1 2\nend".to_string()),
            1 => "[ -~]{0,20}",
        ]
        .boxed()
    } else {
        plain.boxed()
    }
}

fn mtl_line(wild: bool) -> BoxedStrategy<String> {
    let num = if wild { number() } else { good_number() };
    let plain = prop_oneof![
        5 => name().prop_map(|n| format!("newmtl {}", if n.is_empty() { "a" } else { n.as_str() })),
        5 => joined("Kd", num.clone(), 3..5),
        2 => joined("Ks", num.clone(), 3..4),
        1 => joined("Ns", num.clone(), 1..2),
        1 => joined("d", num.clone(), 1..2),
        1 => Just("illum 2".to_string()),
        1 => Just("map_Kd tex.png".to_string()),
        1 => Just("bump nrm.png".to_string()),
    ];
    if wild {
        prop_oneof![
            16 => plain,
            1 => joined("Kd", num.clone(), 0..3),
            1 => joined("Ka", num.clone(), 0..3),
            1 => joined("Ke", num, 0..3),
            1 => Just("map_Kd".to_string()),
            1 => Just("map_Kd none.png".to_string()),
            1 => Just("newmtl".to_string()),
            1 => Just("illum".to_string()),
            1 => Just("map_Kd -s 1 1 1 tex.png".to_string()),
            1 => "[ -~]{0,20}",
        ]
        .boxed()
    } else {
        plain.boxed()
    }
}

fn soup(wild: bool) -> BoxedStrategy<Soup> {
    let head = prop::collection::vec(joined("v", if wild { number() } else { good_number() }, 3..4), 5..7);
    let tex = prop::collection::vec(joined("vt", if wild { number() } else { good_number() }, 2..3), 5..6);
    let tex = (tex, any::<bool>()).prop_map(|(t, b)| if b { t } else { vec![] });
    (head, tex, prop::collection::vec(obj_line(wild), 0..25), prop::collection::vec(mtl_line(wild), 0..12), any::<bool>(), any::<u64>())
        .prop_map(|(h, t, l, mtl, lib, salt)| {
            let mut obj = vec![];
            if lib {
                obj.push("mtllib lib.mtl".to_string());
            }
            obj.extend(h);
            obj.extend(t);
            obj.extend(l);
            Soup { obj, mtl, salt }
        })
        .boxed()
}

/// a colour statement with fewer than three numbers, on which the parser library panics
fn short_color(mtl: &[u8]) -> bool {
    String::from_utf8_lossy(mtl).lines().any(|l| {
        let w: Vec<&str> = l.split_whitespace().collect();
        matches!(w.first(), Some(&"Kd") | Some(&"Ka") | Some(&"Ks") | Some(&"Ke")) && w.len() < 4
    })
}

/// an index so large that the parser library's arithmetic with it wraps around
fn vast_index(obj: &[u8]) -> bool {
    String::from_utf8_lossy(obj)
        .lines()
        .filter(|l| matches!(l.split_whitespace().next(), Some("f") | Some("l")))
        .any(|l| l.split(|c: char| c == '/' || c.is_whitespace()).any(|w| w.parse::<i128>().is_ok_and(|x| x.abs() >= 1 << 61)))
}

fn judge(dir: &Path, name: &str, obj: &[u8], mtl: &[u8], salt: u64, obs: &mut Obs) -> Result<bool, String> {
    let full = format!("{}/{name}", dir.to_string_lossy());
    match load(dir, name, salt) {
        Err(e) if e.contains("tobj") && e.contains("unwrap") && short_color(mtl) => {
            obs.known_finding("mtl-short-color");
            Ok(false)
        }
        Err(e) if e.contains("tobj") && e.contains("index out of bounds") && vast_index(obj) => {
            obs.known_finding("obj-vast-index");
            Ok(false)
        }
        Err(e) => Err(e),
        Ok(Outcome::Loaded(hits)) => {
            obs.label(if hits > 0 { "loaded and hit" } else { "loaded" });
            Ok(hits > 0)
        }
        Ok(Outcome::Refused(e)) => {
            obs.label("refused");
            let named = e.contains(&full) || (e.contains("texture") && e.contains(&*dir.to_string_lossy()));
            ensure!(named, "the error does not name the file that is to blame: {e}");
            Ok(true)
        }
    }
}

fn textures(dir: &Path) -> Res {
    if !dir.join("nrm.png").exists() {
        std::fs::create_dir_all(dir).map_err(|e| e.to_string())?;
        put(&dir.join("tex.png"), &encode(&sample_image(6, 5), ImageFormat::Png))?;
        put(&dir.join("nrm.png"), &encode(&RgbImage::from_pixel(3, 3, Rgb([200, 128, 210])), ImageFormat::Png))?;
    }
    Ok(())
}

fn check_soup(s: &Soup, obs: &mut Obs) -> Res {
    let dir = scratch().join("soup");
    textures(&dir)?;
    let mtl = s.mtl.join("\n");
    let obj = s.obj.join("\n");
    put(&dir.join("s.obj"), obj.as_bytes())?;
    put(&dir.join("lib.mtl"), mtl.as_bytes())?;
    let nt = judge(&dir, "s.obj", obj.as_bytes(), mtl.as_bytes(), s.salt, obs).map_err(|e| format!("{e}\n{obj}\n---\n{mtl}"))?;
    obs.nontrivial_if(nt);
    Ok(())
}

// ------------------------------------------------------------ damaged bytes

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Edit {
    Flip(u16, u8),
    Insert(u16, Vec<u8>),
    Delete(u16, u8),
    Copy(u16, u16, u8),
    Cut(u16),
}

fn edit() -> BoxedStrategy<Edit> {
    let piece = prop_oneof![
        2 => prop::collection::vec(any::<u8>(), 1..5),
        3 => prop::sample::select(vec!["/", " ", "-", "\n", "f ", "v ", "0", "9", "e", ".", "\t", "\r", "usemtl b", "nan", "mtllib x.mtl\n", "newmtl q\n", "Kd 1 1\n", "\\\n"]).prop_map(|s| s.as_bytes().to_vec()),
    ];
    prop_oneof![
        4 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Edit::Flip(a, b | 1)),
        3 => (any::<u16>(), piece).prop_map(|(a, b)| Edit::Insert(a, b)),
        2 => (any::<u16>(), 0u8..12).prop_map(|(a, b)| Edit::Delete(a, b)),
        2 => (any::<u16>(), any::<u16>(), 0u8..40).prop_map(|(a, b, n)| Edit::Copy(a, b, n)),
        1 => any::<u16>().prop_map(Edit::Cut),
    ]
    .boxed()
}

fn apply_edits(b: &[u8], e: &[Edit]) -> Vec<u8> {
    let mut b = b.to_vec();
    for e in e {
        if b.is_empty() {
            break;
        }
        let n = b.len();
        match e {
            Edit::Flip(p, x) => b[*p as usize % n] ^= x,
            Edit::Insert(p, x) => {
                let p = *p as usize % (n + 1);
                b.splice(p..p, x.iter().copied());
            }
            Edit::Delete(p, k) => {
                let p = *p as usize % n;
                b.drain(p..(p + *k as usize).min(n));
            }
            Edit::Copy(p, q, k) => {
                let p = *p as usize % n;
                let part = b[p..(p + *k as usize).min(n)].to_vec();
                let q = *q as usize % (n + 1);
                b.splice(q..q, part);
            }
            Edit::Cut(p) => b.truncate(*p as usize % n),
        }
    }
    b
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Damage {
    base: u8,
    obj: Vec<Edit>,
    mtl: Vec<Edit>,
    salt: u64,
}

const OBJS: [&str; 3] = [
    "mtllib lib.mtl\nv 0 0 0\nv 1 0 0\nv 0 1 0\nv 1 1 0\nvt 0 0\nvt 1 0\nvt 0 1\nvt 1 1\nvn 0 0 1\no one\nusemtl a\nf 1/1/1 2/2/1 4/4/1 3/3/1\nusemtl b\nf -1//1 -2//1 -3//1\n",
    "# box\nmtllib lib.mtl\no box\nv -0.5 -0.5 0.25\nv 0.5 -0.5 0.25\nv 0.5 0.5 0.25\nv -0.5 0.5 0.25\nv -1 1 1\ng side\nusemtl b\nf 1 2 3 4\nf 1 2 5\ns off\ng\nusemtl a\nf 3 4 5\n",
    "v 1.0 0 0 1\nvt .25 .75 0\nv 0 1 0 1\nvt .5 .5\nv 0 0 1 1\nvt 1 0\nf -3/-3 -2/-2 -1/-1\nmtllib lib.mtl\nusemtl c d\nf 1/1 3/3 2/2\nl 1 2\n",
];
const LIB: &str = "newmtl a\nKa 1 1 1\nKd 0.8 0.2 0.1\nmap_Kd tex.png\nillum 2\nNs 10\nnewmtl b\nKd 0.1 0.2 0.3\nbump nrm.png\nd 1\nnewmtl c d\nKd 0 1 0\n";

fn damage() -> BoxedStrategy<Damage> {
    (0u8..3, prop::collection::vec(edit(), 0..3), prop::collection::vec(edit(), 0..3), any::<u64>())
        .prop_map(|(base, obj, mtl, salt)| Damage { base, obj, mtl, salt })
        .boxed()
}

fn check_damage(s: &Damage, obs: &mut Obs) -> Res {
    let dir = scratch().join("damage");
    textures(&dir)?;
    let obj = apply_edits(OBJS[s.base as usize].as_bytes(), &s.obj);
    let mtl = apply_edits(LIB.as_bytes(), &s.mtl);
    put(&dir.join("d.obj"), &obj)?;
    put(&dir.join("lib.mtl"), &mtl)?;
    let nt = judge(&dir, "d.obj", &obj, &mtl, s.salt, obs)
        .map_err(|e| format!("{e}\n{}\n---\n{}", String::from_utf8_lossy(&obj), String::from_utf8_lossy(&mtl)))?;
    obs.nontrivial_if(nt && !(s.obj.is_empty() && s.mtl.is_empty()));
    Ok(())
}

// ------------------------------------------------------------ damaged textures

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Picture {
    format: u8,
    size: [u8; 2],
    edits: Vec<Edit>,
    /// new values for the width or height field of the file
    resize: Option<(bool, u32)>,
    bump: bool,
    name: u8,
    salt: u64,
}

fn picture() -> BoxedStrategy<Picture> {
    (
        0u8..FORMATS.len() as u8 + 1,
        [1u8..20, 1u8..20],
        prop::collection::vec(edit(), 0..3),
        prop::option::weighted(0.3, (any::<bool>(), prop_oneof![3 => Just(0u32), 2 => 1u32..300, 1 => Just(60_000u32), 1 => Just(0x7fff_ffff), 1 => any::<u32>()])),
        any::<bool>(),
        0u8..4,
        any::<u64>(),
    )
        .prop_map(|(format, size, edits, resize, bump, name, salt)| Picture { format, size, edits, resize, bump, name, salt })
        .boxed()
}

/// replaces the width or height in the file's header
fn resize(b: &mut Vec<u8>, fmt: ImageFormat, height: bool, v: u32) {
    let k = usize::from(height);
    let mut set = |p: usize, x: &[u8]| {
        if b.len() >= p + x.len() {
            b[p..p + x.len()].copy_from_slice(x);
        }
    };
    match fmt {
        ImageFormat::Png => {
            set(16 + 4 * k, &v.to_be_bytes());
            // checksum of the header chunk
            let mut c = 0xffff_ffffu32;
            for x in &b[12..29] {
                c ^= *x as u32;
                for _ in 0..8 {
                    c = if c & 1 == 1 { (c >> 1) ^ 0xedb8_8320 } else { c >> 1 };
                }
            }
            let c = (!c).to_be_bytes();
            b[29..33].copy_from_slice(&c);
        }
        ImageFormat::Bmp => set(18 + 4 * k, &v.to_le_bytes()),
        ImageFormat::Qoi => set(4 + 4 * k, &v.to_be_bytes()),
        ImageFormat::Farbfeld => set(8 + 4 * k, &v.to_be_bytes()),
        ImageFormat::Gif => {
            set(6 + 2 * k, &(v as u16).to_le_bytes());
        }
        ImageFormat::Tga => set(12 + 2 * k, &(v as u16).to_le_bytes()),
        ImageFormat::Pnm => {
            // "P6\n5 4\n255\n"
            let head: Vec<u8> = b.iter().copied().take_while({
                let mut lines = 0;
                move |c| {
                    let go = lines < 3;
                    lines += usize::from(*c == b'\n');
                    go
                }
            }).collect();
            let t = String::from_utf8_lossy(&head).to_string();
            let mut w: Vec<String> = t.split_whitespace().map(String::from).collect();
            if w.len() >= 4 {
                w[1 + k] = v.to_string();
                let rest = b[head.len()..].to_vec();
                *b = [format!("{}\n{} {}\n{}\n", w[0], w[1], w[2], w[3]).as_bytes(), &rest].concat();
            }
        }
        _ => {}
    }
}

/// loads the model of the directory and compares with what the image library says of the texture; a line of
/// words for the classes of the case, or what is wrong
fn examine(dir: &Path, tex: &str, fmt: &str, salt: u64) -> Result<String, String> {
    let full = dir.join(tex);
    let decoded = guard(|| {
        let mut r = image::ImageReader::open(&full).ok()?.with_guessed_format().ok()?;
        r.no_limits();
        r.decode().ok().map(|i| i.into_rgb8())
    });
    match load(dir, "p.obj", salt) {
        Err(e) if decoded.as_ref().is_err_and(|d| e.contains(d.as_str())) => Ok("decoder-panic".into()),
        Err(e) => Err(format!("with a {fmt} texture: {e}")),
        Ok(Outcome::Refused(e)) => {
            ensure!(e.contains(&*full.to_string_lossy()), "the error does not name the texture: {e}");
            ensure!(!matches!(&decoded, Ok(Some(i)) if i.width() > 0 && i.height() > 0), "a readable {fmt} texture is refused: {e}");
            Ok("refused".into())
        }
        Ok(Outcome::Loaded(_)) => {
            ensure!(matches!(decoded, Ok(Some(_))), "a {fmt} texture that cannot be read is dropped silently");
            Ok("loaded".into())
        }
    }
}

fn run_child(dir: &Path, tex: &str, fmt: &str, salt: u64) -> Result<String, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let o = Command::new(exe)
        .arg("examine")
        .arg(dir)
        .arg(tex)
        .arg(fmt)
        .arg(salt.to_string())
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .output()
        .map_err(|e| format!("harness cannot start a child: {e}"))?;
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    let err = String::from_utf8_lossy(&o.stderr).to_string();
    match (o.status.code(), o.status.signal()) {
        (Some(0), _) => Ok(out),
        (Some(11), _) if out.contains("capacity overflow") => Ok("out-of-memory".into()),
        (Some(11), _) => Err(out),
        (_, Some(6)) if err.contains("memory allocation of") => Ok("out-of-memory".into()),
        (c, s) => Err(format!("loading a {fmt} texture ends the process: code {c:?}, signal {s:?}: {out} {err}")),
    }
}

fn child_main(a: &[String]) -> i32 {
    match examine(Path::new(&a[0]), &a[1], &a[2], a[3].parse().unwrap_or(0)) {
        Ok(t) => {
            print!("{t}");
            0
        }
        Err(e) => {
            print!("{e}");
            11
        }
    }
}

fn check_picture(s: &Picture, obs: &mut Obs) -> Res {
    let dir = scratch().join("picture");
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let (fmt, mut bytes) = if (s.format as usize) < FORMATS.len() {
        let f = FORMATS[s.format as usize].0;
        (f, encode(&sample_image(s.size[0] as u32, s.size[1] as u32), f))
    } else {
        // text variants of the portable formats
        let kind = 1 + s.salt % 3;
        let mut t = format!("P{kind}\n{} {}\n", s.size[0], s.size[1]);
        if kind != 1 {
            t.push_str("255\n");
        }
        for i in 0..(s.size[0] as u64 * s.size[1] as u64 * if kind == 3 { 3 } else { 1 }) {
            t.push_str(&format!("{} ", if kind == 1 { i % 2 } else { i % 256 }));
        }
        (ImageFormat::Pnm, t.into_bytes())
    };
    if let Some((h, v)) = s.resize {
        resize(&mut bytes, fmt, h, v);
    }
    let bytes = apply_edits(&bytes, &s.edits);
    let tex = ["t.png", "t.jpg", "t.dat", "t.tga"][s.name as usize % 4];
    for n in ["t.png", "t.jpg", "t.dat", "t.tga"] {
        clear(&dir.join(n));
    }
    put(&dir.join(tex), &bytes)?;
    put(&dir.join("lib.mtl"), format!("newmtl a\n{} {tex}\n", if s.bump { "map_Bump" } else { "map_Kd" }).as_bytes())?;
    put(&dir.join("p.obj"), b"mtllib lib.mtl\nv -1 -1 0\nv 1 -1 0\nv 0 1 0\nvt 0 0\nvt 2 0\nvt 0 1\nusemtl a\nf 1/1 2/2 3/3\n")?;
    let dims = guard(|| {
        let mut r = image::ImageReader::open(dir.join(tex)).ok()?.with_guessed_format().ok()?;
        r.no_limits();
        r.into_dimensions().ok()
    });
    let huge = match &dims {
        Ok(Some((a, b))) => *a as u64 * *b as u64 > 1_000_000,
        Ok(None) => false,
        Err(_) => true,
    };
    let name = format!("{fmt:?}");
    obs.label(name.clone());
    obs.nontrivial_if(!s.edits.is_empty() || s.resize.is_some());
    // what a damaged file makes the decoder do (up to running out of memory) is kept in a process of its own
    let said = if huge || !s.edits.is_empty() {
        obs.label("in a process of its own");
        run_child(&dir, tex, &name, s.salt)
    } else {
        examine(&dir, tex, &name, s.salt)
    };
    match said {
        Err(e) => Err(format!("{dims:?} pixels announced: {e}")),
        Ok(t) => {
            match t.trim() {
                "decoder-panic" => obs.known_finding("decoder-panic"),
                "out-of-memory" => obs.known_finding("huge-texture-aborts"),
                _ => {}
            }
            obs.label(t.trim());
            Ok(())
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).is_some_and(|x| x == "examine") && a.len() >= 6 {
        unsafe {
            let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
        }
        std::process::exit(child_main(&a[2..]));
    }
    run_main(
        "P28",
        || {
            vec![
                facet("faults", "something is wrong with a file", 16_000, 300_000, faults(), check_faults),
                facet("soup", "refused, or loaded and hit by a ray", 20_000, 500_000, soup(true), check_soup),
                facet("odd geometry", "refused, or loaded and hit by a ray", 16_000, 400_000, soup(false), check_soup),
                facet("damage", "damaged, and refused or loaded and hit", 24_000, 500_000, damage(), check_damage),
                facet("picture", "damaged file", 9_000, 200_000, picture(), check_picture),
            ]
        },
        &["built without overflow checks in the libraries, as a release build is", "no special files (devices, pipes)"],
    )
}
