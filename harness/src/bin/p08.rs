//! P08: exactly the light-emitting surfaces are found as lights.
use harness::ensure;
use harness::fw::*;
use harness::geo::*;
use harness::spec::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solstrale::camera::CameraConfig;
use solstrale::hittable::{Bvh, Hittable, Hittables};
use solstrale::post::{BloomPostProcessor, NopPostProcessor};
use solstrale::ray_trace;
use solstrale::renderer::shader::{AlbedoShader, NormalShader, PathTracingShader, SimpleShader};
use solstrale::renderer::{RenderConfig, RenderImageStrategy, Renderer, Scene};
use std::sync::mpsc::channel;

fn leaf(light_weight: u32) -> BoxedStrategy<Obj> {
    let m = || prop_oneof![light_weight => light_mat(), 3 => surface_mat()].boxed();
    prop_oneof![
        3 => sphere_obj(10., m()),
        1 => (point(10.), prop_oneof![logf(1e-7, 0.05), logf(5., 1e5)], m()).prop_map(|(c, r, m)| Obj::Sphere { c, r, m }),
        1 => (point(10.), edges(1e-3, 1e4), m()).prop_map(|(q, (u, v), m)| Obj::Quad { q, u, v, tf: vec![], m }),
        1 => (point(10.), edges(1e-8, 1e-3), m()).prop_map(|(q, (u, v), m)| Obj::Quad { q, u, v, tf: vec![], m }),
        1 => (point(10.), edges(1e-8, 1e-3), m()).prop_map(|(a, (u, v), m)| Obj::Tri { a, b: add(a, u), c: add(a, v), uv: None, tf: vec![], m }),
        // far away
        1 => (prop_oneof![point(1e3), point(1e6), point(1e9)], logf(1e-4, 1e4), m()).prop_map(|(c, r, m)| Obj::Sphere { c, r, m }),
        1 => (prop_oneof![point(1e3), point(1e6), point(1e9)], edges(1e-2, 1e4), m()).prop_map(|(q, (u, v), m)| Obj::Quad { q, u, v, tf: vec![], m }),
        1 => (prop_oneof![point(1e3), point(1e6), point(1e9)], edges(1., 1e4), m()).prop_map(|(a, (u, v), m)| Obj::Tri { a, b: add(a, u), c: add(a, v), uv: None, tf: vec![], m }),
        3 => quad_obj(10., m()),
        3 => tri_obj(10., m()),
        1 => box_obj(10., m()),
        1 => (prop_oneof![sphere_obj(10., m()), box_obj(10., m()), quad_obj(10., m())], logf(0.1, 2.), color(1.))
            .prop_map(|(o, density, color)| Obj::Fog { of: Box::new(o), density, color }),
    ]
    .boxed()
}

fn tree(light_weight: u32) -> BoxedStrategy<Obj> {
    let t = leaf(light_weight).prop_recursive(4, 40, 6, |inner| prop::collection::vec(inner, 0..7).prop_map(Obj::Group));
    (prop::collection::vec(t, 0..8), prop::collection::vec((any::<prop::sample::Index>(), any::<prop::sample::Index>()), 0..3))
        .prop_map(|(mut l, dup)| {
            for (from, to) in dup {
                if !l.is_empty() {
                    // the same object twice
                    let o = l[from.index(l.len())].clone();
                    let k = to.index(l.len() + 1);
                    l.insert(k, o);
                }
            }
            Obj::Group(l)
        })
        .boxed()
}

/// many objects, in a group or in groups of groups
fn many() -> BoxedStrategy<Obj> {
    (prop::collection::vec(leaf(4), 40..500), 0u8..3, 2usize..30)
        .prop_map(|(l, deep, k)| {
            let mut l = l;
            for _ in 0..deep {
                l = l.chunks(k).map(|c| Obj::Group(c.to_vec())).collect();
            }
            Obj::Group(l)
        })
        .boxed()
}

fn check_many(o: &Obj, obs: &mut Obs) -> Res {
    check_lights(o, obs)?;
    let s = Render { o: o.clone(), shader: 0, post: 0, w: 2, h: 2, samples: 1, strategy: false };
    let want = expected(o);
    obs.label(format!("{}+ lights", want.len() / 50 * 50));
    match Renderer::new(scene(&s, o.build_one())) {
        Ok(r) => same("renderer", &texts(&r.lights), &want),
        Err(e) => {
            ensure!(want.is_empty(), "a scene with {} lights is refused: {e}", want.len());
            Ok(())
        }
    }
}

fn is_light_leaf(o: &Obj) -> bool {
    match o {
        Obj::Sphere { m, .. } | Obj::Quad { m, .. } | Obj::Tri { m, .. } | Obj::Boxx { m, .. } => m.is_light(),
        _ => false,
    }
}

fn texts(l: &[Hittables]) -> Vec<String> {
    let mut t: Vec<String> = l.iter().map(|h| format!("{h:?}")).collect();
    t.sort();
    t
}

fn expected(o: &Obj) -> Vec<String> {
    let l: Vec<Hittables> = o.leaves().iter().filter(|x| is_light_leaf(x)).flat_map(|x| x.build()).collect();
    texts(&l)
}

fn same(what: &str, got: &[String], want: &[String]) -> Res {
    if got == want {
        return Ok(());
    }
    let short = |s: &String| s.chars().take(200).collect::<String>();
    if let Some(x) = got.iter().find(|x| got.iter().filter(|y| y == x).count() > want.iter().filter(|y| y == x).count()) {
        return Err(format!("{what}: {} lights instead of {}; too many of {}", got.len(), want.len(), short(x)));
    }
    let x = want.iter().find(|x| got.iter().filter(|y| y == x).count() < want.iter().filter(|y| y == x).count());
    Err(format!("{what}: {} lights instead of {}; missing {}", got.len(), want.len(), x.map(short).unwrap_or_default()))
}

fn check_lights(o: &Obj, obs: &mut Obs) -> Res {
    let want = expected(o);
    same("group", &texts(&o.build_one().get_lights()), &want)?;
    // the same objects flat and in the opposite order
    let mut flat = o.flatten();
    flat.reverse();
    same("flat group", &texts(&Bvh::new(flat.clone()).get_lights()), &want)?;
    for (h, l) in flat.iter().zip(o.leaves().iter().flat_map(|x| vec![is_light_leaf(x); x.build().len()]).collect::<Vec<_>>().iter().rev()) {
        ensure!(h.get_lights().len() == usize::from(*l), "an object reports {} lights: {h:?}", h.get_lights().len());
    }
    obs.label(format!("lights {}", if want.len() > 3 { "4+".to_string() } else { want.len().to_string() }));
    obs.nontrivial_if(!want.is_empty() && flat.len() > want.len());
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Render {
    o: Obj,
    shader: u8,
    post: u8,
    w: usize,
    h: usize,
    samples: u32,
    strategy: bool,
}

fn scene(s: &Render, world: Hittables) -> Scene {
    Scene {
        world,
        camera: CameraConfig {
            vertical_fov_degrees: 40.,
            aperture_size: 0.,
            look_from: sv([0., 1., 30.]),
            look_at: sv([0., 0., 0.]),
            up: sv([0., 1., 0.]),
        },
        background_color: sv([0.2, 0.3, 0.5]),
        render_config: RenderConfig {
            width: s.w,
            height: s.h,
            samples_per_pixel: s.samples,
            shader: match s.shader {
                0 => PathTracingShader::new(3),
                1 => AlbedoShader::new(),
                2 => NormalShader::new(),
                _ => SimpleShader::new(),
            },
            post_processors: match s.post {
                0 => vec![],
                1 => vec![NopPostProcessor::new()],
                _ => vec![BloomPostProcessor::new(0.1, None, None).unwrap()],
            },
            render_image_strategy: if s.strategy { RenderImageStrategy::EverySample } else { RenderImageStrategy::OnlyFinal },
        },
    }
}

fn check_render(s: &Render, obs: &mut Obs) -> Res {
    let want = expected(&s.o);
    match Renderer::new(scene(s, s.o.build_one())) {
        Ok(r) => {
            ensure!(!want.is_empty(), "a scene without light is accepted");
            same("renderer", &texts(&r.lights), &want)?;
        }
        Err(e) => ensure!(want.is_empty(), "a scene with {} lights is refused: {e}", want.len()),
    }
    let (tx, rx) = channel();
    let (_keep, abort) = channel();
    let sc = scene(s, s.o.build_one());
    let r = ray_trace(sc, &tx, &abort);
    drop(tx);
    let n = rx.into_iter().count();
    match r {
        Ok(()) => {
            ensure!(!want.is_empty(), "a scene without light is rendered");
            ensure!(n == s.samples as usize, "{n} progress messages for {} samples", s.samples);
            obs.label("accepted");
        }
        Err(e) => {
            ensure!(want.is_empty(), "a scene with {} lights is refused: {e}", want.len());
            ensure!(n == 0, "{n} progress messages before the scene is refused");
            obs.label("refused");
        }
    }
    obs.nontrivial_if(!s.o.leaves().is_empty());
    Ok(())
}

fn main() {
    run_main(
        "P08",
        || {
            vec![
                facet("lights", "at least one light and one other object", 40_000, 1_000_000, tree(2), check_lights),
                facet("many", "at least one light and one other object", 1_200, 30_000, many(), check_many),
                facet(
                    "accept",
                    "a scene that is not empty",
                    4_000,
                    80_000,
                    (prop_oneof![tree(1), tree(1), (0u8..1).prop_flat_map(|_| tree(2))], 0u8..4, 0u8..3, 2usize..5, 2usize..5, 1u32..4, any::<bool>())
                        .prop_flat_map(|(o, shader, post, w, h, samples, strategy)| {
                            // half of the scenes lose all their lights
                            prop_oneof![
                                Just(Render { o: o.clone(), shader, post, w, h, samples, strategy }),
                                Just(Render { o: unlit(&o), shader, post, w, h, samples, strategy })
                            ]
                        }),
                    check_render,
                ),
            ]
        },
        &["blends that contain a light material are not generated", "boxes stand for their six quads"],
    )
}

fn unlit(o: &Obj) -> Obj {
    let f = |m: &Mat| if m.is_light() { matte(0.4) } else { m.clone() };
    match o {
        Obj::Sphere { c, r, m } => Obj::Sphere { c: *c, r: *r, m: f(m) },
        Obj::Quad { q, u, v, tf, m } => Obj::Quad { q: *q, u: *u, v: *v, tf: tf.clone(), m: f(m) },
        Obj::Tri { a, b, c, uv, tf, m } => Obj::Tri { a: *a, b: *b, c: *c, uv: *uv, tf: tf.clone(), m: f(m) },
        Obj::Boxx { a, b, tf, m } => Obj::Boxx { a: *a, b: *b, tf: tf.clone(), m: f(m) },
        // the boundary of fog keeps its light material: it is no light
        Obj::Fog { .. } => o.clone(),
        Obj::Group(l) => Obj::Group(l.iter().map(unlit).collect()),
    }
}
