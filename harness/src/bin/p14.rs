//! P14: a blend behaves as its materials in the stated proportion.
use harness::ensure;
use harness::fw::*;
use harness::geo::*;
use harness::spec::*;
use harness::stats::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solstrale::geo::transformation::NopTransformer;
use solstrale::hittable::{Hittable, Hittables, Quad};
use solstrale::material::texture::SolidColor;
use solstrale::material::{Blend, Dielectric, Lambertian, Material, Materials, Metal, RayScatter};
use solstrale::util::interval::RAY_INTERVAL;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Tree {
    Leaf { kind: u8, map: bool },
    Blend(Box<Tree>, Box<Tree>, f64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    tree: Tree,
    from: V3,
    l: f64,
}

fn factor() -> BoxedStrategy<f64> {
    prop_oneof![1 => Just(0.), 1 => Just(1.), 1 => Just(0.5), 6 => 0.0..1.0f64, 1 => logf(1e-5, 0.1), 1 => logf(1e-5, 0.1).prop_map(|x| 1. - x)].boxed()
}

fn tree() -> BoxedStrategy<Tree> {
    let leaf = (0u8..3, any::<bool>()).prop_map(|(kind, map)| Tree::Leaf { kind, map });
    let t: BoxedStrategy<Tree> = leaf.prop_recursive(3, 8, 2, |inner| {
        (inner.clone(), inner, factor()).prop_map(|(a, b, f)| Tree::Blend(Box::new(a), Box::new(b), f))
    })
    .boxed();
    let leaf = (0u8..3, any::<bool>()).prop_map(|(kind, map)| Tree::Leaf { kind, map }).boxed();
    prop_oneof![
        2 => (t.clone(), t.clone(), factor()),
        1 => (leaf.clone(), leaf.clone(), factor()),
        1 => (leaf, t, factor()),
    ]
    .prop_map(|(a, b, f)| Tree::Blend(Box::new(a), Box::new(b), f))
    .boxed()
}

fn count(t: &Tree) -> usize {
    match t {
        Tree::Leaf { .. } => 1,
        Tree::Blend(a, b, _) => count(a) + count(b),
    }
}

struct Leaf {
    p: f64,
    kind: u8,
    map: bool,
}

/// builds the material, listing its leaves with their probabilities
fn build(t: &Tree, p: f64, out: &mut Vec<Leaf>) -> Materials {
    match t {
        Tree::Leaf { kind, map } => {
            let i = out.len();
            // the colour tells the leaf
            let tex = SolidColor::new(0.05 + i as f64 / 20., *kind as f64 / 4., 0.3);
            let n = map_normal(i);
            let map_tex = map.then(|| SolidColor::new(n[0] * 0.5 + 0.5, n[1] * 0.5 + 0.5, n[2] * 0.5 + 0.5));
            out.push(Leaf { p, kind: *kind, map: *map });
            match kind {
                0 => Lambertian::new(tex, map_tex),
                1 => Metal::new(tex, map_tex, 0.2),
                _ => Dielectric::new(tex, map_tex, 1.5),
            }
        }
        Tree::Blend(a, b, f) => {
            let a = build(a, p * (1. - f), out);
            let b = build(b, p * f, out);
            Blend::new(a, b, *f)
        }
    }
}

fn map_normal(i: usize) -> V3 {
    let a = 0.1 + i as f64 * 0.35;
    [0.5 * a.cos(), 0.5 * a.sin(), 0.75f64.sqrt()]
}

fn check(s: &Case, obs: &mut Obs) -> Res {
    if s.from[2].abs() < 0.1 {
        return Ok(());
    }
    let mut leaves = vec![];
    let m = build(&s.tree, 1., &mut leaves);
    let h: Hittables = Quad::new(sv([-1., -1., 0.]), sv([2., 0., 0.]), sv([0., 2., 0.]), m, &NopTransformer());
    let ray = ray_through([0.; 3], s.from, 0.5, s.l.min(10.));
    let r = ray.build();
    let lights = vec![solstrale::hittable::Sphere::new(sv([0., 3., 5.]), 0.5, Mat::Light([1.; 3], None).build())];
    let n = if obs.thorough { 30_000 } else { 4000 };
    let facing = if s.from[2] < 0. { 1. } else { -1. };
    const K: usize = 20;
    let mut share = [0.; K];
    let mut normals = [0.; K];
    let mut plain = 0.;
    for (i, l) in leaves.iter().enumerate() {
        if i >= K {
            return Ok(());
        }
        share[i] = l.p;
        if l.map {
            normals[i] = l.p;
        } else {
            plain += l.p;
        }
    }
    normals[K - 1] = plain;
    let floor = 0.02;
    let mut err = None;
    let Some(rec) = h.hit(&r, &RAY_INTERVAL) else { return Err("no hit".into()) };
    // which side of the outermost blend answers is decided by one random number
    let Tree::Blend(left, ..) = &s.tree else { return Err("harness: no blend".into()) };
    let nl = count(left);
    let pl: f64 = leaves[..nl].iter().map(|l| l.p).sum();
    if pl > 0. && pl < 1. {
        let exact = exact_share(|| {
            let c = match rec.material.scatter(&r, &rec, &lights) {
                RayScatter::ScatterPdf(x) => rv(x.color),
                RayScatter::ScatterBasic(x) => rv(x.color),
                RayScatter::ScatterEmission(_) => return None,
            };
            Some((((c[0] - 0.05) * 20.).round() as usize) < nl)
        });
        if let Some(x) = exact {
            ensure!((x - pl).abs() < 1e-9, "the first material answers to a share of {x} of the random numbers instead of {pl}");
            obs.label("exact share");
        }
        let plain_left = leaves[..nl].iter().any(|l| !l.map);
        if !plain_left || !leaves[nl..].iter().any(|l| !l.map) {
            let exact = exact_share(|| {
                let nn = rv(h.hit(&r, &RAY_INTERVAL)?.normal);
                if dist(nn, [0., 0., facing]) < 1e-6 {
                    return Some(plain_left);
                }
                let is = |i: usize| {
                    let w = map_normal(i);
                    leaves[i].map && dist(nn, [w[0], w[1], facing * w[2]]) < 1e-4
                };
                Some((0..nl).any(is))
            });
            if let Some(x) = exact {
                ensure!((x - pl).abs() < 1e-9, "the first material's normal answers to a share of {x} of the random numbers instead of {pl}");
                obs.label("exact share of normals");
            }
        }
    }
    let res = check_means("share of the materials", share, [1e-9; K], floor, n, || {
        let (c, basic) = match rec.material.scatter(&r, &rec, &lights) {
            RayScatter::ScatterPdf(x) => (rv(x.color), false),
            RayScatter::ScatterBasic(x) => (rv(x.color), true),
            RayScatter::ScatterEmission(_) => return [f64::NAN; K],
        };
        let i = ((c[0] - 0.05) * 20.).round() as usize;
        let mut out = [0.; K];
        if i >= leaves.len() || (leaves[i].kind != 0) != basic || leaves[i].p == 0. {
            err = Some(format!("scatters as none of its materials or as one with probability zero: colour {c:?}"));
            return [f64::NAN; K];
        }
        out[i] = 1.;
        out
    });
    if let Some(e) = err {
        return Err(e);
    }
    res?;
    let mut err = None;
    let res = check_means("share of the normals", normals, [1e-9; K], floor, n, || {
        let mut out = [0.; K];
        let Some(rec) = h.hit(&r, &RAY_INTERVAL) else { return [f64::NAN; K] };
        let nn = rv(rec.normal);
        if dist(nn, [0., 0., facing]) < 1e-6 {
            out[K - 1] = 1.;
            return out;
        }
        for (i, l) in leaves.iter().enumerate() {
            let w = map_normal(i);
            if l.map && l.p > 0. && dist(nn, [w[0], w[1], facing * w[2]]) < 1e-4 {
                out[i] = 1.;
                return out;
            }
        }
        err = Some(format!("normal {nn:?} is that of none of the materials"));
        [f64::NAN; K]
    });
    if let Some(e) = err {
        return Err(e);
    }
    res?;
    obs.label(format!("{} leaves", leaves.len()));
    obs.nontrivial_if(leaves.iter().filter(|l| l.p > 0.).count() > 1);
    if leaves.iter().any(|l| l.p == 0.) {
        obs.label("factor 0 or 1");
    }
    Ok(())
}

fn main() {
    run_main(
        "P14",
        || {
            vec![facet(
                "proportion",
                "more than one material with positive probability",
                40_000,
                400_000,
                (tree(), dir(), ray_len()).prop_map(|(tree, from, l)| Case { tree, from, l }),
                check,
            )]
        },
        &["shares are judged by two-stage tests; the random number 0 itself (chance 2^-53) is not drawn on purpose"],
    )
}
