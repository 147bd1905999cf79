//! Serialisable descriptions of objects, materials and rays, their builders and generators.
use crate::geo::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solstrale::geo::transformation::{
    NopTransformer, RotationX, RotationY, RotationZ, Scale, Transformations, Transformer, Translation,
};
use solstrale::geo::{Ray, Uv};
use solstrale::hittable::{Bvh, ConstantMedium, Hittables, Quad, Sphere, Triangle};
use solstrale::material::texture::SolidColor;
use solstrale::material::{Blend, Dielectric, DiffuseLight, Lambertian, Materials, Metal};

// ---------------------------------------------------------------- numbers

/// a coordinate: small "nice" numbers and arbitrary ones
pub fn coord(r: f64) -> BoxedStrategy<f64> {
    let k = (r * 2.) as i32;
    prop_oneof![
        2 => (-k..=k).prop_map(|i| i as f64 / 2.),
        5 => -r..r,
        1 => Just(0.),
    ]
    .boxed()
}

pub fn point(r: f64) -> BoxedStrategy<V3> {
    [coord(r), coord(r), coord(r)].boxed()
}

/// positive number spread evenly in logarithm between a and b
pub fn logf(a: f64, b: f64) -> BoxedStrategy<f64> {
    prop_oneof![
        1 => Just((a.ln() * 0.5 + b.ln() * 0.5).exp()),
        // (shrinking may leave the range)
        8 => (a.ln()..b.ln()).prop_map(move |x| x.clamp(a.ln(), b.ln()).exp()),
    ]
    .boxed()
}

/// a direction of length one: axis-parallel, in a coordinate plane, or arbitrary
pub fn dir() -> BoxedStrategy<V3> {
    let dirs = prop_oneof![
        1 => (0usize..3, any::<bool>()).prop_map(|(i, s)| {
            let mut a = [0.; 3];
            a[i] = if s { 1. } else { -1. };
            a
        }),
        1 => (0usize..3, 0.0..std::f64::consts::TAU).prop_map(|(i, a)| {
            let mut r = [0.; 3];
            r[i] = a.cos();
            r[(i + 1) % 3] = a.sin();
            r
        }),
        6 => (-1.0..1.0f64, 0.0..std::f64::consts::TAU).prop_map(|(z, a)| {
            let r = (1. - z * z).max(0.).sqrt();
            unit([r * a.cos(), r * a.sin(), z])
        }),
    ]
    .boxed();
    (dirs, any::<u8>())
        .prop_map(|(mut d, s)| {
            // zeros of both signs
            for k in 0..3 {
                if d[k] == 0. && s >> k & 1 == 1 {
                    d[k] = -0.;
                }
            }
            d
        })
        .boxed()
}

pub fn color(max: f64) -> BoxedStrategy<V3> {
    [0.0..max, 0.0..max, 0.0..max].boxed()
}

// ---------------------------------------------------------------- transformations

pub fn angle() -> BoxedStrategy<f64> {
    prop_oneof![
        1 => (-8i32..=8).prop_map(|i| i as f64 * 45.),
        3 => -400.0..400.0f64,
    ]
    .boxed()
}

/// transformations of any size: angles of many turns, far moves, scales of either sign, tiny, huge and zero
pub fn wild_tfs(max: usize) -> BoxedStrategy<Vec<Tf>> {
    let step = || {
        let ang = || prop_oneof![2 => angle(), 1 => -1e5..1e5f64, 1 => logf(1e-9, 1.)];
        prop_oneof![
            2 => point(5.).prop_map(Tf::Move),
            1 => (dir(), logf(1e-6, 1e6)).prop_map(|(d, l)| Tf::Move(mul(d, l))),
            2 => ang().prop_map(Tf::RotX),
            2 => ang().prop_map(Tf::RotY),
            2 => ang().prop_map(Tf::RotZ),
            1 => Just(Tf::Nop),
            2 => (any::<bool>(), prop_oneof![2 => logf(0.3, 3.), 1 => logf(1e-6, 1e6), 1 => Just(1.), 1 => Just(0.)])
                .prop_map(|(n, k)| Tf::Scale(if n { -k } else { k })),
        ]
        .boxed()
    };
    let nested = prop::collection::vec(prop_oneof![5 => step(), 1 => prop::collection::vec(step(), 0..3).prop_map(Tf::List)], 0..3)
        .prop_map(Tf::List);
    prop_oneof![
        1 => Just(vec![]),
        9 => prop::collection::vec(prop_oneof![6 => step(), 1 => nested], 0..=max),
    ]
    .boxed()
}

/// turns the sign of the scales picked by the bits
pub fn flip_scales(tf: &mut [Tf], bits: u32) {
    for (i, t) in tf.iter_mut().enumerate() {
        match t {
            Tf::Scale(k) if bits >> (i % 32) & 1 == 1 => *k = -*k,
            Tf::List(l) => flip_scales(l, bits.rotate_right(7)),
            _ => {}
        }
    }
}

/// an upper bound of the size of every intermediate result, carried to the end
pub fn reach(tf: &[Tf], m: f64) -> f64 {
    tf.iter().fold(m, |m, t| match t {
        Tf::Move(d) => m + len(*d),
        Tf::Scale(k) => m * k.abs(),
        Tf::List(l) => reach(l, m),
        _ => m,
    })
}

fn tf_step(scale: bool) -> BoxedStrategy<Tf> {
    let s = if scale { 2 } else { 0 };
    let base = prop_oneof![
        3 => point(5.).prop_map(Tf::Move),
        2 => angle().prop_map(Tf::RotX),
        2 => angle().prop_map(Tf::RotY),
        2 => angle().prop_map(Tf::RotZ),
        1 => Just(Tf::Nop),
    ];
    if s > 0 {
        prop_oneof![4 => base, 1 => logf(0.3, 3.).prop_map(Tf::Scale)].boxed()
    } else {
        base.boxed()
    }
}

pub fn tfs(max: usize, scale: bool) -> BoxedStrategy<Vec<Tf>> {
    let leaf = tf_step(scale);
    let nested = prop::collection::vec(tf_step(scale), 0..3).prop_map(Tf::List);
    prop_oneof![
        1 => Just(vec![]),
        3 => prop::collection::vec(prop_oneof![6 => leaf, 1 => nested], 0..=max),
    ]
    .boxed()
}

pub fn build_tf(tf: &[Tf]) -> Box<dyn Transformer> {
    if tf.is_empty() {
        return Box::new(NopTransformer());
    }
    Box::new(Transformations::new(tf.iter().map(build_step).collect()))
}

pub fn build_step(t: &Tf) -> Box<dyn Transformer> {
    match t {
        Tf::Nop => Box::new(NopTransformer()),
        Tf::Move(d) => Box::new(Translation::new(sv(*d))),
        Tf::RotX(a) => Box::new(RotationX::new(*a)),
        Tf::RotY(a) => Box::new(RotationY::new(*a)),
        Tf::RotZ(a) => Box::new(RotationZ::new(*a)),
        Tf::Scale(s) => Box::new(Scale::new(*s)),
        Tf::List(l) => build_tf(l),
    }
}

// ---------------------------------------------------------------- materials

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Mat {
    Matte(V3),
    Metal(V3, f64),
    Glass(V3, f64),
    Light(V3, Option<f64>),
    Blend(Box<Mat>, Box<Mat>, f64),
}

impl Mat {
    pub fn build(&self) -> Materials {
        let tex = |c: &V3| SolidColor::new(c[0], c[1], c[2]);
        match self {
            Mat::Matte(c) => Lambertian::new(tex(c), None),
            Mat::Metal(c, f) => Metal::new(tex(c), None, *f),
            Mat::Glass(c, i) => Dielectric::new(tex(c), None, *i),
            Mat::Light(c, h) => DiffuseLight::new(c[0], c[1], c[2], *h),
            Mat::Blend(a, b, f) => Blend::new(a.build(), b.build(), *f),
        }
    }
    pub fn is_light(&self) -> bool {
        matches!(self, Mat::Light(..))
    }
}

pub fn matte(k: f64) -> Mat {
    Mat::Matte([k, k, k])
}

/// non-light materials
pub fn surface_mat() -> BoxedStrategy<Mat> {
    let leaf = prop_oneof![
        4 => color(1.).prop_map(Mat::Matte),
        2 => (color(1.), 0.0..1.0f64).prop_map(|(c, f)| Mat::Metal(c, f)),
        2 => (color(1.), 1.0..2.5f64).prop_map(|(c, i)| Mat::Glass(c, i)),
    ];
    leaf.prop_recursive(2, 4, 2, |inner| {
        (inner.clone(), inner, 0.0..1.0f64).prop_map(|(a, b, f)| Mat::Blend(Box::new(a), Box::new(b), f))
    })
    .boxed()
}

pub fn light_mat() -> BoxedStrategy<Mat> {
    (color(5.), prop::option::of(logf(0.1, 100.))).prop_map(|(c, h)| Mat::Light(c, h)).boxed()
}

pub fn any_mat() -> BoxedStrategy<Mat> {
    prop_oneof![3 => surface_mat(), 1 => light_mat()].boxed()
}

// ---------------------------------------------------------------- objects

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Obj {
    Sphere { c: V3, r: f64, m: Mat },
    Quad { q: V3, u: V3, v: V3, tf: Vec<Tf>, m: Mat },
    Tri { a: V3, b: V3, c: V3, uv: Option<[[f32; 2]; 3]>, tf: Vec<Tf>, m: Mat },
    Boxx { a: V3, b: V3, tf: Vec<Tf>, m: Mat },
    Fog { of: Box<Obj>, density: f64, color: V3 },
    Group(Vec<Obj>),
}

impl Obj {
    /// the objects this stands for (a box is six quads)
    pub fn build(&self) -> Vec<Hittables> {
        match self {
            Obj::Sphere { c, r, m } => vec![Sphere::new(sv(*c), *r, m.build())],
            Obj::Quad { q, u, v, tf, m } => {
                vec![Quad::new(sv(*q), sv(*u), sv(*v), m.build(), build_tf(tf).as_ref())]
            }
            Obj::Tri { a, b, c, uv, tf, m } => vec![match uv {
                None => Triangle::new(sv(*a), sv(*b), sv(*c), m.build(), build_tf(tf).as_ref()),
                Some(w) => Triangle::new_with_tex_coords(
                    sv(*a),
                    sv(*b),
                    sv(*c),
                    Uv::new(w[0][0], w[0][1]),
                    Uv::new(w[1][0], w[1][1]),
                    Uv::new(w[2][0], w[2][1]),
                    m.build(),
                    build_tf(tf).as_ref(),
                ),
            }],
            Obj::Boxx { a, b, tf, m } => Quad::new_box(sv(*a), sv(*b), m.build(), build_tf(tf).as_ref()),
            Obj::Fog { of, density, color } => {
                vec![ConstantMedium::new(of.build_one(), *density, sv(*color))]
            }
            Obj::Group(l) => vec![Bvh::new(l.iter().flat_map(|o| o.build()).collect())],
        }
    }
    /// one hittable (boxes are grouped)
    pub fn build_one(&self) -> Hittables {
        let mut l = self.build();
        if l.len() == 1 {
            l.pop().unwrap()
        } else {
            Bvh::new(l)
        }
    }
    /// the single objects in this one, all groups dissolved
    pub fn flatten(&self) -> Vec<Hittables> {
        match self {
            Obj::Group(l) => l.iter().flat_map(|o| o.flatten()).collect(),
            _ => self.build(),
        }
    }
    pub fn leaves(&self) -> Vec<Obj> {
        match self {
            Obj::Group(l) => l.iter().flat_map(|o| o.leaves()).collect(),
            _ => vec![self.clone()],
        }
    }
    /// some point in the middle of the object
    pub fn center(&self) -> V3 {
        match self {
            Obj::Sphere { c, .. } => *c,
            Obj::Quad { q, u, v, tf, .. } => apply(tf, lerp3(*q, *u, 0.5, *v, 0.5), false),
            Obj::Tri { a, b, c, tf, .. } => apply(tf, mul(add(add(*a, *b), *c), 1. / 3.), false),
            Obj::Boxx { a, b, tf, .. } => apply(tf, mul(add(*a, *b), 0.5), false),
            Obj::Fog { of, .. } => of.center(),
            Obj::Group(l) => l.first().map_or([0.; 3], |o| o.center()),
        }
    }
    pub fn size(&self) -> f64 {
        match self {
            Obj::Sphere { r, .. } => *r,
            Obj::Quad { u, v, tf, .. } => scale_of(tf) * len(*u).max(len(*v)) * 0.5,
            Obj::Tri { a, b, c, tf, .. } => scale_of(tf) * dist(*a, *b).max(dist(*a, *c)) * 0.4,
            Obj::Boxx { a, b, tf, .. } => scale_of(tf) * dist(*a, *b) * 0.5,
            Obj::Fog { of, .. } => of.size(),
            Obj::Group(l) => l.first().map_or(1., |o| o.size()),
        }
    }

    /// true extent per axis
    pub fn extent(&self) -> [(f64, f64); 3] {
    let of = |pts: &[V3]| {
        let mut e = [(f64::INFINITY, f64::NEG_INFINITY); 3];
        for p in pts {
            for k in 0..3 {
                e[k].0 = e[k].0.min(p[k]);
                e[k].1 = e[k].1.max(p[k]);
            }
        }
        e
    };
    match self {
        Obj::Sphere { c, r, .. } => [(c[0] - r, c[0] + r), (c[1] - r, c[1] + r), (c[2] - r, c[2] + r)],
        Obj::Quad { q, u, v, tf, .. } => {
            let (q, u, w) = (apply(tf, *q, false), apply(tf, *u, true), apply(tf, *v, true));
            of(&[q, add(q, u), add(q, w), add(add(q, u), w)])
        }
        Obj::Tri { a, b, c, tf, .. } => of(&[apply(tf, *a, false), apply(tf, *b, false), apply(tf, *c, false)]),
        Obj::Boxx { a, b, tf, .. } => {
            let mut pts = vec![];
            for (q, u, w) in crate::hits::box_faces(*a, *b, tf) {
                pts.extend([q, add(q, u), add(q, w), add(add(q, u), w)]);
            }
            of(&pts)
        }
        Obj::Fog { of, .. } => of.extent(),
        Obj::Group(l) => {
            let mut e = [(f64::INFINITY, f64::NEG_INFINITY); 3];
            for o in l {
                let x = o.extent();
                for k in 0..3 {
                    e[k].0 = e[k].0.min(x[k].0);
                    e[k].1 = e[k].1.max(x[k].1);
                }
            }
            e
        }
    }
}

    /// the leaf each object of `flatten` comes from
    pub fn owners(&self) -> Vec<Obj> {
        match self {
            Obj::Group(l) => l.iter().flat_map(|o| o.owners()).collect(),
            Obj::Boxx { .. } => vec![self.clone(); 6],
            _ => vec![self.clone()],
        }
    }
    /// whether a hit point on a leaf is inside the extent of the shape hit there (of all sides of a box it may be on)
    pub fn well_within(&self, p: V3, margin: f64) -> bool {
        match self {
            Obj::Boxx { a, b, tf, m } => crate::hits::box_faces(*a, *b, tf)
                .into_iter()
                .filter(|(q, u, v)| dot(unit(cross(*u, *v)), sub(p, *q)).abs() < margin)
                .all(|(q, u, v)| well_inside(p, &Obj::Quad { q, u, v, tf: vec![], m: m.clone() }.extent(), margin)),
            _ => well_inside(p, &self.extent(), margin),
        }
    }
}

/// whether a point is inside the extent of an object by a margin on all axes on which the object is not flat
pub fn well_inside(p: V3, e: &[(f64, f64); 3], margin: f64) -> bool {
    (0..3).all(|k| e[k].1 - e[k].0 < 0.99e-4 || (p[k] > e[k].0 + margin && p[k] < e[k].1 - margin))
}

pub fn sphere_obj(range: f64, m: BoxedStrategy<Mat>) -> BoxedStrategy<Obj> {
    (point(range), logf(0.05, 5.), m).prop_map(|(c, r, m)| Obj::Sphere { c, r, m }).boxed()
}

/// two edge vectors that are not close to parallel
pub fn edges(lo: f64, hi: f64) -> BoxedStrategy<(V3, V3)> {
    (dir(), dir(), logf(lo, hi), logf(lo, hi), 0.0..1.0f64)
        .prop_map(|(a, b, la, lb, mixin)| {
            let (p, q, _) = basis(a);
            // b's part perpendicular to a, plus a limited part along a
            let mut w = add(mul(p, dot(b, p)), mul(q, dot(b, q)));
            if len(w) < 0.2 {
                w = p;
            }
            let along = (mixin - 0.5) * 1.6;
            let e2 = unit(add(unit(w), mul(a, along)));
            (mul(a, la), mul(e2, lb))
        })
        .boxed()
}

pub fn quad_obj(range: f64, m: BoxedStrategy<Mat>) -> BoxedStrategy<Obj> {
    (point(range), edges(0.1, 8.), tfs(3, true), m)
        .prop_map(|(q, (u, v), tf, m)| Obj::Quad { q, u, v, tf, m })
        .boxed()
}

pub fn tri_obj(range: f64, m: BoxedStrategy<Mat>) -> BoxedStrategy<Obj> {
    (point(range), edges(0.1, 8.), tfs(3, true), m)
        .prop_map(|(a, (u, v), tf, m)| Obj::Tri { a, b: add(a, u), c: add(a, v), uv: None, tf, m })
        .boxed()
}

pub fn box_obj(range: f64, m: BoxedStrategy<Mat>) -> BoxedStrategy<Obj> {
    (
        point(range),
        {
            let side = || prop_oneof![12 => logf(0.1, 6.), 1 => logf(1e-4, 0.1)];
            [side(), side(), side()]
        },
        [any::<bool>(), any::<bool>(), any::<bool>()],
        tfs(3, true),
        m,
    )
        .prop_map(|(a, s, f, tf, m)| {
            let mut b = a;
            for i in 0..3 {
                b[i] = a[i] + if f[i] { s[i] } else { -s[i] };
            }
            Obj::Boxx { a, b, tf, m }
        })
        .boxed()
}

pub fn fog_obj(range: f64) -> BoxedStrategy<Obj> {
    (
        prop_oneof![
            sphere_obj(range, Just(matte(0.5)).boxed()),
            box_obj(range, Just(matte(0.5)).boxed())
        ],
        logf(0.02, 5.),
        color(1.),
    )
        .prop_map(|(o, density, color)| Obj::Fog { of: Box::new(o), density, color })
        .boxed()
}

// ---------------------------------------------------------------- rays

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct RaySpec {
    pub o: V3,
    pub d: V3,
}

impl RaySpec {
    pub fn build(&self) -> Ray {
        Ray::new(sv(self.o), sv(self.d))
    }
}

/// a ray that passes `p` (possibly behind its origin), from `dist` away, with a direction of length `l`
pub fn ray_through(p: V3, from: V3, distance: f64, l: f64) -> RaySpec {
    let o = sub(p, mul(from, distance));
    RaySpec { o, d: mul(from, l) }
}

pub fn ray_len() -> BoxedStrategy<f64> {
    prop_oneof![4 => Just(1.), 6 => logf(0.02, 50.), 1 => logf(1e-3, 1e4)].boxed()
}

/// any ray near the origin region
pub fn any_ray(range: f64) -> BoxedStrategy<RaySpec> {
    (point(range), dir(), ray_len()).prop_map(|(o, d, l)| RaySpec { o, d: mul(d, l) }).boxed()
}

pub fn finite3(a: V3) -> bool {
    a.iter().all(|x| x.is_finite())
}

fn half_lengths(m: &Mat, k: f64) -> Mat {
    match m {
        Mat::Light(c, h) => Mat::Light(*c, h.map(|h| h * k)),
        m => m.clone(),
    }
}

/// everything k times as large, seen from k times as far away
pub fn grown(o: &Obj, k: f64) -> Obj {
    let tfs = |tf: &[Tf]| tf.iter().map(|t| if let Tf::Move(v) = t { Tf::Move(mul(*v, k)) } else { t.clone() }).collect::<Vec<_>>();
    match o {
        Obj::Sphere { c, r, m } => Obj::Sphere { c: mul(*c, k), r: r * k, m: half_lengths(m, k) },
        Obj::Quad { q, u, v, tf, m } => Obj::Quad { q: mul(*q, k), u: mul(*u, k), v: mul(*v, k), tf: tfs(tf), m: half_lengths(m, k) },
        Obj::Tri { a, b, c, uv, tf, m } => {
            Obj::Tri { a: mul(*a, k), b: mul(*b, k), c: mul(*c, k), uv: *uv, tf: tfs(tf), m: half_lengths(m, k) }
        }
        Obj::Boxx { a, b, tf, m } => Obj::Boxx { a: mul(*a, k), b: mul(*b, k), tf: tfs(tf), m: half_lengths(m, k) },
        Obj::Fog { of, density, color } => Obj::Fog { of: Box::new(grown(of, k)), density: density / k, color: *color },
        Obj::Group(l) => Obj::Group(l.iter().map(|o| grown(o, k)).collect()),
    }
}
