//! Lights around a viewpoint: reference geometry, closed-form form factors and solid angles, generator.
use crate::geo::*;
use crate::spec::*;
use proptest::prelude::*;
use std::f64::consts::PI;

/// geometry after transformation
#[derive(Clone, Debug)]
pub enum G {
    Sphere(V3, f64),
    Flat { q: V3, u: V3, v: V3, tri: bool },
}

pub fn geometry(o: &Obj) -> G {
    match o {
        Obj::Sphere { c, r, .. } => G::Sphere(*c, *r),
        Obj::Quad { q, u, v, tf, .. } => {
            G::Flat { q: apply(tf, *q, false), u: apply(tf, *u, true), v: apply(tf, *v, true), tri: false }
        }
        Obj::Tri { a, b, c, tf, .. } => {
            let (a, b, c) = (apply(tf, *a, false), apply(tf, *b, false), apply(tf, *c, false));
            G::Flat { q: a, u: sub(b, a), v: sub(c, a), tri: true }
        }
        _ => panic!("no single light"),
    }
}

impl G {
    pub fn corners(&self) -> Vec<V3> {
        match self {
            G::Sphere(..) => vec![],
            G::Flat { q, u, v, tri: true } => vec![*q, add(*q, *u), add(*q, *v)],
            G::Flat { q, u, v, .. } => vec![*q, add(*q, *u), add(add(*q, *u), *v), add(*q, *v)],
        }
    }
    /// does the half line from o along d hit it (by reference geometry, no margin)
    pub fn hit(&self, o: V3, d: V3) -> bool {
        match self {
            G::Sphere(c, r) => {
                let d = unit(d);
                let oc = sub(*c, o);
                let along = dot(oc, d);
                along > 0. && len(sub(oc, mul(d, along))) < *r
            }
            G::Flat { q, u, v, tri } => match plane_crossing(*q, *u, *v, o, d) {
                Some((t, a, b, _, _)) => t > 0. && a >= 0. && b >= 0. && if *tri { a + b <= 1. } else { a <= 1. && b <= 1. },
                None => false,
            },
        }
    }
    pub fn solid_angle(&self, o: V3) -> f64 {
        match self {
            G::Sphere(c, r) => {
                let s2 = (r / dist(*c, o)).powi(2);
                2. * PI * s2 / (1. + (1. - s2).sqrt())
            }
            _ => {
                let c = self.corners();
                (1..c.len() - 1).map(|i| tri_solid_angle(o, c[0], c[i], c[i + 1])).sum()
            }
        }
    }
    /// (1/pi) * integral of the cosine to n over the light; None when it crosses the horizon
    pub fn form_factor(&self, o: V3, n: V3) -> Option<f64> {
        match self {
            G::Sphere(c, r) => {
                let oc = sub(*c, o);
                let d = len(oc);
                let h = dot(oc, n);
                if h >= *r * 1.0001 {
                    Some((r / d) * (r / d) * h / d)
                } else if h <= -*r {
                    Some(0.)
                } else {
                    None
                }
            }
            _ => {
                let c = self.corners();
                let hs: Vec<f64> = c.iter().map(|p| dot(sub(*p, o), n)).collect();
                if hs.iter().all(|h| *h > 1e-6) {
                    Some(polygon_form_factor(o, n, &c))
                } else if hs.iter().all(|h| *h < 0.) {
                    Some(0.)
                } else {
                    None
                }
            }
        }
    }
    /// distance of o from the plane of a flat light, from the surface of a sphere
    pub fn height(&self, o: V3) -> f64 {
        match self {
            G::Sphere(c, r) => dist(*c, o) - r,
            G::Flat { q, u, v, .. } => dot(sub(o, *q), unit(cross(*u, *v))).abs(),
        }
    }
    /// is o on the side a flat light's winding points to (always for spheres)
    pub fn lit_side(&self, o: V3) -> bool {
        match self {
            G::Sphere(..) => true,
            G::Flat { q, u, v, .. } => dot(sub(o, *q), cross(*u, *v)) > 0.,
        }
    }
    /// an approximate radius
    pub fn size(&self) -> f64 {
        match self {
            G::Sphere(_, r) => *r,
            G::Flat { u, v, .. } => len(*u).max(len(*v)),
        }
    }
}

/// a light made by `around`, larger and farther from the origin by a factor
pub fn scaled(o: &Obj, k: f64) -> Obj {
    match o.clone() {
        Obj::Sphere { c, r, m } => Obj::Sphere { c: mul(c, k), r: r * k, m },
        Obj::Quad { q, u, v, tf, m } => Obj::Quad { q: mul(q, k), u: mul(u, k), v: mul(v, k), tf, m },
        Obj::Tri { a, b, c, uv, tf, m } => Obj::Tri { a: mul(a, k), b: mul(b, k), c: mul(c, k), uv, tf, m },
        o => o,
    }
}

/// a light somewhere around the origin, at a distance of 2 to 12, roughly facing it; `front`: the emitting side faces it
pub fn around(m: BoxedStrategy<Mat>, front: bool) -> BoxedStrategy<Obj> {
    let sphere = (dir(), 2.0..12.0f64, 0.02..0.95f64, m.clone())
        .prop_map(|(d, a, f, m)| Obj::Sphere { c: mul(d, a), r: (a - 1.) * f, m });
    let flat = (dir(), 2.0..12.0f64, edges(0.1, 8.), any::<bool>(), dir(), m).prop_map(move |(d, a, (u, v), tri, turn, m)| {
        let (p, q, w) = basis(unit(add(d, mul(turn, 0.6))));
        let (bu, bv, bw) = basis(cross(u, v));
        let to = |x: V3| add(add(mul(p, dot(x, bu)), mul(q, dot(x, bv))), mul(w, dot(x, bw)));
        let (mut u, mut v) = (to(u), to(v));
        if front && dot(cross(u, v), d) > 0. {
            std::mem::swap(&mut u, &mut v);
        }
        let c = mul(d, a);
        if tri {
            let a = sub(c, mul(add(u, v), 1. / 3.));
            Obj::Tri { a, b: add(a, u), c: add(a, v), uv: None, tf: vec![], m }
        } else {
            Obj::Quad { q: sub(c, mul(add(u, v), 0.5)), u, v, tf: vec![], m }
        }
    });
    prop_oneof![1 => sphere, 2 => flat].boxed()
}
