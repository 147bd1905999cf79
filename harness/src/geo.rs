//! Reference geometry, independent of the code under test.
use serde::{Deserialize, Serialize};
use solstrale::geo::vec3::Vec3;

pub type V3 = [f64; 3];

pub fn v(x: f64, y: f64, z: f64) -> V3 {
    [x, y, z]
}
pub fn add(a: V3, b: V3) -> V3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn sub(a: V3, b: V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn mul(a: V3, s: f64) -> V3 {
    [a[0] * s, a[1] * s, a[2] * s]
}
pub fn had(a: V3, b: V3) -> V3 {
    [a[0] * b[0], a[1] * b[1], a[2] * b[2]]
}
pub fn dot(a: V3, b: V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross(a: V3, b: V3) -> V3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn len(a: V3) -> f64 {
    dot(a, a).sqrt()
}
pub fn unit(a: V3) -> V3 {
    mul(a, 1. / len(a))
}
pub fn neg(a: V3) -> V3 {
    mul(a, -1.)
}
pub fn dist(a: V3, b: V3) -> f64 {
    len(sub(a, b))
}
pub fn maxabs(a: V3) -> f64 {
    a[0].abs().max(a[1].abs()).max(a[2].abs())
}
pub fn at(o: V3, d: V3, t: f64) -> V3 {
    add(o, mul(d, t))
}
pub fn lerp3(q: V3, u: V3, a: f64, w: V3, b: f64) -> V3 {
    add(q, add(mul(u, a), mul(w, b)))
}

pub fn sv(a: V3) -> Vec3 {
    Vec3::new(a[0], a[1], a[2])
}
pub fn rv(a: Vec3) -> V3 {
    [a.x, a.y, a.z]
}

/// right-handed rotation about a unit axis (Rodrigues)
pub fn rotate(a: V3, axis: V3, rad: f64) -> V3 {
    let (s, c) = rad.sin_cos();
    add(add(mul(a, c), mul(cross(axis, a), s)), mul(axis, dot(axis, a) * (1. - c)))
}

/// an orthonormal basis (a, b, w) with w along n
pub fn basis(n: V3) -> (V3, V3, V3) {
    let w = unit(n);
    let mut k = 0;
    for i in 1..3 {
        if w[i].abs() < w[k].abs() {
            k = i;
        }
    }
    let mut e = [0.; 3];
    e[k] = 1.;
    let a = unit(cross(e, w));
    (a, cross(w, a), w)
}

/// One step of a transformation list
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Tf {
    Nop,
    Move(V3),
    RotX(f64),
    RotY(f64),
    RotZ(f64),
    Scale(f64),
    List(Vec<Tf>),
}

/// Reference semantics of a transformation, from its documentation: RotationX(90) takes y to -z,
/// RotationY(90) takes x to -z, RotationZ(90) takes x to -y.
pub fn apply(tf: &[Tf], p: V3, direction: bool) -> V3 {
    let mut p = p;
    for t in tf {
        p = match t {
            Tf::Nop => p,
            Tf::Move(d) => {
                if direction {
                    p
                } else {
                    add(p, *d)
                }
            }
            Tf::RotX(a) => rotate(p, [1., 0., 0.], -a.to_radians()),
            Tf::RotY(a) => rotate(p, [0., 1., 0.], a.to_radians()),
            Tf::RotZ(a) => rotate(p, [0., 0., 1.], -a.to_radians()),
            Tf::Scale(s) => mul(p, *s),
            Tf::List(l) => apply(l, p, direction),
        };
    }
    p
}

pub fn scale_of(tf: &[Tf]) -> f64 {
    let mut s = 1.;
    for t in tf {
        match t {
            Tf::Scale(x) => s *= x,
            Tf::List(l) => s *= scale_of(l),
            _ => {}
        }
    }
    s
}

/// A crossing of a ray with a surface
#[derive(Clone, Debug)]
pub struct Cross {
    pub t: f64,
    pub p: V3,
    /// geometric unit normal of the outside / winding side
    pub n: V3,
    /// how far (in world units or plane coordinates) this crossing is from not happening
    pub margin: f64,
}

/// crossings of a ray with a sphere; None if the decision is too close to tell
pub fn sphere_crossings(c: V3, r: f64, o: V3, d: V3) -> Option<Vec<Cross>> {
    let l = len(d);
    let u = mul(d, 1. / l);
    let oc = sub(c, o);
    let b = dot(oc, u);
    let perp = sub(oc, mul(u, b));
    let p = len(perp);
    let scale = len(oc) + r;
    if (p - r).abs() < 1e-6 * scale + 1e-9 {
        return None;
    }
    if p > r {
        return Some(vec![]);
    }
    let h = ((r - p) * (r + p)).sqrt();
    Some(
        [b - h, b + h]
            .iter()
            .map(|s| {
                let pt = at(o, u, *s);
                Cross { t: s / l, p: pt, n: unit(sub(pt, c)), margin: r - p }
            })
            .collect(),
    )
}

/// plane coordinates of the crossing of a ray with the plane q + a*u + b*v : (t, a, b, unit normal, cos)
pub fn plane_crossing(q: V3, u: V3, w: V3, o: V3, d: V3) -> Option<(f64, f64, f64, V3, f64)> {
    let n = cross(u, w);
    let nn = dot(n, n);
    let dn = dot(d, n);
    let cos = dn / (len(d) * nn.sqrt());
    if cos.abs() < 1e-12 {
        return None;
    }
    let t = dot(sub(q, o), n) / dn;
    let p = sub(at(o, d, t), q);
    let a = dot(cross(p, w), n) / nn;
    let b = dot(cross(u, p), n) / nn;
    Some((t, a, b, mul(n, 1. / nn.sqrt()), cos))
}

/// solid angle of the triangle (a,b,c) seen from o (Van Oosterom and Strackee)
pub fn tri_solid_angle(o: V3, a: V3, b: V3, c: V3) -> f64 {
    let (a, b, c) = (sub(a, o), sub(b, o), sub(c, o));
    let (la, lb, lc) = (len(a), len(b), len(c));
    let num = dot(a, cross(b, c)).abs();
    let den = la * lb * lc + dot(a, b) * lc + dot(a, c) * lb + dot(b, c) * la;
    2. * num.atan2(den).abs()
}

/// irradiance factor of a polygon above a point with normal n: (1/pi) * integral of cos over its solid angle
/// (Lambert's formula). The polygon must lie completely above the horizon.
pub fn polygon_form_factor(o: V3, n: V3, poly: &[V3]) -> f64 {
    let mut s = [0.; 3];
    for i in 0..poly.len() {
        let a = unit(sub(poly[i], o));
        let b = unit(sub(poly[(i + 1) % poly.len()], o));
        let c = cross(a, b);
        let l = len(c);
        if l < 1e-15 {
            continue;
        }
        let ang = l.atan2(dot(a, b));
        s = add(s, mul(c, ang / l));
    }
    (dot(s, n) / (2. * std::f64::consts::PI)).abs()
}
