//! Reference for paths over mirrors and glass (P17, P18).
use crate::geo::*;
use crate::scene::*;
use crate::spec::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solstrale::hittable::{Bvh, Hittable, Hittables};

fn emission(far: bool, max: f64) -> BoxedStrategy<Mat> {
    if far {
        (color(max), prop::option::weighted(0.85, logf(0.1, 100.))).prop_map(|(c, h)| Mat::Light(c, h)).boxed()
    } else {
        color(max).prop_map(|c| Mat::Light(c, None)).boxed()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Specular {
    pub objs: Vec<Obj>,
    pub fogs: Vec<(V3, f64, f64)>,
    pub bg: V3,
    pub depth: u32,
    pub ray: RaySpec,
}

/// `far`: lights with attenuation
pub fn specular(far: bool) -> BoxedStrategy<Specular> {
    let m = || {
        prop_oneof![
            3 => color(1.).prop_map(|c| Mat::Metal(c, 0.)),
            2 => (color(1.), 1.0..2.4f64).prop_map(|(c, i)| Mat::Glass(c, i)),
            2 => emission(far, 100.),
        ]
        .boxed()
    };
    let sph = |m: BoxedStrategy<Mat>| (point(5.), 0.3..3.0f64, m).prop_map(|(c, r, m)| Obj::Sphere { c, r, m }).boxed();
    let quad = |m: BoxedStrategy<Mat>| {
        (point(4.), edges(1., 12.), m)
            .prop_map(|(q, (u, v), m)| Obj::Quad { q: sub(q, mul(add(u, v), 0.5)), u, v, tf: vec![], m })
            .boxed()
    };
    (
        prop::collection::vec(prop_oneof![3 => sph(m()), 3 => quad(m()), 1 => box_obj(5., m())], 1..6),
        sph(emission(far, 20.)),
        prop::collection::vec((point(5.), 0.3..3.0f64, 0.05..1.0f64), 0..2),
        color(2.),
        // and how much larger everything is
        (prop_oneof![3 => 1u32..9, 1 => 9u32..13], prop_oneof![3 => Just(1.), 1 => logf(1., 300.)]),
        (point(0.7), point(10.), logf(0.1, 5.), any::<prop::sample::Index>()),
        // a room around everything
        prop::option::weighted(0.5, (11.0..15.0f64, prop_oneof![3 => color(1.).prop_map(|c| Mat::Metal(c, 0.)), 1 => emission(far, 100.)])),
    )
        .prop_map(|(mut objs, light, fogs, bg, (depth, k), (to, from, l, aim), room)| {
            objs.push(light);
            let to = add(to, aim.get(&objs).center());
            let mut d = sub(to, from);
            if len(d) < 0.5 {
                d = [0., 0., 1.];
            }
            if let Some((r, m)) = room {
                objs.insert(0, Obj::Boxx { a: [-r; 3], b: [r; 3], tf: vec![Tf::RotY(r * 20.)], m });
            }
            let objs = objs.iter().map(|o| grown(o, k)).collect();
            let fogs = fogs.into_iter().map(|(c, r, density)| (mul(c, k), r * k, density / k)).collect();
            Specular { objs, fogs, bg, depth, ray: RaySpec { o: mul(from, k), d: mul(unit(d), l) } }
        })
        .boxed()
}

/// traces mirrors, glass, lights and black fog, following both ways at glass
pub struct Ref {
    pub items: Vec<(Hittables, Mat)>,
    pub fogs: Vec<(V3, f64, f64)>,
    pub bg: V3,
    /// the largest coordinate
    size: f64,
    /// something was too close to tell
    pub close: bool,
    /// chance matters
    pub random: bool,
    pub deepest: u32,
    /// a light with attenuation was reached
    pub attenuated: bool,
}

impl Ref {
    fn fog(&mut self, o: V3, d: V3, end: f64) -> f64 {
        let mut depth = 0.;
        for (c, r, density) in &self.fogs {
            match sphere_crossings(*c, *r, o, d) {
                None => self.close = true,
                Some(x) if x.len() == 2 => {
                    let (a, b) = (x[0].t.max(0.), x[1].t.min(end));
                    let l = ((b - a) * len(d)).max(0.);
                    if x[1].t - x[0].t < 0.01 || (l > 0. && l < 0.01) {
                        self.close = true;
                    }
                    depth += l * density;
                }
                _ => {}
            }
        }
        if depth > 0. {
            self.random = true;
        }
        (-depth).exp()
    }
    pub fn new(s: &Specular) -> Ref {
        let items = s.objs.iter().flat_map(|o| o.build().into_iter().map(|h| (h, mat_of(o)))).collect();
        let size = s.objs.iter().map(extent).fold(maxabs(s.ray.o), f64::max);
        Ref { items, size, fogs: s.fogs.clone(), bg: s.bg, close: false, random: false, deepest: 0, attenuated: false }
    }
    /// the nearest object ahead, and how far the next one is
    fn nearest(&self, r: &RaySpec, from: f64) -> (Option<(f64, usize)>, f64) {
        let mut best: Option<(f64, usize)> = None;
        let mut second = f64::INFINITY;
        for (i, (h, _)) in self.items.iter().enumerate() {
            if let Some(x) = h.hit(&r.build(), &crate::hits::interval((from * 0.01, f64::INFINITY))) {
                // the surface the ray starts on
                if x.ray_length < from {
                    if let Some(x) = h.hit(&r.build(), &crate::hits::interval((from, f64::INFINITY))) {
                        push(&mut best, &mut second, x.ray_length, i);
                    }
                } else {
                    push(&mut best, &mut second, x.ray_length, i);
                }
            }
        }
        (best, second)
    }
    /// along the unit direction d, `gone`: distance travelled before
    pub fn see(&mut self, o: V3, d: V3, left: u32, hits: u32, gone: f64) -> V3 {
        // directions of length one: distances are ray lengths
        let r = RaySpec { o, d };
        let (best, second) = self.nearest(&r, 1e-5);
        // a hair's breadth aside the same must be seen
        let across = unit(cross(d, if d[0].abs() < 0.6 { [1., 0., 0.] } else { [0., 1., 0.] }));
        let down = cross(d, across);
        for (a, b) in [(1., 0.), (-0.5, 0.87), (-0.5, -0.87)] {
            let by = add(mul(across, a), mul(down, b));
            let aside = RaySpec { o: add(o, mul(by, 1e-6 * self.size)), d };
            if self.nearest(&aside, 0.05).0.map(|x| x.1) != best.map(|x| x.1) {
                self.close = true;
            }
        }
        let Some((t, i)) = best else {
            return mul(self.bg, self.fog(o, d, f64::INFINITY));
        };
        if t < 0.06 || second - t < 1e-5 {
            self.close = true;
        }
        let through = self.fog(o, d, t);
        if left == 0 {
            return [0.; 3];
        }
        self.deepest = self.deepest.max(hits + 1);
        let x = self.items[i].0.hit(&r.build(), &crate::hits::interval((t - 1e-6, t + 1e-6)));
        let Some(x) = x else {
            self.close = true;
            return [0.; 3];
        };
        let (p, n, front) = (rv(x.hit_point), rv(x.normal), x.front_face);
        let m = self.items[i].1.clone();
        let cos = -dot(d, n);
        if cos < 0.02 {
            self.close = true;
        }
        let c = match m {
            Mat::Light(c, h) => {
                if front {
                    match h {
                        Some(h) => {
                            self.attenuated = true;
                            mul(c, 1. / (1. + (gone + t) / h))
                        }
                        None => c,
                    }
                } else {
                    [0.; 3]
                }
            }
            Mat::Metal(c, _) => had(c, self.see(p, unit(add(d, mul(n, 2. * cos))), left - 1, hits + 1, gone + t)),
            Mat::Glass(c, ior) => {
                let k = if front { 1. / ior } else { ior };
                let sin2 = (1. - cos * cos).max(0.) * k * k;
                if (sin2 - 1.).abs() < 1e-5 {
                    self.close = true;
                }
                let r0 = ((1. - k) / (1. + k)).powi(2);
                let share = if sin2 > 1. { 1. } else { r0 + (1. - r0) * (1. - cos).powi(5) };
                let mut sum = mul(self.see(p, unit(add(d, mul(n, 2. * cos))), left - 1, hits + 1, gone + t), share);
                if share < 1. {
                    self.random = true;
                    let refr = add(mul(add(d, mul(n, cos)), k), mul(n, -(1. - sin2).sqrt()));
                    sum = add(sum, mul(self.see(p, unit(refr), left - 1, hits + 1, gone + t), 1. - share));
                }
                had(c, sum)
            }
            _ => unreachable!(),
        };
        mul(c, through)
    }
}

fn push(best: &mut Option<(f64, usize)>, second: &mut f64, t: f64, i: usize) {
    match best {
        Some((b, _)) if *b <= t => *second = second.min(t),
        Some((b, _)) => {
            *second = *b;
            *best = Some((t, i));
        }
        None => *best = Some((t, i)),
    }
}

fn extent(o: &Obj) -> f64 {
    match o {
        Obj::Sphere { c, r, .. } => maxabs(*c) + r,
        Obj::Quad { q, u, v, .. } => maxabs(*q) + maxabs(*u) + maxabs(*v),
        Obj::Boxx { a, b, .. } => 2. * maxabs(*a).max(maxabs(*b)),
        _ => unreachable!(),
    }
}

pub fn mat_of(o: &Obj) -> Mat {
    match o {
        Obj::Sphere { m, .. } | Obj::Quad { m, .. } | Obj::Tri { m, .. } | Obj::Boxx { m, .. } => m.clone(),
        _ => unreachable!(),
    }
}

impl Specular {
    pub fn lab(&self) -> Result<Lab, String> {
        let mut list: Vec<Hittables> = self.objs.iter().flat_map(|o| o.build()).collect();
        for (c, r, density) in &self.fogs {
            list.extend(Obj::Fog { of: Box::new(Obj::Sphere { c: *c, r: *r, m: matte(0.5) }), density: *density, color: [0.; 3] }.build());
        }
        Lab::tracing(Bvh::new(list), self.bg, self.depth)
    }
    pub fn brightest(&self) -> f64 {
        self.objs.iter().map(|o| if let Mat::Light(c, _) = mat_of(o) { maxabs(c) } else { 0. }).fold(maxabs(self.bg), f64::max).max(1e-9)
    }
}
