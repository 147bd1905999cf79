//! Reference for single surfaces and the comparison with the hit reported (P01, used by others too).
use crate::ensure;
use crate::fw::Res;
use crate::geo::*;
use crate::spec::*;
use solstrale::material::RayHit;
use solstrale::util::interval::Interval;

/// Expected answer: None = too close to call
pub type Expect = Option<Option<Cross>>;

/// crossings of one flat shape; `tri` for triangles. None = too close to call.
pub fn flat_crossing(q: V3, u: V3, w: V3, tri: bool, r: &RaySpec) -> Option<Option<Cross>> {
    let Some((t, a, b, n, cos)) = plane_crossing(q, u, w, r.o, r.d) else {
        return None;
    };
    let scale = dist(r.o, q) + len(u) + len(w);
    let smin = len(u).min(len(w));
    let eps = 1e-5 + 1e-12 * scale / (smin * cos.abs());
    let m = if tri { a.min(b).min(1. - a - b) } else { a.min(b).min(1. - a).min(1. - b) };
    if cos.abs() * len(r.d) < 1e-7 || cos.abs() < 1e-5 {
        return None;
    }
    if m.abs() < eps {
        return None;
    }
    if m < 0. {
        return Some(None);
    }
    Some(Some(Cross { t, p: lerp3(q, u, a, w, b), n, margin: m }))
}

/// picks the nearest crossing in the interval; None if an end is too close to a crossing
pub fn nearest(cs: &[Cross], iv: (f64, f64), tol: f64) -> Expect {
    let mut best: Option<Cross> = None;
    for c in cs {
        if (c.t - iv.0).abs() < tol || (c.t - iv.1).abs() < tol {
            return None;
        }
        if c.t > iv.0 && c.t < iv.1 && best.as_ref().is_none_or(|b| c.t < b.t) {
            best = Some(c.clone());
        }
    }
    Some(best)
}

/// compares a reported hit with the expected crossing
pub fn check_hit(what: &str, got: Option<&RayHit>, want: Option<&Cross>, r: &RaySpec, scale: f64) -> Res {
    match (got, want) {
        (None, None) => Ok(()),
        (Some(h), None) => Err(format!("{what}: hit at ray length {} although the ray crosses nothing there", h.ray_length)),
        (None, Some(c)) => Err(format!("{what}: no hit, but the ray crosses the surface at ray length {}", c.t)),
        (Some(h), Some(c)) => {
            let l = len(r.d);
            // rounding of coordinates, the more so the flatter the ray meets the surface
            let cos = dot(unit(r.d), c.n).abs();
            let tol = 1e-9 * scale / cos.max(1e-6);
            ensure!(
                (h.ray_length - c.t).abs() * l <= tol,
                "{what}: ray length {} should be {}",
                h.ray_length,
                c.t
            );
            let p = rv(h.hit_point);
            ensure!(dist(p, c.p) <= tol, "{what}: hit point {:?} should be {:?}", p, c.p);
            ensure!(
                dist(p, at(r.o, r.d, h.ray_length)) <= tol,
                "{what}: hit point {:?} is not on the ray at its ray length",
                p
            );
            let n = rv(h.normal);
            ensure!((len(n) - 1.).abs() < 1e-9, "{what}: normal {:?} is not of length one", n);
            let front = dot(r.d, c.n) < 0.;
            let want_n = if front { c.n } else { neg(c.n) };
            ensure!(dist(n, want_n) < 1e-7, "{what}: normal {:?} should be {:?}", n, want_n);
            ensure!(h.front_face == front, "{what}: front face flag is {}", h.front_face);
            Ok(())
        }
    }
}

pub fn interval(iv: (f64, f64)) -> Interval {
    Interval::new(iv.0, iv.1)
}

/// the six faces of an axis-aligned box before its transformation, with outward normals
pub fn box_faces(a: V3, b: V3, tf: &[Tf]) -> Vec<(V3, V3, V3)> {
    let lo = [a[0].min(b[0]), a[1].min(b[1]), a[2].min(b[2])];
    let hi = [a[0].max(b[0]), a[1].max(b[1]), a[2].max(b[2])];
    let mut out = vec![];
    for k in 0..3 {
        let (i, j) = ((k + 1) % 3, (k + 2) % 3);
        let mut ei = [0.; 3];
        ei[i] = hi[i] - lo[i];
        let mut ej = [0.; 3];
        ej[j] = hi[j] - lo[j];
        let mut q = lo;
        q[k] = hi[k];
        // e_i x e_j = +e_k: outward on the high side
        out.push((apply(tf, q, false), apply(tf, ei, true), apply(tf, ej, true)));
        out.push((apply(tf, lo, false), apply(tf, ej, true), apply(tf, ei, true)));
    }
    out
}
