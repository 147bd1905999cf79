//! P19: paths end after the configured number of surface hits.
use harness::ensure;
use harness::fw::*;
use harness::geo::*;
use harness::scene::*;
use harness::spec::*;
use harness::specular::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

// ---------------------------------------------------------------- known paths

fn check_known(s: &Specular, obs: &mut Obs) -> Res {
    if !s.fogs.is_empty() {
        return Ok(());
    }
    const MOST: u32 = 40;
    let mut deep = s.clone();
    deep.depth = MOST;
    let mut r = Ref::new(&deep);
    // the colour with no limit, and how many hits it takes
    let full = r.see(s.ray.o, unit(s.ray.d), MOST, 0, 0.);
    if r.close || r.random {
        return Ok(());
    }
    let hits = r.deepest;
    let endless = hits == MOST;
    for d in (0..=hits + 2).filter(|d| *d < 4 || *d + 3 > hits) {
        let mut c = s.clone();
        c.depth = d;
        let got = c.lab()?.see(&s.ray);
        let want = if d >= hits && !endless { full } else { [0.; 3] };
        if endless && d >= MOST {
            continue;
        }
        ensure!(
            dist(got, want) <= 1e-6 * maxabs(full).max(1e-6),
            "sees {got:?} with depth {d}; the path meets {hits} surfaces and ends with {full:?}"
        );
    }
    obs.label(if endless { "endless".to_string() } else { format!("{hits} hits") });
    obs.nontrivial_if(hits > 0 && maxabs(full) > 0.);
    Ok(())
}

fn no_glass(s: Specular) -> Specular {
    let swap = |m: Mat| if let Mat::Glass(c, _) = m { Mat::Metal(c, 0.) } else { m };
    let objs = s
        .objs
        .into_iter()
        .map(|o| match o {
            Obj::Sphere { c, r, m } => Obj::Sphere { c, r, m: swap(m) },
            Obj::Quad { q, u, v, tf, m } => Obj::Quad { q, u, v, tf, m: swap(m) },
            Obj::Boxx { a, b, tf, m } => Obj::Boxx { a, b, tf, m: swap(m) },
            o => o,
        })
        .collect();
    Specular { objs, fogs: vec![], ..s }
}

// ---------------------------------------------------------------- the same path under different limits

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Step {
    objs: Vec<Obj>,
    bg: V3,
    ray: RaySpec,
    seed: u64,
}

fn step() -> BoxedStrategy<Step> {
    let m = || prop_oneof![4 => surface_mat(), 1 => light_mat()].boxed();
    let small = prop_oneof![
        4 => sphere_obj(6., m()),
        4 => quad_obj(6., m()),
        1 => tri_obj(6., m()),
        2 => box_obj(6., m()),
        1 => fog_obj(6.),
    ];
    (
        prop::collection::vec(small, 1..6),
        sphere_obj(6., light_mat()),
        prop::option::weighted(0.4, (8.0..15.0f64, surface_mat())),
        color(1.),
        (point(6.), any_ray(5.), any::<u64>()),
    )
        .prop_map(|(mut objs, light, room, bg, (to, r, seed))| {
            objs.push(light);
            if let Some((a, m)) = room {
                objs.push(Obj::Boxx { a: [-a; 3], b: [a; 3], tf: vec![], m });
            }
            let l = len(r.d);
            let mut d = sub(to, r.o);
            if len(d) < 0.1 {
                d = r.d;
            }
            Step { objs, bg, ray: RaySpec { o: r.o, d: mul(unit(d), l) }, seed }
        })
        .boxed()
}

fn check_step(s: &Step, obs: &mut Obs) -> Res {
    let world = world_of(&s.objs);
    let mut labs = vec![];
    for d in [0, 1, 2, 3, 5, 8, 20, 60] {
        labs.push((d, Lab::tracing(world.clone(), s.bg, d)?));
    }
    // is the first thing the ray meets for certain a surface
    let sure = !s.objs.iter().any(|o| matches!(o, Obj::Fog { .. }));
    let meets = {
        use solstrale::hittable::Hittable;
        world.hit(&s.ray.build(), &solstrale::util::interval::RAY_INTERVAL).is_some()
    };
    for i in 0..6 {
        let mut seen: Vec<(u32, V3)> = vec![];
        for (d, lab) in &labs {
            fastrand::ctl::seeded(mix(s.seed ^ i));
            let c = lab.see(&s.ray);
            ensure!(finite3(c), "colour {c:?} with depth {d}");
            seen.push((*d, c));
        }
        let last = seen[seen.len() - 1].1;
        let mut full = false;
        for (d, c) in &seen {
            let same = *c == last;
            ensure!(
                same || (!full && maxabs(*c) == 0.),
                "the same path gives {c:?} with depth {d} and {last:?} with depth 60, in all {seen:?}"
            );
            if same && maxabs(last) > 0. {
                full = true;
            }
        }
        if sure && meets {
            ensure!(maxabs(seen[0].1) == 0., "sees {:?} with depth 0", seen[0].1);
        }
        let k = seen.iter().position(|x| x.1 == last).unwrap_or(9);
        obs.label(if maxabs(last) == 0. { "black".to_string() } else { format!("lit from depth {}", seen[k].0) });
        obs.nontrivial_if(k > 0);
    }
    Ok(())
}

// ---------------------------------------------------------------- counting the surfaces of a path

/// all surfaces of that brightness, all lights a tiny bit of green
fn even(o: &Obj, k: f64) -> Obj {
    fn even_mat(m: &Mat, k: f64) -> Mat {
        match m {
            Mat::Matte(_) => Mat::Matte([k; 3]),
            Mat::Metal(_, f) => Mat::Metal([k; 3], *f),
            Mat::Glass(_, i) => Mat::Glass([k; 3], *i),
            Mat::Light(_, h) => Mat::Light([0., FAINT, 0.], *h),
            Mat::Blend(a, b, f) => Mat::Blend(Box::new(even_mat(a, k)), Box::new(even_mat(b, k)), *f),
        }
    }
    let mut o = o.clone();
    match &mut o {
        Obj::Sphere { m, .. } | Obj::Quad { m, .. } | Obj::Tri { m, .. } | Obj::Boxx { m, .. } => *m = even_mat(m, k),
        Obj::Fog { color, .. } => *color = [k; 3],
        Obj::Group(l) => l.iter_mut().for_each(|o| *o = even(o, k)),
    }
    o
}

/// so faint that nothing is ever too bright
const FAINT: f64 = 1e-30;

fn check_counted(s: &Step, obs: &mut Obs) -> Res {
    let (a, b) = (0.9, 0.85);
    let world = |k: f64| world_of(&s.objs.iter().map(|o| even(o, k)).collect::<Vec<_>>());
    let sky = [FAINT, 0., 0.];
    const MOST: u32 = 400;
    let wa = world(a);
    let (la, lb) = (Lab::tracing(wa.clone(), sky, MOST)?, Lab::tracing(world(b), sky, MOST)?);
    for i in 0..8 {
        let see = |l: &Lab| {
            fastrand::ctl::seeded(mix(s.seed ^ i));
            l.see(&s.ray)
        };
        let (ca, cb) = (see(&la), see(&lb));
        // the light at the end, if any
        let Some(k) = (0..2).find(|k| ca[*k] > 1e-250) else {
            // it may have run out of numbers
            obs.label("dark");
            continue;
        };
        ensure!(ca[1 - k] == 0. && cb[k] > 0. && cb[1 - k] == 0., "the same random numbers lead to {ca:?} and {cb:?} with other colours");
        // every surface on the way made it darker by the same part
        let n = (cb[k] / ca[k]).ln() / (b / a as f64).ln();
        ensure!((n - n.round()).abs() < 1e-6 && n > -0.5, "brightness {} and {} with surfaces of {a} and {b}, as of {n} surfaces", ca[k], cb[k]);
        let n = n.round() as u32;
        // a light takes a hit, the background does not
        let need = n + k as u32;
        let mut depths = vec![need, need + 1];
        depths.extend(need.checked_sub(1));
        depths.extend(need.checked_sub(2));
        for d in depths {
            let got = see(&Lab::tracing(wa.clone(), sky, d)?);
            let want = if d >= need { ca } else { [0.; 3] };
            ensure!(
                got == want,
                "sees {got:?} with depth {d} instead of {want:?}: the way to the {} has {n} surfaces",
                ["background", "light"][k]
            );
        }
        obs.label(format!("{} {}", ["background", "light"][k], match n { 0..=3 => "up to 3", 4..=9 => "4 to 9", 10..=29 => "10 to 29", _ => "30 and more" }));
        obs.nontrivial_if(n > 0);
    }
    Ok(())
}

// ---------------------------------------------------------------- long paths of a known length

/// A ray through many panes that do not bend it, or to and fro between two mirrors.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Long {
    mirrors: bool,
    n: u32,
    /// brightness left after all surfaces
    left: V3,
    slant: f64,
    start: f64,
    length: f64,
    lamp: bool,
    light: V3,
    depths: Vec<u32>,
}

fn long() -> BoxedStrategy<Long> {
    let n = prop_oneof![2 => 1u32..40, 3 => 40u32..400, 1 => 400u32..2500];
    (
        (any::<bool>(), n, color(1.)),
        (0.0..1.0f64, 0.1..0.9f64, logf(0.1, 4.), any::<bool>()),
        (color(3.), prop::collection::vec(0u32..5000, 0..4)),
    )
        .prop_map(|((mirrors, n, left), (slant, start, length, lamp), (light, depths))| Long {
            mirrors,
            n,
            left: left.map(|v| v.max(0.05)),
            slant,
            start,
            length,
            lamp,
            light: light.map(|v| v + 0.1),
            depths,
        })
        .boxed()
}

fn check_long(s: &Long, obs: &mut Obs) -> Res {
    let n = s.n;
    let k = s.left.map(|v| v.powf(1. / n as f64));
    let mut objs = vec![];
    let ray;
    if s.mirrors {
        // mirrors at x = 0 and x = 1; at the top is the lamp, or they end there
        let rise = 0.2 + 2. * s.slant;
        let top = rise * n as f64;
        for x in [0., 1.] {
            objs.push(Obj::Quad { q: [x, -2. * rise, -9.], u: [0., top + 2. * rise, 0.], v: [0., 0., 18.], tf: vec![], m: Mat::Metal(k, 0.) });
        }
        if s.lamp {
            // its front is the side the ray comes from
            let q = Obj::Quad { q: [-1., top, -9.], u: [3., 0., 0.], v: [0., 0., 18.], tf: vec![], m: Mat::Light(s.light, None) };
            objs.push(q);
        }
        // the n-th reflection is a part of a crossing below the top
        let first = rise * (1. - s.start);
        let x = 1. - s.start;
        ray = RaySpec { o: [x, first - rise * (1. - x), 0.], d: mul(unit([1., rise, 0.]), s.length) };
    } else {
        let gap = 0.05 + s.slant;
        for i in 0..n {
            objs.push(Obj::Quad { q: [-5e3, -5e3, (i + 1) as f64 * gap], u: [1e4, 0., 0.], v: [0., 1e4, 0.], tf: vec![], m: Mat::Glass(k, 1.) });
        }
        if s.lamp {
            objs.push(Obj::Quad { q: [-5e3, -5e3, (n + 1) as f64 * gap], u: [0., 1e4, 0.], v: [1e4, 0., 0.], tf: vec![], m: Mat::Light(s.light, None) });
        }
        ray = RaySpec { o: [0., 0., gap * (1. - s.start)], d: mul(unit([0.02 * (s.start - 0.5), 0.01, 1.]), s.length) };
    }
    objs.push(Obj::Sphere { c: [-4e4, 0., -300.], r: 1., m: Mat::Light([1.; 3], None) });
    let world = world_of(&objs);
    // the lamp is one more surface, the background is not
    let hits = n + s.lamp as u32;
    let want = [0, 1, 2].map(|i| s.light[i] * s.left[i]);
    let mut depths = vec![0, 1, hits - 1, hits, hits + 1, u32::MAX];
    depths.extend(&s.depths);
    for d in depths {
        let lab = Lab::tracing(world.clone(), s.light, d)?;
        fastrand::ctl::seeded(s.n as u64);
        let got = lab.see(&ray);
        let want = if d >= hits { want } else { [0.; 3] };
        ensure!(
            dist(got, want) <= 1e-6 * maxabs(want).max(1e-6),
            "sees {got:?} with depth {d} behind {n} {}, {want:?} expected: {} takes {hits} hits",
            if s.mirrors { "reflections" } else { "panes" },
            if s.lamp { "the lamp" } else { "the background" }
        );
    }
    obs.label(format!("{} {}", if s.mirrors { "mirrors" } else { "panes" }, if n < 40 { "< 40" } else if n < 400 { "< 400" } else { "400 and more" }));
    obs.nontrivial_if(n > 1);
    Ok(())
}

// ---------------------------------------------------------------- closed rooms

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Room {
    round: bool,
    size: f64,
    c: V3,
    m: Mat,
    inside: Option<(f64, Mat)>,
    ray: RaySpec,
    depth: u32,
}

fn room() -> BoxedStrategy<Room> {
    let m = || {
        prop_oneof![
            color(1.).prop_map(|c| Mat::Metal(c, 0.)),
            Just(Mat::Metal([1.; 3], 0.)),
            (color(1.), 0.0..1.0f64).prop_map(|(c, f)| Mat::Metal(c, f)),
            // total reflection keeps most rays inside
            (1.5..3.0f64).prop_map(|i| Mat::Glass([1.; 3], i)),
            Just(Mat::Matte([1.; 3])),
            (0.0..1.0f64).prop_map(|f| Mat::Blend(Box::new(Mat::Metal([1.; 3], 0.)), Box::new(Mat::Matte([1.; 3])), f)),
        ]
    };
    (
        (any::<bool>(), logf(0.5, 20.), point(5.), m()),
        prop::option::of((0.05..0.5f64, m())),
        any_ray(1.),
        prop_oneof![0u32..10, 10u32..400, 400u32..3000],
    )
        .prop_map(|((round, size, c, m), inside, mut ray, depth)| {
            ray.o = add(c, mul(ray.o, 0.5 * size));
            ray.d = mul(ray.d, size.min(1.));
            Room { round, size, c, m, inside, ray, depth }
        })
        .boxed()
}

fn check_room(s: &Room, obs: &mut Obs) -> Res {
    let r = s.size;
    let mut objs = vec![
        if s.round {
            Obj::Sphere { c: s.c, r, m: s.m.clone() }
        } else {
            Obj::Boxx { a: sub(s.c, [r; 3]), b: add(s.c, [r; 3]), tf: vec![], m: s.m.clone() }
        },
        // far outside
        Obj::Sphere { c: add(s.c, [0., r * 100., 0.]), r: r * 0.1, m: Mat::Light([1.; 3], None) },
    ];
    if let Some((k, m)) = &s.inside {
        objs.push(Obj::Sphere { c: s.c, r: r * k, m: m.clone() });
    }
    let world = world_of(&objs);
    let lab = Lab::tracing(world.clone(), [1.; 3], s.depth)?;
    let t = std::time::Instant::now();
    // random numbers used by a path of depth 1, at most
    let used = |lab: &Lab, seed: u64| {
        fastrand::ctl::seeded(seed);
        fastrand::ctl::count(u64::MAX, u64::MAX, None);
        let c = lab.see(&s.ray);
        (fastrand::ctl::stop_count(), c)
    };
    for i in 0..3 {
        let (n, c) = used(&lab, mix(i));
        ensure!(finite3(c), "colour {c:?}");
        // a scattering uses a handful of numbers (points in the unit ball take more by chance)
        let most = 60 * (s.depth as u64 + 1) + 400;
        ensure!(n <= most, "{n} random numbers used for at most {} scatterings", s.depth);
    }
    ensure!(t.elapsed().as_secs() < 60, "three paths took {:?}", t.elapsed());
    obs.label(if s.depth >= 400 { "deep" } else { "shallow" });
    obs.nontrivial();
    Ok(())
}

fn main() {
    run_main(
        "P19",
        || {
            vec![
                facet("known path", "at least one surface and then light", 160_000, 1_600_000, specular(false).prop_map(no_glass), check_known),
                facet("limits", "the depth made a difference", 120_000, 1_200_000, step(), check_step),
                facet("counted", "at least one surface and then light", 40_000, 600_000, step(), check_counted),
                facet("long path", "more than one surface on the way", 8_000, 80_000, long(), check_long),
                facet("closed room", "every case", 40_000, 400_000, room(), check_room),
            ]
        },
        &["depths up to 3000; the number of scatterings in closed rooms is bounded through the random numbers used"],
    )
}
