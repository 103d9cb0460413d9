//! C03: surrogates lie inside their shapes, respect their configuration and never contradict the shape.
use crate::c01::describe;
use crate::c16::special_polygon;
use crate::c17::{pt, un};
use crate::gen::*;
use crate::geo::*;
use crate::rec::Rec;
use crate::rng::{mix, Rng};
use crate::scene::*;
use jagua_rs::entities::layout::Layout;
use jagua_rs::geometry::geo_traits::{Transformable, TransformableFrom};
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;
use jagua_rs::geometry::fail_fast::sp_surrogate::SPSurrogate;
use jagua_rs::util::config::SPSurrogateConfig;
use serde_json::json;

/// The surrogate's circles and segments lie inside the polygon.
fn inside(rec: &mut Rec, poly: &[P2], sur: &SPSurrogate, t: Option<&Rigid>, m: f64, what: &str) {
    let (ds, _) = bands(m);
    let mv = |p: P2| p;
    let moved: Vec<P2> = match t {
        Some(t) => t.apply_all(poly),
        None => poly.to_vec(),
    };
    for (k, c) in sur.poles.iter().enumerate() {
        let (p, rad) = (mv(un(c.center)), c.radius as f64);
        let d = depth(p, &moved);
        rec.check(rad > 0.0 && d >= rad - ds, "pole leaks", || {
            format!("{what}: pole {k} at {p:?} radius {rad} but only {d} deep in {moved:?}")
        });
        let b = &sur.poles_bounding_circle;
        let o = dist(un(b.center), p) + rad - b.radius as f64;
        rec.check(o <= ds, "bounding circle of poles", || format!("{what}: pole {k} sticks out of the poles' bounding circle by {o}"));
    }
    for (k, e) in sur.piers.iter().enumerate() {
        let (a, b) = (mv(un(e.start)), mv(un(e.end)));
        // every part of the pier is inside or on the border
        let n = 24;
        for j in 0..=n {
            let f = j as f64 / n as f64;
            let p = [a[0] + (b[0] - a[0]) * f, a[1] + (b[1] - a[1]) * f];
            let d = depth(p, &moved);
            if !rec.check(d >= -ds, "pier leaks", || format!("{what}: pier {k} {a:?}-{b:?} is {} outside at {p:?} of {moved:?}", -d)) {
                break;
            }
        }
        for i in 0..moved.len() {
            let (c, d) = (moved[i], moved[(i + 1) % moved.len()]);
            let x = cross_margin(a, b, c, d).unwrap_or(0.0);
            rec.check(x <= ds, "pier crosses the border", || format!("{what}: pier {k} {a:?}-{b:?} crosses edge {c:?}-{d:?} of {moved:?}"));
        }
    }
}

fn structure(r: &mut Rng, rec: &mut Rec) {
    let s = scale(r);
    let mut p = special_polygon(r, s);
    if r.chance(0.7) {
        let k = *r.pick(&[0.3, 1.0, 3.0]);
        p = shift(&p, [r.range(-k, k) * s, r.range(-k, k) * s]);
    }
    let m = max_abs(&p);
    let cfg = SPSurrogateConfig {
        pole_coverage_goal: *r.pick(&[0.0, 0.3, 0.6, 0.9, 0.99]) as fsize,
        max_poles: *r.pick(&[0, 1, 2, 5, 10, 20]),
        n_ff_poles: *r.pick(&[0, 1, 2, 4, 50]),
        n_ff_piers: if cfg!(debug_assertions) || r.chance(0.04) { r.below(4) } else { 0 },
    };
    let mut sp = SimplePolygon::new(p.iter().map(|x| pt(*x)).collect());
    sp.generate_surrogate(cfg);
    let sur = sp.surrogate();
    rec.count("polygons", 1);
    rec.count("poles", sur.poles.len() as u64);
    rec.count("piers", sur.piers.len() as u64);
    rec.nontrivial(mix(p[0][0].to_bits()) ^ mix(p[1][1].to_bits()));
    let ctx = || format!("config {cfg:?}, polygon {p:?}");
    // numbers: at least the pole of inaccessibility, at most as configured
    rec.check(!sur.poles.is_empty() && sur.poles.len() <= cfg.max_poles.max(1), "number of poles", || format!("{} poles; {}", sur.poles.len(), ctx()));
    rec.check(sur.ff_poles().len() == cfg.n_ff_poles.min(sur.poles.len()), "number of fail-fast poles", || format!("{} fail-fast poles of {}; {}", sur.ff_poles().len(), sur.poles.len(), ctx()));
    rec.check(sur.ff_piers().len() == cfg.n_ff_piers, "number of piers", || format!("{} piers; {}", sur.ff_piers().len(), ctx()));
    rec.check(sur.ff_poles().iter().zip(&sur.poles).all(|(a, b)| a == b), "fail-fast poles", || ctx());
    let (ds, _) = bands(m);
    if sur.ff_poles().len() > 0 {
        let c = &sur.ff_poles()[0];
        rec.check(dist(un(c.center), un(sp.poi.center)) <= ds && (c.radius as f64 - sp.poi.radius as f64).abs() <= ds, "first pole", || {
            format!("the first fail-fast circle is not the pole of inaccessibility; {}", ctx())
        });
    }
    inside(rec, &p, sur, None, m, "as generated");
    // under transformations: copy, in place, into a reused buffer
    let mut buf = sp.clone();
    for _ in 0..6 {
        let d = dt(angle(r), [r.range(-2.0, 2.0) * s, r.range(-2.0, 2.0) * s]);
        let t = rigid(&d);
        let tf = d.compose();
        let mm = m.max(3.0 * s) * 2.0;
        let (ds, _) = bands(mm);
        let cl = sp.transform_clone(&tf);
        buf.transform_from(&sp, &tf);
        let mut sur2 = sur.clone();
        sur2.transform(&tf);
        let mut acc = sp.clone();
        acc.transform(&tf);
        for (name, x) in [("copy", cl.surrogate()), ("buffer", buf.surrogate()), ("in place", acc.surrogate()), ("surrogate alone", &sur2)] {
            let ok = x.poles.len() == sur.poles.len()
                && x.poles.iter().zip(&sur.poles).all(|(a, b)| dist(un(a.center), t.apply(un(b.center))) <= ds && a.radius == b.radius)
                && x.piers.len() == sur.piers.len()
                && x.piers.iter().zip(&sur.piers).all(|(a, b)| {
                    dist(un(a.start), t.apply(un(b.start))) <= ds && dist(un(a.end), t.apply(un(b.end))) <= ds
                })
                && dist(un(x.poles_bounding_circle.center), t.apply(un(sur.poles_bounding_circle.center))) <= ds
                && x.poles_bounding_circle.radius == sur.poles_bounding_circle.radius
                && x.n_ff_poles == sur.n_ff_poles
                && x.convex_hull_indices == sur.convex_hull_indices;
            rec.check(ok, "surrogate does not follow its shape", || format!("{name}: {x:?} is not {sur:?} moved by r={} t={:?}; {}", d.rotation(), d.translation(), ctx()));
        }
        inside(rec, &p, cl.surrogate(), Some(&t), mm, "moved");
    }
}

/// Verdicts with different surrogate configurations, including none, in the same situation.
fn verdicts(r: &mut Rng, rec: &mut Rec) {
    let o = SceneOpts { piers: false, hpg: Some(0), ..Default::default() };
    let mut sc = Scene::new(r, &o);
    // the same items with other surrogates
    let variants: Vec<Vec<SimplePolygon>> = (0..3)
        .map(|k| {
            sc.items
                .iter()
                .map(|it| {
                    let mut s = (*it.shape).clone();
                    s.surrogate = None;
                    let cfg = if k == 0 {
                        SPSurrogateConfig { pole_coverage_goal: 0.9, max_poles: 0, n_ff_poles: 0, n_ff_piers: 0 }
                    } else {
                        let mut c = surrogate_cfg(r, cfg!(debug_assertions));
                        c.max_poles = 12;
                        c.n_ff_poles = 12;
                        if cfg!(debug_assertions) && k == 2 {
                            c.n_ff_piers = 3;
                        }
                        c
                    };
                    s.generate_surrogate(cfg);
                    s
                })
                .collect()
        })
        .collect();
    sc.fill(r);
    for _ in 0..r.int(0, 10) {
        let i = r.below(sc.items.len());
        if let Some(d) = sc.random_placement(r, i) {
            if !sc.is_duplicate(i, &d) {
                sc.place(i, d);
            }
        }
    }
    let cde = sc.layout.cde();
    for _ in 0..30 {
        let (i, d) = sc.any_query(r);
        let ignored = sc.ignored(r);
        let t = rigid(&d);
        let qp = sc.ipoly[i].moved(&t);
        let m = sc.mag(i, &t);
        let exp = sc.expected(&qp, &ignored, m);
        let tf = d.compose();
        let base = cde.poly_collides(&sc.items[i].shape.transform_clone(&tf), &ignored);
        for (k, v) in variants.iter().enumerate() {
            let ff = cde.surrogate_collides(v[i].surrogate(), &tf, &ignored);
            let mut buf = v[i].clone();
            let both = cde.surrogate_or_poly_collides(&v[i], &tf, &mut buf, &ignored);
            rec.count("verdicts", 1);
            if ff {
                rec.count("fail_fast_hits", 1);
            }
            if k == 0 {
                rec.check(!ff, "empty surrogate collides", || "a surrogate without circles and segments collides".into());
            }
            rec.check(!(ff && exp == V3::No), "fail-fast collision is not real", || {
                format!("surrogate {:?} collides, the shape does not; ignored {ignored:?}; {}", v[i].surrogate(), describe(&sc, i, &d))
            });
            if exp != V3::Maybe {
                rec.nontrivial(mix(d.rotation().to_bits() as u64) ^ mix(d.translation().0.to_bits() as u64) ^ k as u64);
                rec.check(both == base, "surrogate changes the verdict", || {
                    format!("verdict {both} with surrogate {:?}, {base} with the polygon alone; ignored {ignored:?}; {}", v[i].surrogate(), describe(&sc, i, &d))
                });
            }
        }
        rec.sample(|| json!({"item": sc.items_spec[i].shape, "rotation": d.rotation(), "poles": variants[1][i].surrogate().poles.len(), "verdict": base}));
        if rec.failed() {
            return;
        }
    }
    let _ = Layout::new;
}

pub fn run(case: usize, r: &mut Rng, rec: &mut Rec) {
    if case % 2 == 0 {
        structure(r, rec)
    } else {
        verdicts(r, rec)
    }
}
