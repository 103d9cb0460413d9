//! C02: collected collision sets against exact geometry, and the caller's buffer.
use crate::c01::{describe, populated};
use crate::c17::pt;
use crate::gen::*;
use crate::geo::*;
use crate::rec::Rec;
use crate::rng::{mix, Rng};
use crate::scene::*;
use jagua_rs::collision_detection::hazard::HazardEntity;
use jagua_rs::geometry::d_transformation::DTransformation;
use jagua_rs::geometry::geo_traits::Transformable;
use jagua_rs::geometry::primitives::aa_rectangle::AARectangle;
use jagua_rs::geometry::primitives::circle::Circle;
use jagua_rs::geometry::primitives::edge::Edge;
use serde_json::json;

/// Random buffer content: registered hazards, foreign entities, some of the ignored ones.
fn initial(r: &mut Rng, sc: &Scene, ignored: &[HazardEntity]) -> Vec<HazardEntity> {
    let mut v: Vec<HazardEntity> = vec![];
    match r.below(4) {
        0 | 1 => (),
        2 => v.extend(sc.hazards().map(|h| h.ent).filter(|_| r.chance(0.4))),
        _ => {
            v.extend(sc.hazards().map(|h| h.ent).filter(|_| r.chance(0.2)));
            v.extend(ignored.iter().cloned().filter(|_| r.chance(0.3)));
            for k in 0..r.below(3) {
                v.push(HazardEntity::PlacedItem { id: 900 + k, dt: dt(0.5, [1.0, 2.0]) });
            }
            v.push(HazardEntity::BinHole { id: 77 });
        }
    }
    v.sort_by_key(|e| mix(crate::rng::hash_str(&format!("{e:?}"))));
    v.dedup();
    r.shuffle(&mut v);
    v
}

/// What the buffer must look like regardless of geometry. Returns the newly reported entities.
fn buffer_ok(rec: &mut Rec, sc: &Scene, what: &str, init: &[HazardEntity], ignored: &[HazardEntity], out: &[HazardEntity]) -> Option<Vec<HazardEntity>> {
    let ctx = || format!("{what}: before {init:?}, ignored {ignored:?}, after {out:?}");
    if !rec.check(out.len() >= init.len() && &out[..init.len()] == init, "buffer prefix", || format!("earlier content of the buffer changed; {}", ctx())) {
        return None;
    }
    let new = out[init.len()..].to_vec();
    for (k, e) in new.iter().enumerate() {
        rec.check(!new[..k].contains(e) && !init.contains(e), "reported twice", || format!("{e:?} reported again; {}", ctx()));
        rec.check(!ignored.contains(e), "ignored reported", || format!("ignored {e:?} reported; {}", ctx()));
        rec.check(sc.hazards().any(|h| h.ent == *e), "unknown reported", || format!("{e:?} is not registered; {}", ctx()));
    }
    Some(new)
}

fn poly_query(r: &mut Rng, rec: &mut Rec, sc: &Scene) {
    let (i, d) = sc.any_query(r);
    let ignored = sc.ignored(r);
    let init = initial(r, sc, &ignored);
    let t = rigid(&d);
    let qp = sc.ipoly[i].moved(&t);
    let m = sc.mag(i, &t);
    let shape = sc.items[i].shape.transform_clone(&d.compose());
    let mut out = init.clone();
    sc.layout.cde().collect_poly_collisions(&shape, &ignored, &mut out);
    rec.count("poly_queries", 1);
    let Some(new) = buffer_ok(rec, sc, "collect_poly_collisions", &init, &ignored, &out) else {
        return;
    };
    let outside = sc.outside_square(&qp.bb, m);
    let mut hits = 0u64;
    for h in sc.hazards() {
        if ignored.contains(&h.ent) || init.contains(&h.ent) {
            continue;
        }
        let v = sc.verdict(&qp, h, m);
        if v == V3::Maybe {
            rec.count("unclear", 1);
            continue;
        }
        let want = v == V3::Yes;
        let got = new.contains(&h.ent);
        hits += want as u64;
        rec.count(if want { "expected_reported" } else { "expected_absent" }, 1);
        rec.check(got == want, if want { "poly: missing" } else { "poly: extra" }, || {
            format!(
                "collect_poly_collisions {} {:?} (query outside the square: {outside:?}); before {init:?}, ignored {ignored:?}, reported {new:?}; {}",
                if got { "reports" } else { "misses" },
                h.ent,
                describe(sc, i, &d)
            )
        });
    }
    if hits > 0 {
        rec.nontrivial(mix(d.rotation().to_bits() as u64) ^ mix(d.translation().0.to_bits() as u64) ^ i as u64);
    }
    if hits > 1 {
        rec.count("queries_hitting_several", 1);
        rec.sample(|| json!({"bin": sc.bin.outer, "placed": sc.placed.len(), "query_item": sc.items_spec[i].shape,
            "rotation": d.rotation(), "translation": [d.translation().0, d.translation().1],
            "reported": format!("{new:?}")}));
    }
    // the collecting and the yes/no query tell the same story
    if outside == V3::No && init.is_empty() {
        let any = sc.layout.cde().poly_collides(&shape, &ignored);
        let clear = sc.expected(&qp, &ignored, m) != V3::Maybe;
        if clear {
            rec.check(any == !new.is_empty(), "yes/no and collected differ", || {
                format!("poly_collides {any}, collected {new:?}; {}", describe(sc, i, &d))
            });
        }
    }
}

/// must/may for one probe and hazard: Some(true) must be reported, Some(false) must not, None free
fn probe_rule(p: Probe, exterior: bool) -> Option<bool> {
    match (p, exterior) {
        (Probe::Border, _) => Some(true),
        (Probe::Outside, false) => Some(false),
        (Probe::Inside, true) => Some(false),
        _ => None,
    }
}

fn check_probe(rec: &mut Rec, sc: &Scene, what: &str, desc: &str, ignored: &[HazardEntity], init: &[HazardEntity], new: &[HazardEntity], rule: impl Fn(&Haz) -> Option<bool>) {
    let mut hits = 0;
    for h in sc.hazards() {
        if ignored.contains(&h.ent) || init.contains(&h.ent) {
            continue;
        }
        match rule(h) {
            None => rec.count("unclear", 1),
            Some(want) => {
                let got = new.contains(&h.ent);
                hits += want as u64;
                rec.count(if want { "probe_expected" } else { "probe_absent" }, 1);
                rec.check(got == want, &format!("{what}: {}", if want { "missing" } else { "extra" }), || {
                    format!(
                        "{what} {desc}: {} {:?} (outline {:?}); before {init:?} ignored {ignored:?} reported {new:?}; cfg {:?}; bin {:?}; hazards {:?}",
                        if got { "reports" } else { "misses" },
                        h.ent,
                        h.poly.pts,
                        sc.cfg,
                        sc.bin,
                        sc.hazards().map(|h| h.ent).collect::<Vec<_>>()
                    )
                });
            }
        }
    }
    if hits > 0 {
        rec.nontrivial(mix(crate::rng::hash_str(desc)));
    }
}

pub fn probe_point(r: &mut Rng, sc: &Scene) -> P2 {
    let p = match r.below(4) {
        0 | 1 => sc.random_point(r, 0.1),
        2 => {
            let hs: Vec<&Haz> = sc.hazards().collect();
            let h = *r.pick(&hs);
            let k = r.below(h.poly.pts.len());
            let (a, b) = (h.poly.pts[k], h.poly.pts[(k + 1) % h.poly.pts.len()]);
            let t = r.f();
            let e = sc.s * 10f64.powf(r.range(-3.5, -1.0));
            [a[0] + (b[0] - a[0]) * t + r.range(-e, e), a[1] + (b[1] - a[1]) * t + r.range(-e, e)]
        }
        _ => {
            let hs: Vec<&Haz> = sc.hazards().collect();
            r.pick(&hs).poly.inner
        }
    };
    qp(p)
}

fn hazards_within(r: &mut Rng, rec: &mut Rec, sc: &Scene) {
    let ignored = sc.ignored(r);
    let init = initial(r, sc, &ignored);
    let (ds, _) = bands(sc.m * 2.0);
    let mut out = init.clone();
    let a = probe_point(r, sc);
    let cde = sc.layout.cde();
    rec.count("probe_queries", 1);
    match r.below(3) {
        0 => {
            let mut b = probe_point(r, sc);
            if r.chance(0.4) {
                let l = sc.s * 10f64.powf(r.range(-3.0, -0.5));
                b = qp([a[0] + r.range(-l, l), a[1] + r.range(-l, l)]);
            }
            if dist(a, b) < 20.0 * ds {
                return;
            }
            cde.hazards_within(&Edge::new(pt(a), pt(b)), &ignored, &mut out);
            let Some(new) = buffer_ok(rec, sc, "hazards_within(edge)", &init, &ignored, &out) else { return };
            check_probe(rec, sc, "edge", &format!("{a:?}-{b:?}"), &ignored, &init, &new, |h| {
                probe_rule(probe_seg(a, b, &h.poly.pts, ds), h.exterior())
            });
        }
        1 => {
            let rad = q(sc.s * 10f64.powf(r.range(-3.0, -0.2)));
            cde.hazards_within(&Circle::new(pt(a), rad as fsize), &ignored, &mut out);
            let Some(new) = buffer_ok(rec, sc, "hazards_within(circle)", &init, &ignored, &out) else { return };
            check_probe(rec, sc, "circle", &format!("{a:?} r {rad}"), &ignored, &init, &new, |h| {
                probe_rule(probe_circle(a, rad, &h.poly.pts, ds), h.exterior())
            });
        }
        _ => {
            let (w, h) = (sc.s * 10f64.powf(r.range(-3.0, -0.1)), sc.s * 10f64.powf(r.range(-3.0, -0.1)));
            let b = qp([a[0] + w, a[1] + h]);
            if b[0] - a[0] < 10.0 * ds || b[1] - a[1] < 10.0 * ds {
                return;
            }
            let rc = AARectangle::new(a[0] as fsize, a[1] as fsize, b[0] as fsize, b[1] as fsize);
            cde.hazards_within(&rc, &ignored, &mut out);
            let Some(new) = buffer_ok(rec, sc, "hazards_within(rectangle)", &init, &ignored, &out) else { return };
            check_probe(rec, sc, "rectangle", &format!("{a:?}-{b:?}"), &ignored, &init, &new, |hz| {
                probe_rule(probe_rect(&[a[0], a[1], b[0], b[1]], &hz.poly.pts, ds), hz.exterior())
            });
        }
    }
}

fn surrogate(r: &mut Rng, rec: &mut Rec, sc: &Scene) {
    let (i, d) = sc.any_query(r);
    let ignored = sc.ignored(r);
    let init = initial(r, sc, &ignored);
    let t = rigid(&d);
    let m = sc.mag(i, &t);
    let (ds, _) = bands(m);
    let sur = sc.items[i].shape.surrogate();
    let mut out = init.clone();
    sc.layout.cde().collect_surrogate_collisions(sur, &d.compose(), &ignored, &mut out);
    rec.count("surrogate_queries", 1);
    let Some(new) = buffer_ok(rec, sc, "collect_surrogate_collisions", &init, &ignored, &out) else { return };
    let poles: Vec<(P2, f64)> = sur.ff_poles().iter().map(|c| (t.apply([c.center.0 as f64, c.center.1 as f64]), c.radius as f64)).collect();
    let piers: Vec<(P2, P2)> = sur
        .ff_piers()
        .iter()
        .map(|e| (t.apply([e.start.0 as f64, e.start.1 as f64]), t.apply([e.end.0 as f64, e.end.1 as f64])))
        .collect();
    let desc = format!("item {i} {:?} r={} t={:?}", sc.items_spec[i].shape, d.rotation(), d.translation());
    check_probe(rec, sc, "surrogate", &desc, &ignored, &init, &new, |h| {
        let rules: Vec<Option<bool>> = poles
            .iter()
            .map(|(c, rad)| probe_rule(probe_circle(*c, *rad, &h.poly.pts, ds), h.exterior()))
            .chain(piers.iter().map(|(a, b)| probe_rule(probe_seg(*a, *b, &h.poly.pts, ds), h.exterior())))
            .collect();
        if rules.contains(&Some(true)) {
            Some(true)
        } else if rules.contains(&None) {
            None
        } else {
            Some(false)
        }
    });
    // a surrogate collides exactly when something is collected for it
    if init.is_empty() {
        let yes = sc.layout.cde().surrogate_collides(sur, &d.compose(), &ignored);
        rec.check(yes == !new.is_empty(), "surrogate yes/no and collected differ", || {
            format!("surrogate_collides {yes}, collected {new:?}; {}", describe(sc, i, &d))
        });
    }
}

pub fn run(_case: usize, r: &mut Rng, rec: &mut Rec) {
    let o = SceneOpts { piers: cfg!(debug_assertions), ..Default::default() };
    let sc = populated(r, &o, 16);
    rec.count("scenes", 1);
    for _ in 0..40 {
        poly_query(r, rec, &sc);
        hazards_within(r, rec, &sc);
        if r.chance(0.5) {
            surrogate(r, rec, &sc);
        }
        if rec.failed() {
            return;
        }
    }
}
