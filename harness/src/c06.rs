//! C06: the hazard proximity grid against distances computed from scratch, along histories.
use crate::c17::un;
use crate::gen::*;
use crate::geo::*;
use crate::rec::Rec;
use crate::rng::{mix, Rng};
use crate::scene::*;
use jagua_rs::collision_detection::hazard::HazardEntity;
use jagua_rs::collision_detection::hpg::hpg_cell::HPGCell;
use jagua_rs::entities::layout::{Layout, LayoutSnapshot};
use jagua_rs::entities::item::Item;
use jagua_rs::geometry::geo_enums::AllowedRotation;
use jagua_rs::geometry::geo_traits::Shape;
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;
use jagua_rs::geometry::transformation::Transformation;
use jagua_rs::util::config::SPSurrogateConfig;
use serde_json::json;

/// proximity of point p to a static hazard: 0 inside
/// (lowest and highest acceptable value: close to the border, inside and outside cannot be told apart)
fn static_prox(h: &Haz, p: P2, wide: f64) -> (f64, f64) {
    let d = depth(p, &h.poly.pts);
    let free = if h.exterior() { d } else { -d };
    if free.abs() <= wide {
        (0.0, free.abs())
    } else {
        (free.max(0.0), free.max(0.0))
    }
}
fn lower(a: (f64, f64), b: (f64, f64)) -> (f64, f64) {
    (a.0.min(b.0), a.1.min(b.1))
}

struct Poles(Vec<(P2, f64)>);
impl Poles {
    fn prox(&self, p: P2) -> f64 {
        self.0.iter().map(|(c, r)| (dist(*c, p) - r).max(0.0)).fold(f64::MAX, f64::min)
    }
}
fn poles_of(sc: &Scene, e: &HazardEntity) -> Poles {
    match e {
        HazardEntity::PlacedItem { id, dt } => {
            let t = rigid(dt);
            Poles(sc.items[*id].shape.surrogate().poles.iter().map(|c| (t.apply(un(c.center)), c.radius as f64)).collect())
        }
        _ => unreachable!(),
    }
}

struct Model {
    /// static proximity per cell: universal, per quality
    statics: Vec<Option<((f64, f64), [(f64, f64); 10])>>,
    dirty: bool,
    /// an instant removal came after the lazy ones: it may or may not have flushed them too
    maybe: bool,
}

fn static_of(sc: &Scene, c: &HPGCell) -> ((f64, f64), [(f64, f64); 10]) {
    let p = un(c.centroid);
    let mut uni = (f64::MAX, f64::MAX);
    let mut qz = [uni; 10];
    let (_, wide) = bands(sc.m);
    for h in &sc.statics {
        let d = static_prox(h, p, wide);
        match h.ent {
            HazardEntity::InferiorQualityZone { quality, .. } => qz[quality] = lower(qz[quality], d),
            _ => uni = lower(uni, d),
        }
    }
    (uni, qz)
}

fn check_grid(rec: &mut Rec, sc: &Scene, model: &Model, r: &mut Rng, hist: &[String]) {
    let cde = sc.layout.cde();
    let got = cde.haz_prox_grid();
    let ctx = || format!("history {hist:?}; cfg {:?}; bin {:?}; items {:?}", sc.cfg, sc.bin, sc.items_spec.iter().map(|i| &i.shape).collect::<Vec<_>>());
    if model.dirty && !(model.maybe && got.is_ok()) {
        rec.count("dirty_states", 1);
        rec.check(got.is_err(), "dirty grid readable", || format!("grid readable with pending removals; {}", ctx()));
        return;
    }
    rec.count("clean_states", 1);
    let Ok(hpg) = got else {
        rec.check(false, "clean grid refused", || format!("grid refused without pending removals; {}", ctx()));
        return;
    };
    let poles: Vec<Poles> = sc.placed.iter().map(|(_, h)| poles_of(sc, &h.ent)).collect();
    let (ds, _) = bands(sc.m * 2.0);
    rec.check(hpg.grid.cells.len() == model.statics.len(), "cells", || "number of cells changed".to_string());
    for (k, c) in hpg.grid.cells.iter().enumerate() {
        let (Some(c), Some((suni, sqz))) = (c, model.statics[k]) else { continue };
        let p = un(c.centroid);
        let uni = poles.iter().map(|x| x.prox(p)).map(|d| (d, d)).fold(suni, lower);
        rec.nontrivial(mix(k as u64) ^ mix(hist.len() as u64));
        let qs: Vec<Option<usize>> = if sc.bin.zones.is_empty() {
            vec![None]
        } else {
            vec![None, Some(r.below(11)), Some(r.below(11))]
        };
        for ql in qs {
            let want = sqz[..ql.unwrap_or(10)].iter().cloned().fold(uni, lower);
            let g = c.hazard_proximity(ql) as f64;
            if !rec.check(g >= want.0 - ds && g <= want.1 + ds, "cell proximity", || {
                format!("cell {k} centre {p:?} quality {ql:?}: reports {g}, hazards are at {want:?} (static {suni:?}); placed {:?}; {}",
                    sc.placed.iter().map(|(_, h)| h.ent).collect::<Vec<_>>(), ctx())
            }) {
                return;
            }
        }
        if uni.0 > ds {
            // the closest hazard is named
            let named = match c.uni_prox.1 {
                HazardEntity::PlacedItem { .. } => sc.placed.iter().position(|(_, h)| h.ent == c.uni_prox.1).map(|i| poles[i].prox(p)),
                e => sc.statics.iter().find(|h| h.ent == e).map(|h| static_prox(h, p, 0.0).1),
            };
            rec.check(named.map_or(false, |d| (d - uni.0).abs() <= ds), "closest hazard", || {
                format!("cell {k} centre {p:?} names {:?} as its closest hazard (distance {named:?}, closest {uni:?}); {}", c.uni_prox.1, ctx())
            });
        }
    }
}

/// A feasible placement lies in a cell that admits it.
fn check_prune(rec: &mut Rec, sc: &Scene, r: &mut Rng) {
    let cde = sc.layout.cde();
    let Ok(hpg) = cde.haz_prox_grid() else { return };
    for _ in 0..12 {
        let i = r.below(sc.items.len());
        let item = &sc.items[i];
        let ql = sc.items_spec[i].quality;
        let d = if r.chance(0.5) { sc.query(r, i) } else { let p = sc.random_point(r, 0.0); let a = angle(r); sc.put(i, a, p) };
        let t = rigid(&d);
        let qp = sc.ipoly[i].moved(&t);
        let m = sc.mag(i, &t);
        // relevant to this item: everything but zones of at least its quality
        let ignored: Vec<HazardEntity> = sc
            .statics
            .iter()
            .filter(|h| matches!((h.ent, ql), (HazardEntity::InferiorQualityZone { quality, .. }, Some(q)) if quality >= q))
            .map(|h| h.ent)
            .collect();
        if sc.expected(&qp, &ignored, m) != V3::No {
            continue;
        }
        rec.count("feasible_placements", 1);
        let c = t.apply(un(item.shape.poi.center));
        let (ds, _) = bands(m);
        let mut inside = 0;
        for cell in hpg.grid.cells.iter().flatten() {
            let b = lib_bbox(&cell.bbox);
            if c[0] >= b[0] - ds && c[1] >= b[1] - ds && c[0] <= b[2] + ds && c[1] <= b[3] + ds {
                inside += 1;
            }
            if c[0] > b[0] + ds && c[1] > b[1] + ds && c[0] < b[2] - ds && c[1] < b[3] - ds {
                rec.check(cell.could_accommodate_item(item), "cell rules out a feasible placement", || {
                    format!("cell {b:?} (proximity {}) refuses item {i} (pole radius {}), but {:?} at r={} t={:?} is feasible; bin {:?}; placed {:?}",
                        cell.hazard_proximity(ql), item.shape.poi.radius, sc.items_spec[i].shape, d.rotation(), d.translation(), sc.bin,
                        sc.placed.iter().map(|(_, h)| h.ent).collect::<Vec<_>>())
                });
            }
        }
        rec.check(inside > 0, "no cell for a feasible placement", || {
            format!("no cell contains {c:?}, the centre of a feasible placement of item {i}; bin {:?} cfg {:?}", sc.bin, sc.cfg)
        });
    }
    // cells that refuse: try to refute them by placing the item inside
    for _ in 0..12 {
        let i = r.below(sc.items.len());
        let item = &sc.items[i];
        let cells: Vec<&HPGCell> = hpg.grid.cells.iter().flatten().filter(|c| !c.could_accommodate_item(item)).collect();
        if cells.is_empty() {
            continue;
        }
        rec.count("refusing_cells_probed", 1);
        let b = lib_bbox(&r.pick(&cells).bbox);
        let p = [r.range(b[0], b[2]), r.range(b[1], b[3])];
        let a = angle(r);
        let c = un(item.shape.poi.center);
        let rc = Rigid { r: a, t: [0.0, 0.0] }.apply(c);
        let d = dt(a, [p[0] - rc[0], p[1] - rc[1]]);
        let t = rigid(&d);
        let qp = sc.ipoly[i].moved(&t);
        let ql = sc.items_spec[i].quality;
        let ignored: Vec<HazardEntity> = sc
            .statics
            .iter()
            .filter(|h| matches!((h.ent, ql), (HazardEntity::InferiorQualityZone { quality, .. }, Some(q)) if quality >= q))
            .map(|h| h.ent)
            .collect();
        rec.check(sc.expected(&qp, &ignored, sc.mag(i, &t)) != V3::No, "cell rules out a feasible placement", || {
            format!("cell {b:?} refuses item {i}, but {:?} at r={} t={:?} is feasible; bin {:?}", sc.items_spec[i].shape, d.rotation(), d.translation(), sc.bin)
        });
    }
}

fn disc(rad: f64, n: usize, q: Option<usize>) -> (Item, Poly) {
    let pts: Vec<P2> = (0..n)
        .map(|k| {
            let a = 2.0 * std::f64::consts::PI * k as f64 / n as f64;
            qp([rad * a.cos(), rad * a.sin()])
        })
        .collect();
    let shape = SimplePolygon::new(pts.iter().map(|p| crate::c17::pt(*p)).collect());
    let sur = SPSurrogateConfig { pole_coverage_goal: 0.1, max_poles: 1, n_ff_poles: 0, n_ff_piers: 0 };
    (Item::new(900, shape, AllowedRotation::Continuous, q, 0, Transformation::empty(), sur), Poly::new(pts))
}
/// The smallest disc that a cell refuses must not fit anywhere in that cell.
fn check_tight(rec: &mut Rec, sc: &Scene, r: &mut Rng) {
    let Ok(hpg) = sc.layout.cde().haz_prox_grid() else { return };
    let cells: Vec<&HPGCell> = hpg.grid.cells.iter().flatten().collect();
    if cells.is_empty() {
        return;
    }
    for _ in 0..3 {
        let mut cell = *r.pick(&cells);
        for _ in 0..4 {
            // rather one with room
            let c = *r.pick(&cells);
            if c.hazard_proximity(None) > cell.hazard_proximity(None) {
                cell = c;
            }
        }
        let ql = if sc.bin.zones.is_empty() { None } else { *r.pick(&[None, Some(0), Some(3), Some(6), Some(10)]) };
        let n = r.int(16, 40) as usize;
        let b = lib_bbox(&cell.bbox);
        let rad = 0.5 * dist([b[0], b[1]], [b[2], b[3]]);
        let (mut lo, mut hi) = (rad * 0.5, 2.0 * (cell.hazard_proximity(ql) as f64 + rad));
        if !(hi < 4.0 * sc.s) || cell.could_accommodate_item(&disc(hi, n, ql).0) {
            continue;
        }
        for _ in 0..12 {
            let mid = 0.5 * (lo + hi);
            if cell.could_accommodate_item(&disc(mid, n, ql).0) {
                lo = mid
            } else {
                hi = mid
            }
        }
        let (item, poly) = disc(hi, n, ql);
        if cell.could_accommodate_item(&item) {
            continue;
        }
        rec.count("tight_discs", 1);
        let ignored: Vec<HazardEntity> = sc
            .statics
            .iter()
            .filter(|h| matches!((h.ent, ql), (HazardEntity::InferiorQualityZone { quality, .. }, Some(q)) if quality >= q))
            .map(|h| h.ent)
            .collect();
        for k in 0..10 {
            let f = if k < 4 { [(k % 2) as f64, (k / 2) as f64] } else { [r.f(), r.f()] };
            let p = [b[0] + f[0] * (b[2] - b[0]), b[1] + f[1] * (b[3] - b[1])];
            let a = angle(r);
            let c = un(item.shape.poi.center);
            let rc = Rigid { r: a, t: [0.0, 0.0] }.apply(c);
            let t = Rigid { r: a, t: [p[0] - rc[0], p[1] - rc[1]] };
            let m = sc.m.max(hi);
            rec.check(sc.expected(&poly.moved(&t), &ignored, m) != V3::No, "cell rules out a feasible placement", || {
                format!("cell {b:?} (proximity {}) refuses a regular {n}-gon of radius {hi} and quality {ql:?}, which fits centred at {p:?}; bin {:?}; placed {:?}",
                    cell.hazard_proximity(ql), sc.bin, sc.placed.iter().map(|(_, h)| h.ent).collect::<Vec<_>>())
            });
        }
        if rec.failed() {
            return;
        }
    }
}

pub fn run(_case: usize, r: &mut Rng, rec: &mut Rec) {
    let o = SceneOpts {
        hpg: Some(*r.pick(&[1, 4, 10, 20, 40, 80, 160, 400, 1000])),
        size: (0.03, 0.35),
        crowd: (0.02, 60),
        ..Default::default()
    };
    let mut sc = Scene::new(r, &o);
    rec.count("scenes", 1);
    let mut model = {
        let hpg = sc.layout.cde().haz_prox_grid().expect("fresh grid");
        rec.count("cells", hpg.grid.cells.iter().flatten().count() as u64);
        Model { statics: hpg.grid.cells.iter().map(|c| c.as_ref().map(|c| static_of(&sc, c))).collect(), dirty: false, maybe: false }
    };
    let mut hist: Vec<String> = vec![];
    let mut snaps: Vec<(LayoutSnapshot, Vec<(jagua_rs::entities::placed_item::PItemKey, Haz)>)> = vec![];
    let mut gone: Vec<(usize, jagua_rs::geometry::d_transformation::DTransformation)> = vec![];
    if sc.crowd > 0 {
        sc.fill(r);
        rec.count("crowded", 1);
    }
    check_grid(rec, &sc, &model, r, &hist);
    let steps = r.int(5, 22);
    for _ in 0..steps {
        if rec.verbose {
            eprintln!("history {hist:?}");
        }
        let op = r.below(12);
        let mut changed = true;
        if op < 5 || sc.placed.is_empty() {
            // place, at times where something was just removed
            let choice = if !gone.is_empty() && r.chance(0.4) {
                let k = r.below(gone.len());
                Some(gone.swap_remove(k))
            } else {
                let i = r.below(sc.items.len());
                sc.random_placement(r, i).map(|d| (i, d))
            };
            match choice {
                Some((i, d)) if !sc.is_duplicate(i, &d) => {
                    if rec.verbose {
                        eprintln!("place {i} r={} t={:?}", d.rotation(), d.translation());
                    }
                    sc.place(i, d);
                    hist.push(format!("place {i} r={} t={:?}", d.rotation(), d.translation()));
                }
                _ => changed = false,
            }
        } else if op < 9 {
            let k = r.below(sc.placed.len());
            let (key, h) = sc.placed.remove(k);
            let commit = r.chance(0.4);
            sc.layout.remove_item(key, commit);
            if !commit {
                model.dirty = true;
                model.maybe = false;
            } else {
                model.maybe = true;
            }
            if let HazardEntity::PlacedItem { id, dt } = h.ent {
                gone.push((id, dt));
            }
            hist.push(format!("remove {:?} commit={commit}", h.ent));
        } else if op == 9 {
            sc.layout.flush_changes();
            model.dirty = false;
            hist.push("flush".into());
        } else if op == 10 {
            let s = sc.layout.create_snapshot();
            model.dirty = false;
            snaps.push((s, sc.placed.clone()));
            hist.push(format!("snapshot {}", snaps.len() - 1));
        } else if !snaps.is_empty() {
            let k = r.below(snaps.len());
            sc.layout.restore(&snaps[k].0);
            sc.placed = snaps[k].1.clone();
            model.dirty = false;
            hist.push(format!("restore {k}"));
        } else {
            changed = false;
        }
        if changed {
            rec.count("operations", 1);
            check_grid(rec, &sc, &model, r, &hist);
        }
        if rec.failed() {
            return;
        }
    }
    if model.dirty {
        sc.layout.flush_changes();
        model.dirty = false;
        hist.push("flush".into());
        check_grid(rec, &sc, &model, r, &hist);
    }
    check_prune(rec, &sc, r);
    check_tight(rec, &sc, r);
    // a grid built from scratch with the same content
    let mut fresh = Layout::new(1, sc.layout.bin.clone());
    let mut order: Vec<usize> = (0..sc.placed.len()).collect();
    r.shuffle(&mut order);
    for k in order {
        if let HazardEntity::PlacedItem { id, dt } = sc.placed[k].1.ent {
            fresh.place_item(&sc.items[id], dt);
        }
    }
    let (ds, _) = bands(sc.m * 2.0);
    let (a, b) = (sc.layout.cde().haz_prox_grid().unwrap(), fresh.cde().haz_prox_grid().unwrap());
    for (x, y) in a.grid.cells.iter().zip(b.grid.cells.iter()) {
        match (x, y) {
            (Some(x), Some(y)) => {
                let same = (0..=10).all(|q| (x.hazard_proximity(Some(q)) as f64 - y.hazard_proximity(Some(q)) as f64).abs() <= ds);
                rec.check(same, "differs from a fresh grid", || format!("cell at {:?}: {:?} vs {:?}; history {hist:?}", x.centroid, x.uni_prox, y.uni_prox));
            }
            (None, None) => (),
            _ => {
                rec.check(false, "differs from a fresh grid", || "cell present in only one".into());
            }
        }
    }
    rec.sample(|| json!({"bin": sc.bin.outer, "cells": a.grid.cells.iter().flatten().count(), "history": hist}));
}
