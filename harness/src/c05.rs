//! C05: a layout or engine with a history answers like a freshly built one.
use crate::c01::describe;
use crate::c02::probe_point;
use crate::c17::pt;
use crate::gen::*;
use crate::geo::*;
use crate::rec::Rec;
use crate::rng::{hash_str, mix, Rng};
use crate::scene::*;
use jagua_rs::collision_detection::cd_engine::{CDESnapshot, CDEngine};
use jagua_rs::collision_detection::hazard::{Hazard, HazardEntity};
use jagua_rs::entities::bin::Bin;
use jagua_rs::entities::instances::instance::Instance;
use jagua_rs::entities::layout::{Layout, LayoutSnapshot};
use jagua_rs::entities::placed_item::PItemKey;
use jagua_rs::geometry::d_transformation::DTransformation;
use jagua_rs::geometry::geo_traits::Transformable;
use jagua_rs::geometry::primitives::circle::Circle;
use jagua_rs::geometry::primitives::edge::Edge;
use serde_json::json;
use tribool::Tribool;

pub fn sorted(v: &[HazardEntity]) -> Vec<String> {
    let mut s: Vec<String> = v.iter().map(|e| format!("{e:?}")).collect();
    s.sort();
    s
}
fn contradict(a: Tribool, b: Tribool) -> bool {
    matches!((a, b), (Tribool::True, Tribool::False) | (Tribool::False, Tribool::True))
}

/// Compares two engines that should hold the same hazards on n queries each way.
pub fn agree(rec: &mut Rec, sc: &Scene, a: &CDEngine, b: &CDEngine, r: &mut Rng, n: usize, ctx: &dyn Fn() -> String) {
    let ents = |c: &CDEngine| sorted(&c.all_hazards().map(|h| h.entity).collect::<Vec<_>>());
    if !rec.check(ents(a) == ents(b), "hazards held", || format!("{:?} vs {:?}; {}", ents(a), ents(b), ctx())) {
        return;
    }
    for _ in 0..n {
        let (i, d) = sc.any_query(r);
        let ignored = sc.ignored(r);
        let tf = d.compose();
        let shape = sc.items[i].shape.transform_clone(&tf);
        let (x, y) = (a.poly_collides(&shape, &ignored), b.poly_collides(&shape, &ignored));
        rec.count(if y { "colliding_queries" } else { "free_queries" }, 1);
        rec.nontrivial(mix(d.rotation().to_bits() as u64) ^ mix(d.translation().0.to_bits() as u64) ^ i as u64);
        if !rec.check(x == y, "poly_collides", || format!("poly_collides {x}, fresh {y}; ignored {ignored:?}; {}; {}", describe(sc, i, &d), ctx())) {
            return;
        }
        let (mut u, mut v) = ((*sc.items[i].shape).clone(), (*sc.items[i].shape).clone());
        let x = a.surrogate_or_poly_collides(&sc.items[i].shape, &tf, &mut u, &ignored);
        let y = b.surrogate_or_poly_collides(&sc.items[i].shape, &tf, &mut v, &ignored);
        rec.check(x == y, "surrogate_or_poly_collides", || format!("{x}, fresh {y}; {}; {}", describe(sc, i, &d), ctx()));
        let (mut u, mut v) = (vec![], vec![]);
        a.collect_poly_collisions(&shape, &ignored, &mut u);
        b.collect_poly_collisions(&shape, &ignored, &mut v);
        rec.check(sorted(&u) == sorted(&v), "collect_poly_collisions", || {
            format!("{u:?}, fresh {v:?}; ignored {ignored:?}; {}; {}", describe(sc, i, &d), ctx())
        });
        let (mut u, mut v) = (vec![], vec![]);
        a.collect_surrogate_collisions(sc.items[i].shape.surrogate(), &tf, &ignored, &mut u);
        b.collect_surrogate_collisions(sc.items[i].shape.surrogate(), &tf, &ignored, &mut v);
        rec.check(sorted(&u) == sorted(&v), "collect_surrogate_collisions", || {
            format!("{u:?}, fresh {v:?}; ignored {ignored:?}; {}; {}", describe(sc, i, &d), ctx())
        });
        // probes
        let p = probe_point(r, sc);
        let o = probe_point(r, sc);
        for h in sc.hazards() {
            let (x, y) = (a.point_definitely_collides_with(&pt(p), h.ent), b.point_definitely_collides_with(&pt(p), h.ent));
            rec.check(!contradict(x, y), "point_definitely_collides_with", || format!("{p:?} {:?}: {x:?}, fresh {y:?}; {}", h.ent, ctx()));
        }
        if dist(p, o) > sc.s * 1e-3 {
            let e = Edge::new(pt(p), pt(o));
            let (x, y) = (a.edge_definitely_collides(&e, &ignored), b.edge_definitely_collides(&e, &ignored));
            rec.check(!contradict(x, y), "edge_definitely_collides", || format!("{e:?}: {x:?}, fresh {y:?}; {}", ctx()));
        }
        let c = Circle::new(pt(p), (sc.s * r.range(0.001, 0.2)) as fsize);
        let (x, y) = (a.circle_definitely_collides(&c, &ignored), b.circle_definitely_collides(&c, &ignored));
        rec.check(!contradict(x, y), "circle_definitely_collides", || format!("{c:?}: {x:?}, fresh {y:?}; {}", ctx()));
        if rec.failed() {
            return;
        }
    }
    // the proximity grid, when readable
    if sc.cfg.hpg_n_cells == 0 {
        return;
    }
    if let (Ok(x), Ok(y)) = (a.haz_prox_grid(), b.haz_prox_grid()) {
        let (ds, _) = bands(sc.m * 2.0);
        for (x, y) in x.grid.cells.iter().flatten().zip(y.grid.cells.iter().flatten()) {
            let q = Some(r.below(11));
            let (u, v) = (x.hazard_proximity(q) as f64, y.hazard_proximity(q) as f64);
            rec.check((u - v).abs() <= ds, "proximity grid", || format!("cell {:?}: {u}, fresh {v}; {}", x.centroid, ctx()));
        }
    }
}

/// Compares an engine with exact geometry on a few queries.
pub fn exact(rec: &mut Rec, sc: &Scene, a: &CDEngine, r: &mut Rng, n: usize, ctx: &dyn Fn() -> String) {
    for _ in 0..n {
        let (i, d) = sc.any_query(r);
        let ignored = sc.ignored(r);
        let t = rigid(&d);
        let qp = sc.ipoly[i].moved(&t);
        let want = sc.expected(&qp, &ignored, sc.mag(i, &t));
        if want == V3::Maybe {
            continue;
        }
        let got = a.poly_collides(&sc.items[i].shape.transform_clone(&d.compose()), &ignored);
        rec.check(got == (want == V3::Yes), "verdict against geometry", || {
            format!("poly_collides {got}, geometry {want:?}; ignored {ignored:?}; {}; {}", describe(sc, i, &d), ctx())
        });
    }
}

/// (item, transformation) of everything placed according to the model
pub fn content(sc: &Scene) -> Vec<(usize, DTransformation)> {
    sc.placed
        .iter()
        .map(|(_, h)| match h.ent {
            HazardEntity::PlacedItem { id, dt } => (id, dt),
            _ => unreachable!(),
        })
        .collect()
}

pub fn fresh_layout(sc: &Scene, bin: &Bin, r: &mut Rng) -> Layout {
    let mut fresh = Layout::new(77, bin.clone());
    let mut c = content(sc);
    r.shuffle(&mut c);
    for (i, d) in c {
        fresh.place_item(&sc.items[i], d);
    }
    fresh
}

/// Points the model at another container.
pub fn use_bin(sc: &mut Scene, b: &BinSpec) {
    sc.bin = b.clone();
    sc.statics = static_hazards(b);
    let ob = bbox(&b.outer);
    let d = (ob[2] - ob[0]).max(ob[3] - ob[1]) / 2.0;
    let c = [(ob[0] + ob[2]) / 2.0, (ob[1] + ob[3]) / 2.0];
    sc.square = [c[0] - d, c[1] - d, c[0] + d, c[1] + d];
    sc.m = ob.iter().fold(sc.m, |a, b| a.max(b.abs()));
}

fn pick_placement(sc: &Scene, r: &mut Rng, gone: &mut Vec<(usize, DTransformation)>) -> Option<(usize, DTransformation)> {
    let c = if !gone.is_empty() && r.chance(0.5) {
        let k = r.below(gone.len());
        Some(gone.swap_remove(k))
    } else {
        let i = r.below(sc.items.len());
        sc.random_placement(r, i).map(|d| (i, d))
    };
    c.filter(|(i, d)| !sc.is_duplicate(*i, d))
}

fn fits_square(sc: &Scene, b: &BinSpec) -> bool {
    let ob = bbox(&b.outer);
    let d = (ob[2] - ob[0]).max(ob[3] - ob[1]) / 2.0;
    let c = [(ob[0] + ob[2]) / 2.0, (ob[1] + ob[3]) / 2.0];
    let sq = [c[0] - d, c[1] - d, c[0] + d, c[1] + d];
    sc.placed.iter().all(|(_, h)| h.poly.bb[0] > sq[0] && h.poly.bb[1] > sq[1] && h.poly.bb[2] < sq[2] && h.poly.bb[3] < sq[3])
}

fn layout_history(r: &mut Rng, rec: &mut Rec) {
    let o = SceneOpts { piers: false, size: (0.03, 0.4), crowd: (0.02, 60), ..Default::default() };
    let mut sc = Scene::new(r, &o);
    rec.count("layout_histories", 1);
    if sc.crowd > 0 {
        sc.fill(r);
        rec.count("crowded", 1);
    }
    // a second container around the same place
    let mut specs = vec![sc.bin.clone()];
    let mut bins = vec![sc.layout.bin.clone()];
    {
        let mut b = bin_spec(r, sc.s, &o.bin);
        if !b.as_rect {
            let (ca, cb) = (bbox(&sc.bin.outer), bbox(&b.outer));
            let t = qp([(ca[0] + ca[2] - cb[0] - cb[2]) / 2.0, (ca[1] + ca[3] - cb[1] - cb[3]) / 2.0]);
            b.outer = shift(&b.outer, t);
            b.holes = b.holes.iter().map(|h| shift(h, t)).collect();
            b.zones = b.zones.iter().map(|(q, z)| (*q, shift(z, t))).collect();
        }
        let mut cfg = sc.cfg;
        if r.chance(0.3) {
            cfg.quadtree_depth = *r.pick(&[0, 2, 3, 5, 6]);
        }
        let inst = parse(&bp_json(&sc.items_spec, std::slice::from_ref(&b), false), cfg, false, None);
        if let Instance::BP(x) = inst {
            bins.push(x.bins[0].0.clone());
            specs.push(b);
        }
    }
    let mut cur = 0usize;
    let mut hist: Vec<String> = vec![];
    let mut gone = vec![];
    let mut snaps: Vec<(LayoutSnapshot, usize, Vec<(PItemKey, Haz)>)> = vec![];
    let steps = r.int(4, 26);
    for _ in 0..steps {
        let op = r.below(16);
        if op < 6 || sc.placed.is_empty() {
            if let Some((i, d)) = pick_placement(&sc, r, &mut gone) {
                // the proximity grid presumes that items lie inside the container
                if sc.cfg.hpg_n_cells > 0 && !sc.in_container(i, &d) {
                    continue;
                }
                if !fits_square_one(&sc, i, &d) {
                    continue;
                }
                sc.place(i, d);
                hist.push(format!("place {i} r={} t={:?}", d.rotation(), d.translation()));
            }
        } else if op < 11 {
            let k = r.below(sc.placed.len());
            let (key, h) = sc.placed.remove(k);
            let commit = r.chance(0.35);
            let pi = sc.layout.remove_item(key, commit);
            if let HazardEntity::PlacedItem { id, dt } = h.ent {
                rec.check(pi.item_id == id && pi.d_transf == dt, "removed item", || format!("removed {} {:?}, expected {:?}", pi.item_id, pi.d_transf, h.ent));
                gone.push((id, dt));
            }
            hist.push(format!("remove {:?} commit={commit}", h.ent));
        } else if op == 11 {
            sc.layout.flush_changes();
            hist.push("flush".into());
        } else if op == 12 {
            let s = sc.layout.create_snapshot();
            snaps.push((s, cur, sc.placed.clone()));
            hist.push(format!("snapshot {}", snaps.len() - 1));
        } else if op == 13 {
            if snaps.is_empty() {
                continue;
            }
            let k = r.below(snaps.len());
            hist.push(format!("restore {k}"));
            if r.chance(0.15) {
                sc.layout = Layout::from_snapshot(&snaps[k].0);
            } else {
                sc.layout.restore(&snaps[k].0);
            }
            cur = snaps[k].1;
            use_bin(&mut sc, &specs[cur]);
            sc.placed = snaps[k].2.clone();
            rec.count("restores", 1);
        } else if op == 14 {
            sc.layout = sc.layout.clone();
            hist.push("clone".into());
        } else {
            let to = 1 - cur;
            if to >= bins.len() || !fits_square(&sc, &specs[to]) {
                continue;
            }
            let mut probe = hist.len();
            if sc.cfg.hpg_n_cells > 0 {
                use_bin(&mut sc, &specs[to]);
                let ok = content(&sc).iter().all(|(i, d)| sc.in_container(*i, d));
                use_bin(&mut sc, &specs[cur]);
                if !ok {
                    probe = usize::MAX;
                }
            }
            if probe == usize::MAX {
                continue;
            }
            sc.layout.change_bin(bins[to].clone());
            cur = to;
            use_bin(&mut sc, &specs[to]);
            hist.push(format!("change_bin {to}"));
            rec.count("bin_swaps", 1);
        }
        rec.count("operations", 1);
        let ctx = || format!("history {hist:?}");
        let fresh = fresh_layout(&sc, &bins[cur], r);
        agree(rec, &sc, sc.layout.cde(), fresh.cde(), r, 5, &ctx);
        exact(rec, &sc, sc.layout.cde(), r, 4, &ctx);
        // what the layout says it holds
        let held: Vec<(PItemKey, usize, DTransformation)> = sc.layout.placed_items().iter().map(|(k, p)| (k, p.item_id, p.d_transf)).collect();
        rec.check(held.len() == sc.placed.len(), "placed items", || format!("{} items placed, expected {}; {}", held.len(), sc.placed.len(), ctx()));
        for (k, h) in &sc.placed {
            let ok = sc.layout.placed_items().get(*k).map_or(false, |p| HazardEntity::PlacedItem { id: p.item_id, dt: p.d_transf } == h.ent);
            rec.check(ok, "placed items", || format!("key {k:?} of {:?} not held; {}", h.ent, ctx()));
            let back = sc.layout.hazard_to_p_item_key(&h.ent);
            rec.check(back == Some(*k), "hazard_to_p_item_key", || format!("{:?} -> {back:?}, expected {k:?}; {}", h.ent, ctx()));
        }
        rec.check(sc.layout.is_empty() == sc.placed.is_empty(), "is_empty", ctx);
        if rec.failed() {
            return;
        }
    }
    rec.sample(|| json!({"mode": "layout", "bin": sc.bin.outer, "history": hist}));
}

fn fits_square_one(sc: &Scene, i: usize, d: &DTransformation) -> bool {
    let b = sc.ipoly[i].moved(&rigid(d)).bb;
    b[0] > sc.square[0] && b[1] > sc.square[1] && b[2] < sc.square[2] && b[3] < sc.square[3]
}

/// The engine used directly, with explicit commits.
fn engine_history(r: &mut Rng, rec: &mut Rec) {
    let o = SceneOpts { size: (0.03, 0.4), crowd: (0.02, 60), ..Default::default() };
    let mut sc = Scene::new(r, &o);
    rec.count("engine_histories", 1);
    let bin = sc.layout.bin.clone();
    let mut cde: CDEngine = bin.base_cde.as_ref().clone();
    let key = sc.layout.placed_items().keys().next().unwrap_or_default();
    let mut hist: Vec<String> = vec![];
    let mut gone = vec![];
    let mut snaps: Vec<(CDESnapshot, Vec<(PItemKey, Haz)>)> = vec![];
    let steps = r.int(4, 30);
    for _ in 0..steps {
        let op = r.below(15);
        if op < 6 || sc.placed.is_empty() {
            let Some((i, d)) = pick_placement(&sc, r, &mut gone) else { continue };
            let mut l = Layout::new(5, bin.clone());
            let k = l.place_item(&sc.items[i], d);
            let shape = l.placed_items()[k].shape.clone();
            let h = sc.haz_of(i, &d);
            cde.register_hazard(Hazard::new(h.ent, shape));
            hist.push(format!("register {:?}", h.ent));
            sc.placed.push((key, h));
        } else if op < 11 {
            let k = r.below(sc.placed.len());
            let (_, h) = sc.placed.remove(k);
            let commit = r.chance(0.3);
            cde.deregister_hazard(h.ent, commit);
            if let HazardEntity::PlacedItem { id, dt } = h.ent {
                gone.push((id, dt));
            }
            hist.push(format!("deregister {:?} commit={commit}", h.ent));
        } else if op == 11 {
            cde.commit_deregisters();
            rec.check(!cde.has_uncommitted_deregisters(), "uncommitted after a commit", || format!("{hist:?}"));
            hist.push("commit".into());
        } else if op == 12 {
            cde.flush_haz_prox_grid();
            hist.push("flush".into());
        } else if op == 13 {
            snaps.push((cde.create_snapshot(), sc.placed.clone()));
            rec.check(!cde.has_uncommitted_deregisters(), "uncommitted after a snapshot", || format!("{hist:?}"));
            hist.push(format!("snapshot {}", snaps.len() - 1));
        } else if !snaps.is_empty() {
            let k = r.below(snaps.len());
            hist.push(format!("restore {k}"));
            if r.chance(0.2) {
                cde = bin.base_cde.as_ref().clone();
            } else if r.chance(0.2) {
                cde = cde.clone();
            }
            cde.restore(&snaps[k].0);
            sc.placed = snaps[k].1.clone();
            rec.count("restores", 1);
        }
        rec.count("operations", 1);
        let ctx = || format!("engine history {hist:?}");
        let fresh = fresh_layout(&sc, &bin, r);
        agree(rec, &sc, &cde, fresh.cde(), r, 5, &ctx);
        exact(rec, &sc, &cde, r, 4, &ctx);
        if rec.failed() {
            return;
        }
    }
    rec.nontrivial(mix(hash_str(&format!("{hist:?}"))));
}

pub fn run(_case: usize, r: &mut Rng, rec: &mut Rec) {
    if r.chance(0.6) {
        layout_history(r, rec)
    } else {
        engine_history(r, rec)
    }
}
