//! C19: copies are independent, queries change nothing, concurrent use gives the sequential answers.
use crate::c02::probe_point;
use crate::c05::sorted;
use crate::c17::pt;
use crate::gen::*;
use crate::geo::*;
use crate::problems::*;
use crate::rec::Rec;
use crate::rng::{hash_str, mix, Rng};
use crate::scene::*;
use jagua_rs::collision_detection::cd_engine::{CDESnapshot, CDEngine};
use jagua_rs::collision_detection::hazard::{Hazard, HazardEntity};
use jagua_rs::entities::bin::Bin;
use jagua_rs::entities::instances::instance::Instance;
use jagua_rs::entities::instances::instance_generic::InstanceGeneric;
use jagua_rs::entities::item::Item;
use jagua_rs::entities::layout::{Layout, LayoutSnapshot};
use jagua_rs::entities::placed_item::{PItemKey, PlacedItem};
use jagua_rs::entities::problems::bin_packing::BPProblem;
use jagua_rs::entities::problems::problem::Problem;
use jagua_rs::entities::problems::problem_generic::ProblemGeneric;
use jagua_rs::entities::problems::strip_packing::SPProblem;
use jagua_rs::entities::solution::Solution;
use jagua_rs::geometry::d_transformation::DTransformation;
use jagua_rs::geometry::geo_traits::{Shape, Transformable};
use jagua_rs::geometry::primitives::circle::Circle;
use jagua_rs::geometry::primitives::edge::Edge;
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;
use serde_json::json;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicUsize, Ordering};

// ---------------------------------------------------------------- which types may cross threads

/// Shared or sent whatever the type says; only used after the type itself has been asked.
pub struct Crossing<T>(pub T);
unsafe impl<T> Send for Crossing<T> {}
unsafe impl<T> Sync for Crossing<T> {}
impl<T> Crossing<T> {
    pub fn get(&self) -> &T {
        &self.0
    }
    pub fn take(self) -> T {
        self.0
    }
}

trait No {
    const SHARED: bool = false;
    const SENT: bool = false;
}
impl<T> No for T {}
struct AskSync<T>(PhantomData<T>);
impl<T: Sync> AskSync<T> {
    const SHARED: bool = true;
}
struct AskSend<T>(PhantomData<T>);
impl<T: Send> AskSend<T> {
    const SENT: bool = true;
}
fn types(rec: &mut Rec) {
    macro_rules! ask {
        ($($t:ty),*) => {$(
            rec.check(<AskSync<$t>>::SHARED, "not shareable between threads", || stringify!($t).into());
            rec.check(<AskSend<$t>>::SENT, "not movable between threads", || stringify!($t).into());
            rec.count("types_asked", 1);
        )*};
    }
    ask!(CDEngine, CDESnapshot, Layout, LayoutSnapshot, BPProblem, SPProblem, Problem, Solution, Instance, Bin, Item, PlacedItem, SimplePolygon, Hazard, HazardEntity);
}

// ---------------------------------------------------------------- what an object answers

#[derive(Clone)]
struct Ask {
    i: usize,
    d: DTransformation,
    ignored: Vec<HazardEntity>,
    p: P2,
    o: P2,
    rad: f64,
}
fn ask(r: &mut Rng, sc: &Scene) -> Ask {
    let i = r.below(sc.items.len());
    Ask { i, d: sc.query(r, i), ignored: if r.chance(0.6) { vec![] } else { sc.ignored(r) }, p: probe_point(r, sc), o: probe_point(r, sc), rad: sc.s * r.range(0.001, 0.2) }
}

/// The answers of an engine to one question, as text.
fn answer(cde: &CDEngine, items: &[Item], a: &Ask, buf: &mut [SimplePolygon]) -> String {
    let it = &items[a.i];
    let tf = a.d.compose();
    let shape = it.shape.transform_clone(&tf);
    let x = cde.poly_collides(&shape, &a.ignored);
    let y = cde.surrogate_or_poly_collides(&it.shape, &tf, &mut buf[a.i], &a.ignored);
    let z = cde.surrogate_collides(it.shape.surrogate(), &tf, &a.ignored);
    let mut c = vec![];
    cde.collect_poly_collisions(&shape, &a.ignored, &mut c);
    let mut s = vec![];
    cde.collect_surrogate_collisions(it.shape.surrogate(), &tf, &a.ignored, &mut s);
    let e = if dist(a.p, a.o) > 0.0 { Some(format!("{:?}", cde.edge_definitely_collides(&Edge::new(pt(a.p), pt(a.o)), &a.ignored))) } else { None };
    let k = Circle::new(pt(a.p), a.rad as fsize);
    let kc = cde.circle_definitely_collides(&k, &a.ignored);
    let mut w = vec![];
    cde.hazards_within(&k, &a.ignored, &mut w);
    format!("{x} {y} {z} {:?} {:?} {e:?} {kc:?} {:?}", sorted(&c), sorted(&s), sorted(&w))
}
/// One scratch shape per item.
fn buffer(items: &[Item]) -> Vec<SimplePolygon> {
    items.iter().map(|i| (*i.shape).clone()).collect()
}

/// What an engine holds, independent of internal order.
fn holds(cde: &CDEngine) -> String {
    let mut v: Vec<String> = cde.all_hazards().map(|h| format!("{:?} {} {:x}", h.entity, h.active, shape_bits(&h.shape))).collect();
    v.sort();
    let g = if cde.config().hpg_n_cells > 0 {
        match cde.haz_prox_grid() {
            Ok(g) => {
                let mut h = 7u64;
                for c in g.grid.cells.iter().flatten() {
                    for q in [None, Some(0), Some(4), Some(10)] {
                        h = mix(h ^ c.hazard_proximity(q).to_bits() as u64);
                    }
                }
                format!("{h:x}")
            }
            Err(_) => "unreadable".into(),
        }
    } else {
        "none".into()
    };
    format!("{v:?} grid {g} pending {}", cde.has_uncommitted_deregisters())
}
fn shape_bits(p: &SimplePolygon) -> u64 {
    let mut h = 3u64;
    for q in &p.points {
        h = mix(h ^ q.0.to_bits() as u64);
        h = mix(h ^ (q.1.to_bits() as u64).rotate_left(7));
    }
    let b = p.bbox();
    for x in [b.x_min, b.y_min, b.x_max, b.y_max, p.area(), p.diameter(), p.poi.radius, p.poi.center.0, p.poi.center.1] {
        h = mix(h ^ x.to_bits() as u64);
    }
    h
}
fn item_bits(i: &Item) -> u64 {
    let mut h = shape_bits(&i.shape) ^ mix(i.id as u64);
    let s = i.shape.surrogate();
    for c in &s.poles {
        h = mix(h ^ c.radius.to_bits() as u64 ^ (c.center.0.to_bits() as u64).rotate_left(9) ^ (c.center.1.to_bits() as u64).rotate_left(21));
    }
    h
}
fn layout_text(l: &Layout) -> String {
    let mut v: Vec<String> = l.placed_items().iter().map(|(k, p)| format!("{k:?} {} {:?} {:x}", p.item_id, p.d_transf, shape_bits(&p.shape))).collect();
    v.sort();
    format!("layout {} bin {} {:?} usage {} items {v:?} engine {}", l.id(), l.bin.id, l.bin.bbox(), l.usage(), holds(l.cde()))
}
fn snapshot_text(s: &LayoutSnapshot) -> String {
    let mut v: Vec<String> = s.placed_items.iter().map(|(k, p)| format!("{k:?} {} {:?} {:x}", p.item_id, p.d_transf, shape_bits(&p.shape))).collect();
    v.sort();
    format!("snapshot {} bin {} usage {} items {v:?}", s.id, s.bin.id, s.usage)
}

fn allowed(sc: &Scene, i: usize, d: &DTransformation) -> bool {
    let b = sc.ipoly[i].moved(&rigid(d)).bb;
    let inside = b[0] > sc.square[0] && b[1] > sc.square[1] && b[2] < sc.square[2] && b[3] < sc.square[3];
    inside && !sc.is_duplicate(i, d) && (sc.cfg.hpg_n_cells == 0 || sc.in_container(i, d))
}

// ---------------------------------------------------------------- families of layouts and engines

#[derive(Clone)]
enum Thing {
    Layout(Layout),
    Engine(CDEngine),
    Snap(LayoutSnapshot),
    EngineSnap(CDESnapshot),
}
struct Member {
    thing: Thing,
    placed: Vec<(PItemKey, Haz)>,
}
fn see(t: &Thing, base: &CDEngine, items: &[Item], asks: &[Ask]) -> String {
    let mut buf = buffer(items);
    let mut all = |c: &CDEngine| asks.iter().map(|a| answer(c, items, a, &mut buf)).collect::<Vec<_>>().join("|");
    match t {
        Thing::Layout(l) => format!("{} answers {}", layout_text(l), all(l.cde())),
        Thing::Engine(c) => format!("{} answers {}", holds(c), all(c)),
        Thing::Snap(s) => {
            let l = Layout::from_snapshot(s);
            format!("{} restored {} answers {}", snapshot_text(s), layout_text(&l), all(l.cde()))
        }
        Thing::EngineSnap(s) => {
            let mut c = base.clone();
            c.restore(s);
            format!("{} answers {}", holds(&c), all(&c))
        }
    }
}
/// First place where two texts differ.
fn differ(a: &str, b: &str) -> String {
    let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| s.chars().skip(n.saturating_sub(60)).take(200).collect::<String>();
    format!("before ...{}... after ...{}...", cut(a), cut(b))
}

fn family(r: &mut Rng, rec: &mut Rec) {
    let o = SceneOpts { size: (0.03, 0.4), ..Default::default() };
    let mut sc = Scene::new(r, &o);
    let bin = sc.layout.bin.clone();
    let base = bin.base_cde.clone();
    let engines = r.chance(0.4);
    let key = PItemKey::default();
    let first = if engines { Thing::Engine((*base).clone()) } else { Thing::Layout(Layout::new(3, bin.clone())) };
    let mut all = vec![Member { thing: first, placed: vec![] }];
    let item_marks: Vec<u64> = sc.items.iter().map(item_bits).collect();
    let mut hist: Vec<String> = vec![];
    let steps = r.int(6, 24);
    for _ in 0..steps {
        let living: Vec<usize> = all.iter().enumerate().filter(|(_, m)| matches!(m.thing, Thing::Layout(_) | Thing::Engine(_))).map(|(k, _)| k).collect();
        let t = *r.pick(&living);
        sc.placed = all[t].placed.clone();
        // questions about the one that changes and about some other one
        let mut asks: Vec<Ask> = (0..4).map(|_| ask(r, &sc)).collect();
        let op = r.below(16);
        let placement = (0..8).find_map(|_| {
            let i = r.below(sc.items.len());
            sc.random_placement(r, i).filter(|d| allowed(&sc, i, d)).map(|d| (i, d))
        });
        if let Some((i, d)) = placement {
            asks.push(Ask { i, d, ..ask(r, &sc) });
        }
        let other = r.below(all.len());
        sc.placed = all[other].placed.clone();
        asks.extend((0..3).map(|_| ask(r, &sc)));
        sc.placed = all[t].placed.clone();
        let before: Vec<String> = all.iter().map(|m| see(&m.thing, &base, &sc.items, &asks)).collect();
        let base_before = format!("{} {}", holds(&base), asks.iter().map(|a| answer(&base, &sc.items, a, &mut buffer(&sc.items))).collect::<Vec<_>>().join("|"));
        // asking again changes nothing
        for (m, b) in all.iter().zip(&before) {
            let again = see(&m.thing, &base, &sc.items, &asks);
            rec.check(*b == again, "changed by queries", || format!("{}; history {hist:?}", differ(b, &again)));
        }
        rec.count("asked_again", all.len() as u64);
        let n = all.len();
        let mut touched = Some(t);
        let done = if op < 6 {
            let Some((i, d)) = placement else { continue };
            let h = sc.haz_of(i, &d);
            let m = &mut all[t];
            let k = match &mut m.thing {
                Thing::Layout(l) => l.place_item(&sc.items[i], d),
                Thing::Engine(c) => {
                    let mut l = Layout::new(5, bin.clone());
                    let k = l.place_item(&sc.items[i], d);
                    c.register_hazard(Hazard::new(h.ent, l.placed_items()[k].shape.clone()));
                    key
                }
                _ => unreachable!(),
            };
            m.placed.push((k, h));
            format!("place {i} {d:?}")
        } else if op < 10 {
            let m = &mut all[t];
            if m.placed.is_empty() {
                continue;
            }
            let (k, h) = m.placed.swap_remove(r.below(m.placed.len()));
            let commit = r.chance(0.4);
            match &mut m.thing {
                Thing::Layout(l) => drop(l.remove_item(k, commit)),
                Thing::Engine(c) => c.deregister_hazard(h.ent, commit),
                _ => unreachable!(),
            }
            format!("remove {:?} commit={commit}", h.ent)
        } else if op == 10 {
            match &mut all[t].thing {
                Thing::Layout(l) => l.flush_changes(),
                Thing::Engine(c) => {
                    c.commit_deregisters();
                    c.flush_haz_prox_grid();
                }
                _ => unreachable!(),
            }
            "flush".into()
        } else if op < 13 {
            if n >= 6 {
                // an original may go while its copies stay
                if r.chance(0.5) && living.len() > 1 {
                    all.remove(t);
                    touched = None;
                }
                if touched.is_some() {
                    continue;
                }
                "drop".into()
            } else {
                let thing = match (&all[t].thing, r.chance(0.3)) {
                    (Thing::Layout(l), true) => Thing::Layout(l.clone_with_id(40 + n)),
                    (x, _) => x.clone(),
                };
                let m = Member { thing, placed: all[t].placed.clone() };
                all.push(m);
                rec.count("clones", 1);
                touched = None;
                format!("clone {t}")
            }
        } else if op == 13 {
            if n >= 6 {
                continue;
            }
            let placed = all[t].placed.clone();
            let thing = match &mut all[t].thing {
                Thing::Layout(l) => Thing::Snap(l.create_snapshot()),
                Thing::Engine(c) => Thing::EngineSnap(c.create_snapshot()),
                _ => unreachable!(),
            };
            all.push(Member { thing, placed });
            rec.count("snapshots", 1);
            format!("snapshot of {t}")
        } else {
            let snaps: Vec<usize> = all.iter().enumerate().filter(|(_, m)| matches!(m.thing, Thing::Snap(_) | Thing::EngineSnap(_))).map(|(k, _)| k).collect();
            if snaps.is_empty() {
                continue;
            }
            let s = *r.pick(&snaps);
            let (x, placed) = (all[s].thing.clone(), all[s].placed.clone());
            if let (Thing::Layout(l), Thing::Snap(y)) = (&all[t].thing, &x) {
                if l.id() != y.id {
                    continue; // a layout is only restored to snapshots of its own
                }
            }
            match (&mut all[t].thing, &x) {
                (Thing::Layout(l), Thing::Snap(y)) => l.restore(y),
                (Thing::Engine(c), Thing::EngineSnap(y)) => c.restore(y),
                _ => unreachable!(),
            }
            all[t].placed = placed;
            rec.count("restores", 1);
            format!("restore {t} to {s}")
        };
        hist.push(format!("[{t}] {done}"));
        rec.count("operations", 1);
        // everything else is as before
        if done == "drop" {
            let mut b = before.clone();
            b.remove(t);
            for (m, b) in all.iter().zip(&b) {
                let after = see(&m.thing, &base, &sc.items, &asks);
                rec.check(*b == after, "changed by dropping another", || format!("{}; history {hist:?}", differ(b, &after)));
            }
        } else {
            for (k, b) in before.iter().enumerate() {
                if Some(k) == touched {
                    continue;
                }
                let after = see(&all[k].thing, &base, &sc.items, &asks);
                rec.count("others_compared", 1);
                rec.check(*b == after, "changed through another", || format!("member {k}: {}; history {hist:?}; bin {:?} items {:?}", differ(b, &after), sc.bin, sc.items_spec));
            }
            // a clone answers like its original
            if all.len() > n && done.starts_with("clone") {
                let after = see(&all[n].thing, &base, &sc.items, &asks);
                let strip = |s: &str| s.split_once(" bin ").map_or(s.to_string(), |x| x.1.to_string());
                let (x, y) = match all[n].thing {
                    Thing::Layout(_) => (strip(&before[t]), strip(&after)),
                    _ => (before[t].clone(), after),
                };
                rec.check(x == y, "clone differs", || format!("{}; history {hist:?}", differ(&x, &y)));
            }
        }
        let after = format!("{} {}", holds(&base), asks.iter().map(|a| answer(&base, &sc.items, a, &mut buffer(&sc.items))).collect::<Vec<_>>().join("|"));
        rec.check(base_before == after, "container changed", || format!("{}; history {hist:?}", differ(&base_before, &after)));
        let marks: Vec<u64> = sc.items.iter().map(item_bits).collect();
        rec.check(marks == item_marks, "items changed", || format!("history {hist:?}"));
        rec.nontrivial(mix(hash_str(&before.join("/"))));
        if rec.failed() {
            return;
        }
    }
    rec.sample(|| json!({"mode": if engines {"engines"} else {"layouts"}, "history": hist}));
}

// ---------------------------------------------------------------- problems and solutions

fn problem_text(p: &Problem, items: &[Item], asks: &[Ask]) -> String {
    let mut buf = buffer(items);
    let l: Vec<String> = p
        .layouts()
        .iter()
        .map(|l| format!("{} answers {}", layout_text(l), asks.iter().map(|a| answer(l.cde(), items, a, &mut buf)).collect::<Vec<_>>().join("|")))
        .collect();
    format!("missing {:?} bins {:?} cost {} layouts {l:?}", p.missing_item_qtys(), p.bin_qtys(), p.used_bin_cost())
}
fn solution_text(s: &Solution, items: &[Item], asks: &[Ask]) -> String {
    let mut buf = buffer(items);
    let l: Vec<String> = s
        .layout_snapshots
        .iter()
        .map(|l| {
            let f = Layout::from_snapshot(l);
            format!("{} answers {}", snapshot_text(l), asks.iter().map(|a| answer(f.cde(), items, a, &mut buf)).collect::<Vec<_>>().join("|"))
        })
        .collect();
    format!("usage {} placed {:?} target {:?} bins {:?} layouts {l:?}", s.usage, s.placed_item_qtys, s.target_item_qtys, s.bin_qtys)
}

fn problems(r: &mut Rng, rec: &mut Rec) {
    let strip = r.chance(0.4);
    let hpg = r.chance(0.3);
    let w = if strip { World::strip(r, hpg) } else { World::bins(r, hpg) };
    let mut runs = vec![Run::new(&w, r, 0)];
    let mut sols: Vec<(Solution, Model)> = vec![];
    let mut hist: Vec<String> = vec![];
    let mut fresh_id = 1_000_000;
    let ext = [0.0, 0.0, q(w.s * 1.5), w.strip_height];
    let mut probe = if strip { w.strip_scene(&ext) } else { Scene::from_parts(w.bins[0].clone(), w.items_spec.clone(), w.items.clone(), w.cfg, w.bin_objs[0].clone()) };
    let marks: Vec<u64> = w.instance.items().iter().map(|(i, _)| item_bits(i)).collect();
    for _ in 0..r.int(6, 22) {
        let ri = r.below(runs.len());
        // questions around what the chosen problem holds
        let m = runs[ri].m.clone();
        probe.placed = m.layouts.values().next().map_or(vec![], |l| l.items.iter().map(|(k, i, d)| (*k, w.haz(*i, d))).collect());
        let asks: Vec<Ask> = (0..5).map(|_| ask(r, &probe)).collect();
        let before: Vec<String> = runs.iter().map(|x| problem_text(&x.p, &w.items, &asks)).collect();
        let sol_before: Vec<String> = sols.iter().map(|s| solution_text(&s.0, &w.items, &asks)).collect();
        for (x, b) in runs.iter().zip(&before) {
            let again = problem_text(&x.p, &w.items, &asks);
            rec.check(*b == again, "changed by queries", || format!("{}; history {hist:?}", differ(b, &again)));
        }
        let op = r.below(16);
        let mut touched = Some(ri);
        let n_runs = runs.len();
        let run = &mut runs[ri];
        let done = match op {
            0..=4 => run.place(&w, rec, r, 0.3),
            5..=7 => run.remove(rec, r),
            8 if strip => {
                let width = q(w.s * r.range(0.6, 2.5)) as fsize;
                let Problem::SP(p) = &mut run.p else { unreachable!() };
                p.modify_strip_in_back(width);
                run.m = read_model(&run.p);
                Some(format!("resize to {width}"))
            }
            8 => run.layout_op(&w, rec, r, &mut fresh_id),
            9 | 10 => {
                let base = run.reference.filter(|_| r.chance(0.6));
                let s = run.p.create_solution(base.map(|k| &sols[k].0));
                run.reference = Some(sols.len());
                sols.push((s, run.m.clone()));
                Some("create solution".into())
            }
            11 | 12 if !sols.is_empty() => {
                let k = r.below(sols.len());
                run.p.restore_to_solution(&sols[k].0);
                run.reference = Some(k);
                run.m = sols[k].1.clone();
                Some(format!("restore {k}"))
            }
            13 | 14 if n_runs < 4 => {
                let src = &runs[ri];
                let new = Run { p: src.p.clone(), m: src.m.clone(), reference: src.reference, gone: src.gone.clone(), name: n_runs };
                runs.push(new);
                touched = None;
                rec.count("clones", 1);
                Some("clone".into())
            }
            15 => {
                run.p.flush_changes();
                Some("flush".into())
            }
            _ => None,
        };
        let Some(done) = done else { continue };
        hist.push(format!("[{ri}] {done}"));
        rec.count("operations", 1);
        for (k, b) in before.iter().enumerate() {
            if touched == Some(k) {
                continue;
            }
            let after = problem_text(&runs[k].p, &w.items, &asks);
            rec.count("others_compared", 1);
            rec.check(*b == after, "changed through another", || format!("problem {k}: {}; history {hist:?}; bins {:?} items {:?}", differ(b, &after), w.bins, w.items_spec));
        }
        if done == "clone" {
            let a = problem_text(&runs.last().unwrap().p, &w.items, &asks);
            rec.check(before[ri] == a, "clone differs", || format!("{}; history {hist:?}", differ(&before[ri], &a)));
        }
        for (k, b) in sol_before.iter().enumerate() {
            let after = solution_text(&sols[k].0, &w.items, &asks);
            rec.check(*b == after, "solution changed", || format!("solution {k}: {}; history {hist:?}", differ(b, &after)));
        }
        let now: Vec<u64> = w.instance.items().iter().map(|(i, _)| item_bits(i)).collect();
        rec.check(now == marks, "instance changed", || format!("history {hist:?}"));
        rec.nontrivial(mix(hash_str(&before.join("/"))));
        if rec.failed() {
            return;
        }
    }
    rec.sample(|| json!({"mode": "problems", "history": hist}));
}

// ---------------------------------------------------------------- threads

#[derive(Clone, Debug)]
enum Op {
    Place(usize, DTransformation),
    /// counted among the items placed so far
    Remove(usize, bool),
    Flush,
    Snapshot,
    Restore(usize),
    Clone,
}
fn pause(r: &mut Rng) {
    match r.below(6) {
        0 => std::thread::yield_now(),
        1 => (0..r.below(400)).for_each(|_| std::hint::spin_loop()),
        _ => {}
    }
}
/// A script on one layout; the keys are those of this layout.
fn play(l: &mut Layout, items: &[Item], script: &[Op], asks: &[Ask], r: &mut Rng, jitter: bool) -> String {
    let mut snaps: Vec<LayoutSnapshot> = vec![];
    let mut out = String::new();
    let mut buf = buffer(items);
    for (n, op) in script.iter().enumerate() {
        if jitter {
            pause(r);
        }
        match op {
            Op::Place(i, d) => {
                let twin = l.placed_items().values().any(|p| p.item_id == *i && p.d_transf == *d);
                if !twin {
                    l.place_item(&items[*i], *d);
                }
            }
            Op::Remove(k, c) => {
                let keys: Vec<PItemKey> = l.placed_items().keys().collect();
                if !keys.is_empty() {
                    l.remove_item(keys[k % keys.len()], *c);
                }
            }
            Op::Flush => l.flush_changes(),
            Op::Snapshot => snaps.push(l.create_snapshot()),
            Op::Restore(k) => {
                if !snaps.is_empty() {
                    let s = &snaps[k % snaps.len()];
                    l.restore(s);
                }
            }
            Op::Clone => *l = l.clone(),
        }
        let a = &asks[n % asks.len()];
        out.push_str(&answer(l.cde(), items, a, &mut buf));
        out.push('\n');
    }
    out.push_str(&layout_text(l));
    for s in &snaps {
        out.push_str(&snapshot_text(s));
    }
    out
}

fn threads(case: usize, r: &mut Rng, rec: &mut Rec, small: bool) {
    let o = SceneOpts { size: (0.05, 0.35), n_items: if small { (2, 3) } else { (2, 6) }, hpg: if small { Some(if case % 2 == 0 { 8 } else { 0 }) } else { None }, depth: if small { Some(3) } else { None }, ..Default::default() };
    let mut sc = Scene::new(r, &o);
    for _ in 0..r.int(1, if small { 3 } else { 8 }) {
        let i = r.below(sc.items.len());
        if let Some(d) = sc.random_placement(r, i) {
            if allowed(&sc, i, &d) {
                sc.place(i, d);
            }
        }
    }
    if r.chance(0.5) && !sc.placed.is_empty() {
        // with a removal still pending
        let (k, _) = sc.placed.swap_remove(r.below(sc.placed.len()));
        sc.layout.remove_item(k, false);
        rec.count("shared_with_pending_removals", 1);
    }
    let asks: Vec<Ask> = (0..if small { 4 } else { 30 }).map(|_| ask(r, &sc)).collect();
    let n_threads = if small { 2 } else { r.int(2, 6) as usize };
    let scripts: Vec<Vec<Op>> = (0..n_threads)
        .map(|_| {
            (0..if small { r.int(2, 4) } else { r.int(4, 20) })
                .map(|_| match r.below(10) {
                    0..=3 => {
                        let i = r.below(sc.items.len());
                        match sc.random_placement(r, i).filter(|d| allowed(&sc, i, d)) {
                            Some(d) => Op::Place(i, d),
                            None => Op::Flush,
                        }
                    }
                    4..=5 => Op::Remove(r.below(20), r.chance(0.4)),
                    6 => Op::Flush,
                    7 => Op::Snapshot,
                    8 => Op::Restore(r.below(5)),
                    _ => Op::Clone,
                })
                .collect()
        })
        .collect();
    let items = &sc.items;
    // one after the other
    let mut buf = buffer(items);
    let want: Vec<String> = asks.iter().map(|a| answer(sc.layout.cde(), items, a, &mut buf)).collect();
    let before = layout_text(&sc.layout);
    let plays: Vec<String> = scripts.iter().map(|s| play(&mut sc.layout.clone(), items, s, &asks, r, false)).collect();
    // and all at once: the shared layout is queried and copied, the copies are modified and queried
    let shared = Crossing(&sc.layout);
    let inst = parse_json(&sc.json);
    let parser = jagua_rs::io::parser::Parser::new(jagua_rs::util::polygon_simplification::PolySimplConfig::Disabled, sc.cfg, false);
    let marks: Vec<u64> = items.iter().map(item_bits).collect();
    let seeds: Vec<u64> = (0..n_threads).map(|_| r.next()).collect();
    let started = AtomicUsize::new(0);
    let switches = AtomicUsize::new(0);
    let last = AtomicUsize::new(usize::MAX);
    let reparse = !small && case % 5 == 0;
    let errors: Vec<String> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n_threads)
            .map(|t| {
                let (shared, asks, want, script, play_want, started, parser, inst, marks) = (&shared, &asks, &want, &scripts[t], &plays[t], &started, &parser, &inst, &marks);
                let (switches, last) = (&switches, &last);
                let seed = seeds[t];
                s.spawn(move || {
                    let mut r = Rng::new(seed);
                    let mut errs = vec![];
                    let l = *shared.get();
                    // start together
                    started.fetch_add(1, Ordering::SeqCst);
                    while started.load(Ordering::SeqCst) < n_threads {
                        std::thread::yield_now();
                    }
                    let mut own = l.clone();
                    let mut buf = buffer(items);
                    let mut order: Vec<usize> = (0..asks.len()).collect();
                    r.shuffle(&mut order);
                    for k in &order {
                        let got = answer(l.cde(), items, &asks[*k], &mut buf);
                        if got != want[*k] {
                            errs.push(format!("shared layout: question {k}: {got}, alone {}", want[*k]));
                        }
                        if last.swap(t, Ordering::Relaxed) != t {
                            switches.fetch_add(1, Ordering::Relaxed);
                        }
                        pause(&mut r);
                    }
                    if reparse && t % 2 == 0 {
                        let i2 = parser.parse(inst);
                        let m: Vec<u64> = i2.items().iter().map(|(i, _)| item_bits(i)).collect();
                        if m != *marks {
                            errs.push("instance parsed at the same time differs".into());
                        }
                    }
                    let got = play(&mut own, items, script, asks, &mut r, true);
                    if got != *play_want {
                        errs.push(format!("own copy: {}", differ(play_want, &got)));
                    }
                    // and the shared one again, while others still work on theirs
                    for k in order.iter().rev() {
                        let got = answer(l.cde(), items, &asks[*k], &mut buf);
                        if got != want[*k] {
                            errs.push(format!("shared layout, later: question {k}: {got}, alone {}", want[*k]));
                        }
                    }
                    errs
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap_or_else(|_| vec![format!("a thread panicked: {:?}", crate::rec::take_panic())])).collect()
    });
    rec.count("threads", n_threads as u64);
    rec.count("shared_queries", (2 * n_threads * asks.len()) as u64);
    rec.count("thread_switches", switches.load(Ordering::SeqCst) as u64);
    rec.count("scripts", n_threads as u64);
    rec.nontrivial(mix(hash_str(&plays.join("/"))) ^ switches.load(Ordering::SeqCst) as u64);
    for e in errors.iter().take(3) {
        rec.check(false, "concurrent use", || format!("{e}; scripts {scripts:?}; bin {:?} items {:?}", sc.bin, sc.items_spec));
    }
    rec.eval();
    let after = layout_text(&sc.layout);
    rec.check(before == after, "shared layout changed", || format!("{}; scripts {scripts:?}", differ(&before, &after)));
    rec.sample(|| json!({"mode": "threads", "scripts": scripts.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>(), "switches": switches.load(Ordering::SeqCst)}));
}

pub fn run(case: usize, r: &mut Rng, rec: &mut Rec) {
    if case == 0 {
        types(rec);
    }
    // instrumented builds only run what threads and memory are about
    let mode = std::env::var("MONITOR_MODE").unwrap_or_default();
    match mode.as_str() {
        "threads" => {
            if r.chance(0.8) {
                threads(case, r, rec, false)
            } else {
                family(r, rec)
            }
        }
        "small" => threads(case, r, rec, true),
        _ => match r.below(10) {
            0..=3 => family(r, rec),
            4..=6 => problems(r, rec),
            _ => threads(case, r, rec, false),
        },
    }
}
