//! C12: exported solutions against the real placements, and read back.
use crate::c10::{gen_bins, gen_items, same_cycle};
use crate::gen::*;
use crate::geo::*;
use crate::rec::Rec;
use crate::rng::{hash_str, mix, Rng};
use crate::scene::*;
use jagua_rs::entities::instances::instance::Instance;
use jagua_rs::entities::instances::instance_generic::InstanceGeneric;
use jagua_rs::entities::placing_option::PlacingOption;
use jagua_rs::entities::problems::bin_packing::BPProblem;
use jagua_rs::entities::problems::problem::Problem;
use jagua_rs::entities::problems::problem_generic::{LayoutIndex, ProblemGeneric, STRIP_LAYOUT_IDX};
use jagua_rs::entities::problems::strip_packing::SPProblem;
use jagua_rs::entities::solution::Solution;
use jagua_rs::geometry::geo_traits::Shape;
use jagua_rs::io::json_solution::{JsonContainer, JsonSolution};
use jagua_rs::io::parser::{compose_json_solution, Parser};
use jagua_rs::util::polygon_simplification::PolySimplConfig;
use serde_json::{json, Value};
use std::f64::consts::PI;
use std::time::{Duration, Instant};

pub struct Input {
    pub items: Vec<ItemSpec>,
    pub bins: Vec<BinSpec>,
    pub height: f64,
    pub simpl: bool,
}

/// What the solution says about a placed item: index, outline relative to the container of the input.
struct Obs {
    item: usize,
    pts: Vec<P2>,
    m: f64,
}

/// Where the container of the input lies in the coordinates of the solver.
fn origin(inp: &Input, b: &jagua_rs::entities::bin::Bin) -> P2 {
    if inp.bins.is_empty() {
        let bb = lib_bbox(&b.bbox());
        return [bb[0], bb[1]];
    }
    if inp.simpl {
        let d = b.pretransform.decompose();
        return [d.translation().0 as f64, d.translation().1 as f64];
    }
    // from the shapes alone: lower left corners of the outlines
    let (x, y) = (bbox(&lib_pts(&b.outer)), bbox(&inp.bins[b.id].outer));
    [x[0] - y[0], x[1] - y[1]]
}

fn observe(inp: &Input, sol: &Solution) -> Vec<(usize, [f64; 4], Vec<Obs>)> {
    sol.layout_snapshots
        .iter()
        .map(|l| {
            let o = origin(inp, &l.bin);
            let items = l
                .placed_items
                .values()
                .map(|p| {
                    let raw = lib_pts(&p.shape);
                    let pts: Vec<P2> = raw.iter().map(|v| [v[0] - o[0], v[1] - o[1]]).collect();
                    let t = p.d_transf.translation();
                    let m = max_abs(&raw).max(max_abs(&pts)).max(t.0.abs() as f64).max(t.1.abs() as f64).max(max_abs(&inp.items[p.item_id].shape));
                    Obs { item: p.item_id, pts, m }
                })
                .collect();
            (l.bin.id, lib_bbox(&l.bin.bbox()), items)
        })
        .collect()
}

fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= if F64 { 1e-9 } else { 2e-3 } * (1.0 + b.abs())
}

/// The exported file against the solution.
pub fn check_export(rec: &mut Rec, inp: &Input, inst: &Instance, sol: &Solution, js: &JsonSolution, ctx: &dyn Fn() -> String) {
    let obs = observe(inp, sol);
    if !rec.check(js.layouts.len() == obs.len(), "exported layouts", || format!("{} layouts exported of {}; {}", js.layouts.len(), obs.len(), ctx())) {
        return;
    }
    let (mut ia, mut ba) = (0.0, 0.0);
    for (k, (jl, (bin, bb, items))) in js.layouts.iter().zip(&obs).enumerate() {
        match jl.container {
            JsonContainer::Bin { index } => {
                rec.check(!inp.bins.is_empty() && index == *bin, "container index", || format!("layout {k}: bin {index}, is {bin}; {}", ctx()));
            }
            JsonContainer::Strip { width, height } => {
                let w = bb[2] - bb[0];
                let (ds, _) = bands(bb[2].abs().max(bb[0].abs()));
                let ok = inp.bins.is_empty() && (width as f64 - w).abs() <= ds && (height as f64 - inp.height).abs() <= ds;
                rec.check(ok, "strip size", || format!("{width} x {height}, is {w} x {}; {}", inp.height, ctx()));
            }
        }
        if !rec.check(jl.placed_items.len() == items.len(), "exported items", || format!("layout {k}: {} items exported of {}; {}", jl.placed_items.len(), items.len(), ctx())) {
            return;
        }
        // every exported entry belongs to one placed item
        let mut free: Vec<&Obs> = items.iter().collect();
        for ji in &jl.placed_items {
            let t = Rigid { r: ji.transformation.rotation as f64, t: [ji.transformation.translation.0 as f64, ji.transformation.translation.1 as f64] };
            let spec = match inp.items.get(ji.index) {
                Some(s) => s,
                None => {
                    rec.check(false, "exported index", || format!("{}; {}", ji.index, ctx()));
                    return;
                }
            };
            let shape: Vec<P2> = if inp.simpl {
                // where the (simplified) shape lies in the coordinates of the input
                let item = inst.item(ji.index);
                let p = rigid(&item.pretransform.decompose());
                let pts = lib_pts(&item.shape);
                pts.iter().map(|v| [v[0] - p.t[0], v[1] - p.t[1]]).collect()
            } else {
                spec.shape.clone()
            };
            let want = t.apply_all(&shape);
            let hit = free.iter().position(|o| {
                let (ds, _) = bands(o.m.max(max_abs(&want)).max(t.t[0].abs()).max(t.t[1].abs()));
                o.item == ji.index && same_cycle(&o.pts, &want, 2.0 * ds)
            });
            let ok = rec.check(hit.is_some(), "exported placement", || {
                format!("layout {k}: exported item {} puts {shape:?} at {want:?} by {t:?}, placed are {:?}; {}", ji.index, free.iter().map(|o| (o.item, &o.pts)).collect::<Vec<_>>(), ctx())
            });
            if !ok {
                return;
            }
            free.swap_remove(hit.unwrap());
        }
        if !inp.simpl {
            let a: f64 = items.iter().map(|o| signed_area(&inp.items[o.item].shape).abs()).sum();
            let b = if inp.bins.is_empty() { (bb[2] - bb[0]) * (bb[3] - bb[1]) } else { crate::problems::net_area(&inp.bins[*bin]) };
            rec.check(close(jl.statistics.usage as f64, a / b), "exported layout usage", || format!("layout {k}: {} expected {}; {}", jl.statistics.usage, a / b, ctx()));
            ia += a;
            ba += b;
        }
    }
    if !inp.simpl && ba > 0.0 {
        rec.check(close(js.usage as f64, ia / ba), "exported usage", || format!("{} expected {}; {}", js.usage, ia / ba, ctx()));
    }
}

/// Two exported solutions with the same content.
pub fn same_export(a: &JsonSolution, b: &JsonSolution, m: f64) -> Result<(), String> {
    let (ds, _) = bands(m);
    if a.layouts.len() != b.layouts.len() {
        return Err("number of layouts".into());
    }
    if !close(a.usage as f64, b.usage as f64) {
        return Err(format!("usage {} and {}", a.usage, b.usage));
    }
    for (k, (x, y)) in a.layouts.iter().zip(&b.layouts).enumerate() {
        let same = match (&x.container, &y.container) {
            (JsonContainer::Bin { index: i }, JsonContainer::Bin { index: j }) => i == j,
            (JsonContainer::Strip { width: a, height: b }, JsonContainer::Strip { width: c, height: d }) => {
                (*a as f64 - *c as f64).abs() <= ds && (*b as f64 - *d as f64).abs() <= ds
            }
            _ => false,
        };
        if !same {
            return Err(format!("container of layout {k}"));
        }
        if !close(x.statistics.usage as f64, y.statistics.usage as f64) {
            return Err(format!("usage of layout {k}"));
        }
        if x.placed_items.len() != y.placed_items.len() {
            return Err(format!("number of items in layout {k}"));
        }
        let mut free: Vec<_> = y.placed_items.iter().collect();
        for p in &x.placed_items {
            let hit = free.iter().position(|q| {
                let (s, t) = (&p.transformation, &q.transformation);
                let dr = (s.rotation as f64 - t.rotation as f64).rem_euclid(2.0 * PI);
                let dr = dr.min(2.0 * PI - dr);
                p.index == q.index
                    && dr <= if F64 { 1e-9 } else { 4e-5 }
                    && (s.translation.0 as f64 - t.translation.0 as f64).abs() <= 4.0 * ds
                    && (s.translation.1 as f64 - t.translation.1 as f64).abs() <= 4.0 * ds
            });
            match hit {
                Some(h) => {
                    free.swap_remove(h);
                }
                None => return Err(format!("item {} at r={} t={:?} of layout {k} has no counterpart", p.index, p.transformation.rotation, p.transformation.translation)),
            }
        }
    }
    Ok(())
}

pub fn run(_case: usize, r: &mut Rng, rec: &mut Rec) {
    let s = scale(r);
    let mut cfg = cde_cfg(r, false);
    cfg.hpg_n_cells = 0;
    let mut items = gen_items(r, s * 0.6);
    for i in items.iter_mut() {
        i.demand = r.below(4) as u64;
    }
    let strip = r.chance(0.45);
    let height = q(s * r.range(0.7, 1.5));
    let mut bins = if strip { vec![] } else { gen_bins(r, s) };
    for b in bins.iter_mut() {
        b.stock = b.stock.map(|x| x.max(1));
    }
    let close_ = r.chance(0.5);
    let v: Value = if strip { sp_json(&items, height, close_) } else { bp_json(&items, &bins, close_) };
    let center = r.chance(0.7);
    let simpl = r.chance(0.2).then(|| *r.pick(&[0.001, 0.01, 0.05]));
    let sc = match simpl {
        None => PolySimplConfig::Disabled,
        Some(t) => PolySimplConfig::Enabled { tolerance: t as fsize },
    };
    let parser = Parser::new(sc, cfg, center);
    let ji = parse_json(&v);
    let inst = parser.parse(&ji);
    let mut p = match &inst {
        Instance::BP(b) => Problem::BP(BPProblem::new(b.clone())),
        Instance::SP(x) => Problem::SP(SPProblem::new(x.clone(), q(s * r.range(0.8, 3.0)) as fsize, cfg)),
    };
    let mut log: Vec<String> = vec![];
    let mut seen = vec![];
    for _ in 0..r.int(1, 14) {
        if let Problem::SP(sp) = &mut p {
            let w = sp.strip_width();
            match r.below(8) {
                0 => sp.modify_strip_in_back(w * r.range(0.7, 1.6) as fsize),
                1 => sp.modify_strip_at_front(w * r.range(0.7, 1.6) as fsize),
                2 => sp.modify_strip_centered(w * r.range(0.7, 1.6) as fsize),
                3 if !sp.layout.is_empty() => sp.fit_strip(),
                _ => {}
            }
            log.push(format!("strip {:?}", sp.layout.bin.bbox()));
        }
        if r.chance(0.15) {
            let n = p.layouts().len();
            if n > 0 {
                let li = r.below(n);
                let keys: Vec<_> = p.layouts()[li].placed_items().keys().collect();
                if keys.len() > 1 {
                    let k = *r.pick(&keys);
                    p.remove_item(LayoutIndex::Real(li), k, r.chance(0.5));
                    log.push("remove".into());
                }
            }
        }
        // somewhere in a layout
        let li = if strip {
            STRIP_LAYOUT_IDX
        } else if p.layouts().is_empty() || r.chance(0.3) {
            let t: Vec<LayoutIndex> = p.template_layout_indices_with_stock().collect();
            if t.is_empty() {
                continue;
            }
            *r.pick(&t)
        } else {
            LayoutIndex::Real(r.below(p.layouts().len()))
        };
        let l = p.get_layout(li);
        let room = if strip { lib_bbox(&l.bin.bbox()) } else { lib_bbox(&l.cde().bbox()) };
        let bb = lib_bbox(&l.bin.bbox());
        for _ in 0..10 {
            let i = r.below(items.len());
            let pts = lib_pts(&inst.item(i).shape);
            let a = q(if r.chance(0.3) { 0.0 } else { angle(r) });
            let turned = Rigid { r: a, t: [0.0, 0.0] }.apply_all(&pts);
            let tb = bbox(&turned);
            let target = [r.range(bb[0], bb[2]), r.range(bb[1], bb[3])];
            let t = qp([target[0] - (tb[0] + tb[2]) / 2.0, target[1] - (tb[1] + tb[3]) / 2.0]);
            let e = 1e-4 * s;
            if tb[0] + t[0] < room[0] + e || tb[1] + t[1] < room[1] + e || tb[2] + t[0] > room[2] - e || tb[3] + t[1] > room[3] - e {
                continue;
            }
            let d = dt(a, t);
            if seen.contains(&(i, d)) {
                continue;
            }
            seen.push((i, d));
            p.place_item(PlacingOption { layout_idx: li, item_id: i, d_transf: d });
            rec.count("placements", 1);
            log.push(format!("place {i} {d:?} in {li:?}"));
            break;
        }
    }
    if p.layouts().is_empty() {
        rec.count("solutions_without_layouts", 1);
    }
    p.flush_changes();
    let before = Instant::now();
    let sol = p.create_solution(None);
    let after = Instant::now();
    let ago = r.below(5000) as u64;
    let epoch = before - Duration::from_secs(ago);
    let js = compose_json_solution(&sol, &inst, epoch);
    rec.check(js.run_time_sec >= ago && js.run_time_sec <= ago + after.duration_since(before).as_secs() + 1, "run time", || format!("{} s, expected {ago}", js.run_time_sec));
    rec.count(if strip { "strip_solutions" } else { "bin_solutions" }, 1);
    if let Problem::SP(sp) = &p {
        if sp.layout.bin.bbox().x_min != 0.0 {
            rec.count("shifted_strips", 1);
        }
    }
    let inp = Input { items, bins, height, simpl: simpl.is_some() };
    let text = serde_json::to_string(&js).expect("solution to text");
    let ctx = || format!("centred {center} simplification {simpl:?} log {log:?} export {text} instance {v}");
    check_export(rec, &inp, &inst, &sol, &js, &ctx);
    if rec.failed() {
        return;
    }
    // read back
    let back: JsonSolution = match serde_json::from_str(&text) {
        Ok(b) => b,
        Err(e) => {
            rec.check(false, "unreadable", || format!("{e}; {}", ctx()));
            return;
        }
    };
    let (inst2, sol2) = parser.parse_and_build_solution(&ji, &back.layouts);
    rec.check(inst2.items().len() == inst.items().len(), "read back instance", || ctx());
    let kinds = |s: &Solution| -> Vec<(usize, Vec<usize>)> {
        s.layout_snapshots
            .iter()
            .map(|l| {
                let mut i: Vec<usize> = l.placed_items.values().map(|p| p.item_id).collect();
                i.sort();
                (l.bin.id, i)
            })
            .collect()
    };
    rec.check(kinds(&sol) == kinds(&sol2), "read back layouts", || format!("{:?}, expected {:?}; {}", kinds(&sol2), kinds(&sol), ctx()));
    rec.check(sol2.placed_item_qtys == sol.placed_item_qtys && sol2.target_item_qtys == sol.target_item_qtys && sol2.bin_qtys == sol.bin_qtys, "read back quantities", || {
        format!("{:?} {:?} {:?} expected {:?} {:?} {:?}; {}", sol2.placed_item_qtys, sol2.target_item_qtys, sol2.bin_qtys, sol.placed_item_qtys, sol.target_item_qtys, sol.bin_qtys, ctx())
    });
    if rec.failed() {
        return;
    }
    // the placements read back are those written
    check_export(rec, &inp, &inst2, &sol2, &back, &|| format!("read back; {}", ctx()));
    let js2 = compose_json_solution(&sol2, &inst2, epoch);
    let m = inp.items.iter().map(|i| max_abs(&i.shape)).fold(0.0, f64::max)
        + inp.bins.iter().map(|b| max_abs(&b.outer)).fold(0.0, f64::max)
        + sol.layout_snapshots.iter().map(|l| lib_bbox(&l.bin.bbox()).iter().fold(0.0f64, |a, b| a.max(b.abs()))).fold(0.0, f64::max);
    let e = same_export(&js, &js2, m);
    rec.check(e.is_ok(), "exported again", || format!("{}; {}", e.clone().unwrap_err(), ctx()));
    rec.nontrivial(mix(hash_str(&text)));
    rec.sample(|| json!({"centred": center, "operations": log, "export": serde_json::from_str::<Value>(&text).unwrap()}));
}
