//! C21: the placement search of the reference solver: what it samples, what it discards and what it returns.
use crate::c17::un;
use crate::gen::*;
use crate::geo::*;
use crate::problems::*;
use crate::rec::Rec;
use crate::rng::{mix, Rng};
use crate::scene::*;
use jagua_rs::collision_detection::hazard::HazardEntity;
use jagua_rs::entities::item::Item;
use jagua_rs::entities::layout::Layout;
use jagua_rs::entities::placing_option::PlacingOption;
use jagua_rs::entities::problems::problem_generic::{LayoutIndex, ProblemGeneric};
use jagua_rs::geometry::d_transformation::DTransformation;
use jagua_rs::geometry::geo_enums::AllowedRotation;
use jagua_rs::geometry::geo_traits::{Shape, TransformableFrom};
use jagua_rs::geometry::primitives::aa_rectangle::AARectangle;
use lbf::io::svg_util::SvgDrawOptions;
use lbf::lbf_config::LBFConfig;
use lbf::lbf_cost::LBFPlacingCost;
use lbf::lbf_optimizer::{find_lbf_placement, sample_layout};
use lbf::samplers::hpg_sampler::HPGSampler;
use lbf::samplers::ls_sampler::LSSampler;
use lbf::samplers::uniform_rect_sampler::UniformAARectSampler;
use rand::rngs::SmallRng;
use rand::SeedableRng;
use serde_json::json;
use std::f64::consts::PI;

fn ang_diff(a: f64, b: f64) -> f64 {
    let d = (a - b).rem_euclid(2.0 * PI);
    d.min(2.0 * PI - d)
}
fn ang_tol() -> f64 {
    if F64 {
        1e-9
    } else {
        1e-4
    }
}
fn rot_ok(it: &Item, a: f64) -> bool {
    match &it.allowed_rotation {
        AllowedRotation::None => ang_diff(a, 0.0) <= ang_tol(),
        AllowedRotation::Continuous => a.is_finite(),
        AllowedRotation::Discrete(v) => v.iter().any(|x| ang_diff(a, *x as f64) <= ang_tol()),
    }
}
fn next_up(x: fsize) -> fsize {
    if x == 0.0 {
        fsize::MIN_POSITIVE
    } else if x > 0.0 {
        fsize::from_bits(x.to_bits() + 1)
    } else {
        fsize::from_bits(x.to_bits() - 1)
    }
}
fn random_rot(r: &mut Rng, it: &Item) -> f64 {
    match &it.allowed_rotation {
        AllowedRotation::None => 0.0,
        AllowedRotation::Continuous => r.range(0.0, 2.0 * PI),
        AllowedRotation::Discrete(v) => *r.pick(v) as f64,
    }
}
/// 10 x_max + y_max
fn cost(p: &Poly) -> f64 {
    10.0 * p.bb[2] + p.bb[3]
}
/// The motion that turns an item by a and brings its pole to p
fn about_pole(it: &Item, a: f64, p: P2) -> Rigid {
    let c = Rigid { r: a, t: [0.0, 0.0] }.apply(un(it.shape.poi.center));
    Rigid { r: a, t: [p[0] - c[0], p[1] - c[1]] }
}
fn clip(a: &[f64; 4], b: &[f64; 4]) -> [f64; 4] {
    [a[0].max(b[0]), a[1].max(b[1]), a[2].min(b[2]), a[3].min(b[3])]
}
fn within(p: P2, b: &[f64; 4], tol: f64) -> bool {
    p[0] >= b[0] - tol && p[1] >= b[1] - tol && p[0] <= b[2] + tol && p[1] <= b[3] + tol
}
fn close4(a: &[f64; 4], b: &[f64; 4], tol: f64) -> bool {
    (0..4).all(|k| (a[k] - b[k]).abs() <= tol)
}

/// One layout as the oracle sees it.
struct View<'a> {
    sc: &'a Scene,
    ignored: Vec<HazardEntity>,
    i: usize,
    it: &'a Item,
    bb: [f64; 4],
    /// clipped cells of the grid
    cells: Vec<[f64; 4]>,
}
impl View<'_> {
    fn mag(&self, t: &Rigid) -> f64 {
        self.sc.mag(self.i, t)
    }
    fn verdict(&self, t: &Rigid) -> (V3, Poly) {
        let p = self.sc.ipoly[self.i].moved(t);
        (self.sc.expected(&p, &self.ignored, self.mag(t)), p)
    }
    /// Costs of the placements clearly free among n drawn evenly from the cells of the grid.
    fn free_costs(&self, r: &mut Rng, n: usize) -> Vec<f64> {
        let mut v = vec![];
        if self.cells.is_empty() {
            return v;
        }
        for _ in 0..n {
            let c = r.pick(&self.cells).clone();
            let p = [r.range(c[0], c[2]), r.range(c[1], c[3])];
            let t = about_pole(self.it, random_rot(r, self.it), p);
            if let (V3::No, p) = self.verdict(&t) {
                v.push(cost(&p));
            }
        }
        v.sort_by(|a, b| a.total_cmp(b));
        v
    }
}

fn cells_of(l: &Layout, bb: &[f64; 4]) -> Vec<([f64; 4], usize)> {
    let grid = l.cde().haz_prox_grid().expect("harness: grid readable");
    grid.grid
        .cells
        .iter()
        .enumerate()
        .filter_map(|(k, c)| c.as_ref().map(|c| (clip(&lib_bbox(&c.bbox), bb), k)))
        .filter(|(b, _)| b[0] < b[2] && b[1] < b[3])
        .collect()
}

/// The scene of a layout with its content according to the model.
fn scene_of(w: &World, run: &Run, li: LayoutIndex) -> (usize, Option<[f64; 4]>, Vec<Placed>) {
    let l = run.p.get_layout(li);
    match li {
        LayoutIndex::Real(_) => {
            let ml = &run.m.layouts[&l.id()];
            (ml.bin, ml.strip, ml.items.clone())
        }
        LayoutIndex::Template(b) => {
            let _ = w;
            (b, None, vec![])
        }
    }
}

const DRAWS: usize = 240;

fn check_samplers(rec: &mut Rec, v: &View, l: &Layout, r: &mut Rng, ctx: &dyn Fn() -> String) {
    let it = v.it;
    let m = v.sc.m.max(max_abs(&v.sc.ipoly[v.i].pts)) * 2.0;
    let (ds, _) = bands(m);
    let mut rng = SmallRng::seed_from_u64(r.next());
    let grid = l.cde().haz_prox_grid().expect("harness: grid readable");
    // exactly the cells that could accommodate the item, as far as they lie within the container's bounding box
    let wide = |b: &[f64; 4]| b[2] - b[0] > 1e-5 * m && b[3] - b[1] > 1e-5 * m;
    let elig: Vec<[f64; 4]> = cells_of(l, &v.bb).iter().filter(|(_, k)| grid.grid.cells[*k].as_ref().unwrap().could_accommodate_item(it)).map(|x| x.0).collect();
    let sampler = HPGSampler::new(it, l);
    let Some(mut s) = sampler else {
        rec.count("no_eligible_cell", 1);
        rec.check(!elig.iter().any(wide), "no sampler", || format!("there are eligible cells {elig:?}; {}", ctx()));
        return;
    };
    let rects = |s: &HPGSampler| s.cell_samplers.iter().map(|c| lib_bbox(&c.bbox)).collect::<Vec<_>>();
    let before = rects(&s);
    for e in elig.iter().filter(|e| wide(e)) {
        rec.check(before.iter().any(|b| close4(b, e, ds)), "eligible cell not sampled", || format!("{e:?}; {}", ctx()));
    }
    for b in &before {
        rec.check(elig.iter().any(|e| close4(b, e, ds)), "sampled cell not eligible", || format!("{b:?}; {}", ctx()));
    }
    let area = |rs: &[[f64; 4]]| rs.iter().map(|b| (b[2] - b[0]) * (b[3] - b[1])).sum::<f64>();
    let whole = (v.bb[2] - v.bb[0]) * (v.bb[3] - v.bb[1]);
    let at = if F64 { 1e-8 } else { 1e-3 } * (whole + area(&before)) + ds * ds;
    rec.check((s.coverage_area as f64 - area(&before)).abs() <= at, "coverage", || format!("{}, expected {}; {}", s.coverage_area, area(&before), ctx()));
    // draws
    let k = before.len();
    let mut hit = vec![false; k];
    let mut angles: Vec<f64> = vec![];
    let (mut lo, mut hi) = ([1.0f64; 2], [0.0f64; 2]);
    for _ in 0..DRAWS {
        let t = s.sample(&mut rng).decompose();
        let g = rigid(&t);
        let p = g.apply(un(it.shape.poi.center));
        let inside: Vec<usize> = (0..k).filter(|c| within(p, &before[*c], 2.0 * ds)).collect();
        if !rec.check(!inside.is_empty(), "drawn outside the cells", || format!("pole at {p:?} by {t:?}; {}", ctx())) {
            return;
        }
        if !rec.check(rot_ok(it, g.r), "drawn rotation", || format!("{} of {:?}; {}", g.r, it.allowed_rotation, ctx())) {
            return;
        }
        for c in inside {
            hit[c] = true;
            if k == 1 {
                for d in 0..2 {
                    let f = (p[d] - before[c][d]) / (before[c][d + 2] - before[c][d]);
                    lo[d] = lo[d].min(f);
                    hi[d] = hi[d].max(f);
                }
            }
        }
        angles.push(g.r);
    }
    rec.count("draws", DRAWS as u64);
    rec.check(s.n_samples == DRAWS, "number of draws", || format!("{}; {}", s.n_samples, ctx()));
    if k <= 8 {
        rec.count("few_cells", 1);
        rec.check(hit.iter().all(|h| *h), "cells never drawn", || format!("{hit:?} of {before:?}; {}", ctx()));
    }
    if k == 1 && wide(&before[0]) {
        rec.check((0..2).all(|d| lo[d] < 0.2 && hi[d] > 0.8), "part of the cell never drawn", || format!("{lo:?} to {hi:?}; {}", ctx()));
    }
    match &it.allowed_rotation {
        AllowedRotation::Continuous => {
            for q in 0..4 {
                let m = (q as f64 + 0.5) * PI / 2.0;
                rec.check(angles.iter().any(|a| ang_diff(*a, m) < PI / 4.0), "rotations never drawn", || format!("none around {m}; {}", ctx()));
            }
        }
        AllowedRotation::Discrete(d) if d.len() <= 8 => {
            for x in d {
                rec.check(angles.iter().any(|a| ang_diff(*a, *x as f64) <= ang_tol()), "rotations never drawn", || format!("{x} of {d:?}; {}", ctx()));
            }
        }
        _ => (),
    }
    // tightening, several times
    let rad = it.shape.poi.radius as f64;
    let mut held = before.clone();
    let mut bound = f64::MAX;
    for _ in 0..3 {
        let p = [r.range(v.bb[0], v.bb[2]), r.range(v.bb[1], v.bb[3])];
        let p = qp(if r.chance(0.3) && !held.is_empty() {
            // just above what some cell could give
            let c = r.pick(&held);
            [c[0] + rad * r.range(0.9, 1.1), c[1] + rad * r.range(0.9, 1.1)]
        } else {
            p
        });
        let best = 10.0 * p[0] + p[1];
        let tol = 20.0 * ds;
        s.tighten(LBFPlacingCost::new(p[0] as fsize, p[1] as fsize));
        bound = bound.min(best);
        let now = rects(&s);
        rec.check(now.len() <= held.len() && now.iter().all(|n| held.contains(n)), "tightening invented cells", || format!("{now:?} from {held:?}; {}", ctx()));
        let gone: Vec<[f64; 4]> = held.iter().filter(|h| !now.contains(h)).cloned().collect();
        rec.count("cells_discarded", gone.len() as u64);
        rec.count("cells_kept", now.len() as u64);
        for n in now.iter().filter(|_| best < 10.0 * v.bb[2] + v.bb[3] - tol) {
            let least = 10.0 * (n[0] + rad) + n[1] + rad;
            rec.check(least < bound + tol, "hopeless cell kept", || format!("{n:?} gives at least {least}, best {bound}; {}", ctx()));
        }
        for g in gone.iter().take(40) {
            for j in 0..4 {
                let p = if j == 0 { [g[0], g[1]] } else { [r.range(g[0], g[2]), r.range(g[1], g[3])] };
                let t = about_pole(it, random_rot(r, it), p);
                let c = cost(&v.sc.ipoly[v.i].moved(&t));
                rec.check(c >= bound - tol, "promising cell discarded", || format!("{g:?} can give {c}, best {bound}; {}", ctx()));
            }
        }
        rec.check((s.coverage_area as f64 - area(&now)).abs() <= at, "coverage", || format!("{}, expected {} after tightening; {}", s.coverage_area, area(&now), ctx()));
        held = now;
        if rec.failed() {
            return;
        }
    }
}

/// mean and spread of a sequence
fn moments(x: &[f64]) -> (f64, f64) {
    let n = x.len() as f64;
    let m = x.iter().sum::<f64>() / n;
    (m, (x.iter().map(|v| (v - m) * (v - m)).sum::<f64>() / (n - 1.0)).sqrt())
}

fn check_local(rec: &mut Rec, v: &View, r: &mut Rng, ctx: &dyn Fn() -> String) {
    let it = v.it;
    let mut rng = SmallRng::seed_from_u64(r.next());
    let m = v.sc.m;
    let at = |r: &mut Rng| dt(random_rot(r, it), qp([r.range(v.bb[0], v.bb[2]), r.range(v.bb[1], v.bb[3])]));
    let start = at(r);
    let dim = (v.bb[2] - v.bb[0]).max(v.bb[3] - v.bb[1]);
    let deg = PI / 180.0;
    let own = r.chance(0.5);
    let (sd_t, sd_r) = if own { ((dim * r.range(0.01, 0.3), dim * r.range(0.001, 0.01)), (r.range(0.02, 0.3), r.range(0.002, 0.02))) } else { ((0.01 * dim, 0.0005 * dim), (2.0 * deg, 0.5 * deg)) };
    let bb = AARectangle::new(v.bb[0] as fsize, v.bb[1] as fsize, v.bb[2] as fsize, v.bb[3] as fsize);
    let pair = |x: (f64, f64)| (x.0 as fsize, x.1 as fsize);
    let mut s = if own { LSSampler::new(it, &start, pair(sd_t), pair(sd_r)) } else { LSSampler::from_defaults(it, &start, &bb) };
    let mut mean = start;
    let (mut et, mut er) = (sd_t.0, sd_r.0);
    for step in 0..r.int(1, 4) {
        if step > 0 {
            if r.chance(0.6) {
                mean = at(r);
                if !matches!(it.allowed_rotation, AllowedRotation::Continuous) {
                    // only moved, never turned, around a discrete rotation
                    let t = mean.translation();
                    mean = DTransformation::new(start.rotation(), t);
                }
                s.shift_mean(&mean);
            } else {
                let x = *r.pick(&[0.0, 0.25, 0.5, 0.9, 1.0]);
                s.decay_stddev(x as fsize);
                et = sd_t.0 * (sd_t.1 / sd_t.0).powf(x);
                er = sd_r.0 * (sd_r.1 / sd_r.0).powf(x);
            }
        }
        let d: Vec<DTransformation> = (0..DRAWS).map(|_| s.sample(&mut rng)).collect();
        let n = (DRAWS as f64).sqrt();
        let noise = if F64 { 1e-14 } else { 1e-6 } * m;
        for (what, x, c, sd) in [
            ("x", d.iter().map(|t| t.translation().0 as f64).collect::<Vec<_>>(), mean.translation().0 as f64, et),
            ("y", d.iter().map(|t| t.translation().1 as f64).collect::<Vec<_>>(), mean.translation().1 as f64, et),
        ] {
            let (mm, ss) = moments(&x);
            rec.check((mm - c).abs() <= 7.0 * sd / n + noise, "local search centre", || format!("{what} around {mm}, expected {c} with deviation {sd}; {}", ctx()));
            rec.check(ss >= 0.6 * sd - noise && ss <= 1.4 * sd + noise, "local search spread", || format!("{what} deviates by {ss}, expected {sd}; {}", ctx()));
        }
        match &it.allowed_rotation {
            AllowedRotation::Continuous => {
                let (mm, ss) = moments(&d.iter().map(|t| t.rotation() as f64).collect::<Vec<_>>());
                let noise = if F64 { 1e-14 } else { 1e-6 };
                let c = mean.rotation() as f64;
                rec.check(ang_diff(mm, c) <= 7.0 * er / n + noise, "local search centre", || format!("rotation around {mm}, expected {c} with deviation {er}; {}", ctx()));
                rec.check(ss >= 0.6 * er - noise && ss <= 1.4 * er + noise, "local search spread", || format!("rotation deviates by {ss}, expected {er}; {}", ctx()));
            }
            _ => {
                let c = mean.rotation() as f64;
                let bad = d.iter().find(|t| ang_diff(t.rotation() as f64, c) > ang_tol() || !rot_ok(it, t.rotation() as f64));
                rec.check(bad.is_none(), "drawn rotation", || format!("local search turned {bad:?} from {c}, allowed {:?}; {}", it.allowed_rotation, ctx()));
            }
        }
        rec.count("local_batches", 1);
    }
}

/// What a search returned must be a legal, clearly not colliding placement in that layout, and not worse than what its draws must have met.
fn check_found(rec: &mut Rec, v: &View, p: &PlacingOption, li: LayoutIndex, ctx: &dyn Fn() -> String) -> f64 {
    rec.check(p.layout_idx == li && p.item_id == v.it.id, "placement of something else", || format!("{p:?} when searching {li:?} for item {}; {}", v.it.id, ctx()));
    let t = rigid(&p.d_transf);
    rec.check(rot_ok(v.it, t.r), "rotation of the result", || format!("{} of {:?}; {}", t.r, v.it.allowed_rotation, ctx()));
    let (verdict, poly) = v.verdict(&t);
    rec.check(verdict != V3::Yes, "infeasible result", || format!("{p:?} puts the item at {:?}; {}", poly.pts, ctx()));
    rec.count("placements_found", 1);
    cost(&poly)
}

pub fn run(_case: usize, r: &mut Rng, rec: &mut Rec) {
    let strip = r.chance(0.3);
    let w = loop {
        let w = if strip { World::strip(r, true) } else { World::bins(r, true) };
        if w.cfg.hpg_n_cells > 0 {
            break w;
        }
    };
    let mut run = Run::new(&w, r, 0);
    let mut hist = vec![];
    for _ in 0..r.int(0, 10) {
        if let Some(h) = if r.chance(0.8) { run.place(&w, rec, r, 0.35) } else { run.remove(rec, r) } {
            hist.push(h);
        }
    }
    run.p.flush_changes();
    // an item with some allowed rotations
    let i = r.below(w.items.len());
    let mut it = w.items[i].clone();
    it.allowed_rotation = match r.below(4) {
        0 => AllowedRotation::None,
        1 => AllowedRotation::Continuous,
        2 => AllowedRotation::Discrete(vec![0.0, (PI / 2.0) as fsize, PI as fsize, (1.5 * PI) as fsize]),
        _ => AllowedRotation::Discrete((0..r.int(1, 5)).map(|_| q(r.range(-PI, 3.0 * PI)) as fsize).collect()),
    };
    let config = LBFConfig {
        cde_config: w.cfg,
        poly_simpl_tolerance: None,
        prng_seed: None,
        n_samples: *r.pick(&[1, 20, 300, 450, 600]),
        ls_frac: *r.pick(&[0.0, 0.1, 0.3, 0.9, 1.0]),
        svg_draw_options: SvgDrawOptions::default(),
    };
    let uni = config.n_samples - (config.n_samples as f32 * config.ls_frac) as usize;
    let ctx = || format!("item {i} {:?} rotations {:?} config {config:?}; history {hist:?}; bins {:?} strip {} items {:?}", it.base_quality, it.allowed_rotation, w.bins, w.strip_height, w.items_spec);
    // layouts in the order of the search
    let order: Vec<LayoutIndex> = run.p.layout_indices().chain(run.p.template_layout_indices_with_stock()).collect();
    if order.is_empty() {
        return;
    }
    let ps: Vec<(usize, Option<[f64; 4]>, Vec<Placed>)> = order.iter().map(|li| scene_of(&w, &run, *li)).collect();
    let scenes: Vec<Scene> = ps
        .iter()
        .map(|(b, ext, items)| {
            let mut sc = match ext {
                Some(e) => w.strip_scene(e),
                None => Scene::from_parts(w.bins[*b].clone(), w.items_spec.clone(), w.items.clone(), w.cfg, w.bin_objs[*b].clone()),
            };
            sc.placed = items.iter().map(|(k, i, d)| (*k, w.haz(*i, d))).collect();
            sc
        })
        .collect();
    let views: Vec<View> = order
        .iter()
        .zip(&scenes)
        .map(|(li, sc)| {
            let l = run.p.get_layout(*li);
            let bb = lib_bbox(&l.bin.bbox());
            let ignored = sc.statics.iter().map(|h| h.ent).filter(|e| matches!((e, it.base_quality), (HazardEntity::InferiorQualityZone { quality, .. }, Some(q)) if *quality >= q)).collect();
            View { sc, ignored, i, it: &it, bb, cells: cells_of(l, &bb).into_iter().map(|x| x.0).collect() }
        })
        .collect();
    let k = r.below(order.len());
    let l = run.p.get_layout(order[k]);
    check_samplers(rec, &views[k], l, r, &ctx);
    check_local(rec, &views[k], r, &ctx);
    if rec.failed() {
        return;
    }
    // rectangles down to a rounding error wide
    {
        let x = [q(r.range(-1.0, 1.0) * w.s), q(r.range(-1.0, 1.0) * w.s)];
        let mut far = |x: f64| {
            let mut hi = x as fsize;
            match r.below(3) {
                0 => hi += (w.s * r.range(0.01, 1.0)) as fsize,
                1 => (0..r.int(1, 9)).for_each(|_| hi = next_up(hi)),
                _ => hi = next_up(hi),
            }
            hi as f64
        };
        let b = [x[0], x[1], far(x[0]), far(x[1])];
        let s = UniformAARectSampler::new(AARectangle::new(b[0] as fsize, b[1] as fsize, b[2] as fsize, b[3] as fsize), &it);
        let mut rng = SmallRng::seed_from_u64(r.next());
        for _ in 0..20 {
            let d = s.sample(&mut rng);
            let t = d.translation();
            rec.check(within([t.0 as f64, t.1 as f64], &b, 0.0) && rot_ok(&it, d.rotation() as f64), "drawn outside the rectangle", || format!("{d:?} from {b:?}"));
        }
        rec.count("slivers", 1);
    }
    // costs compare like 10 x + y
    for _ in 0..4 {
        let p: Vec<f64> = (0..4).map(|_| q(r.range(-1.0, 1.0) * w.s)).collect();
        let (a, b) = (10.0 * p[0] + p[1], 10.0 * p[2] + p[3]);
        if (a - b).abs() > 1e-4 * w.s {
            let (x, y) = (LBFPlacingCost::new(p[0] as fsize, p[1] as fsize), LBFPlacingCost::new(p[2] as fsize, p[3] as fsize));
            rec.check((x < y) == (a < b) && x != y, "order of costs", || format!("{p:?}"));
        }
        let t = about_pole(&it, random_rot(r, &it), [p[0], p[1]]);
        let mut buf = (*it.shape).clone();
        buf.transform_from(&it.shape, &dt(t.r, t.t).compose());
        let b = lib_bbox(&buf.bbox());
        rec.check(LBFPlacingCost::from_shape(&buf) == LBFPlacingCost::new(b[2] as fsize, b[3] as fsize), "cost of a shape", || format!("{b:?}"));
    }
    // one layout
    let seed = r.next();
    let mut n = 0usize;
    let got = sample_layout(&run.p, order[k], &it, &config, &mut SmallRng::seed_from_u64(seed), &mut n);
    rec.check(n <= config.n_samples, "budget", || format!("{n} samples drawn of {}; {}", config.n_samples, ctx()));
    let v = &views[k];
    let free = v.free_costs(r, 160);
    rec.count("searches", 1);
    // a fifth of the draws: hundreds of draws cannot all miss it
    let sure = (free.len() >= 32 && uni >= 270).then(|| free[31]);
    match got {
        None => {
            rec.count("searches_without_result", 1);
            rec.check(sure.is_none(), "nothing found", || format!("{} of 160 random placements are free, {uni} drawn; {}", free.len(), ctx()));
        }
        Some(p) => {
            rec.check(n > 0, "budget", || format!("result without samples; {}", ctx()));
            let c = check_found(rec, v, &p, order[k], &ctx);
            if let Some(s) = sure {
                rec.count("quality_checked", 1);
                rec.check(c <= s + 1e-4 * w.s, "poor result", || format!("cost {c}, a fifth of random placements costs less than {s}; {}", ctx()));
            }
            rec.nontrivial(mix(c.to_bits()));
        }
    }
    // the same draws without the local search, or with fewer of them: never better
    let fewer = LBFConfig { n_samples: uni, ls_frac: 0.0, ..config };
    let fewest = LBFConfig { n_samples: (uni / 2).max(1), ls_frac: 0.0, ..config };
    let mut last = got.map(|p| cost(&v.verdict(&rigid(&p.d_transf)).1));
    for (what, c) in [("without local search", fewer), ("with half of the budget", fewest)] {
        if c.n_samples == 0 || c.n_samples > uni {
            break;
        }
        let mut n = 0;
        let g = sample_layout(&run.p, order[k], &it, &c, &mut SmallRng::seed_from_u64(seed), &mut n);
        let x = g.map(|p| check_found(rec, v, &p, order[k], &ctx));
        if let Some(x) = x {
            rec.count("budgets_compared", 1);
            rec.check(last.map_or(false, |l| l <= x + 20.0 * bands(v.sc.m * 2.0).0), "worse with a larger budget", || format!("cost {x} {what}, {last:?} with the rest; {}", ctx()));
        }
        last = x;
    }
    // all layouts, in order
    let mut n2 = 0usize;
    let got = find_lbf_placement(&run.p, &it, &config, &mut SmallRng::seed_from_u64(seed ^ 1), &mut n2);
    let at = got.as_ref().map(|p| order.iter().position(|l| *l == p.layout_idx));
    rec.check(at != Some(None), "search in a layout that is not available", || format!("{got:?}, available {order:?}; {}", ctx()));
    if let (Some(Some(j)), Some(p)) = (at, got) {
        check_found(rec, &views[j], &p, order[j], &ctx);
        rec.count(if matches!(order[j], LayoutIndex::Template(_)) { "found_in_new_bin" } else { "found_in_open_layout" }, 1);
    }
    rec.check(n2 <= config.n_samples * order.len(), "budget", || format!("{n2} samples in {} layouts; {}", order.len(), ctx()));
    let passed = match at {
        Some(Some(j)) => j,
        _ => order.len(),
    };
    if uni >= 270 {
        for j in 0..passed {
            let free = views[j].free_costs(r, 100);
            rec.count("layouts_passed_over", 1);
            rec.check(free.len() < 20, "layout with room passed over", || format!("{:?}: {} of 100 random placements are free; {}", order[j], free.len(), ctx()));
        }
    }
    rec.sample(|| json!({"item": i, "layouts": order.len(), "samples": config.n_samples, "found": got.map(|p| format!("{:?} {:?}", p.layout_idx, p.d_transf))}));
}
