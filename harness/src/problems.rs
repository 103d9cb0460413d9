//! Bin and strip packing problems with an independent model of their state (C07, C08, C09, C19).
use crate::c05::agree;
use crate::gen::*;
use crate::geo::*;
use crate::rec::Rec;
use crate::rng::Rng;
use crate::scene::*;
use jagua_rs::collision_detection::hazard::HazardEntity;
use jagua_rs::entities::bin::Bin;
use jagua_rs::entities::instances::instance::Instance;
use jagua_rs::entities::instances::instance_generic::InstanceGeneric;
use jagua_rs::entities::item::Item;
use jagua_rs::entities::layout::Layout;
use jagua_rs::entities::placed_item::PItemKey;
use jagua_rs::entities::placing_option::PlacingOption;
use jagua_rs::entities::problems::bin_packing::BPProblem;
use jagua_rs::entities::problems::problem::Problem;
use jagua_rs::entities::problems::problem_generic::{LayoutIndex, ProblemGeneric, STRIP_LAYOUT_IDX};
use jagua_rs::entities::problems::strip_packing::SPProblem;
use jagua_rs::entities::solution::Solution;
use jagua_rs::geometry::d_transformation::DTransformation;
use jagua_rs::geometry::primitives::aa_rectangle::AARectangle;
use jagua_rs::util::config::CDEConfig;
use std::collections::BTreeMap;

pub type Placed = (PItemKey, usize, DTransformation);
#[derive(Clone, Debug)]
pub struct MLayout {
    pub bin: usize,
    /// extent of a strip
    pub strip: Option<[f64; 4]>,
    pub items: Vec<Placed>,
}
/// What a problem should hold: layouts by id. Everything else follows.
#[derive(Clone, Debug, Default)]
pub struct Model {
    pub layouts: BTreeMap<usize, MLayout>,
}
pub struct World {
    pub s: f64,
    pub cfg: CDEConfig,
    pub items_spec: Vec<ItemSpec>,
    pub items: Vec<Item>,
    pub areas: Vec<f64>,
    pub bins: Vec<BinSpec>,
    pub bin_objs: Vec<Bin>,
    pub bin_areas: Vec<f64>,
    pub scenes: Vec<Scene>,
    pub instance: Instance,
    pub strip_height: f64,
    /// many items, bins and steps
    pub big: bool,
}
pub fn net_area(b: &BinSpec) -> f64 {
    signed_area(&b.outer).abs() - b.holes.iter().map(|h| signed_area(h).abs()).sum::<f64>()
}

impl World {
    pub fn is_strip(&self) -> bool {
        matches!(self.instance, Instance::SP(_))
    }
    fn items_specs(r: &mut Rng, s: f64, big: bool) -> Vec<ItemSpec> {
        (0..if big { r.int(4, 14) } else { r.int(2, 5) })
            .map(|_| {
                let sz = s * r.range(0.05, if big { 0.2 } else { 0.4 });
                let mut i = item_spec(r, sz);
                i.demand = if big { r.int(1, 40) } else { r.int(1, 6) } as u64;
                if r.chance(0.05) {
                    i.demand = 0;
                }
                i
            })
            .collect()
    }
    pub fn bins(r: &mut Rng, hpg: bool) -> World {
        let s = scale(r);
        let mut cfg = cde_cfg(r, false);
        if !hpg {
            cfg.hpg_n_cells = 0;
        }
        let big = r.chance(0.03);
        let items_spec = Self::items_specs(r, s, big);
        let bins: Vec<BinSpec> = (0..if big { r.int(3, 7) } else { r.int(1, 3) })
            .map(|_| {
                let k = r.range(0.6, 1.0);
                let mut b = bin_spec(r, s * k, &BinOpts { holes: 2, zones: 3, offset: true });
                b.stock = if r.chance(0.25) { None } else { Some(if big { r.int(1, 30) } else { r.int(1, 4) } as u64) };
                b
            })
            .collect();
        let instance = parse(&bp_json(&items_spec, &bins, false), cfg, false, None);
        let Instance::BP(bpi) = &instance else { panic!("harness: bin packing instance expected") };
        let items: Vec<Item> = bpi.items.iter().map(|(i, _)| i.clone()).collect();
        let bin_objs: Vec<Bin> = bpi.bins.iter().map(|(b, _)| b.clone()).collect();
        let scenes = bins
            .iter()
            .zip(&bin_objs)
            .map(|(b, o)| Scene::from_parts(b.clone(), items_spec.clone(), items.clone(), cfg, o.clone()))
            .collect();
        World {
            s,
            cfg,
            areas: items_spec.iter().map(|i| signed_area(&i.shape).abs()).collect(),
            bin_areas: bins.iter().map(net_area).collect(),
            items_spec,
            items,
            bins,
            bin_objs,
            scenes,
            instance,
            strip_height: 0.0,
            big,
        }
    }
    /// A strip packing world; the scenes are made on demand.
    pub fn strip(r: &mut Rng, hpg: bool) -> World {
        let s = scale(r);
        let mut cfg = cde_cfg(r, false);
        if !hpg {
            cfg.hpg_n_cells = 0;
        }
        let big = r.chance(0.03);
        let items_spec = Self::items_specs(r, s, big);
        let strip_height = q(s * r.range(0.6, 1.2));
        let instance = parse(&sp_json(&items_spec, strip_height, false), cfg, false, None);
        let items: Vec<Item> = instance.items().iter().map(|(i, _)| i.clone()).collect();
        World {
            s,
            cfg,
            areas: items_spec.iter().map(|i| signed_area(&i.shape).abs()).collect(),
            bin_areas: vec![],
            items_spec,
            items,
            bins: vec![],
            bin_objs: vec![],
            scenes: vec![],
            instance,
            strip_height,
            big,
        }
    }
    pub fn new_problem(&self, r: &mut Rng) -> Problem {
        match &self.instance {
            Instance::BP(b) => Problem::BP(BPProblem::new(b.clone())),
            Instance::SP(s) => Problem::SP(SPProblem::new(s.clone(), q(self.s * r.range(0.8, 3.0)) as fsize, self.cfg)),
        }
    }
    pub fn strip_scene(&self, ext: &[f64; 4]) -> Scene {
        let rect_ = AARectangle::new(ext[0] as fsize, ext[1] as fsize, ext[2] as fsize, ext[3] as fsize);
        let spec = BinSpec { outer: rect(ext[0], ext[1], ext[2], ext[3]), holes: vec![], zones: vec![], stock: None, cost: 0, as_rect: false };
        Scene::from_parts(spec, self.items_spec.clone(), self.items.clone(), self.cfg, Bin::from_strip(rect_, self.cfg))
    }
    pub fn haz(&self, i: usize, d: &DTransformation) -> Haz {
        Haz { ent: HazardEntity::PlacedItem { id: i, dt: *d }, poly: Poly::new(rigid(d).apply_all(&self.items_spec[i].shape)) }
    }
}

/// The state of a problem read from the problem itself.
pub fn read_model(p: &Problem) -> Model {
    let mut m = Model::default();
    for l in p.layouts() {
        m.layouts.insert(
            l.id(),
            MLayout {
                bin: l.bin.id,
                strip: matches!(p, Problem::SP(_)).then(|| lib_bbox(&l.bin.bbox())),
                items: l.placed_items().iter().map(|(k, pi)| (k, pi.item_id, pi.d_transf)).collect(),
            },
        );
    }
    m
}

fn same_items<'a>(want: &[Placed], got: impl Iterator<Item = (PItemKey, usize, DTransformation)> + 'a) -> Result<(), String> {
    let got: Vec<Placed> = got.collect();
    if got.len() != want.len() {
        return Err(format!("{} items instead of {}", got.len(), want.len()));
    }
    for w in want {
        if !got.iter().any(|g| g.0 == w.0 && g.1 == w.1 && g.2 == w.2) {
            return Err(format!("item {} with handle {:?} at {:?} not found", w.1, w.0, w.2));
        }
    }
    Ok(())
}
fn same_rect(a: &[f64; 4], b: &[f64; 4]) -> bool {
    a.iter().zip(b).all(|(x, y)| x == y)
}

/// Layouts, containers and items of a problem are those of the model.
pub fn check_content(rec: &mut Rec, w: &World, p: &Problem, m: &Model, ctx: &dyn Fn() -> String) -> bool {
    let mut ids: Vec<usize> = p.layouts().iter().map(|l| l.id()).collect();
    ids.sort();
    let want: Vec<usize> = m.layouts.keys().cloned().collect();
    if !rec.check(ids == want, "layouts", || format!("layouts {ids:?}, expected {want:?}; {}", ctx())) {
        return false;
    }
    for l in p.layouts() {
        let ml = &m.layouts[&l.id()];
        let bin_ok = l.bin.id == ml.bin && ml.strip.map_or(true, |s| same_rect(&lib_bbox(&l.bin.bbox()), &s));
        if !rec.check(bin_ok, "container", || format!("layout {} has bin {} {:?}, expected {} {:?}; {}", l.id(), l.bin.id, l.bin.bbox(), ml.bin, ml.strip, ctx())) {
            return false;
        }
        let e = same_items(&ml.items, l.placed_items().iter().map(|(k, pi)| (k, pi.item_id, pi.d_transf)));
        if !rec.check(e.is_ok(), "placed items", || format!("layout {}: {}; {}", l.id(), e.clone().unwrap_err(), ctx())) {
            return false;
        }
        // the placed shape is the item's shape under its transformation
        for (_, pi) in l.placed_items() {
            let t = rigid(&pi.d_transf);
            let want = t.apply_all(&w.items_spec[pi.item_id].shape);
            let got = lib_pts(&pi.shape);
            let mm = max_abs(&want).max(max_abs(&w.items_spec[pi.item_id].shape)).max(t.t[0].abs()).max(t.t[1].abs());
            let (ds, _) = bands(mm);
            // orientation may have been normalised
            let ok = got.len() == want.len() && got.iter().all(|g| want.iter().any(|x| dist(*g, *x) <= ds));
            if !rec.check(ok, "placed shape", || format!("{got:?} expected {want:?}; {}", ctx())) {
                return false;
            }
        }
    }
    true
}

fn counts(w: &World, m: &Model) -> Vec<usize> {
    let mut n = vec![0; w.items.len()];
    for l in m.layouts.values() {
        for (_, i, _) in &l.items {
            n[*i] += 1;
        }
    }
    n
}
fn stock_left(w: &World, m: &Model) -> Vec<usize> {
    if w.is_strip() {
        return vec![0];
    }
    w.bins
        .iter()
        .enumerate()
        .map(|(b, spec)| {
            let init = spec.stock.map_or(u64::MAX as usize, |x| x as usize);
            init - m.layouts.values().filter(|l| l.bin == b).count()
        })
        .collect()
}
/// (item area, container area) of each layout
fn layout_areas(w: &World, l: &MLayout) -> (f64, f64) {
    let a = match l.strip {
        Some(s) => (s[2] - s[0]) * (s[3] - s[1]),
        None => w.bin_areas[l.bin],
    };
    (l.items.iter().map(|x| w.areas[x.1]).sum(), a)
}
fn close(a: f64, b: f64) -> bool {
    let t = if F64 { 1e-9 } else { 2e-3 };
    (a - b).abs() <= t * (1.0 + b.abs())
}

/// Quantities, stock, usage and cost follow from the content.
pub fn check_quantities(rec: &mut Rec, w: &World, p: &mut Problem, m: &Model, ctx: &dyn Fn() -> String) {
    let n = counts(w, m);
    let demand: Vec<isize> = w.items_spec.iter().map(|i| i.demand as isize).collect();
    let want: Vec<isize> = n.iter().zip(&demand).map(|(n, d)| d - *n as isize).collect();
    rec.check(p.missing_item_qtys() == want.as_slice(), "missing quantities", || format!("{:?}, expected {want:?} (demand {demand:?}); {}", p.missing_item_qtys(), ctx()));
    let placed: Vec<usize> = p.placed_item_qtys().collect();
    rec.check(placed == n, "placed quantities", || format!("{placed:?}, expected {n:?}; {}", ctx()));
    if n.iter().zip(&demand).any(|(n, d)| *n as isize > *d) {
        rec.count("states_beyond_demand", 1);
    }
    let stock = stock_left(w, m);
    if !w.is_strip() {
        rec.check(p.bin_qtys() == stock.as_slice(), "bin stock", || format!("{:?}, expected {stock:?}; {}", p.bin_qtys(), ctx()));
        let t: Vec<LayoutIndex> = p.template_layout_indices_with_stock().collect();
        let tw: Vec<LayoutIndex> = stock.iter().enumerate().filter(|(_, s)| **s > 0).map(|(i, _)| LayoutIndex::Template(i)).collect();
        rec.check(t == tw, "templates with stock", || format!("{t:?}, expected {tw:?}; {}", ctx()));
        for i in 0..w.bins.len() {
            let tl = p.get_layout(LayoutIndex::Template(i));
            rec.check(tl.is_empty() && tl.bin.id == i, "template layouts", || format!("template {i} has bin {} and {} items; {}", tl.bin.id, tl.placed_items().len(), ctx()));
        }
        let cost: u64 = m.layouts.values().map(|l| w.bins[l.bin].cost).sum();
        rec.check(p.used_bin_cost() == cost, "used bin cost", || format!("{}, expected {cost}; {}", p.used_bin_cost(), ctx()));
        if stock.iter().any(|s| *s == 0) {
            rec.count("states_without_stock_left", 1);
        }
    }
    let li: Vec<LayoutIndex> = p.layout_indices().collect();
    rec.check(li == (0..m.layouts.len()).map(LayoutIndex::Real).collect::<Vec<_>>(), "layout indices", || format!("{li:?}; {}", ctx()));
    let (mut ia, mut ba) = (0.0, 0.0);
    for l in p.layouts() {
        let (a, b) = layout_areas(w, &m.layouts[&l.id()]);
        ia += a;
        ba += b;
        rec.check(close(l.usage() as f64, a / b), "layout usage", || format!("layout {} usage {}, expected {}; {}", l.id(), l.usage(), a / b, ctx()));
    }
    let u = p.usage() as f64;
    let want = if m.layouts.is_empty() { 0.0 } else { ia / ba };
    rec.check(close(u, want), "usage", || format!("{u}, expected {want}; {}", ctx()));
}

/// A solution describes the captured state, whatever happened since.
pub fn check_solution(rec: &mut Rec, w: &World, s: &Solution, m: &Model, full: bool, ctx: &dyn Fn() -> String) {
    let mut ids: Vec<usize> = s.layout_snapshots.iter().map(|l| l.id).collect();
    ids.sort();
    let want: Vec<usize> = m.layouts.keys().cloned().collect();
    if !rec.check(ids == want, "solution: layouts", || format!("layouts {ids:?}, expected {want:?}; {}", ctx())) {
        return;
    }
    for l in &s.layout_snapshots {
        let ml = &m.layouts[&l.id];
        let bin_ok = l.bin.id == ml.bin && ml.strip.map_or(true, |s| same_rect(&lib_bbox(&l.bin.bbox()), &s));
        rec.check(bin_ok, "solution: container", || format!("layout {}; {}", l.id, ctx()));
        let e = same_items(&ml.items, l.placed_items.iter().map(|(k, pi)| (k, pi.item_id, pi.d_transf)));
        rec.check(e.is_ok(), "solution: placed items", || format!("layout {}: {}; {}", l.id, e.clone().unwrap_err(), ctx()));
        let (a, b) = layout_areas(w, ml);
        rec.check(close(l.usage as f64, a / b), "solution: layout usage", || format!("layout {}: {} expected {}; {}", l.id, l.usage, a / b, ctx()));
    }
    let n = counts(w, m);
    rec.check(s.placed_item_qtys == n, "solution: placed quantities", || format!("{:?}, expected {n:?}; {}", s.placed_item_qtys, ctx()));
    let stock = stock_left(w, m);
    if !w.is_strip() {
        rec.check(s.bin_qtys == stock, "solution: stock", || format!("{:?}, expected {stock:?}; {}", s.bin_qtys, ctx()));
    }
    if full {
        let demand: Vec<usize> = w.items_spec.iter().map(|i| i.demand as usize).collect();
        rec.check(s.target_item_qtys == demand, "solution: demand", || format!("{:?}, expected {demand:?}; {}", s.target_item_qtys, ctx()));
        rec.check(s.n_items_placed() == n.iter().sum::<usize>(), "solution: n_items_placed", || format!("{}; {}", s.n_items_placed(), ctx()));
        let missing: Vec<isize> = demand.iter().zip(&n).map(|(d, n)| *d as isize - *n as isize).collect();
        rec.check(s.missing_item_qtys(&w.instance) == missing, "solution: missing", || format!("{:?}, expected {missing:?}; {}", s.missing_item_qtys(&w.instance), ctx()));
        let complete = missing.iter().all(|m| *m <= 0);
        if complete {
            rec.count("complete_solutions", 1);
        }
        rec.check(s.is_complete(&w.instance) == complete, "solution: is_complete", || format!("{}; missing {missing:?}; {}", !complete, ctx()));
        let total: f64 = demand.iter().zip(&w.areas).map(|(d, a)| *d as f64 * a).sum();
        if total > 0.0 {
            let part: f64 = n.iter().zip(&w.areas).map(|(d, a)| *d as f64 * a).sum();
            let c = s.completeness(&w.instance) as f64;
            rec.check(close(c, part / total), "solution: completeness", || format!("{c}, expected {}; {}", part / total, ctx()));
        }
        let (ia, ba) = m.layouts.values().map(|l| layout_areas(w, l)).fold((0.0, 0.0), |a, b| (a.0 + b.0, a.1 + b.1));
        let want = if ba > 0.0 { ia / ba } else { 0.0 };
        rec.check(close(s.usage as f64, want), "solution: usage", || format!("{}, expected {want}; {}", s.usage, ctx()));
    }
}

/// The engines of the problem's layouts answer for the model's content.
pub fn check_engines(rec: &mut Rec, w: &mut World, p: &Problem, m: &Model, r: &mut Rng, n: usize, ctx: &dyn Fn() -> String) {
    let k = p.layouts().len();
    if k == 0 {
        return;
    }
    for _ in 0..2.min(k) {
        let l = &p.layouts()[r.below(k)];
        let ml = m.layouts[&l.id()].clone();
        let mut own;
        let placed: Vec<(PItemKey, Haz)> = ml.items.iter().map(|(k, i, d)| (*k, w.haz(*i, d))).collect();
        let sc = match ml.strip {
            Some(e) => {
                own = w.strip_scene(&e);
                &mut own
            }
            None => &mut w.scenes[ml.bin],
        };
        sc.placed = placed;
        let mut fresh = Layout::new(0, sc.layout.bin.clone());
        for (_, i, d) in &ml.items {
            fresh.place_item(&sc.items[*i], *d);
        }
        agree(rec, sc, l.cde(), fresh.cde(), r, n, ctx);
        crate::c05::exact(rec, sc, l.cde(), r, n, ctx);
        sc.placed.clear();
        rec.count("engines_compared", 1);
        if rec.failed() {
            return;
        }
    }
}

/// One problem with its model and the solution its incremental bookkeeping refers to.
pub struct Run {
    pub p: Problem,
    pub m: Model,
    /// index of the solution that was last created or restored
    pub reference: Option<usize>,
    pub gone: Vec<(usize, DTransformation)>,
    pub name: usize,
}

impl Run {
    pub fn new(w: &World, r: &mut Rng, name: usize) -> Run {
        let p = w.new_problem(r);
        let m = read_model(&p);
        Run { p, m, reference: None, gone: vec![], name }
    }
    fn pick(&mut self, w: &World, sc: &Scene, items: &[Placed], r: &mut Rng) -> Option<(usize, DTransformation)> {
        let c = if !self.gone.is_empty() && r.chance(0.3) {
            let k = r.below(self.gone.len());
            Some(self.gone.swap_remove(k))
        } else {
            let i = r.below(w.items.len());
            sc.random_placement(r, i).map(|d| (i, d))
        };
        let (i, d) = c?;
        let bb = sc.ipoly[i].moved(&rigid(&d)).bb;
        let sq = &sc.square;
        if !(bb[0] > sq[0] && bb[1] > sq[1] && bb[2] < sq[2] && bb[3] < sq[3]) {
            return None;
        }
        if w.cfg.hpg_n_cells > 0 && !sc.in_container(i, &d) {
            return None;
        }
        // two items of the same kind in the very same place are one hazard
        if items.iter().any(|x| x.1 == i && x.2 == d) {
            return None;
        }
        Some((i, d))
    }
    /// Places an item somewhere; returns what was done.
    pub fn place(&mut self, w: &World, rec: &mut Rec, r: &mut Rng, template: f64) -> Option<String> {
        if w.is_strip() {
            let id = self.p.layouts()[0].id();
            let ml = self.m.layouts[&id].clone();
            let sc = w.strip_scene(&ml.strip.unwrap());
            let (i, d) = self.pick(w, &sc, &ml.items, r)?;
            let (li, k) = self.p.place_item(PlacingOption { layout_idx: STRIP_LAYOUT_IDX, item_id: i, d_transf: d });
            rec.check(li == STRIP_LAYOUT_IDX, "place_item result", || format!("{li:?}"));
            self.m.layouts.get_mut(&id).unwrap().items.push((k, i, d));
            return Some(format!("place {i} r={} t={:?}", d.rotation(), d.translation()));
        }
        let n = self.p.layouts().len();
        if n == 0 || r.chance(template) {
            let stock = stock_left(w, &self.m);
            let b = r.below(w.bins.len());
            if stock[b] == 0 {
                return None;
            }
            let (i, d) = self.pick(w, &w.scenes[b], &[], r)?;
            let (li, k) = self.p.place_item(PlacingOption { layout_idx: LayoutIndex::Template(b), item_id: i, d_transf: d });
            let id = self.p.get_layout(li).id();
            rec.check(matches!(li, LayoutIndex::Real(_)), "place_item result", || format!("{li:?}"));
            if !rec.check(!self.m.layouts.contains_key(&id), "layout ids", || format!("new layout got the id {id} of another one in use")) {
                return None;
            }
            self.m.layouts.insert(id, MLayout { bin: b, strip: None, items: vec![(k, i, d)] });
            Some(format!("open bin {b} as layout {id} with {i} r={} t={:?}", d.rotation(), d.translation()))
        } else {
            let li = r.below(n);
            let id = self.p.layouts()[li].id();
            let ml = self.m.layouts[&id].clone();
            let (i, d) = self.pick(w, &w.scenes[ml.bin], &ml.items, r)?;
            let (lj, k) = self.p.place_item(PlacingOption { layout_idx: LayoutIndex::Real(li), item_id: i, d_transf: d });
            rec.check(lj == LayoutIndex::Real(li), "place_item result", || format!("{lj:?}"));
            self.m.layouts.get_mut(&id).unwrap().items.push((k, i, d));
            Some(format!("place {i} in {id} r={} t={:?}", d.rotation(), d.translation()))
        }
    }
    pub fn remove(&mut self, rec: &mut Rec, r: &mut Rng) -> Option<String> {
        let n = self.p.layouts().len();
        if n == 0 {
            return None;
        }
        let li = r.below(n);
        let id = self.p.layouts()[li].id();
        let ml = self.m.layouts.get_mut(&id).unwrap();
        if ml.items.is_empty() {
            return None;
        }
        let k = r.below(ml.items.len());
        let (key, i, d) = ml.items.swap_remove(k);
        let commit = r.chance(0.4);
        let po = self.p.remove_item(LayoutIndex::Real(li), key, commit);
        rec.check(po.item_id == i && po.d_transf == d, "remove_item result", || format!("{po:?}, expected {i} {d:?}"));
        if ml.items.is_empty() && matches!(self.p, Problem::BP(_)) {
            self.m.layouts.remove(&id);
            rec.count("layouts_emptied", 1);
        }
        self.gone.push((i, d));
        Some(format!("remove {i} {d:?} from {id} commit={commit}"))
    }
    /// bin packing only: drop a layout, or add one made elsewhere
    pub fn layout_op(&mut self, w: &World, rec: &mut Rec, r: &mut Rng, fresh_id: &mut usize) -> Option<String> {
        let Problem::BP(p) = &mut self.p else { return None };
        if r.chance(0.6) {
            let n = p.layouts.len();
            if n == 0 {
                return None;
            }
            let li = r.below(n);
            let id = p.layouts[li].id();
            if r.chance(0.5) {
                p.remove_layout(LayoutIndex::Real(li));
            } else {
                p.deregister_layout(LayoutIndex::Real(li));
            }
            self.m.layouts.remove(&id);
            rec.count("layouts_dropped", 1);
            Some(format!("drop layout {id}"))
        } else {
            let b = r.below(w.bins.len());
            if stock_left(w, &self.m)[b] == 0 {
                return None;
            }
            *fresh_id += 10_000;
            let mut l = Layout::new(*fresh_id, w.bin_objs[b].clone());
            let mut items = vec![];
            for _ in 0..r.int(1, 3) {
                let i = r.below(w.items.len());
                if let Some(d) = w.scenes[b].random_placement(r, i) {
                    if items.iter().any(|x: &Placed| x.1 == i && x.2 == d) {
                        continue;
                    }
                    let k = l.place_item(&w.items[i], d);
                    items.push((k, i, d));
                }
            }
            if items.is_empty() {
                return None;
            }
            let li = p.register_layout(l);
            rec.check(li == LayoutIndex::Real(p.layouts.len() - 1), "register_layout result", || format!("{li:?}"));
            self.m.layouts.insert(*fresh_id, MLayout { bin: b, strip: None, items });
            rec.count("layouts_registered", 1);
            Some(format!("register layout {fresh_id} (bin {b})"))
        }
    }
}
