//! C15: which hazards count for an item, and what the filters select.
use crate::c01::{describe, populated};
use crate::c17::un;
use crate::gen::*;
use crate::geo::*;
use crate::rec::Rec;
use crate::rng::{mix, Rng};
use crate::scene::*;
use jagua_rs::collision_detection::hazard::HazardEntity;
use jagua_rs::collision_detection::hazard_filter::*;
use jagua_rs::geometry::geo_traits::{Shape, Transformable};
use jagua_rs::util::assertions;
use serde_json::json;

/// A filter and what it should select.
enum Spec {
    Bin,
    Cutoff(usize),
    Listed(Vec<HazardEntity>),
    Any(Vec<Spec>),
}
impl Spec {
    fn names(&self, e: &HazardEntity) -> bool {
        match self {
            Spec::Bin => !matches!(e, HazardEntity::PlacedItem { .. }),
            Spec::Cutoff(q) => match e {
                HazardEntity::InferiorQualityZone { quality, .. } => quality >= q,
                _ => false,
            },
            Spec::Listed(v) => v.iter().any(|x| x == e),
            Spec::Any(v) => v.iter().any(|s| s.names(e)),
        }
    }
    fn text(&self) -> String {
        match self {
            Spec::Bin => "container".into(),
            Spec::Cutoff(q) => format!("zones>={q}"),
            Spec::Listed(v) => format!("listed {v:?}"),
            Spec::Any(v) => format!("any of [{}]", v.iter().map(|s| s.text()).collect::<Vec<_>>().join(", ")),
        }
    }
}
fn gen_spec(r: &mut Rng, sc: &Scene, depth: usize) -> Spec {
    match r.below(if depth == 0 { 3 } else { 5 }) {
        0 => Spec::Bin,
        1 => Spec::Cutoff(r.below(12)),
        2 => {
            let mut v = sc.ignored(r);
            if r.chance(0.3) {
                // entities that are not there
                v.push(HazardEntity::BinHole { id: 77 });
                v.push(HazardEntity::InferiorQualityZone { quality: r.below(10), id: 40 });
            }
            Spec::Listed(v)
        }
        _ => Spec::Any((0..r.below(4)).map(|_| gen_spec(r, sc, depth - 1)).collect()),
    }
}
/// The library's filter for it, handed to f.
fn with_filter(s: &Spec, f: &mut dyn FnMut(&dyn HazardFilter)) {
    match s {
        Spec::Bin => f(&BinHazardFilter),
        Spec::Cutoff(q) => f(&QZHazardFilter(*q)),
        Spec::Listed(v) => f(&EntityHazardFilter(v.clone())),
        Spec::Any(v) => nest(v, vec![], f),
    }
}
fn nest(v: &[Spec], acc: Vec<&dyn HazardFilter>, f: &mut dyn FnMut(&dyn HazardFilter)) {
    match v.split_first() {
        None => f(&CombinedHazardFilter { filters: acc.into_iter().map(Box::new).collect() }),
        Some((s, rest)) => with_filter(s, &mut |x| {
            let mut a: Vec<&dyn HazardFilter> = acc.clone();
            a.push(x);
            nest(rest, a, f)
        }),
    }
}
/// lets a trait object stand where a filter type is wanted
struct Dyn<'a>(&'a dyn HazardFilter);
impl HazardFilter for Dyn<'_> {
    fn is_irrelevant(&self, e: &HazardEntity) -> bool {
        self.0.is_irrelevant(e)
    }
}

/// Hazards that count for an item that requires quality q.
fn counts(q: Option<usize>, e: &HazardEntity) -> bool {
    match (e, q) {
        (HazardEntity::InferiorQualityZone { quality, .. }, Some(q)) => *quality < q,
        _ => true,
    }
}

fn filters(r: &mut Rng, rec: &mut Rec, sc: &Scene) {
    let cde = sc.layout.cde();
    let all: Vec<HazardEntity> = cde.all_hazards().map(|h| h.entity).collect();
    for _ in 0..6 {
        let spec = gen_spec(r, sc, 2);
        with_filter(&spec, &mut |f| {
            rec.count("filters", 1);
            let mut ents = all.clone();
            for quality in 0..10 {
                ents.push(HazardEntity::InferiorQualityZone { quality, id: 3 });
            }
            for e in &ents {
                let (g, w) = (f.is_irrelevant(e), spec.names(e));
                rec.check(g == w, "filter", || format!("{} says {g} for {e:?}", spec.text()));
            }
            let got = generate_irrelevant_hazards(&Dyn(f), cde.all_hazards());
            // lazily removed hazards may be listed or not: they do not count either way
            let active: Vec<HazardEntity> = cde.all_hazards().filter(|h| h.active).map(|h| h.entity).collect();
            let mut ok = active.iter().filter(|e| spec.names(e)).all(|e| got.contains(e)) && got.iter().all(|e| all.contains(e) && spec.names(e));
            for (k, e) in got.iter().enumerate() {
                ok &= !got[..k].contains(e);
            }
            rec.check(ok, "irrelevant hazards", || format!("{} selects {got:?} of {all:?}", spec.text()));
        });
    }
}

fn verdicts(r: &mut Rng, rec: &mut Rec, sc: &Scene) {
    let cde = sc.layout.cde();
    let zones: Vec<&Haz> = sc.statics.iter().filter(|h| matches!(h.ent, HazardEntity::InferiorQualityZone { .. })).collect();
    for _ in 0..30 {
        let i = r.below(sc.items.len());
        let item = &sc.items[i];
        let d = if !zones.is_empty() && r.chance(0.6) {
            // over a zone
            let z = r.pick(&zones);
            let a = angle(r);
            let c = z.poly.inner;
            let e = 0.2 * sc.s * r.f();
            sc.put(i, a, [c[0] + r.range(-e, e), c[1] + r.range(-e, e)])
        } else {
            sc.query(r, i)
        };
        let t = rigid(&d);
        let qp = sc.ipoly[i].moved(&t);
        let m = sc.mag(i, &t);
        let need = sc.items_spec[i].quality;
        let off: Vec<HazardEntity> = sc.hazards().filter(|h| !counts(need, &h.ent)).map(|h| h.ent).collect();
        let want = sc.expected(&qp, &off, m);
        if want == V3::Maybe {
            rec.count("unclear", 1);
            continue;
        }
        let want = want == V3::Yes;
        let tf = d.compose();
        let ignored = item.hazard_filter.as_ref().map_or(vec![], |f| generate_irrelevant_hazards(f, cde.all_hazards()));
        let shape = item.shape.transform_clone(&tf);
        let mut buf = (*item.shape).clone();
        let ctx = || format!("requirement {need:?}, ignored {ignored:?}; {}", describe(sc, i, &d));
        let g = cde.poly_collides(&shape, &ignored);
        rec.check(g == want, "verdict", || format!("{g}, geometry says {want}; {}", ctx()));
        let g = cde.surrogate_or_poly_collides(&item.shape, &tf, &mut buf, &ignored);
        rec.check(g == want, "fail-fast verdict", || format!("{g}, geometry says {want}; {}", ctx()));
        let g = !assertions::item_to_place_does_not_collide(item, &tf, &sc.layout);
        rec.check(g == want, "item_to_place_does_not_collide", || format!("{}, geometry says {}; {}", !g, !want, ctx()));
        // did the requirement matter
        let touched = zones.iter().any(|z| sc.verdict(&qp, z, m) == V3::Yes);
        let full = sc.expected(&qp, &[], m);
        if touched {
            rec.count(if want { "refused_on_a_zone" } else { "admitted_on_a_zone" }, 1);
        }
        if !want && full == V3::Yes {
            rec.count("requirement_decided", 1);
        }
        rec.nontrivial(mix(d.rotation().to_bits() as u64) ^ mix(d.translation().0.to_bits() as u64) ^ i as u64);
        if rec.failed() {
            return;
        }
    }
}

/// The check of a whole layout uses each item's own requirement and ignores the item itself only.
fn whole_layout(rec: &mut Rec, sc: &Scene) {
    let mut res = V3::No;
    for (k, (key, h)) in sc.placed.iter().enumerate() {
        let HazardEntity::PlacedItem { id, dt } = h.ent else { unreachable!() };
        let pi = &sc.layout.placed_items()[*key];
        let need = sc.items_spec[id].quality;
        rec.check(pi.hazard_filter.as_ref().map(|f| f.0) == need, "requirement of a placed item", || format!("{:?}, item requires {need:?}", pi.hazard_filter));
        let m = sc.mag(id, &rigid(&dt));
        let v = sc
            .statics
            .iter()
            .filter(|x| counts(need, &x.ent))
            .chain(sc.placed.iter().enumerate().filter(|(j, _)| *j != k).map(|(_, x)| &x.1))
            .map(|x| sc.verdict(&h.poly, x, m))
            .fold(V3::No, |a, b| match (a, b) {
                (V3::Yes, _) | (_, V3::Yes) => V3::Yes,
                (V3::Maybe, _) | (_, V3::Maybe) => V3::Maybe,
                _ => V3::No,
            });
        match v {
            V3::Yes => res = V3::Yes,
            V3::Maybe if res == V3::No => res = V3::Maybe,
            _ => {}
        }
    }
    if res != V3::Maybe && res == V3::No {
        rec.count("feasible_layouts", 1);
        rec.check(assertions::layout_is_collision_free(&sc.layout), "layout_is_collision_free", || {
            format!("says no, geometry says yes; bin {:?} placed {:?} items {:?}", sc.bin, sc.placed.iter().map(|x| x.1.ent).collect::<Vec<_>>(), sc.items_spec)
        });
    }
}

/// The grid uses the same notion of relevance.
fn grid(r: &mut Rng, rec: &mut Rec, sc: &Scene) {
    if sc.cfg.hpg_n_cells == 0 {
        return;
    }
    let Ok(hpg) = sc.layout.cde().haz_prox_grid() else { return };
    let (ds, wide) = bands(sc.m * 2.0);
    for c in hpg.grid.cells.iter().flatten() {
        let p = un(c.centroid);
        let need = if r.chance(0.2) { None } else { Some(r.below(11)) };
        // relevant static hazards bound the proximity from above, and only they (and items) can lower it
        let near = |e: &Haz| {
            let d = depth(p, &e.poly.pts);
            if e.exterior() { d } else { -d }
        };
        let (mut lo, mut hi) = (f64::MAX, f64::MAX);
        for h in sc.statics.iter().filter(|h| counts(need, &h.ent)) {
            let d = near(h);
            lo = lo.min(if d <= wide { 0.0 } else { d });
            hi = hi.min(if d < -wide { 0.0 } else { d.abs() });
        }
        let g = c.hazard_proximity(need) as f64;
        let ok = if sc.placed.is_empty() { g >= lo - ds && g <= hi + ds } else { g <= hi + ds };
        rec.count("grid_cells", 1);
        if !rec.check(ok, "grid relevance", || format!("cell at {p:?}, requirement {need:?}: proximity {g}, relevant hazards at {lo}..{hi}; bin {:?}", sc.bin)) {
            return;
        }
    }
}

pub fn run(_case: usize, r: &mut Rng, rec: &mut Rec) {
    let o = SceneOpts {
        bin: BinOpts { holes: 2, zones: 8, offset: true },
        size: (0.03, 0.35),
        ..Default::default()
    };
    let n = *r.pick(&[0, 1, 4, 10]);
    let sc = if r.chance(0.4) {
        // feasible by construction
        let mut sc = Scene::new(r, &o);
        for _ in 0..20 {
            let i = r.below(sc.items.len());
            let Some(d) = sc.random_placement(r, i) else { continue };
            let need = sc.items_spec[i].quality;
            let t = rigid(&d);
            let off: Vec<HazardEntity> = sc.hazards().filter(|h| !counts(need, &h.ent)).map(|h| h.ent).collect();
            if sc.expected(&sc.ipoly[i].moved(&t), &off, sc.mag(i, &t)) == V3::No {
                sc.place(i, d);
            }
        }
        sc
    } else {
        populated(r, &o, n)
    };
    rec.count("scenes", 1);
    rec.count("zones", sc.bin.zones.len() as u64);
    filters(r, rec, &sc);
    verdicts(r, rec, &sc);
    whole_layout(rec, &sc);
    grid(r, rec, &sc);
    rec.sample(|| json!({"bin": sc.bin.outer, "zones": sc.bin.zones.iter().map(|z| z.0).collect::<Vec<_>>(), "requirements": sc.items_spec.iter().map(|i| i.quality).collect::<Vec<_>>(), "placed": sc.placed.len()}));
}
