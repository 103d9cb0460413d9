//! C10: parsed instances against the input they were read from.
use crate::c17::un;
use crate::gen::*;
use crate::geo::*;
use crate::rec::Rec;
use crate::rng::{hash_str, mix, Rng};
use crate::scene::*;
use jagua_rs::collision_detection::hazard::HazardEntity;
use jagua_rs::entities::bin::Bin;
use jagua_rs::entities::instances::instance::Instance;
use jagua_rs::entities::instances::instance_generic::InstanceGeneric;
use jagua_rs::geometry::geo_enums::AllowedRotation;
use jagua_rs::geometry::geo_traits::{Shape, Transformable};
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;
use jagua_rs::geometry::transformation::Transformation;
use serde_json::{json, Value};

/// Same cyclic sequence of vertices (after making both counterclockwise) within tol.
pub fn same_cycle(a: &[P2], b: &[P2], tol: f64) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let ccw = |p: &[P2]| {
        let mut v = p.to_vec();
        if signed_area(&v) < 0.0 {
            v.reverse();
        }
        v
    };
    let (a, b) = (ccw(a), ccw(b));
    let n = a.len();
    (0..n).any(|k| (0..n).all(|i| dist(a[i], b[(i + k) % n]) <= tol))
}

/// A shape of the instance corresponds to the input shape: either vertex for vertex (simplification off),
/// or by extent only.
fn check_shape(rec: &mut Rec, what: &'static str, got: &SimplePolygon, input: &[P2], pre: &Transformation, center: bool, simpl: bool, ctx: &dyn Fn() -> String) {
    let pts = lib_pts(got);
    rec.check(signed_area(&pts) > 0.0, "orientation", || format!("{what} {pts:?} is not counterclockwise; {}", ctx()));
    let d = pre.decompose();
    let m = max_abs(input).max(max_abs(&pts)).max(d.translation().0.abs() as f64).max(d.translation().1.abs() as f64);
    let (ds, _) = bands(m);
    if !center {
        let idt = d.rotation() == 0.0 && d.translation() == (0.0, 0.0);
        rec.check(idt, "moved without centring", || format!("{what} has the transformation {d:?}; {}", ctx()));
    }
    if !simpl {
        let t = rigid(&d);
        let want = t.apply_all(input);
        // reading decimal text may be off by the last bit in double precision
        let tol = if center { ds } else if F64 { 1e-14 * m } else { 0.0 };
        rec.check(same_cycle(&pts, &want, tol), "vertices", || format!("{what} is {pts:?}, input {input:?} under {d:?} (tolerance {tol}); {}", ctx()));
        // undoing the transformation gives back the input
        let back = lib_pts(&got.transform_clone(&pre.clone().inverse()));
        rec.check(same_cycle(&back, input, 2.0 * ds), "undone transformation", || format!("{what} {pts:?} taken back to {back:?}, input {input:?}; {}", ctx()));
        let a = signed_area(&pts).abs();
        let (x, y) = (got.area() as f64, signed_area(input).abs());
        rec.check((x - y).abs() <= ds * (perimeter(&pts) + m), "area", || format!("{what} area {x}, input {y} ({a}); {}", ctx()));
    }
}

fn check_bin(rec: &mut Rec, b: &Bin, spec: &BinSpec, k: usize, center: bool, simpl: bool, cfg: &jagua_rs::util::config::CDEConfig, ctx: &dyn Fn() -> String) {
    rec.check(b.id == k, "bin order", || format!("bin {k} has id {}; {}", b.id, ctx()));
    rec.check(b.value == spec.cost, "bin cost", || format!("bin {k} cost {}, input {}; {}", b.value, spec.cost, ctx()));
    check_shape(rec, "container", &b.outer, &spec.outer, &b.pretransform, center, simpl, ctx);
    if rec.check(b.holes.len() == spec.holes.len(), "holes", || format!("{} holes, input {}; {}", b.holes.len(), spec.holes.len(), ctx())) {
        for (h, s) in b.holes.iter().zip(&spec.holes) {
            check_shape(rec, "hole", h, s, &b.pretransform, center, simpl, ctx);
        }
    }
    for q in 0..10 {
        let want: Vec<&Vec<P2>> = spec.zones.iter().filter(|z| z.0 == q).map(|z| &z.1).collect();
        let got: Vec<_> = b.quality_zones[q].iter().flat_map(|z| z.zones.iter()).collect();
        rec.check(b.quality_zones[q].iter().all(|z| z.quality == q), "zone quality", || format!("{:?}; {}", b.quality_zones[q], ctx()));
        if rec.check(got.len() == want.len(), "zones", || format!("{} zones of quality {q}, input {}; {}", got.len(), want.len(), ctx())) {
            for (g, s) in got.iter().zip(&want) {
                check_shape(rec, "zone", g, s, &b.pretransform, center, simpl, ctx);
            }
        }
    }
    let m = max_abs(&spec.outer);
    if !simpl {
        let net = signed_area(&spec.outer).abs() - spec.holes.iter().map(|h| signed_area(h).abs()).sum::<f64>();
        let (ds, _) = bands(m);
        rec.check((b.area as f64 - net).abs() <= ds * (4.0 * perimeter(&spec.outer) + m), "net area", || format!("{}, expected {net}; {}", b.area, ctx()));
    }
    // the engine of the container holds exactly these shapes
    let c = b.base_cde.config();
    rec.check(c.quadtree_depth == cfg.quadtree_depth && c.hpg_n_cells == cfg.hpg_n_cells, "engine configuration", || format!("{c:?}; {}", ctx()));
    let held: Vec<_> = b.base_cde.all_hazards().collect();
    let n = 1 + spec.holes.len() + spec.zones.len();
    rec.check(held.len() == n, "engine hazards", || format!("{} hazards, expected {n}; {}", held.len(), ctx()));
    for h in held {
        let shape: Option<&SimplePolygon> = match h.entity {
            HazardEntity::BinExterior => Some(&b.outer),
            HazardEntity::BinHole { id } => b.holes.get(id).map(|x| x.as_ref()),
            HazardEntity::InferiorQualityZone { quality, id } => b.quality_zones[quality].as_ref().and_then(|z| z.zones.get(id)).map(|x| x.as_ref()),
            _ => None,
        };
        rec.check(shape.map_or(false, |s| lib_pts(s) == lib_pts(&h.shape)) && h.active, "engine hazards", || format!("{:?}; {}", h.entity, ctx()));
    }
}

/// What a generated instance should look like after parsing.
pub fn check_instance(rec: &mut Rec, inst: &Instance, items: &[ItemSpec], bins: &[BinSpec], height: f64, center: bool, simpl: bool, cfg: &jagua_rs::util::config::CDEConfig, ctx: &dyn Fn() -> String) {
    if !rec.check(inst.items().len() == items.len(), "number of items", || format!("{} items, input {}; {}", inst.items().len(), items.len(), ctx())) {
        return;
    }
    let mut total = 0usize;
    let mut area = 0.0;
    for (k, s) in items.iter().enumerate() {
        let (i, qty) = &inst.items()[k];
        total += s.demand as usize;
        area += s.demand as f64 * signed_area(&s.shape).abs();
        rec.check(i.id == k, "item order", || format!("item {k} has id {}; {}", i.id, ctx()));
        rec.check(*qty as u64 == s.demand && inst.item_qty(k) as u64 == s.demand, "demand", || format!("item {k}: {qty}, input {}; {}", s.demand, ctx()));
        rec.check(i.value == s.value.unwrap_or(0), "value", || format!("item {k}: {}, input {:?}; {}", i.value, s.value, ctx()));
        rec.check(i.base_quality == s.quality, "quality", || format!("item {k}: {:?}, input {:?}; {}", i.base_quality, s.quality, ctx()));
        rec.check(i.hazard_filter.as_ref().map(|f| f.0) == s.quality, "quality filter", || format!("item {k}: {:?}, input {:?}; {}", i.hazard_filter, s.quality, ctx()));
        let rot_ok = match (&s.orientations, &i.allowed_rotation) {
            (None, AllowedRotation::Continuous) => true,
            (Some(v), AllowedRotation::None) => v.iter().all(|a| *a == 0.0),
            (Some(v), AllowedRotation::Discrete(d)) => {
                // the same angles, in radians
                v.len() == d.len() && v.iter().zip(d).all(|(a, b)| (a.to_radians() - *b as f64).abs() <= 1e-5 * (1.0 + a.to_radians().abs()))
            }
            _ => false,
        };
        rec.check(rot_ok, "rotations", || format!("item {k}: {:?}, input {:?} degrees; {}", i.allowed_rotation, s.orientations, ctx()));
        check_shape(rec, "item", &i.shape, &s.shape, &i.pretransform, center, simpl, ctx);
    }
    rec.check(inst.total_item_qty() == total, "total demand", || format!("{}; {}", inst.total_item_qty(), ctx()));
    if !simpl && area > 0.0 {
        let t = if F64 { 1e-9 } else { 3e-3 };
        rec.check((inst.item_area() as f64 - area).abs() <= t * area, "total item area", || format!("{}, expected {area}; {}", inst.item_area(), ctx()));
    }
    match inst {
        Instance::SP(s) => {
            rec.check(bins.is_empty() && (s.strip_height as f64 - height).abs() <= if F64 { 1e-14 * height } else { 0.0 }, "strip height", || format!("{}; {}", s.strip_height, ctx()));
        }
        Instance::BP(b) => {
            if rec.check(b.bins.len() == bins.len(), "number of bins", || format!("{} bins, input {}; {}", b.bins.len(), bins.len(), ctx())) {
                for (k, spec) in bins.iter().enumerate() {
                    let (bin, stock) = &b.bins[k];
                    rec.check(*stock as u64 == spec.stock.unwrap_or(u64::MAX), "stock", || format!("bin {k}: {stock}, input {:?}; {}", spec.stock, ctx()));
                    check_bin(rec, bin, spec, k, center, simpl, cfg, ctx);
                }
            }
        }
    }
}

/// Gives some shapes a last vertex close to the first one, without being the same.
fn nearly_closed(r: &mut Rng, p: &mut Vec<P2>) {
    if !r.chance(0.25) {
        return;
    }
    let (a, b) = (p[0], p[p.len() - 1]);
    let l = dist(a, b);
    let d = (max_abs(p) * 10f64.powf(r.range(-4.5, -2.0))).min(0.2 * l);
    let n = [q(a[0] + (b[0] - a[0]) * d / l), q(a[1] + (b[1] - a[1]) * d / l)];
    let far = 1e-6 * max_abs(p);
    if dist(n, a) > far && dist(n, b) > far {
        p.push(n);
    }
}

pub fn gen_items(r: &mut Rng, s: f64) -> Vec<ItemSpec> {
    (0..r.int(1, 7))
        .map(|_| {
            let sz = s * r.range(0.03, 0.5);
            let mut i = item_spec(r, sz);
            if !i.as_rect && r.chance(0.4) {
                i.shape.reverse();
            }
            i.demand = *r.pick(&[0, 1, 2, 3, 7, 40, 1000, 123456]);
            i.value = if r.chance(0.5) { None } else { Some(r.below(1_000_000) as u64) };
            i.orientations = match r.below(7) {
                0 | 1 => None,
                2 => Some(vec![]),
                3 => Some(vec![0.0]),
                4 => Some(vec![0.0, 90.0, 180.0, 270.0]),
                5 => Some((0..r.int(1, 6)).map(|_| q(r.range(-360.0, 720.0))).collect()),
                _ => Some(vec![*r.pick(&[90.0, 180.0, 45.0, 360.0, -90.0])]),
            };
            i
        })
        .collect()
}
pub fn gen_bins(r: &mut Rng, s: f64) -> Vec<BinSpec> {
    (0..r.int(1, 4))
        .map(|_| {
            let k = s * r.range(0.5, 1.0);
            let mut b = bin_spec(r, k, &BinOpts { holes: 3, zones: 6, offset: true });
            b.stock = if r.chance(0.4) { None } else { Some(r.below(20) as u64) };
            b.cost = *r.pick(&[0, 1, 7, 1000, 987654321]);
            if !b.as_rect && r.chance(0.3) {
                b.outer.reverse();
            }
            for h in b.holes.iter_mut() {
                if r.chance(0.4) {
                    h.reverse();
                }
            }
            for z in b.zones.iter_mut() {
                if r.chance(0.4) {
                    z.1.reverse();
                }
            }
            // a rectangle is a shape of its own in the input, at the origin
            let bb = bbox(&b.outer);
            if bb[2] > 0.0 && bb[3] > 0.0 && r.chance(0.15) {
                let z = rect(0.0, 0.0, q(bb[2] * r.range(0.1, 0.8)), q(bb[3] * r.range(0.1, 0.8)));
                let at = r.below(b.zones.len() + 1);
                b.zones.insert(at, (r.below(10), z));
            }
            b
        })
        .collect()
}

pub fn run(_case: usize, r: &mut Rng, rec: &mut Rec) {
    let s = scale(r);
    let cfg = cde_cfg(r, false);
    let mut items = gen_items(r, s);
    let strip = r.chance(0.3);
    let height = q(s * r.range(0.5, 2.0));
    let mut bins = if strip { vec![] } else { gen_bins(r, s) };
    items.iter_mut().filter(|i| !i.as_rect).for_each(|i| nearly_closed(r, &mut i.shape));
    for b in bins.iter_mut() {
        if !b.as_rect {
            nearly_closed(r, &mut b.outer);
        }
        b.holes.iter_mut().chain(b.zones.iter_mut().map(|z| &mut z.1)).for_each(|p| nearly_closed(r, p));
    }
    let close = r.chance(0.5);
    let mut v = if strip { sp_json(&items, height, close) } else { bp_json(&items, &bins, close) };
    // what real files carry besides
    if r.chance(0.4) {
        for i in v["Items"].as_array_mut().unwrap() {
            i["Dxf"] = json!("dxf/i_0.dxf");
            i["DemandMax"] = json!(99);
            i["Zones"] = json!([]);
        }
    }
    if let Some(bs) = v.get_mut("Objects").and_then(|x| x.as_array_mut()) {
        for b in bs {
            if b["Zones"].as_array().map_or(false, |z| z.is_empty()) && r.chance(0.5) {
                b.as_object_mut().unwrap().remove("Zones");
            }
        }
    }
    let center = r.chance(0.6);
    let simpl = if r.chance(0.25) { Some(*r.pick(&[0.0, 0.001, 0.01, 0.05])) } else { None };
    let inst = parse(&v, cfg, center, simpl);
    rec.count(if strip { "strip_instances" } else { "bin_instances" }, 1);
    rec.count("items", items.len() as u64);
    rec.count("holes", bins.iter().map(|b| b.holes.len() as u64).sum());
    rec.count("zones", bins.iter().map(|b| b.zones.len() as u64).sum());
    let text = || format!("centred {center}, simplification {simpl:?}, input {v}");
    check_instance(rec, &inst, &items, &bins, height, center, simpl.is_some(), &cfg, &text);
    rec.nontrivial(mix(hash_str(&v.to_string())));
    rec.sample(|| json!({"centred": center, "instance": v}));
    let _: (fn(jagua_rs::geometry::primitives::point::Point) -> P2, Option<Value>) = (un, None);
}
