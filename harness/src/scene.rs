//! Scenes: a container with holes and zones, items, a layout and an independent model of it.
use crate::gen::*;
use crate::geo::*;
use crate::rng::Rng;
use jagua_rs::collision_detection::hazard::HazardEntity;
use jagua_rs::entities::instances::instance::Instance;
use jagua_rs::entities::item::Item;
use jagua_rs::entities::layout::Layout;
use jagua_rs::entities::placed_item::PItemKey;
use jagua_rs::geometry::d_transformation::DTransformation;
use jagua_rs::geometry::primitives::aa_rectangle::AARectangle;
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;
use jagua_rs::io::json_instance::JsonInstance;
use jagua_rs::io::parser::Parser;
use jagua_rs::util::config::{CDEConfig, SPSurrogateConfig};
use jagua_rs::util::polygon_simplification::PolySimplConfig;
use serde_json::{json, Value};

pub fn lib_pts(sp: &SimplePolygon) -> Vec<P2> {
    sp.points
        .iter()
        .map(|p| [p.0 as f64, p.1 as f64])
        .collect()
}
pub fn lib_bbox(r: &AARectangle) -> [f64; 4] {
    [
        r.x_min as f64,
        r.y_min as f64,
        r.x_max as f64,
        r.y_max as f64,
    ]
}
pub fn rigid(dt: &DTransformation) -> Rigid {
    Rigid {
        r: dt.rotation() as f64,
        t: [dt.translation().0 as f64, dt.translation().1 as f64],
    }
}
pub fn dt(r: f64, t: P2) -> DTransformation {
    DTransformation::new(r as fsize, (t[0] as fsize, t[1] as fsize))
}

pub fn surrogate_cfg(r: &mut Rng, piers: bool) -> SPSurrogateConfig {
    SPSurrogateConfig {
        pole_coverage_goal: r.range(0.3, 0.95) as fsize,
        max_poles: r.int(0, 12) as usize,
        n_ff_poles: r.int(0, 6) as usize,
        n_ff_piers: if piers && r.chance(0.3) {
            r.int(1, 2) as usize
        } else {
            0
        },
    }
}

pub fn cde_cfg(r: &mut Rng, piers: bool) -> CDEConfig {
    CDEConfig {
        quadtree_depth: *r.pick(&[0, 1, 2, 3, 3, 4, 4, 5, 5, 5, 6, 7]),
        hpg_n_cells: *r.pick(&[0, 0, 0, 0, 1, 20, 100, 400]),
        item_surrogate_config: surrogate_cfg(r, piers),
    }
}

/// Description of a generated container (input coordinates).
#[derive(Clone, Debug)]
pub struct BinSpec {
    pub outer: Vec<P2>,
    pub holes: Vec<Vec<P2>>,
    /// (quality, shape)
    pub zones: Vec<(usize, Vec<P2>)>,
    pub stock: Option<u64>,
    pub cost: u64,
    /// given as a rectangle (corner at the origin) instead of a polygon
    pub as_rect: bool,
}
#[derive(Clone, Debug)]
pub struct ItemSpec {
    pub shape: Vec<P2>,
    pub quality: Option<usize>,
    pub demand: u64,
    pub orientations: Option<Vec<f64>>,
    pub value: Option<u64>,
    pub as_rect: bool,
}

pub fn poly_json(p: &[P2], close: bool) -> Value {
    let mut v: Vec<Value> = p.iter().map(|p| json!([p[0], p[1]])).collect();
    if close {
        v.push(v[0].clone());
    }
    Value::Array(v)
}

pub fn bin_json(b: &BinSpec, close: bool) -> Value {
    let shape = if b.as_rect {
        let bb = bbox(&b.outer);
        json!({"Type": "Rectangle", "Data": {"Width": bb[2], "Height": bb[3]}})
    } else if b.holes.is_empty() && b.outer.len() % 2 == 0 {
        json!({"Type": "SimplePolygon", "Data": poly_json(&b.outer, close)})
    } else {
        json!({"Type": "Polygon", "Data": {"Outer": poly_json(&b.outer, close),
            "Inner": b.holes.iter().map(|h| poly_json(h, close)).collect::<Vec<_>>()}})
    };
    let mut v = json!({"Cost": b.cost, "Shape": shape,
        "Zones": b.zones.iter().map(|(q, z)| json!({"Quality": q,
            "Shape": match *z == rect(0.0, 0.0, bbox(z)[2], bbox(z)[3]) {
                true => json!({"Type": "Rectangle", "Data": {"Width": bbox(z)[2], "Height": bbox(z)[3]}}),
                false => json!({"Type": "SimplePolygon", "Data": poly_json(z, close)}),
            }})).collect::<Vec<_>>()});
    if let Some(s) = b.stock {
        v["Stock"] = json!(s);
    }
    v
}
pub fn item_json(i: &ItemSpec, close: bool) -> Value {
    let shape = if i.as_rect {
        let bb = bbox(&i.shape);
        json!({"Type": "Rectangle", "Data": {"Width": bb[2], "Height": bb[3]}})
    } else {
        json!({"Type": "SimplePolygon", "Data": poly_json(&i.shape, close)})
    };
    let mut v = json!({"Demand": i.demand, "Shape": shape});
    if let Some(o) = &i.orientations {
        v["AllowedOrientations"] = json!(o);
    }
    if let Some(q) = i.quality {
        v["BaseQuality"] = json!(q);
    }
    if let Some(x) = i.value {
        v["Value"] = json!(x);
    }
    v
}
pub fn bp_json(items: &[ItemSpec], bins: &[BinSpec], close: bool) -> Value {
    json!({"Name": "gen", "Items": items.iter().map(|i| item_json(i, close)).collect::<Vec<_>>(),
        "Objects": bins.iter().map(|b| bin_json(b, close)).collect::<Vec<_>>()})
}
pub fn sp_json(items: &[ItemSpec], height: f64, close: bool) -> Value {
    json!({"Name": "gen", "Items": items.iter().map(|i| item_json(i, close)).collect::<Vec<_>>(),
        "Strip": {"Height": height}})
}
pub fn parse_json(v: &Value) -> JsonInstance {
    // through text, like a user's file
    serde_json::from_str(&v.to_string()).expect("instance json")
}
pub fn parse(v: &Value, cfg: CDEConfig, center: bool, simpl: Option<f64>) -> Instance {
    let s = match simpl {
        None => PolySimplConfig::Disabled,
        Some(t) => PolySimplConfig::Enabled {
            tolerance: t as fsize,
        },
    };
    Parser::new(s, cfg, center).parse(&parse_json(v))
}

pub struct BinOpts {
    pub holes: usize,
    pub zones: usize,
    pub offset: bool,
}

/// A container of extent about s.
pub fn bin_spec(r: &mut Rng, s: f64, o: &BinOpts) -> BinSpec {
    let mut as_rect = false;
    let mut outer = match r.below(8) {
        0 | 1 | 2 => {
            let asp = r.range(1.0, 5.0);
            as_rect = r.chance(0.5);
            if r.chance(0.5) {
                rect(0.0, 0.0, q(s), q(s / asp))
            } else {
                rect(0.0, 0.0, q(s / asp), q(s))
            }
        }
        _ => polygon(r, s),
    };
    if r.chance(0.2) && !as_rect {
        // lattice rectangle matching quadtree subdivisions
        let g = 2f64.powf(s.log2().floor());
        outer = rect(0.0, 0.0, q(g), q(g * *r.pick(&[1.0, 0.5, 0.75])));
    }
    if o.offset && !as_rect && r.chance(0.5) {
        let t = [r.range(-1.5, 1.5) * s, r.range(-1.5, 1.5) * s];
        outer = shift(&outer, t);
    }
    let ob = bbox(&outer);
    let mut holes: Vec<Vec<P2>> = vec![];
    // many small ones
    let plenty = r.chance(0.05);
    if !as_rect {
        let n = if plenty && o.holes > 0 { r.int(5, 12) as usize } else { r.below(o.holes + 1) };
        for _ in 0..n * 4 {
            if holes.len() == n {
                break;
            }
            let sz = s * if plenty { r.range(0.03, 0.1) } else { r.range(0.05, 0.3) };
            let h = polygon(r, sz);
            let p = [r.range(ob[0], ob[2]), r.range(ob[1], ob[3])];
            let c = centroid(&h);
            let h = shift(&h, [p[0] - c[0], p[1] - c[1]]);
            if clear_inside(&h, &outer, s * 0.01)
                && holes.iter().all(|x| clear_apart(&h, x, s * 0.01))
            {
                holes.push(h);
            }
        }
    }
    let mut zones = vec![];
    let n = if plenty && o.zones > 0 { r.int(8, 20) as usize } else { r.below(o.zones + 1) };
    let only = if r.chance(0.15) { Some(r.below(10)) } else { None };
    for _ in 0..n {
        let sz = s * if plenty { r.range(0.04, 0.2) } else { r.range(0.08, 0.6) };
        let z = polygon(r, sz);
        let zb = bbox(&z);
        let (w, h) = (zb[2] - zb[0], zb[3] - zb[1]);
        if w > ob[2] - ob[0] || h > ob[3] - ob[1] {
            continue;
        }
        let x = r.range(ob[0], ob[2] - w) - zb[0];
        let y = r.range(ob[1], ob[3] - h) - zb[1];
        zones.push((only.unwrap_or_else(|| r.below(10)), shift(&z, [x, y])));
    }
    BinSpec {
        outer,
        holes,
        zones,
        stock: None,
        cost: r.below(1000) as u64,
        as_rect,
    }
}
pub fn clear_inside(a: &[P2], b: &[P2], gap: f64) -> bool {
    relate(&light(a), &light(b), gap, 0.0) == Rel::QinH
}
pub fn clear_apart(a: &[P2], b: &[P2], gap: f64) -> bool {
    relate(&light(a), &light(b), gap, 0.0) == Rel::Disjoint
}
/// polygon without the (expensive) inner point
pub fn light(p: &[P2]) -> Poly {
    Poly {
        pts: p.to_vec(),
        bb: bbox(p),
        inner: p[0],
        inner_depth: f64::MAX,
    }
}

pub fn item_spec(r: &mut Rng, s: f64) -> ItemSpec {
    let as_rect = r.chance(0.1);
    let shape = if as_rect {
        rect(
            0.0,
            0.0,
            q(s * r.range(0.3, 1.0)),
            q(s * r.range(0.3, 1.0)),
        )
    } else {
        let p = polygon(r, s);
        match r.below(3) {
            // around the origin, at its corner, or off
            0 => p,
            1 => {
                let c = centroid(&p);
                shift(&p, [-c[0], -c[1]])
            }
            _ => shift(&p, [r.range(-2.0, 2.0) * s, r.range(-2.0, 2.0) * s]),
        }
    };
    ItemSpec {
        shape,
        quality: if r.chance(0.4) {
            None
        } else {
            Some(r.below(13))
        },
        demand: r.int(1, 40) as u64,
        orientations: None,
        value: None,
        as_rect,
    }
}

#[derive(Clone, Debug)]
pub struct Haz {
    pub ent: HazardEntity,
    pub poly: Poly,
}
impl Haz {
    pub fn exterior(&self) -> bool {
        matches!(self.ent, HazardEntity::BinExterior)
    }
}

/// Static hazards of a container, straight from its description.
pub fn static_hazards(b: &BinSpec) -> Vec<Haz> {
    let mut v = vec![Haz {
        ent: HazardEntity::BinExterior,
        poly: Poly::new(b.outer.clone()),
    }];
    for (id, h) in b.holes.iter().enumerate() {
        v.push(Haz {
            ent: HazardEntity::BinHole { id },
            poly: Poly::new(h.clone()),
        });
    }
    let mut n = [0usize; 10];
    for (quality, z) in &b.zones {
        v.push(Haz {
            ent: HazardEntity::InferiorQualityZone {
                quality: *quality,
                id: n[*quality],
            },
            poly: Poly::new(z.clone()),
        });
        n[*quality] += 1;
    }
    v
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum V3 {
    Yes,
    No,
    Maybe,
}

pub struct Scene {
    pub s: f64,
    pub bin: BinSpec,
    pub items_spec: Vec<ItemSpec>,
    pub json: Value,
    pub cfg: CDEConfig,
    pub items: Vec<Item>,
    /// item polygons (input coordinates)
    pub ipoly: Vec<Poly>,
    pub layout: Layout,
    pub statics: Vec<Haz>,
    pub placed: Vec<(PItemKey, Haz)>,
    /// engine square according to the documentation: bounding box of the container made square
    pub square: [f64; 4],
    pub m: f64,
    /// (first, second): placed with the same transformation the two are interlocked without touching;
    /// without a first one it is the container that the second is interlocked with
    pub pairs: Vec<(Option<usize>, usize)>,
    /// a small item, to probe single edges with
    pub small: Option<usize>,
    /// place this many items to begin with
    pub crowd: usize,
    /// removed since
    pub gone: Vec<Haz>,
}

pub struct SceneOpts {
    pub n_items: (i64, i64),
    pub piers: bool,
    pub hpg: Option<usize>,
    pub depth: Option<u8>,
    pub bin: BinOpts,
    pub size: (f64, f64),
    /// how often, and how many items
    pub crowd: (f64, i64),
}
impl Default for SceneOpts {
    fn default() -> Self {
        SceneOpts {
            n_items: (2, 6),
            piers: false,
            hpg: None,
            depth: None,
            bin: BinOpts {
                holes: 3,
                zones: 5,
                offset: true,
            },
            size: (0.03, 0.5),
            crowd: (0.04, 90),
        }
    }
}

pub fn scale(r: &mut Rng) -> f64 {
    *r.pick(&[1.0, 10.0, 64.0, 100.0, 777.0, 1000.0, 2500.0, 10000.0])
}

impl Scene {
    pub fn new(r: &mut Rng, o: &SceneOpts) -> Scene {
        let s = scale(r);
        let mut cfg = cde_cfg(r, o.piers);
        if let Some(h) = o.hpg {
            cfg.hpg_n_cells = h;
        }
        if let Some(d) = o.depth {
            cfg.quadtree_depth = d;
        }
        let mut bin = bin_spec(r, s, &o.bin);
        let mut pairs = vec![];
        let mut wrap = None;
        if r.chance(0.06) {
            let (e, u) = notched(r, s);
            bin.outer = e;
            bin.holes.clear();
            bin.zones.clear();
            bin.as_rect = false;
            wrap = Some(u);
        }
        let n = r.int(o.n_items.0, o.n_items.1) as usize;
        let crowd = if r.chance(o.crowd.0) { r.int(20.min(o.crowd.1), o.crowd.1) as usize } else { 0 };
        let mut items_spec: Vec<ItemSpec> = (0..n)
            .map(|_| {
                let sz = s * if crowd > 0 { r.range(0.015, 0.08) } else { r.range(o.size.0, o.size.1) };
                item_spec(r, sz)
            })
            .collect();
        if r.chance(0.3) {
            // an item larger than the container
            let sz = s * r.range(1.2, 2.5);
            items_spec.push(item_spec(r, sz));
        }
        let mut small = None;
        if r.chance(0.5) {
            // a small one, to probe single edges
            small = Some(items_spec.len());
            if o.depth.is_none() && r.chance(0.5) {
                // many edges per node
                cfg.quadtree_depth = r.below(4) as u8;
            }
            let sz = s * r.range(0.01, 0.04);
            items_spec.push(item_spec(r, sz));
        }
        if r.chance(0.2) {
            // twins: two identical items, or an item equal to a hole
            let k = r.below(items_spec.len());
            let mut t = items_spec[k].clone();
            if !bin.holes.is_empty() && r.chance(0.5) {
                t.shape = bin.holes[0].clone();
                t.as_rect = false;
            }
            items_spec.push(t);
        }
        let plain = |shape: Vec<P2>| ItemSpec { shape, quality: None, demand: 5, orientations: None, value: None, as_rect: false };
        if r.chance(0.15) {
            let sz = s * r.range(0.2, 0.7);
            let (e, u) = interlocked(r, sz);
            pairs.push((Some(items_spec.len()), items_spec.len() + 1));
            items_spec.push(plain(e));
            items_spec.push(plain(u));
        }
        if let Some(u) = wrap {
            pairs.push((None, items_spec.len()));
            items_spec.push(plain(u));
        }
        let json = bp_json(&items_spec, std::slice::from_ref(&bin), r.chance(0.3));
        let inst = parse(&json, cfg, false, None);
        let bpi = match inst {
            Instance::BP(b) => b,
            _ => panic!("harness: expected a bin packing instance"),
        };
        let items: Vec<Item> = bpi.items.iter().map(|(i, _)| i.clone()).collect();
        let layout = Layout::new(0, bpi.bins[0].0.clone());
        let ipoly: Vec<Poly> = items_spec
            .iter()
            .map(|i| Poly::new(i.shape.clone()))
            .collect();
        let statics = static_hazards(&bin);
        let ob = bbox(&bin.outer);
        let d = (ob[2] - ob[0]).max(ob[3] - ob[1]) / 2.0;
        let c = [(ob[0] + ob[2]) / 2.0, (ob[1] + ob[3]) / 2.0];
        let square = [c[0] - d, c[1] - d, c[0] + d, c[1] + d];
        let m = ob.iter().fold(s, |a, b| a.max(b.abs()));
        Scene {
            s,
            bin,
            items_spec,
            json,
            cfg,
            items,
            ipoly,
            layout,
            statics,
            crowd,
            placed: vec![],
            square,
            m,
            pairs,
            small,
            gone: vec![],
        }
    }

    /// Magnitude of the coordinates involved when item i is placed with t.
    pub fn mag(&self, i: usize, t: &Rigid) -> f64 {
        self.m
            .max(max_abs(&self.ipoly[i].pts))
            .max(t.t[0].abs())
            .max(t.t[1].abs())
    }
    pub fn hazards(&self) -> impl Iterator<Item = &Haz> {
        self.statics.iter().chain(self.placed.iter().map(|x| &x.1))
    }

    /// A transformation that puts the centroid of item i at p with rotation a.
    pub fn put(&self, i: usize, a: f64, p: P2) -> DTransformation {
        let c = centroid(&self.ipoly[i].pts);
        let rc = Rigid { r: a, t: [0.0, 0.0] }.apply(c);
        dt(a, [p[0] - rc[0], p[1] - rc[1]])
    }
    pub fn random_point(&self, r: &mut Rng, grow: f64) -> P2 {
        let b = bbox(&self.bin.outer);
        let (w, h) = (b[2] - b[0], b[3] - b[1]);
        [
            r.range(b[0] - grow * w, b[2] + grow * w),
            r.range(b[1] - grow * h, b[3] + grow * h),
        ]
    }
    /// The items of a crowded scene.
    pub fn fill(&mut self, r: &mut Rng) {
        for _ in 0..self.crowd {
            let i = r.below(self.items.len());
            if let Some(d) = self.random_placement(r, i) {
                if !self.is_duplicate(i, &d) {
                    self.place(i, d);
                }
            }
        }
    }
    /// Random placement of item i whose bounding box lies within the container's square (so that it
    /// is a sensible, if possibly infeasible, placement). None if it does not fit.
    pub fn random_placement(&self, r: &mut Rng, i: usize) -> Option<DTransformation> {
        for _ in 0..24 {
            let a = angle(r);
            let mut p = self.random_point(r, 0.0);
            if r.chance(0.2) {
                let g = self.s / 16.0;
                p = [(p[0] / g).round() * g, (p[1] / g).round() * g];
            }
            let d = self.put(i, a, p);
            let bb = self.ipoly[i].moved(&rigid(&d)).bb;
            let sq = &self.square;
            if bb[0] > sq[0] && bb[1] > sq[1] && bb[2] < sq[2] && bb[3] < sq[3] {
                // the proximity grid presumes that items lie inside the container
                if self.cfg.hpg_n_cells > 0 && !self.in_container(i, &d) {
                    continue;
                }
                return Some(d);
            }
        }
        None
    }
    /// clearly inside the container and clear of its holes
    pub fn in_container(&self, i: usize, d: &DTransformation) -> bool {
        let t = rigid(d);
        let p = self.ipoly[i].moved(&t);
        let m = self.mag(i, &t);
        self.statics
            .iter()
            .filter(|h| !matches!(h.ent, HazardEntity::InferiorQualityZone { .. }))
            .all(|h| self.verdict(&p, h, m) == V3::No)
    }
    pub fn is_duplicate(&self, i: usize, d: &DTransformation) -> bool {
        let e = HazardEntity::PlacedItem { id: i, dt: *d };
        self.placed.iter().any(|(_, h)| h.ent == e)
    }
    pub fn haz_of(&self, i: usize, d: &DTransformation) -> Haz {
        Haz {
            ent: HazardEntity::PlacedItem { id: i, dt: *d },
            poly: self.ipoly[i].moved(&rigid(d)),
        }
    }
    pub fn place(&mut self, i: usize, d: DTransformation) -> PItemKey {
        let k = self.layout.place_item(&self.items[i], d);
        let h = self.haz_of(i, &d);
        self.placed.push((k, h));
        k
    }
    /// Whether polygon q collides with hazard h.
    pub fn verdict(&self, qp: &Poly, h: &Haz, m: f64) -> V3 {
        let (ds, wide) = bands(m);
        let rel = relate(qp, &h.poly, ds, wide);
        if h.exterior() {
            match rel {
                Rel::QinH => V3::No,
                Rel::Cross | Rel::Disjoint | Rel::HinQ | Rel::DeepOutside => V3::Yes,
                Rel::DeepOverlap | Rel::Unclear => V3::Maybe,
            }
        } else {
            match rel {
                Rel::Disjoint => V3::No,
                Rel::Cross | Rel::QinH | Rel::HinQ | Rel::DeepOverlap => V3::Yes,
                Rel::DeepOutside | Rel::Unclear => V3::Maybe,
            }
        }
    }
    /// Position of the bounding box w.r.t. the engine's square: Yes = clearly not inside
    pub fn outside_square(&self, bb: &[f64; 4], m: f64) -> V3 {
        let (ds, _) = bands(m);
        let sq = &self.square;
        let out = (sq[0] - bb[0])
            .max(sq[1] - bb[1])
            .max(bb[2] - sq[2])
            .max(bb[3] - sq[3]);
        if out > ds {
            V3::Yes
        } else if out < -ds {
            V3::No
        } else {
            V3::Maybe
        }
    }
    pub fn expected(&self, qp: &Poly, ignored: &[HazardEntity], m: f64) -> V3 {
        let mut res = self.outside_square(&qp.bb, m);
        if res == V3::Yes {
            return res;
        }
        for h in self.hazards() {
            if ignored.contains(&h.ent) {
                continue;
            }
            match self.verdict(qp, h, m) {
                V3::Yes => return V3::Yes,
                V3::Maybe => res = V3::Maybe,
                V3::No => (),
            }
        }
        res
    }
    pub fn ignored(&self, r: &mut Rng) -> Vec<HazardEntity> {
        let n = self.hazards().count();
        let keep = r.below(n);
        let mut v: Vec<HazardEntity> = match r.below(6) {
            0 => vec![],
            // all but one, all but the container and one
            4 => self
                .hazards()
                .enumerate()
                .filter(|(k, _)| *k != keep)
                .map(|(_, h)| h.ent)
                .collect(),
            5 => self
                .hazards()
                .enumerate()
                .filter(|(k, h)| *k != keep && !h.exterior())
                .map(|(_, h)| h.ent)
                .collect(),
            1 => self
                .hazards()
                .filter(|_| r.chance(0.3))
                .map(|h| h.ent)
                .collect(),
            2 => self
                .hazards()
                .filter(|_| r.chance(0.8))
                .map(|h| h.ent)
                .collect(),
            _ => {
                let z = r.below(11);
                self.statics
                    .iter()
                    .filter(|h| match h.ent {
                        HazardEntity::InferiorQualityZone { quality, .. } => quality >= z,
                        _ => false,
                    })
                    .map(|h| h.ent)
                    .collect()
            }
        };
        r.shuffle(&mut v);
        v
    }
    /// Item i astride some point of a hazard's boundary.
    pub fn astride(&self, r: &mut Rng, i: usize, a: f64) -> DTransformation {
        let hs: Vec<&Haz> = self.hazards().collect();
        let pts = &r.pick(&hs).poly.pts;
        let n = pts.len();
        // any edge, or the longest of a few
        let k = (0..r.int(1, 6)).map(|_| r.below(n)).max_by(|a, b| dist(pts[*a], pts[(*a + 1) % n]).total_cmp(&dist(pts[*b], pts[(*b + 1) % n]))).unwrap();
        let (u, v) = (pts[k], pts[(k + 1) % n]);
        let f = r.range(0.0, 1.0);
        self.put(i, a, [u[0] + f * (v[0] - u[0]), u[1] + f * (v[1] - u[1])])
    }
    /// An item and a transformation to ask about.
    pub fn any_query(&self, r: &mut Rng) -> (usize, DTransformation) {
        if let Some(i) = self.small {
            if r.chance(0.35) {
                let a = angle(r);
                return (i, self.astride(r, i, a));
            }
        }
        let i = r.below(self.items.len());
        (i, self.query(r, i))
    }
    /// A query transformation for item i, from a mix of strategies.
    pub fn query(&self, r: &mut Rng, i: usize) -> DTransformation {
        if let Some(d) = self.interlocking(r, i) {
            return d;
        }
        let a = angle(r);
        match r.below(12) {
            10 | 11 => self.astride(r, i, a),
            0 | 1 | 2 => {
                let p = self.random_point(r, 0.15);
                self.put(i, a, p)
            }
            3 => {
                // far outside
                let p = self.random_point(r, 1.5);
                self.put(i, a, p)
            }
            4 => {
                // centred on a hazard
                let hs: Vec<&Haz> = self.hazards().collect();
                let h = *r.pick(&hs);
                let c = if r.chance(0.5) {
                    h.poly.inner
                } else {
                    centroid(&h.poly.pts)
                };
                self.put(i, a, c)
            }
            5 | 6 | 7 => {
                // near contact with a hazard: slide from afar until the distance is a small amount
                let hs: Vec<&Haz> = self.hazards().collect();
                let h = *r.pick(&hs);
                self.near_contact(r, i, a, h)
            }
            8 => {
                // lattice position
                let g = 2f64.powf((self.s / 16.0).log2().floor());
                let p = self.random_point(r, 0.1);
                let rot = *r.pick(&[0.0, std::f64::consts::PI / 2.0, std::f64::consts::PI]);
                dt(
                    rot,
                    [(p[0] / g).round() * g, (p[1] / g).round() * g],
                )
            }
            _ => {
                // a vertex of the item near a vertex of a hazard
                let hs: Vec<&Haz> = self.hazards().collect();
                let h = *r.pick(&hs);
                let hv = *r.pick(&h.poly.pts);
                let iv = *r.pick(&self.ipoly[i].pts);
                let ri = Rigid { r: a, t: [0.0, 0.0] }.apply(iv);
                let e = self.s * 10f64.powf(r.range(-4.0, -1.0));
                dt(
                    a,
                    [
                        hv[0] - ri[0] + r.range(-e, e),
                        hv[1] - ri[1] + r.range(-e, e),
                    ],
                )
            }
        }
    }
    /// A placement of item i interlocked with what it is the counterpart of.
    fn interlocking(&self, r: &mut Rng, i: usize) -> Option<DTransformation> {
        if self.pairs.is_empty() || r.chance(0.3) {
            return None;
        }
        let mut ts: Vec<Rigid> = vec![];
        for (a, b) in &self.pairs {
            let other = match (a, *b == i) {
                (None, true) => {
                    ts.push(Rigid { r: 0.0, t: [0.0, 0.0] });
                    continue;
                }
                (Some(a), true) => *a,
                (Some(a), false) if *a == i => *b,
                _ => continue,
            };
            for (_, h) in &self.placed {
                if let HazardEntity::PlacedItem { id, dt } = h.ent {
                    if id == other {
                        ts.push(rigid(&dt));
                    }
                }
            }
        }
        if ts.is_empty() {
            return None;
        }
        let t = ts[r.below(ts.len())];
        let e = if r.chance(0.6) { 0.0 } else { self.s * 10f64.powf(r.range(-3.0, -1.0)) };
        Some(dt(t.r, [t.t[0] + r.range(-e, e), t.t[1] + r.range(-e, e)]))
    }
    fn near_contact(&self, r: &mut Rng, i: usize, a: f64, h: &Haz) -> DTransformation {
        let from = {
            let ang = r.range(0.0, 2.0 * std::f64::consts::PI);
            [ang.cos(), ang.sin()]
        };
        let target = *r.pick(&h.poly.pts);
        let far = self.s * 2.0;
        let at = |t: f64| {
            self.put(
                i,
                a,
                [target[0] + from[0] * far * t, target[1] + from[1] * far * t],
            )
        };
        // bisect on touching/not touching of the outlines
        let touching = |t: f64| {
            let p = light(&Rigid { ..rigid(&at(t)) }.apply_all(&self.ipoly[i].pts));
            relate(&p, &light(&h.poly.pts), 0.0, 0.0) != Rel::Disjoint
        };
        let (mut lo, mut hi) = (0.0, 1.0);
        if !touching(lo) || touching(hi) {
            return at(r.f());
        }
        for _ in 0..26 {
            let mid = 0.5 * (lo + hi);
            if touching(mid) {
                lo = mid
            } else {
                hi = mid
            }
        }
        // step back or forward by a small but clear amount
        let (ds, _) = bands(self.m * 2.0);
        let k = ds * 10f64.powf(r.range(0.3, 2.5)) / far;
        if r.chance(0.5) {
            at(hi + k)
        } else {
            at((lo - k).max(0.0))
        }
    }
}

impl Scene {
    /// A scene around an existing container.
    pub fn from_parts(spec: BinSpec, items_spec: Vec<ItemSpec>, items: Vec<Item>, cfg: CDEConfig, bin: jagua_rs::entities::bin::Bin) -> Scene {
        let ob = bbox(&spec.outer);
        let d = (ob[2] - ob[0]).max(ob[3] - ob[1]) / 2.0;
        let c = [(ob[0] + ob[2]) / 2.0, (ob[1] + ob[3]) / 2.0];
        Scene {
            s: 2.0 * d,
            statics: static_hazards(&spec),
            ipoly: items_spec.iter().map(|i| Poly::new(i.shape.clone())).collect(),
            bin: spec,
            items_spec,
            json: Value::Null,
            cfg,
            items,
            layout: Layout::new(0, bin),
            crowd: 0,
            placed: vec![],
            square: [c[0] - d, c[1] - d, c[0] + d, c[1] + d],
            m: ob.iter().fold(2.0 * d, |a, b| a.max(b.abs())),
            pairs: vec![],
            small: None,
            gone: vec![],
        }
    }
}
