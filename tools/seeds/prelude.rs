#![allow(unused_imports, dead_code)]
use jagua_rs::collision_detection::cd_engine::CDEngine;
use jagua_rs::collision_detection::hazard::{Hazard, HazardEntity};
use jagua_rs::collision_detection::hazard_filter::*;
use jagua_rs::entities::bin::Bin;
use jagua_rs::entities::instances::instance::Instance;
use jagua_rs::entities::instances::instance_generic::InstanceGeneric;
use jagua_rs::entities::item::Item;
use jagua_rs::entities::layout::Layout;
use jagua_rs::entities::placing_option::PlacingOption;
use jagua_rs::entities::problems::bin_packing::BPProblem;
use jagua_rs::entities::problems::problem_generic::{LayoutIndex, ProblemGeneric};
use jagua_rs::entities::problems::strip_packing::SPProblem;
use jagua_rs::entities::quality_zone::InferiorQualityZone;
use jagua_rs::fsize;
use jagua_rs::geometry::d_transformation::DTransformation;
use jagua_rs::geometry::geo_enums::*;
use jagua_rs::geometry::geo_traits::*;
use jagua_rs::geometry::primitives::aa_rectangle::AARectangle;
use jagua_rs::geometry::primitives::circle::Circle;
use jagua_rs::geometry::primitives::edge::Edge;
use jagua_rs::geometry::primitives::point::Point;
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;
use jagua_rs::geometry::transformation::Transformation;
use jagua_rs::io::json_instance::JsonInstance;
use jagua_rs::io::parser::*;
use jagua_rs::util::config::{CDEConfig, SPSurrogateConfig};
use jagua_rs::util::polygon_simplification::*;
use serde_json::json;
use std::sync::Arc;
use tribool::Tribool;

fn sur() -> SPSurrogateConfig {
    SPSurrogateConfig { pole_coverage_goal: 0.9, max_poles: 10, n_ff_poles: 2, n_ff_piers: 0 }
}
fn cfg(depth: u8, cells: usize) -> CDEConfig {
    CDEConfig { quadtree_depth: depth, hpg_n_cells: cells, item_surrogate_config: sur() }
}
fn poly(p: &[(fsize, fsize)]) -> SimplePolygon {
    SimplePolygon::new(p.iter().map(|&(x, y)| Point(x, y)).collect())
}
fn rect(x0: fsize, y0: fsize, x1: fsize, y1: fsize) -> SimplePolygon {
    SimplePolygon::from(AARectangle::new(x0, y0, x1, y1))
}
fn bin(outer: SimplePolygon, holes: Vec<SimplePolygon>, zones: Vec<(usize, Vec<SimplePolygon>)>, c: CDEConfig) -> Bin {
    Bin::new(0, outer, 0, Transformation::empty(), holes, zones.into_iter().map(|(q, z)| InferiorQualityZone::new(q, z)).collect(), c)
}
fn item(id: usize, s: SimplePolygon, q: Option<usize>) -> Item {
    Item::new(id, s, AllowedRotation::Continuous, q, 0, Transformation::empty(), sur())
}
fn at(x: fsize, y: fsize) -> DTransformation {
    DTransformation::new(0.0, (x, y))
}
fn parse(j: serde_json::Value, c: CDEConfig, center: bool) -> Instance {
    let j: JsonInstance = serde_json::from_value(j).unwrap();
    Parser::new(PolySimplConfig::Disabled, c, center).parse(&j)
}
fn bp(i: Instance) -> BPProblem {
    match i { Instance::BP(b) => BPProblem::new(b), _ => unreachable!() }
}
fn sp(i: Instance, w: fsize, c: CDEConfig) -> SPProblem {
    match i { Instance::SP(b) => SPProblem::new(b, w, c), _ => unreachable!() }
}
fn put(l: LayoutIndex, item_id: usize, x: fsize, y: fsize) -> PlacingOption {
    PlacingOption { layout_idx: l, item_id, d_transf: at(x, y) }
}
fn near(a: fsize, b: fsize) -> bool {
    (a - b).abs() < 1e-3
}
fn jrect(x: f64, y: f64, w: f64, h: f64) -> serde_json::Value {
    json!({"Type": "SimplePolygon", "Data": [[x, y], [x + w, y], [x + w, y + h], [x, y + h]]})
}
