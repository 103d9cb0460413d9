//! C04: definite answers of the three-valued queries.
use crate::c01::populated;
use crate::c02::probe_point;
use crate::c17::pt;
use crate::gen::*;
use crate::geo::*;
use crate::rec::Rec;
use crate::rng::{hash_str, mix, Rng};
use crate::scene::*;
use jagua_rs::collision_detection::hazard::HazardEntity;
use jagua_rs::geometry::primitives::circle::Circle;
use jagua_rs::geometry::primitives::edge::Edge;
use serde_json::json;
use tribool::Tribool;

fn touch(p: Probe, exterior: bool) -> V3 {
    match (p, exterior) {
        (Probe::Border, _) => V3::Yes,
        (Probe::Inside, ext) => {
            if ext {
                V3::No
            } else {
                V3::Yes
            }
        }
        (Probe::Outside, ext) => {
            if ext {
                V3::Yes
            } else {
                V3::No
            }
        }
        (Probe::Unclear, _) => V3::Maybe,
    }
}

fn judge(rec: &mut Rec, kind: &'static str, ans: Tribool, truth: V3, ctx: impl Fn() -> String) {
    rec.count(
        match ans {
            Tribool::True => "answers_true",
            Tribool::False => "answers_false",
            Tribool::Indeterminate => "answers_indeterminate",
        },
        1,
    );
    match ans {
        Tribool::True => {
            rec.check(truth != V3::No, &format!("{kind}: true but free"), ctx);
        }
        Tribool::False => {
            rec.check(truth != V3::Yes, &format!("{kind}: false but collides"), ctx);
        }
        Tribool::Indeterminate => rec.eval(),
    }
}

pub fn run(_case: usize, r: &mut Rng, rec: &mut Rec) {
    let depth_ = *r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8]);
    let o = SceneOpts { depth: Some(depth_), hpg: Some(0), ..Default::default() };
    let sc = populated(r, &o, 14);
    let cde = sc.layout.cde();
    rec.count("scenes", 1);
    let (ds, _) = bands(sc.m * 2.0);
    let sq = sc.square;
    let clearly_in = |p: P2| p[0] > sq[0] + ds && p[1] > sq[1] + ds && p[0] < sq[2] - ds && p[1] < sq[3] - ds;
    let clearly_out = |p: P2| p[0] < sq[0] - ds || p[1] < sq[1] - ds || p[0] > sq[2] + ds || p[1] > sq[3] + ds;
    let scene = || format!("cfg {:?}; bin {:?}; hazards {:?}", sc.cfg, sc.bin, sc.hazards().map(|h| h.ent).collect::<Vec<_>>());
    for _ in 0..60 {
        let p = probe_point(r, &sc);
        // points, every hazard
        for h in sc.hazards() {
            let ans = cde.point_definitely_collides_with(&pt(p), h.ent);
            let d = depth(p, &h.poly.pts);
            let truth = if d.abs() <= ds {
                V3::Maybe
            } else if (d > 0.0) != h.exterior() {
                V3::Yes
            } else {
                V3::No
            };
            judge(rec, "point", ans, truth, || format!("point {p:?} and {:?} (outline {:?}): {ans:?}; {}", h.ent, h.poly.pts, scene()));
        }
        // an entity that is not there
        let ghost = HazardEntity::PlacedItem { id: 950, dt: dt(0.25, [3.0, 4.0]) };
        let ans = cde.point_definitely_collides_with(&pt(p), ghost);
        rec.check(!matches!(ans, Tribool::True), "point: true for an absent hazard", || format!("point {p:?}; {}", scene()));

        // nor is a removed one, even where it was
        for h in &sc.gone {
            let p = if r.chance(0.5) { h.poly.inner } else { p };
            let ans = cde.point_definitely_collides_with(&pt(p), h.ent);
            rec.count("removed_hazards_asked", 1);
            rec.check(!matches!(ans, Tribool::True), "point: true for a removed hazard", || format!("point {p:?} and {:?}; {}", h.ent, scene()));
        }

        let ignored = sc.ignored(r);
        // segments
        let mut b = probe_point(r, &sc);
        if r.chance(0.5) {
            let l = sc.s * 10f64.powf(r.range(-3.0, -0.7));
            b = crate::gen::qp([p[0] + r.range(-l, l), p[1] + r.range(-l, l)]);
        }
        if dist(p, b) > 20.0 * ds {
            let ans = cde.edge_definitely_collides(&Edge::new(pt(p), pt(b)), &ignored);
            let mut truth = V3::No;
            for h in sc.hazards().filter(|h| !ignored.contains(&h.ent)) {
                match touch(probe_seg(p, b, &h.poly.pts, ds), h.exterior()) {
                    V3::Yes => truth = V3::Yes,
                    V3::Maybe if truth == V3::No => truth = V3::Maybe,
                    _ => (),
                }
            }
            if clearly_out(p) || clearly_out(b) {
                rec.count("leaving_square", 1);
                truth = V3::Yes;
            } else if !(clearly_in(p) && clearly_in(b)) && truth == V3::No {
                truth = V3::Maybe;
            }
            rec.nontrivial(mix(hash_str(&format!("{p:?}{b:?}"))));
            judge(rec, "segment", ans, truth, || format!("segment {p:?}-{b:?} ignoring {ignored:?}: {ans:?}; {}", scene()));
        }
        // circles
        let rad = q(sc.s * 10f64.powf(r.range(-3.0, -0.3)));
        let ans = cde.circle_definitely_collides(&Circle::new(pt(p), rad as fsize), &ignored);
        let mut truth = V3::No;
        for h in sc.hazards().filter(|h| !ignored.contains(&h.ent)) {
            match touch(probe_circle(p, rad, &h.poly.pts, ds), h.exterior()) {
                V3::Yes => truth = V3::Yes,
                V3::Maybe if truth == V3::No => truth = V3::Maybe,
                _ => (),
            }
        }
        if clearly_out(p) {
            truth = V3::Yes;
        } else if !clearly_in(p) && truth == V3::No {
            truth = V3::Maybe;
        }
        judge(rec, "circle", ans, truth, || format!("circle {p:?} radius {rad} ignoring {ignored:?}: {ans:?}; {}", scene()));
        rec.sample(|| json!({"bin": sc.bin.outer, "depth": depth_, "circle": [p[0], p[1], rad], "answer": format!("{ans:?}")}));
        if rec.failed() {
            return;
        }
    }
}
