//! C01/C02/C04: verdicts of the collision queries against exact geometry.
use crate::gen::*;
use crate::geo::*;
use crate::rec::Rec;
use crate::rng::{mix, Rng};
use crate::scene::*;
use jagua_rs::geometry::geo_traits::{Transformable, TransformableFrom};
use serde_json::json;

/// Builds a scene with some placed items.
pub fn populated(r: &mut Rng, o: &SceneOpts, n_max: i64) -> Scene {
    let mut sc = Scene::new(r, o);
    sc.fill(r);
    let n = r.int(0, n_max);
    for _ in 0..n {
        let mut i = r.below(sc.items.len());
        if !sc.pairs.is_empty() && r.chance(0.4) {
            let (a, b) = sc.pairs[r.below(sc.pairs.len())];
            i = if r.chance(0.7) { a.unwrap_or(b) } else { b };
        }
        if let Some(d) = sc.random_placement(r, i) {
            if !sc.is_duplicate(i, &d) {
                sc.place(i, d);
            }
        }
    }
    // some history: remove a few again, lazily or not
    for _ in 0..r.below(3) {
        if sc.placed.is_empty() {
            break;
        }
        let k = r.below(sc.placed.len());
        let (key, h) = sc.placed.remove(k);
        sc.layout.remove_item(key, r.chance(0.5));
        sc.gone.push(h);
    }
    sc
}

pub fn describe(sc: &Scene, i: usize, d: &jagua_rs::geometry::d_transformation::DTransformation) -> String {
    format!(
        "depth={} hpg={} surrogate={:?} bin={:?} item {}={:?} at r={} t={:?}; placed={:?}",
        sc.cfg.quadtree_depth,
        sc.cfg.hpg_n_cells,
        sc.cfg.item_surrogate_config,
        sc.bin,
        i,
        sc.items_spec[i].shape,
        d.rotation(),
        d.translation(),
        sc.placed.iter().map(|(_, h)| h.ent).collect::<Vec<_>>()
    )
}

pub fn run(_case: usize, r: &mut Rng, rec: &mut Rec) {
    let o = SceneOpts {
        piers: cfg!(debug_assertions),
        ..Default::default()
    };
    let sc = populated(r, &o, 14);
    let cde = sc.layout.cde();
    rec.count("scenes", 1);
    rec.count("hazards", sc.hazards().count() as u64);
    let mut bufs: Vec<_> = sc.items.iter().map(|i| (*i.shape).clone()).collect();
    for _ in 0..60 {
        let (i, d) = sc.any_query(r);
        let ignored = sc.ignored(r);
        let t = rigid(&d);
        let qp = sc.ipoly[i].moved(&t);
        let m = sc.mag(i, &t);
        let exp = sc.expected(&qp, &ignored, m);
        let tf = d.compose();
        let shape = sc.items[i].shape.transform_clone(&tf);
        let got = cde.poly_collides(&shape, &ignored);
        let got_ff =
            cde.surrogate_or_poly_collides(&sc.items[i].shape, &tf, &mut bufs[i], &ignored);
        // a fresh buffer transformed by hand
        let mut buf2 = (*sc.items[i].shape).clone();
        buf2.transform_from(&sc.items[i].shape, &tf);
        let got_b = cde.poly_collides(&buf2, &ignored);
        rec.count("queries", 3);
        match exp {
            V3::Maybe => rec.count("unclear", 1),
            V3::Yes | V3::No => {
                let want = exp == V3::Yes;
                if !want && sc.pairs.iter().any(|(_, b)| *b == i) && d.rotation() == 0.0 {
                    rec.count("interlocked_free", 1)
                }
                if want {
                    rec.count("expected_collision", 1)
                } else {
                    rec.count("expected_free", 1)
                }
                rec.nontrivial(mix(d.rotation().to_bits() as u64) ^ mix(d.translation().0.to_bits() as u64) ^ i as u64);
                for (name, g) in [("direct", got), ("failfast", got_ff), ("buffer", got_b)] {
                    rec.check(g == want, &format!("{name}:{want}"), || {
                        format!(
                            "{name} verdict {g}, geometry says {want}; ignored={ignored:?}; {}",
                            describe(&sc, i, &d)
                        )
                    });
                }
                rec.sample(|| json!({"bin": sc.bin.outer, "holes": sc.bin.holes.len(), "zones": sc.bin.zones.len(),
                    "placed": sc.placed.len(), "ignored": ignored.len(), "query_item": sc.items_spec[i].shape,
                    "rotation": d.rotation(), "translation": [d.translation().0, d.translation().1], "verdict": got}));
            }
        }
        if rec.failed() {
            return;
        }
    }
}
