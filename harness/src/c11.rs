//! C11: simplified shapes against the originals.
use crate::c16::special_polygon;
use crate::c17::pt;
use crate::gen::*;
use crate::geo::*;
use crate::rec::Rec;
use crate::rng::{hash_str, mix, Rng};
use crate::scene::*;
use jagua_rs::entities::instances::instance::Instance;
use jagua_rs::geometry::geo_traits::Shape;
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;
use jagua_rs::util::polygon_simplification::{simplify_shape, PolySimplMode};
use serde_json::json;
use std::f64::consts::PI;

/// A band along a ring or spiral whose ends, possibly tapered, point at other parts of it.
fn band(r: &mut Rng, s: f64) -> Vec<P2> {
    let n = if r.chance(0.12) { r.int(40, 120) } else { r.int(6, 40) } as usize;
    let turns = *r.pick(&[1.0, 1.0, 1.0, 1.4, 2.2]);
    let gap = r.range(0.02, 0.3);
    let total = 2.0 * PI * turns - gap;
    // radius along the centre line
    let (r0, r1) = if turns > 1.0 { (0.5 * s, 0.5 * s * r.range(0.2, 0.5)) } else { (0.45 * s, 0.45 * s * r.range(0.97, 1.03)) };
    let pitch = if turns > 1.0 { (r0 - r1) / turns } else { 0.5 * s };
    let th = pitch * 10f64.powf(r.range(-1.7, -0.4)) / 2.0;
    let at = |t: f64, off: f64| {
        let rad = r0 + (r1 - r0) * t + off;
        [rad * (total * t).cos(), rad * (total * t).sin()]
    };
    // where the taper begins and what is left of the width at the very end, for either end
    let mut end = || {
        let (a, b, c) = (r.range(0.2, 2.0) / n as f64, r.range(0.1, 0.9), r.chance(0.5));
        if c { Some((a, b)) } else { None }
    };
    let (e0, e1) = (end(), end());
    let width = |t: f64| {
        let mut w = th;
        if let Some((a, b)) = e0 {
            if t < a {
                w = w.min(th * (b + (1.0 - b) * t / a));
            }
        }
        if let Some((a, b)) = e1 {
            if 1.0 - t < a {
                w = w.min(th * (b + (1.0 - b) * (1.0 - t) / a));
            }
        }
        w
    };
    let mut ts: Vec<f64> = vec![0.0];
    let (lo, hi) = (e0.map_or(0.0, |e| e.0), 1.0 - e1.map_or(0.0, |e| e.0));
    ts.extend((0..=n).map(|k| lo + (hi - lo) * k as f64 / n as f64));
    ts.push(1.0);
    ts.dedup();
    let mut p: Vec<P2> = ts.iter().map(|t| at(*t, width(*t))).collect();
    p.extend(ts.iter().rev().map(|t| at(*t, -width(*t))));
    p
}

/// Polygons with something to simplify.
pub fn detailed(r: &mut Rng, s: f64) -> Vec<P2> {
    for _ in 0..40 {
        let mut p: Vec<P2> = match r.below(9) {
            7 | 8 => band(r, s),
            0 => {
                // smooth blob
                let n = r.int(8, 70) as usize;
                let (a, b, k) = (r.range(0.0, 0.4), r.range(0.0, 6.0), r.int(2, 6) as f64);
                (0..n)
                    .map(|i| {
                        let t = 2.0 * PI * i as f64 / n as f64;
                        let rad = s * 0.5 * (1.0 + a * (k * t + b).sin() + r.range(-0.01, 0.01));
                        [rad * t.cos(), rad * t.sin()]
                    })
                    .collect()
            }
            1 | 2 => {
                // edges with jitter
                let base = polygon(r, s);
                let e = s * 10f64.powf(r.range(-3.0, -1.3));
                let mut o = vec![];
                for i in 0..base.len() {
                    let (a, b) = (base[i], base[(i + 1) % base.len()]);
                    o.push(a);
                    let k = if base.len() > 60 { r.below(2) } else { r.below(6) };
                    for j in 1..=k {
                        let t = j as f64 / (k + 1) as f64;
                        o.push([a[0] + (b[0] - a[0]) * t + r.range(-e, e), a[1] + (b[1] - a[1]) * t + r.range(-e, e)]);
                    }
                }
                o
            }
            3 => {
                // ring with a gap: closing the gap would cross the other arm
                let n = r.int(8, 30);
                let gap = r.range(0.05, 1.2);
                let th = s * r.range(0.05, 0.2);
                let arc = |rad: f64, k: i64| {
                    let t = gap / 2.0 + (2.0 * PI - gap) * k as f64 / n as f64;
                    [rad * t.cos(), rad * t.sin()]
                };
                let mut o: Vec<P2> = (0..=n).map(|k| arc(s * 0.5, k)).collect();
                o.extend((0..=n).rev().map(|k| arc(s * 0.5 - th, k)));
                o
            }
            4 => {
                // comb: many narrow notches, slanted
                let n = r.int(2, 6) as usize;
                let w = s / (2 * n + 1) as f64;
                let sl = r.range(-1.5, 1.5) * w;
                let mut o = vec![[0.0, 0.0], [s, 0.0]];
                for k in (0..=n).rev() {
                    let x = 2.0 * k as f64 * w;
                    let top = s * r.range(0.5, 1.0);
                    let bot = s * r.range(0.1, 0.35);
                    o.push([x + w + sl, top]);
                    o.push([x + sl + if r.chance(0.5) { 0.3 * w } else { 0.0 }, top * r.range(0.9, 1.1)]);
                    if k > 0 {
                        o.push([x, bot]);
                        o.push([x - w * r.range(0.1, 0.9), bot * r.range(0.6, 1.4)]);
                    }
                }
                o
            }
            5 => {
                // turned rectangle away from the origin: sides that are parallel but for rounding
                let (w, h, a) = (s * r.range(0.3, 1.0), s * r.range(0.05, 0.5), angle(r));
                let t = [r.range(-2.0, 2.0) * s, r.range(-2.0, 2.0) * s];
                Rigid { r: a, t }.apply_all(&rect(0.0, 0.0, w, h))
            }
            _ => special_polygon(r, s),
        };
        if r.chance(0.3) {
            let a = angle(r);
            p = Rigid { r: a, t: [0.0, 0.0] }.apply_all(&p);
        }
        if r.chance(0.4) {
            let t = [r.range(-1.5, 1.5) * s, r.range(-1.5, 1.5) * s];
            p = p.iter().map(|v| [v[0] + t[0], v[1] + t[1]]).collect();
        }
        let p: Vec<P2> = p.into_iter().map(qp).collect();
        if p.len() >= 3 && is_simple(&p, s * 1e-3) {
            return p;
        }
    }
    polygon(r, s)
}

/// Points of the outline of a that should lie inside b.
fn leaves(a: &[P2], b: &[P2], tol: f64) -> Option<String> {
    for i in 0..a.len() {
        let (u, v) = (a[i], a[(i + 1) % a.len()]);
        for k in 0..8 {
            let t = k as f64 / 8.0;
            let p = [u[0] + (v[0] - u[0]) * t, u[1] + (v[1] - u[1]) * t];
            let d = depth(p, b);
            if d < -tol {
                return Some(format!("{p:?} lies {} outside", -d));
            }
        }
    }
    for p in b {
        let d = depth(*p, a);
        if d > tol {
            return Some(format!("corner {p:?} lies {d} inside"));
        }
    }
    None
}
fn self_crossing(p: &[P2], tol: f64) -> Option<String> {
    let n = p.len();
    for i in 0..n {
        for j in i + 2..n {
            if i == 0 && j == n - 1 {
                continue;
            }
            if let Some(m) = cross_margin(p[i], p[i + 1], p[j], p[(j + 1) % n]) {
                if m > tol {
                    return Some(format!("edges {i} and {j} cross"));
                }
            }
        }
    }
    None
}

pub fn judge(rec: &mut Rec, what: &str, orig: &[P2], simpl: &[P2], inflate: bool, tol_area: f64, ctx: &dyn Fn() -> String) {
    let m = max_abs(orig).max(max_abs(simpl));
    let (ds, _) = bands(m);
    let c = || format!("{what} tolerance {tol_area} original {orig:?} simplified {simpl:?}; {}", ctx());
    let out = if inflate { leaves(orig, simpl, ds) } else { leaves(simpl, orig, ds) };
    rec.check(out.is_none(), if inflate { "does not cover" } else { "leaves" }, || format!("{}: {}", out.clone().unwrap(), c()));
    rec.check(simpl.len() <= orig.len() && simpl.len() >= 3, "vertices", || format!("{} from {}; {}", simpl.len(), orig.len(), c()));
    let (a, b) = (signed_area(orig).abs(), signed_area(simpl));
    // half of what the rounding of the corners can do
    let slack = ds * perimeter(orig);
    rec.check((a - b.abs()).abs() <= tol_area * a + slack, "area", || format!("area {b} from {a}: {} of it; {}", (b.abs() - a).abs() / a, c()));
    rec.check(b > 0.0, "orientation", || c());
    let x = self_crossing(simpl, ds);
    rec.check(x.is_none(), "not simple", || format!("{}; {}", x.clone().unwrap(), c()));
    if simpl.len() < orig.len() {
        rec.count("simplified", 1);
        rec.count("vertices_removed", (orig.len() - simpl.len()) as u64);
        rec.nontrivial(mix(hash_str(&format!("{simpl:?}"))));
    } else {
        rec.count("unchanged", 1);
        if orig.len() == simpl.len() && tol_area == 0.0 {
            rec.eval();
        }
    }
}

pub fn run(_case: usize, r: &mut Rng, rec: &mut Rec) {
    let s = scale(r);
    let tols = [0.0, 1e-4, 1e-3, 0.005, 0.01, 0.03, 0.1, 0.2, 0.3];
    // the function itself
    for _ in 0..6 {
        let p = detailed(r, s);
        let sp = SimplePolygon::new(p.iter().map(|x| pt(*x)).collect());
        let t = *r.pick(&tols);
        for mode in [PolySimplMode::Inflate, PolySimplMode::Deflate] {
            let got = simplify_shape(&sp, mode, t as fsize);
            rec.count("shapes", 1);
            judge(rec, &format!("{mode:?}"), &p, &lib_pts(&got), mode == PolySimplMode::Inflate, t, &|| String::new());
            if rec.failed() {
                return;
            }
        }
        // the original is left alone
        rec.check(lib_pts(&sp).len() == p.len(), "original changed", || format!("{p:?}"));
    }
    // through the parser: items, holes and zones grow, containers shrink
    let mut bin = bin_spec(r, s, &BinOpts { holes: 2, zones: 3, offset: true });
    if r.chance(0.6) {
        bin.as_rect = false;
        bin.holes.clear();
        bin.zones.clear();
        bin.outer = detailed(r, s);
        if r.chance(0.5) {
            // around a hole-sized clear disc
            let (c, d) = inner_point(&bin.outer);
            if d > 0.02 * s {
                let h: Vec<P2> = detailed(r, d * 0.5);
                let hc = centroid(&h);
                let h = shift(&h, [c[0] - hc[0], c[1] - hc[1]]);
                if clear_inside(&h, &bin.outer, 0.01 * d) {
                    bin.holes.push(h.clone());
                }
                bin.zones.push((r.below(10), h));
            }
        }
    }
    let items: Vec<ItemSpec> = (0..2)
        .map(|_| {
            let sz = s * r.range(0.1, 0.4);
            let mut i = item_spec(r, sz);
            if !i.as_rect {
                i.shape = detailed(r, sz);
            }
            i
        })
        .collect();
    let mut cfg = cde_cfg(r, false);
    cfg.hpg_n_cells = 0;
    let t = *r.pick(&tols[..7]);
    let on = r.chance(0.85);
    let v = bp_json(&items, std::slice::from_ref(&bin), r.chance(0.5));
    let Instance::BP(bpi) = parse(&v, cfg, false, on.then_some(t)) else { panic!("harness") };
    let t_ = if on { t } else { 0.0 };
    let b = &bpi.bins[0].0;
    rec.count("parsed_instances", 1);
    let ctx = || format!("{v}");
    let same = |rec: &mut Rec, what: &str, o: &[P2], g: &[P2]| {
        // reading decimal text may be off by the last bit in double precision
        let tol = if F64 { 1e-14 * max_abs(o) } else { 0.0 };
        let ok = o.len() == g.len() && o.iter().all(|p| g.iter().any(|q| dist(*p, *q) <= tol));
        rec.check(ok, "changed although off", || format!("{what} {o:?} became {g:?}"));
    };
    let each = |rec: &mut Rec, what: &str, o: &[P2], g: &SimplePolygon, inflate: bool| {
        let g = lib_pts(g);
        if on {
            judge(rec, what, o, &g, inflate, t_, &ctx);
        } else {
            same(rec, what, o, &g);
        }
    };
    each(rec, "container", &bin.outer, &b.outer, false);
    for (o, g) in bin.holes.iter().zip(&b.holes) {
        each(rec, "hole", o, g, true);
    }
    for q in 0..10 {
        let os = bin.zones.iter().filter(|z| z.0 == q);
        let gs = b.quality_zones[q].iter().flat_map(|z| z.zones.iter());
        for (o, g) in os.zip(gs) {
            each(rec, "zone", &o.1, g, true);
        }
    }
    for (o, (g, _)) in items.iter().zip(&bpi.items) {
        each(rec, "item", &o.shape, &g.shape, true);
    }
    rec.sample(|| json!({"tolerance": t, "container": bin.outer, "simplified": lib_pts(&b.outer)}));
}
