//! C20: geometric primitives against f64 formulas.
use crate::c17::{pt, un};
use crate::gen::*;
use crate::geo::*;
use crate::rec::Rec;
use crate::rng::{mix, Rng};
use jagua_rs::geometry::geo_enums::{GeoPosition, GeoRelation};
use jagua_rs::geometry::geo_traits::{AlmostCollidesWith, CollidesWith, DistanceFrom, Shape};
use jagua_rs::geometry::primitives::aa_rectangle::AARectangle;
use jagua_rs::geometry::primitives::circle::Circle;
use jagua_rs::geometry::primitives::edge::Edge;
use jagua_rs::geometry::primitives::point::Point;
use serde_json::json;

struct G {
    s: f64,
    o: P2,
    g: f64,
}
impl G {
    /// random coordinate pair, often sharing a lattice with others
    fn p(&self, r: &mut Rng) -> P2 {
        let mut p = [r.range(-1.0, 1.0) * self.s, r.range(-1.0, 1.0) * self.s];
        for k in 0..2 {
            if r.chance(0.5) {
                p[k] = (p[k] / self.g).round() * self.g;
            }
        }
        qp([p[0] + self.o[0], p[1] + self.o[1]])
    }
    fn seg(&self, r: &mut Rng) -> (P2, P2) {
        loop {
            let a = self.p(r);
            let mut b = self.p(r);
            match r.below(5) {
                0 => b[0] = a[0],
                1 => b[1] = a[1],
                2 => {
                    // short
                    let f = 10f64.powf(r.range(-2.0, 0.0));
                    b = qp([a[0] + (b[0] - a[0]) * f, a[1] + (b[1] - a[1]) * f]);
                }
                _ => (),
            }
            if dist(a, b) > 1e-3 * self.s {
                return (a, b);
            }
        }
    }
    fn rect(&self, r: &mut Rng) -> [f64; 4] {
        loop {
            let (a, b) = (self.p(r), self.p(r));
            let v = [a[0].min(b[0]), a[1].min(b[1]), a[0].max(b[0]), a[1].max(b[1])];
            if v[2] - v[0] > 1e-2 * self.s && v[3] - v[1] > 1e-2 * self.s {
                return v;
            }
        }
    }
    fn circle(&self, r: &mut Rng) -> (P2, f64) {
        (self.p(r), q(self.s * 10f64.powf(r.range(-2.0, 0.0))))
    }
}
fn lr(v: &[f64; 4]) -> AARectangle {
    AARectangle::new(v[0] as fsize, v[1] as fsize, v[2] as fsize, v[3] as fsize)
}
fn arr(r: &AARectangle) -> [f64; 4] {
    [r.x_min as f64, r.y_min as f64, r.x_max as f64, r.y_max as f64]
}
fn rect_dist(p: P2, v: &[f64; 4]) -> f64 {
    let dx = (v[0] - p[0]).max(p[0] - v[2]).max(0.0);
    let dy = (v[1] - p[1]).max(p[1] - v[3]).max(0.0);
    dx.hypot(dy)
}
fn rect_depth(p: P2, v: &[f64; 4]) -> f64 {
    (p[0] - v[0]).min(v[2] - p[0]).min(p[1] - v[1]).min(v[3] - p[1])
}
fn corners(v: &[f64; 4]) -> [P2; 4] {
    [[v[2], v[3]], [v[0], v[3]], [v[0], v[1]], [v[2], v[1]]]
}
/// distance between a segment and a filled rectangle; negative (-margin) when clearly inside
fn seg_rect(a: P2, b: P2, v: &[f64; 4], tol: f64) -> Option<bool> {
    let inner = [v[0] + tol, v[1] + tol, v[2] - tol, v[3] - tol];
    let outer = [v[0] - tol, v[1] - tol, v[2] + tol, v[3] + tol];
    if inner[0] < inner[2] && inner[1] < inner[3] && seg_meets_rect(a, b, &inner) {
        Some(true)
    } else if !seg_meets_rect(a, b, &outer) {
        Some(false)
    } else {
        None
    }
}
/// the answer when `value` is clearly below or above `limit`
fn clear(value: f64, limit: f64, tol: f64) -> Option<bool> {
    if value < limit - tol {
        Some(true)
    } else if value > limit + tol {
        Some(false)
    } else {
        None
    }
}

pub fn run(_case: usize, r: &mut Rng, rec: &mut Rec) {
    let s = *r.pick(&[1e-2, 1.0, 17.0, 100.0, 1e4]);
    let off = *r.pick(&[0.0, 0.0, 1.0, 10.0]);
    let g = G { s, o: [q(off * s * r.range(-1.0, 1.0)), q(off * s * r.range(-1.0, 1.0))], g: s / 8.0 };
    let m = s * (1.0 + off);
    let e = if F64 { 1e-14 } else { 6e-7 };
    let tol = e * m * 20.0;
    macro_rules! num {
        ($name:expr, $got:expr, $want:expr, $tol:expr, $ctx:expr) => {{
            let (gv, wv): (f64, f64) = ($got as f64, $want);
            rec.check((gv - wv).abs() <= $tol, $name, || format!("{}: {gv} expected {wv}; {}", $name, $ctx));
        }};
    }
    macro_rules! tf {
        ($name:expr, $got:expr, $want:expr, $ctx:expr) => {{
            if let Some(w) = $want {
                let gv: bool = $got;
                rec.nontrivial(mix(rec.evals) ^ w as u64);
                rec.check(gv == w, $name, || format!("{}: {gv} expected {w}; {}", $name, $ctx));
            } else {
                rec.count("unclear", 1);
            }
        }};
    }
    for _ in 0..20 {
        // ---- points
        let (a, b) = (g.p(r), g.p(r));
        num!("point distance", pt(a).distance(pt(b)), dist(a, b), tol, format!("{a:?} {b:?}"));
        num!("point sq_distance", pt(a).sq_distance(pt(b)), dist(a, b).powi(2), tol * (s * 4.0 + tol), format!("{a:?} {b:?}"));
        let tup: (fsize, fsize) = pt(a).into();
        rec.check(Point::from(tup) == pt(a) && pt(a).x() == tup.0 && pt(a).y() == tup.1, "point tuple", || format!("{a:?}"));

        // ---- segments
        let (c, d) = g.seg(r);
        let (x, y) = g.seg(r);
        let (e1, e2) = (Edge::new(pt(c), pt(d)), Edge::new(pt(x), pt(y)));
        let l1 = dist(c, d);
        let ctx = format!("edge {c:?}-{d:?}");
        num!("edge length", e1.diameter(), l1, tol, ctx);
        num!("edge x_min", e1.x_min(), c[0].min(d[0]), 0.0, ctx);
        num!("edge x_max", e1.x_max(), c[0].max(d[0]), 0.0, ctx);
        num!("edge y_min", e1.y_min(), c[1].min(d[1]), 0.0, ctx);
        num!("edge y_max", e1.y_max(), c[1].max(d[1]), 0.0, ctx);
        num!("edge area", e1.area(), 0.0, 0.0, ctx);
        let mid = un(e1.centroid());
        rec.check(dist(mid, [(c[0] + d[0]) / 2.0, (c[1] + d[1]) / 2.0]) <= tol, "edge centroid", || format!("{mid:?}; {ctx}"));
        let rv = e1.clone().reverse();
        rec.check(un(rv.start) == d && un(rv.end) == c, "edge reverse", || format!("{rv:?}; {ctx}"));
        if c[0] != d[0] && c[1] != d[1] {
            rec.check(arr(&e1.bbox()) == bbox(&[c, d]), "edge bbox", || format!("{:?}; {ctx}", e1.bbox()));
        }
        let u = [(d[0] - c[0]) / l1, (d[1] - c[1]) / l1];
        let ext = q(s * r.range(0.0, 2.0));
        let f = e1.clone().extend_at_front(ext as fsize);
        let want = [c[0] - u[0] * ext, c[1] - u[1] * ext];
        let amp = 1.0 + ext / l1; // a short segment amplifies rounding
        rec.check(un(f.end) == d && dist(un(f.start), want) <= tol * amp, "extend front", || format!("{f:?} by {ext}; {ctx}"));
        let bk = e1.clone().extend_at_back(ext as fsize);
        let want = [d[0] + u[0] * ext, d[1] + u[1] * ext];
        rec.check(un(bk.start) == c && dist(un(bk.end), want) <= tol * amp, "extend back", || format!("{bk:?} by {ext}; {ctx}"));
        let k = q(r.range(0.1, 3.0));
        let sc = e1.clone().scale(k as fsize);
        let cm = [(c[0] + d[0]) / 2.0, (c[1] + d[1]) / 2.0];
        let w0 = [cm[0] + (c[0] - cm[0]) * k, cm[1] + (c[1] - cm[1]) * k];
        let w1 = [cm[0] + (d[0] - cm[0]) * k, cm[1] + (d[1] - cm[1]) * k];
        rec.check(dist(un(sc.start), w0) <= tol && dist(un(sc.end), w1) <= tol, "edge scale", || format!("{sc:?} by {k}; {ctx}"));
        // closest point and distances
        let p = if r.chance(0.2) { [c[0] + (d[0] - c[0]) * r.f(), c[1] + (d[1] - c[1]) * r.f()] } else { g.p(r) };
        let p = qp(p);
        let cp = un(e1.closest_point_on_edge(&pt(p)));
        let want = closest_on_seg(p, c, d);
        // the closest point is well defined up to rounding amplified by distance/length
        let ampc = 1.0 + dist(p, c).max(dist(p, d)) / l1;
        rec.check(dist(cp, want) <= tol * ampc && pt_seg(cp, c, d) <= tol, "closest point", || format!("{cp:?} expected {want:?} for {p:?}; {ctx}"));
        let dd = pt_seg(p, c, d);
        num!("edge distance", e1.distance(&pt(p)), dd, tol, format!("{p:?} {ctx}"));
        num!("edge sq_distance", e1.sq_distance(&pt(p)), dd * dd, tol * (2.0 * dd + tol), format!("{p:?} {ctx}"));
        let (pos, bd) = e1.distance_from_border(&pt(p));
        rec.check(pos == GeoPosition::Exterior, "edge border", || ctx.clone());
        num!("edge border distance", bd, dd, tol, format!("{p:?} {ctx}"));
        num!("edge sq border distance", e1.sq_distance_from_border(&pt(p)).1, dd * dd, tol * (2.0 * dd + tol), format!("{p:?} {ctx}"));
        // intersections
        let ctx2 = format!("edges {c:?}-{d:?} and {x:?}-{y:?}");
        let l2 = dist(x, y);
        let sin = (cross(sub(d, c), sub(y, x)) / (l1 * l2)).abs();
        let want = match cross_margin(c, d, x, y) {
            Some(mg) if mg > tol && sin > 1e-3 => Some(true),
            Some(_) => None,
            None if seg_seg(c, d, x, y) > tol => Some(false),
            None => None,
        };
        tf!("edge-edge", e1.collides_with(&e2), want, ctx2);
        rec.check(e1.collides_with(&e2) == e2.collides_with(&e1) || want.is_none(), "edge-edge symmetric", || ctx2.clone());
        let at = e1.collides_at(&e2);
        tf!("edge-edge at", at.is_some(), want, ctx2);
        if let (Some(true), Some(at)) = (want, at) {
            let at = un(at);
            rec.check(
                pt_seg(at, c, d) <= tol / sin && pt_seg(at, x, y) <= tol / sin,
                "intersection point",
                || format!("{at:?}; {ctx2}"),
            );
        }

        // ---- rectangles
        let v = g.rect(r);
        let mut w = g.rect(r);
        match r.below(8) {
            0 => w = v,
            1 => w = [v[2], v[1], v[2] + s, v[3]].map(q), // sharing a side
            2 => {
                // nested
                let f = r.range(0.05, 0.45);
                let (dx, dy) = ((v[2] - v[0]) * f, (v[3] - v[1]) * f);
                w = [v[0] + dx, v[1] + dy, v[2] - dx, v[3] - dy].map(q);
            }
            3 => {
                // sharing two sides, partly
                let f = r.range(0.2, 0.8);
                w = [v[0], v[1], v[0] + (v[2] - v[0]) * f, v[3]].map(q);
            }
            _ => (),
        }
        if r.chance(0.1) {
            // square
            w = [v[0], v[1], v[0] + s, v[1] + s].map(q);
        }
        let (rv_, rw) = (lr(&v), lr(&w));
        let ctx = format!("rectangles {v:?} and {w:?}");
        // exact, because coordinates are representable
        let touch = v[0].max(w[0]) <= v[2].min(w[2]) && v[1].max(w[1]) <= v[3].min(w[3]);
        tf!("rect-rect", rv_.collides_with(&rw), Some(touch), ctx);
        tf!("rect-rect sym", rw.collides_with(&rv_), Some(touch), ctx);
        let sur = |a: &[f64; 4], b: &[f64; 4]| a[0] <= b[0] && a[1] <= b[1] && a[2] >= b[2] && a[3] >= b[3];
        let want = if !touch {
            GeoRelation::Disjoint
        } else if sur(&v, &w) {
            GeoRelation::Surrounding
        } else if sur(&w, &v) {
            GeoRelation::Enclosed
        } else {
            GeoRelation::Intersecting
        };
        let got = rv_.relation_to(&rw);
        let equal = v == w;
        rec.check(got == want || (equal && got == GeoRelation::Enclosed), "relation", || format!("{got:?} expected {want:?}; {ctx}"));
        // tolerant versions: agree where nothing is close, lean towards touching and containment
        let ft = if F64 { 2e-8 } else { 4.5e-4 };
        let scale = v.iter().chain(&w).fold(0.0f64, |a, b| a.max(b.abs()));
        let close = |a: f64, b: f64| (a - b).abs() <= ft * scale;
        let any_close = (0..4).any(|i| close(v[i], w[i]) && v[i] != w[i])
            || close(v[0], w[2]) || close(v[2], w[0]) || close(v[1], w[3]) || close(v[3], w[1]);
        let ag = rv_.almost_relation_to(&rw);
        if !any_close {
            rec.check(ag == want || (equal && ag == GeoRelation::Enclosed), "almost relation", || format!("{ag:?} expected {want:?}; {ctx}"));
            rec.check(rv_.almost_collides_with(&rw) == touch, "almost rect-rect", || ctx.clone());
        } else {
            rec.check(!touch || rv_.almost_collides_with(&rw), "almost leans", || format!("touching but not almost touching; {ctx}"));
            rec.check(!touch || ag != GeoRelation::Disjoint, "almost leans", || ctx.clone());
            rec.check(want != GeoRelation::Surrounding || ag == want || equal, "almost leans", || format!("{ag:?}; {ctx}"));
            rec.check(want != GeoRelation::Enclosed || ag == want || ag == GeoRelation::Surrounding, "almost leans", || format!("{ag:?}; {ctx}"));
        }
        let inter = AARectangle::from_intersection(&rv_, &rw);
        let iv = [v[0].max(w[0]), v[1].max(w[1]), v[2].min(w[2]), v[3].min(w[3])];
        let has = iv[0] < iv[2] && iv[1] < iv[3];
        rec.check(inter.is_some() == has && inter.as_ref().map_or(true, |x| arr(x) == iv), "intersection", || format!("{inter:?}; {ctx}"));
        let bb = arr(&AARectangle::bounding_rectangle(&rv_, &rw));
        rec.check(bb == [v[0].min(w[0]), v[1].min(w[1]), v[2].max(w[2]), v[3].max(w[3])], "bounding rectangle", || format!("{bb:?}; {ctx}"));
        let (wd, ht) = (v[2] - v[0], v[3] - v[1]);
        let ctx = format!("rectangle {v:?}");
        num!("rect width", rv_.width(), wd, tol, ctx);
        num!("rect height", rv_.height(), ht, tol, ctx);
        num!("rect area", rv_.area(), wd * ht, tol * (wd + ht + tol), ctx);
        num!("rect diameter", rv_.diameter(), wd.hypot(ht), tol, ctx);
        let ce = [(v[0] + v[2]) / 2.0, (v[1] + v[3]) / 2.0];
        rec.check(dist(un(rv_.centroid()), ce) <= tol, "rect centroid", || ctx.clone());
        rec.check(arr(&rv_.bbox()) == v, "rect bbox", || ctx.clone());
        let sq = arr(&rv_.clone().inflate_to_square());
        let h = wd.max(ht) / 2.0;
        let want = [ce[0] - h, ce[1] - h, ce[0] + h, ce[1] + h];
        rec.check((0..4).all(|i| (sq[i] - want[i]).abs() <= tol), "inflate", || format!("{sq:?} expected {want:?}; {ctx}"));
        let k = q(r.range(0.2, 3.0));
        let sc = arr(&rv_.clone().scale(k as fsize));
        let want = [ce[0] - wd / 2.0 * k, ce[1] - ht / 2.0 * k, ce[0] + wd / 2.0 * k, ce[1] + ht / 2.0 * k];
        rec.check((0..4).all(|i| (sc[i] - want[i]).abs() <= tol), "rect scale", || format!("{sc:?} expected {want:?} factor {k}; {ctx}"));
        let cs = corners(&v);
        rec.check((0..4).all(|i| un(rv_.corners()[i]) == cs[i]), "corners", || format!("{:?}; {ctx}", rv_.corners()));
        let es = rv_.edges();
        rec.check((0..4).all(|i| un(es[i].start) == cs[i] && un(es[i].end) == cs[(i + 1) % 4]), "edges", || format!("{es:?}; {ctx}"));
        let qs = rv_.quadrants();
        for i in 0..4 {
            let want = bbox(&[cs[i], ce]);
            let got = arr(&qs[i]);
            rec.check((0..4).all(|j| (got[j] - want[j]).abs() <= tol), "quadrant", || format!("{i}: {got:?} expected {want:?}; {ctx}"));
            for j in 0..4 {
                let nb = AARectangle::QUADRANT_NEIGHBOR_LAYOUT[i].contains(&j);
                let (a, b) = (arr(&qs[i]), arr(&qs[j]));
                let o = [(a[2].min(b[2]) - a[0].max(b[0])), (a[3].min(b[3]) - a[1].max(b[1]))];
                let side = i != j && (o[0] > tol * 2.0 || o[1] > tol * 2.0);
                rec.check(nb == side, "quadrant neighbours", || format!("{i} {j}; {ctx}"));
            }
        }
        // gapless: neighbouring quadrants share the very same coordinates
        rec.check(
            qs[0].x_min == qs[1].x_max && qs[0].y_min == qs[3].y_max && qs[2].x_max == qs[3].x_min && qs[2].y_max == qs[1].y_min,
            "quadrants tile",
            || format!("{qs:?}; {ctx}"),
        );
        // points
        let p = if r.chance(0.3) { *r.pick(&cs) } else { g.p(r) };
        let ctx = format!("rectangle {v:?} point {p:?}");
        let inside = p[0] >= v[0] && p[0] <= v[2] && p[1] >= v[1] && p[1] <= v[3];
        tf!("rect-point", rv_.collides_with(&pt(p)), Some(inside), ctx);
        tf!("point-rect", pt(p).collides_with(&rv_), Some(inside), ctx);
        let pscale = v.iter().chain(&p).fold(0.0f64, |a, b| a.max(b.abs()));
        tf!("almost rect-point", rv_.almost_collides_with(&pt(p)), if inside { Some(true) } else if rect_dist(p, &v) > 1.5 * ft * pscale { Some(false) } else { None }, ctx);
        let rd = rect_dist(p, &v);
        num!("rect distance", rv_.distance(&pt(p)), rd, tol, ctx);
        num!("rect sq_distance", rv_.sq_distance(&pt(p)), rd * rd, tol * (2.0 * rd + tol), ctx);
        let want = if inside { rect_depth(p, &v) } else { rd };
        let (pos, bd) = rv_.distance_from_border(&pt(p));
        rec.check((pos == GeoPosition::Interior) == inside, "rect position", || ctx.clone());
        num!("rect border distance", bd, want, tol, ctx);
        num!("rect sq border distance", rv_.sq_distance_from_border(&pt(p)).1, want * want, tol * (2.0 * want + tol), ctx);
        // segments
        let ctx = format!("rectangle {v:?} edge {c:?}-{d:?}");
        let want = seg_rect(c, d, &v, tol);
        tf!("rect-edge", rv_.collides_with(&e1), want, ctx);
        tf!("edge-rect", e1.collides_with(&rv_), want, ctx);

        // ---- circles
        let (c1, r1) = g.circle(r);
        let (mut c2, mut r2) = g.circle(r);
        match r.below(5) {
            0 => c2 = c1,
            1 => {
                // one within the other
                r2 = q(r1 * r.range(1.5, 3.0));
                c2 = qp([c1[0] + r1 * r.range(-0.3, 0.3), c1[1] + r1 * r.range(-0.3, 0.3)]);
            }
            _ => (),
        }
        let (k1, k2) = (Circle::new(pt(c1), r1 as fsize), Circle::new(pt(c2), r2 as fsize));
        let ctx = format!("circles {c1:?} {r1} and {c2:?} {r2}");
        let dc = dist(c1, c2);
        tf!("circle-circle", k1.collides_with(&k2), clear(dc, r1 + r2, tol), ctx);
        tf!("circle-circle sym", k2.collides_with(&k1), clear(dc, r1 + r2, tol), ctx);
        num!("circle-circle distance", DistanceFrom::<Circle>::distance(&k1, &k2), (dc - r1 - r2).max(0.0), tol, ctx);
        num!("circle-circle sq_distance", DistanceFrom::<Circle>::sq_distance(&k1, &k2), (dc - r1 - r2).max(0.0).powi(2), tol * (2.0 * dc + tol), ctx);
        let (pos, bd) = DistanceFrom::<Circle>::distance_from_border(&k1, &k2);
        if let Some(w) = clear(dc, r1 + r2, tol) {
            rec.check((pos == GeoPosition::Interior) == w, "circle-circle position", || ctx.clone());
        }
        num!("circle-circle border", bd, (dc - r1 - r2).abs(), tol, ctx);
        num!("circle-circle sq border", DistanceFrom::<Circle>::sq_distance_from_border(&k1, &k2).1, (dc - r1 - r2).powi(2), tol * (2.0 * (dc - r1 - r2).abs() + tol), ctx);
        num!("circle area", k1.area(), std::f64::consts::PI * r1 * r1, e * 10.0 * r1 * r1, ctx);
        num!("circle diameter", k1.diameter(), 2.0 * r1, e * r1, ctx);
        rec.check(un(k1.centroid()) == c1, "circle centroid", || ctx.clone());
        if r1 > tol * 2.0 {
            let b = arr(&k1.bbox());
            let want = [c1[0] - r1, c1[1] - r1, c1[0] + r1, c1[1] + r1];
            rec.check((0..4).all(|i| (b[i] - want[i]).abs() <= tol), "circle bbox", || format!("{b:?}; {ctx}"));
        }
        // points
        let p = if r.chance(0.2) { c1 } else { g.p(r) };
        let dp = dist(p, c1);
        let ctx = format!("circle {c1:?} {r1} point {p:?}");
        tf!("circle-point", k1.collides_with(&pt(p)), clear(dp, r1, tol), ctx);
        tf!("point-circle", pt(p).collides_with(&k1), clear(dp, r1, tol), ctx);
        num!("circle distance", DistanceFrom::<Point>::distance(&k1, &pt(p)), (dp - r1).max(0.0), tol, ctx);
        num!("circle sq_distance", DistanceFrom::<Point>::sq_distance(&k1, &pt(p)), (dp - r1).max(0.0).powi(2), tol * (2.0 * dp + tol), ctx);
        let (pos, bd) = DistanceFrom::<Point>::distance_from_border(&k1, &pt(p));
        if let Some(w) = clear(dp, r1, tol) {
            rec.check((pos == GeoPosition::Interior) == w, "circle position", || ctx.clone());
        }
        num!("circle border", bd, (dp - r1).abs(), tol, ctx);
        num!("circle sq border", DistanceFrom::<Point>::sq_distance_from_border(&k1, &pt(p)).1, (dp - r1).powi(2), tol * (2.0 * (dp - r1).abs() + tol), ctx);
        // segments
        let ds = pt_seg(c1, c, d);
        let ctx = format!("circle {c1:?} {r1} edge {c:?}-{d:?}");
        tf!("circle-edge", k1.collides_with(&e1), clear(ds, r1, tol), ctx);
        num!("circle-edge distance", DistanceFrom::<Edge>::distance(&k1, &e1), (ds - r1).max(0.0), tol, ctx);
        num!("circle-edge sq_distance", DistanceFrom::<Edge>::sq_distance(&k1, &e1), (ds - r1).max(0.0).powi(2), tol * (2.0 * ds + tol), ctx);
        let (pos, bd) = DistanceFrom::<Edge>::distance_from_border(&k1, &e1);
        if let Some(w) = clear(ds, r1, tol) {
            rec.check((pos == GeoPosition::Interior) == w, "circle-edge position", || ctx.clone());
        }
        num!("circle-edge border", bd, (ds - r1).abs(), tol, ctx);
        num!("circle-edge sq border", DistanceFrom::<Edge>::sq_distance_from_border(&k1, &e1).1, (ds - r1).powi(2), tol * (2.0 * (ds - r1).abs() + tol), ctx);
        // rectangles
        tf!("circle-rect", k1.collides_with(&rv_), clear(rect_dist(c1, &v), r1, tol), format!("circle {c1:?} {r1} rectangle {v:?}"));
        // bounding circle
        let n = r.int(1, 6) as usize;
        let mut cs: Vec<Circle> = (0..n)
            .map(|_| {
                let (c, rr) = g.circle(r);
                Circle::new(pt(c), rr as fsize)
            })
            .collect();
        if n >= 2 && r.chance(0.4) {
            cs[0] = k1.clone();
            cs[1] = k2.clone();
        }
        let bc = Circle::bounding_circle(&cs);
        let (bcc, bcr) = (un(bc.center), bc.radius as f64);
        let btol = tol * (n as f64) * 2.0;
        for c in &cs {
            let need = dist(bcc, un(c.center)) + c.radius as f64;
            rec.check(need <= bcr + btol, "bounding circle", || format!("{bc:?} does not contain {c:?} of {cs:?}"));
        }
        if n <= 2 {
            let want = match n {
                1 => cs[0].radius as f64,
                _ => {
                    let (ra, rb) = (cs[0].radius as f64, cs[1].radius as f64);
                    ra.max(rb).max((dist(un(cs[0].center), un(cs[1].center)) + ra + rb) / 2.0)
                }
            };
            rec.check((bcr - want).abs() <= btol, "smallest bounding circle", || format!("{bc:?}, smallest radius {want} for {cs:?}"));
        }
        rec.sample(|| json!({"edges": [[c, d], [x, y]], "rectangles": [v, w], "circles": [[c1[0], c1[1], r1], [c2[0], c2[1], r2]]}));
        rec.count("rounds", 1);
        if rec.failed() {
            return;
        }
    }
}
