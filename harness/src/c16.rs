//! C16: measures of simple polygons against f64 formulas.
use crate::c17::{pt, un};
use crate::gen::*;
use crate::geo::*;
use crate::rec::Rec;
use crate::rng::{mix, Rng};
use crate::scene::{dt, lib_bbox, lib_pts, rigid, scale};
use jagua_rs::geometry::convex_hull;
use jagua_rs::geometry::geo_enums::GeoPosition;
use jagua_rs::geometry::geo_traits::{CollidesWith, DistanceFrom, Shape, Transformable, TransformableFrom};
use jagua_rs::geometry::primitives::aa_rectangle::AARectangle;
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;
use jagua_rs::util::config::SPSurrogateConfig;
use serde_json::json;

/// A simple polygon with emphasis on shared coordinates and collinear vertices.
pub fn special_polygon(r: &mut Rng, s: f64) -> Vec<P2> {
    let mut p = polygon(r, s);
    if r.chance(0.4) {
        // insert points on edges: collinear vertices
        let mut o: Vec<P2> = vec![];
        for i in 0..p.len() {
            let (a, b) = (p[i], p[(i + 1) % p.len()]);
            o.push(a);
            if r.chance(0.3) && dist(a, b) > 0.05 * s {
                let t = r.range(0.3, 0.7);
                let c = qp([a[0] + (b[0] - a[0]) * t, a[1] + (b[1] - a[1]) * t]);
                o.push(c);
            }
        }
        p = o;
    }
    p
}

fn hull_ok(h: &[P2], pts: &[P2], tol: f64) -> Result<(), String> {
    let want = hull(pts);
    if h.len() < 3 {
        return Err(format!("hull of {} points", h.len()));
    }
    for p in h {
        if !pts.contains(p) {
            return Err(format!("hull point {p:?} is no input point"));
        }
    }
    let (a, b) = (signed_area(h), signed_area(&want));
    let per = perimeter(&want);
    if (a - b).abs() > tol * per {
        return Err(format!("hull {h:?} has area {a}, expected {b}"));
    }
    for p in pts {
        if depth(*p, h) < -tol {
            return Err(format!("point {p:?} lies outside the hull {h:?}"));
        }
    }
    for i in 0..h.len() {
        let (a, b, c) = (h[i], h[(i + 1) % h.len()], h[(i + 2) % h.len()]);
        let l = dist(a, b).max(1e-300);
        if cross(sub(b, a), sub(c, b)) / l < -tol {
            return Err(format!("hull {h:?} turns right at {b:?}"));
        }
    }
    for i in 0..h.len() {
        if h[..i].contains(&h[i]) {
            return Err(format!("hull {h:?} repeats {:?}", h[i]));
        }
    }
    Ok(())
}

pub fn run(_case: usize, r: &mut Rng, rec: &mut Rec) {
    let s = scale(r) * *r.pick(&[0.01, 1.0, 1.0, 10.0]);
    let e = if F64 { 2e-15 } else { 2.5e-7 };
    let mut p = special_polygon(r, s);
    if r.chance(0.5) {
        let k = *r.pick(&[1.0, 3.0, 10.0]);
        p = shift(&p, [r.range(-k, k) * s, r.range(-k, k) * s]);
    }
    let n = p.len() as f64;
    let m = max_abs(&p);
    let per = perimeter(&p);
    let sa = signed_area(&p);
    let area = sa.abs();
    let sp = SimplePolygon::new(p.iter().map(|p| pt(*p)).collect());
    let desc = format!("polygon {p:?}");
    let got = lib_pts(&sp);
    rec.nontrivial(mix(p[0][0].to_bits()) ^ mix(p[1][1].to_bits()));
    rec.count("polygons", 1);
    rec.count(if sa < 0.0 { "given_clockwise" } else { "given_counterclockwise" }, 1);

    // counterclockwise, the same cyclic sequence
    let mut want = p.clone();
    if sa < 0.0 {
        want.reverse();
    }
    let same = (0..want.len()).any(|k| (0..want.len()).all(|i| got.get(i) == Some(&want[(i + k) % want.len()])));
    rec.check(same && got.len() == want.len(), "orientation", || format!("points {got:?}; {desc}"));
    // area, centroid
    let atol = e * n * m * per * 4.0;
    rec.check((sp.area() as f64 - area).abs() <= atol && sp.area() == sp.area, "area", || format!("area {} expected {area}; {desc}", sp.area()));
    let sign = SimplePolygon::calculate_area(&p.iter().map(|p| pt(*p)).collect::<Vec<_>>()) as f64;
    rec.check((sign - sa).abs() <= atol, "signed area", || format!("{sign} expected {sa}; {desc}"));
    let c = un(sp.centroid());
    let cw = centroid(&p);
    let ctol = e * n * m * m * per / area * 4.0 + m * e * 8.0;
    rec.check(dist(c, cw) <= ctol, "centroid", || format!("{c:?} expected {cw:?} tol {ctol}; {desc}"));
    // bounding box, diameter
    rec.check(lib_bbox(&sp.bbox()) == bbox(&p) && sp.bbox() == sp.bbox, "bbox", || format!("{:?}; {desc}", sp.bbox()));
    let dw = diameter(&p);
    rec.check((sp.diameter() as f64 - dw).abs() <= e * m * 8.0, "diameter", || format!("{} expected {dw}; {desc}", sp.diameter()));
    // edges
    let es: Vec<_> = sp.edge_iter().collect();
    rec.check(
        es.len() == sp.number_of_points()
            && (0..es.len()).all(|i| es[i] == sp.get_edge(i) && es[i].start == sp.get_point(i) && es[i].end == sp.get_point((i + 1) % es.len())),
        "edges",
        || desc.clone(),
    );
    // hull
    let htol = e * m * 16.0;
    let h: Vec<P2> = convex_hull::convex_hull_from_points(sp.points.clone()).into_iter().map(un).collect();
    let hr = hull_ok(&h, &p, htol);
    rec.check(hr.is_ok(), "hull", || format!("{}; {desc}", hr.unwrap_err()));
    let idx = convex_hull::convex_hull_indices(&sp);
    let h: Vec<P2> = idx.iter().map(|i| got[*i]).collect();
    let hr = hull_ok(&h, &p, htol);
    rec.check(hr.is_ok(), "hull indices", || format!("{}; {desc}", hr.unwrap_err()));
    // pole of inaccessibility
    let b = bbox(&p);
    let side = (b[2] - b[0]).max(b[3] - b[1]);
    let pole = (un(sp.poi.center), sp.poi.radius as f64);
    let dpt = depth(pole.0, &p);
    let ptol = e * m * 40.0;
    rec.check(pole.1 > 0.0 && pole.1 <= dpt + ptol, "pole inside", || format!("pole {pole:?}, depth there {dpt}; {desc}"));
    let (ip, best) = inner_point(&p);
    rec.check(pole.1 >= best - side * 0.0015 - ptol, "pole largest", || {
        format!("pole {pole:?}, but {ip:?} has depth {best}; {desc}")
    });
    // points in the polygon and distances
    let (_, wide) = bands(m);
    let bd_tol = e * m * 20.0;
    for k in 0..40 {
        let x = match k % 5 {
            0 => [r.range(b[0], b[2]), r.range(b[1], b[3])],
            1 => [r.range(b[0] - side, b[2] + side), r.range(b[1] - side, b[3] + side)],
            2 => {
                // level with a vertex
                let v = *r.pick(&p);
                [r.range(b[0], b[2]), v[1]]
            }
            3 => {
                let i = r.below(p.len());
                let (u, v) = (p[i], p[(i + 1) % p.len()]);
                let t = r.f();
                let d = side * 10f64.powf(r.range(-3.0, -1.0));
                [u[0] + (v[0] - u[0]) * t + r.range(-d, d), u[1] + (v[1] - u[1]) * t + r.range(-d, d)]
            }
            _ => {
                let v = *r.pick(&p);
                [v[0], r.range(b[1], b[3])]
            }
        };
        let x = qp(x);
        let bd = border_dist(x, &p);
        let lp = pt(x);
        let (pos, d) = sp.distance_from_border(&lp);
        let sd = sp.sq_distance_from_border(&lp).1 as f64;
        let mm = m.max(x[0].abs()).max(x[1].abs());
        let t = bd_tol * (mm / m);
        rec.check((d as f64 - bd).abs() <= t, "border distance", || format!("{x:?}: {d} expected {bd}; {desc}"));
        rec.check((sd - bd * bd).abs() <= t * (2.0 * bd + t), "sq border distance", || format!("{x:?}: {sd} expected {}; {desc}", bd * bd));
        if bd > wide {
            let inside = pip(x, &p);
            rec.count(if inside { "points_inside" } else { "points_outside" }, 1);
            rec.check(sp.collides_with(&lp) == inside && lp.collides_with(&sp) == inside, "point in polygon", || format!("{x:?}: expected {inside}; {desc}"));
            rec.check((pos == GeoPosition::Interior) == inside, "position", || format!("{x:?}: {pos:?}; {desc}"));
            let w = if inside { 0.0 } else { bd };
            let (g1, g2) = (sp.distance(&lp) as f64, sp.sq_distance(&lp) as f64);
            rec.check((g1 - w).abs() <= t && (g2 - w * w).abs() <= t * (2.0 * w + t), "distance", || format!("{x:?}: {g1}, {g2} expected {w}; {desc}"));
        } else {
            rec.count("points_unclear", 1);
        }
    }
    // rigid motion
    let mut buf = sp.clone();
    let mut with_surr = sp.clone();
    let surr = r.chance(0.3);
    if surr {
        with_surr.generate_surrogate(SPSurrogateConfig { pole_coverage_goal: 0.7, max_poles: 4, n_ff_poles: 2, n_ff_piers: 0 });
        buf = with_surr.clone();
        if r.chance(0.5) {
            buf.surrogate = None;
        }
        let ha = with_surr.surrogate().convex_hull_area as f64;
        let want = signed_area(&hull(&p));
        rec.check((ha - want).abs() <= atol, "hull area", || format!("{ha} expected {want}; {desc}"));
    }
    for _ in 0..4 {
        let a = angle(r);
        let t = [r.range(-2.0, 2.0) * s, r.range(-2.0, 2.0) * s];
        let (a, t) = crate::c17::plain(r, a, t);
        let d = dt(a, t);
        let tf = d.compose();
        let rg = rigid(&d);
        let base = if surr { &with_surr } else { &sp };
        let cl = base.transform_clone(&tf);
        let mut ip = base.clone();
        ip.transform(&tf);
        buf.transform_from(base, &tf);
        let want = rg.apply_all(&got);
        let tt = e * 8.0 * (m + max_abs(&want) + t[0].abs() + t[1].abs());
        for (nm, x) in [("copy", &cl), ("in place", &ip), ("buffer", &buf)] {
            let xp = lib_pts(x);
            rec.check(
                xp.len() == want.len() && xp.iter().zip(&want).all(|(a, b)| dist(*a, *b) <= tt),
                "moved points",
                || format!("{nm}: {xp:?} expected {want:?} under {d:?}; {desc}"),
            );
            rec.check(lib_bbox(&x.bbox()) == bbox(&xp), "moved bbox", || format!("{nm}: {:?} for {xp:?}", x.bbox()));
            rec.check(
                dist(un(x.poi.center), rg.apply(pole.0)) <= tt && x.poi.radius == sp.poi.radius,
                "moved pole",
                || format!("{nm}: {:?} under {d:?}; {desc}", x.poi),
            );
            rec.check(x.area() == sp.area() && x.diameter() == sp.diameter(), "moved measures", || format!("{nm}: {} {}; {desc}", x.area(), x.diameter()));
        }
        rec.count("moves", 3);
    }
    // centring
    let (ce, tf) = sp.clone().center_around_centroid();
    let d = tf.decompose();
    let cen = [c[0] + d.translation().0 as f64, c[1] + d.translation().1 as f64];
    rec.check(
        d.rotation() == 0.0 && norm(cen) <= e * m * 8.0 && lib_pts(&ce).iter().zip(&got).all(|(a, b)| dist(*a, sub(*b, c)) <= e * m * 16.0),
        "centred",
        || format!("{tf:?}; {desc}"),
    );
    // hull of several shapes
    let other = sp.transform_clone(&dt(angle(r), [s * r.range(-2.0, 2.0), s * r.range(-2.0, 2.0)]).compose());
    let all: Vec<P2> = got.iter().cloned().chain(lib_pts(&other)).collect();
    let h: Vec<P2> = convex_hull::convex_hull_from_shapes([&with_surr, &other]).into_iter().map(un).collect();
    let hr = hull_ok(&h, &all, e * max_abs(&all) * 16.0);
    rec.check(hr.is_ok(), "hull of shapes", || format!("{}; {desc}", hr.unwrap_err()));
    // rectangles
    let rp = SimplePolygon::from(AARectangle::new(b[0] as fsize, b[1] as fsize, b[2] as fsize, b[3] as fsize));
    rec.check(
        lib_bbox(&rp.bbox()) == b && rp.number_of_points() == 4 && (rp.area() as f64 - (b[2] - b[0]) * (b[3] - b[1])).abs() <= e * 16.0 * m * side,
        "rectangle polygon",
        || format!("{:?}; {b:?}", rp.points),
    );
    rec.sample(|| json!({"polygon": p, "area": sp.area(), "diameter": sp.diameter(), "pole": [pole.0[0], pole.0[1], pole.1]}));
}
