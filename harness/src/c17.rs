//! C17: transformations against plain f64 rotation and translation.
use crate::gen::*;
use crate::geo::*;
use crate::rec::Rec;
use crate::rng::{mix, Rng};
use jagua_rs::geometry::d_transformation::DTransformation;
use jagua_rs::geometry::geo_traits::{Transformable, TransformableFrom};
use jagua_rs::geometry::primitives::circle::Circle;
use jagua_rs::geometry::primitives::edge::Edge;
use jagua_rs::geometry::primitives::point::Point;
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;
use jagua_rs::geometry::transformation::Transformation;
use jagua_rs::util::config::SPSurrogateConfig;
use serde_json::json;
use std::f64::consts::PI;

/// rigid motion as a 2x3 matrix in f64
#[derive(Clone, Copy, Debug)]
pub struct M(pub [[f64; 3]; 2]);
impl M {
    pub fn id() -> M {
        M([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0]])
    }
    pub fn rot(a: f64) -> M {
        let (s, c) = a.sin_cos();
        M([[c, -s, 0.0], [s, c, 0.0]])
    }
    pub fn tr(t: P2) -> M {
        M([[1.0, 0.0, t[0]], [0.0, 1.0, t[1]]])
    }
    /// self first, then other
    pub fn then(&self, o: &M) -> M {
        let (a, b) = (&o.0, &self.0);
        let mut r = [[0.0; 3]; 2];
        for i in 0..2 {
            for j in 0..3 {
                r[i][j] = a[i][0] * b[0][j] + a[i][1] * b[1][j] + if j == 2 { a[i][2] } else { 0.0 };
            }
        }
        M(r)
    }
    pub fn inv(&self) -> M {
        let m = &self.0;
        let (a, b, c, d) = (m[0][0], m[1][0], m[0][1], m[1][1]); // transpose
        M([
            [a, b, -(a * m[0][2] + b * m[1][2])],
            [c, d, -(c * m[0][2] + d * m[1][2])],
        ])
    }
    pub fn app(&self, p: P2) -> P2 {
        let m = &self.0;
        [
            m[0][0] * p[0] + m[0][1] * p[1] + m[0][2],
            m[1][0] * p[0] + m[1][1] * p[1] + m[1][2],
        ]
    }
}
pub fn pt(p: P2) -> Point {
    Point(p[0] as fsize, p[1] as fsize)
}
pub fn un(p: Point) -> P2 {
    [p.0 as f64, p.1 as f64]
}
fn lib_app(t: &Transformation, p: P2) -> P2 {
    un(*pt(p).clone().transform(t))
}
fn some_angle(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 => q(*r.pick(&[
            0.0,
            PI / 2.0,
            PI,
            -PI / 2.0,
            -PI,
            1.5 * PI,
            2.0 * PI,
            PI / 4.0,
            4.0 * PI,
        ])),
        1 => q(10f64.powf(r.range(-8.0, -2.0)) * if r.chance(0.5) { 1.0 } else { -1.0 }),
        _ => angle(r),
    }
}

/// Often leaves out a part of a motion, or all of it.
pub fn plain(r: &mut Rng, a: f64, t: P2) -> (f64, P2) {
    match r.below(12) {
        0 => (0.0, [0.0, 0.0]),
        1 => (a, [0.0, 0.0]),
        2 => (0.0, t),
        3 => (a, [t[0], 0.0]),
        4 => (a, [0.0, t[1]]),
        5 => (0.0, [t[0], 0.0]),
        _ => (a, t),
    }
}

pub fn run(_case: usize, r: &mut Rng, rec: &mut Rec) {
    let s = *r.pick(&[1e-2, 1.0, 30.0, 1000.0, 1e5]);
    let e = if F64 { 1e-14 } else { 5e-7 };
    for _ in 0..30 {
        // a random chain of motions, mirrored in f64
        let mut lib = Transformation::empty();
        let mut ora = M::id();
        let mut mag: f64 = 1e-30;
        let mut n = 0usize;
        let steps = r.int(1, 10);
        let mut trace = vec![];
        if r.chance(0.3) {
            // start from a constructor
            let (a, t) = (some_angle(r), qp([r.range(-s, s), r.range(-s, s)]));
            match r.below(4) {
                0 => {
                    lib = Transformation::from_translation((t[0] as fsize, t[1] as fsize));
                    ora = M::tr(t);
                    trace.push(format!("from_translation {t:?}"));
                    mag += t[0].abs() + t[1].abs();
                }
                1 => {
                    lib = Transformation::from_rotation(a as fsize);
                    ora = M::rot(a);
                    trace.push(format!("from_rotation {a}"));
                }
                2 => {
                    lib = Transformation::from_dt(&DTransformation::new(a as fsize, (t[0] as fsize, t[1] as fsize)));
                    ora = M::rot(a).then(&M::tr(t));
                    trace.push(format!("from_dt {a} {t:?}"));
                    mag += t[0].abs() + t[1].abs();
                }
                _ => {
                    lib = DTransformation::new(a as fsize, (t[0] as fsize, t[1] as fsize)).into();
                    ora = M::rot(a).then(&M::tr(t));
                    trace.push(format!("into {a} {t:?}"));
                    mag += t[0].abs() + t[1].abs();
                }
            }
            n += 1;
        }
        for _ in 0..steps {
            let a = some_angle(r);
            let t = match r.below(4) {
                0 => [0.0, 0.0],
                1 => qp([r.range(-s, s), 0.0]),
                _ => qp([r.range(-s, s), r.range(-s, s)]),
            };
            let tf = (t[0] as fsize, t[1] as fsize);
            n += 1;
            mag += t[0].abs() + t[1].abs();
            let op = r.below(7);
            trace.push(format!("{op}:{a}:{t:?}"));
            match op {
                0 => {
                    lib = lib.rotate(a as fsize);
                    ora = ora.then(&M::rot(a));
                }
                1 => {
                    lib = lib.translate(tf);
                    ora = ora.then(&M::tr(t));
                }
                2 => {
                    lib = lib.rotate_translate(a as fsize, tf);
                    ora = ora.then(&M::rot(a)).then(&M::tr(t));
                }
                3 => {
                    lib = lib.translate_rotate(tf, a as fsize);
                    ora = ora.then(&M::tr(t)).then(&M::rot(a));
                }
                4 => {
                    let o = Transformation::empty().translate_rotate(tf, a as fsize);
                    lib = lib.transform(&o);
                    ora = ora.then(&M::tr(t)).then(&M::rot(a));
                }
                5 => {
                    lib = lib.transform_from_decomposed(&DTransformation::new(a as fsize, tf));
                    ora = ora.then(&M::rot(a)).then(&M::tr(t));
                }
                _ => {
                    // through the decomposed form and back
                    let d: DTransformation = (&lib).into();
                    lib = if r.chance(0.5) { d.compose() } else { (&d).into() };
                }
            }
        }
        rec.count("chains", 1);
        rec.count("steps", n as u64);
        let tol_t = e * (n as f64 + 2.0) * mag * 4.0;
        let tol_r = e * (n as f64 + 2.0) * 4.0;
        let tol = |p: P2| tol_t + tol_r * (p[0].abs() + p[1].abs());
        let pts: Vec<P2> = (0..4).map(|_| qp([r.range(-s, s), r.range(-s, s)])).collect();
        let ctx = |what: &str, p: P2, got: P2, want: P2| {
            format!("{what}: point {p:?} -> {got:?}, expected {want:?} (tolerance {:e}); steps {trace:?}", tol(p))
        };
        for &p in &pts {
            let want = ora.app(p);
            let got = lib_app(&lib, p);
            rec.check(dist(got, want) <= tol(p), "chain", || ctx("composition", p, got, want));
            // in place, copy, buffer agree exactly
            let c = un(pt(p).transform_clone(&lib));
            let mut b = pt([1.0, -7.0]);
            b.transform_from(&pt(p), &lib);
            rec.check(c == got && un(b) == got, "ways", || ctx("copy/buffer", p, c, got));
            rec.nontrivial(mix(got[0].to_bits()) ^ got[1].to_bits());
        }
        // distances and orientation are preserved
        let im: Vec<P2> = pts.iter().map(|p| lib_app(&lib, *p)).collect();
        let t_iso = 4.0 * pts.iter().map(|p| tol(*p)).fold(0.0, f64::max);
        rec.check(
            (dist(im[0], im[1]) - dist(pts[0], pts[1])).abs() <= t_iso,
            "isometry",
            || ctx("distance", pts[0], im[0], im[1]),
        );
        let ar = |v: &[P2]| cross(sub(v[1], v[0]), sub(v[2], v[0]));
        rec.check(
            (ar(&im) - ar(&pts)).abs() <= t_iso * 8.0 * s.max(1e-9) + 8.0 * t_iso * t_iso,
            "orientation",
            || ctx("orientation", pts[0], im[0], im[1]),
        );
        // inverse, both ways
        let inv = lib.clone().inverse();
        let (id1, id2) = (lib.clone().transform(&inv), inv.clone().transform(&lib));
        for &p in &pts {
            let k = 6.0 * tol(p) + 6.0 * tol(ora.app(p));
            for (nm, got, want) in [
                ("inverse", lib_app(&inv, p), ora.inv().app(p)),
                ("T then inverse", lib_app(&id1, p), p),
                ("inverse then T", lib_app(&id2, p), p),
                ("undo", lib_app(&inv, lib_app(&lib, p)), p),
            ] {
                rec.check(dist(got, want) <= k, "inverse", || ctx(nm, p, got, want));
            }
        }
        // decomposition
        let d = lib.decompose();
        let back = d.compose();
        let d2: DTransformation = DTransformation::from(&lib);
        rec.check(d == d2, "from", || format!("decompose {d:?} and From {d2:?} differ"));
        let (dr, dtt) = (d.rotation() as f64, [d.translation().0 as f64, d.translation().1 as f64]);
        for &p in &pts {
            let want = ora.app(p);
            let got = lib_app(&back, p);
            rec.check(dist(got, want) <= 3.0 * tol(p), "decompose", || {
                ctx("decomposed and composed", p, got, want)
            });
            let plain = M::rot(dr).then(&M::tr(dtt)).app(p);
            rec.check(dist(plain, want) <= 3.0 * tol(p), "decompose", || {
                ctx("rotation followed by translation of the decomposed form", p, plain, want)
            });
        }
        // the same motion on compound shapes
        let (a, b) = (pts[0], pts[1]);
        if dist(a, b) > 1e-3 * s {
            let e0 = Edge::new(pt(a), pt(b));
            let mut e1 = e0.clone();
            e1.transform(&lib);
            let e2 = e0.transform_clone(&lib);
            let mut e3 = Edge::new(pt([0.0, 0.0]), pt([5.0, 1.0]));
            e3.transform_from(&e0, &lib);
            rec.check(
                e1 == e2 && e1 == e3 && un(e1.start) == im[0] && un(e1.end) == im[1],
                "edge",
                || format!("edge {e0:?} moved to {e1:?} / {e2:?} / {e3:?}, points moved to {im:?}"),
            );
            let c0 = Circle::new(pt(a), (s * 0.3) as fsize);
            let mut c1 = c0.clone();
            c1.transform(&lib);
            let c2 = c0.transform_clone(&lib);
            let mut c3 = Circle::new(pt([9.0, 9.0]), c0.radius);
            c3.transform_from(&c0, &lib);
            rec.check(
                c1 == c2 && c1 == c3 && un(c1.center) == im[0] && c1.radius == c0.radius,
                "circle",
                || format!("circle {c0:?} moved to {c1:?} / {c2:?} / {c3:?}"),
            );
        }
        rec.check(
            !lib.is_empty() || pts.iter().all(|p| lib_app(&lib, *p) == *p),
            "is_empty",
            || format!("is_empty but moves points; {trace:?}"),
        );
        rec.sample(|| json!({"steps": trace, "point": pts[0], "image": im[0]}));
        if rec.failed() {
            return;
        }
    }
    rec.check(Transformation::empty().is_empty(), "empty", || "empty() is not empty".into());
    let z = DTransformation::empty();
    rec.check(
        z.rotation() == 0.0 && z.translation() == (0.0, 0.0),
        "empty",
        || format!("{z:?}"),
    );
    // polygons with surrogates
    let p = polygon(r, s);
    let mut sp = SimplePolygon::new(p.iter().map(|p| pt(*p)).collect());
    sp.generate_surrogate(SPSurrogateConfig {
        pole_coverage_goal: 0.8,
        max_poles: r.int(1, 6) as usize,
        n_ff_poles: 2,
        n_ff_piers: usize::from(cfg!(debug_assertions) && r.chance(0.3)),
    });
    let base = sp.clone();
    let mut buf = sp.clone();
    for _ in 0..4 {
        let a = some_angle(r);
        let t = [r.range(-3.0 * s, 3.0 * s), r.range(-3.0 * s, 3.0 * s)];
        let (a, t) = plain(r, a, t);
        let d = crate::scene::dt(a, t);
        let t = d.compose();
        let m = M::rot(d.rotation() as f64).then(&M::tr([d.translation().0 as f64, d.translation().1 as f64]));
        let c = base.transform_clone(&t);
        let mut ip = base.clone();
        ip.transform(&t);
        buf.transform_from(&base, &t);
        let tol = e * 40.0 * s;
        for (nm, x) in [("copy", &c), ("in place", &ip), ("buffer", &buf)] {
            let mut ok = x.points.len() == base.points.len();
            let near = |a: Point, b: Point| dist(un(a), m.app(un(b))) <= tol;
            ok &= x.points.iter().zip(&base.points).all(|(a, b)| near(*a, *b));
            ok &= near(x.poi.center, base.poi.center) && x.poi.radius == base.poi.radius;
            let (u, v) = (x.surrogate(), base.surrogate());
            ok &= u.poles.len() == v.poles.len()
                && u.poles
                    .iter()
                    .zip(&v.poles)
                    .all(|(a, b)| near(a.center, b.center) && a.radius == b.radius);
            ok &= u.piers.len() == v.piers.len()
                && u.piers
                    .iter()
                    .zip(&v.piers)
                    .all(|(a, b)| near(a.start, b.start) && near(a.end, b.end));
            ok &= near(u.poles_bounding_circle.center, v.poles_bounding_circle.center)
                && u.poles_bounding_circle.radius == v.poles_bounding_circle.radius;
            rec.check(ok, "polygon", || format!("{nm}: polygon {p:?} with surrogate not moved by {d:?}"));
        }
        rec.count("polygon_moves", 3);
    }
}
