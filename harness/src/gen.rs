//! Workload generators: polygons, containers, transformations.
use crate::geo::*;
use crate::rng::Rng;
use std::f64::consts::PI;

#[cfg(not(feature = "f64"))]
pub const F64: bool = false;
#[cfg(feature = "f64")]
pub const F64: bool = true;

pub use jagua_rs::fsize;

/// rounds to the floating point type of the code under test
pub fn q(x: f64) -> f64 {
    x as fsize as f64
}
pub fn qp(p: P2) -> P2 {
    [q(p[0]), q(p[1])]
}
/// contact band and containment band for coordinates of magnitude m
pub fn bands(m: f64) -> (f64, f64) {
    if F64 {
        (1e-10 * m, 2e-7 * m)
    } else {
        (4e-5 * m, 2e-3 * m)
    }
}
/// relative unit roundoff times a comfortable factor
pub fn eps() -> f64 {
    if F64 {
        1e-13
    } else {
        2e-6
    }
}

/// A simple polygon of roughly size s around the origin, counterclockwise or not.
/// Always clearly simple and not degenerate; coordinates representable in the tested type.
pub fn polygon(r: &mut Rng, s: f64) -> Vec<P2> {
    loop {
        let lattice = r.chance(0.3);
        let mut p = raw_polygon(r, s);
        if lattice {
            // snap to a dyadic grid
            let g = 2f64.powf((s / 16.0).log2().floor());
            for v in p.iter_mut() {
                *v = [(v[0] / g).round() * g, (v[1] / g).round() * g];
            }
            p.dedup();
            if p.len() > 1 && p[0] == p[p.len() - 1] {
                p.pop();
            }
        }
        for v in p.iter_mut() {
            *v = qp(*v);
        }
        let b = bbox_or(&p);
        let ext = (b[2] - b[0]).max(b[3] - b[1]);
        if p.len() < 3 || !is_simple(&p, ext * 4e-3) {
            continue;
        }
        let a = signed_area(&p).abs();
        let per = perimeter(&p);
        if a / per < 0.012 * ext {
            continue; // too thin for a meaningful pole
        }
        if r.chance(0.3) {
            p.reverse();
        }
        let k = r.below(p.len());
        p.rotate_left(k);
        return p;
    }
}
fn bbox_or(p: &[P2]) -> [f64; 4] {
    if p.is_empty() {
        [0.0, 0.0, 1.0, 1.0]
    } else {
        bbox(p)
    }
}

/// 80 to 260 vertices: a wavy circle, a fine comb around a circle, a spiral-free random star.
fn dense(r: &mut Rng, s: f64) -> Vec<P2> {
    let n = r.int(40, 130) as usize * 2;
    let k = r.int(2, 9) as f64;
    let amp = r.range(0.0, 0.4);
    let teeth = r.below(3);
    let h = r.range(0.01, 0.06);
    (0..n)
        .map(|i| {
            let a = 2.0 * PI * i as f64 / n as f64;
            let mut d = 1.0 - amp * 0.5 * (1.0 + (k * a).sin());
            match teeth {
                1 => d -= h * (i % 2) as f64,
                2 => d -= h * r.f(),
                _ => (),
            }
            [s * 0.5 * d * a.cos(), s * 0.5 * d * a.sin()]
        })
        .collect()
}

fn raw_polygon(r: &mut Rng, s: f64) -> Vec<P2> {
    if r.chance(0.02) {
        return dense(r, s);
    }
    match r.below(17) {
        0 => {
            let (w, h) = (s * r.range(0.2, 1.0), s * r.range(0.2, 1.0));
            rect(0.0, 0.0, w, h)
        }
        1 => {
            // triangle
            (0..3)
                .map(|i| {
                    let a = 2.0 * PI * (i as f64 + r.range(-0.3, 0.3)) / 3.0;
                    let d = s * r.range(0.3, 0.6);
                    [d * a.cos(), d * a.sin()]
                })
                .collect()
        }
        2 => {
            // regular n-gon
            let n = r.int(5, 20) as usize;
            let a0 = r.range(0.0, PI);
            (0..n)
                .map(|i| {
                    let a = a0 + 2.0 * PI * i as f64 / n as f64;
                    [s * 0.5 * a.cos(), s * 0.5 * a.sin()]
                })
                .collect()
        }
        3 | 4 | 5 => {
            // star shaped, random radii
            let n = r.int(5, 16) as usize;
            let lo = r.range(0.15, 0.8);
            (0..n)
                .map(|i| {
                    let a = 2.0 * PI * (i as f64 + r.range(-0.3, 0.3)) / n as f64;
                    let d = s * 0.5 * r.range(lo, 1.0);
                    [d * a.cos(), d * a.sin()]
                })
                .collect()
        }
        6 => {
            // L
            let (a, b) = (r.range(0.25, 0.75) * s, r.range(0.25, 0.75) * s);
            vec![[0.0, 0.0], [s, 0.0], [s, b], [a, b], [a, s], [0.0, s]]
        }
        7 => {
            // U
            let (w, d) = (r.range(0.15, 0.3) * s, r.range(0.15, 0.4) * s);
            vec![
                [0.0, 0.0],
                [s, 0.0],
                [s, s],
                [s - w, s],
                [s - w, d],
                [w, d],
                [w, s],
                [0.0, s],
            ]
        }
        8 => {
            // comb
            let k = r.int(2, 5) as usize;
            let base = 0.25 * s;
            let mut p = vec![[0.0, 0.0], [s, 0.0]];
            let step = s / (2 * k - 1) as f64;
            for i in (0..k).rev() {
                let x0 = step * (2 * i) as f64;
                let x1 = x0 + step;
                let y = s * r.range(0.5, 0.9);
                p.push([x1, y]);
                p.push([x0, y]);
                if i > 0 {
                    p.push([x0, base]);
                    p.push([x0 - step, base]);
                }
            }
            // the first tooth's right side starts at [s, 0] -> [s, y]
            p
        }
        9 => {
            // long bar, possibly bent
            let w = s * r.range(0.08, 0.2);
            if r.chance(0.5) {
                rect(0.0, 0.0, s, w)
            } else {
                let m = s * r.range(0.1, 0.4);
                vec![
                    [0.0, 0.0],
                    [s / 2.0, m],
                    [s, 0.0],
                    [s, w],
                    [s / 2.0, m + w],
                    [0.0, w],
                ]
            }
        }
        10 => {
            // many vertices, wavy circle
            let n = r.int(20, 48) as usize;
            let k = r.int(2, 6) as f64;
            let amp = r.range(0.0, 0.3);
            (0..n)
                .map(|i| {
                    let a = 2.0 * PI * i as f64 / n as f64;
                    let d = s * 0.5 * (1.0 - amp * 0.5 * (1.0 + (k * a).sin()));
                    [d * a.cos(), d * a.sin()]
                })
                .collect()
        }
        11 => {
            // ring with an opening, or a crescent
            let n = r.int(5, 14) as usize;
            let open = r.range(0.15, 2.5);
            let (ro, ri) = (0.5 * s, s * r.range(0.15, 0.4));
            let a0 = r.range(0.0, 2.0 * PI);
            let at = |k: usize| a0 + open / 2.0 + (2.0 * PI - open) * k as f64 / n as f64;
            let mut p: Vec<P2> = (0..=n).map(|k| [ro * at(k).cos(), ro * at(k).sin()]).collect();
            p.extend((0..=n).rev().map(|k| [ri * at(k).cos(), ri * at(k).sin()]));
            p
        }
        12 => {
            // S, made of bars
            let w = s * r.range(0.1, 0.17);
            let g = (s - 3.0 * w) / 2.0;
            let h = s * r.range(0.4, 1.0);
            vec![
                [0.0, 0.0],
                [h, 0.0],
                [h, 2.0 * w + g],
                [w, 2.0 * w + g],
                [w, 2.0 * w + 2.0 * g],
                [h, 2.0 * w + 2.0 * g],
                [h, s],
                [0.0, s],
                [0.0, w + g],
                [h - w, w + g],
                [h - w, w],
                [0.0, w],
            ]
        }
        13 => interlocked(r, s).1,
        15 | 16 => jagged(r, s),
        _ => {
            // plus
            let a = s * r.range(0.2, 0.4);
            let b = s - a;
            vec![
                [a, 0.0],
                [b, 0.0],
                [b, a],
                [s, a],
                [s, b],
                [b, b],
                [b, s],
                [a, s],
                [a, b],
                [0.0, b],
                [0.0, a],
                [a, a],
            ]
        }
    }
}

/// Long straight edges next to a side with many short ones (teeth or a rounded corner).
fn jagged(r: &mut Rng, s: f64) -> Vec<P2> {
    let n = r.int(3, 7) as usize;
    let a0 = r.range(0.0, 2.0 * PI);
    let base: Vec<P2> = if r.chance(0.4) {
        rect(0.0, 0.0, s * r.range(0.4, 1.0), s * r.range(0.4, 1.0))
    } else {
        (0..n)
            .map(|i| {
                let a = a0 + 2.0 * PI * (i as f64 + r.range(-0.25, 0.25)) / n as f64;
                let d = s * 0.5 * r.range(0.6, 1.0);
                [d * a.cos(), d * a.sin()]
            })
            .collect()
    };
    let n = base.len();
    let side = r.below(n);
    let (lo, hi) = if r.chance(0.5) { (0.0, 1.0) } else { (r.range(0.0, 0.3), r.range(0.5, 1.0)) };
    let k = r.int(8, 26) as usize;
    let round = r.chance(0.3);
    let mut p = vec![];
    for i in 0..n {
        p.push(base[i]);
        if i != side {
            continue;
        }
        let (a, b) = (base[i], base[(i + 1) % n]);
        let d = [b[0] - a[0], b[1] - a[1]];
        let amp = if round { r.range(0.05, 0.25) } else { r.range(0.02, 0.1) };
        for j in 1..k {
            let u = j as f64 / k as f64;
            let h = if round { (PI * u).sin() } else { (j % 2) as f64 } * amp;
            let t = lo + (hi - lo) * u;
            p.push([a[0] + t * d[0] + h * d[1], a[1] + t * d[1] - h * d[0]]);
        }
    }
    p
}

/// Two shapes in one frame that do not touch: one with an arm, the other wrapped around that arm.
/// The bounding box of the second mostly lies within that of the first.
pub fn interlocked(r: &mut Rng, s: f64) -> (Vec<P2>, Vec<P2>) {
    let (t, b) = (r.range(0.1, 0.16), r.range(0.08, 0.12));
    let a = r.range(0.03, 0.08);
    let c = r.range(0.45, 0.55);
    let len = r.range(0.5, 0.85);
    let far = if r.chance(0.8) { 1.0 } else { len };
    let e = vec![[0.0, 0.0], [far, 0.0], [far, b], [t, b], [t, c - a], [len, c - a], [len, c + a], [t, c + a], [t, 1.0 - b], [far, 1.0 - b], [far, 1.0], [0.0, 1.0]];
    let u = wrapped(r, t, a, c, len, 1.0, b);
    morph(r, s, e, u)
}
/// A container with an arm reaching into it, and a shape inside that is wrapped around the arm.
pub fn notched(r: &mut Rng, s: f64) -> (Vec<P2>, Vec<P2>) {
    let (a, c, len) = (r.range(0.02, 0.08), r.range(0.45, 0.55), r.range(0.4, 0.8));
    let e = vec![[0.0, 0.0], [1.0, 0.0], [1.0, 1.0], [0.0, 1.0], [0.0, c + a], [len, c + a], [len, c - a], [0.0, c - a]];
    let u = wrapped(r, 0.0, a, c, len, 1.0, 0.0);
    morph(r, s, e, u)
}
fn wrapped(r: &mut Rng, t: f64, a: f64, c: f64, len: f64, x_max: f64, b: f64) -> Vec<P2> {
    let room = (c - a - b).min(1.0 - b - c - a); // above and below the arm
    let g = room * r.range(0.1, 0.3);
    let th = room * r.range(0.3, 0.55);
    let x0 = t + (len - t) * r.range(0.05, 0.3);
    let x2 = len + (x_max - len) * r.range(0.1, 0.3);
    let x1 = x2 + (x_max - len) * r.range(0.3, 0.6);
    let (y0, y1) = (c - a - g, c + a + g);
    vec![[x0, y0 - th], [x1, y0 - th], [x1, y1 + th], [x0, y1 + th], [x0, y1], [x2, y1], [x2, y0], [x0, y0]]
}
/// The same linear map for both.
fn morph(r: &mut Rng, s: f64, e: Vec<P2>, u: Vec<P2>) -> (Vec<P2>, Vec<P2>) {
    let shear = if r.chance(0.5) { 0.0 } else { r.range(-0.4, 0.4) };
    let turn = *r.pick(&[0.0, PI / 2.0, PI, 0.3, 1.1, 4.0]);
    let (sin, cos) = (f64::sin(turn), f64::cos(turn));
    let map = |v: Vec<P2>| -> Vec<P2> {
        v.into_iter()
            .map(|p| {
                let (x, y) = (s * (p[0] + shear * p[1]), s * p[1]);
                qp([cos * x - sin * y, sin * x + cos * y])
            })
            .collect()
    };
    (map(e), map(u))
}

pub fn rect(x0: f64, y0: f64, x1: f64, y1: f64) -> Vec<P2> {
    vec![[x0, y0], [x1, y0], [x1, y1], [x0, y1]]
}

pub fn shift(p: &[P2], t: P2) -> Vec<P2> {
    p.iter().map(|v| qp([v[0] + t[0], v[1] + t[1]])).collect()
}

/// Random angle with emphasis on special ones.
pub fn angle(r: &mut Rng) -> f64 {
    let a = match r.below(10) {
        0 => 0.0,
        1 => PI / 2.0,
        2 => PI,
        3 => -PI / 2.0,
        4 => 1.5 * PI,
        5 => r.range(-1e-3, 1e-3),
        6 => r.range(-4.0 * PI, 4.0 * PI),
        _ => r.range(0.0, 2.0 * PI),
    };
    q(a)
}
