//! Independent double precision geometry used as the oracle. Written from first principles:
//! nothing here calls into the code under test.
pub type P2 = [f64; 2];

pub fn sub(a: P2, b: P2) -> P2 {
    [a[0] - b[0], a[1] - b[1]]
}
pub fn cross(a: P2, b: P2) -> f64 {
    a[0] * b[1] - a[1] * b[0]
}
pub fn dot(a: P2, b: P2) -> f64 {
    a[0] * b[0] + a[1] * b[1]
}
pub fn norm(a: P2) -> f64 {
    a[0].hypot(a[1])
}
pub fn dist(a: P2, b: P2) -> f64 {
    norm(sub(a, b))
}

/// Rotation (radians, counterclockwise about the origin) followed by a translation.
#[derive(Clone, Copy, Debug)]
pub struct Rigid {
    pub r: f64,
    pub t: P2,
}
impl Rigid {
    pub fn apply(&self, p: P2) -> P2 {
        let (s, c) = self.r.sin_cos();
        [
            c * p[0] - s * p[1] + self.t[0],
            s * p[0] + c * p[1] + self.t[1],
        ]
    }
    pub fn apply_all(&self, ps: &[P2]) -> Vec<P2> {
        let (s, c) = self.r.sin_cos();
        ps.iter()
            .map(|p| {
                [
                    c * p[0] - s * p[1] + self.t[0],
                    s * p[0] + c * p[1] + self.t[1],
                ]
            })
            .collect()
    }
}

pub fn signed_area(p: &[P2]) -> f64 {
    // relative to the first vertex, for accuracy far from the origin
    let o = p[0];
    let mut a = 0.0;
    for i in 0..p.len() {
        let j = (i + 1) % p.len();
        a += cross(sub(p[i], o), sub(p[j], o));
    }
    a / 2.0
}
pub fn perimeter(p: &[P2]) -> f64 {
    (0..p.len()).map(|i| dist(p[i], p[(i + 1) % p.len()])).sum()
}
pub fn centroid(p: &[P2]) -> P2 {
    let o = p[0];
    let (mut a, mut x, mut y) = (0.0, 0.0, 0.0);
    for i in 0..p.len() {
        let j = (i + 1) % p.len();
        let (u, v) = (sub(p[i], o), sub(p[j], o));
        let c = cross(u, v);
        a += c;
        x += (u[0] + v[0]) * c;
        y += (u[1] + v[1]) * c;
    }
    [o[0] + x / (3.0 * a), o[1] + y / (3.0 * a)]
}
/// x_min, y_min, x_max, y_max
pub fn bbox(p: &[P2]) -> [f64; 4] {
    let mut b = [f64::MAX, f64::MAX, f64::MIN, f64::MIN];
    for q in p {
        b[0] = b[0].min(q[0]);
        b[1] = b[1].min(q[1]);
        b[2] = b[2].max(q[0]);
        b[3] = b[3].max(q[1]);
    }
    b
}
pub fn bbox_gap(a: &[f64; 4], b: &[f64; 4]) -> f64 {
    let dx = (a[0] - b[2]).max(b[0] - a[2]).max(0.0);
    let dy = (a[1] - b[3]).max(b[1] - a[3]).max(0.0);
    dx.hypot(dy)
}
pub fn closest_on_seg(p: P2, a: P2, b: P2) -> P2 {
    let d = sub(b, a);
    let l2 = dot(d, d);
    if l2 == 0.0 {
        return a;
    }
    let t = (dot(sub(p, a), d) / l2).clamp(0.0, 1.0);
    [a[0] + t * d[0], a[1] + t * d[1]]
}
pub fn pt_seg(p: P2, a: P2, b: P2) -> f64 {
    dist(p, closest_on_seg(p, a, b))
}
pub fn max_abs(ps: &[P2]) -> f64 {
    ps.iter()
        .flat_map(|p| [p[0].abs(), p[1].abs()])
        .fold(0.0, f64::max)
}

/// How clearly two segments cross: the smallest distance of an end point to the line of the other
/// segment when they cross properly, `None` if they do not cross properly.
pub fn cross_margin(a: P2, b: P2, c: P2, d: P2) -> Option<f64> {
    let ab = sub(b, a);
    let cd = sub(d, c);
    let (lab, lcd) = (norm(ab), norm(cd));
    if lab == 0.0 || lcd == 0.0 {
        return None;
    }
    let o1 = cross(ab, sub(c, a)) / lab;
    let o2 = cross(ab, sub(d, a)) / lab;
    if o1 * o2 >= 0.0 {
        return None;
    }
    let o3 = cross(cd, sub(a, c)) / lcd;
    let o4 = cross(cd, sub(b, c)) / lcd;
    if o3 * o4 >= 0.0 {
        return None;
    }
    Some(o1.abs().min(o2.abs()).min(o3.abs()).min(o4.abs()))
}
pub fn seg_seg(a: P2, b: P2, c: P2, d: P2) -> f64 {
    if cross_margin(a, b, c, d).is_some() {
        return 0.0;
    }
    pt_seg(a, c, d)
        .min(pt_seg(b, c, d))
        .min(pt_seg(c, a, b))
        .min(pt_seg(d, a, b))
}
/// Even-odd point in polygon, exact up to f64 rounding.
pub fn pip(p: P2, poly: &[P2]) -> bool {
    let mut inside = false;
    let n = poly.len();
    let mut j = n - 1;
    for i in 0..n {
        let (a, b) = (poly[i], poly[j]);
        if (a[1] > p[1]) != (b[1] > p[1]) {
            let x = a[0] + (p[1] - a[1]) / (b[1] - a[1]) * (b[0] - a[0]);
            if p[0] < x {
                inside = !inside;
            }
        }
        j = i;
    }
    inside
}
pub fn border_dist(p: P2, poly: &[P2]) -> f64 {
    let n = poly.len();
    (0..n)
        .map(|i| pt_seg(p, poly[i], poly[(i + 1) % n]))
        .fold(f64::MAX, f64::min)
}
/// Distance to the border, positive inside and negative outside
pub fn depth(p: P2, poly: &[P2]) -> f64 {
    let d = border_dist(p, poly);
    if pip(p, poly) {
        d
    } else {
        -d
    }
}
/// Approximate pole of inaccessibility: (point, depth). Own grid refinement.
pub fn inner_point(poly: &[P2]) -> (P2, f64) {
    let b = bbox(poly);
    let (w, h) = (b[2] - b[0], b[3] - b[1]);
    let n = 14;
    let mut best = (poly[0], f64::MIN);
    let mut cand: Vec<(f64, P2)> = vec![];
    for i in 0..n {
        for j in 0..n {
            let p = [
                b[0] + w * (i as f64 + 0.5) / n as f64,
                b[1] + h * (j as f64 + 0.5) / n as f64,
            ];
            cand.push((depth(p, poly), p));
        }
    }
    // midpoints of short inward offsets of the edges help for thin shapes
    for i in 0..poly.len() {
        for k in 2..poly.len().min(6) {
            let q = poly[(i + k) % poly.len()];
            let p = [(poly[i][0] + q[0]) / 2.0, (poly[i][1] + q[1]) / 2.0];
            cand.push((depth(p, poly), p));
        }
    }
    cand.sort_by(|x, y| y.0.partial_cmp(&x.0).unwrap());
    for (d, p) in cand.iter().take(6) {
        let (mut d, mut p) = (*d, *p);
        let mut step = (w / n as f64).max(h / n as f64) * 0.5;
        let floor = 1e-4 * w.max(h);
        while step > floor {
            let mut moved = false;
            for k in 0..8 {
                let a = k as f64 * std::f64::consts::FRAC_PI_4;
                let q = [p[0] + step * a.cos(), p[1] + step * a.sin()];
                let dq = depth(q, poly);
                if dq > d {
                    d = dq;
                    p = q;
                    moved = true;
                }
            }
            if !moved {
                step *= 0.5;
            }
        }
        if d > best.1 {
            best = (p, d);
        }
    }
    best
}
/// Whether the closed polygonal chain is simple with a clear margin `eps` (no two non adjacent
/// edges closer than eps, adjacent edges not folding back).
pub fn is_simple(p: &[P2], eps: f64) -> bool {
    let n = p.len();
    if n < 3 {
        return false;
    }
    for i in 0..n {
        let (a, b) = (p[i], p[(i + 1) % n]);
        if dist(a, b) <= eps {
            return false;
        }
        let c = p[(i + 2) % n];
        // fold back
        if pt_seg(c, a, b) <= eps || pt_seg(a, b, c) <= eps {
            return false;
        }
        for j in (i + 2)..n {
            if i == 0 && j == n - 1 {
                continue;
            }
            if seg_seg(a, b, p[j], p[(j + 1) % n]) <= eps {
                return false;
            }
        }
    }
    true
}

/// A polygon with cached values.
#[derive(Clone, Debug)]
pub struct Poly {
    pub pts: Vec<P2>,
    pub bb: [f64; 4],
    pub inner: P2,
    pub inner_depth: f64,
}
impl Poly {
    pub fn new(pts: Vec<P2>) -> Poly {
        let (inner, inner_depth) = inner_point(&pts);
        Poly {
            bb: bbox(&pts),
            pts,
            inner,
            inner_depth,
        }
    }
    pub fn moved(&self, t: &Rigid) -> Poly {
        let pts = t.apply_all(&self.pts);
        Poly {
            bb: bbox(&pts),
            pts,
            inner: t.apply(self.inner),
            inner_depth: self.inner_depth,
        }
    }
    pub fn edges(&self) -> impl Iterator<Item = (P2, P2)> + '_ {
        let n = self.pts.len();
        (0..n).map(move |i| (self.pts[i], self.pts[(i + 1) % n]))
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rel {
    /// boundaries clearly cross
    Cross,
    /// clearly apart
    Disjoint,
    /// q clearly within h
    QinH,
    /// h clearly within q
    HinQ,
    /// boundaries too close to tell, but a point of the one is deep within the other
    DeepOverlap,
    /// boundaries too close to tell, but q has a point deep outside h
    DeepOutside,
    Unclear,
}

/// Relation of polygons q and h. `ds`: contact band, `wide`: containment band.
pub fn relate(q: &Poly, h: &Poly, ds: f64, wide: f64) -> Rel {
    if bbox_gap(&q.bb, &h.bb) > ds {
        return Rel::Disjoint;
    }
    let mut gap = f64::MAX;
    for (a, b) in q.edges() {
        let eb = [
            a[0].min(b[0]) - ds,
            a[1].min(b[1]) - ds,
            a[0].max(b[0]) + ds,
            a[1].max(b[1]) + ds,
        ];
        if bbox_gap(&eb, &h.bb) > 0.0 {
            continue;
        }
        for (c, d) in h.edges() {
            if c[0].max(d[0]) < eb[0]
                || c[0].min(d[0]) > eb[2]
                || c[1].max(d[1]) < eb[1]
                || c[1].min(d[1]) > eb[3]
            {
                continue;
            }
            match cross_margin(a, b, c, d) {
                Some(m) if m > ds => return Rel::Cross,
                Some(_) => gap = 0.0,
                None => gap = gap.min(seg_seg(a, b, c, d)),
            }
        }
    }
    if gap <= ds {
        if depth(q.inner, &h.pts) > wide || depth(h.inner, &q.pts) > wide {
            return Rel::DeepOverlap;
        }
        if depth(q.inner, &h.pts) < -wide {
            return Rel::DeepOutside;
        }
        return Rel::Unclear;
    }
    // no contact: nested or apart
    let q_bb_in_h = q.bb[0] > h.bb[0] - wide
        && q.bb[1] > h.bb[1] - wide
        && q.bb[2] < h.bb[2] + wide
        && q.bb[3] < h.bb[3] + wide;
    let h_bb_in_q = h.bb[0] > q.bb[0] - wide
        && h.bb[1] > q.bb[1] - wide
        && h.bb[2] < q.bb[2] + wide
        && h.bb[3] < q.bb[3] + wide;
    if (q_bb_in_h && q.inner_depth < wide) || (h_bb_in_q && h.inner_depth < wide) {
        return Rel::Unclear;
    }
    if pip(q.pts[0], &h.pts) {
        Rel::QinH
    } else if pip(h.pts[0], &q.pts) {
        Rel::HinQ
    } else {
        Rel::Disjoint
    }
}

/// Andrew monotone chain, strict hull, counterclockwise.
pub fn hull(pts: &[P2]) -> Vec<P2> {
    let mut p = pts.to_vec();
    p.sort_by(|a, b| a.partial_cmp(b).unwrap());
    p.dedup();
    if p.len() < 3 {
        return p;
    }
    let mut h: Vec<P2> = vec![];
    for pass in 0..2 {
        let start = h.len();
        let it: Vec<P2> = if pass == 0 {
            p.clone()
        } else {
            p.iter().rev().cloned().collect()
        };
        for q in it {
            while h.len() >= start + 2
                && cross(sub(h[h.len() - 1], h[h.len() - 2]), sub(q, h[h.len() - 1])) <= 0.0
            {
                h.pop();
            }
            h.push(q);
        }
        h.pop();
    }
    h
}
pub fn diameter(pts: &[P2]) -> f64 {
    let mut m: f64 = 0.0;
    for i in 0..pts.len() {
        for j in i + 1..pts.len() {
            m = m.max(dist(pts[i], pts[j]));
        }
    }
    m
}

/// Relation of a probe (closed region) to the border and interior of a polygon.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Probe {
    /// clearly meets the border of the polygon
    Border,
    /// clearly inside, away from the border
    Inside,
    /// clearly outside, away from the border
    Outside,
    Unclear,
}
pub fn probe_seg(a: P2, b: P2, h: &[P2], ds: f64) -> Probe {
    let mut gap = f64::MAX;
    for i in 0..h.len() {
        let (c, d) = (h[i], h[(i + 1) % h.len()]);
        match cross_margin(a, b, c, d) {
            Some(m) if m > ds => return Probe::Border,
            Some(_) => gap = 0.0,
            None => gap = gap.min(seg_seg(a, b, c, d)),
        }
    }
    classify(gap, ds, a, h)
}
pub fn probe_circle(c: P2, r: f64, h: &[P2], ds: f64) -> Probe {
    let d = border_dist(c, h);
    if d < r - ds {
        return Probe::Border;
    }
    classify(d - r, ds, c, h)
}
pub fn probe_rect(r: &[f64; 4], h: &[P2], ds: f64) -> Probe {
    let inner = [r[0] + ds, r[1] + ds, r[2] - ds, r[3] - ds];
    let outer = [r[0] - ds, r[1] - ds, r[2] + ds, r[3] + ds];
    let mut near = false;
    for i in 0..h.len() {
        let (c, d) = (h[i], h[(i + 1) % h.len()]);
        if inner[0] < inner[2] && inner[1] < inner[3] && seg_meets_rect(c, d, &inner) {
            return Probe::Border;
        }
        near |= seg_meets_rect(c, d, &outer);
    }
    let gap = if near { 0.0 } else { 2.0 * ds };
    classify(gap, ds, [(r[0] + r[2]) / 2.0, (r[1] + r[3]) / 2.0], h)
}
fn classify(gap: f64, ds: f64, p: P2, h: &[P2]) -> Probe {
    if gap <= ds {
        Probe::Unclear
    } else if pip(p, h) {
        Probe::Inside
    } else {
        Probe::Outside
    }
}
/// Liang-Barsky
pub fn seg_meets_rect(a: P2, b: P2, r: &[f64; 4]) -> bool {
    let d = sub(b, a);
    let (mut t0, mut t1) = (0.0f64, 1.0f64);
    for k in 0..2 {
        let (lo, hi) = (r[k], r[k + 2]);
        if d[k] == 0.0 {
            if a[k] < lo || a[k] > hi {
                return false;
            }
        } else {
            let (mut u, mut v) = ((lo - a[k]) / d[k], (hi - a[k]) / d[k]);
            if u > v {
                std::mem::swap(&mut u, &mut v);
            }
            t0 = t0.max(u);
            t1 = t1.min(v);
            if t0 > t1 {
                return false;
            }
        }
    }
    true
}
