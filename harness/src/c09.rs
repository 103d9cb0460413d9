//! C09: resizing and fitting strips.
use crate::c05::{agree, exact};
use crate::gen::*;
use crate::geo::*;
use crate::problems::*;
use crate::rec::{guarded, Rec};
use crate::rng::{hash_str, mix, Rng};
use crate::scene::*;
use jagua_rs::entities::problems::problem::Problem;
use jagua_rs::entities::problems::problem_generic::ProblemGeneric;
use jagua_rs::geometry::primitives::aa_rectangle::AARectangle;
use serde_json::json;

fn ext(p: &Problem) -> [f64; 4] {
    lib_bbox(&p.layouts()[0].bin.bbox())
}
/// horizontal range of the placed items
fn occupied(w: &World, m: &MLayout) -> Option<(f64, f64)> {
    m.items
        .iter()
        .map(|(_, i, d)| w.haz(*i, d).poly.bb)
        .map(|b| (b[0], b[2]))
        .reduce(|a, b| (a.0.min(b.0), a.1.max(b.1)))
}
fn magnitude(w: &World, m: &MLayout, e: &[f64; 4]) -> f64 {
    m.items
        .iter()
        .map(|(_, i, d)| max_abs(&w.items_spec[*i].shape).max(d.translation().0.abs() as f64).max(d.translation().1.abs() as f64))
        .chain(e.iter().map(|x| x.abs()))
        .fold(0.0, f64::max)
}

pub fn run(_case: usize, r: &mut Rng, rec: &mut Rec) {
    let hpg = r.chance(0.3);
    let mut w = World::strip(r, hpg);
    let mut run = Run::new(&w, r, 0);
    rec.count("histories", 1);
    let mut hist: Vec<String> = vec![format!("strip {:?}", ext(&run.p))];
    let steps = r.int(4, 22);
    for _ in 0..steps {
        let id0 = run.p.layouts()[0].id();
        let before = run.m.layouts[&id0].clone();
        let old = ext(&run.p);
        let occ = occupied(&w, &before);
        let mag = magnitude(&w, &before, &old);
        let (ds, _) = bands(mag * 2.0);
        let op = r.below(14);
        // the extent asked for, if the operation is a resize
        let mut asked: Option<[f64; 4]> = None;
        let mut fitting = false;
        let ww = match occ {
            // often close to what is occupied
            Some((a, b)) if r.chance(0.6) => (b - a) * r.range(0.4, 1.6),
            _ => w.s * r.range(0.3, 3.0),
        };
        let width = q(ww.max(w.s * 0.05));
        if op < 5 {
            match run.place(&w, rec, r, 0.0) {
                Some(d) => hist.push(d),
                None => continue,
            }
        } else if op < 7 {
            match run.remove(rec, r) {
                Some(d) => hist.push(d),
                None => continue,
            }
        } else {
            let Problem::SP(p) = &mut run.p else { unreachable!() };
            match op {
                7 => {
                    p.modify_strip_in_back(width as fsize);
                    asked = Some([old[0], old[1], old[0] + width, old[3]]);
                    hist.push(format!("in back {width}"));
                }
                8 => {
                    p.modify_strip_at_front(width as fsize);
                    asked = Some([old[2] - width, old[1], old[2], old[3]]);
                    hist.push(format!("at front {width}"));
                }
                9 => {
                    p.modify_strip_centered(width as fsize);
                    hist.push(format!("centred {width}"));
                    if let Some((a, b)) = occ {
                        asked = Some([(a + b - width) / 2.0, old[1], (a + b + width) / 2.0, old[3]]);
                    } else {
                        let e = ext(&run.p);
                        let ok = (e[2] - e[0] - width).abs() <= ds && e[1] == old[1] && e[3] == old[3];
                        rec.check(ok, "extent", || format!("centred to {width}: {e:?} from {old:?}"));
                        asked = Some(e);
                    }
                }
                10 => {
                    let hh = if r.chance(0.6) { old[3] - old[1] } else { q(w.strip_height * r.range(0.5, 1.5)) };
                    let x0 = q(old[0] + w.s * r.range(-0.5, 0.5) * if r.chance(0.5) { 1.0 } else { 0.0 });
                    let y0 = q(old[1] + w.s * r.range(-0.3, 0.3) * if r.chance(0.4) { 1.0 } else { 0.0 });
                    let e = [x0, y0, q(x0 + width), q(y0 + hh)];
                    p.modify_strip(AARectangle::new(e[0] as fsize, e[1] as fsize, e[2] as fsize, e[3] as fsize));
                    asked = Some(e);
                    hist.push(format!("to {e:?}"));
                }
                _ => {
                    // fitting presumes that the items lie inside the strip
                    let Some((a, b)) = occ else { continue };
                    let sc = w.strip_scene(&old);
                    if !before.items.iter().all(|(_, i, d)| sc.in_container(*i, d)) || b - a < 0.01 * mag {
                        continue;
                    }
                    let res = guarded(|| p.fit_strip());
                    hist.push("fit".into());
                    rec.count("fits", 1);
                    fitting = true;
                    if let Err((loc, msg)) = res {
                        rec.check(false, "fit_strip panics", || format!("{loc}: {msg}; history {hist:?}; items {:?} cfg {:?}", w.items_spec, w.cfg));
                        return;
                    }
                }
            }
        }
        let ctx = || format!("history {hist:?}; strip {:?} before {old:?}; items {:?}; cfg {:?}", ext(&run.p), w.items_spec.iter().map(|i| &i.shape).collect::<Vec<_>>(), w.cfg);
        let now = ext(&run.p);
        if asked.is_none() && !fitting {
            // placing or removing leaves the strip alone
            rec.check(now == old, "strip changed", || format!("{now:?}; {}", ctx()));
        }
        if let Some(e) = asked {
            rec.count("resizes", 1);
            let ok = now.iter().zip(&e).all(|(x, y)| (x - y).abs() <= ds);
            rec.check(ok, "extent", || format!("{now:?}, asked for {e:?}; {}", ctx()));
        }
        if asked.is_some() || fitting {
            let got = read_model(&run.p);
            let l = got.layouts.values().next().unwrap();
            let sc = w.strip_scene(&now);
            for (_, i, d) in &before.items {
                let t = rigid(d);
                let poly = sc.ipoly[*i].moved(&t);
                let v = sc.verdict(&poly, &sc.statics[0], sc.mag(*i, &t).max(mag));
                let kept = l.items.iter().any(|x| x.1 == *i && x.2 == *d);
                match (fitting, v) {
                    (true, _) | (_, V3::No) => {
                        rec.count("items_kept", 1);
                        rec.check(kept, "item lost", || format!("item {i} at {d:?} fits but was dropped; {}", ctx()));
                    }
                    (_, V3::Yes) => {
                        rec.count("items_dropped", 1);
                        rec.check(!kept, "item kept", || format!("item {i} at {d:?} does not fit but was kept; {}", ctx()));
                    }
                    _ => rec.count("unclear", 1),
                }
            }
            let known = l.items.iter().all(|x| before.items.iter().any(|y| x.1 == y.1 && x.2 == y.2)) && l.items.len() <= before.items.len();
            rec.check(known, "items invented", || format!("{:?}; {}", l.items, ctx()));
            run.m = got;
            if fitting {
                let (a, b) = occ.unwrap();
                let slack = (b - a) * if F64 { 1e-6 } else { 1e-3 } + 4.0 * ds;
                rec.check(now[2] - now[0] <= b - a + slack, "fit too wide", || format!("width {} for items in {a}..{b}; {}", now[2] - now[0], ctx()));
                rec.check(now[0] <= a + ds && now[2] >= b - ds, "fit misplaced", || format!("items in {a}..{b}; {}", ctx()));
                rec.check((now[1] - old[1]).abs() <= ds && (now[3] - old[3]).abs() <= ds, "fit changed the height", ctx);
            }
        }
        // what is reported
        let l = run.m.layouts.values().next().unwrap().clone();
        let occ = occupied(&w, &l);
        {
            let Problem::SP(p) = &run.p else { unreachable!() };
            let got = p.occupied_range();
            let ok = match (got, occ) {
                (None, None) => true,
                (Some(g), Some(o)) => (g.0 as f64 - o.0).abs() <= ds && (g.1 as f64 - o.1).abs() <= ds,
                _ => false,
            };
            rec.check(ok, "occupied range", || format!("{got:?}, items in {occ:?}; {}", ctx()));
            let wd = occ.map_or(0.0, |o| o.1 - o.0);
            rec.check((p.occupied_width() as f64 - wd).abs() <= 2.0 * ds, "occupied width", || format!("{}, expected {wd}; {}", p.occupied_width(), ctx()));
            rec.check((p.strip_width() as f64 - (now[2] - now[0])).abs() <= ds, "strip width", || format!("{}; {}", p.strip_width(), ctx()));
            rec.check((p.strip_height() as f64 - (now[3] - now[1])).abs() <= ds, "strip height", || format!("{}; {}", p.strip_height(), ctx()));
        }
        let hs = hist.clone();
        let ctx = move || format!("history {hs:?}");
        check_content(rec, &w, &run.p, &run.m, &ctx);
        check_quantities(rec, &w, &mut run.p, &run.m, &ctx);
        if rec.failed() {
            return;
        }
        if asked.is_some() || fitting {
            check_engines(rec, &mut w, &run.p, &run.m, r, 4, &ctx);
        }
        rec.nontrivial(mix(hash_str(hist.last().unwrap())) ^ mix(hist.len() as u64));
        if rec.failed() {
            return;
        }
    }
    rec.sample(|| json!({"history": hist}));
}
