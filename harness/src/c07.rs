//! C07: restoring solutions; C08: conservation of quantities. Histories of problems and their clones.
use crate::problems::*;
use crate::rec::Rec;
use crate::rng::{hash_str, mix, Rng};
use jagua_rs::entities::problems::problem::Problem;
use jagua_rs::entities::problems::problem_generic::ProblemGeneric;
use jagua_rs::entities::solution::Solution;
use serde_json::json;

fn order(p: &Problem) -> Vec<usize> {
    p.layouts().iter().map(|l| l.id()).collect()
}

fn history(r: &mut Rng, rec: &mut Rec, engines: bool) {
    let strip = r.chance(0.35);
    let hpg = r.chance(0.3);
    let mut w = if strip { World::strip(r, hpg) } else { World::bins(r, hpg) };
    rec.count(if strip { "strip_histories" } else { "bin_histories" }, 1);
    let mut runs = vec![Run::new(&w, r, 0)];
    let mut sols: Vec<(Solution, Model)> = vec![];
    let mut hist: Vec<String> = vec![];
    let mut fresh_id = 1_000_000usize;
    let steps = if w.big { r.int(50, 140) } else { r.int(5, 34) };
    if w.big {
        rec.count("long_histories", 1);
    }
    for _ in 0..steps {
        let ri = r.below(runs.len());
        let op = r.below(20);
        let mut restored = false;
        let run = &mut runs[ri];
        let done = if op < 7 {
            run.place(&w, rec, r, 0.3)
        } else if op < 11 {
            run.remove(rec, r)
        } else if op == 11 {
            match strip {
                false => run.layout_op(&w, rec, r, &mut fresh_id),
                true => {
                    let width = crate::gen::q(w.s * r.range(0.5, 2.5)) as crate::gen::fsize;
                    let Problem::SP(p) = &mut run.p else { unreachable!() };
                    match r.below(2) {
                        0 => p.modify_strip_in_back(width),
                        _ => p.modify_strip_at_front(width),
                    }
                    // which items are kept is the business of C09
                    let old = run.m.clone();
                    run.m = read_model(&run.p);
                    let (o, n) = (old.layouts.values().next().unwrap(), run.m.layouts.values().next().unwrap());
                    rec.check(n.items.iter().all(|x| o.items.iter().any(|y| x.1 == y.1 && x.2 == y.2)), "resize invented items", || format!("{hist:?}"));
                    Some(format!("resize strip to {width}"))
                }
            }
        } else if op < 15 {
            let base = run.reference.filter(|_| r.chance(0.6));
            let s = run.p.create_solution(base.map(|k| &sols[k].0));
            run.reference = Some(sols.len());
            let (got, want) = (s.layout_snapshots.iter().map(|l| l.id).collect::<Vec<_>>(), order(&run.p));
            rec.check(got == want, "order of layouts", || format!("solution has layouts {got:?}, the problem {want:?}; history {hist:?}"));
            sols.push((s, run.m.clone()));
            rec.count(if base.is_some() { "solutions_with_base" } else { "solutions" }, 1);
            Some(format!("create solution {} based on {base:?}", sols.len() - 1))
        } else if op < 18 {
            if sols.is_empty() {
                None
            } else {
                // often the one the incremental bookkeeping refers to
                let k = match run.reference {
                    Some(k) if r.chance(0.5) => k,
                    _ => r.below(sols.len()),
                };
                run.p.restore_to_solution(&sols[k].0);
                // indices of layouts mean the same as when the solution was taken
                let (got, want) = (order(&run.p), sols[k].0.layout_snapshots.iter().map(|l| l.id).collect::<Vec<_>>());
                rec.check(got == want, "order of layouts", || format!("layouts {got:?} after restoring a solution with {want:?}; history {hist:?}"));
                rec.count(if run.reference == Some(k) { "restores_of_the_reference" } else { "restores_of_others" }, 1);
                run.reference = Some(k);
                run.m = sols[k].1.clone();
                restored = true;
                Some(format!("restore solution {k}"))
            }
        } else if op == 18 {
            if runs.len() < 3 {
                let fresh = r.chance(0.4);
                let name = runs.len();
                let src = &runs[ri];
                let new = if fresh {
                    Run::new(&w, r, name)
                } else {
                    Run { p: src.p.clone(), m: src.m.clone(), reference: src.reference, gone: src.gone.clone(), name }
                };
                runs.push(new);
                rec.count("problems_cloned", 1);
                Some(format!("{} problem {name}", if fresh { "new" } else { "clone as" }))
            } else {
                None
            }
        } else {
            run.p.flush_changes();
            Some("flush".to_string())
        };
        let Some(done) = done else { continue };
        hist.push(format!("[{ri}] {done}"));
        rec.count("operations", 1);
        let ctx = || format!("history {hist:?}; bins {:?} items {:?}", w.bins, w.items_spec);
        // every problem: the one that changed and those that did not
        for run in runs.iter_mut() {
            if !check_content(rec, &w, &run.p, &run.m, &ctx) {
                return;
            }
            check_quantities(rec, &w, &mut run.p, &run.m, &ctx);
        }
        for (k, (s, m)) in sols.iter().enumerate() {
            let latest = k + 1 == sols.len();
            if latest || restored || k == hist.len() % sols.len() {
                check_solution(rec, &w, s, m, true, &|| format!("solution {k}; {}", ctx()));
            }
        }
        if rec.failed() {
            return;
        }
        if engines && (restored || r.chance(0.1)) {
            let hs = hist.clone();
            let ctx = move || format!("history {hs:?}");
            check_engines(rec, &mut w, &runs[ri].p, &runs[ri].m, r, 4, &ctx);
        }
        rec.nontrivial(mix(hash_str(&done)) ^ mix(hist.len() as u64));
        if rec.failed() {
            return;
        }
    }
    rec.sample(|| json!({"kind": if strip {"strip packing"} else {"bin packing"}, "history": hist}));
}

pub fn run(_case: usize, r: &mut Rng, rec: &mut Rec) {
    history(r, rec, true)
}
pub fn run_quantities(_case: usize, r: &mut Rng, rec: &mut Rec) {
    history(r, rec, false)
}
