//! C13/C14: layouts of the reference solver against the input, and their reproducibility.
use crate::c10::{gen_bins, gen_items};
use crate::gen::*;
use crate::geo::*;
use crate::rec::Rec;
use crate::rng::{hash_str, mix, Rng};
use crate::scene::*;
use jagua_rs::collision_detection::hazard::HazardEntity;
use jagua_rs::entities::instances::instance::Instance;
use jagua_rs::entities::instances::instance_generic::InstanceGeneric;
use jagua_rs::entities::problems::problem::Problem;
use jagua_rs::entities::problems::problem_generic::{LayoutIndex, ProblemGeneric};
use jagua_rs::entities::solution::Solution;
use jagua_rs::geometry::geo_traits::Shape;
use jagua_rs::io::json_instance::JsonInstance;
use jagua_rs::io::json_solution::{JsonContainer, JsonSolution};
use jagua_rs::io::parser::{compose_json_solution, Parser};
use jagua_rs::util::config::CDEConfig;
use jagua_rs::util::polygon_simplification::PolySimplConfig;
use lbf::io::svg_util::SvgDrawOptions;
use lbf::lbf_config::LBFConfig;
use lbf::lbf_optimizer::LBFOptimizer;
use rand::rngs::SmallRng;
use rand::SeedableRng;
use serde_json::{json, Value};
use std::f64::consts::PI;
use std::time::Instant;

#[derive(Clone)]
pub struct Job {
    pub json: Value,
    pub items: Vec<ItemSpec>,
    pub bins: Vec<BinSpec>,
    pub height: f64,
    pub config: LBFConfig,
    pub center: bool,
}

/// Height an item needs in its allowed orientations (the largest).
fn needed_height(i: &ItemSpec) -> f64 {
    let h = |deg: f64| {
        let b = bbox(&Rigid { r: deg.to_radians(), t: [0.0, 0.0] }.apply_all(&i.shape));
        b[3] - b[1]
    };
    match &i.orientations {
        None => diameter(&i.shape),
        Some(v) if v.is_empty() => h(0.0),
        Some(v) => v.iter().map(|a| h(*a)).fold(0.0, f64::max),
    }
}

fn pts_of(v: &Value) -> Vec<P2> {
    let mut p: Vec<P2> = v.as_array().unwrap().iter().map(|x| qp([x[0].as_f64().unwrap(), x[1].as_f64().unwrap()])).collect();
    if p.len() > 1 && p[0] == p[p.len() - 1] {
        p.pop();
    }
    p
}
fn shape_of(v: &Value) -> (Vec<P2>, Vec<Vec<P2>>) {
    let d = &v["Data"];
    match v["Type"].as_str().unwrap() {
        "Rectangle" => (rect(0.0, 0.0, q(d["Width"].as_f64().unwrap()), q(d["Height"].as_f64().unwrap())), vec![]),
        "SimplePolygon" => (pts_of(d), vec![]),
        _ => (pts_of(&d["Outer"]), d["Inner"].as_array().map_or(vec![], |a| a.iter().map(pts_of).collect())),
    }
}
/// The description behind an instance file.
pub fn specs_of(v: &Value) -> (Vec<ItemSpec>, Vec<BinSpec>, f64) {
    let items = v["Items"]
        .as_array()
        .unwrap()
        .iter()
        .map(|i| ItemSpec {
            shape: shape_of(&i["Shape"]).0,
            quality: i["BaseQuality"].as_u64().map(|x| x as usize),
            demand: i["Demand"].as_u64().unwrap(),
            orientations: i["AllowedOrientations"].as_array().map(|a| a.iter().map(|x| x.as_f64().unwrap()).collect()),
            value: i["Value"].as_u64(),
            as_rect: false,
        })
        .collect();
    let bins = v["Objects"].as_array().map_or(vec![], |a| {
        a.iter()
            .map(|b| {
                let (outer, holes) = shape_of(&b["Shape"]);
                BinSpec {
                    outer,
                    holes,
                    zones: b["Zones"].as_array().map_or(vec![], |z| z.iter().map(|z| (z["Quality"].as_u64().unwrap() as usize, shape_of(&z["Shape"]).0)).collect()),
                    stock: b["Stock"].as_u64(),
                    cost: b["Cost"].as_u64().unwrap_or(0),
                    as_rect: false,
                }
            })
            .collect()
    });
    (items, bins, q(v["Strip"]["Height"].as_f64().unwrap_or(0.0)))
}

pub const ASSETS: [&str; 11] = ["swim", "shirts", "trousers", "mao", "albano", "baldacci1", "baldacci2", "baldacci3", "baldacci4", "baldacci5", "baldacci6"];

pub fn lbf_config(r: &mut Rng) -> LBFConfig {
    LBFConfig {
        cde_config: CDEConfig {
            quadtree_depth: r.int(1, 6) as u8,
            hpg_n_cells: *r.pick(&[5, 50, 200, 700, 2000]),
            item_surrogate_config: surrogate_cfg(r, false),
        },
        poly_simpl_tolerance: *r.pick(&[None, None, Some(0.001), Some(0.01), Some(0.05)]),
        prng_seed: Some(if r.chance(0.15) { *r.pick(&[0, 1, u64::MAX]) } else { r.next() >> 1 }),
        n_samples: *r.pick(&[10, 40, 100, 250]),
        ls_frac: *r.pick(&[0.0, 0.2, 0.5, 0.8]),
        svg_draw_options: SvgDrawOptions::default(),
    }
}

pub fn gen_job(r: &mut Rng, asset: bool) -> Job {
    let mut config = lbf_config(r);
    if asset {
        config.n_samples = 60;
        config.cde_config.hpg_n_cells = 500;
        config.ls_frac = 0.3;
        let path = format!("/repo/assets/{}.json", r.pick(&ASSETS));
        let json: Value = serde_json::from_str(&std::fs::read_to_string(&path).expect("harness: bundled instance")).expect("harness: json");
        let (items, bins, height) = specs_of(&json);
        return Job { json, items, bins, height, config, center: true };
    }
    let s = scale(r);
    let strip = r.chance(0.45);
    let height = q(s * r.range(0.4, 1.5));
    if strip && (config.n_samples as f32) * (1.0 - config.ls_frac) < 20.0 {
        // too few samples per attempt keep widening the strip for ever
        config.n_samples = 100;
    }
    loop {
        let f = *r.pick(&[0.5, 0.8, 1.0]);
        let mut items = gen_items(r, s * f);
        for i in items.iter_mut() {
            i.demand = r.below(6) as u64;
        }
        if strip {
            items.retain(|i| needed_height(i) < 0.85 * height);
        }
        if items.iter().map(|i| i.demand).sum::<u64>() == 0 {
            continue;
        }
        let mut bins = if strip { vec![] } else { gen_bins(r, s) };
        for b in bins.iter_mut() {
            b.stock = b.stock.map(|x| x.min(4));
        }
        let close = r.chance(0.5);
        let json = if strip { sp_json(&items, height, close) } else { bp_json(&items, &bins, close) };
        return Job { json, items, bins, height, config, center: r.chance(0.7) };
    }
}

impl Job {
    pub fn parser(&self) -> Parser {
        let c = match self.config.poly_simpl_tolerance {
            Some(tolerance) => PolySimplConfig::Enabled { tolerance },
            None => PolySimplConfig::Disabled,
        };
        Parser::new(c, self.config.cde_config, self.center)
    }
    pub fn instance(&self) -> Instance {
        self.parser().parse(&parse_json(&self.json))
    }
    pub fn optimizer(&self, inst: &Instance) -> LBFOptimizer {
        LBFOptimizer::new(inst.clone(), self.config, SmallRng::seed_from_u64(self.config.prng_seed.unwrap()))
    }
    pub fn text(&self) -> String {
        format!("config {} centred {} instance {}", serde_json::to_string(&self.config).unwrap(), self.center, self.json)
    }
}

/// An exported solution is feasible for the input.
pub fn check_feasible(rec: &mut Rec, job: &Job, js: &JsonSolution, reach: f64, ctx: &dyn Fn() -> String) {
    let strip = job.bins.is_empty();
    let mut used = vec![0u64; job.bins.len()];
    let mut placed = vec![0u64; job.items.len()];
    for (k, l) in js.layouts.iter().enumerate() {
        let statics: Vec<Haz> = match l.container {
            JsonContainer::Bin { index } => {
                if !rec.check(index < job.bins.len(), "container", || format!("{index}; {}", ctx())) {
                    return;
                }
                used[index] += 1;
                static_hazards(&job.bins[index])
            }
            JsonContainer::Strip { width, height } => {
                let ok = strip && ((height as f64) - job.height).abs() <= if F64 { 1e-9 } else { 1e-5 } * job.height;
                if !rec.check(ok, "strip", || format!("{width} x {height}; {}", ctx())) {
                    return;
                }
                vec![Haz { ent: HazardEntity::BinExterior, poly: Poly::new(rect(0.0, 0.0, width as f64, job.height)) }]
            }
        };
        let mut polys: Vec<(usize, Poly)> = vec![];
        let mut m = statics.iter().map(|h| max_abs(&h.poly.pts)).fold(reach, f64::max);
        for p in &l.placed_items {
            if !rec.check(p.index < job.items.len(), "item", || format!("{}; {}", p.index, ctx())) {
                return;
            }
            let t = Rigid { r: p.transformation.rotation as f64, t: [p.transformation.translation.0 as f64, p.transformation.translation.1 as f64] };
            let spec = &job.items[p.index];
            placed[p.index] += 1;
            m = m.max(max_abs(&spec.shape)).max(t.t[0].abs()).max(t.t[1].abs());
            polys.push((p.index, Poly::new(t.apply_all(&spec.shape))));
            // only allowed orientations
            let allowed: Option<Vec<f64>> = spec.orientations.as_ref().map(|v| if v.is_empty() { vec![0.0] } else { v.iter().map(|a| a.to_radians()).collect() });
            let ok = allowed.as_ref().map_or(true, |v| {
                v.iter().any(|a| {
                    let d = (a - t.r).rem_euclid(2.0 * PI);
                    d.min(2.0 * PI - d) <= if F64 { 1e-9 } else { 1e-4 }
                })
            });
            rec.check(ok, "orientation", || format!("item {} turned by {} rad, allowed {:?} degrees; {}", p.index, t.r, spec.orientations, ctx()));
            rec.count("placements", 1);
        }
        let (ds, wide) = bands(m);
        // the strip is fitted to its content up to the library's own tolerance
        for (a, (i, p)) in polys.iter().enumerate() {
            for h in &statics {
                if let (HazardEntity::InferiorQualityZone { quality, .. }, Some(q)) = (h.ent, job.items[*i].quality) {
                    if quality >= q {
                        continue;
                    }
                }
                let rel = relate(p, &h.poly, ds, wide);
                let bad = if h.exterior() { matches!(rel, Rel::Cross | Rel::Disjoint | Rel::HinQ | Rel::DeepOutside) } else { matches!(rel, Rel::Cross | Rel::QinH | Rel::HinQ | Rel::DeepOverlap) };
                rec.check(!bad, if h.exterior() { "outside" } else { "forbidden area" }, || format!("layout {k}: item {i} at {:?} against {:?} {:?}: {rel:?}; {}", p.pts, h.ent, h.poly.pts, ctx()));
            }
            for (j, o) in &polys[..a] {
                let rel = relate(p, o, ds, wide);
                let bad = matches!(rel, Rel::Cross | Rel::QinH | Rel::HinQ | Rel::DeepOverlap);
                rec.check(!bad, "overlap", || format!("layout {k}: items {i} at {:?} and {j} at {:?}: {rel:?}; {}", p.pts, o.pts, ctx()));
                rec.count("pairs", 1);
            }
            if rec.failed() {
                return;
            }
        }
    }
    for (i, s) in job.items.iter().enumerate() {
        let ok = if strip { placed[i] == s.demand } else { placed[i] <= s.demand };
        rec.check(ok, "demand", || format!("item {i}: {} placed, demand {}; {}", placed[i], s.demand, ctx()));
    }
    for (b, s) in job.bins.iter().enumerate() {
        rec.check(s.stock.map_or(true, |x| used[b] <= x), "stock", || format!("bin {b}: {} used, stock {:?}; {}", used[b], s.stock, ctx()));
        // plenty of room in an unused one
        if s.stock.map_or(true, |x| used[b] < x) && s.holes.is_empty() && s.zones.is_empty() && s.outer.len() == 4 {
            let bb = bbox(&s.outer);
            let (w, h) = (bb[2] - bb[0], bb[3] - bb[1]);
            let uni = (job.config.n_samples as f64 * (1.0 - job.config.ls_frac as f64)) as usize;
            if (signed_area(&s.outer).abs() - w * h).abs() < 1e-6 * w * h && uni >= 80 {
                for (i, it) in job.items.iter().enumerate() {
                    if diameter(&it.shape) < 0.3 * w.min(h) {
                        rec.count("must_be_placed", 1);
                        rec.check(placed[i] == it.demand, "left out", || format!("item {i}: {} of {} placed although bin {b} has room; {}", placed[i], it.demand, ctx()));
                    }
                }
            }
        }
    }
    let n: u64 = placed.iter().sum();
    let d: u64 = job.items.iter().map(|i| i.demand).sum();
    rec.count(if n == d { "complete_runs" } else { "incomplete_runs" }, 1);
}

pub fn reach(sol: &Solution) -> f64 {
    sol.layout_snapshots
        .iter()
        .flat_map(|l| {
            let b = lib_bbox(&l.bin.bbox());
            b.into_iter()
        })
        .fold(0.0, |a: f64, b| a.max(b.abs()))
}

pub fn run(case: usize, r: &mut Rng, rec: &mut Rec) {
    let asset = case % 25 == 7;
    let job = gen_job(r, asset);
    if std::env::var("DUMPJOB").is_ok() { eprintln!("{}", job.text()); }
    let inst = job.instance();
    let mut opt = job.optimizer(&inst);
    let epoch = Instant::now();
    let sol = opt.solve();
    rec.count(if asset { "bundled_instances" } else if job.bins.is_empty() { "strip_instances" } else { "bin_instances" }, 1);
    let text = || job.text();
    let js = compose_json_solution(&sol, &inst, epoch);
    check_feasible(rec, &job, &js, reach(&sol), &text);
    rec.nontrivial(mix(hash_str(&serde_json::to_string(&js).unwrap())));
    rec.sample(|| json!({"items": job.items.len(), "bins": job.bins.len(), "config": job.config, "solution": js}));
    let count = |s: &Solution| s.layout_snapshots.iter().map(|l| l.placed_items.len()).sum::<usize>();
    rec.check(opt.sample_counter > 0 || count(&sol) == 0, "samples", || text());
    // the reported solution is the state of the problem
    let mut now: usize = opt.problem.layouts().iter().map(|l| l.placed_items().len()).sum();
    rec.check(now == count(&sol), "solution and problem", || format!("{now} items placed, {} in the solution; {}", count(&sol), text()));
    for round in 0..r.int(0, 2) {
        if rec.failed() {
            return;
        }
        let n = r.int(0, 6);
        for _ in 0..n {
            let k = opt.problem.layouts().len();
            if k == 0 {
                break;
            }
            let li = r.below(k);
            let keys: Vec<_> = opt.problem.layouts()[li].placed_items().keys().collect();
            if keys.is_empty() || (job.bins.is_empty() && keys.len() < 2) {
                continue;
            }
            let key = *r.pick(&keys);
            opt.problem.remove_item(LayoutIndex::Real(li), key, r.chance(0.3));
            now -= 1;
        }
        opt.problem.flush_changes();
        let sol2 = opt.solve();
        rec.count("restarts", 1);
        rec.check(count(&sol2) >= now, "restart lost items", || format!("{now} items before, {} after; {}", count(&sol2), text()));
        now = count(&sol2);
        let js2 = compose_json_solution(&sol2, &inst, epoch);
        check_feasible(rec, &job, &js2, reach(&sol2), &|| format!("restart {round}; {}", text()));
    }
}

// ---------------------------------------------------------------- C14

fn push(h: &mut u64, x: u64) {
    *h = mix(*h ^ x).wrapping_add(x);
}
fn bits(x: fsize) -> u64 {
    x.to_bits() as u64
}

/// Everything the parser generates.
pub fn instance_digest(inst: &Instance) -> u64 {
    let mut h = 1;
    let shape = |h: &mut u64, s: &jagua_rs::geometry::primitives::simple_polygon::SimplePolygon| {
        for p in &s.points {
            push(h, bits(p.0));
            push(h, bits(p.1));
        }
        push(h, bits(s.area));
        push(h, bits(s.diameter));
        push(h, bits(s.poi.radius));
        if let Some(g) = &s.surrogate {
            for c in &g.poles {
                push(h, bits(c.center.0));
                push(h, bits(c.center.1));
                push(h, bits(c.radius));
            }
            for e in &g.piers {
                push(h, bits(e.start.0));
                push(h, bits(e.end.1));
            }
            push(h, bits(g.convex_hull_area));
        }
    };
    for (i, n) in inst.items() {
        push(&mut h, i.id as u64);
        push(&mut h, *n as u64);
        shape(&mut h, &i.shape);
    }
    if let Instance::BP(b) = inst {
        for (bin, n) in &b.bins {
            push(&mut h, bin.id as u64);
            push(&mut h, *n as u64);
            shape(&mut h, &bin.outer);
            bin.holes.iter().for_each(|s| shape(&mut h, s));
            for z in bin.quality_zones.iter().flatten() {
                z.zones.iter().for_each(|s| shape(&mut h, s));
            }
            if bin.base_cde.config().hpg_n_cells > 0 {
                if let Ok(g) = bin.base_cde.haz_prox_grid() {
                    for c in g.grid.cells.iter().flatten() {
                        push(&mut h, bits(c.centroid.0));
                        for q in [None, Some(0), Some(5)] {
                            push(&mut h, bits(c.hazard_proximity(q)));
                        }
                    }
                }
            }
            for x in bin.base_cde.all_hazards() {
                push(&mut h, hash_str(&format!("{:?}", x.entity)));
            }
        }
    }
    h
}
/// Layouts placement for placement.
pub fn solution_digest(s: &Solution) -> u64 {
    let mut h = 2;
    for l in &s.layout_snapshots {
        push(&mut h, l.bin.id as u64);
        let b = l.bin.bbox();
        push(&mut h, bits(b.x_min));
        push(&mut h, bits(b.x_max));
        for p in l.placed_items.values() {
            push(&mut h, p.item_id as u64);
            push(&mut h, bits(p.d_transf.rotation()));
            push(&mut h, bits(p.d_transf.translation().0));
            push(&mut h, bits(p.d_transf.translation().1));
        }
    }
    push(&mut h, bits(s.usage));
    h
}
pub fn full_run(job: &Job) -> (u64, u64, usize, String) {
    let inst = job.instance();
    let a = instance_digest(&inst);
    let mut opt = job.optimizer(&inst);
    let epoch = Instant::now();
    let sol = opt.solve();
    // and a second leg from a state with removals
    let mut b = solution_digest(&sol);
    let keys: Vec<_> = opt.problem.layouts().first().map_or(vec![], |l| l.placed_items().keys().collect());
    for k in keys.iter().skip(1).step_by(2) {
        opt.problem.remove_item(LayoutIndex::Real(0), *k, false);
    }
    opt.problem.flush_changes();
    if keys.len() > 1 {
        let s2 = opt.solve();
        push(&mut b, solution_digest(&s2));
    }
    let mut js = serde_json::to_value(compose_json_solution(&sol, &inst, epoch)).unwrap();
    js["RunTimeSec"] = json!(0);
    (a, b, opt.sample_counter, js.to_string())
}
fn c14_job(key: u64) -> Job {
    let mut r = Rng::new(key);
    let asset = r.chance(0.05);
    let mut j = gen_job(&mut r, asset);
    if r.chance(0.04) {
        j.config.cde_config.item_surrogate_config.n_ff_piers = 1;
    }
    j
}
/// Used by the child processes.
pub fn digest_main(key: u64) {
    let (a, b, n, js) = full_run(&c14_job(key));
    println!("DIGEST {a} {b} {n} {}", hash_str(&js));
}

pub fn run_repro(case: usize, r: &mut Rng, rec: &mut Rec) {
    let key = r.next();
    let job = c14_job(key);
    let first = full_run(&job);
    rec.count("runs", 1);
    rec.nontrivial(mix(first.1));
    let text = || job.text();
    let same = |rec: &mut Rec, how: &'static str, got: &(u64, u64, usize, String)| {
        rec.count(how, 1);
        rec.check(got.0 == first.0, "parsed instance", || format!("{how}: the instance differs; {}", text()));
        rec.check(got.1 == first.1 && got.3 == first.3, "solution", || format!("{how}: {} and {}; {}", first.3, got.3, text()));
        rec.check(got.2 == first.2, "samples", || format!("{how}: {} and {} samples; {}", first.2, got.2, text()));
    };
    same(rec, "again", &full_run(&job));
    // in a pool of another size
    let n = *r.pick(&[1, 2, 3, 5, 8, 16]);
    let pool = rayon::ThreadPoolBuilder::new().num_threads(n).build().expect("harness: pool");
    let x = pool.install(|| full_run(&job));
    same(rec, "other_pool", &x);
    // next to other runs
    if case % 2 == 0 {
        let other = c14_job(key ^ 1);
        let (x, y) = std::thread::scope(|s| {
            let h: Vec<_> = (0..2).map(|_| s.spawn(|| full_run(&job))).collect();
            let o = s.spawn(|| full_run(&other));
            let _ = o.join();
            let mut v: Vec<_> = h.into_iter().map(|h| h.join()).collect();
            (v.pop().unwrap(), v.pop().unwrap())
        });
        for z in [x, y] {
            match z {
                Ok(z) => same(rec, "concurrently", &z),
                Err(_) => {
                    rec.check(false, "concurrently", || format!("a concurrent run failed; {}", text()));
                }
            }
        }
    }
    // in another process
    if case % 3 == 0 {
        let out = std::process::Command::new(std::env::current_exe().expect("harness: own path"))
            .arg("--digest")
            .arg(key.to_string())
            .env("RAYON_NUM_THREADS", r.pick(&["1", "2", "4", "7"]))
            .output()
            .expect("harness: child process");
        let o = String::from_utf8_lossy(&out.stdout).to_string();
        let line = o.lines().find(|l| l.starts_with("DIGEST ")).unwrap_or("none").to_string();
        let want = format!("DIGEST {} {} {} {}", first.0, first.1, first.2, hash_str(&first.3));
        rec.count("other_process", 1);
        rec.check(line == want, "other process", || format!("{line:?} instead of {want:?}; {}", text()));
    }
    // the command line tool
    if case % 4 == 1 {
        let dir = crate::c18::Scratch::new();
        let d = dir.0.as_path();
        let write = |f: &str, t: String| std::fs::write(d.join(f), t).expect("harness: file");
        write("x.json", job.json.to_string());
        write("c.json", serde_json::to_string(&job.config).unwrap());
        let mut seen: Vec<Vec<(String, String)>> = vec![];
        for (k, threads) in ["2", "1", "5"].iter().enumerate() {
            let out = format!("out{k}");
            let args = ["-i", "x.json", "-c", "c.json", "-s", out.as_str()].map(std::ffi::OsStr::new);
            let ok = crate::c18::tool_with(&args, d, threads).map_or(false, |o| o.status.success());
            let mut files: Vec<(String, String)> = std::fs::read_dir(d.join(&out)).map_or(vec![], |x| {
                x.filter_map(|e| e.ok())
                    .map(|e| {
                        let t = std::fs::read_to_string(e.path()).unwrap_or_default();
                        let t: Vec<&str> = t.lines().filter(|l| !l.contains("\"RunTimeSec\"")).collect();
                        (e.file_name().to_string_lossy().to_string(), t.join("\n"))
                    })
                    .collect()
            });
            files.sort();
            files.push(("succeeded".into(), ok.to_string()));
            seen.push(files);
        }
        rec.count("tool_runs", 3);
        for s in &seen[1..] {
            rec.check(*s == seen[0], "tool", || {
                let other = s.iter().find(|f| !seen[0].contains(f));
                format!("two runs of the tool differ, e.g. {other:?}; {}", text())
            });
        }
    }
    rec.sample(|| json!({"digest": [first.0, first.1], "samples": first.2, "config": job.config}));
}
