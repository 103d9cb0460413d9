//! C18: files written by the command line tool.
use crate::c10::same_cycle;
use crate::c12::{check_export, Input};
use crate::c13::{check_feasible, gen_job, reach, Job};
use crate::gen::*;
use crate::geo::*;
use crate::rec::Rec;
use crate::rng::{hash_str, mix, Rng};
use crate::scene::*;
use jagua_rs::entities::instances::instance::Instance;
use jagua_rs::entities::instances::instance_generic::InstanceGeneric;
use jagua_rs::io::json_instance::JsonInstance;
use jagua_rs::io::json_solution::{JsonContainer, JsonLayout, JsonSolution};
use jagua_rs::io::parser::compose_json_solution;
use lbf::io::json_output::JsonOutput;
use lbf::io::svg_util::SvgLayoutTheme;
use lbf::lbf_config::LBFConfig;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Command, Output, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- drawings

#[derive(Debug, Clone, Default)]
pub struct Node {
    pub name: String,
    pub attrs: BTreeMap<String, String>,
    pub kids: Vec<Node>,
}
fn unescape(s: &str) -> String {
    s.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", "\"").replace("&apos;", "'").replace("&amp;", "&")
}
/// Enough XML for a drawing: elements and attributes.
pub fn parse_xml(s: &str) -> Result<Node, String> {
    let mut stack = vec![Node::default()];
    let mut rest = s;
    while let Some(a) = rest.find('<') {
        rest = &rest[a..];
        if rest.starts_with("<!--") {
            rest = &rest[rest.find("-->").ok_or("open comment")? + 3..];
            continue;
        }
        // end of the tag, outside quotes
        let mut quote = None;
        let mut end = None;
        for (i, c) in rest.char_indices() {
            match (quote, c) {
                (None, '"') | (None, '\'') => quote = Some(c),
                (Some(q), c) if q == c => quote = None,
                (None, '>') => {
                    end = Some(i);
                    break;
                }
                _ => {}
            }
        }
        let end = end.ok_or("open tag")?;
        let tag = &rest[1..end];
        rest = &rest[end + 1..];
        if tag.starts_with('?') || tag.starts_with('!') {
            continue;
        }
        if let Some(n) = tag.strip_prefix('/') {
            let node = stack.pop().ok_or("too many closing tags")?;
            if node.name != n.trim() {
                return Err(format!("<{}> closed by </{n}>", node.name));
            }
            stack.last_mut().ok_or("too many closing tags")?.kids.push(node);
            continue;
        }
        let (tag, empty) = match tag.strip_suffix('/') {
            Some(t) => (t, true),
            None => (tag, false),
        };
        let name = tag.split_whitespace().next().ok_or("empty tag")?;
        let mut node = Node { name: name.into(), ..Default::default() };
        let mut t = tag[name.len()..].trim_start();
        while !t.is_empty() {
            let e = t.find('=').ok_or("attribute without value")?;
            let k = t[..e].trim();
            t = t[e + 1..].trim_start();
            let c = t.chars().next().ok_or("attribute without value")?;
            let z = t[1..].find(c).ok_or("open attribute")?;
            node.attrs.insert(k.into(), unescape(&t[1..1 + z]));
            t = t[z + 2..].trim_start();
        }
        if empty {
            stack.last_mut().unwrap().kids.push(node);
        } else {
            stack.push(node);
        }
    }
    if stack.len() != 1 {
        return Err("elements left open".into());
    }
    stack.pop().unwrap().kids.into_iter().find(|n| n.name == "svg").ok_or("no svg element".into())
}
fn numbers(s: &str) -> Result<Vec<f64>, String> {
    s.split(|c: char| c.is_whitespace() || c == ',').filter(|x| !x.is_empty()).map(|x| x.parse().map_err(|_| format!("number {x:?}"))).collect()
}
/// Affine map: x' = a x + c y + e, y' = b x + d y + f.
type Aff = [f64; 6];
const ID: Aff = [1.0, 0.0, 0.0, 1.0, 0.0, 0.0];
fn mul(m: &Aff, n: &Aff) -> Aff {
    [
        m[0] * n[0] + m[2] * n[1],
        m[1] * n[0] + m[3] * n[1],
        m[0] * n[2] + m[2] * n[3],
        m[1] * n[2] + m[3] * n[3],
        m[0] * n[4] + m[2] * n[5] + m[4],
        m[1] * n[4] + m[3] * n[5] + m[5],
    ]
}
fn app(m: &Aff, p: P2) -> P2 {
    [m[0] * p[0] + m[2] * p[1] + m[4], m[1] * p[0] + m[3] * p[1] + m[5]]
}
/// The transform attribute of SVG.
fn parse_transform(s: &str) -> Result<Aff, String> {
    let mut m = ID;
    let mut rest = s.trim();
    while !rest.is_empty() {
        let o = rest.find('(').ok_or(format!("transform {s:?}"))?;
        let c = rest.find(')').ok_or(format!("transform {s:?}"))?;
        let f = rest[..o].trim_matches(|c: char| c.is_whitespace() || c == ',');
        let a = numbers(&rest[o + 1..c])?;
        let t = match (f, a.len()) {
            ("translate", 1) => [1.0, 0.0, 0.0, 1.0, a[0], 0.0],
            ("translate", 2) => [1.0, 0.0, 0.0, 1.0, a[0], a[1]],
            ("scale", 1) => [a[0], 0.0, 0.0, a[0], 0.0, 0.0],
            ("scale", 2) => [a[0], 0.0, 0.0, a[1], 0.0, 0.0],
            ("matrix", 6) => [a[0], a[1], a[2], a[3], a[4], a[5]],
            ("rotate", 1) | ("rotate", 3) => {
                let (s, c) = a[0].to_radians().sin_cos();
                let r = [c, s, -s, c, 0.0, 0.0];
                if a.len() == 3 {
                    mul(&mul(&[1.0, 0.0, 0.0, 1.0, a[1], a[2]], &r), &[1.0, 0.0, 0.0, 1.0, -a[1], -a[2]])
                } else {
                    r
                }
            }
            _ => return Err(format!("transform {s:?}")),
        };
        m = mul(&m, &t);
        rest = rest[c + 1..].trim_matches(|c: char| c.is_whitespace() || c == ',');
    }
    Ok(m)
}
/// The closed polylines of a path (absolute M, L and Z, as drawings use them).
fn parse_path(d: &str) -> Result<Vec<(Vec<P2>, bool)>, String> {
    let mut toks: Vec<String> = vec![];
    let mut cur = String::new();
    for c in d.chars() {
        if c.is_ascii_alphabetic() && c != 'e' && c != 'E' {
            toks.push(std::mem::take(&mut cur));
            toks.push(c.to_string());
        } else if c.is_whitespace() || c == ',' {
            toks.push(std::mem::take(&mut cur));
        } else {
            cur.push(c);
        }
    }
    toks.push(cur);
    let toks: Vec<String> = toks.into_iter().filter(|t| !t.is_empty()).collect();
    let mut out: Vec<(Vec<P2>, bool)> = vec![];
    let mut i = 0;
    let mut cmd = ' ';
    while i < toks.len() {
        let t = &toks[i];
        if t.len() == 1 && t.chars().all(|c| c.is_ascii_alphabetic()) {
            cmd = t.chars().next().unwrap();
            i += 1;
            match cmd {
                'z' | 'Z' => out.last_mut().ok_or("close before move")?.1 = true,
                'M' | 'L' => {
                    if cmd == 'M' {
                        out.push((vec![], false));
                    }
                }
                c => return Err(format!("path command {c}")),
            }
            continue;
        }
        if !matches!(cmd, 'M' | 'L') || i + 1 >= toks.len() {
            return Err(format!("path {d:?}"));
        }
        let p = [t.parse().map_err(|_| format!("number {t:?}"))?, toks[i + 1].parse().map_err(|_| format!("number {:?}", toks[i + 1]))?];
        out.last_mut().ok_or("line before move")?.0.push(p);
        i += 2;
    }
    Ok(out)
}

/// Everything visible, in drawing order, in the coordinates of the document.
#[derive(Default, Debug)]
struct Seen {
    polys: Vec<Vec<P2>>,
    circles: Vec<(P2, f64)>,
    segs: Vec<(P2, P2)>,
}
fn ids<'a>(n: &'a Node, out: &mut BTreeMap<String, &'a Node>) -> Result<(), String> {
    if let Some(i) = n.attrs.get("id") {
        if out.insert(i.clone(), n).is_some() {
            return Err(format!("id {i} used twice"));
        }
    }
    n.kids.iter().try_for_each(|k| ids(k, out))
}
fn show(n: &Node, m: &Aff, defs: &BTreeMap<String, &Node>, skip: &[&str], seen: &mut Seen, depth: usize) -> Result<(), String> {
    if depth > 20 {
        return Err("nested too deeply".into());
    }
    if n.name == "defs" || n.attrs.get("id").map_or(false, |i| skip.contains(&i.as_str())) {
        return Ok(());
    }
    let mut m = match n.attrs.get("transform") {
        Some(t) => mul(m, &parse_transform(t)?),
        None => *m,
    };
    match n.name.as_str() {
        "path" => {
            for (p, closed) in parse_path(n.attrs.get("d").ok_or("path without data")?)? {
                let p: Vec<P2> = p.iter().map(|x| app(&m, *x)).collect();
                if closed {
                    seen.polys.push(p);
                } else if p.len() == 2 {
                    seen.segs.push((p[0], p[1]));
                } else {
                    return Err(format!("open path of {} points", p.len()));
                }
            }
        }
        "circle" => {
            let g = |k: &str| n.attrs.get(k).and_then(|x| x.parse::<f64>().ok()).ok_or(format!("circle without {k}"));
            seen.circles.push((app(&m, [g("cx")?, g("cy")?]), g("r")?));
        }
        "use" => {
            let h = n.attrs.get("xlink:href").or(n.attrs.get("href")).ok_or("use without reference")?;
            let t = defs.get(h.trim_start_matches('#')).ok_or(format!("{h} is not defined"))?;
            let g = |k: &str| n.attrs.get(k).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
            m = mul(&m, &[1.0, 0.0, 0.0, 1.0, g("x"), g("y")]);
            show(t, &m, defs, skip, seen, depth + 1)?;
        }
        _ => {
            for k in &n.kids {
                show(k, &m, defs, skip, seen, depth + 1)?;
            }
        }
    }
    Ok(())
}

/// Shapes of the (possibly simplified) instance in the coordinates of the input.
struct Shapes {
    items: Vec<Vec<P2>>,
    bins: Vec<(Vec<P2>, Vec<Vec<P2>>, Vec<Vec<P2>>)>,
}
fn back(sp: &jagua_rs::geometry::primitives::simple_polygon::SimplePolygon, pre: &jagua_rs::geometry::transformation::Transformation) -> Vec<P2> {
    let t = pre.decompose();
    let (r, t) = (t.rotation() as f64, t.translation());
    let (s, c) = (-r).sin_cos();
    lib_pts(sp)
        .iter()
        .map(|p| {
            let (x, y) = (p[0] - t.0 as f64, p[1] - t.1 as f64);
            [c * x - s * y, s * x + c * y]
        })
        .collect()
}
fn shapes(job: &Job, inst: &Instance) -> Shapes {
    if job.config.poly_simpl_tolerance.is_none() {
        return Shapes {
            items: job.items.iter().map(|i| i.shape.clone()).collect(),
            bins: job.bins.iter().map(|b| (b.outer.clone(), b.holes.clone(), b.zones.iter().map(|z| z.1.clone()).collect())).collect(),
        };
    }
    Shapes {
        items: inst.items().iter().map(|(i, _)| back(&i.shape, &i.pretransform)).collect(),
        bins: match inst {
            Instance::SP(_) => vec![],
            Instance::BP(b) => b
                .bins
                .iter()
                .map(|(b, _)| {
                    let z = b.quality_zones.iter().flatten().flat_map(|z| z.zones.iter()).map(|z| back(z, &b.pretransform)).collect();
                    (back(&b.outer, &b.pretransform), b.holes.iter().map(|h| back(h, &b.pretransform)).collect(), z)
                })
                .collect(),
        },
    }
}

/// Drawings hold single precision coordinates in every build.
fn draw_tol(m: f64) -> f64 {
    bands(m).0.max(4e-5 * m)
}

fn check_drawing(rec: &mut Rec, job: &Job, sh: &Shapes, l: &JsonLayout, svg: &str, ctx: &dyn Fn() -> String) {
    let doc = match parse_xml(svg) {
        Ok(d) => d,
        Err(e) => {
            rec.check(false, "drawing", || format!("{e}; {}", ctx()));
            return;
        }
    };
    let mut defs = BTreeMap::new();
    let mut seen = Seen::default();
    let mut over = Seen::default();
    let r = ids(&doc, &mut defs).and_then(|_| show(&doc, &ID, &defs, &["optionals"], &mut seen, 0)).and_then(|_| match defs.get("surrogates") {
        Some(n) => show(n, &ID, &defs, &[], &mut over, 0),
        None => Ok(()),
    });
    if let Err(e) = r {
        rec.check(false, "drawing", || format!("{e}; {}", ctx()));
        return;
    }
    rec.count("drawings", 1);
    // what should be there
    let (outer, holes, zones) = match l.container {
        JsonContainer::Bin { index } => match sh.bins.get(index) {
            Some(b) => b.clone(),
            None => return,
        },
        JsonContainer::Strip { width, height } => (rect(0.0, 0.0, width as f64, height as f64), vec![], vec![]),
    };
    let mut want: Vec<(&str, Vec<P2>, f64)> = vec![];
    let m0 = max_abs(&outer).max(reach_of(&outer));
    want.push(("container", outer.clone(), m0));
    want.extend(holes.iter().map(|h| ("hole", h.clone(), m0)));
    want.extend(zones.iter().map(|h| ("zone", h.clone(), m0)));
    rec.count("drawn_holes", holes.len() as u64);
    rec.count("drawn_zones", zones.len() as u64);
    let first_item = want.len();
    for p in &l.placed_items {
        let t = Rigid { r: p.transformation.rotation as f64, t: [p.transformation.translation.0 as f64, p.transformation.translation.1 as f64] };
        let Some(s) = sh.items.get(p.index) else { return };
        let m = m0.max(max_abs(s)).max(t.t[0].abs()).max(t.t[1].abs());
        want.push(("item", t.apply_all(s), m));
    }
    rec.count("drawn_items", l.placed_items.len() as u64);
    let mut free: Vec<usize> = (0..seen.polys.len()).collect();
    let mut order = vec![];
    for (what, p, m) in &want {
        let ds = draw_tol(*m);
        match free.iter().position(|k| same_cycle(&seen.polys[*k], p, 3.0 * ds)) {
            Some(k) => order.push(free.remove(k)),
            None => {
                rec.check(false, &format!("{what} not drawn"), || format!("{what} {p:?} is not among {:?}; {}", seen.polys, ctx()));
                return;
            }
        }
    }
    rec.check(free.is_empty(), "drawn too much", || format!("{:?} drawn without reason; {}", free.iter().map(|k| &seen.polys[*k]).collect::<Vec<_>>(), ctx()));
    rec.check(seen.circles.is_empty() && seen.segs.is_empty(), "drawn too much", || format!("{:?} {:?}; {}", seen.circles, seen.segs, ctx()));
    // nothing is painted over by the container
    rec.check(order[1..].iter().all(|k| *k > order[0]), "painted over", || format!("{order:?} (items from {first_item}); {}", ctx()));
    // the visible part holds the whole container
    match doc.attrs.get("viewBox").map(|v| numbers(v)) {
        Some(Ok(v)) if v.len() == 4 => {
            let b = bbox(&outer);
            let ds = draw_tol(m0);
            let ok = v[0] <= b[0] + ds && v[1] <= b[1] + ds && v[0] + v[2] >= b[2] - ds && v[1] + v[3] >= b[3] - ds;
            rec.check(ok, "view box", || format!("{v:?} does not show {b:?}; {}", ctx()));
            let ok = v[2] <= 3.0 * (b[2] - b[0]) + ds && v[3] <= 3.0 * (b[3] - b[1]) + ds;
            rec.check(ok, "view box", || format!("{v:?} for {b:?}; {}", ctx()));
        }
        x => {
            rec.check(false, "view box", || format!("{x:?}; {}", ctx()));
        }
    }
    // surrogates lie on the items they belong to
    let o = &job.config.svg_draw_options;
    if o.surrogate {
        let items: Vec<Poly> = want[first_item..].iter().map(|(_, p, _)| Poly::new(p.clone())).collect();
        rec.check(items.is_empty() || !over.circles.is_empty(), "surrogates", || format!("none drawn; {}", ctx()));
        for (c, rad) in &over.circles {
            let m = want.iter().map(|w| w.2).fold(0.0, f64::max);
            let (ds, wide) = (draw_tol(m), bands(m).1);
            let ok = items.iter().any(|p| depth(*c, &p.pts) >= rad * (1.0 - 1e-3) - 4.0 * ds - wide);
            rec.check(ok, "surrogates", || format!("circle {c:?} {rad} lies in no item; {}", ctx()));
            rec.count("drawn_surrogates", 1);
        }
    }
    for (on, id) in [(o.surrogate, "surrogates"), (o.quadtree, "quadtree"), (o.haz_prox_grid, "haz_prox_grid")] {
        rec.check(defs.contains_key(id) == on, "optional layers", || format!("{id} asked {on}; {}", ctx()));
    }
    rec.nontrivial(mix(hash_str(svg)));
}
fn reach_of(p: &[P2]) -> f64 {
    let b = bbox(p);
    (b[2] - b[0]).max(b[3] - b[1])
}

// ---------------------------------------------------------------- running the tool

static NEXT: AtomicUsize = AtomicUsize::new(0);
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        let base = std::env::var("MONITOR_SCRATCH").expect("harness: MONITOR_SCRATCH");
        let p = Path::new(&base).join(format!("c18-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::SeqCst)));
        fs::create_dir_all(&p).expect("harness: scratch");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

pub fn tool(args: &[&std::ffi::OsStr], cwd: &Path) -> Option<Output> {
    tool_with(args, cwd, "2")
}
pub fn tool_with(args: &[&std::ffi::OsStr], cwd: &Path, threads: &str) -> Option<Output> {
    let exe = std::env::var("MONITOR_CLI").expect("harness: MONITOR_CLI");
    let log = cwd.join(".stdout");
    let err = cwd.join(".stderr");
    let mut c = Command::new(exe)
        .args(args)
        .current_dir(cwd)
        .env("RAYON_NUM_THREADS", threads)
        .env_remove("RUST_BACKTRACE")
        .stdin(Stdio::null())
        .stdout(fs::File::create(&log).expect("harness: log"))
        .stderr(fs::File::create(&err).expect("harness: log"))
        .spawn()
        .expect("harness: the tool");
    let t = Instant::now();
    let status = loop {
        match c.try_wait().expect("harness: wait") {
            Some(s) => break s,
            None if t.elapsed() > Duration::from_secs(180) => {
                let _ = c.kill();
                let _ = c.wait();
                return None;
            }
            None => std::thread::sleep(Duration::from_millis(3)),
        }
    };
    let o = Output { status, stdout: fs::read(&log).unwrap_or_default(), stderr: fs::read(&err).unwrap_or_default() };
    let _ = fs::remove_file(&log);
    let _ = fs::remove_file(&err);
    Some(o)
}
fn said(o: &Output) -> String {
    let s = |b: &[u8]| {
        let t = String::from_utf8_lossy(b).to_string();
        t.chars().rev().take(600).collect::<Vec<_>>().into_iter().rev().collect::<String>()
    };
    format!("exit {:?}, stdout {:?}, stderr {:?}", o.status.code(), s(&o.stdout), s(&o.stderr))
}
fn files(p: &Path) -> Vec<String> {
    let mut v: Vec<String> = fs::read_dir(p).map_or(vec![], |d| d.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().to_string()).collect());
    v.sort();
    v
}

const REL: f64 = if F64 { 1e-14 } else { 1.2e-7 };
/// Same JSON up to absent/null/empty entries and the precision of the numbers.
fn same_json(a: &Value, b: &Value, path: &str, rel: f64) -> Result<(), String> {
    let void = |v: &Value| v.is_null() || v.as_array().map_or(false, |a| a.is_empty());
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for k in x.keys().chain(y.keys()) {
                let n = Value::Null;
                let (p, q) = (x.get(k).unwrap_or(&n), y.get(k).unwrap_or(&n));
                if (p.is_null() && void(q) || q.is_null() && void(p)) && k != "AllowedOrientations" {
                    continue;
                }
                same_json(p, q, &format!("{path}.{k}"), rel)?;
            }
            Ok(())
        }
        (Value::Array(x), Value::Array(y)) => {
            if x.len() != y.len() {
                return Err(format!("{path}: {} and {} entries", x.len(), y.len()));
            }
            x.iter().zip(y).enumerate().try_for_each(|(i, (p, q))| same_json(p, q, &format!("{path}[{i}]"), rel))
        }
        (Value::Number(x), Value::Number(y)) => {
            let (x, y) = (x.as_f64().unwrap(), y.as_f64().unwrap());
            let tol = rel * x.abs().max(y.abs());
            if (x - y).abs() <= tol {
                Ok(())
            } else {
                Err(format!("{path}: {x} and {y}"))
            }
        }
        _ if a == b => Ok(()),
        _ => Err(format!("{path}: {a} and {b}")),
    }
}
/// The entries of an instance file that mean something.
fn known_part(v: &Value) -> Value {
    let mut v = v.clone();
    let keep = |o: &mut Value, ks: &[&str]| {
        if let Some(m) = o.as_object_mut() {
            m.retain(|k, _| ks.contains(&k.as_str()));
        }
    };
    keep(&mut v, &["Name", "Items", "Objects", "Strip"]);
    if let Some(a) = v["Items"].as_array_mut() {
        a.iter_mut().for_each(|i| keep(i, &["Demand", "AllowedOrientations", "Shape", "Value", "BaseQuality"]));
    }
    if let Some(a) = v.get_mut("Objects").and_then(|o| o.as_array_mut()) {
        a.iter_mut().for_each(|b| keep(b, &["Cost", "Stock", "Shape", "Zones"]));
    }
    if let Some(s) = v.get_mut("Strip") {
        keep(s, &["Height"]);
    }
    v
}

pub fn run(case: usize, r: &mut Rng, rec: &mut Rec) {
    if case % 6 == 5 {
        return unusable(case / 6, r, rec);
    }
    let asset = case % 40 == 7;
    let mut job = gen_job(r, asset);
    job.center = true;
    if !asset {
        let mut any = false;
        for (k, i) in job.items.iter_mut().enumerate() {
            if r.chance(0.1) {
                // above every quality there is
                i.quality = Some(r.int(10, 14) as usize);
                job.json["Items"][k]["BaseQuality"] = json!(i.quality);
                any = true;
            }
        }
        if any {
            rec.count("beyond_the_qualities", 1);
        }
    }
    let mut default_config = false;
    if r.chance(0.06) && !asset && job.items.iter().map(|i| i.demand).sum::<u64>() < 12 {
        job.config = LBFConfig::default();
        default_config = true;
        rec.count("default_configuration", 1);
    } else {
        let o = &mut job.config.svg_draw_options;
        o.surrogate = r.chance(0.3);
        o.quadtree = r.chance(0.2);
        o.haz_prox_grid = r.chance(0.15);
        if r.chance(0.3) {
            o.theme = SvgLayoutTheme::gray();
        }
    }
    let random_seed = !default_config && r.chance(0.1);
    if random_seed {
        job.config.prng_seed = None;
    }
    let dir = Scratch::new();
    let d = dir.0.as_path();
    let stem = *r.pick(&["instance", "a b", "v1.2", "größe", "sol_x", "x.json", "_"]);
    let sub = *r.pick(&["", "in", "deep/er"]);
    fs::create_dir_all(d.join(sub)).expect("harness: folder");
    let input = d.join(sub).join(format!("{stem}{}", r.pick(&[".json", ".JSON", ".txt", ".json"])));
    let stem = input.file_stem().unwrap().to_str().unwrap().to_string();
    job.json["Name"] = json!(*r.pick(&["gen", "", "a \"quoted\" name \\ <&>", "größe"]));
    let written = if r.chance(0.5) { job.json.to_string() } else { serde_json::to_string_pretty(&job.json).unwrap() };
    fs::write(&input, &written).expect("harness: input");
    let out_dir = d.join(*r.pick(&["out", "out", "a/b/c", "in"]));
    let before = files(&out_dir);
    let cfg_file = d.join("config.json");
    let mut args: Vec<std::ffi::OsString> = vec!["-i".into(), input.clone().into(), "-s".into(), out_dir.clone().into()];
    if r.chance(0.3) {
        args[0] = "--input-file".into();
        args[2] = "--solution-folder".into();
    }
    if !default_config {
        let mut c = serde_json::to_value(job.config).unwrap();
        let o = job.config.svg_draw_options;
        if o == Default::default() && r.chance(0.5) {
            c.as_object_mut().unwrap().remove("svg_draw_options");
        } else if o.theme == SvgLayoutTheme::default() && r.chance(0.5) {
            c["svg_draw_options"].as_object_mut().unwrap().remove("theme");
        }
        fs::write(&cfg_file, c.to_string()).expect("harness: configuration");
        args.push(if r.chance(0.5) { "-c" } else { "--config-file" }.into());
        args.push(cfg_file.clone().into());
    }
    if r.chance(0.4) {
        args.push("-l".into());
        args.push((*r.pick(&["off", "error", "debug", "trace"])).into());
    }
    // leftovers of an earlier run with the same name are replaced
    let leftover = r.chance(0.3);
    if leftover {
        fs::create_dir_all(&out_dir).expect("harness: folder");
        fs::write(out_dir.join(format!("sol_{stem}.json")), "{\"old\": 1}".repeat(40_000)).expect("harness: leftover");
        fs::write(out_dir.join(format!("sol_{stem}_0.svg")), "<svg></svg>".repeat(40_000)).expect("harness: leftover");
        rec.count("leftovers", 1);
    }
    let t = Instant::now();
    let refs: Vec<&std::ffi::OsStr> = args.iter().map(|a| a.as_os_str()).collect();
    let text = job.text();
    let Some(o) = tool(&refs, d) else {
        rec.check(false, "the tool did not end", || format!("{args:?}; {text}"));
        return;
    };
    let wall = t.elapsed();
    rec.count("runs", 1);
    let ctx = || format!("{args:?}: {}; {text}", said(&o));
    if !rec.check(o.status.success(), "failed run", || ctx()) {
        return;
    }
    rec.check(fs::read_to_string(&input).ok().as_ref() == Some(&written), "input file changed", || ctx());
    let sol_file = out_dir.join(format!("sol_{stem}.json"));
    let Ok(content) = fs::read_to_string(&sol_file) else {
        rec.check(false, "no solution file", || format!("{:?} holds {:?}; {}", out_dir, files(&out_dir), ctx()));
        return;
    };
    let (val, out): (Value, JsonOutput) = match (serde_json::from_str(&content), serde_json::from_str(&content)) {
        (Ok(v), Ok(o)) => (v, o),
        (v, w) => {
            rec.check(false, "unreadable solution file", || format!("{:?} {:?}; {content:?}; {}", v.err(), w.err(), ctx()));
            return;
        }
    };
    // the input instance, unchanged
    let e = same_json(&known_part(&job.json), &known_part(&val), "", REL);
    rec.check(e.is_ok(), "instance in the solution file", || format!("{e:?}; {}", ctx()));
    // the configuration
    let c = serde_json::to_value(out.config).unwrap();
    let want = serde_json::to_value(job.config).unwrap();
    let e = same_json(&want, &c, "", 1.2e-7).and_then(|_| same_json(&want, &val["Config"], "", 1.2e-7));
    rec.check(e.is_ok(), "configuration in the solution file", || format!("{e:?}; {}", ctx()));
    // files
    let mut expect: Vec<String> = before.clone();
    expect.push(format!("sol_{stem}.json"));
    expect.extend((0..out.solution.layouts.len()).map(|i| format!("sol_{stem}_{i}.svg")));
    if leftover {
        expect.push(format!("sol_{stem}_0.svg"));
    }
    expect.sort();
    expect.dedup();
    let got = files(&out_dir);
    rec.check(got == expect, "files", || format!("{got:?}, expected {expect:?}; {}", ctx()));
    rec.check(out.solution.run_time_sec <= wall.as_secs() + 2, "run time", || format!("{} s of {wall:?}; {}", out.solution.run_time_sec, ctx()));
    // read back
    let ji: JsonInstance = match serde_json::from_str(&content) {
        Ok(j) => j,
        Err(e) => {
            rec.check(false, "unreadable as an instance", || format!("{e}; {}", ctx()));
            return;
        }
    };
    if out.solution.layouts.is_empty() {
        rec.count("runs_without_layouts", 1);
    }
    let (inst, sol) = job.parser().parse_and_build_solution(&ji, &out.solution.layouts);
    check_feasible(rec, &job, &out.solution, reach(&sol), &ctx);
    let inp = Input { items: job.items.clone(), bins: job.bins.clone(), height: job.height, simpl: job.config.poly_simpl_tolerance.is_some() };
    check_export(rec, &inp, &inst, &sol, &out.solution, &ctx);
    if rec.failed() {
        return;
    }
    // the same computation in this process
    if !random_seed {
        let i0 = job.instance();
        let mut opt = job.optimizer(&i0);
        let s0 = opt.solve();
        let j0 = compose_json_solution(&s0, &i0, Instant::now());
        let plain = |s: &JsonSolution| {
            let mut v = serde_json::to_value(s).unwrap();
            v.as_object_mut().unwrap().remove("RunTimeSec");
            v
        };
        let e = same_json(&plain(&j0), &plain(&out.solution), "", REL);
        rec.check(e.is_ok(), "not the computed solution", || format!("{e:?}; computed {}; written {}; {}", plain(&j0), plain(&out.solution), ctx()));
        rec.count("compared_with_the_computation", 1);
    }
    let sh = shapes(&job, &inst);
    for (i, l) in out.solution.layouts.iter().enumerate() {
        let svg = fs::read_to_string(out_dir.join(format!("sol_{stem}_{i}.svg"))).unwrap_or_default();
        check_drawing(rec, &job, &sh, l, &svg, &|| format!("drawing {i}; {}", ctx()));
    }
    rec.sample(|| json!({"arguments": args.iter().map(|a| a.to_string_lossy().to_string()).collect::<Vec<_>>(), "files": got, "solution": out.solution}));
}

/// Input that cannot be used, and places that cannot be written to.
fn unusable(nr: usize, r: &mut Rng, rec: &mut Rec) {
    let mut job = gen_job(r, false);
    let dir = Scratch::new();
    let d = dir.0.as_path();
    let input = d.join("x.json");
    let cfg = d.join("c.json");
    let out = d.join("out");
    let old = r.chance(0.4);
    if old {
        fs::create_dir_all(&out).expect("harness: folder");
    }
    let mut cfg_text = serde_json::to_string(&job.config).unwrap();
    let mut args: Vec<std::ffi::OsString> = vec!["-i".into(), input.clone().into(), "-s".into(), out.clone().into(), "-c".into(), cfg.clone().into()];
    let mut text = None;
    let kind = if nr % 3 == 2 { r.below(16) } else { (nr + nr / 16) % 16 };
    let (mut write_input, mut full) = (true, None);
    let what = match kind {
        0 => {
            write_input = false;
            "missing input"
        }
        1 => {
            text = Some(r.pick(&["", "{}", "[]", "null", "not json", "\u{0}", "{\"Name\": \"x\", \"Items\": []"]).to_string());
            "no instance"
        }
        2 => {
            let t = job.json.to_string();
            let mut n = r.below(t.len() - 1);
            while !t.is_char_boundary(n) {
                n -= 1;
            }
            text = Some(t[..n].to_string());
            "truncated input"
        }
        3 => {
            let k = *r.pick(&["Demand", "Shape"]);
            let n = job.items.len();
            job.json["Items"][r.below(n)].as_object_mut().unwrap().remove(k);
            "missing field"
        }
        4 => {
            let n = job.items.len();
            job.json["Items"][r.below(n)]["Demand"] = r.pick(&[json!(-1), json!("2"), json!(1.5), json!(null)]).clone();
            "wrong demand"
        }
        5 => {
            let o = job.json.as_object_mut().unwrap();
            o.remove("Strip");
            o.remove("Objects");
            "no container"
        }
        6 => {
            if job.bins.is_empty() {
                job.json["Objects"] = json!([{"Cost": 1, "Stock": 1, "Shape": {"Type": "Rectangle", "Data": {"Width": 10.0, "Height": 10.0}}}]);
            } else {
                job.json["Strip"] = json!({"Height": 10.0});
            }
            "both containers"
        }
        7 => {
            let n = job.items.len();
            job.json["Items"][r.below(n)]["Shape"]["Type"] = json!(*r.pick(&["Circle", "rectangle", ""]));
            "unknown shape"
        }
        8 => {
            cfg_text = r.pick(&["", "{}", "[1]", "{\"n_samples\": 10}", "cde"]).to_string();
            "no configuration"
        }
        9 => {
            let mut v: Value = serde_json::from_str(&cfg_text).unwrap();
            match r.below(3) {
                0 => drop(v.as_object_mut().unwrap().remove(*r.pick(&["cde_config", "n_samples", "ls_frac"]))),
                1 => v["n_samples"] = json!(-5),
                _ => v["cde_config"]["quadtree_depth"] = json!(1000),
            }
            cfg_text = v.to_string();
            "wrong configuration"
        }
        10 => {
            args[5] = d.join("absent.json").into();
            "missing configuration"
        }
        11 => {
            args.push("--no-such-option".into());
            "unknown option"
        }
        12 => {
            args.drain(if r.chance(0.5) { 0..2 } else { 2..4 });
            "missing argument"
        }
        13 if !job.bins.is_empty() => {
            job.json["Objects"][0]["Zones"] = json!([{"Quality": 10 + r.below(5), "Shape": {"Type": "Rectangle", "Data": {"Width": 1.0, "Height": 1.0}}}]);
            "quality out of range"
        }
        14 => {
            // the folder is a file
            let _ = fs::remove_dir(&out);
            fs::write(&out, "occupied").expect("harness: file");
            "no folder"
        }
        _ => {
            // the device is full
            fs::create_dir_all(&out).expect("harness: folder");
            let name = *r.pick(&["sol_x.json", "sol_x.json", "sol_x_0.svg"]);
            std::os::unix::fs::symlink("/dev/full", out.join(name)).expect("harness: link");
            full = Some(name);
            "full device"
        }
    };
    if write_input {
        fs::write(&input, text.unwrap_or(job.json.to_string())).expect("harness: input");
    }
    fs::write(&cfg, &cfg_text).expect("harness: configuration");
    let refs: Vec<&std::ffi::OsStr> = args.iter().map(|a| a.as_os_str()).collect();
    let res = tool(&refs, d);
    let ctx = || format!("{what}: {args:?} configuration {cfg_text} input {}", job.json);
    let Some(o) = res else {
        rec.check(false, "the tool did not end", || ctx());
        return;
    };
    rec.count("unusable_inputs", 1);
    rec.nontrivial(mix(hash_str(what) ^ hash_str(&job.json.to_string())));
    if full == Some("sol_x_0.svg") {
        // only a problem if there is a layout to draw
        let n = fs::read_to_string(out.join("sol_x.json")).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok()).map_or(1, |v| v["Solution"]["Layouts"].as_array().map_or(0, |a| a.len()));
        if n == 0 {
            return;
        }
    }
    rec.check(!o.status.success(), "unnoticed failure", || format!("{}; {}", said(&o), ctx()));
    if full.is_none() {
        let left: Vec<String> = files(&out);
        rec.check(left.is_empty(), "solution without input", || format!("{left:?}; {}; {}", said(&o), ctx()));
    } else {
        rec.count("full_devices", 1);
    }
}
