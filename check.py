#!/usr/bin/env python3
"""Builds the monitors from /repo's working tree and runs them.

  check.py --setup                     build every variant
  check.py C01 [--tier quick|thorough] run the check of one property
  check.py --replay FILE               run the recorded failing case again

Exit 0: the property held on everything observed. Exit 1 (and a VIOLATION line): it is broken.
Exit 2: the check itself could not run.
"""
import json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
EVID = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known_findings.jsonl")

sys.path.insert(0, VERIF)
from props import PROPS, VARIANTS  # noqa: E402


def env():
    e = dict(os.environ)
    e.setdefault("CARGO_NET_OFFLINE", "true")
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["RUSTC_WRAPPER"] = ""
    e["CARGO_TERM_COLOR"] = "never"
    e.pop("RUSTFLAGS", None)
    e["CARGO_INCREMENTAL"] = "0"
    return e


def die(msg):
    print("CHECK-ERROR:", msg)
    sys.exit(2)


def build(variant):
    v = VARIANTS[variant]
    cmd = ["cargo"] + v.get("toolchain", []) + ["build", "--offline", "--quiet", "--profile", v["profile"],
           "--target-dir", os.path.join(TARGET, v.get("dir", "std"))] + v.get("args", [])
    if v["features"]:
        cmd += ["--features", ",".join(v["features"])]
    e = env()
    e.update(v.get("env", {}))
    r = subprocess.run(cmd, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        die("build of the monitors failed (variant %s):\n%s" % (variant, r.stdout[-6000:]))
    out = os.path.join(TARGET, v.get("dir", "std"), *v.get("triple", []), v["profile"], "monitor")
    # builds of the same profile with other features overwrite the binary: keep one per variant
    dst = os.path.join(TARGET, "monitor-" + variant)
    subprocess.run(["cp", "-f", out, dst], check=True)
    if "solver" in v["features"]:
        subprocess.run(["cp", "-f", os.path.join(os.path.dirname(out), "lbf-cli"), cli(variant)], check=True)
    return dst


def cli(variant):
    return os.path.join(TARGET, "lbf-cli-" + variant)


def run_env(variant):
    e = env()
    e.update(VARIANTS[variant].get("run_env", {}))
    e["MONITOR_SCRATCH"] = os.path.join(TARGET, "scratch")
    e["MONITOR_CLI"] = cli(variant)
    return e


def known_keys(prop):
    ks = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line:
                k = json.loads(line)
                if k.get("status") == "known" and k["property"] == prop:
                    ks.append(k)
    return ks


def run(prop, tier, seed):
    t0 = time.time()
    spec = PROPS[prop]
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    parts = []
    listed = known_keys(prop)
    for variant, scale in spec["variants"][tier]:
        if any(not any(k["match"] in v["key"] + " " + v["msg"] for k in listed) for p in parts for v in p["violations"]):
            break  # already decided
        binary = build(variant)
        out = os.path.join(TARGET, "out-%s-%s.json" % (prop, variant))
        if os.path.exists(out):
            os.remove(out)
        cases = max(1, int(spec["cases"][tier] * scale))
        tb = time.time()
        e = run_env(variant)
        try:
            r = subprocess.run([binary, prop, "--tier", tier, "--seed", str(seed), "--variant", variant,
                                "--cases", str(cases), "--out", out],
                               env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors="replace", timeout=spec.get("timeout", {}).get(tier, 780 if tier == "quick" else 7200))
            rc, log = r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            die("monitor %s/%s exceeded its time limit" % (prop, variant))
        san = [l for l in log.splitlines() if "Sanitizer" in l]
        if not os.path.exists(out):
            if san or rc < 0:
                res = {"cases": 0, "evaluations": 0, "distinct_nontrivial": 0, "counters": {}, "samples": [],
                       "harness_errors": [],
                       "violations": [{"case": 0, "key": "crash", "msg": "monitored process died (rc %d): %s" % (rc, log[-3000:])}]}
            else:
                die("monitor %s/%s gave no result (rc %d):\n%s" % (prop, variant, rc, log[-4000:]))
        else:
            res = json.load(open(out))
            if san:
                res["violations"].append({"case": 0, "key": "sanitizer", "msg": "\n".join(log.splitlines()[:60])})
        res["variant"], res["wall_s"], res["requested_cases"] = variant, round(time.time() - tb, 2), cases
        parts.append(res)

    known = known_keys(prop)
    viols, seen_known, herr = [], {}, []
    for p in parts:
        herr += p["harness_errors"]
        for v in p["violations"]:
            v["variant"] = p["variant"]
            k = next((k for k in known if k["match"] in v["key"] + " " + v["msg"]), None)
            if k:
                seen_known[k["id"]] = k
            else:
                viols.append(v)
    counters = {}
    for p in parts:
        for k, n in p["counters"].items():
            counters[k] = counters.get(k, 0) + n
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(p["evaluations"] for p in parts),
            "distinct_nontrivial": sum(p["distinct_nontrivial"] for p in parts),
            "rule": spec["rule"],
            "samples": [s for p in parts for s in p["samples"]][:4] or ["no sample recorded"],
            "cases": sum(p["cases"] for p in parts),
            "observed": counters,
            "builds": [{"variant": p["variant"], "description": VARIANTS[p["variant"]]["what"], "cases": p["cases"],
                        "evaluations": p["evaluations"], "wall_s": p["wall_s"]} for p in parts],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viols),
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if viols:
        for i, v in enumerate(viols[:5]):
            path = os.path.join(REPLAYS, "%s-%s-%d.json" % (prop, v["variant"], i))
            with open(path, "w") as f:
                json.dump({"property": prop, "variant": v["variant"], "seed": seed, "tier": tier, "case": v["case"],
                           "key": v["key"], "msg": v["msg"]}, f, indent=1)
            print("  %s case %d [%s] %s" % (v["variant"], v["case"], v["key"], v["msg"][:700]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if herr:
        die("harness errors: " + "; ".join(herr[:5]))
    for p in parts:
        if p["cases"] < p["requested_cases"]:
            die("only %d of %d cases ran" % (p["cases"], p["requested_cases"]))
        for name, least in spec.get("floors", {}).items():
            if p["counters"].get(name, 0) < least and tier == "quick" and not spec.get("floors_total"):
                die("the monitors observed too little: %s=%d (< %d) in %s" % (name, p["counters"].get(name, 0), least, p["variant"]))
    print("OK property=%s tier=%s cases=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (
        prop, tier, ev["coverage"]["cases"], ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"]))
    print("   observed:", json.dumps(counters))


def replay(path):
    d = json.load(open(path))
    binary = build(d["variant"])
    e = run_env(d["variant"])
    r = subprocess.run([binary, d["property"], "--seed", str(d["seed"]), "--tier", d["tier"], "--variant", d["variant"],
                        "--case", str(d["case"]), "-v"], env=e)
    sys.exit(r.returncode)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        for v in VARIANTS:
            if VARIANTS[v].get("setup", True):
                build(v)
        print("setup done")
        return
    if a and a[0] == "--replay":
        return replay(a[1])
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--seed" in a:
        seed = int(a[a.index("--seed") + 1])
    run(prop, tier, seed)


if __name__ == "__main__":
    main()
