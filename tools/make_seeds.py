#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the descriptions in tools/seeds/*.txt.
A description: lines 'key: value', then blocks '=== edit FILE', '--- old', '--- new' and '=== demo [f64] [lbf]'.
"""
import glob, json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
PRE = open(HERE + "/seeds/prelude.rs").read()
DEMO = open(HERE + "/seeds/demo.sh").read()
def parse(path):
    t = open(path).read()
    head, *blocks = re.split(r"^=== ", t, flags=re.M)
    meta = dict(l.split(": ", 1) for l in head.strip().splitlines())
    edits, demo, opts = [], None, []
    for b in blocks:
        first, body = b.split("\n", 1)
        if first.startswith("edit"):
            old, new = re.match(r"--- old\n(.*)\n--- new\n(.*)", body, re.S).groups()
            edits.append((first.split()[1], old, new.rstrip("\n")))
        else:
            demo, opts = body, first.split()[1:]
    return meta, edits, demo, opts
def main():
    want = sys.argv[1:]
    for path in sorted(glob.glob(HERE + "/seeds/*.txt")):
        sid = os.path.basename(path)[:-4]
        if want and sid not in want: continue
        meta, edits, demo, opts = parse(path)
        out = os.path.join(VERIF, "seeded", sid); os.makedirs(out, exist_ok=True)
        wt = "/tmp/seed_wt"
        shutil.rmtree(wt, ignore_errors=True)
        subprocess.run(["git", "clone", "-q", "/repo", wt], check=True)
        for f, old, new in edits:
            s = open(wt + "/" + f).read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(wt + "/" + f, "w").write(s.replace(old, new))
        d = subprocess.run(["git", "-C", wt, "diff"], capture_output=True, text=True, check=True).stdout
        open(out + "/patch.diff", "w").write(d)
        json.dump({"property": meta["property"], "needs": meta["needs"], "what_it_breaks": meta["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        if "sh" in opts:
            open(out + "/demo.sh", "w").write(demo)
        else:
            open(out + "/main.rs", "w").write(PRE + "\n" + demo)
            open(out + "/demo.sh", "w").write(DEMO.replace("@FEAT@", 'features = ["double-precision"]' if "f64" in opts else "features = []").replace("@LBF@", 'lbf = { path = "$R/lbf" }' if "lbf" in opts else ""))
            shutil.copy(VERIF + "/harness/Cargo.lock", out + "/Cargo.lock.txt")
        os.chmod(out + "/demo.sh", 0o755)
        shutil.rmtree(wt)
        print(sid, meta["property"])
main()
