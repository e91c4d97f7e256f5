#!/usr/bin/env python3
"""Runs checks against planted bugs:
catch.py [--all] [--seed N] [--tier T] [--dir D] ID...

Builds the harness with the patched files laid over /repo's (go build -overlay),
runs the check of the bug's property (or, with --all, every check) and prints
what was reported. /repo itself, and what the checks keep, is not touched. With
--dir, ID/patch.diff and ID/meta.json are looked for in D rather than seeded/.
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="*")
ap.add_argument("--all", action="store_true")
ap.add_argument("--seed", default="1")
ap.add_argument("--tier", default="quick")
ap.add_argument("--prop", action="append")
ap.add_argument("--dir", default=os.path.join(ROOT, "seeded"))
a = ap.parse_args()
props = [json.loads(l)["id"]
         for l in open(os.path.join(ROOT, "properties.jsonl"))]
RUN = """
import sys
sys.path.insert(0, %r)
import check
old = check.env
def env():
    e = old()
    e["GOFLAGS"] += " -overlay=%s"
    return e
check.env = env
check.write_evidence = lambda *a: None
def store(prop, rep):
    import json
    json.dump(rep, open(%r, "w"), indent=1)
    return %r
check.store_replay = store
sys.exit(check.main())
"""
for i in a.ids or sorted(os.listdir(a.dir)):
    d = os.path.join(a.dir, i)
    if not os.path.exists(d + "/patch.diff"):
        continue
    own = json.load(open(d + "/meta.json"))["property"]
    work = tempfile.mkdtemp(prefix="catch-")
    try:
        files = re.findall(r"^\+\+\+ b/(\S+)", open(d + "/patch.diff").read(),
                           re.M)
        subprocess.run("git -C /repo archive HEAD | tar x -C " + work,
                       shell=True, check=True)
        subprocess.run(["git", "apply", os.path.abspath(d) + "/patch.diff"],
                       cwd=work, check=True,
                       env={**os.environ, "GIT_CEILING_DIRECTORIES": "/tmp"})
        ov = work + "/overlay.json"
        json.dump({"Replace": {"/repo/" + f: work + "/" + f for f in files}},
                  open(ov, "w"))
        rep = "/tmp/catch-%s.json" % i
        code = RUN % (ROOT, ov, rep, rep)
        res = {}
        for p in a.prop or (props if a.all else [own]):
            r = subprocess.run([sys.executable, "-c", code, p, "--seed",
                                a.seed, "--tier", a.tier], cwd=ROOT,
                               stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            lines = [l for l in r.stdout.split("\n")
                     if l and "VIOLATION" not in l]
            m = re.search(r" ([0-9.]+s)$", r.stdout, re.M)
            res[p] = (r.returncode, (m[1] if m else "?") + " " +
                      (lines[-1][:150] if lines else ""))
        for p, (rc, msg) in res.items():
            if p == own or a.prop:
                print(i, p, {0: "MISSED", 1: "CAUGHT"}.get(
                    rc, "ERROR %s" % rc), msg, flush=True)
        if a.all:
            print("    by:", " ".join(p for p in res if res[p][0] == 1) or "-",
                  flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)
