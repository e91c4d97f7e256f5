#!/usr/bin/env python3
"""Confirms planted bugs: plant.py ID... (or none for all of them).

Works on a scratch copy of /repo. A bug counts when its patch applies, builds,
passes the stable tests, and its demonstration succeeds without and fails with
the patch.
"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = ". /opt/vp/env.sh; "


def sh(cmd, cwd, timeout=600):
    p = subprocess.run(["bash", "-c", ENV + cmd], cwd=cwd, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout)
    return p.returncode, p.stdout


def passed(cwd):
    rc, out = sh("go test -json -vet=off -count=1 -timeout 10m -tags=nolog "
                 "-ldflags=\"$LD\" ./... 2>/dev/null", cwd)
    ok = set()
    for line in out.split("\n"):
        try:
            e = json.loads(line)
        except ValueError:
            continue
        if e.get("Action") == "pass" and e.get("Test"):
            ok.add((e["Package"], e["Test"]))
    return ok


def main():
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    tmp = tempfile.mkdtemp(prefix="plant-")
    bad = 0
    try:
        clean = os.path.join(tmp, "clean")
        shutil.copytree("/repo", clean, symlinks=True)
        sh("git checkout -q -- .", clean)
        stable = passed(clean) & passed(clean)
        for i in ids:
            d = os.path.join(ROOT, "seeded", i)
            away = os.path.join(tmp, "demo")
            shutil.rmtree(away, ignore_errors=True)
            shutil.copytree(d, away)
            for f in ("patch.diff", "meta.json"):
                os.remove(os.path.join(away, f))
            work = os.path.join(tmp, "work")
            shutil.rmtree(work, ignore_errors=True)
            shutil.copytree(clean, work, symlinks=True)
            notes = []
            rc, out = sh("bash %s/demo.sh" % away, clean)
            if rc:
                notes.append("demo fails on the clean tree:\n" + out[-1500:])
            rc, out = sh("git apply %s/patch.diff" % d, work)
            if rc:
                notes.append("does not apply: " + out)
            else:
                rc, out = sh("go build ./...", work)
                if rc:
                    notes.append("does not build: " + out[-800:])
                missing = stable - passed(work)
                if missing:
                    notes.append("breaks tests: %s" % sorted(missing)[:4])
                rc, demo = sh("bash %s/demo.sh" % away, work)
                if rc == 0:
                    notes.append("demo passes with the patch")
                elif "[build failed]" in demo or "setup failed" in demo:
                    notes.append("demo doesn't build: " + demo[-800:])
            print(i, "OK" if not notes else "BAD " + "; ".join(notes),
                  flush=True)
            if not notes:
                tail = [l for l in demo.split("\n") if l.strip()]
                print("   ", "\n    ".join(tail[:4]))
            bad += bool(notes)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return 1 if bad else 0


sys.exit(main())
