#!/usr/bin/env python3
"""Driver of the checks: builds the harness against /repo's working tree, runs
it in parallel shards and turns what the shards measured into an evidence file
and an exit code.

  check.py C05                    search (VERIF_TIER, VERIF_SEED from the env)
  check.py C05 --tier thorough
  check.py C05 --replay FILE      run one recorded case again

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken.
Anything else is an error of the check.
"""
import argparse
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
GO = "/opt/veriftools/go1.23.12"
CRASHING = "github.com/carlakc/boltnd"

# Properties whose thorough tier also runs under the race detector.
RACE = {"C09", "C14", "C15", "C16", "C17", "C18", "C20", "C22", "C23", "C24"}


def env():
    e = dict(os.environ)
    e.update({
        "HOME": e.get("HOME") or "/root",
        "GOROOT": GO,
        "PATH": GO + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin"
                     ":/sbin:/bin",
        "GOPATH": "/root/go",
        "GOMODCACHE": "/root/go/pkg/mod",
        "GOTOOLCHAIN": "local",
        "GOFLAGS": "-mod=readonly",
        "GOPROXY": "off",
        "GOSUMDB": "off",
        "GOTRACEBACK": "all",
        "GONOSUMDB": "*",
    })
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e.pop("GOMAXPROCS", None)
    return e


def die(msg, code=2):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(code)


def build(work, race=False):
    out = os.path.join(work, "harness-race" if race else "harness")
    cmd = ["go", "build", "-ldflags=-checklinkname=0", "-o", out]
    if race:
        cmd.insert(2, "-race")
    e = env()
    if race:
        e["CGO_ENABLED"] = "1"
    if not os.access(os.path.dirname(e["GOCACHE"]), os.W_OK):
        e["GOCACHE"] = os.path.join(work, "gocache")
    p = subprocess.run(cmd + ["."], cwd=HARNESS, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    if p.returncode != 0:
        if race:
            print("note: no race build: " + p.stdout[-500:])
            return None
        die("the harness does not build against /repo:\n" + p.stdout[-4000:])
    return out


def limits():
    os.setsid()
    # Address space stays unlimited (Go reserves a lot); core dumps do not help.
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def crash_message(stderr):
    """Summary of a crash if the code under test is what crashed, else None."""
    m = re.search(r"^(panic: |fatal error: |CASE-TIMEOUT )", stderr, re.M)
    if not m:
        return None
    rest = stderr[m.start():]
    if "out of memory" in rest[:300] or "cannot allocate memory" in rest[:300]:
        return None
    first = rest.split("\n", 1)[0]
    if first.startswith("CASE-TIMEOUT"):
        frames = [l for l in rest.split("\n")
                  if CRASHING in l and not l.startswith("\t")]
        if not frames:
            return None
        return "does not end: " + "; ".join(frames[:5])
    # Only the goroutine that crashed counts: it comes first.
    parts = re.split(r"\n\n(?=goroutine )", rest)
    stack = parts[0]
    if "goroutine " not in stack and len(parts) > 1:
        stack += parts[1]
    # The goroutine was started by whatever "created by" names; that alone
    # does not make it the code under test that crashed.
    frames = [l for l in stack.split("\n")
              if CRASHING in l and not l.startswith("\t")
              and not l.startswith("created by")]
    if not frames:
        return None
    return "process crashed: " + first + " in " + "; ".join(frames[:5])


class Shard:
    def __init__(self, binary, prop, tier, seed, n, shards, out, extra=()):
        self.n = n
        self.out = out
        self.err = os.path.join(out, "stderr-%d" % n)
        self.cmd = [binary, "-prop", prop, "-tier", tier, "-seed", str(seed),
                    "-shard", str(n), "-shards", str(shards), "-out", out]
        self.cmd += list(extra)
        self.proc = None

    def start(self):
        self.proc = subprocess.Popen(
            self.cmd, stdout=subprocess.DEVNULL, stderr=open(self.err, "wb"),
            env=env(), preexec_fn=limits, cwd=self.out)

    def kill(self):
        if self.proc and self.proc.poll() is None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.proc.wait()

    def found(self):
        """Whether it ended with something that looks like a violation."""
        res = load(os.path.join(self.out, "result-%d.json" % self.n))
        if self.proc.returncode in (0, 1) and res is not None:
            return any(r.get("violation") for r in res)
        return crash_message(self.stderr()) is not None

    def stderr(self):
        with open(self.err, "rb") as f:
            return f.read()[-4 << 20:].decode("utf8", "replace")


def run_shards(shards, deadline, grace=60):
    """Waits for all shards; once one has found something, the others get only
    a little longer."""
    for s in shards:
        s.start()
    seen = set()
    try:
        while any(s.proc.poll() is None for s in shards):
            if time.time() > deadline:
                return False
            for s in shards:
                if s.proc.poll() is None or s.n in seen:
                    continue
                seen.add(s.n)
                if s.found():
                    deadline = min(deadline, time.time() + grace)
            time.sleep(0.05)
    finally:
        for s in shards:
            s.kill()
    return True


def replay(binary, path, timeout=400):
    """(violated, message, other trouble)"""
    try:
        p = subprocess.run([binary, "-replay", path], env=env(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, preexec_fn=limits)
    except subprocess.TimeoutExpired:
        return False, "", "replay did not end in %ds" % timeout
    out = p.stdout.decode("utf8", "replace")
    err = p.stderr.decode("utf8", "replace")
    if p.returncode == 0:
        return False, out, ""
    if p.returncode == 1 and out.startswith("FAIL"):
        return True, out.strip(), ""
    msg = crash_message(err)
    if msg:
        return True, msg, ""
    if "DATA RACE" in err and race_message(err):
        return True, race_message(err), ""
    return False, "", "replay ended with %s: %s" % (p.returncode, err[-2000:])


def race_message(err):
    """A data race both of whose accesses are in the code under test."""
    for block in re.split(r"={18}", err):
        if "WARNING: DATA RACE" not in block:
            continue
        block = re.split(r"\n\s*Goroutine \d+ \(", block)[0]
        acc = re.split(r"Previous (?:read|write|atomic \w+) ", block)
        if len(acc) != 2:
            continue
        if all(CRASHING in a for a in acc):
            frames = [l.strip() for l in block.split("\n")
                      if l.strip().startswith(CRASHING)]
            return "data race: " + "; ".join(frames[:6])
    return None


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def known_findings(prop):
    """(open, fixed) entries of the known-findings file for a property."""
    out = []
    path = os.path.join(ROOT, "known-findings.txt")
    if not os.path.exists(path):
        return out
    with open(path) as f:
        for line in f:
            line = line.strip()
            m = re.match(r"open: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def store_replay(prop, rep):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    blob = json.dumps(rep, sort_keys=True)
    import hashlib
    h = hashlib.sha256(blob.encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s-%s.json" % (prop, rep["sub"], h))
    with open(path, "w") as f:
        json.dump(rep, f, indent=1)
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--shards", type=int, default=8)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--no-race", action="store_true")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"

    work = tempfile.mkdtemp(prefix="verif-%s-" % a.prop)
    try:
        return run(a, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(a, work):
    began = time.time()
    binary = build(work)

    if a.replay:
        bad, msg, trouble = replay(binary, os.path.abspath(a.replay))
        if trouble:
            die(trouble)
        print(msg)
        if bad:
            print("VIOLATION property=%s replay=%s" %
                  (a.prop, os.path.abspath(a.replay)))
            return 1
        return 0

    limit = 780 if a.tier == "quick" else 7200
    deadline = began + limit
    ev = os.path.join(ROOT, "evidence", a.prop + ".json")
    if os.path.exists(ev):
        os.remove(ev)

    passes = [(binary, a.seed, a.scale, "")]
    if a.tier == "thorough" and a.prop in RACE and not a.no_race:
        rb = build(work, race=True)
        if rb:
            passes.append((rb, a.seed + 1000, a.scale * 0.05, "-race"))

    merged, violation = {}, None
    for i, (b, seed, scale, label) in enumerate(passes):
        out = os.path.join(work, "out%d" % i)
        os.makedirs(out)
        extra = ["-scale", repr(scale)]
        shards = [Shard(b, a.prop, a.tier, seed, n, a.shards, out, extra)
                  for n in range(a.shards)]
        ended = run_shards(shards, deadline)
        violation = collect(a, shards, b, seed, out, extra, merged, label,
                            ended, deadline)
        if violation:
            break

    wall = time.time() - began
    write_evidence(a, ev, merged, violation, wall)
    for key, what in known_findings(a.prop):
        print("KNOWN-FINDING: property=%s %s" % (a.prop, what))
    total = sum(r["evaluations"] for r in merged.values())
    print("%s %s seed=%d: %d cases, %.1fs" %
          (a.prop, a.tier, a.seed, total, wall))
    if violation:
        path = store_replay(a.prop, violation)
        print(violation["sub"] + ": " + violation["message"][:3000])
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    return 0


def collect(a, shards, binary, seed, out, extra, merged, label, ended,
            deadline):
    found = []
    trouble = []
    # Those that measured something first: a shard that died takes a while to
    # look into, which nobody needs when another one has a violation to show.
    measured = [os.path.exists(os.path.join(out, "result-%d.json" % s.n))
                for s in shards]
    shards = ([s for s, m in zip(shards, measured) if m] +
              [s for s, m in zip(shards, measured) if not m])
    for s in shards:
        rc = s.proc.returncode
        res = load(os.path.join(out, "result-%d.json" % s.n))
        if rc in (0, 1) and res is not None:
            for r in res:
                merge(merged, r, label)
                if r.get("violation"):
                    found.append(r["violation"])
            continue
        if found:
            continue
        err = s.stderr()
        infl = load(os.path.join(out, "inflight-%d.json" % s.n))
        msg = crash_message(err)
        if msg is None and "DATA RACE" in err:
            msg = race_message(err)
        if msg and infl:
            v = confirm(a, binary, seed, s, infl, msg, out, extra,
                        deadline)
            if v:
                found.append(v)
                continue
        trouble.append("shard %d ended with %s: %s" % (s.n, rc, err[-2500:]))
    if found:
        # The smallest reproduction is the most useful one.
        found.sort(key=lambda v: len(json.dumps(v["plan"])))
        return found[0]
    if not ended:
        die("time limit; inconclusive. " + " | ".join(trouble)[:3000])
    if trouble:
        die(" | ".join(trouble)[:6000])
    return None


def confirm(a, binary, seed, shard, infl, msg, out, extra, deadline):
    """A shard's process died in the code under test. Find a case that does
    that on its own, and shrink it by running cases in their own processes."""
    case = int(infl["message"])
    plan = {"property": a.prop, "sub": infl["sub"], "message": msg,
            "plan": infl["plan"]}
    f = os.path.join(out, "confirm-%d.json" % shard.n)
    with open(f, "w") as fh:
        json.dump(plan, fh)
    if not msg.startswith("does not end"):
        for _ in range(2):
            bad, m, _t = replay(binary, f)
            if bad:
                break
        if bad:
            plan["message"] = m
            sub = os.path.join(out, "shrink-%d" % shard.n)
            os.makedirs(sub, exist_ok=True)
            s = Shard(binary, a.prop, a.tier, seed, shard.n, a.shards, sub,
                      list(extra) + ["-sub", infl["sub"], "-isolate",
                                     "-skip", str(case - 1)])
            run_shards([s], time.time() + 90)
            for r in load(os.path.join(sub, "result-%d.json" % shard.n)) or []:
                if r.get("violation"):
                    return r["violation"]
            return plan
        # A crash of the code under test happened; that it takes luck to see
        # it again (a schedule) does not undo it.
        return plan
    left = deadline + 90 - time.time()
    bad, m, _t = replay(binary, f, timeout=max(min(left, 400), 1))
    return plan if bad else None


def merge(merged, r, label):
    m = merged.setdefault(r["sub"] + label, {
        "evaluations": 0, "nontrivial": set(), "classes": {}, "samples": [],
        "rule": r["rule"], "assume": r.get("assume") or [], "truncated": False})
    m["evaluations"] += r["evaluations"]
    m["nontrivial"].update(r.get("nontrivial") or [])
    for k, n in (r.get("classes") or {}).items():
        m["classes"][k] = m["classes"].get(k, 0) + n
    for s in r.get("samples") or []:
        if len(m["samples"]) < 2:
            m["samples"].append(s)
    m["truncated"] |= bool(r.get("truncated"))


def write_evidence(a, path, merged, violation, wall):
    assume = []
    for m in merged.values():
        for x in m["assume"]:
            if x not in assume:
                assume.append(x)
    cov = {
        "evaluations": sum(m["evaluations"] for m in merged.values()),
        "distinct_nontrivial": sum(len(m["nontrivial"])
                                   for m in merged.values()),
        "rule": " || ".join("%s: %s" % (n, m["rule"])
                            for n, m in sorted(merged.items())),
        "samples": [{"sub": n, "case": s} for n, m in sorted(merged.items())
                    for s in m["samples"]],
        "sub_checks": {n: {"evaluations": m["evaluations"],
                           "distinct_nontrivial": len(m["nontrivial"]),
                           "classes": dict(sorted(m["classes"].items())),
                           "truncated": m["truncated"]}
                       for n, m in sorted(merged.items())},
    }
    level = "exploration"
    man = load(os.path.join(ROOT, "MANIFEST.json")) or {}
    for c in man.get("checks", []):
        if c["property"] == a.prop:
            level = c["level"]
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump({"property": a.prop, "tier": a.tier, "seed": a.seed,
                   "level": level, "coverage": cov, "assumptions": assume,
                   "wall_s": round(wall, 2),
                   "violations": 1 if violation else 0}, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
