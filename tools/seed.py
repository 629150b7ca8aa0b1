#!/usr/bin/env python3
"""Planted bugs: tools/seeds/*.py -> seeded/<id>/ , tried in a scratch copy.
usage: seed.py try ID... | make ID...      (each seeds file: ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO)"""
import importlib.util, json, os, shutil, subprocess, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
SEEDS = V / "tools" / "seeds"
S = Path("/tmp/seedwork")
BASE = json.load(open("/opt/vp/BASELINE.json"))
NET = "unshare -n bash -c 'ip link set lo up; %s'"      # (a network without the leftovers of earlier runs)


def load(i):
    spec = importlib.util.spec_from_file_location("s", SEEDS / (i + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def make(i):
    m = load(i)
    d = V / "seeded" / i
    rep = S / i / "repo"
    shutil.rmtree(S / i, ignore_errors=True)
    (S / i).mkdir(parents=True)
    sh("cp -a /repo %s" % rep)
    for f, a, b in m.EDITS:
        p = rep / f
        t = p.read_text()
        if t.count(a) != 1:
            raise SystemExit("%s: %d matches in %s of %r" % (i, t.count(a), f, a[:80]))
        p.write_text(t.replace(a, b))
    d.mkdir(parents=True, exist_ok=True)
    (d / "patch.diff").write_text(sh("git -C %s diff" % rep).stdout)
    (d / "meta.json").write_text(json.dumps(dict(property=m.PROPERTY, needs=m.NEEDS, what_it_breaks=m.BREAKS), indent=1) + "\n")
    shutil.copy(SEEDS / "demo_lib.py", d / "demo_lib.py")
    (d / "demo.py").write_text("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom demo_lib import *\n" + m.DEMO)
    (d / "demo.sh").write_text('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 250 python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(d / "demo.sh", 0o755)
    # changed lines must be the original repository's
    return m, d, rep


def original(rep):
    """do all removed lines stem from the base commit?"""
    base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
    bad = []
    cur = None
    for l in sh("git -C %s diff -U0" % rep).stdout.splitlines():
        if l.startswith("--- a/"):
            cur = l[6:]
        elif l.startswith("@@"):
            a = l.split()[1][1:].split(",")
            n = int(a[1]) if len(a) > 1 else 1
            if n:
                for b in sh("git -C /repo blame -l -s -L %s,+%d HEAD -- %s" % (a[0], n, cur)).stdout.splitlines():
                    if b.split()[0].lstrip("^") not in base and not base.startswith(b.split()[0].lstrip("^")):
                        bad.append(b)
    return bad


def trial(i, checks=None, tests=True):
    m, d, rep = make(i)
    out = [i, m.PROPERTY]
    bad = original(rep)
    if bad:
        out.append("NOT-ORIGINAL(%d)" % len(bad))
    for s in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + s).read().replace("/opt/vp/build.sh", str(S / i / "build.sh")).replace("/repo", str(rep))
        (S / i / s).write_text(t)
    sh("rm -rf %s/_build" % rep)
    r = sh("bash %s/build.sh" % (S / i))
    if r.returncode:
        print(r.stdout[-1500:])
        print(out, "BUILD FAILS")
        return
    r = sh(NET % ("bash %s/demo.sh" % d), cwd=rep)
    out.append("demo-bug:%d" % r.returncode)
    if r.returncode != 1:
        print(r.stdout[-600:])
    r2 = sh(NET % ("bash %s/demo.sh" % d), cwd="/repo")
    out.append("demo-ok:%d" % r2.returncode)
    if r2.returncode:
        print(r2.stdout[-600:])
    if tests:
        sh(NET % ("bash %s/test.sh %s/o.json" % (S / i, S / i)))
        p = set(json.load(open(S / i / "o.json"))["passed"])
        want = BASE.get("passed") or BASE.get("stable") or BASE.get("tests")
        miss = [x for x in want if x not in p]
        out.append("tests:%d missing %s" % (len(miss), miss[:3]))
    vc = S / "verif"
    if not vc.exists():
        vc.mkdir(parents=True)
    sh("rsync -a --delete --exclude .git --exclude seeded --exclude work --exclude evidence --exclude build /verif/ %s/ || (cd /verif && cp -a check.py checks lib harness shim tools known-findings.txt properties.jsonl %s/)" % (vc, vc))
    for c in [m.PROPERTY] if checks is None else checks:
        r = sh("timeout 900 python3 check.py %s" % c, cwd=vc, env=dict(os.environ, VERIF_REPO=str(rep), VERIF_SEED="1", VERIF_TIER="quick"))
        hit = "VIOLATION property=%s" % c in r.stdout
        out.append("%s:%s(rc %d, %s)" % (c, "CAUGHT" if hit else "MISSED", r.returncode, r.stdout.strip().splitlines()[-1].split(", ")[-1] if r.stdout.strip() else ""))
        (S / (i + "." + c + ".log")).write_text(r.stdout)
    shutil.rmtree(S / i, ignore_errors=True)
    print(*out, flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        for i in sys.argv[2:] or sorted(p.stem for p in SEEDS.glob("*.py") if p.stem != "demo_lib"):
            make(i)
            shutil.rmtree(S / i, ignore_errors=True)
    elif sys.argv[1] == "try":
        for a in sys.argv[2:]:
            i, _, c = a.partition(":")
            trial(i, c.split(",") if c else None)
    elif sys.argv[1] == "test":
        for i in sys.argv[2:]:
            trial(i, [])
