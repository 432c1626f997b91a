#!/usr/bin/env python3
"""Planted bugs: definitions, and the tool that turns each into seeded/<id>/ after confirming it in a scratch copy.

seeds.py build [ID..]   make the patch in a scratch copy of /repo, run the test suite and the demo with and without it
seeds.py run [ID..]     run the check of the bug's property against a scratch copy with the patch (VP_REPO)
No check reads this file or seeded/."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SEEDS = {}


def seed(id, prop, edits, demo, needs, breaks):
    SEEDS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)


HEAD = "import numpy as np, warnings\nwarnings.simplefilter('ignore')\n"
exec(open(os.path.join(V, "tools", "seed_defs.py")).read())


def scratch():
    d = tempfile.mkdtemp(prefix="seed-")
    subprocess.run(["cp", "-a", "/repo/.", d], check=True)
    return d


def apply(d, s):
    for f, old, new in s["edits"]:
        p = os.path.join(d, f)
        t = open(p, newline="").read()
        if "\r\n" in t and old.replace("\n", "\r\n") in t:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert t.count(old) >= 1, (f, "not found", old)
        open(p, "w", newline="").write(t.replace(old, new, 1))


def demo(d, folder):
    return subprocess.run(["bash", os.path.join(folder, "demo.sh")], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)


def build(i):
    s = SEEDS[i]
    d = scratch()
    try:
        f = os.path.join(V, "seeded", i)
        os.makedirs(f, exist_ok=True)
        open(os.path.join(f, "demo.py"), "w").write(HEAD + s["demo"].strip() + "\n")
        open(os.path.join(f, "demo.sh"), "w").write('#!/bin/bash\nD="$(cd "$(dirname "$0")" && pwd)"\nexport MPLBACKEND=Agg PYTHONPATH="$PWD"\nexec %s "$D/demo.py"\n' % PY)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(f, "meta.json"), "w"), indent=1)
        a = demo(d, f)
        if a.returncode != 0:
            return "demo fails on unchanged tree: " + a.stdout[-300:]
        apply(d, s)
        diff = subprocess.run(["git", "-C", d, "diff"], stdout=subprocess.PIPE).stdout
        open(os.path.join(f, "patch.diff"), "wb").write(diff)
        b = demo(d, f)
        if b.returncode == 0:
            shutil.rmtree(f)
            return "demo passes with the bug"
        t = subprocess.run([PY, "-m", "pytest", "-q", "-x", "PyEMD/tests"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, MPLBACKEND="Agg"))
        if t.returncode != 0:
            shutil.rmtree(f)
            return "tests fail: " + "\n".join([l for l in t.stdout.splitlines() if "FAILED" in l or "rror" in l][:4])
        return "ok: demo says " + (b.stdout.strip().splitlines() or ["-"])[-1][:120]
    finally:
        shutil.rmtree(d)


def run(i):
    s = SEEDS[i]
    d = scratch()
    try:
        apply(d, s)
        p = subprocess.run([os.path.join(V, "bin", "check"), s["prop"]], env=dict(os.environ, VP_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        hit = p.returncode == 1 and "VIOLATION property=" + s["prop"] in p.stdout
        cl = sorted({c for l in p.stdout.splitlines() if "clauses:" in l for c in l.split(":")[1].strip().split(", ")})
        return ("CAUGHT " if hit else "MISSED rc=%d " % p.returncode) + ",".join(cl) + ("" if hit else p.stdout[-200:])
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    ids = sys.argv[2:] or list(SEEDS)
    ids = [i for i in SEEDS if any(i == x or i.startswith(x) for x in ids)]
    if sys.argv[1] == "build":
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(4) as ex:
            for i, r in zip(ids, ex.map(build, ids)):
                print(i, r, flush=True)
    else:
        for i in ids:
            print(i, run(i), flush=True)
