#!/usr/bin/env python3
"""refac.py SPEC [CHECK...]: applies behaviour-preserving edits to a scratch copy and runs the checks, which
must stay quiet.  SPEC is a Python file with EDITS = [(file below geodiff/src, old, new), ...]."""
import concurrent.futures, glob, os, re, runpy, shutil, subprocess, sys, tempfile

spec, checks = sys.argv[1], sys.argv[2:] or sorted("C" + re.search(r"c(\d+)", f).group(1) for f in glob.glob("/verif/sa/checks/c[0-9]*.py"))
d = tempfile.mkdtemp(prefix="refac")
try:
    for x in ("geodiff", "pygeodiff", "README.md", "docs"):
        s = "/repo/" + x
        (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, d + "/" + x) if os.path.exists(s) else None
    for f, a, b in runpy.run_path(spec)["EDITS"]:
        p = d + "/geodiff/src/" + f
        s = open(p).read()
        if s.count(a) < 1:
            print("NO MATCH", f, a[:80])
            sys.exit(2)
        open(p, "w").write(s.replace(a, b, 1))
    env = dict(os.environ, GEODIFF_REPO=d)
    j = int(os.environ.get("J", "2"))

    def run(c):
        return c, subprocess.run(["./check", c], cwd="/verif", env=env, capture_output=True, text=True)
    with concurrent.futures.ThreadPoolExecutor(j) as ex:
        bad = 0
        for c, r in ex.map(run, checks):
            out = r.stdout + r.stderr[-1500:]
            na = out.count("NOT ANALYSED")
            if r.returncode or na or "incomplete" in out:
                bad += 1
                print(c, "rc", r.returncode, "not analysed:", na)
                print(out[:int(os.environ.get("W", "900"))])
    print("done,", bad, "of", len(checks), "not clean")
finally:
    shutil.rmtree(d)
