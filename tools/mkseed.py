#!/usr/bin/env python3
"""mkseed.py SPEC.py : writes /verif/seeded/<id>/ for each planted change of a specification file and tries it out:
the demonstration must pass on the unchanged tree and fail with the change; prints what the checks say."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo"
R = "/tmp/seedrepo.%d" % os.getpid()


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def blame(diff):
    """Changed lines that the pinned commit does not have: such a change does not count."""
    bad, f, n = [], None, 0
    for l in diff.splitlines():
        if l.startswith("--- "):
            f = l[6:]
        elif l.startswith("@@"):
            n = int(l.split()[1][1:].split(",")[0])
        elif l.startswith("-"):
            b = sh("git -C %s blame -l -s HEAD -L %d,%d -- %s" % (R, n, n, f)).stdout
            if not b.lstrip("^").startswith("adfeaff"):
                bad.append("%s:%d" % (f, n))
            n += 1
        elif l.startswith(" "):
            n += 1
    return bad


ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo not clean"
sh("git -C %s worktree prune; cp -a %s %s; rm -rf %s/_build" % (SRC, SRC, R, R))
for s in ns["SEEDS"]:
    if only and s["id"] not in only:
        continue
    d = V + "/seeded/" + s["id"]
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    for f in ("gpkg.h", "lib.sh", "mock.c", "geolib.py"):
        shutil.copy(V + "/tools/demo/" + f, d)
    if "sh" in s:
        open(d + "/demo.sh", "w").write(s["sh"])
    else:
        open(d + "/demo.sh", "w").write(s.get("pre", "") + '. "$(dirname "$0")/lib.sh"\n' + s.get("env", "") + 'timeout 120 python3 "$D/demo.py"\n')
    if "py" in s:
        open(d + "/demo.py", "w").write(s["py"].lstrip("\n"))
    for n, t in s.get("files", {}).items():
        open(d + "/" + n, "w").write(t)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    try:
        for f, a, b in s["edits"]:
            p = R + "/" + f
            t = open(p, encoding="utf-8", newline="").read()
            assert t.count(a) == s.get("count", 1), (s["id"], f, a, t.count(a))
            open(p, "w", encoding="utf-8", newline="").write(t.replace(a, b, 1))
        diff = sh("git -C %s diff" % R).stdout
        open(d + "/patch.diff", "w").write(diff)
        own = blame(diff)
        bad = sh("bash %s/demo.sh" % d, cwd=R)
        cs = {c: sh("GEODIFF_REPO=%s ./check %s" % (R, c), cwd=V) for c in s.get("checks", [s["property"]])}
    finally:
        sh("git -C %s checkout -- ." % R)
    good = sh("bash %s/demo.sh" % d, cwd=R)
    print("%-28s demo: unchanged %d, planted %d | %s" % (s["id"], good.returncode, bad.returncode, " ".join("%s=%d" % (c, r.returncode) for c, r in cs.items())))
    if own:
        print("   NOT ORIGINAL LINES:", own)
    if good.returncode:
        print("   UNCHANGED OUTPUT:", (good.stdout + good.stderr)[-600:])
    if not bad.returncode:
        print("   PLANTED OUTPUT:", (bad.stdout + bad.stderr)[-600:])
    for c, r in cs.items():
        for l in (r.stdout + r.stderr).splitlines()[:3]:
            print("      ", c, l[:230])

shutil.rmtree(R)
