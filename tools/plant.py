#!/usr/bin/env python3
"""Develop and confirm planted bugs (never used by a check).

  plant.py make SPEC.py [ID..]    write /verif/seeded/<id>/ from the BUGS list of SPEC.py
  plant.py confirm [ID..]         tests pass with the patch, demo 0 clean / !=0 patched
  plant.py check [ID..]           run the property's check against a patched copy

All work happens in copies under /tmp/plant.
"""
import json, os, re, shutil, subprocess, sys
SEEDED = "/verif/seeded"
WORK = "/tmp/plant"
PY = "/opt/venv/bin/python"


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, timeout=timeout,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def clone(name, patch=None):
    d = os.path.join(WORK, name)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.environ.get("PLANT_BASE", "/repo"), d, symlinks=True)
    if patch:
        r = sh("git apply %s" % patch, cwd=d)
        if r.returncode:
            raise SystemExit("%s: patch does not apply: %s" % (name, r.stdout))
    return d


def make(spec, ids):
    ns = {}
    exec(open(spec).read(), ns)
    for b in ns["BUGS"]:
        if ids and b["id"] not in ids:
            continue
        d = clone("mk")
        for fn, old, new in b["edits"]:
            p = os.path.join(d, fn)
            s = open(p, encoding="utf-8").read()
            if s.count(old) != 1:
                raise SystemExit("%s: %d matches of %r" % (b["id"], s.count(old), old))
            open(p, "w", encoding="utf-8").write(s.replace(old, new))
        diff = sh("git diff", cwd=d).stdout
        out = os.path.join(SEEDED, b["id"])
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w", encoding="utf-8").write(diff)
        open(out + "/demo.py", "w", encoding="utf-8").write(b["demo"].lstrip("\n"))
        open(out + "/demo.sh", "w").write(
            '#!/bin/bash\n# cwd: the repository\nhere=$(cd "$(dirname "$0")" && pwd)\n'
            'export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" LC_ALL=C.UTF-8\n'
            'exec timeout 250 %s "$here/demo.py"\n' % PY)
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"],
                   "what_it_breaks": b["breaks"]},
                  open(out + "/meta.json", "w"), indent=1)
        shutil.rmtree(d)


def confirm(i):
    s = os.path.join(SEEDED, i)
    clean = clone("clean_" + i)
    bad = clone("bad_" + i, s + "/patch.diff")
    r0 = sh("bash %s/demo.sh" % s, cwd=clean)
    r1 = sh("bash %s/demo.sh" % s, cwd=bad)
    t = os.path.join(WORK, "t_" + i)
    shutil.rmtree(t, ignore_errors=True)
    os.makedirs(t)
    sh("cp -a %s/tests %s/pyproject.toml %s/" % (bad, bad, t))
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=bad,
               LC_ALL="C.UTF-8", LANG="C.UTF-8")
    rt = sh(PY + " -m pytest -q --no-cov -p no:cacheprovider --rootdir . --timeout=300 "
            "-m 'not vcr' --junitxml=j.xml tests", cwd=t, env=env)
    sh("/usr/bin/python3 /opt/vp/results.py r.json junit:j.xml", cwd=t)
    base = json.load(open("/opt/vp/BASELINE.json"))
    res = json.load(open(t + "/r.json"))
    want = set(base.get("passed") or base.get("stable") or base["tests"])
    got = set(res.get("passed") or res.get("tests") or [])
    missing = want - got
    for x in (clean, bad, t):
        shutil.rmtree(x)
    ok = r0.returncode == 0 and r1.returncode not in (0, 124) and not missing
    print(i, "OK" if ok else "BAD", "clean", r0.returncode, "patched", r1.returncode,
          "tests missing", sorted(missing)[:3])
    if not ok:
        print(r0.stdout[-600:], "\n--\n", r1.stdout[-600:], rt.stdout[-300:])
    else:
        print("   ", r1.stdout.strip().splitlines()[-1:] )
    sys.stdout.flush()


def check(i, prop=None):
    s = os.path.join(SEEDED, i)
    prop = prop or json.load(open(s + "/meta.json"))["property"]
    bad = clone("chk_" + i, s + "/patch.diff")
    env = dict(os.environ, VERIF_REPO=bad, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
    import time
    t = time.time()
    r = sh("python3 check.py run %s" % prop, cwd=os.environ.get("VERIF_DIR", "/verif"), env=env, timeout=1000)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print(i, prop, "CAUGHT" if r.returncode == 1 and v else "MISSED rc=%d" % r.returncode,
          "%.0fs" % (time.time() - t), v[:1])
    if not v:
        print(r.stdout[-500:])
    sys.stdout.flush()
    shutil.rmtree(bad)


def suite(bad, t):
    """Baseline tests that do not pass on the tree `bad`."""
    shutil.rmtree(t, ignore_errors=True)
    os.makedirs(t)
    sh("cp -a %s/tests %s/pyproject.toml %s/" % (bad, bad, t))
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=bad,
               LC_ALL="C.UTF-8", LANG="C.UTF-8")
    sh(PY + " -m pytest -q --no-cov -p no:cacheprovider --rootdir . --timeout=300 "
       "-m 'not vcr' --junitxml=j.xml tests", cwd=t, env=env)
    sh("/usr/bin/python3 /opt/vp/results.py r.json junit:j.xml", cwd=t)
    base = json.load(open("/opt/vp/BASELINE.json"))
    res = json.load(open(t + "/r.json"))
    shutil.rmtree(t)
    want = set(base.get("passed") or base.get("stable") or base["tests"])
    return sorted(want - set(res.get("passed") or res.get("tests") or []))


def probe(spec, ids, only=None):
    """Apply the edits of SPEC to copies, run the test suite (8 at a time), then the checks."""
    import time
    from concurrent.futures import ThreadPoolExecutor
    ns = {}
    exec(open(spec).read(), ns)
    bugs = [b for b in ns["BUGS"] if not ids or b["id"] in ids]

    def prep(b):
        d = clone("pr_%d_%s" % (os.getpid(), b["id"]))
        for fn, old, new in b["edits"]:
            p = os.path.join(d, fn)
            s = open(p, encoding="utf-8").read()
            if s.count(old) != 1:
                return d, ["%d matches of %r" % (s.count(old), old)]
            open(p, "w", encoding="utf-8").write(s.replace(old, new))
        if b.get("notest") or os.environ.get("NOTEST"):
            return d, []
        return d, suite(d, os.path.join(WORK, "tp_" + b["id"]))

    with ThreadPoolExecutor(8) as ex:
        prepared = list(ex.map(prep, bugs))
    for b, (d, missing) in zip(bugs, prepared):
        if missing:
            print(b["id"], "TESTS FAIL" if not b.get("quiet") else "TESTS FAIL (refactoring)", missing[:2])
        else:
            for prop in (b["property"],) + tuple(b.get("also", ())):
                t = time.time()
                env = dict(os.environ, VERIF_REPO=d)
                r = sh("python3 check.py run %s" % prop, cwd=os.environ.get("VERIF_DIR", "/verif"), env=env, timeout=1500)
                v = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "KNOWN"))]
                print(b["id"], prop, "CAUGHT" if r.returncode == 1 and v else "missed" if r.returncode == 0 else "rc=%d" % r.returncode,
                      "%.0fs" % (time.time() - t))
                if r.returncode not in (0, 1):
                    print(r.stdout[-800:])
                sys.stdout.flush()
        shutil.rmtree(d)


def main():
    os.makedirs(WORK, exist_ok=True)
    a = sys.argv[1:]
    if a[0] == "make":
        make(a[1], a[2:])
    elif a[0] == "probe":
        probe(a[1], a[2:])
    else:
        ids = a[1:] or sorted(os.listdir(SEEDED))
        for i in ids:
            {"confirm": confirm, "check": check}[a[0]](i)


main()
