"""Makes /verif/seeded from tools/seeds/*.py: mkseed.py [id ...].  Each change is tried in a scratch copy of /repo."""
import glob, json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
SEEDS = []
def seed(id, prop, file, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=[(file, o, n) for o, n in edits] if isinstance(file, str) else edits, needs=needs, breaks=breaks, demo=demo))
for f in sorted(glob.glob(os.path.join(HERE, "seeds", "b*.py"))): exec(compile(open(f).read(), f, "exec"))
BASE = "53d34bf"


def sh(cmd, cwd, **k): return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)


def main(ids):
    stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) or [])
    w = tempfile.mkdtemp(prefix="seed-")
    try:
        sh("cp -a /repo/. %s/r" % w, "/")
        r = w + "/r"
        for s in SEEDS:
            if ids and s["id"] not in ids: continue
            sh("git checkout -q -- .", r)
            bad = None
            for f, o, n in s["edits"]:
                p = os.path.join(r, "src/pypsrp", f)
                t = open(p).read()
                if t.count(o) != 1: bad = "%s: %d matches of %r" % (f, t.count(o), o[:80])
                else: open(p, "w").write(t.replace(o, n))
            if bad:
                print(s["id"], "BAD", bad)
                continue
            diff = sh("git diff", r).stdout
            d = os.path.join(OUT, s["id"])
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(diff)
            for x in ("fake.py", "codec.py"):
                shutil.copy(os.path.join(HERE, "seeds", x) if x == "fake.py" else os.path.join(os.path.dirname(HERE), "lib", x), d)
            open(d + "/demo.py", "w").write("from fake import *\n" + s["demo"].strip() + "\nprint('ok')\n")
            open(d + "/demo.sh", "w").write('#!/bin/bash\nd="$(cd "$(dirname "$0")" && pwd)"\nPYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$d/demo.py"\n')
            os.chmod(d + "/demo.sh", 0o755)
            json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
            a = sh("bash %s/demo.sh" % d, "/repo", timeout=120)
            b = sh("bash %s/demo.sh" % d, r, timeout=120)
            t = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider tests/tests_pypsrp 2>&1 | grep -E '^FAILED|passed|failed' | cut -c1-150", r, env=dict({k: v for k, v in os.environ.items() if "CA_BUNDLE" not in k and "proxy" not in k.lower()}, TZ="UTC", PYTHONHASHSEED="0", PYTHONPATH=r + "/src", PYTHONDONTWRITEBYTECODE="1"))
            print(s["id"], "clean:", a.returncode, (a.stdout + a.stderr)[-300:].strip() if a.returncode else "", "| bug:", b.returncode, (b.stdout + b.stderr).strip().splitlines()[-1:] , "| tests:", t.stdout.strip().splitlines()[-4:], flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)


main(sys.argv[1:])
