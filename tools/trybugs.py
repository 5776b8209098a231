"""Quick trials of changes without a demonstration: trybugs.py FILE [--jobs N] [id ...].  FILE has bug(id, property[s], file, old, new) lines.
For each: the stable tests, then the checks of its properties, in a scratch copy of /repo."""
import concurrent.futures as F, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = []
def bug(id, props, file, old, new): BUGS.append((id, props.split(), file, old, new))


def one(b):
    id, props, file, old, new = b
    w = tempfile.mkdtemp(prefix="bug-")
    try:
        subprocess.run("cp -a /repo %s/r && mkdir %s/v && cd %s && tar cf - --exclude=./out --exclude=./seeded --exclude=./.git . | tar xf - -C %s/v" % (w, w, V, w), shell=True, check=True)
        p = os.path.join(w, "r/src/pypsrp", file)
        t = open(p).read()
        if t.count(old) != 1: return id, "BAD", "%d matches" % t.count(old)
        open(p, "w").write(t.replace(old, new))
        env = dict({k: v for k, v in os.environ.items() if "CA_BUNDLE" not in k and "proxy" not in k.lower()}, TZ="UTC", PYTHONHASHSEED="0", PYTHONPATH=w + "/r/src", PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run("/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests/tests_pypsrp 2>&1 | grep -E '^FAILED|^ERROR|passed|failed' | cut -c1-150", shell=True, cwd=w + "/r", env=env, capture_output=True, text=True)
        if "351 passed" not in r.stdout: return id, "TESTS", r.stdout.strip().splitlines()[:1]
        got = []
        for c in props:
            r = subprocess.run(["./check.sh", c], cwd=w + "/v", env=dict(os.environ, VP_REPO=w + "/r", VERIF_SEED="1", VERIF_TIER="quick"), capture_output=True, text=True, timeout=1500)
            l = r.stdout.splitlines()
            v = [i for i, x in enumerate(l) if x.startswith("VIOLATION")]
            got.append("%s %s" % (c, l[v[0] + 1].strip()[:160] if v and len(l) > v[0] + 1 else "rc=%d" % r.returncode))
            if v: return id, "CAUGHT", got[-1]
        return id, "MISSED", got
    finally:
        shutil.rmtree(w, ignore_errors=True)


a = sys.argv[1:]
jobs = int(a.pop(a.index("--jobs") + 1)) if "--jobs" in a else 3
a = [x for x in a if x != "--jobs"]
exec(compile(open(a[0]).read(), a[0], "exec"))
with F.ThreadPoolExecutor(jobs) as ex:
    for r in ex.map(one, [b for b in BUGS if not a[1:] or b[0] in a[1:]]): print(*r, flush=True)
