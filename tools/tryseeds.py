"""Runs the checks against the changes of /verif/seeded in scratch copies: tryseeds.py [--all] [--jobs N] [id ...]
Without --all only the check of the change's own property is run.  Prints one line per change with the checks that report a violation."""
import concurrent.futures as F, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(sid, allp, n):
    w = tempfile.mkdtemp(prefix="try-")
    try:
        subprocess.run("cp -a /repo %s/r && mkdir %s/v && cd %s && tar cf - --exclude=./out --exclude=./seeded --exclude=./.git . | tar xf - -C %s/v" % (w, w, V, w), shell=True, check=True)
        d = os.path.join(V, "seeded", sid)
        a = subprocess.run(["git", "-C", w + "/r", "apply", d + "/patch.diff"], capture_output=True, text=True)
        if a.returncode: return sid, "?", "does not apply: " + a.stderr
        prop = json.load(open(d + "/meta.json"))["property"]
        man = json.load(open(V + "/MANIFEST.json"))
        props = [prop] + [c["property"] for c in man["checks"] if c["property"] != prop] if allp else [prop]
        res = {}
        for p in props:
            r = subprocess.run(["./check.sh", p], cwd=w + "/v", env=dict(os.environ, VP_REPO=w + "/r", VERIF_SEED="1", VERIF_TIER="quick"), capture_output=True, text=True, timeout=1500)
            res[p] = r.returncode
            if r.returncode not in (0, 1): print(sid, p, r.returncode, (r.stdout + r.stderr)[-600:], flush=True)
            if p == prop: first = [l for l in r.stdout.splitlines() if not l.startswith("[") and not l.startswith("VIOLATION")][:1]
        return sid, prop, "%s  all:%s  %s" % ("CAUGHT" if res[prop] == 1 else "MISSED rc=%d" % res[prop], " ".join(p for p in props if res[p] == 1), (first or [""])[0][:160])
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    args = sys.argv[1:]
    allp = "--all" in args
    jobs = int(args[args.index("--jobs") + 1]) if "--jobs" in args else 3
    ids = [a for i, a in enumerate(args) if not a.startswith("--") and (i == 0 or args[i - 1] != "--jobs")]
    ids = ids or sorted(os.listdir(os.path.join(V, "seeded")))
    with F.ThreadPoolExecutor(jobs) as ex:
        for f in F.as_completed([ex.submit(one, s, allp, i) for i, s in enumerate(ids)]):
            print(*f.result(), sep="  ", flush=True)
