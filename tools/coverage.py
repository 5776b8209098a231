"""Which lines of pypsrp each check runs: coverage.py OUTDIR [Cxx ...] writes OUTDIR/Cxx.json ({file: [lines]}); quick tier."""
import glob, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOK = r'''
import sys, os, json, atexit
_M = sys.monitoring
_hit = set()
def _line(code, n):
    f = code.co_filename
    if "/src/pypsrp/" in f: _hit.add((f.rsplit("/", 1)[1], n))
    return _M.DISABLE
_M.use_tool_id(3, "cov"); _M.register_callback(3, _M.events.LINE, _line); _M.set_events(3, _M.events.LINE)
def _dump():
    d = os.environ["COV_OUT"]
    with open(os.path.join(d, "part.%s.%d" % (os.environ["COV_ID"], os.getpid())), "w") as f: json.dump(sorted(_hit), f)
atexit.register(_dump)
'''

if __name__ == "__main__":
    out = os.path.abspath(sys.argv[1]); os.makedirs(out, exist_ok=True)
    ids = sys.argv[2:] or ["C%02d" % i for i in range(1, len(glob.glob(V + "/checks/c[0-9][0-9].py")) + 1)]
    code = HOOK + "\nsys.argv = ['run.py', os.environ['COV_ID'], 'quick']\nsys.path.insert(0, %r)\nimport lib.check as K\n_o = K._shard\ndef _s(x):\n    r = _o(x); _dump(); return r\nK._shard = _s\n__file__ = %r\nexec(compile(open(__file__).read(), __file__, 'exec'))\n" % (V, V + "/run.py")
    for i in ids:
        subprocess.run(["/opt/venv/bin/python", "-c", code], cwd=V, env=dict(os.environ, COV_OUT=out, COV_ID=i, PYTHONHASHSEED="0", TZ="UTC", VERIF_SEED="1", VERIF_TIER="quick"))
        d = {}
        for p in glob.glob("%s/part.%s.*" % (out, i)):
            for f, n in json.load(open(p)): d.setdefault(f, set()).add(n)
            os.unlink(p)
        json.dump({f: sorted(x) for f, x in d.items()}, open("%s/%s.json" % (out, i), "w"))
        print(i, sum(map(len, d.values())), flush=True)
