"""Bookkeeping of one check: violations, known findings, replays, evidence, exit code."""
import json, multiprocessing as mp, os, random, signal, sys, time, traceback
from . import env, tlc

KNOWN = os.path.join(env.VERIF, "known_findings.json")


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level, self.t0 = pid, level, time.monotonic()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.viols, self.knowns, self.assumptions = [], {}, []
        self.steps = 0
        self.out = os.path.join(env.VERIF, "out", pid)
        os.makedirs(self.out, exist_ok=True)
        for f in os.listdir(self.out):
            if f.startswith("replay-"):
                os.remove(os.path.join(self.out, f))
        self.rnd = random.Random("%s-%d" % (pid, env.SEED))
        self.kf = [k for k in json.load(open(KNOWN))["findings"] if k["property"] == pid]

    def log(self, *a):
        print("[%s %.1fs]" % (self.pid, time.monotonic() - self.t0), *a, flush=True)

    def violation(self, what, replay, key=None):
        """key: identifies the specific failing input for the known-findings list."""
        for k in self.kf:
            if key is not None and key == k["key"]:
                self.knowns[k["key"]] = k["what"]
                return
        self.viols.append(what)
        n = len(self.viols)
        if n > 3:
            return
        p = os.path.join(self.out, "replay-%d.json" % n)
        with open(p, "w") as f:
            json.dump(dict(property=self.pid, what=what, seed=env.SEED, tier=env.TIER, replay=replay), f, indent=1, default=repr)
        print("VIOLATION property=%s replay=%s" % (self.pid, p))
        print("  " + what[:1500], flush=True)

    def model(self, r, transitions=None):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated if transitions is None else transitions

    def traces(self, n, steps=0):
        self.cov["traces_validated_against_impl"] += n
        self.steps += steps

    def sample(self, x, limit=4):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(x)

    def finish(self):
        for k, w in self.knowns.items():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, w))
        for k in self.kf:
            if k["key"] not in self.knowns:
                print("note: known finding not reproduced: %s" % k["key"])
        self.cov["impl_steps_compared"] = self.steps
        self.cov["known_findings_reproduced"] = len(self.knowns)
        ev = dict(property=self.pid, tier=env.TIER if env.TIER in ("quick", "thorough") else "quick", seed=env.SEED, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.monotonic() - self.t0, 2), violations=len(self.viols))
        os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(env.VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        self.log("states=%d transitions=%d traces=%d steps=%d violations=%d" % (
            self.cov["states"], self.cov["transitions"], self.cov["traces_validated_against_impl"], self.steps, len(self.viols)))
        return 1 if self.viols else 0


# ------------------------------------------------------------------ running the real code
def _alarm(sig, frm):
    raise env.Runaway("time limit")


def guarded(limit, f, *a):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        return f(*a)
    finally:
        signal.alarm(0)


_JOB = [None]


def _shard(idx):
    f, items = _JOB[0]
    out = []
    for i in idx:
        try:
            out.append((i, guarded(60, f, items[i])))
        except env.Runaway as e:
            out.append((i, ("__runaway__", repr(e))))
        except Exception as e:
            out.append((i, ("__crash__", "".join(traceback.format_exception(e))[-3000:])))
    return out


def pmap(f, items, procs=None):
    """Run f over items in forked workers (the code under test is already loaded)."""
    items = list(items)
    procs = min(procs or env.CORES, max(1, len(items)))
    _JOB[0] = (f, items)
    if procs == 1 or len(items) < 4:
        res = _shard(range(len(items)))
    else:
        ctx = mp.get_context("fork")
        n = min(len(items), procs * 4)
        with ctx.Pool(procs) as p:
            res = [x for r in p.imap_unordered(_shard, [list(range(k, len(items), n)) for k in range(n)]) for x in r]
    res.sort(key=lambda x: x[0])
    return [r for _, r in res]


def run_walk(driver, cfgv, ops):
    """Run ops on a fresh driver; returns the list of observations (lists of strings)."""
    got = []
    d = driver(cfgv)
    try:
        for o in ops:
            try:
                x = d.step(o)
            except env.Runaway as e:
                got.append(["runaway", str(e)])
                return got
            got.append([str(y) for y in x])
    finally:
        d.close()
    return got


class _WalkJob:
    def __init__(self, driver): self.driver = driver
    def __call__(self, item):
        cfgv, steps = item
        got = run_walk(self.driver, cfgv, [s[0] for s in steps])
        for k, g in enumerate(got):
            if g != steps[k][1]:
                return ("bad", k, g)
        return ("ok", len(got))


class _TraceJob:
    def __init__(self, driver): self.driver = driver
    def __call__(self, item):
        cfgv, ops = item
        return run_walk(self.driver, cfgv, ops)


def conform_walks(ck, driver, edges, cfg_of, inits, max_len=40, budget=None, label=""):
    """Binding A: replay a cover of the explored graph on the real code."""
    ws, covered = tlc.walks(edges, inits, seed=env.SEED, max_len=max_len, budget=budget)
    items = [(cfg_of(r0), steps) for r0, steps in ws]
    res = pmap(_WalkJob(driver), items)
    bad = _report(ck, items, res, label)
    ck.log("%s: %d/%d edges replayed in %d walks, %d bad" % (label, len(covered), len(edges), len(ws), bad))
    ck.cov[label + " edges"] = len(edges)
    ck.cov[label + " edges replayed"] = len(covered)
    if ws:
        s = min(ws, key=lambda w: abs(len(w[1]) - 8))
        ck.sample(dict(walk=[dict(op=x[0], expect=x[1]) for x in s[1]]))
    return bad


def conform_predicted(ck, driver, module, consts, items, label="", timeout=600):
    """Binding B': random histories run through the specification by TLC, then compared step by step on the real code."""
    r, exp = tlc.predict(module, consts, items, timeout=timeout)
    ck.model(r)
    items = [(c, [(o, x, None) for o, x in st]) for c, st in exp]
    res = pmap(_WalkJob(driver), items)
    bad = _report(ck, items, res, label)
    ck.log("%s: %d random histories (%d steps in contract), %d bad" % (label, len(items), sum(len(i[1]) for i in items), bad))
    if items:
        s = min(items, key=lambda w: abs(len(w[1]) - 8))
        ck.sample(dict(history=[dict(op=x[0], expect=x[1]) for x in s[1][:12]]))
    return bad


def _report(ck, items, res, label):
    bad = 0
    for (cfgv, steps), r in zip(items, res):
        if r[0] == "ok":
            ck.traces(1, r[1])
        else:
            bad += 1
            if r[0] == "bad":
                k, g = r[1], r[2]
                ck.violation("%s after %d steps, operation %s: specification expects %s, implementation shows %s" % (
                    label, k, json.dumps(steps[k][0]), json.dumps(steps[k][1]), json.dumps(g)),
                    dict(config=cfgv, history=[s[0] for s in steps[:k + 1]], expected=steps[k][1], got=g))
            else:
                ck.violation("%s: %s %s" % (label, r[0], r[1].strip().splitlines()[-1]), dict(config=cfgv, history=[s[0] for s in steps]))
    return bad


def conform_traces(ck, driver, module, consts, items, label="", timeout=600):
    """Binding B: run random histories on the real code, have TLC validate the recorded traces."""
    res = pmap(_TraceJob(driver), items)
    traces, src = [], []
    for (cfgv, ops), got in zip(items, res):
        if isinstance(got, tuple):
            ck.violation("%s: %s %s" % (label, got[0], got[1]), dict(config=cfgv, history=ops))
            continue
        traces.append(dict(cfg=cfgv, ev=[dict(op=o, obs=g) for o, g in zip(ops, got)]))
        src.append((cfgv, ops, got))
    r, bad = tlc.check_traces(module, consts, traces, timeout=timeout)
    if r is not None:
        ck.model(r)
    badt = {b[0] for b in bad}
    for i, (cfgv, ops, got) in enumerate(src):
        if i not in badt:
            ck.traces(1, len(got))
    for t, l, exp in bad:
        cfgv, ops, got = src[t]
        ck.violation("%s trace rejected at event %d, operation %s: specification expects %s, implementation showed %s" % (
            label, l, json.dumps(ops[l]), json.dumps(exp), json.dumps(got[l])),
            dict(config=cfgv, history=ops[:l + 1], expected=exp, got=got[l]))
    ck.log("%s: %d recorded traces validated by TLC, %d rejected" % (label, len(traces), len(bad)))
    if traces:
        ck.sample(dict(trace=min(traces, key=lambda t: abs(len(t["ev"]) - 6))))
    return len(bad)
