"""Runs TLC on the specifications and turns its output into graphs, cases and verdicts."""
import collections, json, os, random, re, shutil, subprocess, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, "specs")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


class Result:
    def __init__(self, out, wall):
        self.out, self.wall = out, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else None
        self.ok = "Model checking completed. No error has been found." in out
        self.lines = []
        for ln in out.splitlines():
            if ln.startswith('"{') or ln.startswith('"['):
                self.lines.append(json.loads(json.loads(ln)))


def run(module, cfg, files=None, workers=1, timeout=600, heap="6g", extra=(), must_pass=True):
    """module: name of a module in /verif/specs or in files.  cfg: text of the configuration."""
    d = tempfile.mkdtemp(prefix="vtlc-")
    try:
        for f in os.listdir(SPECS):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPECS, f), d)
        for n, c in (files or {}).items():
            with open(os.path.join(d, n), "w") as fh:
                fh.write(c)
        with open(os.path.join(d, "run.cfg"), "w") as fh:
            fh.write(cfg)
        t0 = time.monotonic()
        cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + d,
               "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-nowarning", "-metadir", os.path.join(d, "st"),
               "-config", "run.cfg", *extra, module + ".tla"]
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out = p.stdout.decode("utf-8", "replace")
        r = Result(out, time.monotonic() - t0)
        if must_pass and not r.ok:
            txt = "\n".join(x for x in out.splitlines() if not x.startswith(('"{', "Parsing file", "Semantic proc", "Linting", "TLC2 Ver", "Running bre")))
            raise TlcError("TLC failed on %s:\n%s" % (module, txt[:3000]))
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def cfg(consts=None, init="Init", next="Next", view=None, dump=False, invariants=(), properties=(), constraint=None, extra=""):
    t = "INIT %s\nNEXT %s\nCHECK_DEADLOCK FALSE\n" % (init, next)
    if view: t += "VIEW %s\n" % view
    if dump: t += "ACTION_CONSTRAINT Dump\n"
    if constraint: t += "CONSTRAINT %s\n" % constraint
    for i in invariants: t += "INVARIANT %s\n" % i
    for i in properties: t += "PROPERTY %s\n" % i
    for k, v in (consts or {}).items():
        t += "CONSTANT %s = %s\n" % (k, tla(v))
    return t + extra


class Raw(str):
    """A TLA+ expression."""


def tla(v):
    if isinstance(v, Raw): return str(v)
    if isinstance(v, dict): return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    if isinstance(v, bool): return "TRUE" if v else "FALSE"
    if isinstance(v, int): return str(v)
    if isinstance(v, str): return json.dumps(v)
    if isinstance(v, (set, frozenset)): return "{" + ", ".join(tla(x) for x in sorted(v, key=str)) + "}"
    if isinstance(v, (list, tuple)): return "<<" + ", ".join(tla(x) for x in v) + ">>"
    raise TypeError(v)


def mc(module, consts, properties=(), invariants=(), constraint=None, timeout=600):
    """Exhaustive exploration with the edge dump.  Returns (result, edges) with edges = [(from, op, obs, to)]
    where from/to are canonical JSON strings."""
    # constants that are not plain values are passed through an MC module as definitions
    defs = "".join("mc_%s == %s\n" % (k, tla(v)) for k, v in consts.items())
    mod = "---- MODULE MC ----\nEXTENDS %s\n%s====\n" % (module, defs)
    c = cfg(None, view="View", dump=True, properties=properties, invariants=invariants, constraint=constraint)
    for k in consts:
        c += "CONSTANT %s <- mc_%s\n" % (k, k)
    r = run("MC", c, files={"MC.tla": mod}, timeout=timeout)
    key = lambda x: json.dumps(x, sort_keys=True)
    edges = [(key(e["f"]), e["o"], e["x"], key(e["t"])) for e in r.lines]
    inits = sorted({key(e["f"]) for e in r.lines if e["i"]})
    r.lines = None
    r.out = ""
    return r, edges, inits


def walks(edges, inits, seed=1, max_len=40, budget=None):
    """Cover every edge with walks from initial states (canonical JSON).  Yields [(op, obs, edge index)].
    With a budget (number of steps) the set of edges covered is a seeded sample; returns (walks, covered)."""
    rnd = random.Random(seed)
    outs = collections.defaultdict(list)
    for i, e in enumerate(edges):
        outs[e[0]].append(i)
    for v in outs.values():
        rnd.shuffle(v)
    # shortest path tree from the initial states
    par = {k: None for k in inits}
    dq = collections.deque(inits)
    root = {k: k for k in inits}
    while dq:
        u = dq.popleft()
        for i in outs[u]:
            t = edges[i][3]
            if t not in par:
                par[t] = i
                root[t] = root[u]
                dq.append(t)
    todo = {u: list(v) for u, v in outs.items()}
    left = {i for i in range(len(edges)) if edges[i][0] in par}
    res, covered, steps = [], set(), 0

    def path_to(u):
        p = []
        while par[u] is not None:
            p.append(par[u])
            u = edges[par[u]][0]
        return p[::-1], u

    order = [u for u in par]
    if budget is not None:
        rnd.shuffle(order)
    for u0 in order:
        while todo.get(u0):
            if todo[u0][-1] not in left:
                todo[u0].pop()
                continue
            p, r0 = path_to(u0)
            cur = u0
            while True:
                nxt = None
                lst = todo.get(cur, [])
                while lst and lst[-1] not in left:
                    lst.pop()
                if lst and len(p) < max_len:
                    nxt = lst.pop()
                elif len(p) < max_len:
                    # look at most three steps ahead for uncovered edges
                    front, seen = [(cur, [])], {cur}
                    found = None
                    for _ in range(3):
                        nf = []
                        for x, pp in front:
                            for i in outs[x]:
                                y = edges[i][3]
                                if y in seen: continue
                                seen.add(y)
                                ly = todo.get(y, [])
                                while ly and ly[-1] not in left:
                                    ly.pop()
                                if ly:
                                    found = pp + [i]
                                    break
                                nf.append((y, pp + [i]))
                                if len(nf) > 200: break
                            if found: break
                        if found: break
                        front = nf
                    if found and len(p) + len(found) < max_len:
                        p += found
                        cur = edges[found[-1]][3]
                        continue
                if nxt is None:
                    break
                p.append(nxt)
                left.discard(nxt)
                cur = edges[nxt][3]
            for i in p:
                left.discard(i)
                covered.add(i)
            steps += len(p)
            res.append((r0, [(edges[i][1], edges[i][2], i) for i in p]))
            if budget is not None and steps >= budget:
                return res, covered
    return res, covered


TRACE = """---- MODULE TraceRun ----
EXTENDS %(module)s
Traces == JsonDeserialize("traces.json")
VARIABLES tr, l, st, bad
TInit == /\\ tr \\in 1..Len(Traces) /\\ l = 1 /\\ st = InitOf(Traces[tr].cfg) /\\ bad = FALSE
         /\\ s = 0 /\\ op = 0 /\\ obs = 0
TNext == /\\ ~bad /\\ l <= Len(Traces[tr].ev)
         /\\ LET e == Traces[tr].ev[l]
                r == Step(st, e.op) IN
            /\\ st' = r.s /\\ l' = l + 1
            /\\ IF r.obs = e.obs THEN bad' = FALSE
               ELSE bad' = TRUE /\\ PrintT(ToJson([t |-> tr, l |-> l, exp |-> r.obs]))
         /\\ UNCHANGED <<tr, s, op, obs>>
TView == <<tr, l, bad>>
====
"""


def check_traces(module, consts, traces, timeout=600):
    """traces: [{"cfg": ..., "ev": [{"op":..., "obs":[str]}]}].  Returns (result, [(trace, event, expected)])."""
    if not traces:
        return None, []
    defs = "".join("mc_%s == %s\n" % (k, tla(v)) for k, v in consts.items())
    mod = TRACE % dict(module=module)
    mod = mod.replace("====\n", defs + "====\n")
    c = "INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\nVIEW TView\n" + "".join("CONSTANT %s <- mc_%s\n" % (k, k) for k in consts)
    r = run("TraceRun", c, files={"TraceRun.tla": mod, "traces.json": json.dumps(traces)}, timeout=timeout, workers=1)
    bad = [(x["t"] - 1, x["l"] - 1, x["exp"]) for x in r.lines]
    want = sum(len(t["ev"]) + 1 for t in traces)
    if not bad and r.distinct != want:
        raise TlcError("trace validation consumed %d of %d events" % (r.distinct, want))
    return r, bad


PREDICT = """---- MODULE PredictRun ----
EXTENDS %(module)s
Traces == JsonDeserialize("traces.json")
VARIABLES tr, l, st
PInit == /\\ tr \\in 1..Len(Traces) /\\ l = 1 /\\ st = InitOf(Traces[tr].cfg) /\\ s = 0 /\\ op = 0 /\\ obs = 0
PNext == /\\ l <= Len(Traces[tr].ops)
         /\\ LET o == Traces[tr].ops[l] IN
            IF Useful(st, o)
            THEN LET r == Step(st, o) IN st' = r.s /\\ PrintT(ToJson([t |-> tr, l |-> l, x |-> r.obs]))
            ELSE st' = st
         /\\ l' = l + 1 /\\ UNCHANGED <<tr, s, op, obs>>
PView == <<tr, l>>
%(defs)s====
"""


def predict(module, consts, items, timeout=600):
    """items: [(cfg, [op])].  Runs the histories through the specification; calls outside its contract are dropped.
    Returns (result, [(cfg, [(op, expected obs)])])."""
    defs = "".join("mc_%s == %s\n" % (k, tla(v)) for k, v in consts.items())
    c = "INIT PInit\nNEXT PNext\nCHECK_DEADLOCK FALSE\nVIEW PView\n" + "".join("CONSTANT %s <- mc_%s\n" % (k, k) for k in consts)
    r = run("PredictRun", c, files={"PredictRun.tla": PREDICT % dict(module=module, defs=defs),
                                    "traces.json": json.dumps([dict(cfg=a, ops=b) for a, b in items])}, timeout=timeout)
    exp = [dict() for _ in items]
    for x in r.lines:
        exp[x["t"] - 1][x["l"] - 1] = x["x"]
    out = [(a, [(o, exp[i][k]) for k, o in enumerate(b) if k in exp[i]]) for i, (a, b) in enumerate(items)]
    return r, out
