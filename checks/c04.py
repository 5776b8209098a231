"""C04: pipeline results, specs/Stream.tla."""
from lib import env, tlc
from lib.check import conform_walks, conform_predicted
from checks.stream import Driver

PROPS = ["AppendOnly", "OnlyTarget", "ErrorsIffFailed", "EndMeansEnded", "BegunAnew"]
INVS = ["ExactlyOnce", "PendingNotVisible", "FailedHasErrors"]
PIPE = ["out"] * 5 + ["error", "warning", "verbose", "debug", "information", "progress", "sRunning"]
POOL = ["event", "appdata", "init", "unsup", "cap"]


def items(rnd, kinds, n, whole=.6):
    out = []
    for _ in range(n):
        x = rnd.random()
        if x < whole: out.append(dict(k=rnd.choice(kinds), p="w", x=0))
        elif x < whole + .2: out.append(dict(k=rnd.choice(kinds), p="a", x=0))
        else: out.append(dict(k="", p="b", x=rnd.randint(1, 4)))
    return out


def rep(t, its): return dict(t=t, items=its)


def random_history(rnd, n, npipes, pool_share, big=8):
    W = lambda k: dict(k=k, p="w", x=0)
    pre = items(rnd, POOL, rnd.randint(0, 3)) if pool_share > .3 else []
    cap = [W("cap"), W("init")]
    ops = [dict(n="connect", i=0, reps=[rep(0, cap + pre), rep(0, (items(rnd, POOL, rnd.randint(0, 3), .9) if pool_share > .3 else [W("appdata")]) + [W("sOpened")])])]
    ops += [dict(n="open", i=0, reps=[rep(0, [W("cap")] + pre), rep(0, items(rnd, POOL, rnd.randint(0, 2)) if pool_share > .3 else []), rep(0, [W("appdata"), W("sOpened")])])]
    ops += [dict(n="begin", i=i + 1, reps=[]) for i in range(npipes)]
    kinds = PIPE + POOL * int(pool_share * 4)
    fin = ["sCompleted", "sCompleted", "sCompletedE", "sFailed", "sFailedE", "sStopped", "sStoppedE"]
    for _ in range(n):
        i = rnd.randint(1, npipes)
        x = rnd.random()
        if x < .6:
            y = rnd.random()
            its = items(rnd, kinds, rnd.randint(0, big))
            if rnd.random() < .08: its.insert(rnd.randint(0, len(its)), W(rnd.choice(fin + ["sStopping"])))
            ops.append(dict(n="poll", i=i, reps=[rep(1 if y < .15 else 2 if y < .2 else 0, its if y >= .2 else [])]))
        elif x < .72:
            reps = []
            for _ in range(rnd.randint(0, 6)):
                reps.append(rep(1, []) if rnd.random() < .4 else rep(0, items(rnd, kinds, rnd.randint(0, 5))))
            if rnd.random() < .8:
                its = items(rnd, kinds, rnd.randint(0, 5))
                its.insert(rnd.randint(0, len(its)), W(rnd.choice(fin)))
                reps.append(rep(0, its))
            else: reps.append(rep(2, []))
            ops.append(dict(n="end", i=i, reps=reps))
        elif x < .8: ops.append(dict(n="begin", i=i, reps=[]))
        elif x < .86: ops.append(dict(n="close", i=i, reps=[]))
        elif x < .88: ops.append(dict(n="clear", i=i, reps=[]))
        else: ops.append(dict(n="pavail", i=0, reps=[rep(0, items(rnd, POOL + ["poolwarn", "warning"], rnd.randint(0, 4)))]))
    return ops


def check(ck):
    th = env.THOROUGH
    kinds = ["out", "warning", "sFailedE", "sCompleted", "event"]
    consts = dict(N=2, MaxMsgs=6 if th else 5, MaxPend=1, Kinds=frozenset(kinds), Found=frozenset([False]))
    r, edges, inits = tlc.mc("Stream", consts, properties=PROPS, invariants=INVS, timeout=3000)
    ck.model(r)
    ck.log("model: %d states, %d edges" % (r.distinct, len(edges)))
    conform_walks(ck, Driver, edges, lambda k: dict(n=2, seed=env.SEED, found=False), inits, label="delivery", budget=150000 if th else 12000, max_len=30)
    runs = [(dict(n=4, seed=env.SEED * 1000 + j, found=j % 3 == 2), random_history(ck.rnd, 60, 4, .25)) for j in range(1500 if th else 160)]
    # a lot of everything: output, records, operation timeouts
    W = lambda k: dict(k=k, p="w", x=0)
    for j in range(6 if th else 2):
        ops = random_history(ck.rnd, 4, 4, .25)
        for i in (1, 2):
            ops.append(dict(n="begin", i=i, reps=[]))
            ops += [dict(n="poll", i=i, reps=[rep(0, items(ck.rnd, ["out"] * 40 + PIPE, 500))]) for _ in range(3 if i == 1 else 1)]
            ops.append(dict(n="poll", i=i, reps=[rep(0, items(ck.rnd, ["progress", "error", "information"], 300, 1))]))
            ops.append(dict(n="end", i=i, reps=[rep(1, []) for _ in range(150)] + [rep(0, [W("out")])] * 3 + [rep(1, [])] * 5 + [rep(0, [W("out"), W("sCompleted")])]))
        runs.append((dict(n=4, seed=env.SEED * 1000 + j, found=False), ops))
    conform_predicted(ck, Driver, "Stream", dict(consts, N=4), runs, label="4 pipelines", timeout=1500)
