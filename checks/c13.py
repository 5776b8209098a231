"""C13: retries, specs/Transport.tla."""
import json
from lib import env, tlc
from lib.check import conform_walks, conform_predicted
from .transport import Driver

PROPS = ["OthersOnce", "ReceiveBounded", "OnlyTimeoutsRetried", "NeverClear", "ClearOnlyWithout", "EveryMessageAuthenticated", "LostIsLost", "ClosedIsLost", "RefusedTwice", "ProbeLost"]


def rand_x(rnd, enc):
    x = []
    for _ in range(rnd.choice([0, 1, 1, 2, 3, 5, 6, 8])):
        x += ["good"] * rnd.choice([0, 0, 1, 2, 3]) * enc + [rnd.choice(["rt", "ct"])]
    if enc and rnd.random() < .3: x += ["good"] * rnd.choice([0, 0, 3]) + ["anew"]
    return x + ["good"] * (rnd.choice([0, 1, 2, 3]) if enc else 0) + ([rnd.choice(["cerr", "cut", "fault", "text", "401"] + ["anew"] * enc)] if rnd.random() < .4 else [])


def rand_op(rnd, enc):
    k = rnd.choice(["recv", "recv", "other", "probe"])
    return dict(n="send", k=k, x=[rnd.choice(["gone", h]) if k == "probe" and h == "cerr" else h for h in rand_x(rnd, enc)])


def main(ck, quick_budget, focus):
    th = env.THOROUGH
    consts = dict(Legs=2, MaxTries=6, MaxX=8 if th else 7, Outcomes=frozenset(["good", "rt", "cerr"]))
    r, edges, inits = tlc.mc("Transport", consts, properties=PROPS, timeout=1500)
    ck.model(r)
    ck.log("model: %d states, %d edges" % (r.distinct, len(edges)))
    cfg = lambda k: dict(enc=json.loads(k)["enc"], auth="negotiate", seed=env.SEED)
    conform_walks(ck, Driver, edges, cfg, inits, label="outcome sequences", max_len=12, budget=None if th else quick_budget)
    c2 = dict(consts, MaxX=4 if th else 3, Outcomes=frozenset(["good", "rt", "ct", "cerr", "cut", "gone", "anew", "fault", "text", "401"]))
    r, edges, inits = tlc.mc("Transport", c2, properties=PROPS, timeout=1500)
    ck.model(r)
    conform_walks(ck, Driver, edges, cfg, inits, label="all outcomes", max_len=12)
    rnd = ck.rnd
    runs = []
    for j in range(1500 if th else 120):
        enc = rnd.random() < focus
        runs.append((dict(enc=enc, auth=rnd.choice(["negotiate", "ntlm"]), backoff=rnd.choice(["", "0.5", "1", "7"]), seed=j),
                     [rand_op(rnd, enc) if rnd.random() < .9 else dict(n="close", k="-", x=[]) for _ in range(10)]))
    conform_predicted(ck, Driver, "Transport", consts, runs, label="random histories")


def check(ck):
    main(ck, 3000, .3)
