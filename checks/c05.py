"""C05: pool-level messages, specs/Stream.tla."""
import json
from lib import env, tlc
from lib.check import conform_walks, conform_predicted
from checks.stream import Driver
from checks.c04 import random_history, items, rep

PROPS = ["PoolDataOnlyFromPoolMessages", "EventsAppendOnly", "PoolMessagesNeedNoPlace"]
INVS = ["ExactlyOnce", "PendingNotVisible"]


def check(ck):
    th = env.THOROUGH
    kinds = ["event", "appdata", "init", "unsup", "poolwarn", "sCompleted", "sClosed", "sBroken"] + (["warning", "cap"] if th else [])
    consts = dict(N=1, MaxMsgs=7 if th else 6, MaxPend=1, Kinds=frozenset(kinds), Found=frozenset([False, True]))
    r, edges, inits = tlc.mc("Stream", consts, properties=PROPS, invariants=INVS, timeout=3000)
    ck.model(r)
    ck.log("model: %d states, %d edges" % (r.distinct, len(edges)))
    conform_walks(ck, Driver, edges, lambda k: dict(n=1, seed=env.SEED, found=json.loads(k)["pool"] == "Disconnected"), inits, label="pool messages",
                  budget=150000 if th else 12000, max_len=30)
    runs = [(dict(n=3, seed=env.SEED * 1000 + j, found=j % 2 == 1), random_history(ck.rnd, 50, 3, 3)) for j in range(1500 if th else 160)]
    for j in range(6 if th else 2):   # many of them
        ops = random_history(ck.rnd, 4, 3, 3)
        ops += [dict(n="begin", i=1, reps=[])] + [dict(n="poll", i=1, reps=[rep(0, items(ck.rnd, ["event", "event", "event", "appdata", "init"], 300))]) for _ in range(2)]
        runs.append((dict(n=3, seed=env.SEED * 1000 + j, found=False), ops))
    conform_predicted(ck, Driver, "Stream", dict(consts, N=3), runs, label="3 pipelines", timeout=1500)
