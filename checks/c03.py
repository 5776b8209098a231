"""C03: request addressing, specs/Pipes.tla with several pools on one connection."""
from lib import env, tlc
from lib.check import conform_walks, conform_predicted
from checks.pipes import Driver, random_ops
from checks.c02 import PROPS


def check(ck):
    th = env.THOROUGH
    finals = ["Completed", "Failed"]
    consts = dict(PoolOf=[1, 2], NestedIn=[0, 0], PoolOps=True, Finals=frozenset(finals if th else ["Completed"]), Waits=frozenset([0]))
    confs = ["Microsoft.PowerShell", "Custom.Endpoint"]
    cfg = dict(pools=confs, pool_of=consts["PoolOf"], nested_in=consts["NestedIn"], opened=False)
    r, edges, inits = tlc.mc("Pipes", consts, properties=PROPS, invariants=["TypeOK", "RunningIsKept"], timeout=1800)
    ck.model(r)
    ck.log("model: %d states, %d edges" % (r.distinct, len(edges)))
    conform_walks(ck, Driver, edges, lambda k: cfg, inits, label="two pools", budget=400000 if th else 20000)
    big = dict(consts, PoolOf=[1, 1, 2, 2, 3, 1, 3], NestedIn=[0, 0, 0, 0, 0, 1, 5], Waits=frozenset([0, 1, 2, 3]), Finals=frozenset(finals))
    cfg = dict(pools=confs + ["Microsoft.PowerShell"], pool_of=big["PoolOf"], nested_in=big["NestedIn"], opened=False)
    items = []
    for _ in range(1500 if th else 150):
        ops = [dict(n="popen", i=k, r="ok", c=0) for k in (1, 2, 3)]
        ck.rnd.shuffle(ops)
        items.append((cfg, ops + random_ops(ck.rnd, 100, 7, 3, finals)))
    conform_predicted(ck, Driver, "Pipes", big, items, label="three pools")
