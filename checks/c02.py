"""C02: pipeline lifecycle, specs/Pipes.tla with one pool."""
from lib import env, tlc
from lib.check import conform_walks, conform_predicted
from checks.pipes import Driver, random_ops

PROPS = ["InvalidChangesNothing", "OthersUntouched", "PoolUntouched", "DisconnectExactlyRunning", "RunningOnlyByStart", "ClosedPoolSilent"]


def check(ck):
    th = env.THOROUGH
    finals = ["Completed", "Failed", "Stopped"]
    consts = dict(PoolOf=[1, 1], NestedIn=[0, 1], PoolOps=True, Finals=frozenset(finals), Waits=frozenset([0, 1]))
    if th: consts.update(PoolOf=[1, 1, 1], NestedIn=[0, 0, 1])
    cfg = dict(pools=["Microsoft.PowerShell"], pool_of=consts["PoolOf"], nested_in=consts["NestedIn"], opened=False)
    r, edges, inits = tlc.mc("Pipes", consts, properties=PROPS, invariants=["TypeOK", "RunningIsKept"], timeout=1800)
    ck.model(r)
    ck.log("model: %d states, %d edges" % (r.distinct, len(edges)))
    conform_walks(ck, Driver, edges, lambda k: cfg, inits, label="pipelines", budget=400000 if th else 25000)
    big = dict(consts, PoolOf=[1, 1, 1, 1, 1], NestedIn=[0, 0, 0, 1, 2], Waits=frozenset([0, 1, 2, 3]))
    cfg = dict(pools=["Microsoft.PowerShell"], pool_of=big["PoolOf"], nested_in=big["NestedIn"], opened=False)
    items = [(cfg, [dict(n="popen", i=1, r="ok", c=0)] + random_ops(ck.rnd, 80, 5, 1, finals)) for _ in range(1500 if th else 150)]
    W = lambda n, i, r="ok", c=0: dict(n=n, i=i, r=r, c=c)   # a long wait
    items += [(cfg, [W("popen", 1), W("invoke", 1, "Completed", 160), W("close", 1), W("begin", 2), W("end", 2, "Failed", 130)])]
    conform_predicted(ck, Driver, "Pipes", big, items, label="5 pipelines")
