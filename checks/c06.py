"""C06: pool calls answered by call id, specs/Calls.tla."""
import json, uuid
from lib import env, tlc, codec as C
from lib.server import *
from lib.check import conform_walks, conform_traces

PROPS = ["OnlyAcceptedSetOrInitChanges", "RefusedRaises", "LateAnswersAreInert", "AvailChangesNothing"]


class Driver:
    def __init__(self, cfg):
        self.h = Host()
        self.ws = self.h.wsman()
        self.shell = str(uuid.uuid4()).upper()
        self.re = C.Reassembler()
        self.pool = env.pypsrp.powershell.RunspacePool(self.ws)
        self.proto = "%d.%d" % divmod(cfg["proto"], 100)
        self.out = Out(self.pool.id)
        self.cis, self.lost, self.nev, self.ps = set(), [], 0, None

    def late(self, how):
        m = b""
        for ci, kind in self.lost:
            m += self.out.msg("RUNSPACE_AVAILABILITY", C.availability(ci, (7 if how == "acc" else 0) if kind == "avail" else how == "acc"))
        self.lost = []
        return m

    def event(self):
        self.nev += 1
        return self.out.msg("USER_EVENT", C.user_event(self.nev))

    def step(self, o):
        n, p = o["n"], self.pool
        shown, st = [], {"ci": None, "replies": None}

        def own():
            v = o["v"] if n == "avail" else o["r"] == "accept"
            return self.out.msg("RUNSPACE_AVAILABILITY", C.availability(st["ci"], v))

        def plan():
            late = self.late(o["late"]) if o["late"] != "none" else b""
            first = b""
            reps = []
            if o["pre"] == "event": first += self.event()
            if o["pre"] == "init": first += self.out.msg("RUNSPACEPOOL_INIT_DATA", C.init_data(11, 12))
            if o["pre"] == "event1": reps.append(self.event())
            if n == "poll": return [first + late]
            if late and o["at"] == 1:
                reps.append(late)
                late = b""
            reps.append(first + (late if o["at"] == 0 else b"") + own() + (late if o["at"] == 2 else b""))
            return reps

        def ans(r):
            t = r.action
            res = None
            if r.action == "Create":
                self.re.feed(r.data)
                res = C.created(r, self.shell)
            elif n == "open":
                res = C.receive_response(r, [("stdout", b"".join(opening(self.out, self.proto)))])
            elif r.action == "Send":
                ms = self.re.feed(r.data)
                for m in ms:
                    x = C.lx(m["xml"])
                    ci = C.prim(C.ms(x, "CI" if m["type"].startswith("SET_M") else "ci"))
                    v = {"SET_MIN_RUNSPACES": "MinRunspaces", "SET_MAX_RUNSPACES": "MaxRunspaces"}.get(m["type"])
                    t += " " + m["type"] + ("=%s" % C.prim(C.ms(x, v)) if v else "") + " ci:" + ("fresh" if ci not in self.cis and isinstance(ci, int) else "USED")
                    self.cis.add(ci)
                    st["ci"] = ci
                res = C.fault(r) if o["r"] == "fault" else C.ok(r)
            elif r.action == "Receive":
                if o["r"] == "lost":
                    self.lost.append((st["ci"], n))
                    res = C.fault(r)
                else:
                    if st["replies"] is None: st["replies"] = plan()
                    if not st["replies"]: raise env.Runaway("waits although the answer came")
                    res = C.receive_response(r, [("stdout", st["replies"].pop(0))])
            shown.append(t)
            return res

        if n != "open" and self.ps is None and p.state == 2 and n == "poll":
            # start the pipeline that will be polled; not part of what is observed
            self.h.answer = lambda r: C.command_response(r, r.cmd)
            self.ps = env.pypsrp.powershell.PowerShell(p)
            self.ps.add_cmdlet("x").begin_invoke()
            self.h.take()
        self.h.answer = ans
        ev0 = len(p.user_events)
        if n == "setmin": f = lambda: setattr(p, "min_runspaces", o["v"])
        elif n == "setmax": f = lambda: setattr(p, "max_runspaces", o["v"])
        elif n == "reset": f = p.reset_runspace_state
        elif n == "avail": f = p.get_available_runspaces
        elif n == "poll": f = self.ps.poll_invoke
        else: f = p.open
        out, v = outcome(f)
        if out == "ok" and n == "avail": out += ":%r" % (v,)
        self.h.take()
        return [out] + shown + ["events:%d" % (len(p.user_events) - ev0), "min:%s max:%s" % (p.min_runspaces, p.max_runspaces)]

    def close(self):
        self.h.close()


def random_ops(rnd, n):
    ops = [dict(n="setmin", r="accept", v=rnd.choice([1, 3]), late="none", at=0, pre="-")] if rnd.random() < .5 else []
    ops.append(dict(n="open", r="accept", v=0, late="none", at=0, pre="-"))
    for _ in range(n):
        nm = rnd.choice(["setmin", "setmax", "avail", "reset", "poll"])
        r = "accept" if nm == "poll" else rnd.choice(["accept"] * 4 + ["refuse", "refuse", "fault", "lost"])
        if nm == "avail" and r == "refuse": r = "accept"
        v = rnd.choice([0, 1, 2, 5, 255, 65536, 2147483647] if nm == "avail" else [1, 2, 3, 5, 300, 2147483647]) if nm in ("setmin", "setmax", "avail") else 0
        ops.append(dict(n=nm, r=r, v=v, late=rnd.choice(["none", "none", "acc", "ref"]), at=0 if nm == "poll" else rnd.randint(0, 2),
                        pre=rnd.choice(["-", "-", "event", "init"] if nm == "poll" else ["-", "-", "event", "event1", "init"])))
    return ops


PROTOS = [200, 201, 202, 203, 210, 300, 302]


def check(ck):
    th = env.THOROUGH
    consts = dict(Values=frozenset([0, 1, 4] if th else [1, 4]), Protos=frozenset([202, 203, 300] if th else [202, 203]), MaxLost=2 if th else 1)
    r, edges, inits = tlc.mc("Calls", consts, properties=PROPS)
    ck.model(r)
    ck.log("model: %d states, %d edges" % (r.distinct, len(edges)))
    conform_walks(ck, Driver, edges, lambda k: dict(proto=json.loads(k)["proto"]), inits, label="calls", budget=None if th else 20000)
    items = [(dict(proto=ck.rnd.choice(PROTOS)), random_ops(ck.rnd, ck.rnd.randint(5, 60))) for _ in range(1500 if th else 150)]
    # call ids over long histories
    items += [(dict(proto=203), random_ops(ck.rnd, 400)) for _ in range(10 if th else 4)]
    conform_traces(ck, Driver, "Calls", consts, items, label="calls")
