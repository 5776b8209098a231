"""C01: runspace pool lifecycle, specs/Pool.tla."""
import json, uuid
from lib import env, tlc, codec as C
from lib.server import *
from lib.check import conform_walks, conform_traces

PROPS = ["InvalidChangesNothing", "FinalIsSilent", "FaultKeepsState", "BrokenIsRaised", "NothingWithoutShell", "OpenIffOpened",
         "CloseIffClosed", "ShellGoneOnce", "MinMaxOnlyByCall"]


class Driver:
    def __init__(self, cfg):
        self.h = Host()
        self.ws = self.h.wsman()
        self.shell = str(uuid.uuid4()).upper()
        self.re = C.Reassembler()
        if cfg["kind"] == "own":
            self.pool = env.pypsrp.powershell.RunspacePool(self.ws)
        else:
            def enum(r):
                if r.uri.endswith("/Command"):
                    return C.ok(r, "<n:EnumerateResponse><w:Items/><w:EndOfSequence/></n:EnumerateResponse>")
                return C.ok(r, "<n:EnumerateResponse><w:Items><rsp:Shell><rsp:ShellId>%s</rsp:ShellId></rsp:Shell></w:Items></n:EnumerateResponse>" % self.shell)
            self.h.answer = enum
            self.pool = env.pypsrp.powershell.RunspacePool.get_runspace_pools(self.ws)[0]
            self.h.take()
        self.out = Out(self.pool.id)

    def reply(self, r, *msgs):
        return C.receive_response(r, [("stdout", b"".join(msgs))])

    def answer(self, r):
        o, k = self.o, len(self.seen)
        self.seen.append(r)
        kind = o["r"]
        if r.action in ("Create", "Send", "Connect") or (r.action == "Send" and r.data):
            self.msgs = self.re.feed(r.data or b"")
        if k == 0 and kind == "fault":
            return C.fault(r)
        if r.action == "Create":
            return C.created(r, self.shell)
        if r.action == "Connect":
            return C.connect_response(r, self.out.msg("SESSION_CAPABILITY", C.session_capability("2.3"))
                                      + self.out.msg("RUNSPACEPOOL_INIT_DATA", C.init_data(o["v"], o["v"] + 3)))
        if r.action == "Receive":
            if kind == "rfault": return C.fault(r)
            if kind == "broken":
                return self.reply(r, self.out.msg("RUNSPACEPOOL_STATE", C.rp_state(5, C.error_record("it broke", n="ExceptionAsErrorRecord", ref=3) if o["v"] % 2 else "")))
            if o["n"] in ("open", "enter"):
                m = opening(self.out, "2.2" if kind == "ok22" else "2.3", [("k", "v")])
                if kind == "ok2":
                    return self.reply(r, *m[:2]) if k == 1 else self.reply(r, m[2])
                return self.reply(r, *m)
            if o["n"] == "connect":
                return self.reply(r, self.out.msg("APPLICATION_PRIVATE_DATA", C.app_private()), self.out.msg("RUNSPACEPOOL_STATE", C.rp_state(2)))
            ci = C.prim(C.ms(C.lx(self.msgs[-1]["xml"]), "ci" if o["n"] == "reset" else "CI"))
            return self.reply(r, self.out.msg("RUNSPACE_AVAILABILITY", C.availability(ci, kind == "ok")))
        return C.ok(r)

    def show(self, r):
        t = "%s sel:%s" % (r.action, selname(r, self.shell))
        if r.uri != C.PSURI: t += " uri:" + str(r.uri)
        if r.action in ("Create", "Connect"):
            t += " opt:" + ",".join(v for n, v in r.options if n == "protocolversion")
        if r.action == "Create":
            i = [m for m in self.msgs if m["type"] == "INIT_RUNSPACEPOOL"]
            x = C.lx(i[0]["xml"])
            t += " init:%s/%s" % (C.prim(C.ms(x, "MinRunspaces")), C.prim(C.ms(x, "MaxRunspaces")))
        if r.action == "Connect":
            if [m["type"] for m in self.msgs] == ["SESSION_CAPABILITY", "CONNECT_RUNSPACEPOOL"]: t += " handshake"
        if r.action == "Send":
            m = self.msgs[0]
            x = C.lx(m["xml"])
            v = {"SET_MIN_RUNSPACES": "MinRunspaces", "SET_MAX_RUNSPACES": "MaxRunspaces"}.get(m["type"])
            t += " " + m["type"] + ("=%s" % C.prim(C.ms(x, v)) if v else "")
        return t

    def step(self, o):
        self.o, self.seen, self.shown = o, [], []
        p = self.pool
        def ans(r):
            x = self.answer(r)
            self.shown.append(self.show(r))
            return x
        self.h.answer = ans
        n = o["n"]
        if n == "setmin": f = lambda: setattr(p, "min_runspaces", o["v"])
        elif n == "setmax": f = lambda: setattr(p, "max_runspaces", o["v"])
        elif n == "enter": f = p.__enter__
        elif n == "exit": f = lambda: p.__exit__(None, None, None)
        elif n == "exitexc": f = lambda: p.__exit__(ValueError, ValueError("x"), None)
        elif n == "reset": f = p.reset_runspace_state
        else: f = getattr(p, n)
        was = rp_state_name(p.state)
        out, v = outcome(f)
        out = stated(out, v, was)
        if n == "enter" and out == "ok" and v is not p: out = "ok but not the pool"
        if n.startswith("exit") and out == "ok" and v: out = "ok but swallows the error"
        self.h.take()
        return [out] + self.shown + ["state:%s min:%s max:%s" % (rp_state_name(p.state), p.min_runspaces, p.max_runspaces)]

    def close(self):
        self.h.close()


def random_ops(rnd, n):
    ops = []
    good = rnd.random() < 0.7
    for _ in range(n):
        nm = rnd.choice(["open", "enter", "connect", "connect", "disconnect", "disconnect", "close", "exit", "exitexc", "reset", "setmin", "setmin", "setmax", "setmax"])
        if nm in ("close", "exit", "exitexc") and rnd.random() < 0.7: nm = rnd.choice(["setmin", "setmax", "disconnect", "connect"])
        rs = {"open": ["ok", "ok2", "ok22", "fault", "rfault", "broken"], "enter": ["ok", "ok2", "ok22", "fault", "rfault", "broken"],
              "connect": ["ok", "fault", "rfault", "broken"], "disconnect": ["ok", "fault"], "close": ["ok", "fault"],
              "exit": ["ok", "fault"], "exitexc": ["ok", "fault"]}.get(nm, ["ok", "fault", "rfault", "refuse", "broken"])
        r = rs[0] if rnd.random() < (0.75 if good else 0.3) else rnd.choice(rs)
        if good and r == "broken" and rnd.random() < 0.8: r = rs[0]
        v = rnd.choice([1, 2, 3, 7, 64, 1000, 2000000000]) if nm in ("connect", "setmin", "setmax") else 0
        ops.append(dict(n=nm, r=r, v=v))
    return ops


def check(ck):
    consts = dict(Values=frozenset([1, 4] if not env.THOROUGH else [1, 2, 4, 5]), Kinds=frozenset(["own", "disc"]))
    r, edges, inits = tlc.mc("Pool", consts, properties=PROPS, invariants=["TypeOK"])
    ck.model(r)
    ck.log("model: %d states, %d edges" % (r.distinct, len(edges)))
    conform_walks(ck, Driver, edges, lambda k: dict(kind=json.loads(k)["kind"]), inits, label="pool")
    n = 1500 if env.THOROUGH else 150
    items = [(dict(kind=ck.rnd.choice(["own", "own", "disc"])), random_ops(ck.rnd, ck.rnd.randint(5, 40))) for _ in range(n)]
    conform_traces(ck, Driver, "Pool", consts, items, label="pool")
