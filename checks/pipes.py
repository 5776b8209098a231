"""Driver for specs/Pipes.tla (C02, C03)."""
import uuid
from lib import env, codec as C
from lib.server import *


POOL = ("popen", "pclose", "pdisconnect", "pconnect", "pavail", "plist")


class Driver:
    """cfg: pools [{config}], pool_of [int], nested_in [int], opened bool"""
    def __init__(self, cfg):
        self.cfg = cfg
        self.h = Host()
        self.ws = self.h.wsman()
        PS = env.pypsrp.powershell
        self.pools, self.shells, self.re, self.outs = [], [], [], []
        for i, conf in enumerate(cfg["pools"]):
            self.pools.append(PS.RunspacePool(self.ws, configuration_name=conf))
            self.shells.append(str(uuid.uuid4()).upper())
            self.re.append(C.Reassembler())
            self.outs.append(Out(self.pools[-1].id))
        self.uris = ["http://schemas.microsoft.com/powershell/" + c for c in cfg["pools"]]
        self.ps = [self.new(i) if n == 0 else None for i, n in enumerate(cfg["nested_in"])]
        self.cid = [None] * len(self.ps)       # the command id the server assigned last
        self.gone = [set() for _ in self.ps]   # earlier ones
        self.vague = [False] * len(self.ps)    # whose start was rejected: the pool may or may not know it
        self.msgids, self.session = set(), None
        self.anom = []
        if cfg["opened"]:
            for k in range(len(self.pools)):
                self.step(dict(n="popen", i=k + 1, r="ok", c=0))

    def new(self, i):
        p = env.pypsrp.powershell.PowerShell(self.pools[self.cfg["pool_of"][i] - 1])
        return p

    def pool_of_req(self, r):
        sel = r.selectors
        for k, s in enumerate(self.shells):
            if sel == {"ShellId": s}:
                return "pool%d" % (k + 1) + ("" if r.uri == self.uris[k] else " uri:" + str(r.uri))
        return "sel:%s" % sel

    def cmd_name(self, c):
        if c is None: return ""
        for i, x in enumerate(self.cid):
            if x == c: return " p%d" % (i + 1)
        for i, x in enumerate(self.gone):
            if c in x: return " old-p%d" % (i + 1)
        return " cmd:?"

    def answer(self, r):
        o = self.o
        self.note(r)
        n, kind = o["n"], o["r"]
        if r.action == "Create":
            k = o["i"] - 1
            self.shown.append("Create pool%d" % (k + 1) + ("" if r.uri == self.uris[k] and r.selectors is None else " BADURI"))
            if kind == "fault": return C.fault(r)
            self.re[k].feed(r.data)
            return C.created(r, self.shells[k])
        t = "%s %s" % (r.action, self.pool_of_req(r))
        if r.action == "Command":
            i = o["i"] - 1
            k = self.cfg["pool_of"][i] - 1
            m = self.re[k].feed(r.data)
            desc = " ".join("%s nested:%s" % (x["type"], C.prim(C.ms(C.lx(x["xml"]), "IsNested")) and "true" or "false") for x in m)
            okid = r.cmd == self.ps[i].id and m and m[0]["pid"] == str(uuid.UUID(self.ps[i].id)) and m[0]["rpid"] == str(uuid.UUID(self.pools[k].id))
            self.shown.append(t + (" p%d " % (i + 1) if okid else " id:? ") + desc)
            if kind == "fault" and n == "begin": return C.fault(r)
            if self.cid[i]: self.gone[i].add(self.cid[i])
            self.cid[i] = str(uuid.uuid4()).upper() if o["c"] else r.cmd
            self.gone[i].discard(self.cid[i])
            return C.command_response(r, self.cid[i])
        t += self.cmd_name(r.cmd)
        if r.action == "Signal": t += " " + r.code.split("windows/shell/signal/")[-1]
        if r.action == "Send":
            ks = [k for k, s in enumerate(self.shells) if r.selectors == {"ShellId": s}]
            self.m = self.re[ks[0]].feed(r.data) if ks else []
            t += "".join(" " + x["type"] for x in self.m)
        self.shown.append(t)
        if r.action == "Receive":
            if n == "popen":
                return C.receive_response(r, [("stdout", b"".join(opening(self.outs[o["i"] - 1])))])
            if n == "pavail":
                ci = C.prim(C.ms(C.lx(self.m[-1]["xml"]), "ci"))
                return C.receive_response(r, [("stdout", self.outs[o["i"] - 1].msg("RUNSPACE_AVAILABILITY", C.availability(ci, 1)))])
            if n == "poll":
                if kind == "timeout": return C.fault(r, C.OP_TIMEOUT)
                if kind == "fault": return C.fault(r)
                if kind == "none": return C.receive_response(r, [])
                return self.state(r, o["i"] - 1, kind)
            waits = o["c"] - (1 if n == "connect" else 0)
            self.nrec += 1
            if self.nrec <= waits: return C.fault(r, C.OP_TIMEOUT)
            if kind == "fault": return C.fault(r)
            return self.state(r, o["i"] - 1, kind)
        if kind == "fault" and n in ("stop", "close", "exit", "pclose", "pdisconnect", "pconnect") or (kind == "fault" and n == "connect" and o["c"] == 0):
            return C.fault(r)
        if r.action == "Connect": return C.connect_response(r)
        return C.ok(r)

    def state(self, r, i, st):
        k = self.cfg["pool_of"][i] - 1
        return C.receive_response(r, [("stdout", self.outs[k].msg("PIPELINE_STATE", C.ps_state(PS_STATES.index(st)), pid=self.ps[i].id))], cid=self.cid[i])

    def note(self, r):
        if r.msgid in self.msgids or not r.msgid: self.anom.append("msgid reused")
        self.msgids.add(r.msgid)
        if self.session is None: self.session = r.session
        if r.session != self.session: self.anom.append("session id changed")

    def step(self, o):
        self.o, self.shown, self.nrec = o, [], 0
        self.reg0 = [p is not None and self.kept(j) for j, p in enumerate(self.ps)]
        self.h.answer = self.answer
        n, i = o["n"], o["i"] - 1
        extra = ""
        if n[0] == "p" and n != "poll":
            p = self.pools[i]
            f = {"popen": p.open, "pclose": p.close, "pdisconnect": p.disconnect, "pconnect": p.connect,
                 "pavail": p.get_available_runspaces, "plist": p.create_disconnected_power_shells}[n]
        else:
            q = self.ps[i]
            if not q.commands and q.runspace_pool.protocol_version:
                q.add_cmdlet("Get-%d" % i)   # needs the negotiated version
            f = {"begin": q.begin_invoke, "invoke": q.invoke, "beginempty": q.begin_invoke, "poll": q.poll_invoke, "end": q.end_invoke, "stop": q.stop,
                 "close": q.close, "exit": lambda: q.__exit__(None, None, None), "connect": q.connect if o["c"] else q.connect_async,
                 "nested": q.create_nested_power_shell}[n]
        if n == "beginempty":
            keep, q.commands = q.commands, []
        was = lambda: [rp_state_name(p.state)] if n in POOL else [ps_state_name(q.state), rp_state_name(q.runspace_pool.state)]
        now = was()
        out, v = outcome(f)
        out = stated(out, v, *now + was())
        if n == "beginempty": q.commands = keep
        if n in ("begin", "invoke", "stop", "close", "exit") and self.shown:
            ok = any(x.startswith("Command ") for x in self.shown) if n == "invoke" else out == "ok"
            if ok: self.vague[i] = False
            elif n == "begin" and not self.reg0[i]: self.vague[i] = True
        if out == "ok":
            if n == "nested":
                for j, pn in enumerate(self.cfg["nested_in"]):
                    if pn == o["i"] and self.ps[j] is None:
                        self.ps[j] = v
            if n == "plist":
                ids = {id(x): j for j, x in enumerate(self.ps)}
                have = {ids.get(id(x), -1) for x in v}
                out = "ok:" + "".join(" p%d" % (j + 1) if j in have else " -" for j in range(len(self.ps))) + (" ?" if -1 in have or len(have) != len(v) else "")
        self.h.take()
        a, self.anom = self.anom, []
        return [out] + self.shown + a + ["pools:" + "".join(" " + rp_state_name(p.state) for p in self.pools) + " ps:" + "".join(
            " " + ("Absent-" if p is None else ps_state_name(p.state) + ("?" if self.vague[j] else "r" if self.kept(j) else "-")) for j, p in enumerate(self.ps))]

    def kept(self, j):
        return any(x is self.ps[j] for x in self.pools[self.cfg["pool_of"][j] - 1].pipelines.values())

    def close(self):
        self.h.close()


def random_ops(rnd, n, npipes, npools, finals):
    ops = []
    for _ in range(n):
        x = rnd.random()
        i = rnd.randint(1, npipes)
        if x < 0.25: ops.append(dict(n="begin", i=i, r="ok" if rnd.random() < .8 else "fault", c=rnd.randint(0, 1)))
        elif x < 0.33: ops.append(dict(n="invoke", i=i, r=rnd.choice(finals + ["fault"]), c=rnd.randint(0, 3)))
        elif x < 0.40: ops.append(dict(n="end", i=i, r=rnd.choice(finals + ["fault"]), c=rnd.randint(0, 3)))
        elif x < 0.48: ops.append(dict(n="connect", i=i, r=rnd.choice(finals + ["fault"]), c=rnd.randint(1, 3)))
        elif x < 0.54: ops.append(dict(n="connect", i=i, r=rnd.choice(["ok", "ok", "fault"]), c=0))
        elif x < 0.64: ops.append(dict(n="poll", i=i, r=rnd.choice(finals + ["fault", "timeout", "none", "Running"]), c=0))
        elif x < 0.82: ops.append(dict(n=rnd.choice(["stop", "close", "exit"]), i=i, r="ok" if rnd.random() < .75 else "fault", c=0))
        elif x < 0.86: ops.append(dict(n=rnd.choice(["nested", "nested", "beginempty"]), i=i, r="ok", c=0))
        else:
            nm = rnd.choice(["popen", "popen", "pdisconnect", "pdisconnect", "pconnect", "pconnect", "pconnect", "pavail", "plist"] + (["pclose"] if rnd.random() < .2 else []))
            ops.append(dict(n=nm, i=rnd.randint(1, npools), r="ok" if nm in ("pavail", "plist") or rnd.random() < .8 else "fault", c=0))
    return ops
