"""C24: remote pools are listed and resumed with their pipelines, specs/Discover.tla."""
import json, random, uuid
from lib import env, tlc, codec as C
from lib.server import *
from lib.check import conform_walks, conform_predicted

PROPS = ["HandshakeOnce"]
INVS = ["Got", "NoLoss", "OneHolder", "RunningIsOpen"]
SHELLS, CMDS = "http://schemas.microsoft.com/wbem/wsman/1/windows/shell", "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/Command"
SELFILTER = "http://schemas.dmtf.org/wbem/wsman/1/wsman/SelectorFilter"


def G(rnd=None):
    """An id as a server may write it."""
    g = str(uuid.uuid4())
    return g if rnd and rnd.random() < .5 else g.upper()


class Cmd:
    def __init__(self, id, n, rpid, rnd=None):
        self.id, self.n, self.pos, self.rpid, self.gone = id, n, 0, rpid, False
        self.guid = self.pid = G(rnd)
        self.extra = 0


class Driver:
    def __init__(self, cfg):
        self.rnd = random.Random(str(cfg))
        self.h = Host()
        self.ws = self.h.wsman()
        self.sh = []
        for c in cfg:
            g = G(self.rnd)
            self.sh.append(dict(id=c["id"], guid=g, uri=c["uri"], cmds=[Cmd(x["id"], x["len"], g, self.rnd) for x in c["cmds"]]))
        self.oids = {}
        self.hs = []        # [pool, shell, [(cmd, PowerShell)], set, outputs partly sent {cmd: (index, fragments left)}]

    # ---- the server
    def seen(self, r):
        if r.action == "Enumerate":
            f = r.resource.find(C.q(C.WSMAN, "Filter"))
            opt = r.resource.find(C.q(C.WSMAN, "OptimizeEnumeration")) is not None
            if r.uri == SHELLS: return "Enumerate shells" + ("" if opt and f is None else " otherwise")
            sel = [] if f is None else [(e.attrib.get("Name"), e.text) for e in f.iter(C.q(C.WSMAN, "Selector"))]
            if r.uri == CMDS and opt and f is not None and f.attrib.get("Dialect") == SELFILTER and len(sel) == 1 and sel[0][0] == "ShellId":
                return "Enumerate commands of " + self.name(sel[0][1])
            return "Enumerate %s %s" % (r.uri, sel)
        at = "%s of %s" % (self.name((r.selectors or {}).get("ShellId")), r.uri.split("/")[-1]) if len(r.selectors or {}) == 1 else "selectors %s" % r.selectors
        if r.action == "Connect":
            cid = r.resource.attrib.get("CommandId")
            x = r.resource.find(C.q(C.PWSH, "connectXml"))
            if cid is not None: return "Connect command %s of %s" % (self.cname(cid), at) + ("" if x is None else " with data")
            ms_ = C.Reassembler().feed(r.data or b"")
            ids = "" if all(m["rpid"].upper() == (self.of(r)["guid"] or "").upper() for m in ms_) else " of another pool"
            ids += "" if r.options == [("protocolversion", "2.3")] else " options %s" % r.options
            return "Connect %s with %s%s" % (at, " ".join(m["type"] for m in ms_), ids)
        if r.action == "Receive": return "Receive %s%s" % ((self.cname(r.cmd) + " of ") if r.cmd else "", at)
        return "%s %s" % ("Command of" if r.action == "Command" else r.action, at)

    def of(self, r):
        return next((x for x in self.sh if x["guid"] == (r.selectors or {}).get("ShellId")), {"guid": None})

    def name(self, g):
        return next((x["id"] for x in self.sh if x["guid"] == g), str(g))

    def cname(self, g):
        return next((c.id for x in self.sh for c in x["cmds"] if c.guid == g), str(g))

    def noise(self, ns, l):
        return "".join("<%s:%s>%s</%s:%s>" % (ns, n, v, ns, n) for n, v in l if self.rnd.random() < .5)

    def listing(self, r):
        if r.uri == SHELLS:
            b = "".join("<rsp:Shell>%s<rsp:ShellId>%s</rsp:ShellId>%s<rsp:ResourceUri>%s</rsp:ResourceUri>%s</rsp:Shell>" % (
                self.noise("rsp", [("Lang", "en-US")]), x["guid"], self.noise("rsp", [("Name", "Runspace1"), ("Owner", "D\\o")]), self.full(x), self.noise("rsp", [("ClientIP", "10.0.0.1"), ("State", self.rnd.choice(["Connected", "Disconnected"])), ("ShellRunTime", "P0DT0H0M2S")])) for x in self.sh)
        else:
            g = r.resource.find(".//" + C.q(C.WSMAN, "Selector")).text
            x = next(x for x in self.sh if x["guid"] == g)
            b = "".join("<rsp:Command>%s<rsp:CommandId>%s</rsp:CommandId>%s</rsp:Command>" % (
                "<rsp:ShellId>%s</rsp:ShellId>" % g, c.guid, self.noise("rsp", [("State", self.rnd.choice(["Running", "Disconnected"])), ("CommandLine", "Get-Date")])) for c in x["cmds"] if not c.gone)
        return C.ok(r, "<n:EnumerateResponse>%s<w:Items>%s</w:Items>%s</n:EnumerateResponse>" % ("<n:EnumerationContext/>" if self.rnd.random() < .5 else "", b, "<w:EndOfSequence/>" if self.rnd.random() < .5 else ""))

    def full(self, x):
        return "http://schemas.microsoft.com/powershell/" + x["uri"]

    def outs(self, hd, c, k, end):
        """The next k outputs of c for handle hd (finishing one partly sent), perhaps the beginning of the next."""
        out = b""
        part = hd[4]
        for _ in range(k):
            i = c.pos + 1
            out += b"".join(self.frags(part, c, i))
            part.pop((c, i), None)
            c.pos = i
        if end != "-":
            out += b"".join(C.fragments(self.oid(c, 0), C.message("PIPELINE_STATE", C.ps_state(4 if end == "Completed" else 5), c.rpid, c.pid)))
            c.gone = True
        elif c.pos < c.n and self.rnd.random() < .4:
            f = self.frags(part, c, c.pos + 1)
            if len(f) > 1: out += b"".join([f.pop(0) for _ in range(self.rnd.randint(1, len(f) - 1))])
        return out

    def oid(self, c, i):
        """Object ids are unique within a pool and one message keeps its own."""
        return self.oids.setdefault((c, i), len(self.oids) + 1)

    def frags(self, part, c, i):
        if (c, i) not in part:
            m = C.message("PIPELINE_OUTPUT", C.i32(i) if i % 2 else C.s_(str(i)), c.rpid, c.pid, bom=self.rnd.random() < .3)
            part[(c, i)] = C.fragments(self.oid(c, i), m, [self.rnd.randint(1, len(m) - 1) for _ in range(self.rnd.choice([0, 0, 1, 3]))])
        return part[(c, i)]

    # ---- operations
    def step(self, o):
        n, rnd = o["n"], self.rnd
        sent, extra = [], []
        hd = self.hs[o["h"] - 1] if "h" in o else None
        x = hd[1] if hd else None
        ps, c = (hd[2][o["p"] - 1][1], hd[2][o["p"] - 1][0]) if "p" in o else (None, None)
        st = dict(i=0, cut=[])
        def ans(r):
            st["i"] += 1
            sent.append(self.seen(r))
            if o.get("r") == "fault" or (n == "list" and o["r"] == st["i"]): return C.fault(r)
            if r.action == "Enumerate": return self.listing(r)
            if r.action == "Connect":
                if r.resource.attrib.get("CommandId"): return C.connect_response(r)
                out = st["out"] = Out(x["guid"])
                mn, mx, a = o["set"].replace("..", "/").split("/")
                init = out.msg("RUNSPACEPOOL_INIT_DATA", C.init_data(int(mn), int(mx)))
                st["late"] = rnd.random() < .3
                cap = out.msg("SESSION_CAPABILITY", C.session_capability("2.3"))
                st["rest"] = (init if st["late"] else b"") + out.msg("APPLICATION_PRIVATE_DATA", C.app_private([("a", a)])) + out.msg("RUNSPACEPOOL_STATE", C.rp_state(2))
                return C.connect_response(r, cap + (b"" if st["late"] else init))
            if r.action == "Receive":
                if not r.cmd: return C.receive_response(r, [("stdout", st.pop("rest"))])
                if n == "poll":
                    d = self.outs(hd, c, o["k"], o["end"])
                    if not d and rnd.random() < .5: return C.fault(r, C.OP_TIMEOUT)
                    end = o["end"] != "-"
                else:
                    cut = st["cut"].pop(0)
                    end = not st["cut"]
                    d = self.outs(hd, c, cut, "Completed" if end else "-")
                return C.receive_response(r, [("stdout", d)] if d else [], state="Done" if end else "Running", cid=c.guid)
            if r.action == "Command":
                m = C.Reassembler().feed(r.data)
                new.guid, new.pid = G(self.rnd), m[0]["pid"]
                return C.command_response(r, new.guid)
            return C.ok(r)
        self.h.answer = ans
        if n == "list":
            out, v = outcome(env.pypsrp.powershell.RunspacePool.get_runspace_pools, self.ws)
            if out == "ok":
                for i, p in enumerate(v):
                    y = self.sh[i] if i < len(self.sh) else dict(id="?", guid="", cmds=[], uri="")
                    l = []
                    for w in p.create_disconnected_power_shells():
                        l.append((next((q for q in y["cmds"] if q.guid == w.id), Cmd(w.id, 0, "")), w))
                    if p.id != y["guid"]: extra.append("pool %d is %s" % (i, self.name(p.id)))
                    self.hs.append([p, y, l, "?", {}])
        elif n == "connect":
            out, v = outcome(hd[0].connect)
            if "rest" not in st and "late" in st: hd[3] = "*"
        elif n == "disconnect": out, v = outcome(hd[0].disconnect)
        elif n == "resume": out, v = outcome(ps.connect_async)
        elif n == "poll": out, v = outcome(ps.poll_invoke)
        elif n == "finish":
            left = c.n - c.pos
            st["cut"] = list(o["cut"])
            for i in range(len(st["cut"])):
                st["cut"][i] = min(st["cut"][i], left)
                left -= st["cut"][i]
            st["cut"].append(left)
            dis = str(ps_state_name(ps.state)) == "Disconnected"
            out, v = outcome(ps.connect if dis else ps.end_invoke)
            extra.append("returned " + ",".join(map(self.val, v or [])))
        else:
            new = Cmd(o["id"], o["len"], x["guid"])
            x["cmds"].append(new)
            ps = env.pypsrp.powershell.PowerShell(hd[0])
            ps.add_script("x")
            out, v = outcome(ps.begin_invoke)
            hd[2].append((new, ps))
        self.h.take()
        return [out] + sent + extra + [self.see(h) for h in self.hs]

    def val(self, v):
        if type(v) is int and v % 2: return str(v)
        if type(v) is str and v.isdigit() and int(v) % 2 == 0: return v
        return repr(v)

    def see(self, h):
        p, x, l, st = h[:4]
        if st == "*":
            st = "%s..%s/%s" % (p.min_runspaces, p.max_runspaces, None if p.application_private_data is None else p.application_private_data.data.get("a"))
        t = "; ".join("%s %s %s" % (c.id, ps_state_name(w.state), ",".join(map(self.val, w.output)) or "nothing") for c, w in l)
        return "%s %s %s [%s] disconnected %s" % (x["id"], rp_state_name(p.state), st, t, " ".join(next((c.id for c, w in l if w is q), "?" + q.id) for q in p.create_disconnected_power_shells()))

    def close(self):
        self.h.close()


def shell(id, uri, *lens):
    return dict(id=id, uri=uri, cmds=[dict(id="%s.%d" % (id, i), len=n) for i, n in enumerate(lens)])


def check(ck):
    th = env.THOROUGH
    P = "Microsoft.PowerShell"
    for label, cfgs, mh, mp, mb, k in [("listings", [[], [shell("s1", P)], [shell("s1", "Conf", 1), shell("s2", P)], [shell("s1", P, 0), shell("s2", P, 0)]] + ([[shell("s1", P, 0, 1), shell("s2", P, 1)]] if th else []), 2, 2, 0, 1),
                                       ("one pool", [[shell("s1", P, 2, 1 if th else 0)]], 2, 2, 0, 2), ("own pipelines", [[shell("s1", P)]], 2, 2, 2 if th else 1, 1)]:
        consts = dict(Cfgs=tlc.Raw("{" + ", ".join(tlc.tla(c) for c in cfgs) + "}"), MaxHandles=mh, MaxPipes=mp, MaxBegin=mb, Counts=k)
        r, edges, inits = tlc.mc("Discover", consts, properties=PROPS, invariants=INVS)
        ck.model(r)
        ck.log("%s: %d states, %d edges" % (label, r.distinct, len(edges)))
        conform_walks(ck, Driver, edges, lambda x: json.loads(x)["c"], inits, label=label, budget=150000 if th else 20000, max_len=30)
    rnd = ck.rnd
    runs = []
    for j in range(600 if th else 120):
        cfg = [shell("s%d" % i, rnd.choice([P, P, "JEA%d" % i]), *[rnd.choice([0, 1, 2, 5, 12]) for _ in range(rnd.choice([0, 1, 2, 4]))]) for i in range(rnd.choice([1, 1, 2, 3, 6]))]
        if j % 20 == 11: cfg = [shell("s%d" % i, P, *[0] * ck.rnd.choice([0, 40])) for i in range(40)]
        if j % 20 == 12: cfg = [shell("s1", P, *[1] * 70)]
        ops, names = [], 0
        for i in range(60):
            n = rnd.choice(["list", "connect", "connect", "disconnect", "resume", "resume", "resume", "poll", "poll", "poll", "poll", "finish", "begin"])
            if i == 0: n = "list"
            h = rnd.randint(1, 8) if rnd.random() < .3 else rnd.randint(1, 2)
            o = dict(n=n, h=h, r=rnd.choice(["ok"] * 5 + ["fault"]))
            if n == "list": o = dict(n=n, r=rnd.choice([0, 0, 0, 0, 1, 2, 3]) if i else 0)
            if n == "connect": o["set"] = "%d..%d/%d" % (rnd.randint(1, 5), rnd.randint(5, 99), rnd.randint(0, 999))
            if n in ("resume", "poll", "finish"): o["p"] = rnd.randint(1, 3)
            if n == "poll":
                o.update(k=rnd.choice([0, 1, 1, 2, 4]), end=rnd.choice(["-", "-", "-", "Completed", "Failed"]))
                if o["r"] == "fault": o.update(k=0, end="-")
            if n in ("finish", "begin"): del o["r"]
            if n == "finish":
                o["cut"] = [rnd.choice([0, 1, 2]) for _ in range(rnd.choice([0, 0, 1, 2]))]
            if n == "begin":
                names += 1
                o.update(id="n%d" % names, len=rnd.choice([0, 1, 3, 8]))
            ops.append(o)
        runs.append((cfg, ops))
    conform_predicted(ck, Driver, "Discover", dict(consts, MaxHandles=120, MaxPipes=7, MaxBegin=7), runs, label="random histories")
