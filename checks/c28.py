"""C28: the metadata of commands, specs/Metadata.tla."""
import random, uuid
from lib import env, tlc, codec as C
from lib.server import *
from lib.check import conform_walks, conform_predicted

PROPS = ["AsksOnlyOpened", "EachReported", "QueriesChangeNothing"]
X = env.pypsrp.complex_objects
TYPES = "Alias Function Filter Cmdlet ExternalScript Application Script Workflow Configuration".split()
STRS = "System.Collections.ObjectModel.Collection`1[[System.String, mscorlib, Version=4.0.0.0, Culture=neutral, PublicKeyToken=b77a5c561934e089]]"
OUTS = "System.Collections.ObjectModel.ReadOnlyCollection`1[[System.Management.Automation.PSTypeName, System.Management.Automation, Version=3.0.0.0, Culture=neutral, PublicKeyToken=31bf3856ad364e35]]"
DICT = "System.Collections.Generic.Dictionary`2[[System.String, mscorlib, Version=4.0.0.0, Culture=neutral, PublicKeyToken=b77a5c561934e089],[System.Management.Automation.ParameterMetadata, System.Management.Automation, Version=3.0.0.0, Culture=neutral, PublicKeyToken=31bf3856ad364e35]]"


class Doc:
    """writes one reply object as a Windows server does: type lists once, references after"""
    def __init__(self): self.n, self.tn = 0, {}
    def obj(self, types, body, name=None):
        t = tuple(types)
        i, self.n = self.n, self.n + 1
        if t in self.tn: tn = '<TNRef RefId="%d"/>' % self.tn[t]
        else:
            self.tn[t] = len(self.tn)
            tn = '<TN RefId="%d">%s</TN>' % (self.tn[t], "".join("<T>%s</T>" % x for x in t))
        return '<Obj RefId="%d"%s>%s%s</Obj>' % (i, C.nattr(name), tn, body() if callable(body) else body)


def text(v, n): return C.nil(n) if v == "-" else C.s_(v, n)


def command_xml(c, order):
    d = Doc()
    def strs(l): return "<LST>%s</LST>" % "".join(C.s_(x) for x in l)
    def param(p):
        def body():
            f = [C.s_(p["name"], "Name"), text(p["type"], "ParameterType"), d.obj([STRS, "System.Object"], strs(p["aliases"]), "Aliases"), C.b_(p["dyn"], "IsDynamic"), C.b_(p["sw"], "SwitchParameter")]
            return "<ToString>System.Management.Automation.ParameterMetadata</ToString><Props>%s</Props>" % "".join(f)
        return "<En>%s%s</En>" % (C.s_(p["key"], "Key"), d.obj(["System.Management.Automation.ParameterMetadata", "System.Object"], body, "Value"))
    def body():
        f = [text(c["name"], "Name"), text(c["ns"], "Namespace"), text(c["uri"], "HelpUri"),
             C.nil("CommandType") if c["type"] == -1 else d.obj(["System.Management.Automation.CommandTypes", "System.Enum", "System.ValueType", "System.Object"], "<ToString>%s</ToString><I32>%d</I32>" % (
                 "All" if c["type"] == 511 else ", ".join(t for i, t in enumerate(TYPES) if c["type"] >> i & 1), c["type"]), "CommandType"),
             C.nil("ResolvedCommandName") if order else C.s_("other", "ResolvedCommandName"), d.obj([OUTS, "System.Object"], strs(c["outs"]), "OutputType"),
             d.obj([DICT, "System.Object"], lambda: "<DCT>%s</DCT>" % "".join(map(param, c["ps"])), "Parameters") if c["hasps"] else C.nil("Parameters")]
        return "<MS>%s</MS>" % "".join(f)
    return d.obj(["Selected.System.Management.Automation.CmdletInfo", "System.Management.Automation.PSCustomObject", "System.Object"], body)


def yes(b): return "T" if b is True else "F" if b is False else repr(b)
def opt(v): return "-" if v is None else v if isinstance(v, str) else repr(v)


def show(c):
    if type(c) is not X.CommandMetadata: return "not a command: %r" % (c,)
    def param(k, p):
        if type(p) is not X.ParameterMetadata: return "not a parameter: %r" % (p,)
        return "%s is %s of %s [%s] switch %s dynamic %s" % (k, opt(p.name), opt(p.parameter_type), "|".join(p.aliases), yes(p.switch_parameter), yes(p.dynamic))
    t = c.command_type
    if t is not None and type(t) is not X.CommandType: return "type %r" % (t,)
    return "command %s in %s help %s type %s gives [%s] takes %s" % (opt(c.name), opt(c.namespace), opt(c.help_uri), "-" if t is None else "%s %s" % (t.value, t),
        "|".join(c.output_type), "-" if c.parameters is None else "{%s}" % "|".join(param(k, p) for k, p in c.parameters.items()))


def listing(e):
    if e is None: return "absent"
    if e.tag == "Nil": return "-"
    return "[%s]" % "|".join("%s:%s" % (x.tag, C.prim(x)) for x in e.find("LST"))


class Driver:
    def __init__(self, cfg):
        self.rnd = random.Random(5)
        self.P = OpenedPool(pool_kw=dict(max_runspaces=2))
        self.pool, self.h = self.P.pool, self.P.h
        self.other, self.outs = None, []

    def asked(self, ms):
        if [m["type"] for m in ms] != ["GET_COMMAND_METADATA"]: return ["sent %s" % [m["type"] for m in ms]]
        x = C.lx(ms[0]["xml"])
        ns = lambda e: listing(e).replace("S:", "")
        ct = C.ms(x, "CommandType")
        self.pid = ms[0]["pid"]
        return ["asked for %s types %s namespaces %s arguments %s" % (ns(C.ms(x, "Name")), C.prim(ct), ns(C.ms(x, "Namespace")), listing(C.ms(x, "ArgumentList")))]

    def step(self, o):
        n, sent = o["n"], []
        rnd = random.Random(str(o))
        replies = []
        def ans(r):
            if r.selectors != {"ShellId": self.P.shell}: sent.append("to another shell")
            if r.action == "Command":
                cid = str(uuid.uuid4()).upper()
                if n == "query":
                    sent.extend(self.asked(self.P.re.feed(r.data)))
                    if o["r"] == "fault": return C.fault(r)
                    self.cid, pid, out = cid, self.pid, self.P.out
                    ms = []
                    if o["r"] == "ok":
                        ms.append(out.msg("PIPELINE_OUTPUT", '<Obj RefId="0"><TN RefId="0"><T>Selected.Microsoft.PowerShell.Commands.GenericMeasureInfo</T><T>System.Management.Automation.PSCustomObject</T><T>System.Object</T></TN><MS><I32 N="Count">%d</I32></MS></Obj>' % len(o["cmds"]), pid))
                        ms += [out.msg("PIPELINE_OUTPUT", command_xml(c, rnd.random() < .5), pid, cuts=[rnd.randint(1, 300)]) for c in o["cmds"]]
                    ms.append(out.msg("PIPELINE_STATE", C.ps_state(4) if o["r"] == "ok" else C.ps_state(5, C.error_record("no")), pid))
                    while ms:
                        k = rnd.randint(0, len(ms))
                        replies.append(b"".join(ms[:k]))
                        ms = ms[k:]
                else: self.ocid = cid
                return C.command_response(r, cid)
            if r.action == "Receive" and n == "query":
                if r.cmd != self.cid: sent.append("receives for %s" % r.cmd)
                if not replies: raise env.Runaway("one receive too many")
                d = replies.pop(0)
                if not d: return C.fault(r, 2150858793)
                return C.receive_response(r, [("stdout", d)], cid=self.cid, state=None if replies else "Done")
            if r.action == "Receive":
                return C.receive_response(r, [("stdout", self.P.out.msg("PIPELINE_OUTPUT", C.s_("o"), self.other.id))], cid=self.ocid)
            return C.ok(r)
        self.h.answer = ans
        res = []
        if n == "query":
            names = o["names"][0] if o["one"] else list(o["names"])
            kw = {}
            if o["ct"] != -1: kw["command_types"] = o["ct"]
            if o["hasns"]: kw["namespace"] = list(o["ns"])
            if o["hasargs"]: kw["arguments"] = [{"S": str, "I32": int}[a.split(":")[0]](a.split(":", 1)[1]) for a in o["args"]]
            out, v = outcome(self.pool.get_command_metadata, names, **kw)
            if out == "ok": res = [show(c) for c in v] if isinstance(v, list) else ["result %r" % (v,)]
            elif o["r"] == "failed" and sent: out = "err"
            if out == "ok" and replies: res.append("%d replies unread" % len(replies))
        elif n == "script":
            self.other = env.pypsrp.powershell.PowerShell(self.pool).add_script("x")
            out, v = outcome(self.other.begin_invoke)
            self.P.re.__init__()
        elif n == "poll": out, v = outcome(self.other.poll_invoke)
        else: out, v = outcome(getattr(self.pool, n))
        self.h.take()
        st = {2: "opened", 3: "closed", 9: "disconnected"}.get(self.pool.state, str(self.pool.state))
        return [out] + sent + res + ["pool " + st, "other pipeline " + ("-" if self.other is None else "[%s]" % "|".join("S:%s" % x for x in self.other.output))]

    def close(self):
        self.h.close()


def par(key, name=None, type="T", aliases=(), sw=False, dyn=False): return dict(key=key, name=name or key, type=type, aliases=list(aliases), sw=sw, dyn=dyn)
def com(name, ns="M", uri="-", type=8, outs=(), hasps=True, ps=()): return dict(name=name, ns=ns, uri=uri, type=type, outs=list(outs), hasps=hasps, ps=list(ps))


def check(ck):
    th = env.THOROUGH
    cmds = [com("Get-A", outs=["T1", "T2"], ps=[par("P", aliases=["x", "y"]), par("Q", sw=True)]), com("f", ns="-", type=2, hasps=False), com("z", uri="http://h", type=511, ps=[par("R", name="R2", dyn=True)])]
    consts = dict(Cmds=tlc.Raw("{" + ", ".join(tlc.tla(c) for c in cmds) + "}"), MaxOut=1)
    r, edges, inits = tlc.mc("Metadata", consts, properties=PROPS, constraint="Bound")
    ck.model(r)
    ck.log("model: %d states, %d edges" % (r.distinct, len(edges)))
    conform_walks(ck, Driver, edges, lambda x: dict(pool="opened"), inits, label="queries")
    rnd = ck.rnd
    W = lambda: "".join(rnd.choice(["a", "B", "c-", ",", ";", "?", "[b]", "9", "_", "_x0041_", "*", "\u00e9", " d", "&", "<"]) for _ in range(rnd.randint(1, 8))).strip()
    T = lambda: W() if rnd.random() < .8 else "-"
    runs = []
    for _ in range(400 if th else 80):
        ops = []
        for _ in range(15):
            n = rnd.choice(["query"] * 6 + ["script", "poll", "poll", "disconnect", "connect", "close"] if ops else ["query", "script"])
            if n == "close" and rnd.random() < .7: n = "query"
            o = dict(n=n)
            if n == "poll": o["v"] = "S:o"
            if n == "query":
                one = rnd.random() < .4
                keys = lambda: list(dict.fromkeys(W() for _ in range(rnd.choice([0, 1, 2, 6]))))
                o.update(names=[W() for _ in range(1 if one else rnd.choice([0, 1, 3]))], one=one, ct=rnd.choice([-1, rnd.randint(1, 511), 511, 8]), hasns=rnd.random() < .5, ns=[], hasargs=rnd.random() < .5, args=[], r=rnd.choice(["ok", "ok", "ok", "ok", "fault", "failed"]))
                if o["hasns"]: o["ns"] = [W() for _ in range(rnd.randint(0, 3))]
                if o["hasargs"]: o["args"] = [rnd.choice(["S:" + W(), "I32:%d" % rnd.randint(-9, 9)]) for _ in range(rnd.randint(0, 3))]
                o["cmds"] = [] if o["r"] != "ok" else [com(W(), T(), T(), rnd.choice([-1, rnd.randint(1, 511), 1 << rnd.randint(0, 8)]), [W() for _ in range(rnd.choice([0, 1, 3]))], rnd.random() < .8,
                    ) for _ in range(rnd.choice([0, 1, 2, 5, 12] if len(runs) % 20 else [150]))]
                for c in o["cmds"]:
                    if c["hasps"]: c["ps"] = [par(k, W(), T(), [W() for _ in range(rnd.choice([0, 1, 2]))], rnd.random() < .5, rnd.random() < .5) for k in keys()]
            ops.append(o)
        runs.append((dict(pool="opened"), ops))
    conform_predicted(ck, Driver, "Metadata", consts, runs, label="random queries")
