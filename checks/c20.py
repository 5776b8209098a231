"""C20: building pipelines, specs/Builder.tla."""
import json, queue, random
from lib import env, tlc, codec as C
from lib.check import conform_walks, conform_predicted
from lib.server import *
from checks.full import Full, pipeline_end
from checks.c22 import Gen

psrp = env.pypsrp
PROPS = ["RefusedIsNothing", "OthersStay", "AllSent"]
VALS = {"S:a": "a", "I32:5": 5, "nil": None, "[S:a,I32:1]": ["a", 1], "B:true": True, "{S:k=S:v}": {"k": "v"}, "Q[S:a,I32:1]": queue.Queue()}
for _x in ("a", 1): VALS["Q[S:a,I32:1]"].put(_x)
CONT = ("LST", "QUE", "STK", "DCT", "IE")


def typed(e, tns, ids):
    """the typed form of an element of a document"""
    if e.tag == "Ref": return ids.get(e.attrib["RefId"], "dangling")
    if e.tag == "Nil": return "nil"
    if e.tag != "Obj": return "%s:%s" % (e.tag, e.text or "")
    tn = e.find("TN")
    if tn is not None: tns[tn.attrib["RefId"]] = [t.text for t in tn]
    tr = e.find("TNRef")
    types = tns.get(tn.attrib["RefId"] if tn is not None else tr.attrib["RefId"], ["?"]) if tn is not None or tr is not None else []
    js = lambda l: ",".join(l)
    w = None
    for c in e:
        if c.tag in CONT:
            if c.tag == "DCT": w = "{%s}" % js(["%s=%s" % tuple(typed(h, tns, ids) for h in en) for en in c])
            else: w = {"LST": "", "QUE": "Q", "STK": "K", "IE": "E"}[c.tag] + "[%s]" % js([typed(h, tns, ids) for h in c])
            if {"LST": "System.Object[]", "DCT": "System.Collections.Hashtable", "QUE": "System.Collections.Queue"}.get(c.tag) not in types: w += " with types %s" % types
    if w is None:
        ts = e.find("ToString")
        pr = lambda s: js(["%s=%s" % (x.attrib["N"], typed(x, tns, ids)) for x in (e.find(s) if e.find(s) is not None else [])])
        w = "O(%s;%s;%s;%s;%s)" % (js(types), "nil" if ts is None else "s:" + (ts.text or ""), js([typed(x, tns, ids) for x in e if x.tag not in ("TN", "TNRef", "ToString", "MS", "Props")]), pr("MS"), pr("Props"))
    ids[e.attrib["RefId"]] = w
    return w


def collect(x):
    """all type lists and objects of a document, in document order"""
    tns, ids = {}, {}
    def walk(e):
        for c in e: walk(c)
        if e.tag == "Obj": typed(e, tns, ids)
    for t in x.iter("TN"): tns[t.attrib["RefId"]] = [y.text for y in t]
    walk(x)
    return tns, ids


def enum(e):
    if e is None: return "absent"
    return "%s %s" % (e.findtext("I32"), e.findtext("ToString"))


def show_pipeline(xml):
    x = C.lx(xml)
    tns, ids = collect(x)
    p = C.ms(x, "PowerShell")
    bl = lambda e: e.text if e is not None and e.tag == "B" else "nil" if e is not None and e.tag == "Nil" else "?"
    hist = C.ms(p, "History")
    out = ["history %s apartment %s redirect %s stream %s nested %s as %s" % (bl(C.ms(x, "AddToHistory")), C.ms(x, "ApartmentState").findtext("I32"), bl(C.ms(p, "RedirectShellErrorOutputPipe")),
           C.ms(x, "RemoteStreamOptions").findtext("I32"), bl(C.ms(x, "IsNested")) if bl(C.ms(x, "IsNested")) == bl(C.ms(p, "IsNested")) else "differs",
           "-" if hist is None or hist.tag == "Nil" else C.unesc_clixml(hist.text or ""))]
    def cmd(c):
        a = []
        for y in C.ms(c, "Args").find("LST"):
            n, v = C.ms(y, "N"), C.ms(y, "V")
            a.append("%s=%s" % ("-" if n.tag == "Nil" else C.unesc_clixml(n.text or ""), typed(v, tns, ids)))
        sc = bl(C.ms(c, "UseLocalScope"))
        t = "%s %s scope %s args(%s) my %s to %s previous %s" % ("script" if bl(C.ms(c, "IsScript")) == "true" else "command", C.unesc_clixml(C.ms(c, "Cmd").text or ""), "-" if sc == "nil" else sc, ";".join(a),
                                                             enum(C.ms(c, "MergeMyResult")), enum(C.ms(c, "MergeToResult")), enum(C.ms(c, "MergePreviousResults")))
        for k in ("Error", "Warning", "Verbose", "Debug", "Information"):
            e = C.ms(c, "Merge" + k)
            if e is not None: t += " %s %s" % (k.lower(), enum(e))
        return t
    sts = lambda l: " | ".join(cmd(c) for c in l)
    first = sts(C.ms(p, "Cmds").find("LST"))
    extra = C.ms(p, "ExtraCmds")
    if extra is None or extra.tag == "Nil": return out + [first]
    l = [sts(C.ms(y, "Cmds").find("LST")) for y in extra.find("LST")]
    return out + (l if len(l) > 1 and l[0] == first else ["first statement differs: " + first] + l)


class Driver:
    def __init__(self, cfg):
        self.rnd = random.Random(str(cfg))
        self.made = {}
        self.F = Full(self.rnd, proto=cfg["proto"])
        self.F.h.limit = 100000
        self.pool = psrp.powershell.RunspacePool(self.F.client.wsman, apartment_state=cfg["apart"])
        self.pool.open()
        self.ps = psrp.powershell.PowerShell(self.pool)
        if cfg["nested"]:
            self.ps.add_script("parent")
            self.ps.begin_invoke()
            self.ps = self.ps.create_nested_power_shell()

    def value(self, o):
        if o.get("seed"):
            # an operation with an earlier seed uses the very same object again
            if o["seed"] not in self.made: self.made[o["seed"]] = Gen(random.Random(o["seed"])).val(2)[0]
            return self.made[o["seed"]]
        return VALS[o["v"]]

    def given(self, o):
        """what a Command is made with beyond its text"""
        T = psrp.complex_objects.PipelineResultTypes
        to = lambda x: T(value=dict(none=T.NONE, output=T.OUTPUT, null=T.NULL)[x])
        kw = {"merge_" + w: to(x) for w, x in o["m"]}
        if "merge_error" in kw: kw.update(merge_my_result=T(value=T.ERROR if dict(o["m"])["error"] != "none" else T.NONE), merge_to_result=kw["merge_error"])
        if o["prev"]: kw["merge_previous"] = T(protocol_version_2=True, value=T.OUTPUT | T.ERROR)
        if o["args"]: kw["args"] = [psrp.complex_objects.CommandParameter(*([] if k == "-" else [k]), value=VALS[v]) for k, v in o["args"]]
        return kw

    def step(self, o):
        n, ps = o["n"], self.ps
        sc = {"-": None, "true": True, "false": False}
        if n in ("cmdlet", "script"):
            f = getattr(ps, "add_" + n)
            r = outcome(f, o["text"], **({} if o["scope"] == "-" and self.rnd.random() < .5 else dict(use_local_scope=sc[o["scope"]])))
        elif n == "command": r = outcome(ps.add_command, psrp.complex_objects.Command(o["text"], protocol_version=self.pool.protocol_version, is_script=o["script"], use_local_scope=sc[o["scope"]], end_of_statement=o["eos"], **self.given(o)))
        elif n == "arg": r = outcome(ps.add_argument, self.value(o))
        elif n == "param": r = outcome(ps.add_parameter, o["name"], *([] if o["v"] == "nil" and self.rnd.random() < .5 else [self.value(o)]))
        elif n == "params": r = outcome(ps.add_parameters, {k: VALS[v] for k, v in o["list"]})
        elif n == "statement": r = outcome(ps.add_statement)
        elif n == "merge": r = outcome(getattr(ps, "merge_" + o["which"]), *([] if o["to"] == "none" and self.rnd.random() < .5 else [o["to"]]))
        elif n == "previous": r = outcome(ps.merge_previous, o["on"])
        elif n == "reset": r = outcome(ps.merge_reset)
        elif n == "clear": r = outcome(ps.clear_commands)
        elif n == "invoke": return self.invoke(o)
        if r[0] == "ok" and r[1] is not ps: return ["does not return the PowerShell"]
        return ["refused" if r[0].startswith("err:") else r[0]]

    def invoke(self, o):
        ps, F = self.ps, self.F
        F.emit, F.msgs = [pipeline_end(4)], []
        F.re.pop("pipe", None)
        if o["text"] != "-" or hasattr(ps, "history_string"): ps.history_string = None if o["text"] == "-" else o["text"]
        kw = {}
        if o["hist"] or self.rnd.random() < .5: kw["add_to_history"] = o["hist"]
        if o["apart"] != -1: kw["apartment_state"] = o["apart"]
        if o["redirect"] or self.rnd.random() < .5: kw["redirect_shell_error_to_out"] = o["redirect"]
        if o["stream"] != -1: kw["remote_stream_options"] = o["stream"]
        out, v = outcome(ps.invoke, **kw)
        ms = [m for m in F.msgs if m["type"] == "CREATE_PIPELINE"]
        if out != "ok": return ["refused"] if not ms and out.startswith("err:") else [out, "%d pipelines sent" % len(ms)]
        ps.close()
        if len(ms) != 1: return ["ok", "%d pipelines sent" % len(ms)]
        return ["ok"] + show_pipeline(ms[0]["xml"])

    def close(self): self.F.close()


def inv(**kw):
    o = dict(n="invoke", hist=False, apart=-1, redirect=False, stream=-1, text="-")
    o.update(kw)
    return o


def S(l): return tlc.Raw("{%s}" % ", ".join(tlc.tla(x) for x in l))


def check(ck):
    th = env.THOROUGH
    rnd = ck.rnd
    cfgs = [dict(proto=p, apart=2, nested=False) for p in ("2.1", "2.2", "2.3", "2.10")]
    base = dict(Cfgs=S(cfgs), Texts=S(["x"]), Scopes=S(["-"]), Names=S([]), Vals=S([]), Whiches=S([]), Tos=S([]), MaxCmds=1, MaxArgs=0, Invokes=S([inv()]), Kinds=S([]))
    runs = [
        ("statements", dict(Cfgs=S(cfgs[2:3]), Texts=S(["a", "b"]), Kinds=S(["cmdlet", "script", "statement"]), MaxCmds=4 if th else 3, Scopes=S(["-", "true"]))),
        ("command objects", dict(Cfgs=S(cfgs[2:3]), Kinds=S(["command", "statement", "cmdlet"]), MaxCmds=3 if th else 2, Scopes=S(["-", "true", "false"]))),
        ("arguments", dict(Cfgs=S(cfgs[:1]), Kinds=S(["cmdlet", "statement"]), Names=S(["n", "m"]), Vals=S(list(VALS)[:4]), MaxCmds=2, MaxArgs=2 if th else 1)),
        ("merges", dict(Kinds=S(["cmdlet"]), Whiches=S(["error", "warning", "verbose", "debug", "information", "all"]), Tos=S(["none", "output", "null", "nowhere"]))),
        ("merges of two", dict(Kinds=S(["script", "statement"]), MaxCmds=2, Whiches=S(["error", "information", "all"]), Tos=S(["none", "output", "error"]))),
        ("merging command objects", dict(Kinds=S(["merging"]), Whiches=S(["warning", "all"]), Tos=S(["none", "output"]), MaxCmds=1)),
        ("options", dict(Cfgs=S([dict(proto=p, apart=a, nested=n) for p in ("2.1", "2.3") for a in (0, 1, 2) for n in (False, True)]), Kinds=S(["script"]),
                         Invokes=S([inv(hist=h, apart=a, redirect=r, stream=x, text=t) for h in (False, True) for a in (-1, 0, 1, 2) for r in (False, True) for x, t in ((-1, "-"), (0, "my history"), (15, "-"), (5, "_x0041_"))]))),
    ]
    for label, kw in runs:
        c = dict(base)
        c.update(kw)
        r, edges, inits = tlc.mc("Builder", c, properties=PROPS)
        ck.model(r)
        conform_walks(ck, Driver, edges, lambda x: json.loads(x)["c"], inits, label=label, budget=60000 if th else 25000, max_len=30)
    hist = []
    for j in range(800 if th else 120):
        c = dict(proto=rnd.choice(["2.1", "2.2", "2.3", "2.3", "2.10"]), apart=rnd.choice([0, 1, 2, 2]), nested=rnd.random() < .15)
        ops = []
        for _ in range(rnd.choice([10, 25, 40])):
            k = rnd.choice(["cmdlet", "cmdlet", "script", "command", "arg", "arg", "param", "param", "params", "statement", "merge", "merge", "merge", "previous", "reset", "clear", "invoke", "invoke"])
            o = dict(n=k)
            if k in ("cmdlet", "script", "command"): o.update(text=rnd.choice(["Get-X", "x | y; z", "\u00e9\U0001F600", "_x0041_", "a\r\nb", ""]), scope=rnd.choice(["-", "true", "false"]))
            if k == "command": o.update(script=rnd.random() < .5, eos=rnd.random() < .3, prev=rnd.random() < .3, m=[[w, rnd.choice(["none", "output", "output"] + (["null"] if w != "error" else []))] for w in rnd.sample(["error", "warning", "verbose", "debug", "information"], rnd.choice([0, 0, 1, 3]))],
                                     args=[[rnd.choice(["-", "n", "x y"]), rnd.choice(list(VALS))] for _ in range(rnd.choice([0, 0, 1, 3]))])
            if k in ("arg", "param"):
                o["name"] = rnd.choice(["N", "name", "x y", "_x0041_"])
                if rnd.random() < .3: o["v"] = rnd.choice(list(VALS))
                else:
                    old = [(x["seed"], x["v"]) for x in ops if x.get("seed")]
                    if old and rnd.random() < .3: o["seed"], o["v"] = rnd.choice(old[-3:])
                    else:
                        o["seed"] = "%d-%d-%d" % (env.SEED, j, len(ops))
                        o["v"] = Gen(random.Random(o["seed"])).val(2)[1]
            if k == "params": o["list"] = [[x, rnd.choice(list(VALS))] for x in rnd.sample(["a", "b", "c"], rnd.choice([0, 1, 2, 3]))]
            if k == "merge": o.update(which=rnd.choice(["error", "warning", "verbose", "debug", "information", "all"]), to=rnd.choice(["none", "output", "null", "Output", "error", ""]))
            if k == "previous": o["on"] = rnd.random() < .5
            if k == "clear" and rnd.random() < .6: continue
            if k == "invoke": o = inv(hist=rnd.random() < .3, apart=rnd.choice([-1, 0, 1, 2]), redirect=rnd.random() < .3, stream=rnd.choice([-1, -1, 0, 1, 2, 4, 8, 15]), text=rnd.choice(["-", "-", "h \u00e9"]))
            ops.append(o)
        ops.append(inv())
        hist.append((c, ops))
    for j in range(20 if th else 4):   # long programs: many statements, many commands in one, many arguments of one
        kinds = ["cmdlet", "script"] + [["statement", "statement"], ["cmdlet"], ["arg"] * 12][j % 3]
        ops = [dict(n="cmdlet", text="first", scope="-")]
        for i in range(rnd.choice([60, 150])):
            o = dict(n=rnd.choice(kinds))
            if o["n"] in ("cmdlet", "script"): o.update(text="c%d" % i, scope="-")
            if o["n"] == "arg": o.update(name="N", v=rnd.choice(list(VALS)))
            ops.append(o)
        hist.append((dict(proto="2.3", apart=2, nested=False), ops + [inv()]))
    none = {k: (0 if k.startswith("Max") else frozenset()) for k in base}
    conform_predicted(ck, Driver, "Builder", none, hist, label="random programs")
