"""C29: the details of the records in a pipeline's streams, specs/Records.tla."""
import random, re, uuid
import xml.etree.ElementTree as ET
from lib import env, tlc, codec as C
from lib.server import *
from lib.check import conform_walks, conform_predicted

PROPS = ["OneMore", "MadeKeeps", "OthersKeep", "EverythingSaid"]
TYPES = "Alias Function Filter Cmdlet ExternalScript Application Script Workflow Configuration".split()
ENUM = dict(origin=("CommandOrigin", ["Runspace", "Internal"]), visibility=("SessionStateEntryVisibility", ["Public", "Private"]), progress=("ProgressRecordType", ["Processing", "Completed"]))


def catalogue():
    """the catalogue of the specification: kind -> [(attribute, wire name, type, optional)]"""
    t = open(env.VERIF + "/specs/Records.tla").read()
    d = {}
    for n in ("Inv", "Err", "Info", "Prog", "Information"):
        m = re.search(r"^%s == <<(.*?)>>( \\o Inv)?$" % n, t, re.S | re.M)
        d[n] = [(a, b, c, e == "TRUE") for a, b, c, e in re.findall(r'<<"(\w+)", "(\w+)", "(\w+)", (TRUE|FALSE)>>', m.group(0))] + (d["Inv"] if m.group(2) else [])
    return dict(error=d["Err"], failure=d["Err"], warning=d["Info"], verbose=d["Info"], debug=d["Info"], progress=d["Prog"], information=d["Information"],
                Oerror=d["Err"], Owarning=d["Info"], Overbose=d["Info"], Odebug=d["Info"], Oinformation=d["Information"])


CAT = catalogue()
BASE = dict(error=["System.Management.Automation.ErrorRecord"], warning=["System.Management.Automation.WarningRecord", "System.Management.Automation.InformationalRecord"],
            verbose=["System.Management.Automation.VerboseRecord", "System.Management.Automation.InformationalRecord"], debug=["System.Management.Automation.DebugRecord", "System.Management.Automation.InformationalRecord"],
            progress=["System.Management.Automation.ProgressRecord"], information=["System.Management.Automation.InformationRecord"])
MSG = dict(error="ERROR_RECORD", warning="WARNING_RECORD", verbose="VERBOSE_RECORD", debug="DEBUG_RECORD", progress="PROGRESS_RECORD", information="INFORMATION_RECORD")


O, M = env.pypsrp.complex_objects, env.pypsrp.messages
CLASS = dict(error=O.ErrorRecord, warning=M.WarningRecord, verbose=M.VerboseRecord, debug=M.DebugRecord, progress=M.ProgressRecord, information=M.InformationRecord)


MADE = ("warning", "verbose", "debug", "progress", "information")


class Doc:
    def __init__(self, rnd, first=0): self.n, self.tn, self.rnd = first, {}, rnd
    def obj(self, types, body, name=None):
        i, self.n = self.n, self.n + 1
        if types is None: tn = ""
        elif tuple(types) in self.tn: tn = '<TNRef RefId="%d"/>' % self.tn[tuple(types)]
        else:
            self.tn[tuple(types)] = len(self.tn)
            tn = '<TN RefId="%d">%s</TN>' % (len(self.tn) - 1, "".join("<T>%s</T>" % x for x in types))
        return '<Obj RefId="%d"%s>%s%s</Obj>' % (i, C.nattr(name), tn, body() if callable(body) else body)

    def field(self, f, ty):
        w, v = f["w"], f["v"]
        if f["nil"]: return C.nil(w)
        if ty == "S": return C.s_(v[0], w)
        if ty in ("I32", "I64", "U32", "B", "DT"): return "<%s%s>%s</%s>" % (ty, C.nattr(w), v[0], ty)
        if ty == "LS": return self.obj(["System.Collections.Generic.List`1[[System.Object, mscorlib]]", "System.Object"], "<LST>%s</LST>" % "".join(map(C.s_, v)), w)
        if ty == "LA": return self.obj(["System.Collections.Generic.List`1[[System.Object, mscorlib]]", "System.Object"], "<LST>%s</LST>" % "".join(C.s_(x[2:]) if x[0] == "S" else "<%s>%s</%s>" % (*x.split(" "), x.split(" ")[0]) for x in v), w)
        if ty == "LI": return self.obj(self.rnd.choice([["System.Int32[]", "System.Array", "System.Object"], ["System.Collections.ObjectModel.ReadOnlyCollection`1[[System.Int32, mscorlib]]", "System.Object"]]),
                                       "<LST>%s</LST>" % "".join("<I32>%s</I32>" % x for x in v), w)
        if ty == "DCT": return self.obj(["System.Management.Automation.PSBoundParametersDictionary", "System.Object"], "<DCT>%s</DCT>" % "".join("<En>%s%s</En>" % (C.s_(x.split("=", 1)[0], "Key"), C.s_(x.split("=", 1)[1], "Value")) for x in v), w)
        if ty == "types": n, text, x = "CommandTypes", type_text(f["num"]), str(f["num"])
        elif ty in ENUM: n, text, x = ENUM[ty][0], ENUM[ty][1][int(v[0])], v[0]
        elif ty == "exception": return self.obj(["System.Management.Automation.RemoteException", "System.Exception", "System.Object"], lambda: "<ToString>%s</ToString><Props>%s</Props>" % (C.esc_clixml(v[0]), C.s_(v[0], "Message") + C.nil("InnerException")), w)
        else: return self.obj(["System.Management.Automation.InvocationInfo", "System.Object"], lambda: "<Props>%s</Props>" % (C.s_(v[0], "MyCommand") + C.i32(3, "OffsetInLine")), w)
        return self.obj(["System.Management.Automation." + n, "System.Enum", "System.ValueType", "System.Object"], "<ToString>%s</ToString><I32>%s</I32>" % (text, x), w)

    def record(self, o, name=None):
        ty = {w: t for _, w, t, _ in CAT[o["kind"]]}
        fs = list(o["fs"])
        self.rnd.shuffle(fs)
        def body():
            b = "" if o["text"] == "-" else "<ToString>%s</ToString>" % C.esc_clixml(o["text"])
            m = [self.field(f, ty[f["w"]]) for f in fs]
            if self.rnd.random() < .3: m.insert(0, C.s_("?", "SomethingElse"))
            return b + "<MS>%s</MS>" % "".join(m)
        k = "error" if o["kind"] == "failure" else o["kind"].lstrip("O")
        return self.obj(BASE[k] + ["System.Object"], body, name)


def said(rec, a, ty):
    v = getattr(rec, a, "no such attribute")
    if v is None: return "-"
    try:
        if ty in ("LS", "LI"): return "[%s]" % "|".join(x if isinstance(x, str) and ty == "LS" else str(int(x)) for x in v)
        if ty == "LA": return "[%s]" % "|".join({str: "S ", int: "I32 ", bool: "B "}[type(x)] + (str(x).lower() if type(x) is bool else str(x)) for x in v)
        if ty == "DCT": return "{%s}" % "|".join("%s=%s" % kv for kv in v.items())
        if ty in ("I32", "I64", "U32"): return str(v) if type(v) is int else repr(v)
        if ty == "B": return {True: "true", False: "false"}.get(v, repr(v))
        if ty in ENUM or ty == "types": return "%d %s" % (v.value, v)
        if ty == "exception": return v.adapted_properties["Message"] if str(v) == v.adapted_properties["Message"] else "? %s" % v
        if ty == "info": return v.adapted_properties["MyCommand"] if v.adapted_properties["OffsetInLine"] == 3 else "?"
        if ty == "DT": return str(v)
        return v if isinstance(v, str) else repr(v)
    except Exception as e: return "? %s %r" % (e, v)


def named(x, *path):
    for n in path: x = x.find("MS/Obj[@N='%s']" % n)
    return [c for c in x if c.tag in ("LST", "DCT")]


def written(x, w, ty):
    """what the document of a record says about one of its fields"""
    es = x.findall("MS/*[@N='%s']" % w)
    return "-" if not es else " and ".join(sorted({written1(e, ty) for e in es}))


def written1(e, ty):
    if e.tag == "Nil": return "-"
    tx = lambda c: C.unesc_clixml(c.text or "") if c.tag == "S" else c.text or ""
    try:
        if ty in ("S", "I32", "I64", "U32", "B", "DT"): return tx(e) if e.tag == ty else "? %s" % e.tag
        if ty in ("LS", "LI"): return "[%s]" % "|".join(tx(c) if c.tag == {"LS": "S", "LI": "I32"}[ty] else "? %s" % c.tag for c in e.find("LST"))
        if ty == "LA": return "[%s]" % "|".join(c.tag + " " + tx(c) for c in e.find("LST"))
        if ty == "DCT": return "{%s}" % "|".join("%s=%s" % (tx(c.find("*[@N='Key']")), tx(c.find("*[@N='Value']"))) for c in e.find("DCT"))
        if ty == "exception": return tx(e.find("Props/S[@N='Message']")) if e.find("ToString").text == e.find("Props/S[@N='Message']").text and e.find("Props/Nil[@N='InnerException']") is not None else "?"
        if ty == "info": return tx(e.find("Props/S[@N='MyCommand']")) if e.find("Props/I32[@N='OffsetInLine']").text == "3" else "?"
        return "%s %s" % (e.find("I32").text, e.find("ToString").text)
    except AttributeError: return "? " + ET.tostring(e, encoding="unicode")


class Driver:
    NP = 2

    def __init__(self, cfg):
        self.P = OpenedPool(pool_kw=dict(max_runspaces=2))
        self.cids, self.ps = [], []
        def ans(r):
            self.cids.append(str(uuid.uuid4()).upper())
            return C.command_response(r, self.cids[-1])
        self.P.h.answer = ans
        for _ in range(self.NP):
            p = env.pypsrp.powershell.PowerShell(self.P.pool).add_script("x")
            p.begin_invoke()
            self.ps.append(p)

    def step(self, o):
        rnd = random.Random(str(o))
        if o["n"] == "made": return self.send(CLASS[o["kind"]](**self.fields(o)), o)
        p = self.ps[o["p"] - 1]
        if o["kind"] == "failure": mt, xml = "PIPELINE_STATE", '<Obj RefId="0"><MS>%s%s</MS></Obj>' % (C.i32(5, "PipelineState"), Doc(rnd, 1).record(o, "ExceptionAsErrorRecord"))
        else: mt, xml = MSG.get(o["kind"], "PIPELINE_OUTPUT"), Doc(rnd).record(o)
        data = self.P.out.msg(mt, xml, p.id, cuts=[rnd.randint(1, len(xml))])
        self.P.h.answer = lambda r: C.receive_response(r, [("stdout", data)], cid=r.cmd)
        k = "error" if o["kind"] == "failure" else o["kind"]
        out, v = outcome(p.poll_invoke)
        self.P.h.take()
        q = p.output if k[0] == "O" else getattr(p.streams, k)
        rec = q[-1] if q else None
        if not isinstance(rec, CLASS[k.lstrip("O")]): out += " not such a record: %r" % rec
        res = ["text " + (str(rec) if o["text"] != "-" else "-")] + ["%s=%s" % (a, said(rec, a, ty)) for a, _, ty, _ in CAT[o["kind"]]]
        return [out] + res + self.counts() + ([] if o["on"] == "-" else self.send(rec, o))

    def send(self, rec, o):
        """what a record says that is sent on to another pipeline"""
        how, k = o["on"], o["kind"]
        re, cid, ms = C.Reassembler(), str(uuid.uuid4()).upper(), []
        def ans(r):
            if r.data: ms.extend(re.feed(r.data))
            return C.command_response(r, cid) if r.action == "Command" else C.ok(r)
        self.P.h.answer = ans
        ps = env.pypsrp.powershell.PowerShell(self.P.pool).add_cmdlet("y")
        if how == "arg": ps.add_argument(rec)
        out, v = outcome(ps.begin_invoke, *([[rec]] if how == "in" else []))
        self.P.h.take()
        if out != "ok": return ["sent on: " + out]
        xs = [ET.fromstring(m["xml"]) for m in ms if m["type"] == ("CREATE_PIPELINE" if how == "arg" else "PIPELINE_INPUT")]
        if len(xs) != 1: return ["sent on in %d messages" % len(xs)]
        x = xs[0] if how == "in" else named(xs[0], "PowerShell", "Cmds")[0][0].find("MS/Obj[@N='Args']")[1][0].find("MS/*[@N='V']")
        t = x.find("ToString")
        ty = x.findtext("TN/T") or x.findtext("TNRef") or "-"
        ty = "" if o["kind"] == "progress" else " %s %s" % ("an" if ty.rsplit(".", 1)[-1][0] in "EI" else "a", ty.replace("System.Management.Automation.", "", 1))
        return ["sent on" + ty, "text " + ("-" if t is None else C.unesc_clixml(t.text or ""))] + ["%s=%s" % (a, written(x, w, ty)) for a, w, ty, _ in CAT[k]]

    def fields(self, o):
        """what a record is made with"""
        d = {}
        for a, w, ty, _ in CAT[o["kind"]]:
            for f in o["fs"]:
                if f["w"] != w or a == "invocation": continue
                v = f["v"]
                if f["nil"]: d[a] = None
                elif ty in ("I32", "I64", "U32"): d[a] = int(v[0])
                elif ty == "B": d[a] = v[0] == "true"
                elif ty == "LI": d[a] = [int(x) for x in v]
                elif ty == "LS": d[a] = list(v)
                elif ty == "LA": d[a] = [x[2:] if x[0] == "S" else int(x[4:]) if x[0] == "I" else x == "B true" for x in v]
                elif ty == "DCT": d[a] = dict(x.split("=", 1) for x in v)
                elif ty == "types": d[a] = O.CommandType(value=f["num"])
                elif ty in ENUM: d[a] = getattr(O, ENUM[ty][0])(value=int(v[0]))
                else: d[a] = v[0]
        return d

    def counts(self):
        return ["p%d %s %s" % (i + 1, " ".join(str(len(getattr(q.streams, x))) for x in ("error", "warning", "verbose", "debug", "progress", "information")) + " %d" % len(q.output), {1: "running", 5: "failed"}.get(q.state, str(q.state))) for i, q in enumerate(self.ps)]

    def close(self):
        self.P.h.close()


def type_text(v): return "All" if v == 511 else ", ".join(t for i, t in enumerate(TYPES) if v >> i & 1)


def history(rnd, n, only=None):
    W = lambda: "".join(rnd.choice(["a", "B", " c", "9", "_", "_x000A_", "\u00e9", "\U0001F600", "&", "<", "\n", ":"]) for _ in range(rnd.randint(0, 6)))
    I = lambda a, b: str(rnd.choice([a, b, 0, 1, rnd.randint(a, b)]))
    ops = []
    for _ in range(n):
        k = only or rnd.choice(list(CAT) if rnd.random() < .3 else [x for x in CAT if x != "failure"])
        keep, fs = rnd.random(), []
        for a, w, ty, opt in CAT[k]:
            if a == "extended_info_present" or (opt and rnd.random() > keep): continue
            v, num = [], 0
            nil = opt and rnd.random() < .1
            if not nil:
                if ty == "B": v = [rnd.choice(["true", "false"])]
                elif ty == "I32": v = [I(-2 ** 31, 2 ** 31 - 1)]
                elif ty == "I64": v = [I(-2 ** 63, 2 ** 63 - 1)]
                elif ty == "U32": v = [I(0, 2 ** 32 - 1)]
                elif ty == "LI": v = [I(0, 99) for _ in range(rnd.choice([0, 1, 2, 5]))]
                elif ty == "LS": v = [W() for _ in range(rnd.choice([0, 1, 2, 5]))]
                elif ty == "LA": v = [rnd.choice(["S " + W(), "I32 " + I(-2 ** 31, 2 ** 31 - 1), "B true", "B false"]) for _ in range(rnd.choice([0, 1, 2, 5]))]
                elif ty == "DCT": v = ["k%d=%s" % (i, W()) for i in range(rnd.choice([0, 1, 3]))]
                elif ty in ENUM: v = [rnd.choice("01")]
                elif ty == "types":
                    num = rnd.choice([rnd.randint(1, 511), 511, 1 << rnd.randint(0, 8)])
                elif ty == "DT": v = ["20%02d-0%d-1%dT01:02:03.%07d+01:00" % (rnd.randint(0, 99), rnd.randint(1, 9), rnd.randint(0, 9), rnd.randint(0, 9999999))]
                else: v = [W()]
            fs.append(dict(w=w, v=v, nil=nil, num=num))
        if k in MADE and rnd.random() < .2: ops.append(dict(n="made", on=rnd.choice(["arg", "in"]), p=1, kind=k, text="-", fs=[f for f in fs if rnd.random() < .7]))
        ops.append(dict(n="rec", on=rnd.choice(["-", "-", "arg", "in"]), p=rnd.choice([1, 2]), kind=k, text=W() or "-", fs=fs))
    return ops


def check(ck):
    th = env.THOROUGH
    consts = dict(NP=2, Singles=True, MaxRec=3 if th else 2)
    r, edges, inits = tlc.mc("Records", consts, properties=PROPS, constraint="Bound")
    ck.model(r)
    ck.log("model: %d states, %d edges" % (r.distinct, len(edges)))
    conform_walks(ck, Driver, edges, lambda x: dict(x=0), inits, label="records", budget=None if th else 12000)
    runs = [(dict(x=0), history(ck.rnd, 15)) for _ in range(600 if th else 100)]
    runs += [(dict(x=0), history(ck.rnd, 150, k)) for k in CAT if k != "failure"]
    conform_predicted(ck, Driver, "Records", consts, runs, label="random records")
