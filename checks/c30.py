"""C30: known .NET types and the library's classes, specs/Types.tla."""
import queue, random, re, uuid
from lib import env, tlc, codec as C
from lib.server import *
from lib.check import conform_walks, conform_predicted

O = env.pypsrp.complex_objects
PROPS = ["WritingKeeps", "OneEach"]
SPEC = open(env.VERIF + "/specs/Types.tla").read()
_q = lambda x: ("System.Management.Automation." if x[0] else "") + x[1]
NET = {m[0]: _q(m[1:]) for m in re.findall(r'^  (\w+) \|-> <<"\w+", (Sma \\o )?"([^"]*)"', SPEC, re.M)}
PRIM = dict(re.findall(r'(\w+) \|-> "(System\.\w+)"', re.search(r"^Prims == \[(.*?)\]", SPEC, re.S | re.M).group(1)))
_structs = re.search(r"^Structs == \[(.*?)\]$", SPEC, re.S | re.M).group(1)
FIELDS = {x[0]: re.findall(r'<<"(\w+)", "(\w+)", "(\w+)">>', x[1]) for x in re.findall(r"(\w+) \|-> (.*?)(?=\w+ \|->|$)", _structs, re.S)}
ENUMS = dict(Color=(0, 15), Origin=(0, 1), Progress=(0, 1), Visibility=(0, 1), Apartment=(0, 2), Threads=(0, 3), Results=(0, 8), Method=(1, 51), Streams=(1, 15), Commands=(1, 511))
CLS = dict(Color=O.Color, Origin=O.CommandOrigin, Progress=O.ProgressRecordType, Visibility=O.SessionStateEntryVisibility, Apartment=O.ApartmentState, Threads=O.PSThreadOptions, Results=O.PipelineResultTypes,
           Method=O.HostMethodIdentifier, Streams=O.RemoteStreamOptions, Commands=O.CommandType, Coordinates=O.Coordinates, Size=O.Size, KeyDotNet=O.KeyInfoDotNet, Key=O.KeyInfo, Culture=O.CultureInfo,
           Count=O.CommandMetadataCount)
ASM = ", mscorlib, Version=4.0.0.0, Culture=neutral, PublicKeyToken=b77a5c561934e089"


class Doc:
    """one document of a server"""
    def __init__(self, rnd): self.rnd, self.n, self.tn = rnd, 0, {}
    def obj(self, types, body, name=None, d=False):
        i, self.n = self.n, self.n + 1
        if self.rnd.random() < .15 and types[0] != "Some.Thing" and "[][]" not in types[0]: types = types[:1]   # the most specific type is enough
        types = tuple("Deserialized." + t for t in types) if d else tuple(types)
        if types in self.tn: tn = '<TNRef RefId="%d"/>' % self.tn[types]
        else:
            self.tn[types] = len(self.tn)
            tn = '<TN RefId="%d">%s</TN>' % (len(self.tn) - 1, "".join("<T>%s</T>" % C.esc_clixml(x) for x in types))
        return '<Obj RefId="%d"%s>%s%s</Obj>' % (i, C.nattr(name), tn, body())

    def value(self, ty, x, name, d):
        if ty in PRIM: return "<%s%s>%s</%s>" % (ty, C.nattr(name), C.esc_clixml(x["v"][0]), ty)
        if ty in ENUMS: return self.obj([NET[ty], "System.Enum", "System.ValueType", "System.Object"], lambda: "<ToString>%s</ToString><I32>%d</I32>" % (self.rnd.choice(["whatever", "9"]), x["num"]), name, d)
        fs = ["<%s%s>%s</%s>" % (t, C.nattr(w), C.esc_clixml(v), t) for (_, w, t), v in zip(FIELDS[ty], x["v"])]
        fs += [C.s_("z", "Else")] if self.rnd.random() < .3 else []
        self.rnd.shuffle(fs)
        tag = "MS" if ty == "Count" else "Props"
        return self.obj([NET[ty], "System.Object"] if ty in ("Culture", "Count") else [NET[ty], "System.ValueType", "System.Object"],
                        lambda: ("<ToString>%s</ToString>" % NET[ty] if self.rnd.random() < .5 else "") + "<%s>%s</%s>" % (tag, "".join(fs), tag), name, d)

    def item(self, w, ty, vs, d, name=None):
        if not w: return self.value(ty, vs[0], name, d)
        k, t = w[0], NET.get(ty) or PRIM[ty]
        G = "System.Collections.Generic.", "System.Collections.ObjectModel."
        tn = dict(array=t + "[]", jagged=t + "[][]", list=G[0] + "List`1[[%s%s]]" % (t, ASM), coll=G[1] + "Collection`1[[%s%s]]" % (t, ASM), rocoll=G[1] + "ReadOnlyCollection`1[[%s%s]]" % (t, ASM),
                  dictS=G[0] + "Dictionary`2[[System.String%s],[%s%s]]" % (ASM, t, ASM), dictI=G[0] + "Dictionary`2[[System.Int32%s],[%s%s]]" % (ASM, t, ASM),
                  arraylist="System.Collections.ArrayList", objects="System.Object[]", objlist=G[0] + "List`1[[System.Object%s]]" % ASM, objcoll=G[1] + "Collection`1[[System.Object%s]]" % ASM,
                  objrocoll=G[1] + "ReadOnlyCollection`1[[System.Object%s]]" % ASM, hashtable="System.Collections.Hashtable", queue="System.Collections.Queue", stack="System.Collections.Stack", prop="Some.Thing",
                  primdict="System.Management.Automation.PSPrimitiveDictionary", bounddict="System.Management.Automation.PSBoundParametersDictionary")[k]
        types = [tn] + (["System.Array"] if k in ("array", "jagged", "objects") else []) + (["System.Collections.Hashtable"] if k == "primdict" else []) + ["System.Object"]
        if k in ("array", "list", "coll", "rocoll"): return self.obj(types, lambda: "<LST>%s</LST>" % "".join(self.value(ty, v, None, d) for v in vs), name, d)
        if k == "jagged": return self.obj(types, lambda: "<LST>%s</LST>" % "".join(self.item(["array"], ty, q, d) for q in (vs, [])), name, d)
        if k in ("dictS", "dictI"):
            key = lambda i: C.s_("k%d" % i, "Key") if k == "dictS" else C.i32(i, "Key")
            return self.obj(types, lambda: "<DCT>%s</DCT>" % "".join("<En>%s%s</En>" % (key(i + 1), self.value(ty, v, "Value", d)) for i, v in enumerate(vs)), name, d)
        inner = lambda n=None: self.item(w[1:], ty, vs, d, n)
        if k in ("hashtable", "primdict", "bounddict"): return self.obj(types, lambda: "<DCT><En>%s%s</En></DCT>" % (C.s_("k", "Key"), inner("Value")), name, d)
        if k == "prop":
            tag = self.rnd.choice(["MS", "Props"])
            return self.obj(types, lambda: "<%s>%s</%s>" % (tag, inner("p"), tag), name, d)
        tag = dict(queue="QUE", stack="STK").get(k, "LST")
        return self.obj(types, lambda: "<%s>%s%s%s</%s>" % (tag, C.s_("m"), inner(), C.i32(7), tag), name, d)


# ---- what Python has
def got(v, ty):
    if ty in PRIM:
        want = dict(S=str, B=bool, G=uuid.UUID, Db=float).get(ty, int if ty in ("I32", "I64", "U32", "By", "U64", "I16") else str)
        if type(v) is not want: return "? %r" % (v,)
        return "%s %s" % (ty, str(v).lower() if ty == "B" else v)
    if type(v) is not CLS[ty]: return "? %s" % type(v).__name__
    if ty in ENUMS: return "%s %s %s" % (type(v).__name__, v.value, v)
    return "%s %s" % (type(v).__name__, " ".join("%s=%s" % (a, show(getattr(v, a, "nothing"), t)) for a, _, t in FIELDS[ty]))


def show(v, tag): return str(ord(v)) if tag == "C" and isinstance(v, str) and len(v) == 1 else str(v).lower() if tag == "B" and type(v) is bool else v if tag == "S" and type(v) is str else str(v) if tag == "I32" and type(v) is int else "? %r" % (v,)


def got_item(v, w, ty):
    if not w: return got(v, ty)
    k = w[0]
    if k in ("array", "list", "coll", "rocoll"): return "[%s]" % "|".join(got(x, ty) for x in v) if type(v) is list else "? %r" % v
    if k == "jagged": return "[%s]" % "|".join(got_item(x, ["array"], ty) for x in v) if type(v) is list else "? %r" % v
    if k in ("dictS", "dictI"): return "{%s}" % "|".join("%s=%s" % (a, got(x, ty)) for a, x in v.items()) if type(v) is dict and all(type(a) is (str if k == "dictS" else int) for a in v) else "? %r" % v
    if k in ("hashtable", "primdict", "bounddict"): return "{%s}" % "|".join("%s=%s" % (a, got_item(x, w[1:], ty)) for a, x in v.items()) if type(v) is dict else "? %r" % v
    if k == "prop": return "<%s>" % "|".join("%s=%s" % (a, got_item(x, w[1:], ty)) for dd in (v.adapted_properties, v.extended_properties) for a, x in dd.items()) if type(v) is O.GenericComplexObject else "? %r" % v
    if k == "queue": q, b = list(v.queue) if isinstance(v, queue.Queue) else [], "Q[%s]"
    else: q, b = v, "[%s]"
    if type(q) is not list or len(q) != 3: return "? %r" % v
    prim = lambda x: ("S " if type(x) is str else "I32 " if type(x) is int else "? ") + str(x)
    return b % "|".join([prim(q[0]), got_item(q[1], w[1:], ty), prim(q[2])])


def made(ty, x):
    if ty == "Array":
        it = iter([int(e[4:]) if e.startswith("I32:") else e[2:] for e in x["v"]])
        build = lambda d: [build(d[1:]) if len(d) > 1 else next(it) for _ in range(d[0])]
        return O.Array(array=build(x["dims"]))
    if ty in ENUMS: return CLS[ty](value=x["num"])
    return CLS[ty](**{a: int(v) if t == "I32" else chr(int(v)) if t == "C" else v == "true" if t == "B" else v for (a, _, t), v in zip(FIELDS[ty], x["v"])})


def made_item(w, ty, vs):
    if not w: return made(ty, vs[0])
    k = w[0]
    if k == "array": return [made(ty, v) for v in vs]
    x = made_item(w[1:], ty, vs)
    if k == "hashtable": return {"k": x}
    if k == "prop":
        g = O.GenericComplexObject()
        g.extended_properties["p"] = x
        return g
    if k == "queue":
        q = queue.Queue()
        for e in ("m", x, 7): q.put(e)
        return q
    return ["m", x, 7]


# ---- what the server reads
class Reader:
    def __init__(self): self.tn = {}
    def types(self, x):
        for c in x:
            if c.tag == "TN":
                self.tn[c.attrib["RefId"]] = ",".join(C.unesc_clixml(t.text) for t in c)
                return self.tn[c.attrib["RefId"]]
            if c.tag == "TNRef": return self.tn[c.attrib["RefId"]]
        return "untyped"
    def prim(self, x, sep=":"): return "%s%s%s" % (x.tag, sep, C.unesc_clixml(x.text) if x.tag == "S" else x.text)
    def value(self, x, ty):
        t = self.types(x)
        if ty in ENUMS: return "%s '%s' %s" % (t, C.unesc_clixml(x.find("ToString").text), "+".join(self.prim(c) for c in x if c.tag not in ("TN", "TNRef", "ToString")))
        if ty == "Array":
            l = lambda n: list(C.ms(x, n).find("LST"))
            for n in ("mae", "mal"): self.types(C.ms(x, n))
            return "%s MS mae=[%s] mal=[%s]" % (t, "|".join(self.prim(e) for e in l("mae")), "|".join(e.text if e.tag == "I32" else "?" for e in l("mal")))
        ps = [c for c in x if c.tag in ("MS", "Props")]
        order = {w: i for i, (_, w, _) in enumerate(FIELDS[ty])}
        return "%s %s" % (t, " ".join("%s %s" % (p.tag, " ".join("%s=%s" % (e.attrib["N"], self.prim(e)) for e in sorted(p, key=lambda e: order.get(e.attrib["N"], 99)))) for p in ps))
    def item(self, x, w, ty):
        if not w: return self.value(x, ty)
        k = w[0]
        self.types(x)
        if k == "hashtable": return "{k=%s}" % self.item([e for e in x.find("DCT")[0] if e.attrib.get("N") == "Value"][0], w[1:], ty)
        if k == "prop": return "<p=%s>" % self.item(x.find("*/*[@N='p']"), w[1:], ty)
        l = list(x.find("QUE" if k == "queue" else "LST"))
        if k == "array": return "[%s]" % "|".join(self.value(e, ty) for e in l)
        return ("Q" if k == "queue" else "") + "[%s]" % "|".join([self.prim(l[0], " "), self.item(l[1], w[1:], ty), self.prim(l[2], " ")])


class Driver:
    def __init__(self, cfg):
        self.P = OpenedPool()
        self.ps = self.start(env.pypsrp.powershell.PowerShell(self.P.pool).add_script("x"))[0]

    def start(self, p):
        got = []
        def ans(r):
            got.extend(self.P.re.feed(r.data or b""))
            return C.command_response(r, str(uuid.uuid4()).upper()) if r.action == "Command" else C.ok(r)
        self.P.h.answer = ans
        p.begin_invoke()
        self.P.h.take()
        return p, [m for m in got if m["type"] == "CREATE_PIPELINE"]

    def step(self, o):
        rnd = random.Random(str(o))
        if o["n"] != "write":
            data = b"".join(self.P.out.msg("PIPELINE_OUTPUT", Doc(rnd).item(i["w"], i["ty"], i["vs"], i["d"]), self.ps.id, cuts=[rnd.randint(1, 200)]) for i in o["items"])
            self.P.h.answer = lambda r: C.receive_response(r, [("stdout", data)], cid=r.cmd)
            had = len(self.ps.output)
            out, _ = outcome(self.ps.poll_invoke)
            self.P.h.take()
            new = self.ps.output[had:]
            try: shown = [got_item(v, i["w"], i["ty"]) for v, i in zip(new, o["items"])]
            except Exception as e: shown = ["? %r" % e]
            if o["n"] == "read" or len(new) != len(o["items"]): return [out] + shown + [str(len(self.ps.output))]
            return [out] + shown + [str(len(self.ps.output))] + self.send(new, o["items"])
        return self.send([made_item(i["w"], i["ty"], i["vs"]) for i in o["items"]], o["items"]) + [str(len(self.ps.output))]

    def send(self, vs, items):
        p = env.pypsrp.powershell.PowerShell(self.P.pool).add_cmdlet("c")
        for v in vs: p.add_argument(v)
        out, r = outcome(self.start, p)
        if out != "ok": return [out]
        x = C.lx(r[1][0]["xml"])
        rd = Reader()
        cmds = C.ms(C.ms(x, "PowerShell"), "Cmds")
        for e in x.iter():
            # type names are collected in document order
            if e.tag == "TN": rd.tn[e.attrib["RefId"]] = ",".join(C.unesc_clixml(t.text) for t in e)
        args = [C.ms(a, "V") for a in C.ms(cmds.find("LST")[0], "Args").find("LST")]
        try: shown = [rd.item(a, i["w"], i["ty"]) for a, i in zip(args, items)] + ["more arguments"] * (len(args) - len(items))
        except Exception as e: shown = ["? %r" % e]
        return ["ok"] + shown

    def close(self):
        self.P.h.close()


LOOSE = "arraylist objects objlist objcoll objrocoll hashtable primdict bounddict queue stack prop".split()
TYPED = "array jagged list coll rocoll dictS dictI".split()


BOTH = [t for t in CLS if t not in ("Key", "Commands", "Count")]


def history(rnd, n):
    W = lambda: "".join(rnd.choice(["a", "B", " ", "_", "_x000A_", "\u00e9", "\U0001F600", "&", "<", "\n", "|"]) for _ in range(rnd.randint(0, 5)))
    I = lambda a, b: str(rnd.choice([a, b, 0, 1, rnd.randint(a, b)]))
    def val(ty):
        if ty in ENUMS: return dict(v=[], num=rnd.randint(*ENUMS[ty]), dims=[])
        if ty == "Array":
            dims = rnd.choice([[1], [3], [2, 2], [1, 4], [3, 1], [2, 3, 2], [1, 1, 1]])
            c = 1
            for d in dims: c *= d
            return dict(v=[rnd.choice(["I32:%d" % rnd.randint(-9, 9), "S:q%d" % i]) for i in range(c)], num=0, dims=dims)
        f = lambda t: W() if t == "S" else rnd.choice(["97", "65535", "32", "233"]) if t == "C" else rnd.choice(["true", "false"]) if t == "B" else I(-2 ** 31, 2 ** 31 - 1)
        if ty in FIELDS: return dict(v=[f(t) for _, _, t in FIELDS[ty]], num=0, dims=[])
        v = dict(G=str(uuid.UUID(int=rnd.getrandbits(128))), Version="%d.%d.%d" % (rnd.randint(0, 9), rnd.randint(0, 99), rnd.randint(0, 9)), D="%d.%02d" % (rnd.randint(-9, 9), rnd.randint(0, 99)), URI="http://h/%d?a=b" % rnd.randint(0, 9),
                 DT="2021-0%d-01T00:00:00.1234567+02:00" % rnd.randint(1, 9), Db=rnd.choice(["0.5", "-1.25", "1e+300"]), I64=I(-2 ** 63, 2 ** 63 - 1), U32=I(0, 2 ** 32 - 1), By=I(0, 255), U64=I(0, 2 ** 64 - 1), I16=I(-2 ** 15, 2 ** 15 - 1))
        return dict(v=[v[ty] if ty in v else f(ty)], num=0, dims=[])
    ops = []
    for _ in range(n):
        n = rnd.choice(["read"] * 5 + ["write"] * 3 + ["pass"] * 2)
        read = n == "read"
        items = []
        for _ in range(rnd.choice([1, 1, 2, 4])):
            ty = rnd.choice([t for t in CLS if t not in ("Key", "Commands")] + list(PRIM)) if read else rnd.choice(BOTH) if n == "pass" else rnd.choice([t for t in CLS if t != "Count"] + ["Array"])
            w = [rnd.choice(LOOSE if read else ["arraylist", "hashtable", "prop", "queue"]) for _ in range(rnd.choice([0, 0, 1, 1, 2, 3]))]
            vs = [val(ty)]
            if rnd.random() < .5:
                w.append(rnd.choice(TYPED if read else ["array"]))
                vs = [val(ty) for _ in range(rnd.choice([0, 1, 2, 3]))]
            items.append(dict(w=w, ty=ty, vs=vs, d=n != "write" and rnd.random() < .2))
        ops.append(dict(n=n, items=items))
    return ops


def check(ck):
    th = env.THOROUGH
    consts = dict(Exhaust=True, MaxN=2 if th else 1)
    r, edges, inits = tlc.mc("Types", consts, properties=PROPS, constraint="Bound")
    ck.model(r)
    ck.log("model: %d states, %d edges" % (r.distinct, len(edges)))
    conform_walks(ck, Driver, edges, lambda x: dict(x=0), inits, label="types", budget=None)
    runs = [(dict(x=0), history(ck.rnd, 15)) for _ in range(1500 if th else 150)]
    conform_predicted(ck, Driver, "Types", consts, runs, label="random values")
