"""C22: CLIXML documents, specs/Clixml.tla."""
import base64, queue, random, re, uuid
import xml.etree.ElementTree as ET
from lib import env, tlc, codec as C
from lib.check import pmap
from lib.server import *
from xml.sax.saxutils import escape as xesc

psrp = env.pypsrp
from pypsrp.serializer import Serializer, TaggedValue
from pypsrp.complex_objects import GenericComplexObject

TYPES = dict(arr=["System.Object[]", "System.Array", "System.Object"], al=["System.Collections.ArrayList", "System.Object"], ht=["System.Collections.Hashtable", "System.Object"],
             q=["System.Collections.Queue", "System.Object"], st=["System.Collections.Stack", "System.Object"], th=["Some.Thing", "System.Object"],
             th2=["Deserialized.Other.Thing", "Deserialized.System.Object"], col=["System.Collections.ObjectModel.Collection`1[[System.String, mscorlib]]", "System.Object"],
             ia=["System.Int32[]", "System.Array", "System.Object"], gl=["System.Collections.Generic.List`1[[System.Int32, mscorlib]]", "System.Object"],
             gd=["System.Collections.Generic.Dictionary`2[[System.String, mscorlib],[System.Object, mscorlib]]", "System.Object"], pd=["System.Management.Automation.PSPrimitiveDictionary", "System.Collections.Hashtable", "System.Object"])

# chains of types that share their beginning, their end, or all but their order
RELATED = [["Some.Other", "Some.Thing", "System.Object"], ["Some.Thing", "Some.Other", "System.Object"], ["Some.Thing", "Some.Other", "Some.Base", "System.Object"], ["Some.Thing,Some.Other", "System.Object"]]


# ------------------------------------------------------------------ canonical form of Python values (reading)
def shown(v):
    if v is None: return "nil"
    t = type(v)
    if t is bool: return "B:" + str(v).lower()
    if t is int: return "i:%d" % v
    if t is float: return "f:" + xnum(v)
    if t is str: return "s:" + v
    if t is bytes: return "BA:" + base64.b64encode(v).decode()
    if t is uuid.UUID: return "G:%s" % v
    if t is list: return "[%s]" % ",".join(shown(x) for x in v)
    if isinstance(v, queue.Queue): return "Q[%s]" % ",".join(shown(x) for x in list(v.queue))
    if t is dict: return "{%s}" % ",".join("%s=%s" % (shown(k), shown(x)) for k, x in v.items())
    if t is ET.Element: return "E" + ET.tostring(v, encoding="unicode")
    if t in (GenericComplexObject, OwnObject):
        pr = lambda d: ",".join("%s=%s" % (k, shown(x)) for k, x in d.items())
        return "O(%s;%s;%s;%s;%s)" % (",".join(v.types), "nil" if v.to_string is None else "s:" + v.to_string, ",".join(shown(x) for x in v.property_sets), pr(v.extended_properties), pr(v.adapted_properties))
    return "?%s %r" % (t.__name__, v)


def xml_of(ops):
    """the document the operations describe"""
    out, stack = [], []
    attr = lambda o: "" if o["name"] == "-" else ' N="%s"' % xesc(o["name"], {'"': "&quot;"})
    def leave(f):
        if f["sec"]: out.append("</%s>" % f["sec"])
        f["sec"] = None
    def pre():
        if stack and stack[-1]["sec"] == "DCT":
            f = stack[-1]
            if f["k"] % 2 == 0: out.append("<En>")
    def post():
        if stack and stack[-1]["sec"] == "DCT":
            f = stack[-1]
            f["k"] += 1
            if f["k"] % 2 == 0: out.append("</En>")
    for o in ops:
        n = o["n"]
        if n == "begin":
            pre()
            out.append('<Obj%s RefId="%s">' % (attr(o), o["id"]))
            if o["tn"] == "def": out.append('<TN RefId="%s">%s</TN>' % (o["tid"], "".join("<T>%s</T>" % xesc(t) for t in o["types"])))
            if o["tn"] == "ref": out.append('<TNRef RefId="%s" />' % o["tid"])
            stack.append(dict(sec=None, k=0))
        elif n == "prim":
            pre()
            out.append("<%s%s%s" % (o["tag"], attr(o), "/>" if o["tag"] == "Nil" else ">%s</%s>" % (xesc(o["text"]), o["tag"])))
            post()
        elif n == "ref":
            pre()
            out.append('<Ref%s RefId="%s" />' % (attr(o), o["id"]))
            post()
        elif n == "tostring": out.append("<ToString>%s</ToString>" % xesc(o["text"]))
        elif n == "into":
            leave(stack[-1])
            stack[-1]["sec"] = o["sec"]
            out.append("<%s>" % o["sec"])
        elif n == "end":
            leave(stack.pop())
            out.append("</Obj>")
            post()
    return "".join(out)


def spoil(v, seen=()):
    """what was read belongs to the caller: he changes it"""
    if id(v) in seen: return
    seen = (*seen, id(v))
    if type(v) is list:
        for x in v: spoil(x, seen)
        v.insert(0, "spoilt")
    elif isinstance(v, queue.Queue):
        for x in list(v.queue): spoil(x, seen)
        v.put("spoilt")
    elif type(v) is dict:
        for k, x in v.items(): spoil(k, seen), spoil(x, seen)
        v["spoilt"] = 1
    elif type(v) in (GenericComplexObject, OwnObject):
        for x in [*v.property_sets, *v.extended_properties.values(), *v.adapted_properties.values()]: spoil(x, seen)
        v.to_string = "spoilt"
        v.property_sets.append("spoilt")
        v.extended_properties["spoilt"] = v.adapted_properties["spoilt"] = 1
        v.types.insert(0, "spoilt")


def reading(docs):
    """documents one after the other through one serializer"""
    z = Serializer()
    res = []
    for d in docs:
        try: v = z.deserialize(xml_of(d)) 
        except Exception as e: res.append("raises %r" % e)
        else:
            try: res.append("value " + shown(v))
            except Exception as e: res.append("value cannot be shown: %r" % e)
            try: spoil(v)
            except Exception as e: res[-1] = "value cannot be changed: %r" % e
    return res


# ------------------------------------------------------------------ documents the library wrote
CONT = ("LST", "QUE", "STK", "DCT", "IE")


def number(t):
    """one way to write the number a text of XML Schema stands for"""
    if t in XNUM: return t
    if not re.fullmatch(r"[ \t\r\n]*[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?[ \t\r\n]*", t or ""): return "?" + repr(t)
    return xnum(float(t))


XNUM = ("INF", "-INF", "NaN")
xnum = lambda v: {"inf": "INF", "-inf": "-INF", "nan": "NaN"}.get(repr(v), repr(v))


def events(x, want):
    ev = []
    name = lambda e: e.attrib.get("N", "-")
    odd = lambda: ev.append(dict(n="odd"))
    def walk(e):
        if e.tag != "Obj" and len(e) == 0:
            if e.tag == "Ref": ev.append(dict(n="ref", id=e.attrib["RefId"], name=name(e)))
            else: ev.append(dict(n="prim", tag=e.tag, text=number(e.text) if e.tag in ("Sg", "Db") else e.text or "", name=name(e)))
            if set(e.attrib) - {"N", "RefId"}: odd()
            return
        if e.tag != "Obj": return odd()
        tn, tr = e.findall("TN"), e.findall("TNRef")
        if len(tn) + len(tr) > 1 or "RefId" not in e.attrib: odd()
        b = dict(n="begin", id=e.attrib.get("RefId", "?"), name=name(e), tn="none", tid="-", types=[])
        if tn: b.update(tn="def", tid=tn[0].attrib.get("RefId", "?"), types=[t.text or "" for t in tn[0]])
        elif tr: b.update(tn="ref", tid=tr[0].attrib.get("RefId", "?"))
        ev.append(b)
        for c in e:
            if c.tag in ("TN", "TNRef"): continue
            elif c.tag == "ToString": ev.append(dict(n="tostring", text=c.text or ""))
            elif c.tag in ("MS", "Props") or c.tag in CONT:
                ev.append(dict(n="into", sec=c.tag))
                for g in c:
                    if c.tag == "DCT":
                        if g.tag != "En" or len(g) != 2: odd()
                        for h in g: walk(h)
                    else: walk(g)
            else: walk(c)
        ev.append(dict(n="end", want="-"))
    walk(x)
    ev[-1]["want"] = want
    return ev


# what a user may derive
class OwnQueue(queue.Queue): pass
class OwnObject(GenericComplexObject): pass


class Gen:
    """random values, with the typed form the document has to mean"""
    def __init__(self, rnd): self.rnd, self.shared = rnd, []

    def prim(self):
        r = self.rnd
        k = r.choice(["s", "s", "i", "b", "f", "ba", "g", "nil", "tag"])
        if k == "s": v = r.choice(["", "a", "b c", "\u00e9", "x=y", "<t>"]); return v, "S:" + v
        if k == "i": v = r.choice([0, 1, -5, 2147483647, -2147483648]); return v, "I32:%d" % v
        if k == "b": v = r.random() < .5; return v, "B:" + str(v).lower()
        if k == "f": v = r.choice([0.0, 1.5, -2.25, 1e10, 0.1, 3.141592653589793, 1e-7, 1.5e300, float("inf"), float("-inf"), float("nan")]); return v, "Sg:" + xnum(v)
        if k == "ba": v = r.choice([b"", b"\x00\xff", b"abc", b"\x00", b"a\x00\x00", b" \n", b"\xef\xbb\xbfx"]); return v, "BA:" + base64.b64encode(v).decode()
        if k == "g": v = uuid.UUID(int=r.randrange(3)); return v, "G:%s" % v
        if k == "nil": return None, "nil"
        t, v = r.choice([("I64", 5000000000), ("U64", 7), ("By", 255), ("SB", -1), ("U16", 1), ("I16", -3), ("U32", 4), ("Db", 2.5), ("Db", float("nan")), ("Db", float("inf")), ("Db", float("-inf")), ("Db", 0.1), ("Db", 3.141592653589793), ("Db", -1.7976931348623157e308), ("Db", 5e-324), ("D", "1.10"), ("TS", "PT1S"), ("Version", "1.2.3"),
                         ("SBK", "1 + 1"), ("URI", "http://x/"), ("XD", "<a/>"), ("S", "t"), ("B", True), ("I32", 9), ("DT", "2020-02-03T04:05:06.0000007Z"), ("C", "a"), ("C", "<"), ("C", "Z")])
        w = t + ":" + xnum(v) if t == "Db" else "%s:%s" % (t, str(v).lower() if t == "B" else ord(v) if t == "C" else v)
        return TaggedValue(t, v), w

    def val(self, d):
        r = self.rnd
        k = r.choice(["p", "p", "l", "d", "q", "o", "o", "again", "pre"]) if d > 0 else "p"
        if k == "again" and not self.shared: k = "p"
        if k == "pre":
            # a document of its own (made by the same or by another serializer before), put in here; what it shares, it shares with itself
            outer, self.shared = self.shared, []
            v, w = self.val(d - 1)
            self.shared = outer
            self.shared.append((Serializer().serialize(v), w))
            return self.shared[-1]
        if k == "p": return self.prim()
        if k == "again": return r.choice(self.shared)
        n = r.choice([0, 1, 2, 3]) if r.random() < .999 else 400
        if n > 9: d = 1   # many, but flat
        if k in "lq":
            xs = [self.val(d - 1) for _ in range(n)]
            c = ",".join(x[1] for x in xs)
            if k == "l": return [x[0] for x in xs], "[%s]" % c
            q = r.choice([queue.Queue, queue.Queue, OwnQueue])()
            for x in xs: q.put(x[0])
            return q, "Q[%s]" % c
        if k == "d":
            ks = r.sample(["a", "b", "c", "_x", "k\n"], n) if n < 4 else ["k%d" % i for i in range(n)]
            xs = [self.val(d - 1) for _ in ks]
            esc = lambda s: s.replace("_x", "_x005F_x").replace("\n", "_x000A_")
            return {k: x[0] for k, x in zip(ks, xs)}, "{%s}" % ",".join("S:%s=%s" % (esc(k), x[1]) for k, x in zip(ks, xs))
        return self.obj(d)

    def obj(self, d):
        r = self.rnd
        o = r.choice([GenericComplexObject, GenericComplexObject, OwnObject])()
        o.types = list(r.choice([[], TYPES["th"], TYPES["th2"], ["System.Object"]] + RELATED))
        if r.random() < .5: o.to_string = r.choice(["", "t"])
        ps = [self.prim() for _ in range(r.choice([0, 0, 0, 1]))]
        ps = [x for x in ps if x[1] != "nil"]
        o.property_sets = [x[0] for x in ps]
        parts = []
        for a in ("extended_properties", "adapted_properties"):
            ns = sorted(r.sample(["p", "P", "Qq", "r s", "Z", "\u00e9"], r.choice([0, 1, 2, 4])))
            xs = [self.val(d - 1) for _ in ns]
            order = list(range(len(ns)))
            r.shuffle(order)
            setattr(o, a, {ns[j]: xs[j][0] for j in order})
            parts.append((ns, xs))
        w = "O(%s;%s;%s;%s)" % (",".join(o.types), "nil" if o.to_string is None else "s:" + o.to_string, ",".join(x[1] for x in ps),
                                ";".join(",".join("%s=%s" % (n, x[1]) for n, x in zip(*p)) for p in parts))
        self.shared.append((o, w))
        return o, w


def writing(seed):
    """values one after the other through one serializer: a trace for the specification, and what reads back"""
    many = seed.endswith("-77")
    g = Gen(random.Random(seed))
    z = Serializer()
    ev, back = [], []
    for _ in range(6):
        g.shared = []
        if many and _ == 4:   # many objects of their own, the first and the last ones again at the end
            xs = [g.obj(1) for _ in range(320)]
            xs += [xs[0], xs[-1], xs[255], xs[256]]
            v, w = [x[0] for x in xs], "[%s]" % ",".join(x[1] for x in xs)
        else: v, w = g.val(3)
        before = shown(v)
        x = ET.fromstring(ET.tostring(z.serialize(v), encoding="utf-8"))
        es = events(x, w)
        ev += [dict(op=e, obs=[]) for e in es[:-1]] + [dict(op=es[-1], obs=["as written" if shown(v) == before else "writing changed the caller's value"])]
        try: got = shown(z.deserialize(ET.tostring(x, encoding="unicode")))
        except Exception as e: got = "raises %r" % e
        # the same document in read mode says what has to come back
        back.append((es, "value " + got))
    rd = []
    for es, got in back:
        rd += [dict(op=e, obs=[]) for e in unescaped(es[:-1])] + [dict(op=unescaped(es[-1:])[0], obs=[got])]
    return ev, rd


def unescaped(es):
    f = lambda t: t.replace("_x000A_", "\n").replace("_x005F_", "_")
    return [dict(e, text=f(e["text"])) if "text" in e else e for e in es]


def randdoc(seed):
    """a bigger document of a server, as operations"""
    r = random.Random(seed)
    ops, ids, done, tns = [], [0], [], []
    odd = r.random() < .3  # ids in no particular order
    pool = list(range(1, 400))
    if odd: r.shuffle(pool)
    def name(f): return "-"
    def prim(nm, key=None):
        t, v = r.choice([("S", r.choice(["", "a", "b"])), ("I32", "5"), ("I64", "-7"), ("B", "true"), ("B", "false"), ("Nil", ""), ("BA", "AP8="), ("BA", "AA=="), ("BA", "YQAA"), ("BA", "IAo="), ("BA", ""), ("G", str(uuid.UUID(int=5))), ("Db", "1.5"), ("Sg", "-2.25"), ("Sg", "INF"), ("Db", "-INF"), ("Db", "NaN"), ("Db", "1e+300"),
                         ("D", "1.0"), ("DT", "2020-01-01"), ("TS", "PT1S"), ("Version", "1.2"), ("SBK", "x"), ("URI", "u"), ("XD", "d"), ("By", "7"), ("SB", "-7"), ("U16", "9"), ("I16", "9"), ("U32", "9"), ("U64", "9"), ("C", "97"), ("C", "60")])
        if key is not None: t, v = "S", key
        ops.append(dict(n="prim", tag=t, text=v, name=nm))
    def val(nm, d, ok=True):
        k = r.random()
        if d == 0 or k < .35: return prim(nm)
        if k < .5 and done: return ops.append(dict(n="ref", id=r.choice(done), name=nm))
        i = str(pool.pop())
        kind = r.choice(list(TYPES) + ["none"])
        if kind == "none" and not ok: kind = "th"
        b = dict(n="begin", id=i, name=nm, tn="none", tid="-", types=[])
        known = [t for t, ts in tns if ts == kind]
        if kind != "none":
            if known and r.random() < .7: b.update(tn="ref", tid=r.choice(known))
            else:
                b.update(tn="def", tid=str(pool.pop()), types=TYPES[kind])
                tns.append((b["tid"], kind))
        ops.append(b)
        n = r.choice([0, 1, 2, 3]) if r.random() < .999 else 150
        if n > 9: d = 1   # many, but flat
        if kind in ("arr", "al", "col", "ia", "gl", "q", "st"):
            ops.append(dict(n="into", sec={"q": "QUE", "st": "STK"}.get(kind, "LST")))
            for j in range(n):
                if kind in ("col", "ia", "gl"): ops.append(dict(n="prim", tag="S" if kind == "col" else "I32", text=str(j), name="-"))
                else: val("-", d - 1, kind != "al")
        elif kind in ("ht", "gd", "pd"):
            ops.append(dict(n="into", sec="DCT"))
            for key in (r.sample("aBc", n) if n < 4 else ["k%d" % i for i in range(n)]):
                prim("Key", key)
                val("Value", d - 1)
        else:
            if r.random() < .4: ops.append(dict(n="tostring", text=r.choice(["", "t"])))
            if r.random() < .3: prim("-")
            for sec in r.sample(["MS", "Props"], r.choice([0, 1, 2])):
                ops.append(dict(n="into", sec=sec))
                for nm2 in r.sample(["p", "P", "Qq", "r s", "Z", "\u00e9"], r.choice([0, 1, 2, 4])): val(nm2, d - 1)
        ops.append(dict(n="end", want="-"))
        done.append(i)
    val("-", 4)
    return ops


def check(ck):
    th = env.THOROUGH
    rnd = ck.rnd
    consts = dict(Prims=tlc.Raw('{<<"S", "a">>, <<"S", "b">>, <<"Nil", "">>}'), MaxObjs=3, MaxItems=2, MaxDepth=3, MaxEv=8 if th else 7,
                  TypeSets=tlc.Raw("{%s}" % ", ".join(tlc.tla(TYPES[k]) for k in ("arr", "al", "ht", "q", "st", "th"))))
    defs = "".join("mc_%s == %s\n" % (k, tlc.tla(v)) for k, v in consts.items())
    c = tlc.cfg(None, view="View", dump=True, properties=["StartsAnew"], invariants=["DistinctIds", "WellFormed"]) + "".join("CONSTANT %s <- mc_%s\n" % (k, k) for k in consts)
    r = tlc.run("MC", c, files={"MC.tla": "---- MODULE MC ----\nEXTENDS Clixml\n%s====\n" % defs}, timeout=800, workers=1)
    ck.model(r)
    docs = [(d["h"], d["x"][0]) for d in r.lines]
    r.lines, r.out = None, ""
    ck.log("model: %d states, %d documents" % (r.distinct, len(docs)))
    rnd.shuffle(docs)
    batches = [docs[i:i + 25] for i in range(0, len(docs), 25)]
    res = pmap(lambda b: reading([d for d, _ in b]), batches)
    bad = 0
    for b, x in zip(batches, res):
        if isinstance(x, tuple): ck.violation("documents: %s %s" % x, dict(docs=b)); continue
        w = [k for k in range(len(b)) if x[k] != b[k][1]]
        if not w: ck.traces(1, len(b))
        for k in w[:1]:
            bad += 1
            ck.violation("document %d of a serializer: %s: specification says %s, read %s" % (k, xml_of(b[k][0]), b[k][1], x[k]), dict(documents=[xml_of(d) for d, _ in b[:k + 1]], expected=b[k][1], got=x[k]))
    ck.log("enumerated documents: %d read, %d batches bad" % (len(docs), bad))
    if docs: ck.sample(dict(document=xml_of(docs[0][0]), value=docs[0][1]))
    none = dict(Prims=frozenset(), TypeSets=frozenset(), MaxObjs=0, MaxItems=0, MaxDepth=0, MaxEv=0)
    # bigger documents of a server
    N = 4000 if th else 1000
    sets = [[randdoc("%d-%d-%d" % (env.SEED, k, j)) for j in (0, 1, 1, 2, 3, 4, 0)] for k in range(N)]
    res = pmap(reading, sets)
    traces = []
    for ds, x in zip(sets, res):
        if isinstance(x, tuple): ck.violation("documents: %s %s" % x, dict(docs=ds)); continue
        traces.append(dict(cfg=dict(mode="read"), ev=[e for d, y in zip(ds, x) for e in [dict(op=o, obs=[]) for o in d[:-1]] + [dict(op=d[-1], obs=[y])]]))
    judge(ck, none, traces, "random documents read")
    # values written
    res = pmap(writing, ["%d-%d" % (env.SEED, k) for k in range(4000 if th else 1000)])
    tw, tr = [], []
    for k, x in enumerate(res):
        if isinstance(x[0], str): ck.violation("writing: %s %s" % x, dict(seed=k)); continue
        tw.append(dict(cfg=dict(mode="write"), ev=x[0]))
        tr.append(dict(cfg=dict(mode="read"), ev=x[1]))
    judge(ck, none, tw, "random values written")
    judge(ck, none, tr, "written values read back")


def judge(ck, consts, traces, label):
    traces = [t for t in traces if t["ev"]]
    if not traces: return
    r, bad = tlc.check_traces("Clixml", consts, traces)
    ck.model(r)
    ck.traces(len(traces) - len({b[0] for b in bad}), sum(len(t["ev"]) for t in traces))
    for t, l, exp in bad:
        ev = traces[t]["ev"]
        k = l
        while k > 0 and not ev[k - 1]["obs"]: k -= 1
        try: d = xml_of([e["op"] for e in ev[k:l + 1]])
        except Exception: d = [e["op"] for e in ev[k:l + 1]]
        ck.violation("%s: %s: specification says %s, observed %s (meant %s)" % (label, d, exp, ev[l]["obs"], ev[l]["op"].get("want")), dict(document=d, events=ev[:l + 1]))
    ck.log("%s: %d traces judged by TLC, %d rejected" % (label, len(traces), len(bad)))
