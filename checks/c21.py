"""C21: the escaping of text, specs/Strings.tla.  All verdicts come from the specification."""
import random
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape as xesc
from lib import env, tlc, codec as C
from lib.server import *
from lib.check import pmap
from checks.full import Full, pipeline_end

psrp = env.pypsrp
PLACES = ["value", "item", "key", "entry", "extended", "adapted", "name", "adapted name", "tostring", "SBK", "URI", "XD", "queued"]
PROPS = ["WriteIsRead", "PlainIsPlain", "Twice"]
TOKS = ["_", "x", "X", "000A", "005F", "_x000A_", "_x005F_", "\n", "\x85", "\u00e9", "\U0001F600", "D83D", "_xDE00_", "<"]
cps = lambda x: [ord(c) for c in x]
txt = lambda x: "".join(map(chr, x))
units = lambda x: "".join(" %d" % int.from_bytes(b, "big") for b in (lambda e: [e[i:i + 2] for i in range(0, len(e), 2)])(x.encode("utf-16-be", "surrogatepass")))


def generic(**kw):
    o = psrp.complex_objects.GenericComplexObject()
    for k, v in kw.items(): setattr(o, k, v)
    return o


def build(at, v):
    from pypsrp.serializer import TaggedValue
    import queue
    if at == "value": return v
    if at == "item": return ["a", v]
    if at == "queued":
        q = queue.Queue()
        q.put(v)
        return q
    if at == "key": return {v: 1}
    if at == "entry": return {"k": v}
    if at == "extended": return generic(extended_properties={"p": v})
    if at == "adapted": return generic(adapted_properties={"p": v})
    if at == "name": return generic(extended_properties={v: 5})
    if at == "adapted name": return generic(adapted_properties={v: 5})
    if at == "tostring": return generic(to_string=v, extended_properties={"p": 1})
    return TaggedValue(at, v)


def find(at, x):
    """the text at that place of a document"""
    if at in ("value", "SBK", "URI", "XD"): return x.text or ""
    if at == "item": return x.find("LST")[1].text or ""
    if at == "queued": return x.find("QUE")[0].text or ""
    if at == "key": return x.find("DCT/En/S[@N='Key']").text or ""
    if at == "entry": return x.find("DCT/En/S[@N='Value']").text or ""
    if at == "extended": return x.find("MS/S").text or ""
    if at == "adapted": return x.find("Props/S").text or ""
    if at == "name": return x.find("MS")[0].attrib["N"]
    if at == "adapted name": return x.find("Props")[0].attrib["N"]
    if at == "tostring": return x.find("ToString").text or ""


def doc(at, t):
    e, a = xesc(t), xesc(t, {'"': "&quot;", "\n": "&#10;", "\t": "&#9;"})
    w = lambda tn, x: '<Obj RefId="0"><TN RefId="0">%s<T>System.Object</T></TN>%s</Obj>' % ("<T>%s</T>" % tn if tn else "", x)
    if at == "value": return "<S>%s</S>" % e
    if at in ("SBK", "URI", "XD"): return "<%s>%s</%s>" % (at, e, at)
    if at == "item": return w("System.Object[]", "<LST><S>a</S><S>%s</S></LST>" % e)
    if at == "queued": return w("System.Collections.Queue", "<QUE><S>%s</S></QUE>" % e)
    if at == "key": return w("System.Collections.Hashtable", '<DCT><En><S N="Key">%s</S><I32 N="Value">1</I32></En></DCT>' % e)
    if at == "entry": return w("System.Collections.Hashtable", '<DCT><En><S N="Key">k</S><S N="Value">%s</S></En></DCT>' % e)
    if at == "extended": return w("", '<MS><S N="p">%s</S></MS>' % e)
    if at == "adapted": return w("Some.Thing", '<Props><S N="p">%s</S></Props>' % e)
    if at == "name": return w("", '<MS><I32 N="%s">5</I32></MS>' % a)
    if at == "adapted name": return w("Some.Thing", '<Props><I32 N="%s">5</I32></Props>' % a)
    if at == "tostring": return w("", '<ToString>%s</ToString><MS><I32 N="p">1</I32></MS>' % e)


def pick(at, v):
    if at in ("value", "SBK", "URI", "XD"): return v
    if at == "item": return v[1]
    if at == "queued": return v.get_nowait()
    if at == "key": return list(v)[0]
    if at == "entry": return v["k"]
    if at == "extended": return v.extended_properties["p"]
    if at == "adapted": return v.adapted_properties["p"]
    if at == "name": return list(v.extended_properties)[0]
    if at == "adapted name": return list(v.adapted_properties)[0]
    if at == "tostring": return v.to_string


def write(at, v):
    """event for the library writing v"""
    try:
        xml = ET.tostring(psrp.serializer.Serializer().serialize(build(at, v)), encoding="utf-8")
        try: got = cps(find(at, ET.fromstring(xml)))
        except ET.ParseError: got = [0]
        try: back = "reads back" + units(pick(at, psrp.serializer.Serializer().deserialize(xml.decode("utf-8"))))
        except Exception as e: back = "reads back with %r" % e
    except Exception as e:
        got, back = [0], "writing raises %r" % e
    return dict(op=dict(n="write", at=at, v=cps(v), got=got), obs=["receiver reads it", "lenient receiver reads it", back])


def read(at, t):
    try: x = "read" + units(pick(at, psrp.serializer.Serializer().deserialize(doc(at, t))))
    except Exception as e: x = "reading raises %r" % e
    return dict(op=dict(n="read", at=at, v=cps(t)), obs=[x])


def stderr(ts):
    d = '#< CLIXML\r\n<Objs Version="1.1.0.1" xmlns="http://schemas.microsoft.com/powershell/2004/04"><S S="verbose">no</S>%s<Obj S="progress" RefId="0"><MS><I64 N="SourceId">1</I64></MS></Obj></Objs>' % "".join('<S S="Error">%s</S>' % xesc(t) for t in ts)
    try: x = "read" + units(psrp.client.Client.sanitise_clixml(d))
    except Exception as e: x = "reading raises %r" % e
    return dict(op=dict(n="stderr", vs=[cps(t) for t in ts]), obs=[x])


def wire(seed_strings):
    """strings as arguments and as output of a pipeline"""
    seed, ws, rs = seed_strings
    F = Full(random.Random(seed), proto="2.3")
    try:
        F.start(emit=[("PIPELINE_OUTPUT", "<S>%s</S>" % xesc(t)) for t in rs] + [pipeline_end(4)])
        with psrp.powershell.RunspacePool(F.client.wsman) as pool:
            p = psrp.powershell.PowerShell(pool)
            p.add_cmdlet("x")
            for v in ws: p.add_argument(v)
            p.add_parameter(ws[0] if ws else "n", 1)
            out = p.invoke()
        m = [C.lx(m["xml"]) for m in F.msgs if m["type"] == "CREATE_PIPELINE"][0]
        cmd = [e for e in m.iter("Obj") if C.ms(e, "Cmd") is not None][0]
        args = [(C.ms(a, "N"), C.ms(a, "V")) for a in C.ms(cmd, "Args").iter("Obj") if C.ms(a, "V") is not None]
        ev = [dict(op=dict(n="write", at="wire", v=cps(v), got=cps(a[1].text or "") if a[1].tag == "S" else [0]), obs=["receiver reads it", "lenient receiver reads it", "reads back" + units(v)]) for v, a in zip(ws, args)]
        if ws: ev.append(dict(op=dict(n="write", at="wire name", v=cps(ws[0]), got=cps(args[-1][0].text or "")), obs=["receiver reads it", "lenient receiver reads it", "reads back" + units(ws[0])]))
        if len(args) != len(ws) + 1 or len(out) != len(rs): raise AssertionError("%d arguments, %d outputs" % (len(args), len(out)))
        return ev + [dict(op=dict(n="read", at="wire", v=cps(t)), obs=["read" + units(str(o))]) for t, o in zip(rs, out)]
    finally:
        F.close()


def job(x):
    return {"write": write, "read": read, "stderr": lambda a, b: stderr(b), "wire": lambda a, b: wire(b)}[x[0]](x[1], x[2])


def judge(ck, events, label):
    if not events: return
    n = 400
    traces = [dict(cfg=dict(c=0), ev=events[i:i + n]) for i in range(0, len(events), n)]
    r, bad = tlc.check_traces("Strings", dict(Toks=frozenset(), MaxToks=0, Places=frozenset()), traces)
    ck.model(r)
    ck.traces(len(traces) - len({b[0] for b in bad}), len(events))
    for t, l, exp in bad[:50]:
        e = traces[t]["ev"][l]
        ck.violation("%s, %s at %r: %r, specification says %s, observed %s" % (label, e["op"]["n"], e["op"].get("at"), [txt(v) for v in e["op"].get("vs", [e["op"].get("v", [])])], exp, e["obs"]), dict(event=e))
    ck.log("%s: %d recorded readings and writings judged by TLC, %d rejected" % (label, len(events), len(bad)))


def check(ck):
    th = env.THOROUGH
    rnd = ck.rnd
    # every short text over the characters and pieces that interact
    r, edges = mc(5 if th else 4, TOKS if not th else [t for t in TOKS if t not in ('\u00e9', 'D83D')])
    ck.model(r)
    ck.log("model: %d texts, %d operations" % (r.distinct, len(edges)))
    jobs, want = [], []
    for k, (o, x) in enumerate(edges):
        full = len(o["v"]) <= 5
        for at in (PLACES if full else [PLACES[k % len(PLACES)]]):
            jobs.append((o["n"], at, txt(o["v"])))
            want.append((o, x))
    doubt = []
    n = 0
    for (o, x), e in zip(want, pmap(job, jobs)):
        if isinstance(e, tuple): ck.violation("%s %s" % e, dict(op=o))
        elif e["op"].get("got") == o.get("got") and e["obs"] == x: n += 1
        else: doubt.append(e)  # written in another way, or wrong: TLC judges it
    ck.traces(n, n)
    ck.log("enumerated texts: %d cases as in the model, %d to be judged" % (n, len(doubt)))
    ck.cov["enumerated cases"] = len(jobs)
    judge(ck, doubt[:20000], "enumerated texts")
    # longer random ones, all of Unicode
    def rs():
        o = []
        for _ in range(rnd.choice([1, 2, 5, 12, 30]) if rnd.random() < .9995 else 260):
            k = rnd.random()
            if k < .4: o.append(rnd.choice(TOKS))
            elif k < .6: o.append("_x%04X_" % rnd.choice([0, 9, 10, 13, 0x1f, 0x20, 0x41, 0x5f, 0x7f, 0x9f, 0xa0, 0xd7ff, 0xe000, 0xfffd]))
            elif k < .7: o.append("_xD83D__xDE%02X_" % rnd.randrange(256))
            elif k < .8: o.append(chr(rnd.randrange(0xa1)))
            else:
                c = rnd.choice([rnd.randrange(0x10000), rnd.randrange(0x10000, 0x110000), 0x10ffff, 0x10000, 0xe000, 0x2028])
                o.append(chr(c) if not 0xd800 <= c < 0xe000 and c not in (0xfffe, 0xffff) else "-")
        return "".join(o)
    N = 12000 if th else 1500
    writes = [("write", rnd.choice(PLACES), rs()) for _ in range(N)] + [("write", "value", "\x01" * 600)]
    leg = lambda t: all(c in "\t\n" or ord(c) >= 32 and c not in "\ufffe\uffff" for c in t)
    import re
    def ok(t):  # the specification's Agreed, Legal and Sound, to pick inputs only
        if not leg(t) or "_X" in t or re.search("_x[0-9A-Fa-f]{8}_", t): return False
        d = re.sub("_x([0-9A-Fa-f]{4})_", lambda m: chr(int(m.group(1), 16)), t)
        try: d.encode("utf-16-le", "surrogatepass").decode("utf-16-le")
        except UnicodeDecodeError: return False
        return not re.search("[\ufffe\uffff]", d)
    reads = [("read", rnd.choice(PLACES), t) for t in (rs() for _ in range(3 * N)) if ok(t)]
    errs = []
    while len(errs) < N // 3:
        ts = [t for t in (rs() for _ in range(rnd.choice([0, 1, 2, 3]))) if ok(t)] + rnd.choice([[], ["a_", "x000A_"], ["_x00", "0A_"], ["_", "x000D__x000A_"]])
        errs.append(("stderr", None, ts))
    wires = [("wire", None, (k, [rs() for _ in range(30)], [t for t in (rs() for _ in range(40)) if ok(t)])) for k in range(60 if th else 12)]
    ev = []
    for j, e in zip(writes + reads + errs + wires, pmap(job, writes + reads + errs + wires)):
        if isinstance(e, tuple): ck.violation("%s: %s %s" % (j[0], e[0], e[1][-400:]), dict(case=j))
        elif isinstance(e, list): ev += e
        else: ev.append(e)
    judge(ck, ev, "random texts")
    if ev: ck.sample(ev[0])


def mc(n, toks):
    consts = dict(Toks=frozenset(), MaxToks=n, Places=frozenset(["any"]))
    defs = "".join("mc_%s == %s\n" % (k, tlc.tla(v)) for k, v in consts.items() if k != "Toks")
    defs += "mc_Toks == {%s}\n" % ", ".join(tlc.tla(cps(t)) for t in toks)
    c = tlc.cfg(None, view="View", dump=True, properties=PROPS) + "".join("CONSTANT %s <- mc_%s\n" % (k, k) for k in consts)
    r = tlc.run("MC", c, files={"MC.tla": "---- MODULE MC ----\nEXTENDS Strings\n%s====\n" % defs}, timeout=800)
    edges = [(e["o"], e["x"]) for e in r.lines]
    r.lines, r.out = None, ""
    return r, edges
