"""C32: opening a runspace pool announces exactly its settings, specs/Opening.tla."""
import itertools, json, uuid
from lib import env, tlc, codec as C
from lib.server import *
from lib.check import conform_walks, conform_predicted
from checks.c12 import info

O, H = env.pypsrp.complex_objects, env.pypsrp.host
PROPS = ["SettingsStay", "RefusedChangesNothing", "OthersStay", "SameAnnouncementAgain"]
NAMES = {"default": "Microsoft.PowerShell"}


def value(tok):
    return None if tok == "none" else json.loads(tok)


def tok(v):
    return "none" if v is None else json.dumps(v, sort_keys=True)


def wire(x, tns):
    """The Python value a CLIXML element stands for."""
    if x is None: return "missing"
    if x.tag == "S": return C.unesc_clixml(x.text or "")
    if x.tag == "Obj":
        types = [t.text for t in x.find("TN")] if x.find("TN") is not None else tns[x.find("TNRef").attrib["RefId"]] if x.find("TNRef") is not None else []
        if x.find("DCT") is not None:
            if "System.Collections.Hashtable" not in types: return "a dictionary without its type"
            return {wire([c for c in e if c.attrib.get("N") == "Key"][0], tns): wire([c for c in e if c.attrib.get("N") == "Value"][0], tns) for e in x.find("DCT")}
        if x.find("LST") is not None: return [wire(e, tns) for e in x.find("LST")]
        return "?"
    return C.prim(x)


def clixml(v, n=None, ref=[100]):
    if isinstance(v, bool): return C.b_(v, n)
    if isinstance(v, int): return C.i32(v, n)
    if v is None: return C.nil(n)
    if isinstance(v, str): return C.s_(v, n)
    ref[0] += 1
    if isinstance(v, list): return C.obj(n=n, tn=["System.Object[]", "System.Array", "System.Object"], ref=ref[0], inner="<LST>%s</LST>" % "".join(clixml(e) for e in v))
    return C.obj(n=n, tn=["System.Management.Automation.PSPrimitiveDictionary", "System.Collections.Hashtable", "System.Object"], ref=ref[0],
                 inner="<DCT>%s</DCT>" % "".join("<En>%s%s</En>" % (clixml(k, "Key"), clixml(e, "Value")) for k, e in v.items()))


def enum(x):
    return "missing" if x is None or x.find("ToString") is None else "%s/%s" % (x.find("ToString").text, C.prim(x.find("I32")))


class Driver:
    def __init__(self, cfg):
        self.h = Host()
        self.ws = self.h.wsman()
        self.pools = []
        for q in cfg["pools"]:
            host = None
            if q["host"] != "none":
                raw = ui = None
                size = lambda w, h: O.Size(width=w, height=h)
                if q["host"] == "full":
                    raw = H.PSHostRawUserInterface(q["win"], 25, O.Color(value=7), O.Color(value=0), O.Coordinates(x=0, y=0), O.Coordinates(x=1, y=2),
                                                   size(120, 3000), size(250, 90), size(130, 60), size(120, 50))
                if q["host"] != "noui": ui = H.PSHostUserInterface(raw)
                host = H.PSHost(None, None, False, "name", None, ui, "1.2.3")
            kw = dict(min_runspaces=q["mn"], max_runspaces=q["mx"], apartment_state=q["apart"], thread_options=q["threads"])
            if q["conf"] != "default": kw["configuration_name"] = q["conf"]
            if host: kw["host"] = host
            if q["idle"]: kw["idle_timeout"] = q["idle"]
            if q["noprof"]: kw["no_profile"] = True
            p = env.pypsrp.powershell.RunspacePool(self.ws, **kw)
            self.pools.append((p, Out(p.id), C.Reassembler()))
        self.keep, self.last = [], {}

    def answer(self, r):
        p, out, re_ = self.pools[self.o["i"] - 1]
        o = self.o
        if r.action == "Create":
            b = r.resource
            t = lambda n: b.findtext(C.q(C.RSP, n))
            conf = r.uri[len("http://schemas.microsoft.com/powershell/"):]
            extra = [e.tag.split("}")[1] for e in b if e.tag.split("}")[1] not in ("InputStreams", "OutputStreams", "creationXml", "IdleTimeOut")]
            self.log.append("create %s %s, in %s out %s%s%s" % ({v: k for k, v in NAMES.items()}.get(conf, conf), "own id" if b.attrib.get("ShellId") == p.id else "?", t("InputStreams"),
                            t("OutputStreams"), "" if t("IdleTimeOut") is None else " idle " + t("IdleTimeOut"), " ".join([""] + extra)))
            os_ = r.header.find(C.q(C.WSMAN, "OptionSet"))
            self.log.append("options" + "".join(sorted(" %s=%s%s" % (x.attrib["Name"], x.text, "!" if x.attrib.get("MustComply") == "true" else "") for x in os_)))
            self.messages(re_.feed(r.data))
            return C.created(r, p.id) if o["r"] == "ok" else C.fault(r)
        if r.action == "Send":
            self.messages(re_.feed(r.data))
            return C.ok(r)
        if r.action == "Command":
            self.messages(re_.feed(r.data))
            return C.command_response(r, str(uuid.uuid4()).upper())
        if r.action == "Receive":
            ms = [out.msg("SESSION_CAPABILITY", C.session_capability(o["pv"], server=o["sv"])),
                  out.msg("APPLICATION_PRIVATE_DATA", C.obj(clixml(value(o["priv"]), "ApplicationPrivateData")))]
            if o["rmin"]: ms.append(out.msg("RUNSPACEPOOL_INIT_DATA", C.init_data(o["rmin"], o["rmax"])))
            return C.receive_response(r, [("stdout", b"".join(ms + [out.msg("RUNSPACEPOOL_STATE", C.rp_state(2))]))])
        self.log.append(r.action)
        return C.ok(r)

    def messages(self, ms):
        for m in ms:
            x = C.lx(m["xml"])
            g = lambda n: C.prim(C.ms(x, n))
            if m["type"] == "SESSION_CAPABILITY": self.log.append("capability %s %s %s" % (g("protocolversion"), g("PSVersion"), g("SerializationVersion")))
            elif m["type"] == "INIT_RUNSPACEPOOL":
                self.log.append("init %s-%s %s %s" % (g("MinRunspaces"), g("MaxRunspaces"), enum(C.ms(x, "PSThreadOptions")), enum(C.ms(x, "ApartmentState"))))
                self.log.append(info(m))
                a = C.ms(x, "ApplicationArguments")
                self.log.append("arguments " + tok(wire(a, {e.attrib["RefId"]: [c.text for c in e] for e in x.iter("TN")})))
            elif m["type"] == "CREATE_PIPELINE": self.log += ["nested pipeline" if g("IsNested") else "pipeline", "apartment " + enum(C.ms(x, "ApartmentState")), info(m)]
            else: self.log.append(m["type"])

    def view(self, p):
        if p.state == env.pypsrp.powershell.RunspacePoolState.BEFORE_OPEN: return "unopened %s-%s" % (p.min_runspaces, p.max_runspaces)
        d = p.application_private_data
        return "opened %s-%s versions %s %s data %s" % (p.min_runspaces, p.max_runspaces, p.protocol_version, p.serialization_version, tok(None if d is None else d.data))

    def step(self, o):
        self.o, self.log = o, []
        self.h.answer = self.answer
        p = self.pools[o["i"] - 1][0]
        if o["n"] == "open":
            a = value(o["args"])
            out, v = outcome(*([p.open] if a is None else [p.open, a]))
            if a is not None and tok(a) != o["args"]: out += " arguments changed"
        else:
            q = self.last[o["i"]].create_nested_power_shell().add_cmdlet("x") if o["n"] == "nested" else env.pypsrp.powershell.PowerShell(p).add_cmdlet("x")
            self.keep.append(q)
            if o["n"] == "begin": self.last[o["i"]] = q
            out, v = outcome(q.begin_invoke, **({} if o["apart"] < 0 else dict(apartment_state=o["apart"])))
        self.h.take()
        return [out] + self.log + ["pool%d %s" % (i + 1, self.view(x[0])) for i, x in enumerate(self.pools)]

    def close(self):
        self.h.close()


def randval(rnd, d=0):
    k = rnd.randint(0, 7 if d < 3 else 4)
    if k == 0: return rnd.choice(["", "a", "_x0041_", "A\u00e9\U0001f600", "x" * 3000])
    if k == 1: return rnd.choice([0, 1, -5, 2147483647])
    if k == 2: return rnd.random() < 0.5
    if k == 3: return None
    if k == 4: return "v%d" % rnd.randint(0, 99)
    if k == 5: return [randval(rnd, d + 1) for _ in range(rnd.randint(0, 3))]
    return {"k%d" % i: randval(rnd, d + 1) for i in range(rnd.randint(0, 3))}


def check(ck):
    th = env.THOROUGH
    base = dict(conf="default", mn=1, mx=1, apart=2, threads=0, host="none", win="t", noprof=False, idle=0)
    dims = dict(conf=["default", "Microsoft.PowerShell32", "jea"], apart=[0, 1, 2], threads=[0, 1, 2, 3], host=["none", "noui", "noraw", "full"], noprof=[False, True], idle=[0, 1, 7200])
    # every pair of settings, and each single one next to a default pool
    one = []
    for (a, va), (b, vb) in itertools.combinations(dims.items(), 2):
        for x in va:
            for y in vb: one.append({a: x, b: y})
    rnd = ck.rnd
    full = [dict(zip(dims, v)) for v in itertools.product(*dims.values())]
    def more(k):
        mn = rnd.randint(1, 5)
        return dict(base, **k, **dict(mn=mn, mx=mn + rnd.randint(0, 9), win=rnd.choice(["t", "", "a b <&>"])))
    def seqs(ks): return [[more(k), more(rnd.choice(full))] for k in ks]
    uniq = list({json.dumps(k, sort_keys=True): k for k in one}.values())
    T = ["none", "{}", tok({"a": "x", "b": {"c": [1, True, None, "z"]}})]
    cfgs = seqs(rnd.sample(uniq, 12 if th else 4))
    setof = lambda q: tlc.Raw("{%s}" % ", ".join(tlc.tla(x) for x in q))
    consts = dict(Pools=setof(cfgs), Tokens=frozenset(T), Protos=frozenset(["2.1", "2.3"]), Counts=setof([[0, 0], [3, 4]]))
    r, edges, inits = tlc.mc("Opening", consts, properties=PROPS)
    ck.model(r)
    ck.log("model: %d states, %d edges" % (r.distinct, len(edges)))
    conform_walks(ck, Driver, edges, lambda k: dict(pools=json.loads(k)["p"]), inits, label="two pools", budget=40000 if th else 8000)
    runs = []
    for k in (full if th else uniq + rnd.sample(full, 150)):
        ps = [more(k), more(rnd.choice(full))]
        ops = []
        opened = set()
        for _ in range(rnd.randint(2, 7)):
            i = rnd.randint(1, 2) if ops else 1
            e = dict(n=rnd.choice(["begin", "begin", "nested"]), i=i, args="", r="ok", pv="", sv="", priv="", rmin=0, rmax=0, apart=rnd.choice([-1, -1, 0, 1, 2]))
            if i not in opened:
                m = rnd.choice([0, 0, 1, 7])
                D = lambda: {"k%d" % j: randval(rnd) for j in range(rnd.randint(0, 4))}
                e.update(n="open", args=rnd.choice(["none", tok(D()), tok(D())]), r=rnd.choice(["ok", "ok", "ok", "fault"]), pv=rnd.choice(["2.1", "2.2", "2.3"]), sv=rnd.choice(["1.1.0.1", "1.1.0.2"]),
                         priv=tok(D()), rmin=m, rmax=m + rnd.randint(0, 3) if m else 0, apart=-1)
                if e["r"] == "ok": opened.add(i)
            ops.append(e)
        runs.append((dict(pools=ps), ops))
    conform_predicted(ck, Driver, "Opening", consts, runs, label="random settings")
