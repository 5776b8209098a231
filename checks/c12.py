"""C12: host calls, specs/Host.tla."""
import random, uuid
from lib import env, tlc, codec as C
from lib.server import *
from lib.check import conform_walks, conform_predicted

PROPS = ["NoHostNoEffect", "AtMostOneAnswer", "GetAfterSet", "UserMethodKeepsStore", "HostFixed"]
H = env.pypsrp.host
O = env.pypsrp.complex_objects
CULTURE = '<Obj RefId="%d"><MS>' 
PROGRESS = '<Obj RefId="%d"><MS><S N="Activity">act%s</S><I32 N="PercentComplete">%s</I32></MS></Obj>'
BIG = "0123456789" * 60000  # an answer of several fragments


def arg(k, v, n):
    """CLIXML of one host call argument as a server writes it."""
    p = v.split(",")
    if v == "null": return "<Nil/>"
    if k == "s": return C.s_(v)
    if k == "i": return C.i32(int(v))
    if k == "l": return C.i64(int(v))
    def complex_(t, ms, r): return '<Obj RefId="%d"><MS>%s</MS></Obj>' % (r, ms)
    if k == "xy": return complex_("", C.i32(int(p[0]), "x") + C.i32(int(p[1]), "y"), n)
    if k == "wh": return complex_("", C.i32(int(p[0]), "width") + C.i32(int(p[1]), "height"), n)
    if k == "rect": return complex_("", "".join(C.i32(int(a), b) for a, b in zip(p, ("left", "top", "right", "bottom"))), n)
    cell = lambda r: complex_("", '<C N="character">%d</C>%s%s%s' % (65 + int(v), C.i32(int(v), "foregroundColor"), C.i32(int(v) + 1, "backgroundColor"), C.i32(0, "bufferCellType")), r)
    if k == "cell": return cell(n)
    lst = '<TN RefId="%d"><T>System.Collections.ArrayList</T><T>System.Object</T></TN><LST>%s</LST>'
    if k == "cells":
        return '<Obj RefId="%d"><MS><Obj N="mae" RefId="%d">%s</Obj><Obj N="mal" RefId="%d"><TNRef RefId="%d"/><LST><I32>1</I32><I32>2</I32></LST></Obj></MS></Obj>' % (
            n, n + 1, lst % (n + 500, cell(n + 2) + cell(n + 3)), n + 4, n + 500)
    if k == "fields":
        one = lambda i: complex_("", C.s_("f%s%d" % (v, i), "name") + C.s_("l%d" % i, "label") + C.b_(i, "isMandatory"), n + i + 1)
        return '<Obj RefId="%d">%s</Obj>' % (n, lst % (n + 500, one(0) + one(1)))
    if k == "choices":
        one = lambda i: complex_("", C.s_("c%s%d" % (v, i), "label") + C.s_("h%d" % i, "helpMessage"), n + i + 1)
        return '<Obj RefId="%d">%s</Obj>' % (n, lst % (n + 500, one(0) + one(1)))
    if k == "progress": return PROGRESS % (n, v, v)
    raise ValueError(k)


def num(*a):
    if not all(type(x) is int for x in a): raise ValueError
    return ",".join(map(str, a))


def seen(k, a):
    """The raw text of an argument the host got."""
    try:
        if a is None: return "null"
        if k == "s": return a if isinstance(a, str) else repr(a)
        if k in ("i", "l"): return num(a)
        e = getattr(a, "extended_properties", {})
        if k == "xy": return num(e["x"], e["y"])
        if k == "wh": return num(e["width"], e["height"])
        if k == "rect": return num(*[e[x] for x in ("left", "top", "right", "bottom")])
        if k == "cell":
            v = e["foregroundColor"]
            return str(v) if (e["character"], e["backgroundColor"], e["bufferCellType"]) == (chr(65 + v), v + 1, 0) else repr(e)
        if k == "cells":
            x, y = [seen("cell", c) for c in e["mae"]]
            return x if x == y and e["mal"] == [1, 2] else repr(e)
        if k == "fields":
            v = a[0].extended_properties["name"][1:-1]
            good = [(f.extended_properties["name"], f.extended_properties["label"], f.extended_properties["isMandatory"]) for f in a] == [("f%s%d" % (v, i), "l%d" % i, bool(i)) for i in (0, 1)]
            return v if good else "?"
        if k == "choices":
            v = a[0].extended_properties["label"][1:-1]
            good = [(f.extended_properties["label"], f.extended_properties["helpMessage"]) for f in a] == [("c%s%d" % (v, i), "h%d" % i) for i in (0, 1)]
            return v if good else "?"
        if k == "progress":
            x = C.lx(a)
            v = str(C.prim(C.ms(x, "PercentComplete")))
            return v if C.prim(C.ms(x, "Activity")) == "act" + v else "?"
    except Exception as ex:
        pass
    return "? %r" % (a,)


def value(t):
    """The Python value a user's method returns."""
    k, _, v = t.partition(":")
    p = v.split(",")
    if k == "s": return BIG if v == "big" else v
    if k == "i": return int(v)
    if k == "b": return v == "true"
    if k == "color": return O.Color(value=int(v))
    if k == "xy": return O.Coordinates(x=int(p[0]), y=int(p[1]))
    if k == "wh": return O.Size(width=int(p[0]), height=int(p[1]))
    if k == "d": return {x.split("=")[0]: x.split("=")[1] for x in p} if v else {}
    if k == "key": return O.KeyInfo(code=int(p[0]), character=p[1], state=int(p[2]), key_down=p[3] == "true")
    if k == "t": return [int(x) for x in p] if v else []
    if k == "arr": return O.Array(array=[[O.BufferCell(character=ch, foreground_color=O.Color(value=1), background_color=O.Color(value=2), cell_type=0) for ch in row] for row in p])
    if k == "g": return uuid.UUID(v)
    if k == "culture": return O.CultureInfo(**dict(zip(CULTURE, [int(p[0])] + p[1:])))
    raise ValueError(t)


CULTURE = "lcid name display_name ietf_language_tag three_letter_iso_name three_letter_windows_name two_letter_iso_language_name".split()


def wire(x, own):
    """Token of the value in a host response."""
    g = lambda *ns: ",".join(str(C.prim(C.ms(x, n))) for n in ns)
    if x is None: return "void"
    if x.tag == "S" and x.text == BIG: return "s:big"
    if x.tag in ("S",): return "s:" + C.unesc_clixml(x.text)
    if x.tag == "I32": return "i:" + x.text
    if x.tag == "B": return "b:" + x.text
    if x.tag == "G": return "g:own id" if x.text == own else "g:" + x.text
    if x.tag == "Version": return "ver:" + x.text
    if x.tag == "Obj":
        ty = [t.text for t in x.iter("T")]
        if C.ms(x, "mae") is not None:
            mal = [C.prim(e) for e in C.ms(x, "mal").find("LST")]
            cells = list(C.ms(x, "mae").find("LST"))
            chars = [chr(int(C.ms(e, "character").text)) for e in cells]
            ok = all((C.prim(C.ms(e, "foregroundColor")), C.prim(C.ms(e, "backgroundColor")), C.prim(C.ms(e, "bufferCellType"))) == (1, 2, 0) for e in cells)
            if not ok or len(mal) != 2 or mal[0] * mal[1] != len(chars): return "?array"
            return "arr:" + ",".join("".join(chars[i * mal[1]:(i + 1) * mal[1]]) for i in range(mal[0]))
        if C.ms(x, "X") is not None: return "xy:" + g("X", "Y")
        if C.ms(x, "Width") is not None: return "wh:" + g("Width", "Height")
        if C.ms(x, "virtualKeyCode") is not None:
            return "key:%s,%s,%s,%s" % (g("virtualKeyCode"), chr(int(C.ms(x, "character").text)), g("controlKeyState"), C.ms(x, "keyDown").text)
        if C.ms(x, "LCID") is not None: return "culture:" + g("LCID", "Name", "DisplayName", "IetfLanguageTag", "ThreeLetterISOLanguageName", "ThreeLetterWindowsLanguageName", "TwoLetterISOLanguageName")
        if "System.ConsoleColor" in ty: return "color:%s" % C.prim(x)
        if x.find("DCT") is not None: return "d:" + ",".join(sorted("%s=%s" % (C.prim(e[0]), C.prim(e[1])) for e in x.find("DCT")))
        if x.find("LST") is not None: return "t:" + ",".join(str(C.prim(e)) for e in x.find("LST"))
    return "?" + x.tag


def info(m):
    x = C.lx(m["xml"])
    hi = C.ms(x, "HostInfo")
    f = lambda n: {"true": "T", "false": "F"}.get(C.ms(hi, n).text, "?")
    t = "host null:%s ui null:%s raw null:%s use runspace host:%s" % (f("_isHostNull"), f("_isHostUINull"), f("_isHostRawUINull"), f("_useRunspaceHost"))
    d = C.ms(hi, "_hostDefaultData")
    if d is None or d.tag == "Nil": return t + " no data"
    got = {}
    for en in C.ms(d, "data").find("DCT"):
        v = C.ms(en[1], "V")
        ty = C.prim(C.ms(en[1], "T"))
        k = C.prim(en[0])
        if ty == "System.ConsoleColor": got[k] = "color:%s" % C.prim(v)
        elif ty == "System.Management.Automation.Host.Coordinates": got[k] = "xy:%s,%s" % (C.prim(C.ms(v, "x")), C.prim(C.ms(v, "y")))
        elif ty == "System.Management.Automation.Host.Size": got[k] = "wh:%s,%s" % (C.prim(C.ms(v, "width")), C.prim(C.ms(v, "height")))
        elif ty == "System.Int32": got[k] = "i:%s" % C.prim(v)
        elif ty == "System.String": got[k] = "s:%s" % C.prim(v)
    return t + " " + " ".join(got.get(i, "?") for i in range(10))


def recorder(drv, base, ids, *a, **k):
    """A host object of the given library class whose methods record their calls."""
    class Rec(base):
        pass
    for m in ids:
        name, kinds = drv.meth[m]
        def f(self, runspace, pipeline, *args, _m=m, _n=name, _k=kinds):
            c = drv.cur.pop(0) if drv.cur else None
            who = "pool" if pipeline is None else ([("p%d" % (i + 1)) for i, q in enumerate(drv.ps) if q is pipeline] + ["another pipeline"])[0]
            if runspace is not drv.P.pool: who += " of another pool"
            drv.log.append("%s of %s%s" % (_n, who, "".join(" %s:%s" % (kk, seen(kk, x)) for kk, x in zip(_k, args)) + (" wrong number of arguments" if len(args) != len(_k) else "")))
            if c is None: return None
            if c["r"] == "void": return None
            if c["r"] != "std": return value(c["r"])
            ui = drv.host.ui
            n = [len(ui.stdout), len(ui.stderr)] if ui else None
            v = getattr(super(Rec, self), _n)(runspace, pipeline, *args)
            if ui:
                for w, l, b in (("stdout", ui.stdout, n[0]), ("stderr", ui.stderr, n[1])):
                    for x in l[b:]: drv.log.append("%s %s" % (w, x.replace("\r\n", "/")))
            return v
        setattr(Rec, name, f)
    return Rec(*a, **k)


SIG = """GetName;GetVersion;GetInstanceId;GetCurrentCulture;GetCurrentUICulture;SetShouldExit i;EnterNestedPrompt;ExitNestedPrompt;NotifyBeginApplication;
NotifyEndApplication;ReadLine;ReadLineAsSecureString;Write1 s;Write2 i i s;WriteLine1;WriteLine2 s;WriteLine3 i i s;WriteErrorLine s;WriteDebugLine s;
WriteProgress l progress;WriteVerboseLine s;WriteWarningLine s;Prompt s s fields;PromptForCredential1 s s s s;PromptForCredential2 s s s s i i;PromptForChoice s s choices i;
GetForegroundColor;SetForegroundColor i;GetBackgroundColor;SetBackgroundColor i;GetCursorPosition;SetCursorPosition xy;GetWindowPosition;SetWindowPosition xy;
GetCursorSize;SetCursorSize i;GetBufferSize;SetBufferSize wh;GetWindowSize;SetWindowSize wh;GetWindowTitle;SetWindowTitle s;GetMaxWindowSize;
GetMaxPhysicalWindowSize;GetKeyAvailable;ReadKey i;FlushInputBuffer;SetBufferContents1 rect cell;SetBufferContents2 xy cells;GetBufferContents rect;
ScrollBufferContents rect xy rect cell"""
METH = {i + 1: (x.split()[0], x.split()[1:]) for i, x in enumerate(SIG.replace("\n", "").split(";"))}
METH52 = {52: "PushRunspace", 53: "PopRunspace", 54: "GetIsRunspacePushed", 55: "GetRunspce", 56: "PromptForChoiceMultipleSelection"}


class Driver:
    NP = 2

    def __init__(self, cfg):
        self.cfg = cfg
        self.meth = METH
        self.log, self.cur, self.ps = [], [], []
        self.host = None
        size = lambda w, h: O.Size(width=w, height=h)
        if cfg["host"] != "none":
            raw = ui = None
            if cfg["host"] == "full":
                raw = recorder(self, H.PSHostRawUserInterface, range(27, 52), "window", 25, O.Color(value=7), O.Color(value=0), O.Coordinates(x=0, y=0), O.Coordinates(x=1, y=2),
                               size(120, 3000), size(250, 90), size(130, 60), size(120, 50))
            if cfg["host"] != "noui": ui = recorder(self, H.PSHostUserInterface, range(11, 27), raw)
            c1, c2 = [O.CultureInfo(**dict(zip(CULTURE, x))) for x in ((1033, "en-US", "English (US)", "en-US", "eng", "ENU", "en"), (1036, "fr-FR", "French", "fr", "fra", "FRA", "fr"))]
            self.host = recorder(self, H.PSHost, range(1, 11), None if cfg["host"] == "noui" else c1, None if cfg["host"] == "noraw" else c2, False, "hostname", None, ui, "1.2.3")
            self.other = H.PSHost(None, None, False, None, None, None, None).instance_id
        self.P = OpenedPool(pool_kw=dict(host=self.host))
        m = [m for m in self.P.opening_msgs if m["type"] == "INIT_RUNSPACEPOOL"]
        self.initial = info(m[0]) if len(m) == 1 else "?"
        self.first = True
        self.cids = {}
        self.P.h.answer = self.answer
        for _ in range(self.NP): self.begin()
        self.log = []

    def begin(self):
        # every other pipeline is nested in the first one
        q = self.ps[0].create_nested_power_shell() if len(self.ps) % 2 else env.pypsrp.powershell.PowerShell(self.P.pool)
        q.add_cmdlet("x")
        self.ps.append(q)
        self.ci = None
        return outcome(q.begin_invoke)

    def answer(self, r):
        if r.action == "Command":
            for m in self.P.re.feed(r.data): self.log.append(info(m) if m["type"] == "CREATE_PIPELINE" else m["type"])
            c = str(uuid.uuid4()).upper()
            self.cids[c] = len(self.ps)
            return C.command_response(r, c)
        if r.action == "Send":
            ms = self.P.re.feed(r.data)
            for m in ms:
                if m["type"] == "GET_AVAILABLE_RUNSPACES":
                    self.ci = C.prim(C.ms(C.lx(m["xml"]), "ci"))
                    continue
                if not m["type"].endswith("HOST_RESPONSE"):
                    self.log.append(m["type"])
                    continue
                x = C.lx(m["xml"])
                who = "pool" if m["type"].startswith("RUNSPACEPOOL") and m["pid"] == C.NIL else (
                    ["p%d" % (i + 1) for i, q in enumerate(self.ps) if m["type"].startswith("PIPELINE") and m["pid"] == q.id.lower()] + ["?" + m["type"]])[0]
                mi = C.ms(x, "mi")
                own = str(self.host.instance_id) if self.host and self.host.instance_id != self.other else None
                self.log.append("answer for %s call %s %s/%s %s" % (who, C.prim(C.ms(x, "ci")), mi.findtext("ToString"), C.prim(mi), wire(C.ms(x, "mr"), own)))
                if r.selectors != {"ShellId": self.P.shell}: self.log.append("to another shell")
            return C.ok(r)
        assert r.action == "Receive"
        self.rec += 1
        if self.rec > 1: raise env.Runaway("one receive too many")
        data = b""
        for c in self.o["calls"]:
            nm = METH.get(c["m"], (METH52.get(c["m"]), []))
            xs = "".join(arg(k, v, 100 + 20 * i) for i, (k, v) in enumerate(zip(nm[1], c["a"])))
            xml = C.host_call(c["ci"], c["m"], nm[0], xs)
            n = self.rnd.choice([0, 0, 1, 3])
            data += self.P.out.msg("PIPELINE_HOST_CALL" if c["to"] else "RUNSPACEPOOL_HOST_CALL", xml, self.ps[c["to"] - 1].id if c["to"] else C.NIL,
                                   cuts=[self.rnd.randint(1, 200) for _ in range(n)])
        if self.o["via"] == 0:
            data += self.P.out.msg("RUNSPACE_AVAILABILITY", C.availability(self.ci, 1))
        return C.receive_response(r, [("stdout", data)], cid=r.cmd)

    def step(self, o):
        self.o, self.log, self.rec = o, [], 0
        self.rnd = random.Random(str(o))
        self.cur = [c for c in o["calls"] if c["m"] < 52]
        if o["n"] == "begin":
            out, e = self.begin()
            r = [out] + self.log
            if self.first:
                self.first = False
                same = "host null:" in self.initial and self.initial
                r0 = self.expect0()
                if same != r0: r.append("when opening: %s" % self.initial)
            return r
        f = self.P.pool.get_available_runspaces if o["via"] == 0 else self.ps[o["via"] - 1].poll_invoke
        out, e = outcome(f)
        self.P.h.take()
        tail = "exit %s" % ("none" if self.host is None or self.host.rc is None else self.host.rc)
        return [out] + self.log + self.P.re.problems + [tail]

    def expect0(self):
        h = self.cfg["host"]
        b = lambda x: "TF"[not x]
        t = "host null:%s ui null:%s raw null:%s use runspace host:%s" % (b(h == "none"), b(h in ("none", "noui")), b(h != "full"), b(h == "none"))
        return t + (" no data" if h != "full" else " color:7 color:0 xy:0,0 xy:1,2 i:25 wh:120,3000 wh:120,50 wh:130,60 wh:250,90 s:window")

    def close(self):
        self.P.h.close()


RETURNS = ["std", "std", "void", "s:hi", "s:big", "s:", "i:0", "i:7", "b:false", "b:true", "color:0", "color:12", "xy:0,0", "xy:-3,9", "wh:0,5", "d:a=b,c=d", "d:", "t:1,2", "t:", "culture:1033,en-GB,English (GB),x-tag,eng,ENG,en", "key:65,A,0,true",
           "key:13,z,9,false", "arr:ab,cd", "arr:abc", "g:12345678-1234-5678-1234-567812345678", "s:\u00e9\U0001F600 _x0041_"]


def history(rnd, n):
    ops = []
    for _ in range(n):
        if rnd.random() < .15:
            ops.append(dict(n="begin", via=0, calls=[]))
            continue
        cs, via = [], rnd.choice([0, 1, 2])
        for _ in range(rnd.choice([0, 1, 1, 2, 3, 6])):
            m = rnd.choice([rnd.randint(1, 51), rnd.randint(27, 42), rnd.randint(1, 56)])
            a = []
            ret = "std" if m > 51 or 27 <= m <= 45 and rnd.random() < .6 else rnd.choice(RETURNS)
            for k in METH.get(m, ("", []))[1]:
                n2 = lambda: str(rnd.choice([0, 1, -1, 42, 2147483647]))
                a.append(rnd.choice((["null"] if ret != "std" else []) + ["", "text", "a b ", "_x000A_", "\u00e9\U0001F600"]) if k == "s" else str(rnd.choice([0, 0, rnd.randint(0, 15)])) if m in (28, 30) else n2() if k in ("i", "l")
                         else ",".join(n2() for _ in range(2)) if k in ("xy", "wh") else ",".join(n2() for _ in range(4)) if k == "rect" else str(rnd.randint(0, 9)))
            cs.append(dict(to=rnd.choice([0, via]), m=m, ci=rnd.choice([-100, 0, 1, rnd.randint(1, 2 ** 31 - 1)]), a=a, r=ret))
        ops.append(dict(n="recv", via=via, calls=cs))
    return ops


def check(ck):
    th = env.THOROUGH
    consts = dict(NP=2 if th else 1, Values=frozenset([1, 2]), Returns=frozenset(["std", "void", "s:big"]), Pairs=True, MaxSet=3 if th else 2, Hosts=frozenset(["none", "noui", "noraw", "full"]))
    r, edges, inits = tlc.mc("Host", dict(consts, Values=frozenset([1])), properties=PROPS, constraint="FewSet", timeout=1500)
    ck.model(r)
    ck.log("model: %d states, %d edges" % (r.distinct, len(edges)))
    import json
    conform_walks(ck, Driver, edges, lambda k: dict(host=json.loads(k)["host"]), inits, label="host calls", max_len=30, budget=120000 if th else 20000)
    rnd = ck.rnd
    runs = [(dict(host=h), history(rnd, 20)) for h in ["full"] * 5 + ["none", "noui", "noraw"] for _ in range(150 if th else 15)]
    conform_predicted(ck, Driver, "Host", consts, runs, label="random histories")
