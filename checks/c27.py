"""C27: the life of a WinRS shell, specs/Shell.tla."""
import json, random, uuid
from lib import env, tlc, codec as C
from lib.server import *
from lib.check import conform_walks, conform_predicted
from checks.c17 import enc, dec

PROPS = ["CreatedOnlyIfClosed", "DeletedOnlyIfCreated", "FailureKeeps"]


class KeyboardProblem(Exception): pass


class Driver:
    def __init__(self, cfg):
        c = cfg["c"] if "c" in cfg else cfg
        self.rnd = random.Random(str(c))
        self.h = Host()
        self.ws = self.h.wsman()
        kw = {}
        def opt(k, n, f=str):
            if c[k] != "-": kw[n] = f(c[k])
        opt("id", "id"); opt("idle", "idle_time_out", int); opt("life", "lifetime", int); opt("name", "name"); opt("page", "codepage", int); opt("wd", "working_directory")
        if c["prof"] != "-": kw["no_profile"] = True
        elif self.rnd.random() < .5: kw["no_profile"] = False
        if c["ins"] != "stdin": kw["input_streams"] = c["ins"]
        if c["outs"] != "stdout stderr": kw["output_streams"] = c["outs"]
        if c["env"]: kw["environment"] = {k: int(v) if v.isdigit() and str(int(v)) == v and self.rnd.random() < .7 else v for k, v in c["env"]}
        self.sh = env.pypsrp.shell.WinRS(self.ws, **kw)
        self.own = env.pypsrp.wsman.OptionSet()
        for k, v in c["opts"]: self.own.add_option(k, v)

    def sel(self, r):
        s = r.header.find(C.q(C.WSMAN, "SelectorSet"))
        return "" if s is None else "|".join("%s=%s" % (e.attrib["Name"], e.text) for e in s)

    def desc(self, r):
        if r.uri != C.CMDURI: return ["%s of %s" % (r.action, r.uri)]
        if r.action == "Create":
            x = r.resource
            res = ["Create " + (r.shellid or "without id")]
            os_ = r.header.find(C.q(C.WSMAN, "OptionSet"))
            if os_ is not None: res.append("options " + "|".join("%s=%s%s" % (e.attrib["Name"], e.text, "!" if e.attrib.get("MustComply") == "true" else "") for e in os_))
            l = []
            for e in x:
                n = e.tag.split("}")[1]
                if n == "Environment": l.append("Environment " + "|".join("%s=%s" % (v.attrib["Name"], v.text or "") for v in e))
                else: l.append("%s %s" % (n, e.text))
            if r.selectors: res.append("selectors")
            return res + sorted(l)
        if r.action == "Delete": return ["Delete " + self.sel(r)]
        if r.action == "Receive": return ["Receive %s %s %s" % (r.stream, r.cmd or "-", self.sel(r))]
        if r.action == "Send": return ["Send %s %s %s %s %s" % (r.stream, r.cmd or "-", r.end or "-", dec(r.data), self.sel(r))]
        return [r.action]

    def step(self, o):
        sent = []
        n = o["n"]
        def ans(r):
            sent.extend(self.desc(r))
            if o.get("r") == "fault": return C.fault(r)
            if r.action == "Create":
                v = o["srv"]
                b = '<x:ResourceCreated><a:Address>http://h/wsman</a:Address><a:ReferenceParameters><w:ResourceURI>%s</w:ResourceURI>%s</a:ReferenceParameters></x:ResourceCreated><rsp:Shell><rsp:ShellId>%s</rsp:ShellId>%s%s</rsp:Shell>' % (
                    r.uri, v["sel"] and "<w:SelectorSet>%s</w:SelectorSet>" % "".join('<w:Selector Name="%s">%s</w:Selector>' % tuple(k) for k in v["sel"]) or "", v["id"],
                    "" if v["idle"] == "-" else "<rsp:IdleTimeOut>%s</rsp:IdleTimeOut>" % v["idle"], "" if v["outs"] == "-" else "<rsp:OutputStreams>%s</rsp:OutputStreams>" % v["outs"])
                return C.ok(r, b)
            if r.action == "Receive":
                last = self.rnd.random() < .5
                return C.receive_response(r, [(a, enc(t) if t else None, last and a not in [d[0] for d in o["ch"][k + 1:]]) for k, (a, t) in enumerate(o["ch"])], state=None if o["st"] == "none" else o["st"], rc=None if o["rc"] == "-" else o["rc"])
            return C.ok(r)
        self.h.answer = ans
        extra = []
        cmd = None if o.get("cmd", "-") == "-" else o["cmd"]
        if n == "open": 
            out, v = outcome(self.sh.open, *([self.own] if self.own.values else []))
            if self.own.values:
                e = self.own.pack()
                extra.append("own " + "|".join("%s=%s%s" % (x.attrib["Name"], x.text, "!" if x.attrib.get("MustComply") == "true" else "") for x in e))
        elif n == "close": out, v = outcome(self.sh.close)
        elif n == "with":
            def f():
                with self.sh as x:
                    if x is not self.sh: extra.append("with gives another object")
                    if o["body"] == "raises": raise KeyboardProblem()
            out, v = outcome(f)
        elif n == "receive":
            out, v = outcome(self.sh.receive, " ".join(o["want"]), cmd)
            if out == "ok":
                st, rc, buf = v
                extra = ["state " + (str(st).split("/")[-1] if o["st"] != "none" or not str(st).endswith("/Pending") else "none"), "rc %s" % ("-" if rc is None else rc)]
                extra += ["%s %s" % (k, dec(buf[k]) if k in buf else "missing") for k in o["want"]] + ["stream " + k for k in buf if k not in o["want"]]
        else:
            out, v = outcome(self.sh.send, o["stream"], enc(o["d"]), cmd, *([] if o["end"] == "-" else [o["end"] == "True"]))
        self.h.take()
        return [out] + sent + extra + ["opened " + ("yes" if self.sh.opened is True else "no" if self.sh.opened is False else "?"), "id " + (self.sh.id or "-")]

    def close(self):
        self.h.close()


def base(**kw):
    c = dict(id="-", ins="stdin", outs="stdout stderr", env=[], idle="-", life="-", name="-", prof="-", page="-", wd="-", opts=[])
    c.update(kw)
    return c


def check(ck):
    th = env.THOROUGH
    cfgs = [base(), base(id="GIVEN", idle="60", name="n"), base(env=[["A", "1"], ["B", "x y"]], prof="no", page="65001"), base(life="5", opts=[["O", "1"], ["P", "TRUE"]], prof="no", wd="C:\\x", page="437", ins="stdin pr", outs="stdout")]
    consts = dict(Cfgs=tlc.Raw("{" + ", ".join(tlc.tla(c) for c in cfgs) + "}"))
    r, edges, inits = tlc.mc("Shell", consts, properties=PROPS)
    ck.model(r)
    ck.log("model: %d states, %d edges" % (r.distinct, len(edges)))
    conform_walks(ck, Driver, edges, lambda x: json.loads(x)["c"], inits, label="shells")
    rnd = ck.rnd
    runs = []
    W = lambda: "".join(rnd.choice("abcXYZ 019_-.%") for _ in range(rnd.randint(1, 12))).strip() or "x"
    O = lambda f: f() if rnd.random() < .4 else "-"
    N = lambda: str(rnd.randint(1, 100000))
    def ch(want): return [[rnd.choice(want), "".join(rnd.choice("abcdefg") for _ in range(rnd.choice([0, 1, 3])))] for _ in range(rnd.choice([0, 1, 2, 4]))]
    for j in range(500 if th else 100):
        cfg = base(id=O(W), env=[[W() + str(i), rnd.choice([W(), W(), "0", N()])] for i in range(rnd.choice([0, 0, 1, 3, 8]))], idle=O(N), life=O(N), name=O(W), prof=rnd.choice(["-", "no"]), page=O(N), wd=O(W), opts=[[W() + str(i), W()] for i in range(rnd.choice([0, 0, 1, 3]))])
        ops, bare = [], rnd.random() < .2
        for _ in range(20):
            n = rnd.choice(["open", "open", "close", "with", "receive", "receive", "send", "send"])
            o = dict(n=n, r=rnd.choice(["ok", "ok", "fault"]))
            srv = dict(id=W(), outs=rnd.choice(["-", "stdout", "a b"]), idle=rnd.choice(["-", "PT60.000S", "P1DT2H3M4.500S", "P7D", "PT0S"]), sel=[] if bare else [["ShellId", W()]] + [["k%d" % i, W()] for i in range(rnd.choice([0, 0, 2]))])
            if n == "open": o["srv"] = srv
            if n == "with": o = dict(n=n, body=rnd.choice(["ok", "raises"]), srv=srv)
            if n == "receive":
                want = rnd.choice([["stdout", "stderr"], ["pr"], ["stdout"]])
                o.update(want=want, cmd=rnd.choice(["-", "C9"]), st=rnd.choice(["none", "Running", "Done"]), rc="-", ch=ch(want))
                if o["st"] == "Done": o["rc"] = rnd.choice(["-", "0", "-5"])
                if o["r"] == "fault": o.update(ch=[], st="none", rc="-")
            if n == "send": o.update(stream=rnd.choice(["stdin", "pr"]), cmd=rnd.choice(["-", "C9"]), end=rnd.choice(["-", "True", "False"]), d="".join(rnd.choice("abcdefg") for _ in range(rnd.choice([0, 1, 4]))))
            ops.append(o)
        runs.append((cfg, ops))
    conform_predicted(ck, Driver, "Shell", consts, runs, label="random shells")
