"""C26: what every request says, specs/Header.tla."""
import json, os, random, re
from lib import env, tlc, codec as C
from lib.server import *
from lib.check import conform_walks, conform_predicted

PROPS = ["SameEndpoint", "OwnTimeout", "DefaultTimeout"]
ET = C.ET
ENVV = ("HTTP_PROXY", "HTTPS_PROXY", "REQUESTS_CA_BUNDLE")


class Driver:
    def __init__(self, cfg):
        c = self.c = cfg["c"] if "c" in cfg else cfg
        self.rnd = random.Random(str(c))
        self.ids, self.session, self.sent = set(), None, []
        for k in ENVV: os.environ.pop(k, None)
        if c["envproxy"] != "-": os.environ["HTTPS_PROXY" if c["ssl"] else "HTTP_PROXY"] = c["envproxy"]
        if c["envca"] != "-": os.environ["REQUESTS_CA_BUNDLE"] = c["envca"]
        self.key = "[%s]" % c["host"] if c["v6"] else c["host"]
        env.HANDLERS[self.key] = self.handle
        kw = {}
        if c["port"] != "-": kw["port"] = int(c["port"])
        if c["path"] != "wsman" or self.rnd.random() < .5: kw["path"] = c["path"]
        if c["dloc"] != "-": kw["data_locale"] = c["dloc"]
        if c["proxy"] != "-": kw["proxy"] = c["proxy"]
        if c["noproxy"]: kw["no_proxy"] = True
        for k, n, d in (("conn", "connection_timeout", 30), ("read", "read_timeout", 30), ("opt", "operation_timeout", 20),
                        ("loc", "locale", "en-US"), ("size", "max_envelope_size", 153600), ("ssl", "ssl", True)):
            if c[k] != d or self.rnd.random() < .5: kw[n] = c[k]
        v = {"true": True, "false": False}.get(c["verify"], c["verify"])
        if v is not True or self.rnd.random() < .5: kw["cert_validation"] = v
        if c["auth"] == "basic": kw.update(username="u", password="p")
        else: kw.update(certificate_pem="/c.pem", certificate_key_pem="/k.pem")
        if not c["ssl"]: kw["encryption"] = "never"
        self.ws = env.pypsrp.wsman.WSMan(self.rnd.choice([c["host"], c["host"].upper()]) if c["v6"] else c["host"], auth=c["auth"], **kw)

    def handle(self, request, timeout):
        b = request.body
        b = b.encode() if isinstance(b, str) else b
        self.sent.append((request, C.Req(b)))
        return C.ok(self.sent[-1][1])

    def flat(self, e): return (e.tag, dict(e.attrib), e.text or "", [self.flat(c) + (c.tail or "",) for c in e])

    def value(self, v):   # given as any object with that text
        if self.rnd.random() < .3: return v
        return {"False": False, "True": True}.get(v, int(v) if v.isdigit() and str(int(v)) == v else v)

    def step(self, o):
        W = env.pypsrp.wsman
        self.sent = []
        body = None
        if o["body"] == "given":
            body = ET.Element(C.q(C.RSP, "Thing"), {"A": "x<&\u00e9\"", C.q(C.WSMAN, "B"): "2"})
            ET.SubElement(body, C.q("urn:own", "Sub")).text = " t\u20ac \U0001F600 <> "
            ET.SubElement(body, C.q(C.RSP, "E"))
        want = self.flat(body) if body is not None else None
        oset = sset = None
        if o["opts"]:
            oset = W.OptionSet()
            for n, v, a in o["opts"]: oset.add_option(n, self.value(v), *([] if a == "-" else [{a: "true"}]))
        if o["sels"]:
            sset = W.SelectorSet()
            for n, v in o["sels"]: sset.add_option(n, self.value(v))
        if o["n"] == "config":
            out, v = outcome(self.ws.get_server_config, o["uri"])
        else:
            out, v = outcome(getattr(self.ws, o["n"]), o["uri"], body, option_set=oset, selector_set=sset, timeout=o["timeout"] or None)
        if len(self.sent) != 1: return [out, "%d requests" % len(self.sent), str(v)[:100]]
        rq, r = self.sent[0]
        k, h = rq.vp_sent, rq.headers
        t = k["timeout"]
        ct, rt = t if isinstance(t, (tuple, list)) else (t, t)
        sch = rq.url.split(":")[0]
        px = k["proxies"].get("%s://%s" % (sch, self.key)) or k["proxies"].get(sch) or "-"
        res = [out, "%s %s" % (rq.method, rq.url), "type %s" % h.get("Content-Type"), "coding %s" % h.get("Accept-Encoding"), "auth %s" % h.get("Authorization"),
               "cert " + (" ".join(k["cert"]) if isinstance(k["cert"], (tuple, list)) else str(k["cert"] or "-")),
               "verify " + {True: "true", False: "false"}.get(k["verify"], str(k["verify"])), "proxy " + str(px)]
        if o["timeout"] == 0: res.append("http %s %s" % (ct, rt))
        else: res.append("http longer than the operation" if ct is not None and rt is not None and ct > 0 and rt >= o["timeout"] + 2 else "http %s %s" % (ct, rt))
        mu, named, opts, sels = [], {}, None, None
        MU, LANG = C.q(C.S, "mustUnderstand"), "{http://www.w3.org/XML/1998/namespace}lang"
        for e in r.header.iter():
            if e is r.header: continue
            n = e.tag.split("}")[1]
            if e.attrib.get(MU) == "true": mu.append(n)
        for e in r.header:
            ns, n = e.tag[1:].split("}")
            named.setdefault((ns, n), []).append(e)
        def one(ns, n, f=lambda e: e.text):
            l = named.pop((ns, n), [])
            res.append("%s %s" % (n, f(l[0]) if len(l) == 1 else "%d times" % len(l)))
        def fresh(e):
            ok = re.fullmatch("uuid:[0-9A-F]{8}(-[0-9A-F]{4}){3}-[0-9A-F]{12}", e.text or "") and e.text not in self.ids
            self.ids.add(e.text)
            return "fresh" if ok else e.text
        def same(e):
            if self.session is None and re.fullmatch("uuid:[0-9A-F-]{36}", e.text or ""): self.session = e.text
            return "same" if e.text == self.session else e.text
        one(C.WSA, "Action")
        one(C.WSMV, "DataLocale", lambda e: e.attrib.get(LANG))
        one(C.WSMAN, "Locale", lambda e: e.attrib.get(LANG))
        one(C.WSMAN, "MaxEnvelopeSize")
        one(C.WSA, "MessageID", fresh)
        one(C.WSMAN, "OperationTimeout")
        one(C.WSA, "ReplyTo", lambda e: "anonymous" if len(e) == 1 and e[0].text == "http://schemas.xmlsoap.org/ws/2004/08/addressing/role/anonymous" else ET.tostring(e))
        one(C.WSMAN, "ResourceURI")
        one(C.WSMV, "SessionId", same)
        one(C.WSA, "To")
        def oattr(e):
            a = sorted(x for x in e.attrib if x != "Name")
            return "-" if not a else ",".join(a) if all(e.attrib[x] == "true" for x in a) else str(e.attrib)
        if (C.WSMAN, "OptionSet") in named: one(C.WSMAN, "OptionSet", lambda e: "|".join("=".join([x.attrib["Name"], x.text or "", oattr(x)]) for x in e))
        if (C.WSMAN, "SelectorSet") in named: one(C.WSMAN, "SelectorSet", lambda e: "|".join("=".join([x.attrib["Name"], x.text or ""]) for x in e))
        res.append("must understand " + " ".join(sorted(mu)))
        res += ["extra header " + str(x) for x in named]
        if r.body is None: res.append("body missing")
        elif len(r.body) == 0: res.append("body none")
        else: res.append("body given" if len(r.body) == 1 and want == self.flat(r.body[0]) else "body changed")
        return res

    def close(self):
        env.HANDLERS.pop(self.key, None)
        for k in ENVV: os.environ.pop(k, None)


class Waits:
    """Timeouts of the waits of pools, pipelines, shells and processes, specs/Timeouts.tla."""
    def __init__(self, cfg):
        c = self.c = cfg
        kw = dict(operation_timeout=c["opt"], connection_timeout=c["conn"], read_timeout=c["read"])
        self.P = OpenedPool(ws_kw=kw)
        self.h = self.P.h
        self.h.answer = lambda r: C.created(r, "S")
        self.sh = env.pypsrp.shell.WinRS(self.P.ws)
        self.sh.open()
        self.h.take()

    def answer(self, r):
        if r.action == "Command": return C.command_response(r, "C0")
        if not self.waiting: return C.ok(r)
        ct, rt = r.timeout if isinstance(r.timeout, (tuple, list)) else (r.timeout, r.timeout)
        w = self.o["timeout"]
        http = "longer than that" if w and None not in (ct, rt) and ct > 0 and rt >= w + 2 else "%s %s" % (ct, rt)
        self.log.append("%s %s http %s" % (r.action, r.optimeout, http))
        if len(self.log) <= self.o["late"]: return C.fault(r, C.OP_TIMEOUT)
        if r.action == "Get": return C.ok(r, "<rsp:Shell><rsp:ShellId>%s</rsp:ShellId><rsp:State>Connected</rsp:State></rsp:Shell>" % self.P.shell)
        if self.o["n"] in ("poll", "endinv"):
            st = 4 if self.o["n"] == "endinv" else 2
            return C.receive_response(r, [("stdout", self.P.out.msg("PIPELINE_STATE", C.ps_state(st), self.ps.id))])
        return C.receive_response(r, [("stdout", b"x")], state="Running" if self.o["n"] == "ppoll" else "Done", rc=None if self.o["n"] == "ppoll" else 0)

    def step(self, o):
        self.o, self.log, self.waiting = o, [], False
        self.h.answer = self.answer
        n = o["n"]
        kw = {} if o["timeout"] == 0 else dict(timeout=o["timeout"])
        if n in ("poll", "endinv"):
            self.ps = env.pypsrp.powershell.PowerShell(self.P.pool).add_cmdlet("x")
            self.ps.begin_invoke()
            f = self.ps.poll_invoke if n == "poll" else self.ps.end_invoke
        elif n in ("ppoll", "pend"):
            p = env.pypsrp.shell.Process(self.sh, "x")
            p.begin_invoke()
            f = p.poll_invoke if n == "ppoll" else p.end_invoke
        elif n == "receive": f = self.sh.receive
        else: f = self.P.pool.is_alive
        self.waiting = True
        out, v = outcome(f, **kw)
        if n == "alive" and out == "ok": out = str(v)
        if n == "alive" and v is False:   # a pool that was found dead is done with
            self.h.close()
            log = self.log
            self.__init__(self.c)
            self.log = log
        self.h.take()
        return [out] + self.log

    def close(self):
        self.h.close()


def base(**kw):
    c = dict(ssl=True, port="-", host="hdr.test", v6=False, path="wsman", auth="basic", conn=30, read=30, opt=20, loc="en-US", dloc="-", size=153600,
             proxy="-", noproxy=False, envproxy="-", verify="true", envca="-")
    c.update(kw)
    return c


def rcfg(rnd):
    ssl = rnd.random() < .5
    v6 = rnd.random() < .4
    return base(ssl=ssl, port=rnd.choice(["-", "-", "1", "443", "80", "65535"]), v6=v6,
                host=rnd.choice(["2001:db8::a", "::1", "fe80::1234:5678"]) if v6 else rnd.choice(["hdr.test", "10.1.2.3", "a-b.c.test"]),
                path=rnd.choice(["wsman", "x/y", "PowerShell"]), auth=rnd.choice(["basic", "certificate"]) if ssl else "basic",
                conn=rnd.choice([30, 1, 99]), read=rnd.choice([30, 2, 500]), opt=rnd.choice([20, 1, 300]), loc=rnd.choice(["en-US", "de-DE"]),
                dloc=rnd.choice(["-", "fr-FR", "en-US"]), size=rnd.choice([153600, 512000, 8192]), proxy=rnd.choice(["-", "-", "http://p:1"]),
                noproxy=rnd.random() < .3, envproxy=rnd.choice(["-", "http://e:2"]), verify=rnd.choice(["true", "true", "false", "/my.pem"]), envca=rnd.choice(["-", "/env.pem"]))


def check(ck):
    th = env.THOROUGH
    cfgs = [base(), base(ssl=False), base(port="8080", dloc="fr-FR"), base(host="2001:db8::1", v6=True, ssl=False, opt=7), base(auth="certificate", read=5, loc="de-DE"),
            base(ssl=False, envproxy="http://e:2", noproxy=True, conn=9), base(envproxy="http://e:2", verify="false", envca="/env.pem", path="x/y"),
            base(proxy="http://p:1", envproxy="http://e:2", envca="/env.pem"), base(ssl=False, host="::1", v6=True, port="47001", size=512000), base(verify="/my.pem", envca="/env.pem")]
    r0 = ck.rnd
    if th: cfgs += [rcfg(r0) for _ in range(20)]
    consts = dict(Cfgs=tlc.Raw("{" + ", ".join(tlc.tla(c) for c in cfgs) + "}"))
    r, edges, inits = tlc.mc("Header", consts, properties=PROPS)
    ck.model(r)
    ck.log("model: %d states, %d edges" % (r.distinct, len(edges)))
    conform_walks(ck, Driver, edges, lambda x: json.loads(x)["c"], inits, label="requests", budget=None if th else 12000)
    rnd = ck.rnd
    runs = []
    M = ["get", "put", "create", "delete", "enumerate", "pull", "command", "connect", "disconnect", "receive", "reconnect", "send", "signal", "config"]
    W = lambda: "".join(rnd.choice("abcXYZ019_-.") for _ in range(rnd.randint(1, 12)))
    V = lambda: rnd.choice(["False", "True", "0", "65001"]) if rnd.random() < .3 else W()
    for j in range(400 if th else 80):
        ops = []
        for _ in range(12):
            m = rnd.choice(M)
            o = dict(n=m, uri=rnd.choice(["config", "windows/shell"]) if m == "config" else "urn:" + W(), opts=[], sels=[], timeout=0, body="none")
            if m != "config":
                o.update(opts=[[W(), V(), rnd.choice(["-", "-", "MustComply"])] for _ in range(rnd.choice([0, 0, 1, 2, 5]) if rnd.random() < .99 else 40)],
                         sels=[[W(), V()] for _ in range(rnd.choice([0, 1, 1, 3]) if rnd.random() < .99 else 12)], timeout=rnd.choice([0, 0, 1, 20, 3600]), body="given")
            ops.append(o)
        # the contract's uri restriction is only about the size of the explored instance
        for o in ops:
            if o["uri"] == "urn:two": o["uri"] = "urn:three"
        runs.append((rcfg(rnd), ops))
    conform_predicted(ck, Driver, "Header", consts, runs, label="random requests")
    ws = [dict(opt=20, conn=30, read=30), dict(opt=7, conn=3, read=90), dict(opt=300, conn=1, read=310)]
    wc = dict(Cfgs=tlc.Raw("{" + ", ".join(tlc.tla(c) for c in ws) + "}"), Given=frozenset([0, 1, 60, 3600]), MaxLate=3 if th else 2)
    r, edges, inits = tlc.mc("Timeouts", wc, properties=["NextIsDefault"])
    ck.model(r)
    conform_walks(ck, Waits, edges, lambda x: json.loads(x)["c"], inits, label="waits", max_len=30)
