"""C23: authentication by a security context, specs/Negotiate.tla."""
import base64, hashlib, inspect, json, os, random, ssl
import requests, spnego
from lib import env, tlc, codec as C
from lib.check import conform_walks, conform_predicted
from lib.loop import Loop
from lib.server import *

PROPS = ["NoCredentials", "OneScheme", "InOrder", "Rejected"]
HASHES = ["md5", "sha1", "sha224", "sha256", "sha384", "sha512", "none"]
SIG = inspect.signature(env.REAL_SPNEGO_CLIENT)
CERTS = os.path.join(env.VERIF, "lib", "certs")


class Ctx:
    """A scripted security context."""
    def __init__(self, d, steps): self.d, self.steps, self.n, self.complete = d, steps, 0, False

    def step(self, in_token=None, **kw):
        d = self.d
        if in_token is not None: d.log.append("fed " + d.names.get(in_token, "something else %r" % in_token))
        elif self.n: d.log.append("fed nothing")
        if self.n >= len(self.steps): raise env.Runaway("the context is stepped again")
        x = self.steps[self.n]
        self.n += 1
        self.complete = x["done"]
        if not x["tok"]: return None
        t = d.token("t%d" % self.n)
        return t

    def wrap_winrm(self, *a): raise AssertionError("not needed")


class Driver:
    def __init__(self, cfg):
        self.cfg, self.rnd = cfg, random.Random(str(cfg))
        self.hosts, self.loop = {}, None
        env.SPNEGO_FACTORY[0] = self.new_ctx
        c = cfg
        kw = dict(auth_provider=c["prov"], send_cbt=c["cbt"], service=c["service"], delegate=c["delegate"], hostname_override=None if c["override"] == "-" else c["override"])
        if c["via"] == "session":
            self.auth = env.pypsrp.negotiate.HTTPNegotiateAuth("user", "pass", wrap_required=c["wrap"], **kw)
            self.session = requests.Session()
            self.session.trust_env = False
            self.session.auth = self.auth
            for h in ("h1", "h2"):
                self.hosts[h] = Host()
                env.HANDLERS[self.hosts[h].name] = self.raw
        else:
            kw = dict(auth=c["prov"], negotiate_send_cbt=c["cbt"], negotiate_service=c["service"], negotiate_delegate=c["delegate"], negotiate_hostname_override=kw["hostname_override"],
                      username="user", password="pass")
            if c["over"] == "http":
                self.hosts["h1"] = Host()
                env.HANDLERS[self.hosts["h1"].name] = self.raw
                self.ws = self.hosts["h1"].wsman(encryption="never", **{k: v for k, v in kw.items() if k not in ("ssl", "auth")}, auth=kw["auth"])
            else:
                self.pem = os.path.join(CERTS, c["over"] + ".pem")
                self.loop = Loop(tls=True, pem=self.pem)
                self.loop.answer = self.real
                self.ws = env.pypsrp.wsman.WSMan("localhost", port=self.loop.port, ssl=True, cert_validation=False, encryption=self.rnd.choice(["auto", "never"]), **kw)

    def name(self, h):
        if self.loop: return "localhost"
        return self.hosts[h].name

    def token(self, n):
        t = bytes(self.rnd.randrange(256) for _ in range(self.rnd.choice([1, 2, 3, 16, 200])))
        self.names[t] = n
        return t

    def new_ctx(self, *a, **k):
        b = SIG.bind(*a, **k)
        b.apply_defaults()
        b = b.arguments
        h = b["hostname"]
        for n, x in list(self.hosts.items()):
            if h == x.name: h = n
        if self.loop and h == "localhost": h = "h1"
        cb = b["channel_bindings"]
        bound = "nothing"
        if cb is not None:
            d = cb.application_data
            bound = "something else"
            if self.loop:
                with open(self.pem) as f: der = ssl.PEM_cert_to_DER_cert("-----BEGIN CERT" + f.read().split("-----BEGIN CERT")[1])
                for hn in ("sha224", "sha256", "sha384", "sha512"):
                    if d == b"tls-server-end-point:" + hashlib.new(hn, der).digest(): bound = "tls-server-end-point " + hn
        req, dflt = b["context_req"], spnego.ContextReq.default
        odd = "" if req in (dflt, dflt | spnego.ContextReq.delegate) else " flags %r" % req
        op = b["options"]
        wr = int(op) == int(spnego.NegotiateOptions.wrapping_winrm)
        if int(op) and not wr: odd += " options %r" % op
        self.log.append("context %s %s %s host %s service %s%s%s bound to %s%s" % (b["protocol"], b["username"], b["password"], h, b["service"], " delegate" if req & spnego.ContextReq.delegate and req != dflt else "",
                                                                                 " wrapping" if wr else "", bound, odd))
        self.ctx = Ctx(self, self.o["steps"])
        return self.ctx

    def reply_header(self, offers):
        rnd = self.rnd
        l = [x if rnd.random() < .6 else rnd.choice([x.lower(), x.upper()]) for x in offers]
        if rnd.random() < .4: l.insert(rnd.randint(0, len(l)), 'Basic realm="WSMAN"')
        if not l and rnd.random() < .5: return {}
        return {"WWW-Authenticate": ", ".join(l or ['Basic realm="WSMAN"'])}

    def respond(self, body, auth, sent):
        """the server: body and Authorization of the request, what it was sent with -> (status, headers, body)"""
        o = self.o
        if self.n == 0: self.first_body, self.first_sent = body, sent
        elif body != self.first_body: self.log.append("another body")
        elif sent != self.first_sent: self.log.append("sent with other settings %s" % sent)
        if auth is None: self.log.append("request")
        else:
            if isinstance(auth, str): auth = auth.encode("latin-1")
            sch, _, b = auth.partition(b" ")
            try: t = self.names.get(base64.b64decode(b, validate=True), "something else")
            except Exception: t = "not base64"
            self.log.append("request %s %s" % ({x.lower(): x for x in ("Negotiate", "Kerberos", "NTLM")}.get(sch.decode().lower(), sch.decode()), t))
            self.scheme = sch.decode()
        k = self.n
        self.n += 1
        if k > len(o["replies"]): raise env.Runaway("more requests than the exchange has")
        if k == 0: st, hd = o["first"], self.reply_header(o["offers"]) if o["first"] == 401 else {}
        else:
            r = o["replies"][k - 1]
            st, hd = r["st"], {}
            sch = getattr(self, "scheme", "Negotiate")
            if r["tok"] == "yes":
                t = self.token("s%d" % k)
                v = "%s %s" % (self.rnd.choice([sch, sch, sch.lower()]), base64.b64encode(t).decode())
                if self.rnd.random() < .3: v = v + self.rnd.choice([", Basic realm=\"x\"", ","])
                if self.rnd.random() < .2: v = 'Basic realm="x", ' + v
                hd = {"WWW-Authenticate": v}
            elif r["tok"] == "empty": hd = {"WWW-Authenticate": self.rnd.choice([sch, sch + " ", sch + ", Basic realm=\"x\"", sch + ","])}
            elif st == 401 and self.rnd.random() < .5: hd = {"WWW-Authenticate": 'Basic realm="x"'}
        self.sent_n = k
        return st, hd, b"reply %d" % k

    def raw(self, request, timeout):
        st, hd, body = self.respond(request.body, request.headers.get("Authorization"), request.vp_sent)
        if self.cfg["via"] == "wsman" and st == 200: body = C.ok(C.Req(request.body if isinstance(request.body, bytes) else request.body.encode()))[2]
        hd["Content-Type"] = "application/soap+xml;charset=UTF-8"
        return st, hd, body

    def real(self, r):
        try: st, hd, body = self.respond(r.raw, r.headers.get("authorization"), None)
        except BaseException as e:
            self.log.append("server: %r" % e)
            return "reset"
        if st == 200: body = C.ok(r)[2]
        return st, hd, body

    def step(self, o):
        self.o, self.n, self.log, self.names = o, 0, [], {}
        self.ctx = None
        if self.cfg["via"] == "session":
            kw = self.rnd.choice([{}, dict(timeout=(5, 9)), dict(verify=False), dict(stream=True)])
            out, v = outcome(self.session.post, "http://%s:5985/wsman" % self.name(o["host"]), data=b"body %d" % self.rnd.randrange(99), **kw)
            if out == "ok": out = "got %d %s" % (v.status_code, v.content.decode())
        else:
            out, v = outcome(self.ws.delete, "urn:x")
        if out.startswith("err:") and self.ctx is None and not any(l.startswith("request ") for l in self.log) and o["first"] == 401: out = "refused"
        log = list(self.log)
        auth = self.auth if self.cfg["via"] == "session" else None
        cs = auth.contexts if auth is not None else self.contexts()
        if self.ctx is not None: self.last = getattr(self, "last", {}); self.last[o["host"]] = self.ctx
        kept = []
        for h in ("h1", "h2"):
            want = getattr(self, "last", {}).get(h)
            if want is not None: kept.append(h if cs.get(self.name(h)) is want else h + " lost")
        extra = set(cs) - {self.name(h) for h in ("h1", "h2") if self.loop is None and h in self.hosts or self.loop}
        return log + [out, "contexts" + "".join(" " + k for k in kept) + "".join(" extra %s" % e for e in extra)]

    def contexts(self):
        return self.ws.transport.session.auth.contexts

    def close(self):
        env.SPNEGO_FACTORY[0] = None
        if self.loop: self.loop.close()
        for h in self.hosts.values(): h.close()


def conf(**kw):
    c = dict(prov="negotiate", via="session", over="http", cbt=True, service="HTTP", delegate=False, override="-", wrap=False)
    c.update(kw)
    return c


ALL = [[], ["Negotiate"], ["Kerberos"], ["NTLM"], ["Negotiate", "NTLM"], ["NTLM", "Negotiate"], ["Kerberos", "NTLM"], ["NTLM", "Kerberos"], ["Kerberos", "Negotiate"], ["NTLM", "Kerberos", "Negotiate"], ["Negotiate", "Kerberos", "NTLM"]]


def seqset(l): return tlc.Raw("{%s}" % ", ".join(tlc.tla(x) for x in l))


def check(ck):
    th = env.THOROUGH
    rnd = ck.rnd
    many = [conf(prov=p, via=v, cbt=b, service=sv, delegate=d, override=ov, wrap=w and v == "session") for p, v, b, sv, d, ov, w in
            [(p, v, b, sv, d, ov, w) for k, (p, v) in enumerate((p, v) for p in ("negotiate", "ntlm", "kerberos") for v in ("session", "wsman"))
             for b, sv, d, ov, w in [(True, "HTTP", False, "-", False), (False, "host", True, "Other.NAME", True)]]]
    few = [conf(), conf(prov="ntlm", via="wsman"), conf(prov="kerberos", via="session", wrap=True)]
    for label, cfgs, offers, firsts, n, stats in (("every offer", many, ALL, [200, 401, 500], 1, [200, 401]), ("every exchange", few, [["Negotiate"]], [200, 401], 3 if th else 2, [200, 401, 500])):
        r, edges, inits = tlc.mc("Negotiate", dict(Cfgs=tlc.Raw("{%s}" % ", ".join(tlc.tla(c) for c in cfgs)), Offers=tlc.Raw("{<<>>, %s}" % ", ".join(tlc.tla(x) for x in offers if x)), Firsts=frozenset(firsts), MaxLen=n,
                                                        Stats=frozenset(stats)), properties=PROPS)
        ck.model(r)
        ck.log("model, %s: %d states, %d edges" % (label, r.distinct, len(edges)))
        conform_walks(ck, Driver, edges, lambda x: json.loads(x)["c"], inits, label=label, budget=60000 if th else 12000)
    # long exchanges, and real TLS connections with their certificates
    def request(c, nmax):
        f = rnd.choice([200, 401, 401, 401, 401, 500])
        offers = rnd.choice(ALL) if rnd.random() < .3 else ["Negotiate"]
        o = dict(n="request", host=rnd.choice(["h1", "h2"]) if c["via"] == "session" else "h1", first=f, offers=offers if f == 401 else [], steps=[], replies=[])
        picks = [x for x in ("Negotiate", "Kerberos", "NTLM") if x in offers and (c["prov"] == "negotiate" or x == "Negotiate" or x.lower() == c["prov"])]
        if f == 401 and picks:
            n = rnd.randint(0, nmax)
            done = False
            while True:
                done = done or len(o["steps"]) >= n or rnd.random() < .1
                tok = not done or rnd.random() < .6
                o["steps"].append(dict(tok=tok, done=done))
                if not tok: break
                t = rnd.choice(["yes"] * 4 + ["empty", "none"]) if len(o["replies"]) < nmax + 2 else "none"
                o["replies"].append(dict(st=rnd.choice([200, 401, 401]) if t == "yes" else rnd.choice([200, 200, 401, 500]), tok=t))
                if t != "yes": break
        return o
    runs = []
    for j in range(600 if th else 120):
        c = conf(prov=rnd.choice(["negotiate", "ntlm", "kerberos"]), via=rnd.choice(["session", "wsman"]), cbt=rnd.random() < .5, service=rnd.choice(["HTTP", "WSMAN", "host"]), delegate=rnd.random() < .5,
                 override=rnd.choice(["-", "spn.test"]))
        if c["via"] == "session": c["wrap"] = rnd.random() < .5
        runs.append((c, [request(c, 6) for _ in range(8)]))
    for j in range(8 if th else 2):
        for h in HASHES:
            c = conf(via="wsman", over=h, cbt=rnd.random() < .8, prov=rnd.choice(["negotiate", "ntlm", "kerberos"]), delegate=rnd.random() < .5)
            runs.append((c, [request(c, 3) for _ in range(5)]))
    conform_predicted(ck, Driver, "Negotiate", dict(Cfgs=frozenset(), Offers=frozenset(), Firsts=frozenset(), MaxLen=0, Stats=frozenset()), runs, label="long exchanges and TLS")
