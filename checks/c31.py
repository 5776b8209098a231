"""C31: routes, trust, credentials and attempts of a connection over real sockets, specs/Connect.tla."""
import base64, datetime, gc, ipaddress, json, os, shutil, socket, ssl as _ssl, tempfile
import requests, urllib3
from cryptography import x509
from cryptography.x509.oid import NameOID
from cryptography.hazmat.primitives import hashes, serialization as ser
from cryptography.hazmat.primitives.asymmetric import ec
from lib import env, tlc, codec as C
from lib.server import *
from lib.loop import Loop
from lib.check import conform_walks, conform_predicted

PROPS = ["UntrustedGetsNothing", "NoProxyMeansDirect", "SentOnce"]
VARS = [v for k in ("http_proxy", "https_proxy", "all_proxy", "no_proxy", "requests_ca_bundle", "curl_ca_bundle") for v in (k, k.upper())]
DIR = None


def S(l): return tlc.Raw("{%s}" % ", ".join(tlc.tla(x) for x in l))


def make(d):
    """authorities, server certificates and a client certificate"""
    now = datetime.datetime(2020, 1, 1)
    def cert(cn, issuer=None, san=None, until=20000, ca=False):
        k = ec.generate_private_key(ec.SECP256R1())
        n = x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, cn)])
        ik, iname = issuer or (k, n)
        b = x509.CertificateBuilder().subject_name(n).issuer_name(iname).public_key(k.public_key()).serial_number(x509.random_serial_number()).not_valid_before(now).not_valid_after(now + datetime.timedelta(days=until))
        b = b.add_extension(x509.BasicConstraints(ca, None), True)
        if ca: b = b.add_extension(x509.KeyUsage(True, False, False, False, False, True, True, False, False), True)
        b = b.add_extension(x509.SubjectKeyIdentifier.from_public_key(k.public_key()), False)
        b = b.add_extension(x509.AuthorityKeyIdentifier.from_issuer_public_key(ik.public_key()), False)
        if san: b = b.add_extension(x509.SubjectAlternativeName([x509.IPAddress(ipaddress.ip_address(san)) if san[0].isdigit() else x509.DNSName(san)]), False)
        return k, n, b.sign(ik, hashes.SHA256())
    def put(name, k, c, pw=None):
        enc = ser.BestAvailableEncryption(pw) if pw else ser.NoEncryption()
        with open(os.path.join(d, name + ".pem"), "wb") as f: f.write(c.public_bytes(ser.Encoding.PEM))
        with open(os.path.join(d, name + ".key"), "wb") as f: f.write(k.private_bytes(ser.Encoding.PEM, ser.PrivateFormat.PKCS8, enc))
    ca, other = cert("ca", ca=True), cert("other", ca=True)
    put("ca", ca[0], ca[2])
    put("other", other[0], other[2])
    for name, kw in (("good", dict(issuer=ca[:2], san="127.0.0.1")), ("self", dict(san="127.0.0.1")), ("host", dict(issuer=ca[:2], san="other.example")), ("expired", dict(issuer=ca[:2], san="127.0.0.1", until=30))):
        x = cert(name, **kw)
        put(name, x[0], x[2])
    x = cert("client", issuer=ca[:2])
    put("client", x[0], x[2])
    put("client-pw", x[0], x[2], b"secret")


class Server(Loop):
    """with tunnel: a proxy that answers for the server behind it"""
    def __init__(self, name, ctx, tls, tunnel=None):
        if ctx: self.ctx = ctx
        self.tunnel, self.name, self.seen = tunnel, name, []
        super().__init__(proxy=False)
        self.tls = tls

    def serve(self, c, a):
        try:
            c.settimeout(60)
            if self.tls: c = self.ctx.wrap_socket(c, server_side=True)
            via = []
            with self.lock: self.open[a[1]] = c
            f = c.makefile("rb")
            while True:
                line = f.readline().decode().split()
                if not line: break
                h = {}
                while True:
                    x = f.readline()
                    if x in (b"\r\n", b""): break
                    k, v = x.decode("latin-1").split(":", 1)
                    h[k.strip().lower()] = v.strip()
                if line[0] == "CONNECT":
                    c.sendall(b"HTTP/1.1 200 ok\r\n\r\n")
                    via = [line[1], h.get("proxy-authorization")]
                    c = self.tunnel.wrap_socket(c, server_side=True)
                    with self.lock: self.open[a[1]] = c
                    f = c.makefile("rb")
                    continue
                body = f.read(int(h.get("content-length", "0")))
                cn = None
                if isinstance(c, _ssl.SSLSocket):
                    p = c.getpeercert()
                    cn = dict(y for x in p["subject"] for y in x)["commonName"] if p else None
                r = C.Req(body, None, h)
                with self.lock: self.reqs.append((self.name, line, h, via, cn, r.action))
                out = self.answer(r)
                if out == "reset": break
                st, hd, b = out
                c.sendall(("HTTP/1.1 %d X\r\n%sContent-Length: %d\r\n\r\n" % (st, "".join("%s: %s\r\n" % kv for kv in hd.items()), len(b))).encode() + b)
        except Exception:
            pass
        finally:
            with self.lock: self.open.pop(a[1], None)
            try: c.close()
            except Exception: pass


class Driver:
    def __init__(self, cfg):
        c = self.c = cfg
        ctx = None
        if c["ssl"]:
            ctx = _ssl.SSLContext(_ssl.PROTOCOL_TLS_SERVER)
            ctx.load_cert_chain(self.f(c["cert"]), self.f(c["cert"], "key"))
            ctx.load_verify_locations(self.f("ca"))
            ctx.verify_mode = _ssl.CERT_OPTIONAL
        self.server = Server("direct", ctx, c["ssl"])
        self.env, self.others = {}, []
        def proxy(name):
            p = Server(name, None, False, ctx)
            self.others.append(p)
            return p.port
        if c["proxy"] != "-": given = "http://%s127.0.0.1:%d" % ("pu:pp@" if c["proxy"] == "creds" else "", proxy("proxy " + c["proxy"]))
        for e in c["env"]: self.env[e + "_proxy"] = "http://127.0.0.1:%d" % proxy("environment proxy " + e)
        if c["envno"]: self.env["no_proxy"] = "example.org,127.0.0.1"
        if c["envca"] != "none": self.env["REQUESTS_CA_BUNDLE"] = self.f(c["envca"])
        kw = dict(port=self.server.port, ssl=c["ssl"], auth=c["auth"], cert_validation={"yes": True, "no": False}.get(c["verify"], self.f(c["verify"])), reconnection_retries=c["retries"], reconnection_backoff=0.5)
        if not c["ssl"]: kw["encryption"] = "never"
        if c["proxy"] != "-": kw["proxy"] = given
        if c["noproxy"]: kw["no_proxy"] = True
        if c["auth"] == "basic": kw.update({k: v for k, v in (("username", "us\u00e9r"), ("password", "p:w")) if c["have"] in ("both", {"username": "first", "password": "second"}[k])})
        else:
            key = "client-pw" if c["pw"] else "client"
            kw.update({k: v for k, v in (("certificate_pem", self.f(key)), ("certificate_key_pem", self.f(key, "key"))) if c["have"] in ("both", {"certificate_pem": "first", "certificate_key_pem": "second"}[k])})
            if c["pw"]: kw["certificate_key_password"] = "secret"
        self.ws = env.pypsrp.wsman.WSMan("127.0.0.1", **kw)

    def f(self, n, ext="pem"): return os.path.join(DIR, "%s.%s" % (n, ext))

    def step(self, o):
        old = {v: os.environ.pop(v) for v in VARS if v in os.environ}
        os.environ.update(self.env)
        real, n, left, ats = socket.create_connection, [0], [o["k"]], []
        def connect(*a, **k):
            n[0] += 1
            if left[0] > 0:
                left[0] -= 1
                raise ConnectionRefusedError(111, "Connection refused")
            return real_connect(*a, **k)
        real_connect = urllib3.util.connection.create_connection
        urllib3.util.connection.create_connection = connect
        for l in [self.server] + self.others: l.answer = lambda q: "reset" if o["f"] == "lost" else C.ok(q)
        try:
            if o["n"] == "close":
                out = outcome(self.ws.close)[0]
                gc.collect()
            else:
                out, e = outcome(self.ws.get, "urn:r", None)
                if out.startswith("err"):
                    out = "untrusted" if isinstance(e, requests.exceptions.SSLError) else "ValueError" if isinstance(e, ValueError) and not isinstance(e, requests.RequestException) else "failed" if isinstance(e, requests.exceptions.ConnectionError) else out
        finally:
            urllib3.util.connection.create_connection = real_connect
            for v in VARS: os.environ.pop(v, None)
            os.environ.update(old)
        reqs = []
        for l in [self.server] + self.others:
            with l.lock:
                reqs += l.reqs
                l.reqs = []
        res = [out, ("some" if out == "untrusted" else str(n[0])) + " attempts", "%d requests" % len(reqs)]
        for name, line, h, via, cn, action in reqs:
            a = h.get("authorization")
            if a == "Basic " + base64.b64encode("us\u00e9r:p:w".encode("latin-1")).decode() and cn is None: who = "as the user"
            elif a == "http://schemas.dmtf.org/wbem/wsman/1/wsman/secprofile/https/mutual" and cn: who = "as the certificate of " + cn
            else: who = "as %s %s" % (a, cn)
            res.append(who)
            target, auth = "127.0.0.1:%d" % self.server.port, "Basic " + base64.b64encode(b"pu:pp").decode()
            seen = name
            if line[0] != "POST" or action != "Get" or h.get("user-agent") != "Python PSRP Client" or h.get("accept-encoding") != "identity" or h.get("content-type") != "application/soap+xml;charset=UTF-8" or h.get("host") != target:
                seen += " ? %s %s" % (line, h)
            if via:
                seen += " connect" if via[0] == target and line[1] == "/wsman" else " ? connect %s %s" % (via[0], line[1])
                if "proxy-authorization" in h: seen += " ? credentials of the proxy given to the server"
                pa = via[1]
            elif name != "direct":
                seen += " whole address" if line[1] == "http://%s/wsman" % target else " ? %s" % line[1]
                pa = h.get("proxy-authorization")
            else:
                if line[1] != "/wsman": seen += " ? %s" % line[1]
                pa = h.get("proxy-authorization")
            if pa: seen += " with its credentials" if pa == auth else " with ? %s" % pa
            res.append(seen)
        return res

    def close(self):
        self.ws.close()
        gc.collect()
        for l in [self.server] + self.others: l.close()


def cfg(**kw):
    d = dict(ssl=False, cert="good", verify="yes", envca="none", auth="basic", have="both", pw=False, proxy="-", noproxy=False, env=[], envno=False, retries=0)
    d.update(kw)
    return d


def check(ck):
    global DIR
    th = env.THOROUGH
    DIR = tempfile.mkdtemp(prefix="c31-")
    try:
        make(DIR)
        E = [[], ["http"], ["https"], ["all"], ["http", "https"], ["https", "all"]]
        V = [("yes", "none"), ("yes", "ca"), ("yes", "other"), ("no", "none"), ("no", "other"), ("ca", "none"), ("ca", "other"), ("other", "none"), ("other", "ca")]
        for label, cfgs, k, lost, n in (
            ("trust", [cfg(ssl=True, cert=c, verify=v, envca=e, proxy=p) for c in ("good", "self", "host", "expired") for v, e in V for p in ("-", "plain")], 0, False, 2),
            ("routes", [cfg(ssl=s, verify="ca", proxy=p, noproxy=n, env=e, envno=x) for s in (False, True) for p in ("-", "plain", "creds") for n in (False, True) for e in E for x in (False, True)], 0, False, 2),
            ("credentials", [cfg(ssl=s, verify="ca", auth=a, have=h, pw=p, proxy=q) for s in (False, True) for a in ("basic", "certificate") for h in ("both", "first", "second", "none") for p in (False, True) if a == "certificate" or not p for q in ("-", "creds")], 0, False, 2),
            ("attempts", [cfg(ssl=s, verify="ca", proxy=p, retries=r) for s in (False, True) for p in ("-", "plain") for r in ((0, 1, 2, 3) if th else (0, 2))], 4 if th else 3, True, 3 if th else 2)):
            consts = dict(Cfgs=S(cfgs), MaxK=k, Lost=lost, MaxReq=n)
            r, edges, inits = tlc.mc("Connect", consts, properties=PROPS, constraint="Bound")
            ck.model(r)
            conform_walks(ck, Driver, edges, lambda x: json.loads(x)["c"], inits, label=label, budget=None)
        rnd, runs = ck.rnd, []
        for _ in range(400 if th else 60):
            c = cfg(ssl=rnd.random() < .7, cert=rnd.choice(["good", "good", "good", "self", "host", "expired"]), auth=rnd.choice(["basic", "certificate"]), pw=rnd.random() < .5, proxy=rnd.choice(["-", "-", "plain", "creds"]),
                    noproxy=rnd.random() < .2, env=rnd.choice(E), envno=rnd.random() < .2, retries=rnd.choice([0, 1, 2, 5]))
            c["verify"], c["envca"] = rnd.choice(V + [("ca", "none")] * 5 + [("no", "none")] * 3)
            runs.append((c, [dict(n="close", k=0, f="ok") if rnd.random() < .15 else dict(n="req", k=rnd.choice([0, 0, 1, 2, 6]), f=rnd.choice(["ok", "ok", "ok", "lost"])) for _ in range(8)]))
        conform_predicted(ck, Driver, "Connect", dict(Cfgs=S([]), MaxK=0, Lost=False, MaxReq=0), runs, label="random connections")
    finally:
        shutil.rmtree(DIR, ignore_errors=True)
