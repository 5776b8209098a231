"""Driver for specs/Transport.tla (C13, C14): a server that authenticates and decrypts for real (NTLM)."""
import atexit, base64, os, random, re, struct, tempfile
import requests
import spnego
from lib import env, codec as C
from lib.server import *

_f = tempfile.NamedTemporaryFile("w", suffix=".ntlm", delete=False)
_f.write("DOM:user:pass\n")
_f.close()
_pid = os.getpid()
atexit.register(lambda: os.getpid() == _pid and os.remove(_f.name))
os.environ["NTLM_USER_FILE"] = _f.name

SPNEGO = "application/HTTP-SPNEGO-session-encrypted"
KERBEROS = "application/HTTP-Kerberos-session-encrypted"
CREDSSP = "application/HTTP-CredSSP-session-encrypted"


def parse_encrypted(content_type, body, unwrap):
    """Strictly reads a multipart/(x-multi-)encrypted body -> (protocol, [plaintext], problems)."""
    m = re.fullmatch(r'multipart/(x-multi-)?encrypted;protocol="([^"]+)";boundary="Encrypted Boundary"', content_type)
    if not m: return None, [], ["content type %s" % content_type]
    bad, parts = [], []
    if not body.endswith(b"--Encrypted Boundary--\r\n"): return m.group(2), [], ["no end mark"]
    body = body[:-len(b"--Encrypted Boundary--\r\n")]
    while body:
        h = re.match(rb"--Encrypted Boundary\r\n\tContent-Type: ([^\r]+)\r\n\tOriginalContent: type=application/soap\+xml;charset=UTF-8;Length=(\d+)\r\n"
                     rb"--Encrypted Boundary\r\n\tContent-Type: application/octet-stream\r\n", body)
        if not h: return m.group(2), parts, bad + ["malformed part"]
        if h.group(1).decode() != m.group(2): bad.append("part protocol")
        body = body[h.end():]
        # the parts of a multi message are of at most 16 KiB; look for the next part mark behind the data
        nxt = re.search(rb"--Encrypted Boundary\r\n\tContent-Type: application/HTTP", body)
        data, body = (body[:nxt.start()], body[nxt.start():]) if nxt else (body, b"")
        n = struct.unpack("<i", data[:4])[0]
        if not 0 <= n <= len(data) - 4: return m.group(2), parts, bad + ["signature length"]
        try: plain, padding = unwrap(data[4:4 + n], data[4 + n:])
        except Exception as e: return m.group(2), parts, bad + ["undecryptable: %s" % type(e).__name__]
        if len(plain) + padding != int(h.group(2)): bad.append("announced length %s of %d" % (h.group(2).decode(), len(plain)))
        parts.append(plain)
    if (m.group(1) is None) != (len(parts) == 1): bad.append("%d parts in %s" % (len(parts), content_type.split(";")[0]))
    return m.group(2), parts, bad


def build_encrypted(protocol, wrap, parts, boundary="--Encrypted Boundary", lens=None, kind="multipart/encrypted", end=True):
    out = b""
    for i, p in enumerate(parts):
        h, d, pad = wrap(p)
        n = len(p) + pad if lens is None else lens[i]
        out += (boundary + "\r\n\tContent-Type: " + protocol + "\r\n\tOriginalContent: type=application/soap+xml;charset=UTF-8;Length=%d\r\n" % n + boundary
                + "\r\n\tContent-Type: application/octet-stream\r\n").encode() + struct.pack("<i", len(h)) + h + d
    if end: out += (boundary + "--\r\n").encode()
    return {"Content-Type": '%s;protocol="%s";boundary="Encrypted Boundary"' % (kind, protocol)}, out


class Driver:
    def __init__(self, cfg):
        env.SPNEGO_FACTORY[0] = None
        self.cfg = cfg
        self.rnd = random.Random("%s" % cfg)
        self.h = Host()
        env.HANDLERS[self.h.name] = self.handle
        kw = dict(auth=cfg.get("auth", "negotiate"), encryption="always") if cfg["enc"] else dict(auth="basic", encryption="never")
        if cfg.get("backoff"): kw["reconnection_backoff"] = float(cfg["backoff"])
        self.ws = env.pypsrp.wsman.WSMan(self.h.name, ssl=False, username="DOM\\user" if cfg["enc"] else "user", password="pass", **kw)
        self.srv, self.ready = None, False
        env.CLOCK.on = True
        self.n = 0

    def handle(self, request, timeout):
        self.count += 1
        if self.count > 60: raise env.Runaway("endless requests")
        for w in env.CLOCK.sleeps:
            self.log.append("wait")
            self.waits.append(w)
        env.CLOCK.sleeps = []
        h = self.o["x"][self.i] if self.i < len(self.o["x"]) else "good"
        self.i += 1
        body = request.body or b""
        if isinstance(body, str): body = body.encode()
        a = request.headers.get("Authorization")
        if isinstance(a, bytes): a = a.decode()
        msg = None
        if not body:
            self.log.append("token" if a else "authentication starts")
        elif self.cfg["enc"]:
            def unwrap(hd, d): return self.srv.unwrap_winrm(hd, d), 0
            proto, parts, bad = parse_encrypted(request.headers["Content-Type"], body, unwrap) if self.ready else (None, [], ["not authenticated"])
            if proto and proto != SPNEGO: bad.append("protocol %s" % proto)
            msg = b"".join(parts)
            self.log.append(("message refused" if h == "anew" else "message in the last context") if not bad else "message: " + ", ".join(bad))
            if a: self.log.append("message with a token")
        else:
            msg = body
            self.log.append("message in the clear")
            if request.headers["Content-Type"] != "application/soap+xml;charset=UTF-8": self.log.append("content type")
            if a != "Basic " + base64.b64encode(b"user:pass").decode(): self.log.append("credentials missing")
        if msg is not None:
            try:
                self.first = self.first or msg
                r = C.Req(msg)
                if msg != self.first: self.log.append("another message")
                if r.action != self.action: self.log.append("action %s" % r.action)
            except Exception as e:
                self.log.append("unreadable message")
                r = None
        if h in ("rt", "ct", "cerr", "cut", "gone"):
            self.srv, self.ready = None, False
            if h == "gone": raise env.pypsrp._pool_manager.NewConnectionDisabled()
            raise {"rt": requests.ReadTimeout, "ct": requests.ConnectTimeout, "cerr": requests.ConnectionError, "cut": requests.exceptions.ChunkedEncodingError}[h]("x")
        if h == "anew" and body:
            self.srv, self.ready = None, False
            return 401, {"WWW-Authenticate": self.rnd.choice(["Negotiate", "Negotiate, Basic realm=\"WSMAN\""])}, b""
        if h == "401": return 401, {"WWW-Authenticate": "Negotiate"}, b""
        if body:
            if h == "fault": st, _, out = C.fault(r, 123)
            elif h == "text": st, out = 500, b"no XML"
            else:
                self.replies += 1
                self.reply = "r%d.%d" % (self.n, self.replies)
                st, _, out = C.ok(r, "<rsp:Thing>%s</rsp:Thing>" % self.reply)
            if self.cfg["enc"] and self.rnd.random() < .8 and self.ready:
                hd, out = build_encrypted(SPNEGO, self.srv.wrap_winrm, [out])
                return st, hd, out
            return st, C.HDR, out
        if not a: return 401, {"WWW-Authenticate": self.rnd.choice(["Negotiate", "Negotiate, Basic realm=\"WSMAN\"", "Kerberos, Negotiate", "negotiate"])}, b""
        tok = base64.b64decode(a.split(" ")[1])
        if self.leg == 0 or self.srv is None:
            self.srv = spnego.server(hostname="h", service="host", protocol="negotiate", options=spnego.NegotiateOptions.wrapping_winrm)
        self.leg += 1
        out = self.srv.step(tok)
        if self.srv.complete:
            self.ready, self.leg = True, 0
            return 200, {"WWW-Authenticate": "Negotiate " + base64.b64encode(out).decode()} if out else {}, b""
        return 401, {"WWW-Authenticate": "Negotiate " + base64.b64encode(out).decode()}, b""

    def step(self, o):
        if o["n"] == "close":   # the connection is gone, and what the server knew of it
            self.o, self.i, self.log, self.count = dict(x=[]), 0, [], 0
            self.srv, self.ready = None, False
            return [outcome(self.ws.close)[0]] + self.log
        self.o, self.i, self.log, self.waits, self.first, self.count, self.replies, self.leg = o, 0, [], [], None, 0, 0, 0
        self.n += 1
        env.CLOCK.sleeps = []
        ET = C.ET
        rs = ET.Element("{%s}Q" % C.RSP)
        rs.text = "x" * self.rnd.choice([0, 10, 3000])
        self.action = "Receive" if o["k"] == "recv" else self.rnd.choice(["Send", "Command", "Signal", "Create", "Delete", "Connect", "Disconnect", "Reconnect", "Get", "Put", "Pull", "Enumerate"])
        f = getattr(self.ws, self.action.lower())
        kw = {"timeout": self.rnd.choice([None, 1, 300])}
        if o["k"] == "probe":
            self.action = "Get"
            out, v = outcome(env.pypsrp.powershell.RunspacePool(self.ws).is_alive, **kw)
            if out == "ok": return ["ok, alive" if v is True else "ok, dead" if v is False else "ok, %r" % (v,)] + self.log
        else: out, v = outcome(f, C.PSURI, rs, **kw)
        if env.CLOCK.sleeps: self.log.append("wait")
        if isinstance(v, requests.RequestException) and out not in ("err:ReadTimeout", "err:ConnectTimeout", "err:ConnectionError"): out = "err:the reply is incomplete"
        if out == "ok":
            x = v.find("{%s}Thing" % C.RSP)
            out = "ok, the reply" if x is not None and x.text == self.reply else "ok, something else"
        if any(b <= a for a, b in zip([0] + self.waits, self.waits)): self.log.append("waits do not grow: %s" % self.waits)
        return [out] + self.log

    def close(self):
        env.CLOCK.on = False
        env.CLOCK.sleeps = []
        self.h.close()
