"""C14: message encryption, specs/Transport.tla and specs/Wrap.tla."""
import base64, json, os, random, spnego
from lib import env, tlc, codec as C
from lib.server import *
from lib.check import conform_walks, conform_predicted
from . import c13
from .transport import *

PROPS = ["NeverClearWhenDue", "NeverEncryptedWithNever", "TlsIsEnoughForAuto", "WrongLengthIsError"]
NAME = {SPNEGO: "SPNEGO", KERBEROS: "Kerberos", CREDSSP: "CredSSP"}
PROTO = {v: k for k, v in NAME.items()}


class Ctx:
    """Stand-in for a security context of a mechanism that needs Windows: XOR with a keyed stream, sequence numbers, padding."""
    def __init__(self, pad=0):
        self.rnd = random.Random(7)
        self.key, self.pad, self.n, self.m, self.complete = os.urandom(16), pad, 0, 0, False
    def step(self, t=None):
        self.complete = True
        return None if t else b"token"
    def crypt(self, hdr, d):
        return bytes(a ^ b for a, b in zip(d, random.Random(self.key + hdr).randbytes(len(d))))
    def wrap_winrm(self, d):
        self.n += 1
        h = b"c%07d" % self.n + os.urandom(self.rnd.choice([8, 8, 0, 52]))
        return h, self.crypt(h, d + b"\0" * self.pad), self.pad
    def server_unwrap(self, h, d):
        self.m += 1
        if h[:8] != b"c%07d" % self.m: raise ValueError("sequence")
        x = self.crypt(h, d)
        return x[:len(x) - self.pad], self.pad
    def server_wrap(self, d):
        # signatures differ in length, and what is encrypted can contain anything
        # (but the end mark alone, or with one line break behind it, would be ambiguous)
        salt = b"" if len(d) < 2 else self.rnd.choice([b"", b"", b"\r\n", b"--Encrypted Boundary--\r\n", b"application/octet-stream\r\n", b"Length=5\r\n", b"--"])
        h = b"s%c" % len(salt) + os.urandom(self.rnd.choice([14, 14, 1, 58, 300]))
        return h, salt + self.crypt(h, d), 0
    def unwrap_winrm(self, h, d):
        if h[:1] != b"s": raise ValueError("not from the server")
        return self.crypt(h, d[h[1]:])


class Driver:
    def __init__(self, cfg):
        self.cfg = cfg
        self.rnd = random.Random(str(cfg))
        self.ctx = []
        env.SPNEGO_FACTORY[0] = self.new_ctx
        env.CREDSSP_FACTORY[0] = self.new_ctx
        self.h = Host()
        env.HANDLERS[self.h.name] = self.handle
        p = cfg["proto"]
        self.offer = {"CredSSP": "CredSSP", "Kerberos": "Kerberos", "SPNEGO": "Negotiate"}[p]
        self.pad = {"Kerberos": 12}.get(p, 0)
        self.base = None
        self.ws = self.wsman(ssl=False, auth={"CredSSP": "credssp", "Kerberos": "kerberos", "SPNEGO": "negotiate"}[p], encryption="always")

    def wsman(self, **kw):
        return env.pypsrp.wsman.WSMan(self.h.name, username="user", password="pass", certificate_pem="/nonexistent/a.pem", certificate_key_pem="/nonexistent/b.pem", **kw)

    def new_ctx(self, *a, **k):
        self.ctx.append(Ctx(self.pad))
        return self.ctx[-1]

    def handle(self, request, timeout):
        self.count += 1
        if self.count > 20: raise env.Runaway("endless requests")
        body = request.body or b""
        a = request.headers.get("Authorization")
        if isinstance(a, bytes): a = a.decode()
        if not body:
            if a:
                return 200, {}, b""
            return 401, {"WWW-Authenticate": self.offer}, b""
        ct = request.headers["Content-Type"]
        if ct.startswith("multipart"):
            self.proto, parts, self.bad = parse_encrypted(ct, body, self.ctx[-1].server_unwrap if self.ctx else None)
            self.msg = b"".join(parts)
            self.kind = "multi" if "x-multi" in ct else "single"
            if self.proto == CREDSSP and any(len(x) > 16384 for x in parts): self.bad.append("part above 16 KiB")
            self.seen = "encrypted " + NAME.get(self.proto, "?")
        else:
            self.msg, self.bad, self.seen = body, [], "clear"
        try: r = C.Req(self.msg)
        except Exception: 
            self.bad.append("unreadable")
            return 400, {}, b""
        return self.reply(r)

    def plain_reply(self, r):
        st, _, out = C.ok(r, "<rsp:Thing>%s</rsp:Thing>" % self.tag)
        if self.seen == "clear": return st, C.HDR, out
        hd, out = build_encrypted(self.proto, self.ctx[-1].server_wrap, [out])
        return st, hd, out

    def call(self, ws, text):
        rs = C.ET.Element("{%s}Q" % C.RSP)
        rs.text = text
        out, v = outcome(ws.get, C.PSURI, rs)
        if out == "ok":
            x = v.find("{%s}Thing" % C.RSP)
            out = "ok" if x is not None and x.text == self.tag else "another reply"
        return out, v

    def step(self, o):
        self.count, self.seen, self.bad, self.kind = 0, "nothing sent", [], None
        self.tag = "t%d" % self.rnd.randrange(10 ** 9)
        self.reply = self.plain_reply
        if o["n"] == "setup":
            self.offer, old = o["offer"], self.offer
            self.ctx, oc = [], self.ctx
            out, ws = outcome(self.wsman, ssl=o["ssl"], encryption=o["enc"], auth=o["auth"])
            if out == "ok":
                out, v = self.call(ws, "q")
            self.offer, self.ctx = old, oc
            if out == "err:ValueError": out = "refused"
            return [out, self.seen if not self.count or self.seen != "nothing sent" else "only authentication"] + self.bad
        if o["n"] == "msg":
            if self.base is None:
                self.call(self.ws, "x")
                self.base = len(self.msg) - 1
                self.count = 0
            out, v = self.call(self.ws, "y" * (o["size"] - self.base))
            ok = not self.bad and self.msg.count(b"y" * (o["size"] - self.base)) == 1 and len(self.msg) == o["size"]
            return [out, "the server decrypts the message" if ok else "the server sees %s" % (self.bad or len(self.msg)), str(self.kind)] + ([] if self.seen == "encrypted " + self.cfg["proto"] else [self.seen])
        # reply
        def reply(r):
            k = len(o["parts"])
            total = sum(o["parts"])
            st, _, out = (C.ok(r, "<rsp:Thing>%s</rsp:Thing>") if o["status"] == 200 else C.fault(r, 77, reason="%s"))
            need = max(0, total - len(out) + 2)
            self.tag = ("t" + "".join(self.rnd.choice("abc \u00e9\r\n-") for _ in range(need))).replace("\r", "").strip()
            out = out.replace(b"%s", self.tag.encode())
            # cut into parts proportional to the wanted sizes
            cuts, pos = [0], 0
            for p in o["parts"][:-1]:
                pos = min(len(out), pos + p)
                cuts.append(pos)
            cuts.append(len(out))
            parts = [out[a:b] for a, b in zip(cuts, cuts[1:])]
            lens = [len(p) for p in parts]
            if o["wrong"]: lens[o["wrong"] - 1] += self.rnd.choice([1, -1, 16384])
            hd, b = build_encrypted(self.proto, self.ctx[-1].server_wrap, parts, boundary=o["style"] + "Encrypted Boundary", lens=lens,
                                    kind="multipart/encrypted" if k == 1 else "multipart/x-multi-encrypted")
            return st, hd, b
        self.reply = reply
        out, v = self.call(self.ws, "q")
        if out == "ok": out = "ok, the reply"
        if out == "err:WSManFaultError" and o["status"] == 500:
            out = "ok, the reply" if v.code == 77 and v.reason == self.tag else "another fault %r" % (v.reason,)
        return [out]

    def close(self):
        env.SPNEGO_FACTORY[0] = env.CREDSSP_FACTORY[0] = None
        self.h.close()


def check(ck):
    th = env.THOROUGH
    c13.main(ck, 2000, .9)
    sizes = [1300, 16383, 16384, 16385, 32768, 32769] + ([49152, 49153, 153600, 512000] if th else [])
    consts = dict(Sizes=frozenset(sizes), PartSizes=frozenset([0, 1, 700, 16384] if th else [1, 700, 16384]), MaxParts=4 if th else 3)
    r, edges, inits = tlc.mc("Wrap", consts, properties=PROPS)
    ck.model(r)
    ck.log("model: %d states, %d edges" % (r.distinct, len(edges)))
    conform_walks(ck, Driver, edges, lambda k: json.loads(k), inits, label="settings, messages, replies", max_len=25)
    rnd = ck.rnd
    runs = []
    for j in range(60 if th else 8):
        ops = [dict(n="msg", size=rnd.choice([rnd.randint(1300, 70000), 16384 * rnd.randint(1, 4) + rnd.randint(-2, 2)])) for _ in range(6)]
        for _ in range(10):
            k = rnd.randint(1, 6)
            ops.append(dict(n="reply", parts=[rnd.choice([0, 1, rnd.randint(1, 40000)]) for _ in range(k)], wrong=rnd.choice([0, 0, rnd.randint(1, k)]), style=rnd.choice(["--", "-- "]), status=rnd.choice([200, 500])))
        rnd.shuffle(ops)
        for p in ("CredSSP", "Kerberos", "SPNEGO"): runs.append((dict(proto=p, seed=j), ops))
    conform_predicted(ck, Driver, "Wrap", consts, runs, label="random messages")
