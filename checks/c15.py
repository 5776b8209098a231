"""C15: replies, specs/Reply.tla."""
import random, uuid
from xml.sax.saxutils import escape, quoteattr
from lib import env, tlc, codec as C
from lib.server import *
from lib.check import conform_walks, conform_predicted

PROPS = ["OnlyRelated", "ErrorsAreErrors", "WsmanFirst"]
E = env.pypsrp.exceptions


class Driver:
    def __init__(self, cfg):
        self.cfg = cfg
        self.rnd = random.Random(str(cfg))
        self.h = Host()
        self.ws = self.h.wsman()
        self.last = "uuid:" + str(uuid.uuid4()).upper()

    def pad(self, t): return self.rnd.choice(["%s", " %s\n", "\r\n\t%s "]) % escape(t)

    def fault(self, f):
        att = lambda n, v: "" if v == "-" else " %s=%s" % (n, quoteattr(v))
        x = ""
        if f["val"] != "-" or f["sub"] != "-":
            x += "<s:Code>%s%s</s:Code>" % ("" if f["val"] == "-" else "<s:Value>%s</s:Value>" % f["val"],
                                            "" if f["sub"] == "-" else "<s:Subcode><s:Value>%s</s:Value></s:Subcode>" % f["sub"])
        if f["reason"] != "-": x += '<s:Reason><s:Text xml:lang="en-US">%s</s:Text></s:Reason>' % self.pad(f["reason"])
        if f["wf"]:
            m = "" if f["msg"] == "-" else self.pad(f["msg"])
            if f["hasprov"]:
                m += "<f:ProviderFault%s%s>%s</f:ProviderFault>" % (att("provider", f["prov"]), att("path", f["path"]), "" if f["ptext"] == "-" else self.pad(f["ptext"]))
            if m or self.rnd.random() < .5: m = "<f:Message>%s</f:Message>" % m
            x += '<s:Detail><f:WSManFault xmlns:f="%s"%s%s>%s</f:WSManFault></s:Detail>' % (C.WSF, att("Code", f["code"]), att("Machine", f["mach"]), m)
        elif self.rnd.random() < .3: x += "<s:Detail><other/></s:Detail>"
        return "<s:Fault>%s</s:Fault>" % x

    def step(self, o):
        sent = []
        def ans(r):
            sent.append(r)
            rel = {"own": r.msgid, "old": self.last, "other": "uuid:" + str(uuid.uuid4()).upper(), "none": None, "case": r.msgid.split(":")[1]}[o["rel"]]
            self.last = r.msgid
            if o["body"] == "text":
                self.text = self.rnd.choice(["no XML", "<html><br></html>", "{}", "\u00e9"])
                cs = self.rnd.choice(["UTF-8", "iso-8859-1", "utf-16"])
                return o["status"], {"Content-Type": "text/plain;charset=" + cs}, self.text.encode(cs)
            if o["body"] == "empty":
                self.text = ""
                return o["status"], {}, b""
            if o["body"] == "fault":
                cs = self.rnd.choice(["UTF-8", "UTF-8", "utf-16"])
                return o["status"], {"Content-Type": "application/soap+xml;charset=" + cs}, C.envelope(rel, self.fault(o["f"])).decode().encode(cs)
            t = "".join(self.rnd.choice("ab<&> \t\n\u00e9\U0001F600\"'") for _ in range(self.rnd.randint(0, 20)))
            self.body = '<rsp:A x=%s>%s<w:B/><rsp:C/>%s</rsp:A>' % (quoteattr(t), escape(t), "z" * self.rnd.choice([0, 0, 100000]))
            return o["status"], C.HDR, C.envelope(rel, self.body)
        self.h.answer = ans
        f = self.rnd.choice(["get", "send", "create", "delete", "receive", "command", "signal", "connect", "disconnect", "reconnect", "enumerate", "pull", "put"])
        out, v = outcome(getattr(self.ws, f), C.PSURI, C.ET.Element(C.q(C.RSP, "Q")))
        self.h.take()
        if len(sent) != 1: return ["%d requests" % len(sent)]
        if out == "ok":
            if o["body"] != "ok": return ["ok, another reply"]
            flat = lambda e: (e.tag, dict(e.attrib), e.text or "", [flat(c) + (c.tail or "",) for c in e])
            want = C.ET.fromstring(C.envelope("x", self.body)).find(C.q(C.S, "Body"))
            return ["ok, the reply unchanged" if flat(v) == flat(want) else "ok, another reply"]
        # exact classes: what a caller can tell apart
        if out == "err:WSManFaultError":
            d = lambda x: "-" if x is None or x == "" else str(x)
            if isinstance(v.code, str) and v.code.isdigit(): return ["code is no number"]
            lost = [x for x in (v.code, v.machine, v.reason, v.provider, v.provider_path, v.provider_fault) if x and str(x) not in str(v)]
            if lost: return ["the text of the error lacks %r" % lost]
            return [out, "code " + d(v.code), "machine " + d(v.machine), "reason " + d(v.reason), "provider %s path %s fault %s" % (d(v.provider), d(v.provider_path), d(v.provider_fault))]
        if out == "err:WinRMTransportError":
            return [out, "status %s" % v.code, "its text" if v.response_text == self.text else "another text"]
        if out == "err:AuthenticationError": return [out]
        return ["error"]

    def close(self):
        self.h.close()


def check(ck):
    th = env.THOROUGH
    consts = dict(Statuses=frozenset([200, 202, 400, 401, 403, 404, 500, 503]))
    r, edges, inits = tlc.mc("Reply", consts, properties=PROPS)
    ck.model(r)
    ck.log("model: %d edges" % len(edges))
    for k in range(5 if th else 1):
        conform_walks(ck, Driver, edges, lambda x: dict(seed=env.SEED + k), inits, label="replies %d" % k, max_len=40)
    rnd = ck.rnd
    runs = []
    T = lambda: rnd.choice(["-", "x", "text with spaces", "<&>\"", "\u00e9\U0001F600", "12", "z" * 300])
    for j in range(400 if th else 60):
        ops = []
        for _ in range(15):
            b = rnd.choice(["ok", "fault", "fault", "text", "empty"])
            f = dict(val="-", sub="-", reason="-", wf=False, code="-", mach="-", msg="-", hasprov=False, prov="-", path="-", ptext="-")
            if b == "fault":
                f.update(val=rnd.choice(["s:Sender", "s:Receiver"]), sub=rnd.choice(["-", "w:TimedOut", "w:InvalidSelectors"]), reason=T())
                if rnd.random() < .8:
                    f.update(wf=True, code=rnd.choice(["-", str(rnd.randint(1, 2 ** 32 - 1)), "0x80338029"]), mach=T(), msg=T())
                    if rnd.random() < .5: f.update(hasprov=True, prov=T(), path=T(), ptext=T())
            ops.append(dict(n="call", status=rnd.choice([200, 200, 401, 400, 403, 500, 503, 599]) if b != "fault" else rnd.choice([400, 401, 500]), body=b,
                            rel=rnd.choice(["own", "own", "old", "other", "none", "case"]), f=f))
        runs.append((dict(seed=j), ops))
    conform_predicted(ck, Driver, "Reply", consts, runs, label="random replies")
