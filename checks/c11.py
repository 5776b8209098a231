"""C11: key exchange and secure strings, specs/Keys.tla."""
import base64, json, os, random, struct, uuid
from cryptography.hazmat.primitives.asymmetric import rsa, padding
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
from lib import env, tlc, codec as C
from lib.server import *
from lib.check import conform_walks, conform_predicted

PROPS = ["OneKey", "NeverBack", "OnlyWithKey", "OthersUntouched", "LateFails"]
TEXTS = {"t0": "", "t1": "secret", "t2": "12345678", "t3": "p\u00e4ss\U0001F600\u4e16", "t4": "x" * 4097, "t5": " \r\n\t<&>_x0041_", "t6": "\ufeffbom", "t7": "1234567", "t8": "\0nul\0\0"}


def pad(b):
    n = 16 - len(b) % 16
    return b + bytes([n]) * n


class Peer:
    """The server's side of one pool."""
    def __init__(self, cfg, i, ws):
        self.rnd = random.Random("%s %s" % (cfg, i))
        kw = {} if cfg["timeout"] == 60000 else {"session_key_timeout_ms": cfg["timeout"]}
        H, O = env.pypsrp.host, env.pypsrp.complex_objects
        class UI(H.PSHostUserInterface):
            def ReadLineAsSecureString(ui, runspace, pipeline):
                if self.host_exchanges: runspace.exchange_keys()
                return runspace.serialize(self.secret, O.ObjectMeta("SS"))
            def PromptForCredential1(ui, runspace, pipeline, *a):
                if self.host_exchanges: runspace.exchange_keys()
                return O.PSCredential(username="dom\\u", password=self.secret)
        self.P = OpenedPool(wsman=ws, host=cfg["host"], pool_kw=dict(kw, host=H.PSHost(None, None, False, "h", None, UI(), "1.0")))
        self.key = self.rnd.randbytes(32)
        self.ps = env.pypsrp.powershell.PowerShell(self.P.pool).add_cmdlet("x")
        self.P.h.answer = lambda r: C.command_response(r, r.cmd)
        self.ps.begin_invoke()
        self.pub = None
        self.seen = 0

    def cipher(self): return Cipher(algorithms.AES(self.key), modes.CBC(b"\0" * 16))

    def dec(self, b64):
        d = self.cipher().decryptor()
        x = d.update(base64.b64decode(b64)) + d.finalize()
        n = x[-1]
        if not 1 <= n <= 16 or x[-n:] != bytes([n]) * n: return "?padding"
        return x[:-n].decode("utf-16-le", "replace")

    def enc(self, text):
        e = self.cipher().encryptor()
        return base64.b64encode(e.update(pad(text.encode("utf-16-le"))) + e.finalize()).decode()

    def keymsg(self):
        if self.pub is None: return b""   # the exchange was given up before anything was sent
        blob = b"\x01\x02\x00\x00\x10\x66\x00\x00\x00\xa4\x00\x00" + self.pub.encrypt(self.key, padding.PKCS1v15())[::-1]
        return self.P.out.msg("ENCRYPTED_SESSION_KEY", C.obj(C.s_(base64.b64encode(blob).decode(), "EncryptedSessionKey")))

    def pubkey(self, m):
        b = base64.b64decode(C.prim(C.ms(C.lx(m["xml"]), "PublicKey")))
        if b[:16] != b"\x06\x02\x00\x00\x00\xa4\x00\x00RSA1\x00\x08\x00\x00" or len(b) != 276: raise ValueError("public key blob")
        self.pub = rsa.RSAPublicNumbers(struct.unpack("<I", b[16:20])[0], int.from_bytes(b[20:], "little")).public_key()


class Driver:
    def __init__(self, cfg):
        env.CLOCK.on = False
        self.cfg = dict(cfg)
        self.h = Host()
        self.cfg["host"] = self.h
        self.ws = self.h.wsman()
        self.peers = {i: Peer(self.cfg, i, self.ws) for i in range(1, cfg["np"] + 1)}
        self.h.take()
        self.rnd = random.Random("%s" % cfg)
        env.CLOCK.on = True

    def step(self, o):
        Q = self.peers[o["p"]]
        P, n = Q.P, o["n"]
        shown = []
        st = {"k": o["k"]}
        text = TEXTS.get(o["v"], o["v"])

        def ans(r):
            if r.selectors != {"ShellId": P.shell}: shown.append("request for another pool")
            if r.action == "Send":
                for m in P.re.feed(r.data):
                    if m["type"] == "PUBLIC_KEY":
                        Q.pubkey(m)
                    if n == "inp":
                        if m["type"] == "PIPELINE_INPUT": self.inputs.append(m["xml"])
                        continue
                    shown.append(m["type"])
                    if m["type"] == "PIPELINE_HOST_RESPONSE":
                        x = C.lx(m["xml"])
                        el = [e for e in x.iter() if e.tag == "SS"]
                        good = m["pid"] == Q.ps.id.lower() and C.ms(x, "ci").text == "7" and len(el) == 1 and Q.dec(el[0].text) == text
                        if o["w"].startswith("cred") and good: good = el[0].attrib.get("N") == "Password" and C.prim(C.ms(C.ms(x, "mr"), "UserName")) == "dom\\u"
                        shown.append("server decrypts " + ("leak" if len(text) > 3 and text.encode() in m["xml"] else o["v"] if good else "something else"))
                return C.ok(r)
            if r.action == "Command":
                if n != "inp": shown.append("command")
                for m in P.re.feed(r.data):
                    if m["type"] == "PIPELINE_INPUT": self.inputs.append(m["xml"])
                    else: self.created = m
                return C.command_response(r, r.cmd)
            assert r.action == "Receive"
            if r.cmd:
                shown.append("receive")
                b = b""
                if o["w"] in ("req", "reqreq"):
                    b = P.out.msg("PUBLIC_KEY_REQUEST", "") * 1
                    if o["w"] == "reqreq": b += P.out.msg("PUBLIC_KEY_REQUEST", "")
                elif n == "ask":
                    Q.secret, Q.host_exchanges = text, o["w"].endswith("x")
                    b = P.out.msg("PIPELINE_HOST_CALL", C.host_call(7, 12, "ReadLineAsSecureString") if o["w"].startswith("line") else C.host_call(7, 24, "PromptForCredential1", C.s_("c") + C.s_("m") + C.s_("u") + C.s_("t")), Q.ps.id)
                elif o["w"] == "key": b = Q.keymsg()
                elif o["w"] == "ss":
                    k = self.rnd.randint(0, 4)
                    x = "<SS>%s</SS>" % Q.enc(text)
                    if k == 1: x = '<Obj RefId="0"><TN RefId="0"><T>System.Object[]</T></TN><LST>%s</LST></Obj>' % x
                    if k == 2: x = C.obj(x.replace("<SS>", '<SS N="p">'))
                    if k == 3: x = C.obj("", None, ["System.Management.Automation.PSCredential", "System.Object"], "System.Management.Automation.PSCredential", props='<S N="UserName">dom\\u</S>' + x.replace("<SS>", '<SS N="Password">'))
                    if k == 4: x = '<Obj RefId="0"><TN RefId="0"><T>System.Collections.Hashtable</T><T>System.Object</T></TN><DCT><En><S N="Key">k</S>%s</En></DCT></Obj>' % x.replace("<SS>", '<SS N="Value">')
                    self.how = k
                    b = P.out.msg("PIPELINE_OUTPUT", x, Q.ps.id)
                return C.receive_response(r, [("stdout", b)] if b else [], cid=r.cmd)
            shown.append("pool receive")
            env.CLOCK.now += self.cfg["timeout"] / 1000 / (self.cfg["limit"] - .5)
            st["k"] -= 1
            b = P.out.msg("USER_EVENT", C.user_event(1)) if self.rnd.random() < .5 else b""
            if st["k"] < 0: b += Q.keymsg()
            return C.receive_response(r, [("stdout", b)] if b else [])

        self.h.answer = ans
        PS = env.pypsrp.powershell
        SS = env.pypsrp.complex_objects.ObjectMeta("SS")
        n0 = len(Q.ps.output)
        if n == "exch": out, x = outcome(P.pool.exchange_keys)
        elif n in ("poll", "ask"):
            out, x = outcome(Q.ps.poll_invoke)
            if o["w"] == "ss":
                new = Q.ps.output[n0:]
                v = new[0] if len(new) == 1 else new
                try:
                    if self.how == 1: v, = v
                    if self.how == 2: v = v.adapted_properties.get("p", v.extended_properties.get("p"))
                    if self.how == 3: v = v.password if type(v) is env.pypsrp.complex_objects.PSCredential and v.username == "dom\\u" else repr(v)
                    if self.how == 4: v = v["k"]
                except Exception as e: v = repr(e)
                shown.append("output " + (o["v"] if v == text and isinstance(v, str) else repr(v)[:80]))
        elif n == "ser":
            out, x = outcome(P.pool.serialize, text, SS)
            if out == "ok":
                shown.append("server decrypts " + (o["v"] if x.tag == "SS" and Q.dec(x.text) == text else "something else"))
        else:
            def f():
                self.created, self.inputs = None, []
                if n == "inp":
                    c = env.pypsrp.complex_objects.PSCredential(username="dom\\u", password=text)
                    return PS.PowerShell(P.pool).add_cmdlet("y").begin_invoke(["a", [c, [c], {"k": c}][self.rnd.randint(0, 2)]])
                if n == "cred":
                    c = env.pypsrp.complex_objects.PSCredential(username="dom\\u", password=text)
                    k = self.rnd.randint(0, 2)
                    return PS.PowerShell(P.pool).add_cmdlet("y").add_parameter("p", [c, [c], {"k": c}][k]).begin_invoke()
                PS.PowerShell(P.pool).add_cmdlet("y").add_parameter("p", P.pool.serialize(text, SS)).begin_invoke()
            out, x = outcome(f)
            if out == "ok":
                raw = self.inputs[1] if n == "inp" and len(self.inputs) == 2 else self.created["xml"]
                el = [e for e in C.lx(raw).iter() if e.tag == "SS"]
                good = len(el) == 1 and Q.dec(el[0].text) == text
                if n != "arg" and good: good = [C.prim(C.ms(e, "UserName")) for e in C.lx(raw).iter("Obj") if C.ms(e, "UserName") is not None] == ["dom\\u"]
                leak = len(text) > 3 and text.encode() in raw
                shown.append("server decrypts " + ("leak" if leak else o["v"] if good else "something else"))
        self.h.take()
        return [out] + shown + [p for p in P.re.problems]

    def close(self):
        env.CLOCK.on = False
        self.h.close()


def check(ck):
    th = env.THOROUGH
    consts = dict(NP=2, Limit=3, Texts=frozenset(TEXTS if th else ["t0", "t1", "t2", "t3"]), Delays=frozenset([0, 1, 2, 3, 4] if th else [0, 2, 3]))
    r, edges, inits = tlc.mc("Keys", consts, properties=PROPS)
    ck.model(r)
    ck.log("model: %d states, %d edges" % (r.distinct, len(edges)))
    conform_walks(ck, Driver, edges, lambda k: dict(np=2, timeout=60000, limit=3, seed=env.SEED), inits, label="exchange", max_len=20)
    rnd = ck.rnd
    for lim in ([1, 2, 5, 9] if th else [1, 5]):
        runs = []
        for j in range(150 if th else 25):
            ops = []
            for _ in range(15):
                n = rnd.choice(["exch", "poll", "poll", "ser", "arg", "cred", "inp", "ask", "ask"])
                w = rnd.choice(["-", "req", "reqreq", "key", "ss", "ss"]) if n == "poll" else rnd.choice(["line", "cred", "linex", "credx"]) if n == "ask" else "-"
                v = ""
                if n in ("ser", "arg", "cred", "inp", "ask") or w == "ss":
                    v = rnd.choice(list(TEXTS) + ["".join(chr(rnd.choice([rnd.randint(32, 126), rnd.randint(0xA1, 0xD7FF), rnd.randint(0x10000, 0x10FFFF)])) for _ in range(rnd.randint(1, 40)))])
                ops.append(dict(n=n, p=rnd.randint(1, 3), w=w, k=rnd.choice([0, 0, 1, 2, lim - 1, lim, lim + 3]) if n == "exch" or w.startswith("req") or w.endswith("x") else 0, v=v))
            runs.append((dict(np=3, timeout=rnd.choice([1000, 60000, 3600000]), limit=lim, seed=j), ops))
        conform_predicted(ck, Driver, "Keys", dict(consts, NP=3, Limit=lim), runs, label="random histories limit %d" % lim)
