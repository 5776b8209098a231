"""C16: liveness probes over real loopback connections, specs/Alive.tla."""
import itertools, gc, random, threading, time, uuid
from lib import env, tlc, codec as C
from lib.server import *
from lib.loop import Loop
from lib.check import conform_walks, conform_predicted

PROPS = ["NeverOpens", "TrueIffAnswered", "FalseCloses", "OthersConnect"]

# a client gives up waiting after this long where the scenario says so; otherwise the library's own timeouts apply
_GIVE_UP = [None]
_real = env.REAL_SEND
def _send(self, request, stream=False, timeout=None, **kw):
    if _GIVE_UP[0] and timeout is not None: timeout = _GIVE_UP[0]
    return _real(self, request, stream=stream, timeout=timeout, **kw)
env.REAL_SEND = _send


_nth = itertools.count(env.SEED if isinstance(env.SEED, int) else 1)


class Driver:
    def __init__(self, cfg):
        self.cfg = cfg
        self.codes = itertools.cycle(random.Random(next(_nth)).sample(C.OTHER_CODES, len(C.OTHER_CODES)))
        self.l = Loop(tls=cfg["tls"], proxy=cfg.get("proxy", False))
        self.shell = str(uuid.uuid4()).upper()
        kw = dict(port=self.l.port, username="u", password="p", auth="basic", ssl=cfg["tls"], cert_validation=False)
        if not cfg["tls"]: kw["encryption"] = "never"
        if cfg["key"]: kw["certificate_key_password"] = "x"
        if self.l.proxy: kw["proxy"] = "http://127.0.0.1:%d" % self.l.port
        self.ws = env.pypsrp.wsman.WSMan("127.0.0.1", **kw)
        # another connection to the same server: it is never affected
        self.ws2 = env.pypsrp.wsman.WSMan("127.0.0.1", **kw)
        pool = self.pool = env.pypsrp.powershell.RunspacePool(self.ws)
        out = Out(pool.id)
        def ans(r):
            if r.action == "Create": return C.created(r, self.shell)
            if r.action == "Send": return C.ok(r)
            return C.receive_response(r, [("stdout", b"".join(opening(out)))])
        self.l.answer = ans
        pool.open()
        self.take()

    def take(self):
        with self.l.lock:
            a, q = self.l.accepted, self.l.reqs
            self.l.accepted, self.l.reqs = 0, []
        return a, q

    def reply(self, kind, r):
        body = '<rsp:Shell><rsp:ShellId>%s</rsp:ShellId>%s</rsp:Shell>' % (self.shell, "" if kind == "nostate" else "<rsp:State>%s</rsp:State>" % (
            "Disconnected" if kind == "Disconnected" else "Connected"))
        if kind in ("Connected", "nostate", "Disconnected"): return C.ok(r, body)
        if kind in ("cut", "stall"):
            x = C.ok(r, body)
            return x[0], dict(x[1], **{"X-Part": "silent" if kind == "stall" else "end"}), x[2]
        if kind == "last":
            x = C.ok(r, body)
            return x[0], dict(x[1], Connection="close"), x[2]
        if kind == "gone": return C.fault(r, 0x80338029)
        if kind == "selectors": return C.fault(r, 0x8033805B)
        if kind == "other": return C.fault(r, next(self.codes))
        if kind == "text": return 500, {"Content-Type": "text/plain"}, b"busy"
        if kind == "denied": return 401, {"WWW-Authenticate": "Basic"}, b""
        if kind == "foreign": return C.ok(r, body, relates="uuid:" + str(uuid.uuid4()).upper())
        return {"reset": "reset", "timeout": "silent"}[kind]

    def req(self):
        out, v = outcome(self.ws.get, "urn:other", None)
        if isinstance(v, env.requests.RequestException) and self.r == "cut": return "err:incomplete"   # whichever of them
        return out.replace("ProxyError", "ConnectionError")

    def alive(self):
        out, v = outcome(self.pool.is_alive)
        return str(v) if out == "ok" and isinstance(v, bool) else out if out != "ok" else repr(v)

    def step(self, o):
        n, r = o["n"], o["r"]
        self.r = r
        res = []
        probe = lambda q: q.uri.endswith("/windows/shell") and q.action == "Get" and q.selectors == {"ShellId": self.shell}
        _GIVE_UP[0] = 0.15 if r in ("timeout", "stall") else None
        if n == "drop":
            self.l.drop()
            res = ["ok"]
        elif n == "shut":
            res = [outcome(self.ws.close)[0]]
            gc.collect()  # urllib3 closes the sockets of a pool when the pool is collected
            for _ in range(200):
                if not self.l.open: break
                env.REAL_SLEEP(0.005)
            res.append("left open %d" % len(self.l.open))
        elif n == "req":
            self.l.answer = lambda q: self.reply(r, q)
            res = [self.req()]
        elif n == "alive":
            self.l.answer = lambda q: self.reply(r, q) if probe(q) else (500, {}, b"unexpected request")
            res = [self.alive()]
        elif n == "close":
            self.l.answer = lambda q: C.ok(q) if q.action == "Delete" and q.selectors == {"ShellId": self.shell} else C.fault(q)
            res = [outcome(self.pool.close)[0]]
        else:
            held, go, got = threading.Event(), threading.Event(), []
            first = probe if n == "par" else (lambda q: q.uri == "urn:other")
            def ans(q):
                if first(q):
                    held.set()
                    go.wait(20)
                return self.reply(r if probe(q) else "Connected", q)
            self.l.answer = ans
            a, b = (self.alive, self.req) if n == "par" else (self.req, self.alive)
            th = threading.Thread(target=lambda: got.append(a()))
            th.start()
            held.wait(10)
            other = b()
            go.set()
            th.join(30)
            res = (got or ["hangs"]) + [other]
            if n == "rap": res.reverse()
        _GIVE_UP[0] = None
        if r in ("last", "reset", "timeout", "cut", "stall"):
            env.REAL_SLEEP(0.01)
        acc, q = self.take()
        return res + ["connections %d" % acc, "requests %d" % len(q), "pool " + {2: "Opened", 3: "Closed"}.get(self.pool.state, rp_state_name(self.pool.state))]

    def close(self):
        _GIVE_UP[0] = None
        self.ws.close()
        self.l.close()


def check(ck):
    th = env.THOROUGH
    r, edges, inits = tlc.mc("Alive", {}, properties=PROPS)
    ck.model(r)
    ck.log("model: %d states, %d edges" % (r.distinct, len(edges)))
    for tls, key in ((False, False), (True, False), (True, True)):
        for px in (False, True):
            conform_walks(ck, Driver, edges, lambda x: dict(tls=tls, key=key, proxy=px), inits, label="probes tls=%s key=%s proxy=%s" % (tls, key, px), max_len=15)
    rnd = ck.rnd
    runs = []
    for j in range(400 if th else 60):
        ops = []
        for _ in range(25):
            n = rnd.choice(["req", "req", "alive", "alive", "drop", "shut", "par", "rap"] + (["close"] if rnd.random() < .2 else []))
            ops.append(dict(n=n, r={"req": ["Connected", "last", "reset", "cut", "other"], "alive": ["Connected"] * 4 + ["cut", "stall", "nostate", "last", "Disconnected", "gone", "selectors", "reset", "other", "text", "denied", "foreign"],
                                    "par": ["Connected", "Connected", "other", "Disconnected"], "rap": ["Connected"], "drop": ["-"], "shut": ["-"], "close": ["-"]}[n]))
            ops[-1]["r"] = rnd.choice(ops[-1]["r"])
        runs.append((dict(tls=rnd.random() < .3, key=rnd.random() < .3, proxy=rnd.random() < .3), ops))
    conform_predicted(ck, Driver, "Alive", {}, runs, label="random histories")
