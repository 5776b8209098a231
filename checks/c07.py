"""C07: outgoing fragmentation, specs/Wire.tla (traces of the real client are checked against the strict receiver)."""
import json, uuid, itertools
from lib import env, tlc, codec as C
from lib.server import *
from lib.check import conform_traces, pmap

TYPES = dict(open=["SESSION_CAPABILITY", "INIT_RUNSPACEPOOL"], avail=["GET_AVAILABLE_RUNSPACES"], setmin=["SET_MIN_RUNSPACES"],
             setmax=["SET_MAX_RUNSPACES"], reset=["RESET_RUNSPACE_STATE"], keys=["PUBLIC_KEY"])


class Session:
    """Runs scenario ops on the real client and records what the server sees as Wire events."""
    def __init__(self, cfg):
        self.cfg = cfg
        self.h = Host()
        self.h.limit = 2000
        kw = {"max_envelope_size": cfg["env"]} if cfg["env"] else {}
        self.ws = self.h.wsman(**kw)
        self.lim = cfg["env"] or 153600
        self.PS = env.pypsrp.powershell
        self.pool = self.PS.RunspacePool(self.ws, host=env.pypsrp.host.PSHost(None, None, False, None, None, EchoUI(), "1.0") if False else None)
        self.shell = str(uuid.uuid4()).upper()
        self.out = Out(self.pool.id)
        self.ev = []
        self.cur = {}
        self.maxfrag = 0
        self.fault_at = None
        self.nreq = 0
        self.ci = None
        self.lens = []
        self.keyed = False

    def feed(self, r):
        self.ev.append(dict(n="req", size=r.size, ann=r.envsize, lim=self.lim))
        if not r.data or r.action not in ("Create", "Command", "Send", "Connect"): return
        try: fr = C.parse_fragments(r.data)
        except ValueError as e:
            self.ev.append(dict(n="frag", oid=0, fid=0, st=False, en=False, len=0, why=str(e)))
            return
        for oid, fid, st, en, d in fr:
            self.ev.append(dict(n="frag", oid=oid, fid=fid, st=st, en=en, len=len(d)))
            self.maxfrag = max(self.maxfrag, len(d))
            if st: self.cur[oid] = b""
            self.cur[oid] = self.cur.get(oid, b"") + d
            if en:
                raw = self.cur.pop(oid)
                self.message(raw)

    def message(self, raw):
        self.lens.append(len(raw))
        try:
            m = C.parse_message(raw)
            x = C.lx(m["xml"]) if m["xml"] else None
        except Exception as e:
            self.ev.append(dict(n="msg", type="unreadable %r" % e, same=False))
            return
        t = m["type"]
        same = m["dest"] == 2 and m["rpid"] == self.pool.id.lower()
        if t in ("CREATE_PIPELINE", "PIPELINE_INPUT", "END_OF_PIPELINE_INPUT"): same = same and m["pid"] == self.pid
        want = self.want.pop(0) if self.want else None
        if t == "CREATE_PIPELINE":
            c = [e.text for e in x.iter("S") if e.attrib.get("N") == "Cmd"]
            same = same and c == [want]
        elif t == "PIPELINE_INPUT":
            same = same and (x.text or "") == want
        elif t == "INIT_RUNSPACEPOOL":
            a = C.ms(x, "ApplicationArguments")
            got = None if a is None or a.tag == "Nil" else [e.text or "" for e in a.iter("S") if e.attrib.get("N") == "Value"]
            same = same and (got is None if want is None else got == [want])
        elif t in ("SET_MIN_RUNSPACES", "SET_MAX_RUNSPACES"):
            same = same and C.prim(C.ms(x, "MinRunspaces" if "MIN" in t else "MaxRunspaces")) == want
        elif t == "PIPELINE_HOST_RESPONSE":
            same = same and C.prim(C.ms(x, "mr")) == want
        if x is not None and C.ms(x, "CI") is not None: self.ci = C.prim(C.ms(x, "CI"))
        elif x is not None and C.ms(x, "ci") is not None: self.ci = C.prim(C.ms(x, "ci"))
        self.ev.append(dict(n="msg", type=t, same=bool(same)))

    def answer(self, r):
        self.feed(r)
        self.nreq += 1
        a = r.action
        if self.fault_at == self.nreq: return C.fault(r)
        if a == "Create": return C.created(r, self.shell)
        if a == "Command": return C.command_response(r, str(uuid.uuid4()).upper())
        if a == "Receive":
            n = self.o["n"]
            if n == "open":
                if self.cfg["proto"] >= 202 and self.lim == 153600: self.after = 512000
                return C.receive_response(r, [("stdout", b"".join(opening(self.out, "%d.%d" % divmod(self.cfg["proto"], 100))))])
            if n == "host":
                if self.hosted: return C.receive_response(r, [("stdout", self.out.msg("PIPELINE_STATE", C.ps_state(4), self.ps.id))])
                self.hosted = True
                return C.receive_response(r, [("stdout", self.out.msg("PIPELINE_HOST_CALL", C.host_call(5, 11, "ReadLine"), self.ps.id))])
            if n == "keys":
                raise_ = self.out.msg("ENCRYPTED_SESSION_KEY", C.obj(C.s_("AAAA", "EncryptedSessionKey")))
                return C.fault(r)
            v = 3 if n == "avail" else True
            return C.receive_response(r, [("stdout", self.out.msg("RUNSPACE_AVAILABILITY", C.availability(self.ci, v)))])
        return C.ok(r)

    def run(self, o):
        """o: {n, a: text lengths, batches, fault}"""
        self.o = o
        n, PS = o["n"], self.PS
        self.h.answer = self.answer
        self.nreq, self.fault_at, self.after, self.hosted = 0, o.get("fault"), None, False
        T = lambda k, c: (c * 17)[:17] * (k // 17) + c * (k % 17)
        exp = TYPES.get(n)
        self.want = []
        if n == "open":
            text = None if o["a"] is None else T(o["a"], "a")
            self.want = [None, text]
            f = lambda: self.pool.open({"k": text} if text is not None else None)
        elif n == "begin":
            ps = self.ps = PS.PowerShell(self.pool)
            self.pid = ps.id.lower()
            script = "s" + T(o["a"], "b")
            ps.add_script(script)
            self.want = [script]
            exp = ["CREATE_PIPELINE"]
            inp = None
            if o.get("in") is not None:
                k = 0
                bs = []
                for b in o["in"]:
                    row = []
                    for z in b:
                        row.append("%03d" % (k % 1000) + T(z, "cdef"[k % 4]))
                        k += 1
                    bs.append(row)
                flat = [x for b in bs for x in b]
                self.want += flat + [None]
                exp = exp + ["PIPELINE_INPUT"] * len(flat) + ["END_OF_PIPELINE_INPUT"]
                inp = (b for b in bs)
            f = lambda: ps.begin_invoke(inp)
        elif n == "host":
            ps = self.ps
            text = T(o["a"], "h")
            ui.text = text
            self.pool.host = HOST
            exp = ["PIPELINE_HOST_RESPONSE"]
            self.want = [text]
            f = ps.end_invoke
        elif n == "avail": f, self.want = self.pool.get_available_runspaces, [None]
        elif n == "setmin": f, self.want = (lambda: setattr(self.pool, "min_runspaces", o["a"])), [o["a"]]
        elif n == "setmax": f, self.want = (lambda: setattr(self.pool, "max_runspaces", o["a"])), [o["a"]]
        elif n == "reset": f, self.want = self.pool.reset_runspace_state, [None]
        elif n == "keys": f, self.want = self.pool.exchange_keys, [None]
        if n == "reset" and self.cfg["proto"] < 203: return
        if n == "keys":
            if self.keyed: return
            self.keyed = True
        if n == "setmin" and self.pool.min_runspaces == o["a"] or n == "setmax" and self.pool.max_runspaces == o["a"]: return
        self.ev.append(dict(n="call", exp=exp))
        k0 = len(self.lens)
        try:
            out, x = outcome(f)
        except env.Runaway as e:
            out = "runaway"
        failed = o.get("fault") is not None or n == "keys"
        if out != "ok" and not failed: self.ev.append(dict(n="msg", type=out + " " + str(x)[:200], same=False))
        self.ev.append(dict(n="ret", failed=bool(failed and out != "ok")))
        if out != "ok": self.cur = {}
        if self.after and out == "ok": self.lim = self.after
        self.h.take()
        return self.lens[k0:]

    def close(self):
        self.h.close()


class UI:
    text = ""
    def ReadLine(self, runspace, pipeline): return self.text
    RawUI = None


def make_host():
    H = env.pypsrp.host
    class EchoUI(H.PSHostUserInterface):
        text = ""
        def ReadLine(self, *a): return self.text
    ui = EchoUI()
    return H.PSHost(None, None, False, "n", None, ui, "1.0"), ui


HOST, ui = make_host()


class Driver:
    def __init__(self, cfg):
        self.cfg = cfg

    def step(self, o):
        raise NotImplementedError

    def close(self): pass


def record(item):
    cfg, ops = item
    s = Session(cfg)
    try:
        for o in ops: s.run(o)
    finally:
        s.close()
    return s.ev


CAL = {}


def calibrate(cfg):
    """Message overheads and the fragment capacity this client uses for this configuration (only to aim at boundaries)."""
    s = Session(cfg)
    try:
        op = s.run(dict(n="open", a=0))
        b = s.run(dict(n="begin", a=0, **{"in": [[0]]}))
        big = s.run(dict(n="begin", a=3 * (cfg["env"] or 600000)))
        return dict(init=op[1] if len(op) > 1 else 0, cap_msg=op[0] if op else 0, create=b[0] if b else 300, inp=b[1] - 0 if len(b) > 1 else 60, end=b[-1] if b else 40, cap=s.maxfrag)
    finally:
        s.close()


def cases(rnd, cal, th):
    """Scenarios aimed at the boundaries: (open args, ops)"""
    cap = cal["cap"]
    D = [-42, -22, -21, -20, -1, 0, 1] + ([-43, -41, -40, -23, -19, -2, 2, 21, 22] if th else [])
    L = lambda k, d, over: max(0, k * cap + d - over)   # text length that makes the message k*cap+d long
    out = []
    for k in (1, 2, 3):
        for d in D:
            out.append([dict(n="begin", a=L(k, d, cal["create"]))])
            out.append([dict(n="begin", a=0, **{"in": [[L(k, d, cal["inp"])]]})])
            out.append([dict(n="begin", a=3), dict(n="host", a=L(k, d, cal["inp"] + 350 + rnd.randint(-60, 60)))])
    # two messages: the first leaves little or no space for the second
    for d in D + list(range(-100, 0, 3 if th else 9)):
        for k in (0, 1, 2):
            out.append([dict(n="begin", a=0, **{"in": [[L(1, d, cal["inp"]), L(k, rnd.choice(D), cal["inp"]), 5]]})])
    # fill: a + header + b around the capacity
    for d in D:
        a = rnd.randint(10, max(11, cap - 400))
        b = max(0, cap - (a + cal["inp"]) - 21 + d - cal["inp"])
        out.append([dict(n="begin", a=0, **{"in": [[a, b], [b, a, 0], [0]]})])
    for _ in range(600 if th else 160):
        bs = [[rnd.choice([0, 1, rnd.randint(0, 60), L(rnd.randint(1, 2), rnd.choice(D), cal["inp"]), rnd.randint(0, 2 * cap)]) for _ in range(rnd.randint(0, 7))] for _ in range(rnd.randint(0, 4))]
        ops = [dict(n="begin", a=rnd.choice([0, L(1, rnd.choice(D), cal["create"])]), **{"in": bs})]
        for _ in range(rnd.randint(0, 6)):
            n = rnd.choice(["avail", "setmin", "setmax", "reset", "begin", "keys"])
            ops.append(dict(n=n, a=rnd.randint(1, 9)) if n != "begin" else dict(n="begin", a=rnd.randint(0, 2 * cap), **{"in": None}))
        if rnd.random() < .35: ops[rnd.randint(0, len(ops) - 1)]["fault"] = rnd.randint(1, 5)
        out.append(ops)
    rnd.shuffle(out)
    return out


def check(ck):
    th = env.THOROUGH
    consts = dict(MaxOid=4 if th else 3, MaxFid=2)
    c = tlc.cfg(None, view="View", invariants=["Lossless"])
    defs = "".join("mc_%s == %s\n" % (k, tlc.tla(v)) for k, v in consts.items())
    c += "".join("CONSTANT %s <- mc_%s\n" % (k, k) for k in consts)
    r = tlc.run("MC", c, files={"MC.tla": "---- MODULE MC ----\nEXTENDS WireSender\n%s====\n" % defs}, timeout=1500)
    ck.model(r)
    ck.log("receiver model: %d states, %d transitions" % (r.distinct, r.generated))
    envs = [dict(env=3500, proto=203), dict(env=4096, proto=201), dict(env=8192, proto=203), dict(env=0, proto=201), dict(env=0, proto=203)]
    if th: envs += [dict(env=e, proto=203) for e in (3400, 3501, 3502, 3503, 5000, 12345, 65536, 204800)]
    items = []
    for e in envs:
        cal = calibrate(e)
        big = cal["cap"] > 20000
        cs = cases(ck.rnd, cal, th)
        if big: cs = cs[:250 if th else 40]
        elif not th: cs = cs[:300]
        # several scenarios share a pool, so ids run on
        for k in range(0, len(cs), 4):
            grp = [o for x in cs[k:k + 4] for o in x]
            # the opening messages: sizes around the boundary too
            d = ck.rnd.choice([-42, -22, -21, -20, -1, 0, 1, None, 0, 30])
            kk = ck.rnd.choice([0, 1, 2])
            a = None if d is None else max(0, kk * cal["cap"] + d - cal["init"] - ck.rnd.choice([0, cal["cap_msg"] + 21]))
            items.append((e, [dict(n="open", a=a)] + grp))
    # every envelope size in a range: the opening messages straddle every offset
    lo = 3400
    for z in range(lo, lo + (1400 if th else 240), 1 if th else 2):
        items.append((dict(env=z, proto=203), [dict(n="open", a=None), dict(n="avail", a=0), dict(n="begin", a=z, **{"in": [[7, z, 0], []]})]))
    # long lives and long messages: object and fragment ids beyond one byte
    for e, n in ((dict(env=3500, proto=203), 70), (dict(env=8192, proto=201), 12)) + (((dict(env=4096, proto=203), 700),) if th else ()):
        items.append((e, [dict(n="open", a=5)] + [dict(n=ck.rnd.choice(["setmin", "avail", "setmax"]), a=ck.rnd.randint(1, 99)) for _ in range(n)]
                      + [dict(n="begin", a=ck.rnd.randint(0, 99), **{"in": [[ck.rnd.randint(0, 9)] * 20] * 14})] * (n // 6) + [dict(n="begin", a=300 * 2600 if n == 70 else 9), dict(n="avail", a=0)]))
    res = pmap(record, items)
    traces, src = [], []
    for it, ev in zip(items, res):
        if isinstance(ev, tuple):
            ck.violation("session %s: %s" % (ev[0], ev[1].strip().splitlines()[-1]), dict(item=it))
            continue
        traces.append(dict(cfg=dict(x=0), ev=[dict(op=e, obs=["ok"]) for e in ev]))
        src.append((it, ev))
    r, bad = tlc.check_traces("Wire", consts, traces, timeout=1500)
    ck.model(r)
    badt = {b[0] for b in bad}
    for i, (it, ev) in enumerate(src):
        if i not in badt: ck.traces(1, len(ev))
    for t, l, exp in bad:
        it, ev = src[t]
        ck.violation("wire trace of %s rejected at event %d %s: %s" % (json.dumps(it)[:300], l, json.dumps(ev[l])[:300], exp[0]), dict(item=it, events=ev[:l + 1], why=exp))
    ck.sample(dict(trace=min((s[1] for s in src), key=lambda e: abs(len(e) - 25))[:25]))
    ck.log("%d wire traces (%d events) validated by TLC, %d rejected" % (len(traces), sum(len(t["ev"]) for t in traces), len(bad)))
    ck.cov["fragments"] = sum(1 for t in traces for e in t["ev"] if e["op"]["n"] == "frag")
