"""C10: envelope size, specs/Envelope.tla."""
import json, re, uuid
from lib import env, tlc, codec as C
from lib.server import *
from lib.check import conform_walks, conform_predicted

PROPS = ["NeverOverridesUser", "RaisedOnlyByNegotiation", "Negotiates"]
INVS = ["FragmentsFit"]


class Driver:
    def __init__(self, cfg):
        self.h = Host()
        self.h.limit = 3000
        self.ws = self.h.wsman(**({} if cfg["size"] == 153600 else {"max_envelope_size": cfg["size"]}))
        self.pools = {}

    def step(self, o):
        n, v = o["n"], o["v"]
        P = self.pools.get(o["p"])
        big = []

        def ans(r):
            big.append((r.size, r.envsize))
            if r.action == "Get":
                return C.ok(r, '<cfg:Config xmlns:cfg="%s"><cfg:MaxEnvelopeSizekb>%d</cfg:MaxEnvelopeSizekb></cfg:Config>' % (C.CFG, v // 1024))
            if r.action == "Create":
                P["re"].feed(r.data)
                return C.created(r, P["shell"])
            if r.action == "Command":
                P["re"].feed(r.data)
                return C.command_response(r, str(uuid.uuid4()).upper())
            if r.action == "Send":
                for m in P["re"].feed(r.data):
                    if m["type"] == "GET_AVAILABLE_RUNSPACES": P["ci"] = C.prim(C.ms(C.lx(m["xml"]), "ci"))
                    if m["type"] == "CREATE_PIPELINE": P["got"] = m["xml"]
                return C.ok(r)
            if r.action == "Receive":
                if n == "open": return C.receive_response(r, [("stdout", b"".join(opening(P["out"], "%d.%d" % divmod(v, 100))))])
                return C.receive_response(r, [("stdout", P["out"].msg("RUNSPACE_AVAILABILITY", C.availability(P["ci"], 2)))])
            return C.ok(r)

        self.h.answer = ans
        PS = env.pypsrp.powershell
        if n == "set": out, x = outcome(self.ws.update_max_payload_size, v)
        elif n == "config": out, x = outcome(self.ws.update_max_payload_size)
        elif n == "new":
            pool = PS.RunspacePool(self.ws)
            self.pools[o["p"]] = dict(pool=pool, shell=str(uuid.uuid4()).upper(), re=C.Reassembler(), out=Out(pool.id))
            out = "ok"
        elif n == "open": out, x = outcome(P["pool"].open)
        elif n == "send":
            out, x = outcome(PS.PowerShell(P["pool"]).add_script("z" * 700000).begin_invoke)
            if out == "ok": out += " wide" if max(b for b, _ in big) > 160000 else " narrow"
        else:
            out, x = outcome(P["pool"].get_available_runspaces)
        self.h.take()
        extra = []
        if any(b > a for b, a in big): extra.append("request larger than announced")
        if P:
            extra += P["re"].problems
            P["re"].problems = []
            if n == "send" and b"z" * 700000 not in P.pop("got", b""):
                # the script may also have arrived whole in the Command request
                extra.append("script incomplete") if P["re"].cur else None
        return [out] + ["announced:%d" % a for a in sorted({a for _, a in big})] + extra + ["size:%d" % self.ws.max_envelope_size]

    def close(self):
        self.h.close()


def check(ck):
    th = env.THOROUGH
    consts = dict(Starts=frozenset([153600, 32768, 512000] + ([102400, 256000] if th else [])), Sets=frozenset([512000, 32768] + ([153600, 204800, 1048576] if th else [204800])),
                  Protos=frozenset([201, 202, 203, 210] + ([300, 1001] if th else [])), NP=2)
    r, edges, inits = tlc.mc("Envelope", consts, properties=PROPS, invariants=INVS)
    ck.model(r)
    ck.log("model: %d states, %d edges" % (r.distinct, len(edges)))
    conform_walks(ck, Driver, edges, lambda k: dict(size=json.loads(k)["size"]), inits, label="negotiation", budget=60000 if th else 2500, max_len=12)
    rnd = ck.rnd
    runs = []
    for j in range(600 if th else 60):
        sz = rnd.choice([153600, 153600, rnd.randint(24, 900) * 1024])
        if sz in (160000, 153600 + 1): sz += 8192
        ops = []
        for _ in range(rnd.randint(4, 16)):
            p = rnd.randint(1, 3)
            n = rnd.choice(["set", "config", "new", "new", "open", "open", "send", "small", "small"])
            z = rnd.choice([153600, 512000, rnd.choice([rnd.randint(24, 150), rnd.randint(200, 900)]) * 1024])
            ops.append(dict(n=n, p=0 if n in ("set", "config") else p, v=z if n in ("set", "config") else rnd.choice([200, 201, 202, 203, 204, 210, 300, 1001, 102, 110]) if n == "open" else 0))
        if 150 < sz // 1024 < 200 and sz != 153600: sz = 204800
        runs.append((dict(size=sz), ops))
    conform_predicted(ck, Driver, "Envelope", dict(consts, NP=3), runs, label="random sizes")
