"""C09: pipeline input, specs/Input.tla."""
import json, random, uuid
from lib import env, tlc, codec as C
from lib.server import *
from lib.check import conform_walks, conform_predicted

PROPS = ["EndOnceAndLast", "EveryElement", "NoneWithout"]


def val(t):
    if t == "nil": return None
    k, _, v = t.partition(":")
    if k == "b": return v == "true"
    if k == "i": return int(v)
    if k == "s": return v
    if k == "t": return [val(x) for x in v.split(",")]
    if k == "d": return {a: b for a, b in [x.split("=") for x in v.split(",")]} if v else {}
    raise ValueError(t)


def tok(x):
    if x.tag == "Nil": return "nil"
    if x.tag == "B": return "b:" + x.text
    if x.tag in ("I32", "I64", "U32"): return "i:" + x.text
    if x.tag == "S": return "s:" + C.unesc_clixml(x.text)
    if x.tag == "Obj":
        for c in x:
            if c.tag in ("LST", "QUE", "STK", "IE"): return "t:" + ",".join(tok(y) for y in c)
            if c.tag == "DCT":
                return "d:" + ",".join(sorted("%s=%s" % (tok(e[0])[2:], tok(e[1])[2:]) for e in c))
    return "?" + x.tag


class Driver:
    def __init__(self, cfg):
        self.P = OpenedPool()
        self.other = None
        self.rnd = random.Random("%s" % cfg)

    def step(self, o):
        ps = env.pypsrp.powershell.PowerShell(self.P.pool).add_cmdlet("x")
        if self.rnd.random() < .3: ps.add_statement().add_script("y")
        re, cid, seen, wrong = C.Reassembler(), str(uuid.uuid4()).upper(), [], []

        def ans(r):
            if r.action == "Command":
                if r.cmd != ps.id.upper() and r.cmd != ps.id: wrong.append("command for another pipeline")
                for m in re.feed(r.data): seen.append(m)
                return C.command_response(r, cid)
            if r.action != "Send" or r.cmd != cid or r.stream != "stdin": wrong.append("%s to %s %s" % (r.action, "own" if r.cmd == cid else "another command", r.stream))
            for m in re.feed(r.data or b""): seen.append(m)
            return C.ok(r)

        self.P.h.answer = ans
        k, items = o["kind"], o["items"]
        if k == "none": inp = None
        elif k == "one": inp = val(items[0][1][0])
        elif k == "list": inp = [val(x) for x in items[0][1]]
        else: inp = ([val(x) for x in b] if t == "b" else val(b[0]) for t, b in items)
        out, e = outcome(ps.begin_invoke, inp) if k != "none" else outcome(ps.begin_invoke)
        self.P.h.take()
        sh = []
        for m in seen:
            if m["pid"] != ps.id.lower(): wrong.append("message for pipeline " + m["pid"])
            if m["type"] == "CREATE_PIPELINE":
                sh.append("create NoInput=%s" % C.ms(C.lx(m["xml"]), "NoInput").text)
            elif m["type"] == "PIPELINE_INPUT": sh.append("input " + tok(C.lx(m["xml"])))
            elif m["type"] == "END_OF_PIPELINE_INPUT": sh.append("end of input")
            else: sh.append(m["type"])
        if re.problems or re.cur: wrong.append("fragments: %s %s" % (re.problems, list(re.cur)))
        return [out] + sh + (wrong or ["all for the own command"])

    def close(self):
        self.P.h.close()


def check(ck):
    th = env.THOROUGH
    vals = ["nil", "s:", "i:0", "s:x"] if th else ["nil", "s:", "i:5"]
    consts = dict(Values=frozenset(vals), MaxItems=3, MaxBatch=2)
    r, edges, inits = tlc.mc("Input", consts, properties=PROPS)
    ck.model(r)
    ck.log("model: %d input shapes" % len(edges))
    conform_walks(ck, Driver, edges, lambda k: dict(seed=env.SEED), inits, label="shapes", budget=60000 if th else None, max_len=40)
    rnd = ck.rnd
    V = ["nil", "b:false", "b:true", "i:0", "i:-1", "i:2147483647", "s:", "s:x", "s: ", "s:long" + "y" * 400, "t:i:1,i:2", "d:", "d:a=b", "s:\u00e9\U0001F600"]
    runs = []
    for j in range(300 if th else 40):
        ops = []
        for _ in range(12):
            q = []
            for _ in range(rnd.choice([0, 1, 2, 5, 12])):
                q.append(["v", [rnd.choice([x for x in V if x[0] != "t"])]] if rnd.random() < .4 else ["b", [rnd.choice(V) for _ in range(rnd.choice([0, 0, 1, 2, 3, 30]))]])
            ops.append(dict(n="begin", kind="gen", items=q))
        runs.append((dict(seed=j), ops))
    for j in range(20 if th else 4):   # many items, many in one batch
        runs.append((dict(seed=j), [dict(n="begin", kind="gen", items=[["v", [rnd.choice(["s:x", "i:5", "nil"])]] for _ in range(300)] if j % 2 else [["b", [rnd.choice(["s:x", "i:5"])] * rnd.choice([300, 700])]])]))
    # enough input for several fragments
    for j in range(60 if th else 8):
        big = ["s:" + "z" * rnd.choice([1, 100000, 113800, 113890, 382600, 400000]) for _ in range(6)]
        runs.append((dict(seed=j), [dict(n="begin", kind="gen", items=[["b", [rnd.choice(big + ["nil"]) for _ in range(rnd.randint(0, 3))]] for _ in range(rnd.randint(1, 4))])]))
    conform_predicted(ck, Driver, "Input", consts, runs, label="random input", timeout=1500)
