"""C08: reassembly of incoming fragments, specs/Defrag.tla."""
import json, random, uuid
from lib import env, tlc, codec as C
from lib.server import *
from lib.check import conform_walks, conform_predicted

PROPS = ["GapIsReported", "NothingTakenBack"]
INVS = ["OnceEach", "WholeOnly"]


class Driver:
    """Message m is a pipeline output, error record or user event by m modulo 4; all on one pipeline's receive stream."""
    def __init__(self, cfg):
        self.k = cfg["k"]
        self.rnd = random.Random("%s" % cfg)
        self.P = OpenedPool()
        self.ps = env.pypsrp.powershell.PowerShell(self.P.pool).add_script("x")
        self.P.h.answer = lambda r: C.command_response(r, r.cmd)
        self.ps.begin_invoke()
        self.frags, self.val = {}, {}
        base, step = self.rnd.choice([(100, 1), (2 ** 33, 1), (2 ** 63, 1), (7, 2 ** 32), (0, 2 ** 56), (2 ** 40, 2 ** 16)])
        order = list(range(1, len(self.k) + 1))
        if self.rnd.random() < .5: self.rnd.shuffle(order)   # object ids need not follow the order of sending
        for m, k in enumerate(self.k, 1):
            txt = "m%d:" % m + "".join(self.rnd.choice("ab\u00e9\U0001F600 <&") for _ in range(self.rnd.choice([0, 3, 40, 900])))
            if self.rnd.random() < cfg.get("large", 0): txt = "m%d:" % m + ("0123456789abcde" * 30000)[:self.rnd.choice([65536, 65600, 70000, 131072, 400000]) + self.rnd.randint(-300, 300)]
            if k > 100: txt += "y" * 600
            if m % 4 == 3:
                x = C.message("USER_EVENT", C.user_event(m, data=txt), self.P.pool.id)
            elif m % 4 == 2:
                x = C.message("ERROR_RECORD", C.error_record(txt), self.P.pool.id, self.ps.id)
            else:
                x = C.message("PIPELINE_OUTPUT", C.s_(txt), self.P.pool.id, self.ps.id)
            self.val[m] = txt
            cuts = sorted(self.rnd.sample(range(1, len(x)), k - 1))
            if self.rnd.random() < .3 and k > 2:  # tiny leading fragments
                cuts = sorted(set(range(1, k)))
            self.frags[m] = C.fragments(base + order[m - 1] * step, x, cuts)
            assert len(self.frags[m]) == k
        self.last = []

    def delivered(self):
        ps, p = self.ps, self.P.pool
        got = [("o", x) for x in ps.output] + [("e", str(x)) for x in ps.streams.error] + [("u", x.data) for x in p.user_events]
        ids = []
        for c, x in got:
            m = [m for m, t in self.val.items() if t == x and c == {3: "u", 2: "e"}.get(m % 4, "o")]
            ids.append(m[0] if m else "?")
        return ids

    def step(self, o):
        data = b"".join(self.frags[m][f] for m, f in o["fr"])
        # order among different kinds is not visible, so the order is taken from what each reply added
        self.P.h.answer = lambda r: C.receive_response(r, [("stdout", data)], cid=r.cmd)
        out, x = outcome(self.ps.poll_invoke)
        now = self.delivered()
        if out != "ok":
            return [out, "delivered only whole messages" if "?" not in now and len(set(now)) == len(now) else "delivered " + str(now)]
        fin = [m for m, f in o["fr"] if f == self.k[m - 1] - 1]
        new = [m for m in now if m not in self.last]
        kind = lambda m: {3: "u", 2: "e"}.get(m % 4, "o")
        # put what was added into one order that respects each list; it must be the order of completion
        if sorted(map(str, new)) == sorted(map(str, fin)) and all([m for m in new if kind(m) == c] == [m for m in fin if kind(m) == c] for c in "oeu") and len(now) == len(self.last) + len(new):
            self.last += fin
        else:
            self.last = now
        return [out, "delivered[" + "".join(" %s" % m for m in self.last) + " ]"]

    def close(self):
        self.P.h.close()


def history(rnd, k):
    """a fair interleaving of all fragments in random replies, often with one fault"""
    todo = {m: 0 for m in range(1, len(k) + 1)}
    fr = []
    while todo:
        m = rnd.choice(sorted(todo)[:4])
        fr.append([m, todo[m]])
        todo[m] += 1
        if todo[m] == k[m - 1]: del todo[m]
    x = rnd.random()
    i = rnd.randrange(len(fr))
    if x < .25: del fr[i]
    elif x < .5: fr.insert(i + rnd.randint(1, 3), fr[i])
    elif x < .75:
        j = rnd.randrange(len(fr))
        fr[i], fr[j] = fr[j], fr[i]
    ops = []
    while fr:
        n = rnd.choice([1, 1, 2, 3, 7, 20])
        ops.append(dict(n="reply", fr=fr[:n]))
        fr = fr[n:]
    return ops


def check(ck):
    th = env.THOROUGH
    shapes = [(3, 1, 2), (2, 2)] + ([(3, 3, 3), (4, 2, 1), (1, 1, 1, 2)] if th else [])
    consts = dict(Shapes=frozenset(), MaxReply=2)
    tot = 0
    for sh in shapes:
        consts = dict(Shapes=frozenset([sh]), MaxReply=3 if sh == (2, 2) else 2)
        r, edges, inits = tlc.mc("Defrag", consts, properties=PROPS, invariants=INVS, timeout=1500)
        ck.model(r)
        ck.log("model %s: %d states, %d edges" % (sh, r.distinct, len(edges)))
        conform_walks(ck, Driver, edges, lambda k: dict(k=json.loads(k)["k"], seed=env.SEED), inits, label="reassembly %s" % (sh,), budget=60000 if th else 6000, max_len=12)
    runs = []
    for j in range(3000 if th else 300):
        k = [ck.rnd.choice([1, 1, 2, 3, 5, 12]) for _ in range(ck.rnd.randint(1, 14))]
        if j % 60 == 7: k[ck.rnd.randrange(len(k))] = 300
        runs.append((dict(k=k, seed=j + 7919 * env.SEED, large=.3 if j % 15 == 3 else 0), history(ck.rnd, k)))
    conform_predicted(ck, Driver, "Defrag", consts, runs, label="random interleavings", timeout=1500)
