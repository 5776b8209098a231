"""C17: processes of a remote shell, specs/Winrs.tla."""
import random, uuid
from lib import env, tlc, codec as C
from lib.server import *
from lib.check import conform_walks, conform_predicted

PROPS = ["OthersUntouched", "OutputGrows", "EndMeansDone", "DoneIsFinal", "RunAfresh"]
# what a letter of the specification stands for on the wire; no code is a prefix of another
CODE = dict(a=b"\xff\xfe", b=b"\x00", c="\u00e9".encode(), d=b"\r\n  ", e=b"x" * 5000, f="\U0001F600".encode(), g=b"g<&>")
enc = lambda t: b"".join(CODE[x] for x in t)


def dec(b):
    if not isinstance(b, bytes): return repr(b)
    o = ""
    while b:
        for k, v in CODE.items():
            if b.startswith(v):
                o, b = o + k, b[len(v):]
                break
        else: return o + "?" + repr(b[:20])
    return o


class Driver:
    def __init__(self, cfg):
        self.rnd = random.Random(str(cfg))
        self.h = Host()
        self.ws = self.h.wsman()
        self.shell = str(uuid.uuid4()).upper()
        self.sh = env.pypsrp.shell.WinRS(self.ws)
        self.h.answer = lambda r: C.created(r, self.shell)
        self.sh.open()
        self.h.take()
        self.args = {1: ["a b", "\u00e9<&>\""], 2: None, 3: [""]}
        self.exe = {1: "cmd.exe", 2: "echo \u00e9 & <x>", 3: "C:\\p q.exe"}
        self.noshell = {1: False, 2: True, 3: False}
        self.ps, self.cid = {}, {}

    def proc(self, p):
        if p not in self.ps:
            self.ps[p] = env.pypsrp.shell.Process(self.sh, self.exe[p], *([] if self.args[p] is None else [self.args[p]]), no_shell=self.noshell[p])
            self.cid[p] = str(uuid.uuid4()).upper()
        return self.ps[p]

    def reply(self, r, x, cid):
        if x["r"] == "optimeout": return C.fault(r, C.OP_TIMEOUT)
        if x["r"] == "fault": return C.fault(r)
        ch = [(n, enc(t) if t else self.rnd.choice([None, b""])) for n, t in x["ch"]]
        if x["st"] == "Done" and self.rnd.random() < .6: ch = [(*c, c[0] not in [d[0] for d in ch[k + 1:]]) for k, c in enumerate(ch)]
        return C.receive_response(r, ch, state=None if x["st"] == "none" else x["st"], rc=None if x["rc"] == "-" else x["rc"], cid=cid)

    def who(self, r):
        x = [str(p) for p, c in self.cid.items() if c == r.cmd]
        return x[0] if x else str(r.cmd)

    def desc(self, r):
        w = "" if r.selectors == {"ShellId": self.shell} and r.uri == C.CMDURI else " with selectors %s of %s" % (r.selectors, r.uri)
        if r.action == "Command":
            for p in self.exe:
                if r.command == self.exe[p] and [a or "" for a in r.args] == (self.args[p] or []) and r.options == [("WINRS_SKIP_CMD_SHELL", str(self.noshell[p]))]:
                    return "Command the executable and arguments of %d%s" % (p, w)
            return "Command %s %s %s" % (r.command, r.args, r.options)
        if r.action == "Receive":
            return "Receive for %s%s%s" % (self.who(r), w, "" if r.stream == "stdout stderr" else " of " + r.stream)
        if r.action == "Send":
            return "Send for %s %s %s%s%s" % (self.who(r), r.stream, dec(r.data), {"True": " End", "TRUE": " End", "true": " End"}.get(r.end, ""), w) + ("" if r.nstreams == 1 else " again")
        if r.action == "Signal":
            return "Signal for %s %s%s" % (self.who(r), r.code.split("windows/shell/signal/")[-1], w)
        return r.action + w

    def step(self, o):
        p = o["p"]
        v = self.proc(p)
        n = o["n"]
        sent = []
        q = list(o.get("q", []))
        SC = env.pypsrp.shell.SignalCode
        def ans(r):
            sent.append(self.desc(r))
            if n in ("poll", "end") and q and r.action == "Receive":
                return self.reply(r, q.pop(0), self.cid[p])
            if o.get("r") == "fault": return C.fault(r)
            if r.action == "Command":
                self.cid[p] = str(uuid.uuid4()).upper()
                return C.command_response(r, self.cid[p])
            if n in ("poll", "end"): raise env.Runaway("asks for more than there is")
            return C.ok(r)
        self.h.answer = ans
        if n == "begin": out, x = outcome(v.begin_invoke)
        elif n == "poll": out, x = outcome(v.poll_invoke)
        elif n == "end": out, x = outcome(v.end_invoke)
        elif n == "send": out, x = outcome(v.send, enc(o["d"]), o["end"]) if not o["end"] or self.rnd.random() < .5 else outcome(v.send, enc(o["d"]))
        else: out, x = outcome(v.signal, {"ctrl_c": SC.CTRL_C, "ctrl_break": SC.CTRL_BREAK, "Terminate": SC.TERMINATE}[o["d"]])
        self.h.take()
        return [out] + sent + ["state " + str(v.state).split("/")[-1], "out " + dec(v.stdout), "err " + dec(v.stderr), "rc %s" % ("-" if v.rc is None else v.rc if isinstance(v.rc, int) else repr(v.rc))]

    def close(self):
        self.h.close()


def check(ck):
    th = env.THOROUGH
    r, edges, inits = tlc.mc("Winrs", dict(Procs=frozenset([1, 2]), MaxOut=3 if th else 2), properties=PROPS, constraint="Bound")
    ck.model(r)
    ck.log("model: %d states, %d edges" % (r.distinct, len(edges)))
    conform_walks(ck, Driver, edges, lambda x: dict(seed=env.SEED), inits, label="processes", budget=400000 if th else 20000, max_len=40)
    rnd = ck.rnd
    runs = []
    def rep(done):
        k = "data" if done else rnd.choice(["data", "data", "data", "optimeout", "fault"])
        x = dict(r=k, ch=[], st="none", rc="-")
        if k == "data":
            x["ch"] = [[rnd.choice(["stdout", "stderr"]), "".join(rnd.choice("abcdefg") for _ in range(rnd.choice([0, 1, 2, 5])))] for _ in range(rnd.choice([0, 1, 2, 4]))]
            x["st"] = "Done" if done else rnd.choice(["none", "Running", "Pending"])
            if done: x["rc"] = rnd.choice(["-", "0", "1", "255", "-1073741510", "4294967295"])
        return x
    for j in range(600 if th else 100):
        ops = []
        for _ in range(25):
            n = rnd.choice(["begin", "poll", "poll", "poll", "end", "send", "signal"])
            o = dict(n=n, p=rnd.choice([1, 2, 3]))
            if n in ("begin", "send", "signal"): o["r"] = rnd.choice(["ok", "ok", "ok", "fault"])
            if n == "poll": o["q"] = [rep(rnd.random() < .1)]
            if n == "end":
                o["q"] = [rep(False) for _ in range(rnd.choice([0, 1, 4]))] + [rep(True)]
                # an exit code does not end a process that is still said to run
                if all(x["r"] != "fault" for x in o["q"]) and o["q"][-1]["rc"] != "-":
                    for x in o["q"][:-1]:
                        if x["st"] == "Running" and rnd.random() < .5: x["rc"] = "9"
            if n == "send": o.update(d="".join(rnd.choice("abcdefg") for _ in range(rnd.choice([0, 1, 3]))), end=rnd.random() < .5)
            if n == "signal": o["d"] = rnd.choice(["ctrl_c", "ctrl_break", "Terminate"])
            ops.append(o)
        runs.append((dict(seed=j), ops))
    for j in range(20 if th else 4):   # a long wait for a lot of output
        ops = [dict(n="begin", p=1, r="ok")]
        q = []
        while len(q) < 150:
            x = rep(False)
            if x["r"] != "fault": q.append(x)
        ops.append(dict(n="end", p=1, q=q + [rep(True)]))
        runs.append((dict(seed=1000 + j), ops))
    conform_predicted(ck, Driver, "Winrs", dict(Procs=frozenset([1, 2, 3]), MaxOut=0), runs, label="random processes")
