"""Driver for specs/Stream.tla (C04, C05)."""
import random, uuid, warnings
from lib import env, codec as C
from lib.server import *

KINDS = ["out", "error", "warning", "verbose", "debug", "information", "progress"]
SPECIAL = ["", " ", "_x000A_", "a\r\nb\tc", "\U0001F600\u00e9", "x" * 500, "<&>\"'", "None"]


def text(m):
    return "m%d%s" % (m, SPECIAL[m % len(SPECIAL)])


def event(m):
    """(documents of the sender, arguments and data of event number m with its computer and runspace, what the event says)"""
    t, tn = text(m), lambda r, *x: '<TN RefId="%d">%s</TN>' % (r, "".join("<T>%s</T>" % y for y in x))
    lst = lambda r, *x: '<Obj RefId="%d">%s<LST>%s</LST></Obj>' % (r, tn(r, "System.Object[]", "System.Array", "System.Object"), "".join(x))
    thing = '<Obj RefId="21">%s<Props><I32 N="m">%d</I32></Props></Obj>' % (tn(21, "Some.Thing", "System.Object"), m)
    data = [(C.s_(t), t), (C.i32(m), m), (lst(20, C.i32(m), C.s_(t)), [m, t]), (thing, "thing %d" % m), (C.nil() + "", None)][m % 5]
    sender = [(C.nil(), None), (C.s_("me"), "me"), (thing.replace("RefId=\"21\"", "RefId=\"22\""), "thing %d" % m)][m % 3]
    args = [(lst(23), []), (lst(23, C.s_(t)), [t]), (lst(23, C.nil(), C.b_(True), C.i32(m)), [None, True, m]), (lst(23, C.i32(m), thing.replace("RefId=\"21\"", "RefId=\"24\"")), [m, "thing %d" % m])][m % 4]
    comp, rid = "comp%d" % m, str(uuid.UUID(int=m + 1))
    return (sender[0], args[0], data[0], comp, rid), (sender[1], args[1], data[1], comp, rid, "2020-01-01T00:00:00.0000000Z")


def told(e):
    f = lambda v: "thing %s" % v.adapted_properties.get("m") if hasattr(v, "adapted_properties") else [f(x) for x in v] if type(v) is list else v
    return f(e.sender), f(e.args), f(e.data), e.computer, str(e.runspace_id), e.time


def value(m):
    """(CLIXML, Python value) of output number m"""
    k = m % 9
    if k == 0: return C.i32(m), m
    if k == 1: return C.b_(m % 2), bool(m % 2)
    if k == 2: return C.nil(), None
    if k == 3: return '<Obj RefId="0"><TN RefId="0"><T>System.Collections.ArrayList</T><T>System.Object</T></TN><LST><I32>%d</I32><S>%s</S></LST></Obj>' % (m, C.esc_clixml(text(m))), [m, text(m)]
    if k == 4: return '<Obj RefId="0"><TN RefId="0"><T>System.Collections.Hashtable</T><T>System.Object</T></TN><DCT><En><S N="Key">k%d</S><I32 N="Value">%d</I32></En></DCT></Obj>' % (m, m), {"k%d" % m: m}
    if k == 5: return C.s_("y%d" % m + "z" * (3000 + m)), "y%d" % m + "z" * (3000 + m)
    if k == 6: return C.s_(""), ""
    return C.s_(text(m)), text(m)


def same(a, b):
    return type(a) is type(b) and a == b


class Driver:
    def __init__(self, cfg):
        self.cfg = cfg
        self.rnd = random.Random(str(cfg))
        self.h = Host()
        self.ws = self.h.wsman()
        PS = env.pypsrp.powershell
        self.shell = str(uuid.uuid4()).upper()
        if cfg["found"]:
            def listing(r):
                if "ShellId" in (r.resource.find(".//{*}Selector").attrib["Name"] if r.resource.find(".//{*}Selector") is not None else ""):
                    return C.ok(r, "<n:EnumerateResponse><w:Items/><w:EndOfSequence/></n:EnumerateResponse>")
                return C.ok(r, '<n:EnumerateResponse><w:Items><rsp:Shell><rsp:ShellId>%s</rsp:ShellId><rsp:Name>Runspace1</rsp:Name><rsp:ResourceUri>%s</rsp:ResourceUri>'
                            '<rsp:State>Disconnected</rsp:State></rsp:Shell></w:Items><w:EndOfSequence/></n:EnumerateResponse>' % (self.shell, C.PSURI))
            self.h.answer = listing
            self.pool, = PS.RunspacePool.get_runspace_pools(self.ws)
            self.h.take()
        else:
            self.pool = PS.RunspacePool(self.ws)
        self.re = C.Reassembler()
        self.oid = 0
        self.n = 0
        self.pend = {i: [] for i in range(cfg["n"] + 1)}
        self.ps = [PS.PowerShell(self.pool) for _ in range(cfg["n"])]
        self.cids = {}
        self.kind = {}
        self.base = {}
        self.errs = []
        self.where = {}                                    # message -> receive stream
        self.done = {i: [] for i in range(cfg["n"] + 1)}   # messages completed on each stream, in order

    # ---- server side
    def xml(self, k, m):
        t = text(m)
        if k == "out": return "PIPELINE_OUTPUT", value(m)[0]
        if k == "error": return "ERROR_RECORD", C.error_record(t, fqid="F%d" % m, cat=m % 30)
        if k in ("warning", "verbose", "debug"): return k.upper() + "_RECORD", C.info_record(k.capitalize(), t)
        if k == "poolwarn": return "WARNING_RECORD", C.info_record("Warning", t)
        if k == "progress": return "PROGRESS_RECORD", C.progress_record(t, m % 100)
        if k == "information": return "INFORMATION_RECORD", C.information_record(t)
        if k == "event": return "USER_EVENT", C.user_event(m % 3, "s%d" % (m % 2), more=event(m)[0])
        if k == "appdata": return "APPLICATION_PRIVATE_DATA", C.app_private([("m", str(m))])
        if k == "init": return "RUNSPACEPOOL_INIT_DATA", C.init_data(m, m + 1000)
        if k == "cap": return "SESSION_CAPABILITY", C.session_capability("2.%d" % (1000 + m))
        if k == "unsup": return ("RESET_RUNSPACE_STATE", C.obj(C.i64(m, "ci"))) if m % 2 else ("GET_AVAILABLE_RUNSPACES", C.obj(C.i64(m, "ci")))
        if k in ("sOpened", "sClosed", "sBroken"): return "RUNSPACEPOOL_STATE", C.rp_state(dict(sOpened=2, sClosed=3, sBroken=5)[k])
        st = dict(sRunning=1, sStopping=2, sStopped=3, sStoppedE=3, sCompleted=4, sCompletedE=4, sFailed=5, sFailedE=5)[k]
        return "PIPELINE_STATE", C.ps_state(st, C.error_record(t, n="ExceptionAsErrorRecord", ref=3, fqid="F%d" % m, cat=m % 30) if k.endswith("E") else None)

    def fragments(self, i, k):
        self.n += 1
        self.oid += 1
        m = self.n
        self.kind[m] = k
        mt, x = self.xml(k, m)
        pid = C.NIL if i == 0 or k in ("event", "appdata", "init", "cap", "unsup", "sOpened", "sClosed", "sBroken") else self.ps[i - 1].id
        msg = C.message(mt, x, self.pool.id, pid, bom=self.rnd.random() < .3)
        nc = self.rnd.choice([0, 0, 1, 2, 5])
        return C.fragments(self.oid, msg, [self.rnd.randint(1, len(msg) - 1) for _ in range(nc)]), msg

    def reply(self, i, items):
        """Each item ends at its own last fragment; the others float before it."""
        out = b""
        early = []   # fragments sent ahead, in front of other messages
        plan = []
        for it in items:
            if it["p"] == "b":
                plan.append([])
                if it["x"] <= len(self.pend[i]):
                    m, f = self.pend[i].pop(it["x"] - 1)
                    plan[-1] = list(f)
                    self.done[i].append(m)
            else:
                f, msg = self.fragments(i, it["k"])
                if it["p"] == "a":
                    if len(f) == 1: f = C.fragments(self.oid, msg, [self.rnd.randint(1, len(msg) - 1)])
                    cut = self.rnd.randint(1, len(f) - 1)
                    self.pend[i].append((self.n, f[cut:]))
                    plan.append(f[:cut])
                else:
                    plan.append(f)
                    self.done[i].append(self.n)
        heads = [list(f) for f in plan]
        for a in range(len(heads)):
            # send some fragments (never the last of a whole message) of later messages early
            if self.rnd.random() < .5:
                for b in range(a + 1, len(heads)):
                    while items[b]["p"] != "b" and len(heads[b]) > 1 and self.rnd.random() < .5:
                        out += heads[b].pop(0)
            out += b"".join(heads[a])
        return out

    def receive(self, r):
        o = self.o
        i = 0
        for k, c in self.cids.items():
            if r.cmd == c: i = k
        self.nrec += 1
        want = o["i"] if o["n"] in ("poll", "end") else 0
        if i != want: self.errs.append("receive on stream %d" % i)
        if not self.reps: raise env.Runaway("waits although the answer came")
        rep = self.reps.pop(0)
        if rep["t"]: return C.fault(r, C.OP_TIMEOUT if rep["t"] == 1 else 0)
        data = self.reply(want, rep["items"])
        if o["n"] == "pavail":
            data += self.answer_ci()
        # the bytes may come in several Stream elements, cut between fragments or not at all
        chunks = [("stdout", data)]
        if self.rnd.random() < .2 and data: chunks = [("stdout", data[:len(data) // 2]), ("stdout", data[len(data) // 2:])]
        if self.rnd.random() < .1: chunks.insert(0, ("stdout", None))
        return C.receive_response(r, chunks, cid=r.cmd)

    def answer_ci(self):
        self.oid += 1
        return b"".join(C.fragments(self.oid, C.message("RUNSPACE_AVAILABILITY", C.availability(self.ci, 3), self.pool.id)))

    def answer(self, r):
        if r.action == "Receive": return self.receive(r)
        if r.action == "Create":
            self.re.feed(r.data)
            return C.created(r, self.shell)
        if r.action == "Connect":
            self.re.feed(r.data)
            return C.connect_response(r, self.reply(0, self.reps.pop(0)["items"]))
        if r.action == "Command":
            self.re.feed(r.data)
            c = str(uuid.uuid4()).upper()
            self.cids[self.o["i"]] = c
            return C.command_response(r, c)
        if r.action == "Send":
            for m in self.re.feed(r.data):
                x = C.ms(C.lx(m["xml"]), "ci")
                if x is not None: self.ci = C.prim(x)
        return C.ok(r)

    # ---- observation
    def ident(self, i, k, rec):
        """number of the message rec came from, or ? if it is not exactly that message (equal ones count in order)"""
        cand = self.cand.get((i, k))
        if cand is None:
            ok = lambda m: self.kind[m] == k or k == "error" and self.kind[m] in ("sFailedE", "sStoppedE", "sCompletedE")
            done = set(self.done[i])
            cand = self.cand[i, k] = [m for m in self.done[i] if ok(m)] + [m for m in self.kind if m not in done and ok(m)]
        for j, m in enumerate(cand):
            if self.equal(k, m, rec):
                del cand[j]
                return str(m)
        return "?"

    def equal(self, k, m, rec):
        t = text(m)
        try:
            if k == "out": return same(rec, value(m)[1])
            if k == "error": return str(rec) == t and rec.fq_error == "F%d" % m and rec.category == m % 30
            if k in ("warning", "verbose", "debug"): return str(rec.message) == t
            if k == "progress": return rec.activity == t and rec.percent_complete == m % 100 and rec.description == "sd"
            if k == "information": return rec.message_data == t and rec.source == "src" and rec.tags == ["t"]
        except Exception:
            return False

    def show(self):
        p = self.pool
        g = lambda f: f() if True else None
        def num(f):
            try: return str(f())
            except Exception: return "?"
        app = p.application_private_data
        inits = [m for m, k in self.kind.items() if k == "init"]
        cnt = "0" if (p.min_runspaces, p.max_runspaces) == (1, 1) else (str(p.min_runspaces) if p.max_runspaces == p.min_runspaces + 1000 else "?")
        cap = "0" if p.protocol_version is None else num(lambda: int(p.protocol_version.split(".")[1]) - 1000)
        ev = []
        for e in p.user_events:
            m = [m for m, k in self.kind.items() if k == "event" and e.source_id == "s%d" % (m % 2) and e.event_id == m % 3 and told(e) == event(m)[1]]
            ev.append(" %s" % (m[0] if m else "?"))
        warns = []
        for w in self.warns:
            c = [m for m, k in self.kind.items() if k in ("poolwarn", "warning") and str(w.message) == text(m)]
            warns.append(" %s" % (c[0] if c and w.category.__name__ == "RunspacePoolWarning" else "?"))
        out = ["pool %s app:%s init:%s cap:%s events[%s ] warnings[%s ]" % (
            rp_state_name(p.state).replace("BeforeOpen", "new"), "0" if app is None else num(lambda: app.data["m"]), cnt, cap, "".join(ev), "".join(warns))]
        self.cand = {}
        for i, q in enumerate(self.ps):
            t = "p%d %s%s" % (i + 1, ps_state_name(q.state), " had_errors" if q.had_errors else "")
            for k in KINDS:
                lst = q.output if k == "out" else getattr(q.streams, k)
                t += " %s[%s ]" % (k, "".join(" " + self.ident(i + 1, k, x) for x in lst))
            out.append(t)
        return out

    def step(self, o):
        self.o, self.nrec, self.reps = o, 0, [dict(x) for x in o["reps"]]
        self.h.answer = self.answer
        p = self.pool
        n = o["n"]
        q = self.ps[o["i"] - 1] if o["i"] else None
        if n == "begin" and not q.commands: q.add_script("x")
        f = {"open": p.open, "connect": p.connect, "pavail": p.get_available_runspaces}.get(n) or {"begin": q.begin_invoke, "poll": q.poll_invoke, "end": q.end_invoke,
                                                                       "close": q.close, "clear": q.clear_streams}[n]
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            out, v = outcome(f)
        self.warns = [x for x in w if "pypsrp" in x.category.__module__ or "Warning" in x.category.__name__]
        self.h.take()
        if n == "clear": self.done[o["i"]] = []
        sh = self.show()
        if out == "ok" and n == "end":
            self.cand = {}
            out = "ok:[" + "".join(" " + self.ident(o["i"], "out", x) for x in v) + " ]"
        if out == "ok" and n == "pavail" and v != 3: out = "ok but %r" % (v,)
        e, self.errs = self.errs, []
        if self.re.problems: e += self.re.problems
        return [out, "receives:%d" % self.nrec] + sh + e

    def close(self):
        self.h.close()
