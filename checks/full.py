"""A fake server that plays whole sessions (open, one pipeline, close) for the convenience calls."""
import uuid
from lib import env, codec as C
from lib.server import *


class Full:
    """One shell at a time.  pipeline(ms): messages [(type, xml)] the pipeline emits; failing: request number -> ("fault"|exception)."""
    def __init__(self, rnd, proto="2.3", **kw):
        self.rnd, self.proto = rnd, proto
        self.h = Host()
        self.h.limit = 3000
        self.h.answer = self.answer
        a = dict(ssl=False, auth="basic", username="u", password="p", encryption="never")
        a.update(kw)
        self.client = env.pypsrp.client.Client(self.h.name, **a)
        self.live, self.created_n, self.deleted_n, self.bad = None, 0, 0, []
        self.start()

    def start(self, emit=(), fail_at=None, fail=None, opened_state=2, procs=None):
        self.emit = list(emit)
        self.fail_at, self.fail, self.opened_state, self.procs = fail_at, fail, opened_state, procs
        self.n = 0
        self.log = []       # (action, Req, failed)
        self.msgs = []      # PSRP messages of the client
        self.re = {}
        self.phase = None
        self.bad = []

    def feed(self, r, key):
        for m in self.re.setdefault(key, C.Reassembler()).feed(r.data or b""):
            self.msgs.append(m)

    def answer(self, r):
        i, self.n = self.n, self.n + 1
        failed = self.fail_at is not None and (i == self.fail_at if isinstance(self.fail_at, int) else self.fail_at(i, r))
        self.log.append((r, failed))
        if failed:
            if r.action == "Command" and r.uri != C.CMDURI: self.feed(r, "pipe")
            return self.fail(r)
        if r.action == "Create":
            self.live = str(uuid.uuid4()).upper()
            self.created_n += 1
            self.uri = r.uri
            if r.data is not None:
                self.feed(r, "pool")
                self.out = Out(self.msgs[0]["rpid"] if self.msgs else C.NIL)
                self.rpid = r.shellid
                self.pool_queue = [b"".join([self.out.msg("SESSION_CAPABILITY", C.session_capability(self.proto)), self.out.msg("APPLICATION_PRIVATE_DATA", C.app_private()),
                                             self.out.msg("RUNSPACEPOOL_STATE", C.rp_state(self.opened_state, C.error_record("bad", n="ExceptionAsErrorRecord", ref=5) if self.opened_state == 5 else None))])]
            return C.created(r, self.live)
        if r.selectors != {"ShellId": self.live}: self.bad.append("%s with selectors %s" % (r.action, r.selectors))
        if r.action == "Delete":
            self.deleted_n += 1
            self.live = None
            return C.ok(r)
        if r.action == "Command":
            self.cid = str(uuid.uuid4()).upper()
            if r.uri != C.CMDURI:
                self.pid = r.cmd
                self.feed(r, "pipe")
                self.queue = self.batches()
            return C.command_response(r, self.cid)
        if r.action == "Send":
            if r.uri != C.CMDURI: self.feed(r, "pipe" if r.cmd else "pool")
            return C.ok(r)
        if r.action == "Signal": return C.ok(r)
        if r.action == "Receive":
            if r.uri == C.CMDURI: return self.procs.pop(0)(r, self.cid)
            if r.cmd is None:
                if not self.pool_queue: raise env.Runaway("pool receive without an end")
                return C.receive_response(r, [("stdout", self.pool_queue.pop(0))])
            if not self.queue: raise env.Runaway("pipeline receive without an end")
            d, last = self.queue.pop(0)
            if d is None: return C.fault(r, C.OP_TIMEOUT)
            return C.receive_response(r, [("stdout", x) for x in d], state="Done" if last else "Running", cid=self.cid)
        raise env.Runaway("unexpected " + str(r.action))

    def batches(self):
        out = Out(self.rpid or C.NIL)
        q, cur = [], []
        for t, x in self.emit:
            fr = out.frags(t, x, self.pid, [self.rnd.randint(1, len(x) + 39) for _ in range(self.rnd.choice([0, 0, 0, 1, 3]))])
            for f in fr:
                cur.append(f)
                if self.rnd.random() < .2:
                    q.append((cur, False))
                    cur = []
                    if self.rnd.random() < .3: q.append((None, False))
        q.append((cur, True))
        return q

    def close(self):
        self.h.close()


def pipeline_end(state=4, err=None):
    return ("PIPELINE_STATE", C.ps_state(state, C.error_record(err, n="ExceptionAsErrorRecord", ref=3) if err else None))
