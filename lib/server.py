"""In-process WSMan/PSRP server pieces used by the drivers."""
import itertools, uuid
from . import env
from . import codec as C

_n = itertools.count()
RP_STATES = ["BeforeOpen", "Opening", "Opened", "Closed", "Closing", "Broken", "NegotiationSent", "NegotiationSucceeded", "Connecting", "Disconnected"]
PS_STATES = ["NotStarted", "Running", "Stopping", "Stopped", "Completed", "Failed", "Disconnected"]


def rp_state_name(v):
    try: return RP_STATES[v]
    except Exception: return repr(v)


def ps_state_name(v):
    try: return PS_STATES[v]
    except Exception: return repr(v)


class Host:
    """One fake server host; answers requests with self.answer(req), which a driver sets."""
    limit = 400

    def __init__(self, answer=None):
        self.name = "h%d.test" % next(_n)
        self.answer = answer
        self.reqs = []      # every Req since the last take()
        self.count = 0
        self.bad = []
        env.HANDLERS[self.name] = self.handle

    def handle(self, request, timeout):
        body = request.body or b""
        if isinstance(body, str): body = body.encode()
        r = C.Req(body, timeout, request.headers)
        self.reqs.append(r)
        self.count += 1
        if len(self.reqs) > self.limit:
            raise env.Runaway("too many requests in one operation")
        out = self.answer(r)
        if isinstance(out, BaseException):
            raise out
        return out

    def take(self):
        r, self.reqs = self.reqs, []
        return r

    def wsman(self, **kw):
        a = dict(ssl=False, auth="basic", username="u", password="p", encryption="never")
        a.update(kw)
        return env.pypsrp.wsman.WSMan(self.name, **a)

    def close(self):
        env.HANDLERS.pop(self.name, None)


def outcome(f, *a, **k):
    """Run a call of the code under test -> ("ok", value) or ("err:Name", exception)."""
    try:
        return "ok", f(*a, **k)
    except Exception as e:
        return "err:" + type(e).__name__, e


def stated(out, e, *names):
    """An error about a state tells in which state (one of names) the object is."""
    if out not in ("err:InvalidRunspacePoolStateError", "err:InvalidPipelineStateError"): return out
    n = (rp_state_name if "Pool" in out else ps_state_name)(e.current_state)
    return out if n in names and "'%s'" % n in str(e) else "%s that says %s in %s" % (out, e, names)


class Out:
    """Builds the server's outgoing message stream (object ids count per stream)."""
    def __init__(self, rpid):
        self.rpid, self.oid = rpid, 0

    def msg(self, mtype, xml, pid=C.NIL, cuts=(), bom=False):
        self.oid += 1
        return b"".join(C.fragments(self.oid, C.message(mtype, xml, self.rpid, pid, bom=bom), cuts))

    def frags(self, mtype, xml, pid=C.NIL, cuts=()):
        self.oid += 1
        return C.fragments(self.oid, C.message(mtype, xml, self.rpid, pid), cuts)


def opening(out, proto="2.3", app=()):
    return (out.msg("SESSION_CAPABILITY", C.session_capability(proto)), out.msg("APPLICATION_PRIVATE_DATA", C.app_private(app)),
            out.msg("RUNSPACEPOOL_STATE", C.rp_state(2)))


def selname(req, shell):
    if req.selectors is None: return "-"
    if req.selectors == {"ShellId": shell}: return "own"
    return str(sorted(req.selectors.items()))


class OpenedPool:
    """A host with one opened pool, for checks that start from there."""
    def __init__(self, proto="2.3", host=None, pool_kw=None, ws_kw=None, wsman=None, app=()):
        self.h = host or Host()
        self.shell = str(uuid.uuid4()).upper()
        self.re = C.Reassembler()
        self.ws = wsman or self.h.wsman(**(ws_kw or {}))
        self.pool = env.pypsrp.powershell.RunspacePool(self.ws, **(pool_kw or {}))
        self.out = Out(self.pool.id)
        q = [lambda r: C.created(r, self.shell), lambda r: C.receive_response(r, [("stdout", b"".join(opening(self.out, proto, app)))])]
        self.opening_msgs = []
        def ans(r):
            if r.action == "Create" or (r.action == "Send" and q and len(q) == 1):
                self.opening_msgs += self.re.feed(r.data or b"")
            if r.action == "Send": return C.ok(r)
            if not q: raise env.Runaway("opening asks for more")
            return q.pop(0)(r)
        self.h.answer = ans
        self.pool.open()
        self.open_reqs = self.h.take()
        self.h.answer = None
