"""Helpers of the demonstrations: pypsrp of the current directory against a fake server in this process."""
import io, itertools, os, sys, time, uuid, warnings, logging
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
import requests, requests.adapters, urllib3
import codec as C

HANDLERS = {}


class Runaway(BaseException): pass


def _send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
    request.sent_with = dict(timeout=timeout, verify=verify, cert=cert, proxies=proxies)
    status, headers, body = HANDLERS[urllib3.util.parse_url(request.url).host](request, timeout)
    raw = urllib3.HTTPResponse(body=io.BytesIO(body), headers=headers, status=status, preload_content=False, reason="x")
    raw._original_response = None
    r = self.build_response(request, raw)
    if not stream: r.content
    return r


requests.adapters.HTTPAdapter.send = _send
SLEEPS = []
time.sleep = lambda s: SLEEPS.append(s)
import pypsrp, pypsrp.wsman, pypsrp.shell, pypsrp.powershell, pypsrp.client, pypsrp.serializer, pypsrp.host
import pypsrp.complex_objects, pypsrp.messages, pypsrp.exceptions, pypsrp.encryption, pypsrp.negotiate
assert pypsrp.__file__.startswith(os.getcwd()), pypsrp.__file__
logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")
from pypsrp.powershell import PowerShell, RunspacePool
from pypsrp.shell import Process, WinRS, SignalCode


def check(cond, what):
    if not cond:
        print("FAILED: " + what)
        sys.exit(1)


_n = itertools.count()
RP_STATES = ["BeforeOpen", "Opening", "Opened", "Closed", "Closing", "Broken", "NegotiationSent", "NegotiationSucceeded", "Connecting", "Disconnected"]
PS_STATES = ["NotStarted", "Running", "Stopping", "Stopped", "Completed", "Failed", "Disconnected"]


def rp_state_name(v):
    try: return RP_STATES[v]
    except Exception: return repr(v)


def ps_state_name(v):
    try: return PS_STATES[v]
    except Exception: return repr(v)


class Host:
    """One fake server host; answers requests with self.answer(req), which a driver sets."""
    limit = 400

    def __init__(self, answer=None):
        self.name = "h%d.test" % next(_n)
        self.answer = answer
        self.reqs = []      # every Req since the last take()
        self.count = 0
        self.bad = []
        HANDLERS[self.name] = self.handle

    def handle(self, request, timeout):
        body = request.body or b""
        if isinstance(body, str): body = body.encode()
        r = C.Req(body, timeout, request.headers)
        self.reqs.append(r)
        self.count += 1
        if len(self.reqs) > self.limit:
            raise Runaway("too many requests in one operation")
        out = self.answer(r)
        if isinstance(out, BaseException):
            raise out
        return out

    def take(self):
        r, self.reqs = self.reqs, []
        return r

    def wsman(self, **kw):
        a = dict(ssl=False, auth="basic", username="u", password="p", encryption="never")
        a.update(kw)
        return pypsrp.wsman.WSMan(self.name, **a)

    def close(self):
        HANDLERS.pop(self.name, None)


def outcome(f, *a, **k):
    """Run a call of the code under test -> ("ok", value) or ("err:Name", exception)."""
    try:
        return "ok", f(*a, **k)
    except Exception as e:
        return "err:" + type(e).__name__, e


class Out:
    """Builds the server's outgoing message stream (object ids count per stream)."""
    def __init__(self, rpid):
        self.rpid, self.oid = rpid, 0

    def msg(self, mtype, xml, pid=C.NIL, cuts=(), bom=False):
        self.oid += 1
        return b"".join(C.fragments(self.oid, C.message(mtype, xml, self.rpid, pid, bom=bom), cuts))

    def frags(self, mtype, xml, pid=C.NIL, cuts=()):
        self.oid += 1
        return C.fragments(self.oid, C.message(mtype, xml, self.rpid, pid), cuts)


def opening(out, proto="2.3", app=()):
    return (out.msg("SESSION_CAPABILITY", C.session_capability(proto)), out.msg("APPLICATION_PRIVATE_DATA", C.app_private(app)),
            out.msg("RUNSPACEPOOL_STATE", C.rp_state(2)))


def selname(req, shell):
    if req.selectors is None: return "-"
    if req.selectors == {"ShellId": shell}: return "own"
    return str(sorted(req.selectors.items()))


class OpenedPool:
    """A host with one opened pool, for checks that start from there."""
    def __init__(self, proto="2.3", host=None, pool_kw=None, ws_kw=None, wsman=None, app=()):
        self.h = host or Host()
        self.shell = str(uuid.uuid4()).upper()
        self.re = C.Reassembler()
        self.ws = wsman or self.h.wsman(**(ws_kw or {}))
        self.pool = pypsrp.powershell.RunspacePool(self.ws, **(pool_kw or {}))
        self.out = Out(self.pool.id)
        q = [lambda r: C.created(r, self.shell), lambda r: C.receive_response(r, [("stdout", b"".join(opening(self.out, proto, app)))])]
        self.opening_msgs = []
        def ans(r):
            if r.action == "Create" or (r.action == "Send" and q and len(q) == 1):
                self.opening_msgs += self.re.feed(r.data or b"")
            if r.action == "Send": return C.ok(r)
            if not q: raise Runaway("opening asks for more")
            return q.pop(0)(r)
        self.h.answer = ans
        self.pool.open()
        self.open_reqs = self.h.take()
        self.h.answer = None
