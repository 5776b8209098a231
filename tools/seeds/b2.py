PSF = "powershell.py"
seed("call-id-reuse", "C06", PSF, [('''        ci = self._ci_counter
        self._ci_counter += 1
        self.ci_table[ci] = response_handler

        reset_state = ''', '''        ci = self._ci_counter
        self.ci_table[ci] = response_handler

        reset_state = ''')],
 "another pool call after a reset of the runspace state", "the call id of the reset is used again", r'''
P = OpenedPool()
cis = []
def ans(r):
    if r.action == "Send":
        m = C.Reassembler().feed(r.data)[0]
        x = C.lx(m["xml"])
        e = C.ms(x, "ci")
        cis.append((m["type"], int((e if e is not None else C.ms(x, "CI")).text)))
        return C.ok(r)
    t, ci = cis[-1]
    return C.receive_response(r, [("stdout", P.out.msg("RUNSPACE_AVAILABILITY", C.availability(ci, 4 if t.startswith("GET") else True)))])
P.h.answer = ans
for i in range(2):
    check(P.pool.get_available_runspaces() == 4, "wrong count")
    P.pool.reset_runspace_state()
ids = [c for _, c in cis]
check(len(set(ids)) == 4, "call ids %s" % ids)
''')
NEG = r'''
import spnego, base64
class Ctx:
    n = 0
    def __init__(self, *a, **k):
        self.complete = False; self.k = k; self.steps = 0; Ctx.n += 1; self.id = Ctx.n
    def step(self, tok=None):
        self.steps += 1
        if self.steps == LEGS: self.complete = True
        if self.steps > len(TOKENS): return None
        return TOKENS[self.steps - 1]
    def wrap_winrm(self, d): return b"H%d" % self.id, bytes(d), 0
    def unwrap_winrm(self, h, d): return d
spnego.client = Ctx
import pypsrp.negotiate
pypsrp.negotiate.spnego.client = Ctx
'''
seed("last-token", "C23", "negotiate.py", [("while not context.complete or out_token is not None:", "while not context.complete:")],
 "a context that completes in the step that creates its last token (Kerberos without mutual authentication)", "the last token is never sent", NEG + r'''
LEGS, TOKENS = 1, [b"only"]
h = Host()
got = []
def raw(request, timeout):
    a = request.headers.get("Authorization")
    if isinstance(a, bytes): a = a.decode()
    got.append(a)
    if a is None: return 401, {"www-authenticate": "Negotiate"}, b""
    return C.ok(C.Req(request.body, timeout, request.headers), "")
HANDLERS[h.name] = raw
ws = pypsrp.wsman.WSMan(h.name, ssl=False, auth="negotiate", username="u", password="p", encryption="never")
o, v = outcome(ws.get, "uri")
check(o == "ok", "%s %s" % (o, v))
check(got[1:] == ["Negotiate " + base64.b64encode(b"only").decode()], str(got))
''')
seed("auth-retry", "C13", "wsman.py", [('''                    self._send_request(prep_request, timeout=timeout)
                except (requests.ReadTimeout, requests.ConnectTimeout) as e:''', '''                    self._send_request(prep_request, timeout=timeout)
                except (requests.Timeout, requests.ConnectionError) as e:''')],
 "a receive whose authentication exchange (message encryption) is refused by the network", "the refused connection is retried with back off although only timeouts are", NEG + r'''
LEGS, TOKENS = 1, [b"only"]
h = Host()
n = [0]
def raw(request, timeout):
    n[0] += 1
    raise requests.ConnectionError("refused")
HANDLERS[h.name] = raw
ws = pypsrp.wsman.WSMan(h.name, ssl=False, auth="negotiate", username="u", password="p")
import xml.etree.ElementTree as ET
o, v = outcome(ws.receive, "uri", ET.Element("x"))
check(o == "err:ConnectionError", "%s %s" % (o, v))
check(n[0] == 1 and SLEEPS == [], "%d requests, sleeps %s" % (n[0], SLEEPS))
''')
seed("stale-cipher", "C14", "wsman.py", [('''                self.encryption = None

                if not isinstance(e, (requests.ReadTimeout, requests.ConnectTimeout)):
                    raise
''', '''                if not isinstance(e, (requests.ReadTimeout, requests.ConnectTimeout)):
                    raise

                self.encryption = None
''')], "a connection error (not a timeout) in the middle of an encrypted session that is used again afterwards", "the next request is encrypted with the context of the lost connection and sent without authenticating", NEG + r'''
LEGS, TOKENS = 1, [b"only"]
h = Host()
log = []
def raw(request, timeout):
    a = request.headers.get("Authorization")
    body = request.body or b""
    if not body:
        log.append("auth" if a else "blank")
        return (200, {}, b"") if a else (401, {"www-authenticate": "Negotiate"}, b"")
    log.append("data")
    if log.count("data") == 2: raise requests.ConnectionError("reset")
    i = body.index(b"octet-stream\r\n") + 14
    xml = body[i:].split(b"--Encrypted")[0][6:]
    return C.ok(C.Req(xml, timeout, {}), "")
HANDLERS[h.name] = raw
ws = pypsrp.wsman.WSMan(h.name, ssl=False, auth="negotiate", username="u", password="p")
check(outcome(ws.get, "u")[0] == "ok", "first")
check(outcome(ws.get, "u")[0] == "err:ConnectionError", "second")
outcome(ws.get, "u")
check(log == ["blank", "auth", "data", "data", "blank", "auth", "data"], str(log))
''')
