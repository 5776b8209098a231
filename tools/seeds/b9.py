seed("names-comma", "C28", "powershell.py", [('''        if not isinstance(names, list):
            names = [names]''', '''        if not isinstance(names, list):
            names = names.split(",")''')], "the pattern given as one string contains a comma", "two other patterns are asked for", r"""
P = OpenedPool()
sent = []
def ans(r):
    if r.action == "Command":
        sent.append(r.data)
        return C.command_response(r, "CID")
    return C.fault(r)
P.h.answer = ans
outcome(P.pool.get_command_metadata, "Get-[a,b]*")
check("<S>Get-[a,b]*</S>" in b"".join(sent).decode("utf-8", "replace"), str(sent))
""")
seed("signal-swallowed", "C25", "client.py", [('''            process.signal(SignalCode.CTRL_C)
''', '''            try:
                process.signal(SignalCode.CTRL_C)
            except Exception as err:
                log.warning("The process was not signalled: %s" % err)
''')], "the request that ends a process fails after its output was collected", "the failure does not reach the caller", r"""
from pypsrp.client import Client
h = Host()
c = Client(h.name, ssl=False, auth="basic", username="u", password="p", encryption="never")
acts = []
def ans(r):
    acts.append(r.action)
    if r.action == "Create": return C.created(r, "S")
    if r.action == "Command": return C.command_response(r, "CID")
    if r.action == "Receive": return C.receive_response(r, [("stdout", b"x")], state="Done", rc=0, cid="CID")
    if r.action == "Signal": return requests.ConnectionError("reset")
    return C.ok(r)
h.answer = ans
o, v = outcome(c.execute_cmd, "x")
check(o == "err:ConnectionError" and acts[-1] == "Delete", "%s %s %s" % (o, v, acts))
""")
seed("last-chunk", "C17", "shell.py", [('''            if s.text is None:
                continue
''', '''            if s.text is None or s.attrib.get("End") == "true":
                continue
''')], "the server marks a chunk that still has data as the last one of its stream", "that data is lost", r"""
h = Host()
def ans(r):
    if r.action == "Create": return C.created(r, "S")
    if r.action == "Command": return C.command_response(r, "CID")
    if r.action == "Receive":
        return C.receive_response(r, [("stdout", b"a"), ("stdout", b"b", True), ("stderr", None, True)], state="Done", rc=0, cid="CID")
    return C.ok(r)
h.answer = ans
shell = WinRS(h.wsman()); shell.open()
p = Process(shell, "x"); p.invoke()
check((p.stdout, p.stderr) == (b"ab", b""), "%s %s" % (p.stdout, p.stderr))
""")
seed("spn-case", "C23", "negotiate.py", [('''        auth_hostname = self.hostname_override or host
''', '''        auth_hostname = (self.hostname_override or host).lower()
''')], "the host name configured for the service principal has upper case letters", "the security context is made for another name", r"""
import spnego
names = []
def client(*a, **k):
    names.append(k.get("hostname"))
    raise RuntimeError("enough")
spnego.client = client
h = Host()
HANDLERS[h.name] = lambda request, timeout: (401, {"www-authenticate": "Negotiate"}, b"")
ws = pypsrp.wsman.WSMan(h.name, ssl=False, auth="negotiate", username="u", password="p", encryption="never", negotiate_hostname_override="SRV.Example")
outcome(ws.get, "u")
check(names == ["SRV.Example"], str(names))
""")
seed("env-zero", "C27", "shell.py", [('''Name=str(key)).text = str(value)''', '''Name=str(key)).text = str(value or "")''')],
 "an environment variable whose value is the number zero", "the variable is created empty", r"""
h = Host()
got = []
def ans(r):
    if r.action == "Create":
        got.extend((e.attrib["Name"], e.text) for e in r.resource.iter() if e.tag.endswith("}Variable"))
        return C.created(r, "S")
    return C.ok(r)
h.answer = ans
WinRS(h.wsman(), environment={"A": 1, "B": 0, "C": "0"}).open()
check(got == [("A", "1"), ("B", "0"), ("C", "0")], str(got))
""")
seed("error-of-stopped", "C04", "powershell.py", [('''        if msg_state.error_record is not None:
            self.streams.error.append(msg_state.error_record)

        if self.state == PSInvocationState.FAILED:
            self.had_errors = True
''', '''        if self.state == PSInvocationState.FAILED:
            self.had_errors = True
            if msg_state.error_record is not None:
                self.streams.error.append(msg_state.error_record)
''')], "the server stops a pipeline and says why", "the error record is dropped", r"""
P = OpenedPool()
ps = PowerShell(P.pool); ps.add_script("x")
def ans(r):
    if r.action == "Command": return C.command_response(r, "CID")
    return C.receive_response(r, [("stdout", P.out.msg("PIPELINE_STATE", STATE, ps.id))])
from pypsrp.complex_objects import PSInvocationState as I
STATE = C.ps_state(3, C.error_record("why", n="ExceptionAsErrorRecord", ref=3))
P.h.answer = ans
o, v = outcome(ps.invoke)
check(ps.state == I.STOPPED and len(ps.streams.error) == 1 and not ps.had_errors, "%s %s" % (ps.state, ps.streams.error))
""")
