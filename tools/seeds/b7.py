seed("ui-culture", "C12", "host.py", [('''        return self.current_ui_culture''', '''        return self.current_culture''')],
 "a host whose two cultures differ, and a script that asks for the one of its user interface", "the script is told the other culture", r"""
from pypsrp.complex_objects import CultureInfo
from pypsrp.host import PSHost
n = "lcid name display_name ietf_language_tag three_letter_iso_name three_letter_windows_name two_letter_iso_language_name".split()
a = CultureInfo(**dict(zip(n, (1033, "en-US", "English", "en-US", "eng", "ENU", "en"))))
b = CultureInfo(**dict(zip(n, (1036, "fr-FR", "French", "fr-FR", "fra", "FRA", "fr"))))
P = OpenedPool(pool_kw=dict(host=PSHost(a, b, False, "h", None, None, "1.0")))
ps = PowerShell(P.pool); ps.add_script("x")
got = []
def ans(r):
    if r.action == "Command": return C.command_response(r, "CID")
    if r.action == "Send":
        got.extend(C.prim(C.ms(C.ms(C.lx(m["xml"]), "mr"), "Name")) for m in P.re.feed(r.data))
        return C.ok(r)
    return C.receive_response(r, [("stdout", P.out.msg("PIPELINE_HOST_CALL", C.host_call(1, 4, "GetCurrentCulture"), ps.id) + P.out.msg("PIPELINE_HOST_CALL", C.host_call(2, 5, "GetCurrentUICulture"), ps.id)
        + P.out.msg("PIPELINE_STATE", C.ps_state(4), ps.id))])
P.h.answer = ans
ps.begin_invoke()
P.re.feed(b"")
ps.end_invoke()
check(got == ["en-US", "fr-FR"], str(got))
""")
seed("nested-no-host", "C32", "powershell.py", [('''HostInfo(host=self.runspace_pool.host)''', '''HostInfo(host=None if self.is_nested else self.runspace_pool.host)''')],
 "a nested pipeline in a pool with a host", "the nested pipeline says that there is no host", r"""
from pypsrp.host import PSHost
P = OpenedPool(pool_kw=dict(host=PSHost(None, None, False, "h", None, None, "1.0")))
said = []
def ans(r):
    if r.action == "Command":
        said.extend(C.ms(C.ms(C.lx(m["xml"]), "HostInfo"), "_isHostNull").text for m in P.re.feed(r.data))
        return C.command_response(r, "CID%d" % len(said))
    return C.ok(r)
P.h.answer = ans
ps = PowerShell(P.pool); ps.add_script("x")
ps.begin_invoke()
n = ps.create_nested_power_shell(); n.add_script("y")
n.begin_invoke()
check(said == ["false", "false"], str(said))
""")
seed("arguments-or-host", "C32", "powershell.py", [('''            HostInfo(host=self.host),
            application_arguments,
''', '''            HostInfo(host=self.host),
            application_arguments if self.host is None else None,
''')], "a pool with a host that is opened with application arguments", "the server does not get the arguments", r"""
from pypsrp.host import PSHost
for host in (None, PSHost(None, None, False, "h", None, None, "1.0")):
    h = Host()
    seen = []
    h.answer = lambda r: seen.append(r) or C.fault(r, 5)
    pool = RunspacePool(h.wsman(), host=host)
    outcome(pool.open, {"a": "b"})
    d = __import__("base64").b64decode([e for e in seen[0].body.iter() if e.tag.endswith("creationXml")][0].text)
    check(b"ApplicationArguments" in d and b">b<" in d, "host %s: %r" % (host, d[-300:]))
""")
seed("denied-is-dead", "C16", "powershell.py", [('''                0x8033805B,  # ERROR_WSMAN_UNEXPECTED_SELECTORS
''', '''                0x8033805B,  # ERROR_WSMAN_UNEXPECTED_SELECTORS
                5,
''')], "a probe that the server answers with an access denied fault", "the pool is reported dead and is closed without a word to the server", r"""
P = OpenedPool()
P.h.answer = lambda r: C.fault(r, 5)
o, v = outcome(P.pool.is_alive)
check(o == "err:WSManFaultError" and v.code == 5, "%s %s" % (o, v))
""")
seed("verbose-as-warning", "C20", "complex_objects.py", [('''kwargs.get("merge_verbose", none_merge)''', '''kwargs.get("merge_warning", none_merge)''')],
 "a command made with merges of its own in which the warning and the verbose stream differ", "the verbose stream is merged where the warning stream should be", r"""
from pypsrp.complex_objects import Command, PipelineResultTypes as T
P = OpenedPool()
seen = []
def ans(r):
    seen.extend(P.re.feed(r.data))
    return C.command_response(r, "CID")
P.h.answer = ans
ps = PowerShell(P.pool)
ps.add_command(Command("x", "2.3", merge_warning=T(value=T.OUTPUT)))
ps.begin_invoke()
x = C.lx(seen[0]["xml"])
c = [e for e in x.iter("Obj") if C.ms(e, "Cmd") is not None][0]
g = [C.prim(C.ms(c, n)) for n in ("MergeWarning", "MergeVerbose")]
check(g[0] != g[1], str(g))
""")
seed("one-base64-text", "C19", "client.py", [('''b"".join([base64.b64decode(o) for o in powershell.output[:-1]])''', '''base64.b64decode("".join(powershell.output[:-1]))''')],
 "a file that arrives in chunks whose lengths are not multiples of three", "the parts after a padded chunk are lost, so the file cannot be fetched", r"""
import base64, hashlib, tempfile, shutil
d = tempfile.mkdtemp(prefix="demo-")
try:
    P = OpenedPool()
    data = [b"abcd", b"efg", b"h"]
    st = {}
    def full(r):
        if r.action == "Create":
            st["out"] = None
            return C.created(r, "SH")
        if r.action == "Command":
            ms = st["re"].feed(r.data)
            st["pid"] = ms[0]["pid"]
            return C.command_response(r, st["pid"].upper())
        if r.action == "Receive":
            if r.cmd is None: return C.receive_response(r, [("stdout", b"".join(opening(st["o"])))])
            x = b"".join(st["o"].msg("PIPELINE_OUTPUT", C.s_(base64.b64encode(y).decode()), st["pid"]) for y in data)
            x += st["o"].msg("PIPELINE_OUTPUT", C.s_(hashlib.sha1(b"".join(data)).hexdigest()), st["pid"]) + st["o"].msg("PIPELINE_STATE", C.ps_state(4), st["pid"])
            return C.receive_response(r, [("stdout", x)], state="Done", cid=r.cmd)
        return C.ok(r)
    h = Host(full)
    st["o"] = Out(str(uuid.uuid4()))
    st["re"] = C.Reassembler()
    from pypsrp.client import Client
    c = Client.__new__(Client)
    c.wsman = h.wsman()
    p = os.path.join(d, "f")
    o, v = outcome(c.fetch, "C:\\f", p)
    got = open(p, "rb").read() if os.path.exists(p) else None
    check(o == "ok" and got == b"abcdefgh", "%s %s %r" % (o, v, got))
finally:
    shutil.rmtree(d)
""")
seed("state-elsewhere", "C05", "powershell.py", [('''            response_functions.update(pipeline_response_functions)
''', '''            response_functions.update(pipeline_response_functions)
            response_functions[MessageType.RUNSPACEPOOL_STATE] = None
''')], "a message about the pool's state in the reply to a receive of one of its pipelines", "the pool goes on as if it were open", r"""
P = OpenedPool()
ps = PowerShell(P.pool); ps.add_script("x")
def ans(r):
    if r.action == "Command": return C.command_response(r, "CID")
    return C.receive_response(r, [("stdout", P.out.msg("RUNSPACEPOOL_STATE", C.rp_state(5)) + P.out.msg("PIPELINE_STATE", C.ps_state(4), ps.id))])
P.h.answer = ans
outcome(ps.invoke)
check(rp_state_name(P.pool.state) == "Broken", "the pool is %s" % rp_state_name(P.pool.state))
""")
seed("selectors-only-id", "C27", "shell.py", [('''                self._selector_set.add_option(selector.attrib["Name"], selector.text or "")''', '''                if selector.attrib["Name"] == "ShellId":
                    self._selector_set.add_option(selector.attrib["Name"], selector.text or "")''')],
 "a server that gives a shell more selectors than its id", "later requests do not carry them all", r"""
h = Host()
sh = WinRS(h.wsman())
h.answer = lambda r: C.created(r, "S", selectors={"ShellId": "S", "Other": "o"}) if r.action == "Create" else C.ok(r)
sh.open()
seen = []
h.answer = lambda r: seen.append(r) or C.ok(r)
sh.close()
check(seen[0].selectors == {"ShellId": "S", "Other": "o"}, str(seen[0].selectors))
""")
seed("protocol-by-setting", "C14", "wsman.py", [('''                elif self.session.auth.contexts[hostname].response_auth_header == "kerberos":''', '''                elif self.auth == "kerberos":''')],
 "the two settings and the scheme that the server offers differ: kerberos configured and the server offers Negotiate, or negotiate configured and the server offers only Kerberos", "messages are announced under a protocol that was not used", r"""
from pypsrp.encryption import WinRMEncryption as E
class Ctx:
    def __init__(self, h): self.response_auth_header = h
    def wrap_winrm(self, d): return b"H", d, 0
    def unwrap_winrm(self, h, d): return d
from pypsrp.wsman import get_hostname
for auth in ("kerberos", "negotiate"):
    for scheme in ("negotiate", "kerberos"):
        h = Host()
        ws = h.wsman(auth=auth, username="u", password="p", encryption="auto")
        def ans(r): return C.ok(r)
        t = ws.transport
        t.session = t._build_session()
        t.session.auth.contexts[get_hostname(t.endpoint)] = Ctx(scheme)
        kinds = []
        real = t._send_request
        def send(req, timeout=None):
            kinds.append(req.headers.get("Content-Type"))
            if len(kinds) == 2: raise EOFError
        t._send_request = send
        outcome(t.send, b"<x/>")
        want = E.KERBEROS if scheme == "kerberos" else E.SPNEGO
        check(want in kinds[1], "%s offered %s: %s" % (auth, scheme, kinds))
""")
