PSF = "powershell.py"
seed("host-answer-cut", "C12", PSF, [('''            fragments = self._fragmenter.fragment(msg, self.id, pid)
            for fragment in fragments:
                self.shell.send("pr", fragment)
''', '''            fragments = self._fragmenter.fragment(msg, self.id, pid)
            self.shell.send("pr", fragments[0])
''')], "a host method whose answer is larger than one fragment", "only the first fragment of the answer is sent, the server waits forever", r"""
from pypsrp.host import PSHost
P = OpenedPool(proto="2.1")
re_, done = C.Reassembler(), []
def ans(r):
    if r.action == "Command": return C.command_response(r, "CID")
    if r.action == "Send":
        done.extend(re_.feed(r.data))
        return C.ok(r)
    return C.receive_response(r, [("stdout", P.out.msg("PIPELINE_HOST_CALL", C.host_call(1, 1, "GetName"), ps.id) + P.out.msg("PIPELINE_STATE", C.ps_state(4), ps.id))], state="Done", cid="CID")
P.h.answer = ans
for name in ("n", "n" * 300000):
    P.pool.host = PSHost(None, None, False, name, None, None, "1.0")
    done.clear()
    ps = PowerShell(P.pool); ps.add_script("x")
    o, v = outcome(ps.invoke)
    check(o == "ok", "%s %s" % (o, v))
    check([m["type"] for m in done] == ["PIPELINE_HOST_RESPONSE"], "answers to a name of %d: %d" % (len(name), len(done)))
""")
seed("shell-id-case", "C24", PSF, [('shell_id: str = shell.find("rsp:ShellId", NAMESPACES).text ', 'shell_id: str = shell.find("rsp:ShellId", NAMESPACES).text.upper() ')],
 "a server that lists its shell ids in lower case and compares selectors exactly", "requests of the discovered pool select another id than the listed one", r"""
h = Host()
sels = []
def ans(r):
    if r.action == "Enumerate":
        s = r.resource.find(".//" + C.q(C.WSMAN, "Selector"))
        b = "" if s is not None else "<rsp:Shell><rsp:ShellId>%s</rsp:ShellId></rsp:Shell>" % SID
        return C.ok(r, "<n:EnumerateResponse><w:Items>%s</w:Items></n:EnumerateResponse>" % b)
    sels.append(r.selectors)
    return C.ok(r)
h.answer = ans
SID = str(uuid.uuid4()).lower()
pool = RunspacePool.get_runspace_pools(h.wsman())[0]
pool.close()
check(sels == [{"ShellId": SID}], str(sels))
""")
seed("fault-code-lost", "C15", "wsman.py", [('code = wsman_fault.attrib.get("Code", code)', 'code = wsman_fault.attrib.get("Code")')],
 "a fault whose WSManFault detail has no Code attribute", "the code of the SOAP fault is lost", r"""
h = Host()
body = '''<s:Envelope xmlns:s="http://www.w3.org/2003/05/soap-envelope" xmlns:a="http://schemas.xmlsoap.org/ws/2004/08/addressing" xmlns:w="http://schemas.dmtf.org/wbem/wsman/1/wsman.xsd"><s:Header/><s:Body><s:Fault><s:Code><s:Value>s:Sender</s:Value><s:Subcode><s:Value>w:InternalError</s:Value></s:Subcode></s:Code><s:Reason><s:Text xml:lang="en-US">text</s:Text></s:Reason><s:Detail><f:WSManFault xmlns:f="http://schemas.microsoft.com/wbem/wsman/1/wsmanfault" Machine="m"><f:Message>other</f:Message></f:WSManFault></s:Detail></s:Fault></s:Body></s:Envelope>'''
h.answer = lambda r: (500, {"content-type": "application/soap+xml"}, body.encode())
o, v = outcome(h.wsman().get, "u")
check(o == "err:WSManFaultError" and v.code == "w:InternalError" and v.reason == "other" and v.machine == "m", "%s %s" % (o, getattr(v, "code", v)))
""")
seed("alive-timeout", "C16", PSF, [('''            if exc.code in [
                0x80338029,  # ERROR_WSMAN_OPERATION_TIMEDOUT
                0x8033805B,  # ERROR_WSMAN_UNEXPECTED_SELECTORS
            ]:
                is_closed = True
''', '''            if exc.code == 0x80338029:  # ERROR_WSMAN_OPERATION_TIMEDOUT
                return False
            elif exc.code == 0x8033805B:  # ERROR_WSMAN_UNEXPECTED_SELECTORS
                is_closed = True
''')], "a probe that ends in the operation timeout fault, then closing the pool", "the pool is reported as not alive but is not closed, so close() talks to the dead shell", r"""
P = OpenedPool()
acts = []
def ans(r):
    acts.append(r.action)
    return C.fault(r, 0x80338029) if r.action == "Get" else C.ok(r)
P.h.answer = ans
o, v = outcome(P.pool.is_alive)
check((o, v) == ("ok", False), "%s %s" % (o, v))
outcome(P.pool.close)
check(acts == ["Get"], "requests: %s" % acts)
""")
seed("empty-stream", "C17", "shell.py", [('''            if s.text is None:
                continue

            stream_value''', '''            if s.text is None:
                break

            stream_value''')], "a reply with an empty stream element before one with data", "the data after the empty element is lost", r"""
h = Host()
def ans(r):
    if r.action == "Create": return C.created(r, "S")
    if r.action == "Command": return C.command_response(r, "CID")
    if r.action == "Receive":
        return C.receive_response(r, [("stdout", b""), ("stderr", b"bad"), ("stdout", b"good")], state="Done", cid="CID")
    return C.ok(r)
h.answer = ans
shell = WinRS(h.wsman()); shell.open()
p = Process(shell, "x"); p.invoke()
check((p.stdout, p.stderr) == (b"good", b"bad"), "%s %s" % (p.stdout, p.stderr))
""")
seed("copy-multiple", "C18", "client.py", [('''                    if offset == total_size:
                        result.append''', '''                    if len(data) < buffer_size:
                        result.append''')], "a file whose size is a multiple of the size of the blocks it is sent in", "the hash of the file is never sent", r"""
import tempfile
from pypsrp.client import Client
h = Host()
c = Client(h.name, ssl=False, auth="basic", username="u", password="p", encryption="never")
st = {}
def ans(r):
    if r.action == "Create":
        st["re"] = C.Reassembler(); st["in"] = []
        m = st["re"].feed(r.data)
        st["out"] = Out(m[0]["rpid"]); st["open"] = True
        return C.created(r, "S")
    if r.action == "Receive" and st.pop("open", None): return C.receive_response(r, [("stdout", b"".join(opening(st["out"])))])
    if r.action in ("Command", "Send"):
        for m in st["re"].feed(r.data):
            st["pid"] = m["pid"]
            if m["type"] == "PIPELINE_INPUT": st["in"].append(1)
        return C.command_response(r, "CID") if r.action == "Command" else C.ok(r)
    if r.action == "Receive": return C.receive_response(r, [("stdout", st["out"].msg("PIPELINE_OUTPUT", C.s_("C:\\x"), st["pid"]) + st["out"].msg("PIPELINE_STATE", C.ps_state(4), st["pid"]))], state="Done", cid="CID")
    return C.ok(r)
h.answer = ans
c.wsman.update_max_payload_size(512000)
size = int((c.wsman.max_payload_size - 82) / 4 * 3)
with tempfile.TemporaryDirectory() as d:
    for n in (size, 2 * size, size - 1, 0):
        p = os.path.join(d, "f")
        open(p, "wb").write(b"x" * n)
        o, v = outcome(c.copy, p, "x")
        check(o == "ok", "%s %s" % (o, v))
        check(len(st["in"]) == max(1, -(-n // size)) + 1, "%d bytes: %d strings" % (n, len(st["in"])))
""")
seed("escape-lookahead", "C21", "serializer.py", [('string_value = re.sub("(?i)_(x)", "_x005F_\\\\1", string_value)', 'string_value = re.sub("(?i)_(x)(?=[0-9a-f]{4}_)", "_x005F_\\\\1", string_value)')],
 "a string where _x and four hex digits are followed by a control character, so that the underscore of the control character's own escape completes them", "the server reads another string than the one given", r"""
from pypsrp.serializer import Serializer
s = Serializer()
def read(t):
    import re
    b = re.sub("(?i)_x([0-9a-f]{4})_", lambda m: chr(int(m.group(1), 16)), t)
    return b.encode("utf-16-be", "surrogatepass").decode("utf-16-be", "surrogatepass")
for v in ("_x0041_", "_x0041\x01", "a_x00e9\x1b[0m", "_X0041\x7f", "_x", "plain_"):
    t = s.serialize(v).text
    check(read(t) == v, "%r is read as %r" % (v, read(t)))
""")
seed("delete-twice", "C27", "shell.py", [('''        self.wsman.delete(self.resource_uri, selector_set=self._selector_set)
        self.id = None
        self.opened = False
''', '''        self.wsman.delete(self.resource_uri, selector_set=self._selector_set)
        self.id = None
        self.opened = self._selector_set is None
''')], "a shell whose create reply has no selectors, closed twice", "the shell still counts as open and is deleted again", r"""
h = Host()
acts = []
def ans(r):
    acts.append(r.action)
    if r.action == "Create": return C.ok(r, "<rsp:Shell><rsp:ShellId>S</rsp:ShellId></rsp:Shell>")
    return C.ok(r)
h.answer = ans
s = WinRS(h.wsman()); s.open(); s.close(); s.close()
check(acts == ["Create", "Delete"], str(acts))
""")
