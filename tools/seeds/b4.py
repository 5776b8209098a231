PSF = "powershell.py"
seed("two-digit-version", "C10", PSF, [('''if version_equal_or_newer(msg.protocol_version or "", "2.2") and self''', '''if (msg.protocol_version or "") >= "2.2" and self''')],
 "a server with a protocol version whose minor number has two digits", "2.10 counts as older than 2.2, so the larger envelope size is not used", r"""
for v, size in (("2.1", 153600), ("2.2", 512000), ("2.10", 512000)):
    P = OpenedPool(proto=v)
    check(P.ws.max_envelope_size == size, "%s: %d" % (v, P.ws.max_envelope_size))
""")
seed("disconnect-timeout", "C26", "wsman.py", [('''self.invoke(WSManAction.DISCONNECT, resource_uri, resource, option_set, selector_set, timeout)''', '''self.invoke(WSManAction.DISCONNECT, resource_uri, resource, option_set, selector_set)''')],
 "a disconnect request with a timeout of its own", "the timeout of the connection is used", r"""
import xml.etree.ElementTree as ET
h = Host()
seen = []
def ans(r):
    seen.append((r.optimeout, r.timeout))
    return C.ok(r)
h.answer = ans
h.wsman().disconnect("u", ET.Element("{urn:x}x"), timeout=7)
check(seen == [("PT7S", 9)], str(seen))
""")
seed("exit-on-success", "C25", "shell.py", [('''        traceback: typing.Optional[types.TracebackType],
    ) -> None:
        self.close()
''', '''        traceback: typing.Optional[types.TracebackType],
    ) -> None:
        if exc_type is None or not issubclass(exc_type, OSError):
            self.close()
''')], "a connection error while a command runs", "the shell is left behind", r"""
from pypsrp.client import Client
h = Host()
c = Client(h.name, ssl=False, auth="basic", username="u", password="p", encryption="never")
acts = []
def ans(r):
    acts.append(r.action)
    if r.action == "Create": return C.created(r, "S")
    if r.action == "Command": return C.command_response(r, "CID")
    if r.action == "Receive": return requests.ConnectionError("reset")
    return C.ok(r)
h.answer = ans
o, v = outcome(c.execute_cmd, "x")
check(o == "err:ConnectionError", o)
check(acts[-1] == "Delete", str(acts))
""")
