PSF = "powershell.py"
seed("empty-hash", "C19", "client.py", [("""if actual_hash != expected_hash:
                    raise WinRMError(
                        "Failed to fetch""", """if file_bytes and actual_hash != expected_hash:
                    raise WinRMError(
                        "Failed to fetch""")], "a transfer of which no data arrived, while the server reports the hash of a file that is not empty",
 "an empty file is stored at the destination instead of an error", r"""
import tempfile, base64, hashlib
from pypsrp.client import Client
h = Host()
c = Client(h.name, ssl=False, auth="basic", username="u", password="p", encryption="never")
st = {}
def ans(r):
    if r.action == "Create":
        st["re"] = C.Reassembler()
        m = st["re"].feed(r.data)
        st["out"] = Out(m[0]["rpid"]); st["open"] = True
        return C.created(r, "S")
    if r.action == "Receive" and st.pop("open", None): return C.receive_response(r, [("stdout", b"".join(opening(st["out"])))])
    if r.action in ("Command", "Send"):
        for m in st["re"].feed(r.data): st["pid"] = m["pid"]
        return C.command_response(r, "CID") if r.action == "Command" else C.ok(r)
    if r.action == "Receive":
        b = [base64.b64encode(x).decode() for x in st["blocks"]] + [st["hash"]]
        return C.receive_response(r, [("stdout", b"".join(st["out"].msg("PIPELINE_OUTPUT", C.s_(x), st["pid"]) for x in b) + st["out"].msg("PIPELINE_STATE", C.ps_state(4), st["pid"]))], state="Done", cid="CID")
    return C.ok(r)
h.answer = ans

with tempfile.TemporaryDirectory() as d:
    for blocks, real in (([b"abc"], b"abc"), ([], b""), ([], b"abc"), ([b"ab"], b"abc")):
        st["blocks"], st["hash"] = blocks, hashlib.sha1(real).hexdigest()
        o, v = outcome(c.fetch, "x", os.path.join(d, "f"))
        check(o == ("ok" if b"".join(blocks) == real else "err:WinRMError"), "%s %s" % (o, v))
""")
seed("no-proxy-http", "C31", "wsman.py", [('''                proxy_key: False,  # type: ignore''', '''                "https": False,  # type: ignore''')],
 "a connection without TLS, no_proxy=True and a proxy for http in the environment", "the requests go through the proxy of the environment", r"""
for v in list(os.environ):
    if v.lower() in ("http_proxy", "https_proxy", "all_proxy", "no_proxy"): del os.environ[v]
os.environ["http_proxy"] = os.environ["https_proxy"] = "http://proxy.test:3128"
h = Host(lambda r: C.ok(r))
seen, real = [], HANDLERS[h.name]
def handle(request, timeout):
    seen.append(requests.utils.select_proxy(request.url, request.sent_with["proxies"]))
    return real(request, timeout)
HANDLERS[h.name] = handle
for ssl in (True, False):
    h.wsman(ssl=ssl, no_proxy=True).get("urn:r", None)
    check(not seen[-1], "proxy %s with ssl=%s" % (seen[-1], ssl))
""")
seed("jagged-array", "C30", "serializer.py", [('''                    obj_type = obj_type[0:-2]
''', '''                    obj_type = obj_type.rstrip("[]")
''')], "an array of arrays of a known class or enumeration", "the inner arrays are read as single (empty) values of that class, or fail", r"""
from pypsrp.complex_objects import Color
from pypsrp.serializer import Serializer
c = '<Obj RefId="%d"><TN RefId="%d"><T>System.ConsoleColor</T><T>System.Enum</T></TN><ToString>Red</ToString><I32>12</I32></Obj>'
inner = '<Obj RefId="%d"><TN RefId="%d"><T>System.ConsoleColor[]</T><T>System.Array</T><T>System.Object</T></TN><LST>%s</LST></Obj>'
outer = inner.replace("Color[]", "Color[][]") % (0, 0, "%s")
o, v = outcome(Serializer().deserialize, outer % (inner % (1, 1, c % (2, 2)) + inner % (3, 3, "")))
check(o == "ok" and len(v) == 2 and isinstance(v[0], list) and isinstance(v[0][0], Color) and v[0][0].value == 12 and v[1] == [], "%s %s" % (o, v))
""")
seed("flags-or", "C28", "complex_objects.py", [('''            ("Configuration", 0x0100),
        )
        values = []
        for name, flag in string_map:
            if (self.value or 0) & flag == flag:
                values.append(name)
        return ", ".join(values)
''', '''            ("Configuration", 0x0100),
        )
        values = []
        for name, flag in string_map:
            if (self.value or 0) & 0xFF & flag == flag:
                values.append(name)
        return ", ".join(values)
''')], "command types that include Configuration without being All", "the text of the types lacks Configuration", r"""
from pypsrp.complex_objects import CommandType
for v, t in ((8, "Cmdlet"), (0x1FF, "All"), (0x108, "Cmdlet, Configuration"), (0x100, "Configuration")):
    check(str(CommandType(value=v)._to_string) == t, CommandType(value=v)._to_string)
""")
seed("empty-text", "C22", "serializer.py", [("""        if value.to_string is not None:
""", """        if value.to_string:
""")], "an object whose text is empty", "it is sent without a text", r"""
import xml.etree.ElementTree as ET
from pypsrp.complex_objects import GenericComplexObject
from pypsrp.serializer import Serializer
for t in ("a", "", None):
    o = GenericComplexObject()
    o.to_string, o.types = t, ["T", "System.Object"]
    x = Serializer().serialize(o)
    e = x.find("ToString")
    check((e is None) == (t is None), "%r written as %s" % (t, ET.tostring(x)))
""")
