seed("timeout-in-text", "C17", "shell.py", [('''            if exc.code == 2150858793:
                pass''', '''            if exc.code == 2150858793 or "timed out" in str(exc.reason):
                pass''')], "a receive of a process fails for another reason whose text speaks of a timeout",
 "the failure is taken for no output yet, so the process is asked again and again instead of the error reaching the caller", r"""
h = Host()
ws = h.wsman()
sh = WinRS(ws)
h.answer = lambda r: C.created(r, "S")
sh.open()
p = Process(sh, "x")
st = {"n": 0}
def ans(r):
    if r.action == "Command": return C.command_response(r, "CID")
    st["n"] += 1
    if st["n"] == 1: return C.fault(r, C.OP_TIMEOUT, reason="The operation timed out.")
    if st["n"] == 2: return C.fault(r, 2150858812, reason="The connection to the provider timed out and was lost.")
    return C.receive_response(r, [("stdout", b"x")], state="Done", rc=0)
h.answer = ans
o, v = outcome(p.invoke)
check(o == "err:WSManFaultError" and v.code == 2150858812 and st["n"] == 2, "%s after %d receives" % (o, st["n"]))
""")
seed("falsy-option", "C26", "wsman.py", [('''Name=key, attrib=attributes).text = str(
                value
            )''', '''Name=key, attrib=attributes).text = str(
                value or ""
            )''')], "an option or selector whose value is False or 0", "the request carries an empty value instead", r"""
import xml.etree.ElementTree as ET
seen = []
h = Host(lambda r: seen.append(r) or C.ok(r))
ws = h.wsman()
for v in ("a", True, 12, False, 0):
    o, s = pypsrp.wsman.OptionSet(), pypsrp.wsman.SelectorSet()
    o.add_option("N", v); s.add_option("K", v)
    ws.get("urn:r", None, option_set=o, selector_set=s)
    r = seen[-1]
    got = [x.text for t in ("OptionSet", "SelectorSet") for x in r.header.find(C.q(C.WSMAN, t))]
    check(got == [str(v)] * 2, "%r is sent as %s" % (v, got))
""")
seed("error-charset", "C15", "wsman.py", [('''            response_text = response.text if response_content else ""''', '''            response_text = to_string(response_content) if response_content else ""''')],
 "an error reply (WSMan faults included) in another encoding than UTF-8, which its content type names", "the fault is not recognised: a transport error with a garbled text is raised", r"""
h = Host()
ws = h.wsman()
for cs in ("utf-8", "utf-16"):
    h.answer = lambda r: (500, {"Content-Type": "application/soap+xml;charset=" + cs}, C.fault(r, 5, reason="d\u00e9ni\u00e9")[2].decode().encode(cs))
    o, v = outcome(ws.get, "urn:r", None)
    check(o == "err:WSManFaultError" and v.code == 5 and v.reason == "d\u00e9ni\u00e9", "%s: %s" % (cs, o))
h.answer = lambda r: (503, {"Content-Type": "text/plain;charset=iso-8859-1"}, "ferm\u00e9".encode("latin-1"))
o, v = outcome(ws.get, "urn:r", None)
check(o == "err:WinRMTransportError" and v.response_text == "ferm\u00e9", "%s %r" % (o, getattr(v, "response_text", v)))
""")
