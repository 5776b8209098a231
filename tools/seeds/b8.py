seed("object-id-high", "C08", "powershell.py", [('''        object_id = struct.unpack(">Q", data[0:8])[0]''', '''        object_id = struct.unpack(">I", data[4:8])[0]''')],
 "two messages in pieces at the same time whose object ids differ only above the low 32 bits", "their fragments are put together as one message", r"""
P = OpenedPool()
ps = PowerShell(P.pool); ps.add_script("x")
def ans(r):
    if r.action == "Command": return C.command_response(r, "CID")
    f = []
    for k, t in enumerate(("first", "second")):
        m = C.message("PIPELINE_OUTPUT", C.s_(t), P.pool.id, ps.id)
        f.append(C.fragments((k + 1) * 2**32 + 9, m, [20]))
    d = f[0][0] + f[1][0] + f[0][1] + f[1][1]
    return C.receive_response(r, [("stdout", d + P.out.msg("PIPELINE_STATE", C.ps_state(4), ps.id))])
P.h.answer = ans
o, v = outcome(ps.invoke)
check(o == "ok" and sorted(v) == ["first", "second"], "%s %s" % (o, v))
""")
seed("nested-answer-target", "C12", "powershell.py", [('''            pid = pipeline.id if pipeline is not None else None
            fragments''', '''            pid = pipeline.id if pipeline is not None and not pipeline.is_nested else None
            fragments''')],
 "a host call that a nested pipeline makes", "the answer does not say which pipeline it is for", r"""
from pypsrp.complex_objects import CultureInfo
from pypsrp.host import PSHost
a = CultureInfo(**dict(zip("lcid name display_name ietf_language_tag three_letter_iso_name three_letter_windows_name two_letter_iso_language_name".split(), (1033, "en-US", "English", "en-US", "eng", "ENU", "en"))))
P = OpenedPool(pool_kw=dict(host=PSHost(a, a, False, "h", None, None, "1.0")))
got, n = [], [0]
who = []
def ans(r):
    if r.action == "Command":
        n[0] += 1
        P.re.feed(r.data)
        return C.command_response(r, "CID%d" % n[0])
    if r.action == "Send":
        got.extend(m["pid"] for m in P.re.feed(r.data))
        return C.ok(r)
    return C.receive_response(r, [("stdout", P.out.msg("PIPELINE_HOST_CALL", C.host_call(1, 4, "GetCurrentCulture"), who[-1].id) + P.out.msg("PIPELINE_STATE", C.ps_state(4), who[-1].id))])
P.h.answer = ans
outer = PowerShell(P.pool); outer.add_script("x")
outer.begin_invoke()
inner = outer.create_nested_power_shell(); inner.add_script("y")
for q in (inner, outer):
    who.append(q)
    if q is inner: q.begin_invoke()
    q.end_invoke()
check([str(x).upper() for x in got] == [inner.id.upper(), outer.id.upper()], str(got))
""")
seed("secret-nul", "C11", "serializer.py", [('''        decrypted_string = to_unicode(unpadded_bytes, "utf-16-le")''', '''        decrypted_string = to_unicode(unpadded_bytes, "utf-16-le").rstrip("\\x00")''')],
 "a secure string that ends with a NUL character", "the caller gets another secret than the one that was sent", r"""
import base64
from cryptography.hazmat.primitives.asymmetric import rsa, padding
import struct
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
P = OpenedPool()
KEY = b"k" * 32
def session_key(pub):
    b = base64.b64decode(pub)
    e = struct.unpack("<I", b[16:20])[0]; n = int.from_bytes(b[20:276], "little")
    k = rsa.RSAPublicNumbers(e, n).public_key().encrypt(KEY, padding.PKCS1v15())
    return base64.b64encode(b"\x01\x02\x00\x00\x10f\x00\x00\x00\xa4\x00\x00" + k[::-1]).decode()
def secret(t):
    b = t.encode("utf-16-le")
    n = 16 - len(b) % 16
    e = Cipher(algorithms.AES(KEY), modes.CBC(b"\0" * 16)).encryptor()
    return base64.b64encode(e.update(b + bytes([n]) * n) + e.finalize()).decode()
TEXTS = ["plain", "ends\0", "\0", "\0in\0side", "8 chars!"]
keys = []
ps = PowerShell(P.pool); ps.add_script("x")
def ans(r):
    if r.action == "Command": P.re.feed(r.data); return C.command_response(r, "CID")
    if r.action == "Send":
        for m in P.re.feed(r.data):
            if m["type"] == "PUBLIC_KEY": keys.append(C.prim(C.ms(C.lx(m["xml"]), "PublicKey")))
        return C.ok(r)
    if not ps.state: return C.receive_response(r, [("stdout", P.out.msg("ENCRYPTED_SESSION_KEY", C.obj(C.s_(session_key(keys[0]), "EncryptedSessionKey"))))])
    return C.receive_response(r, [("stdout", b"".join(P.out.msg("PIPELINE_OUTPUT", "<SS>%s</SS>" % secret(t), ps.id) for t in TEXTS) + P.out.msg("PIPELINE_STATE", C.ps_state(4), ps.id))])
P.h.answer = ans
P.pool.exchange_keys()
o, v = outcome(ps.invoke)
check(o == "ok" and list(v) == TEXTS, "%s %r" % (o, v))
""")
seed("bare-deserialized", "C30", "serializer.py", [('''                if obj_type.startswith("Deserialized.System."):
''', '''                if obj_type.startswith("Deserialized.System.") and len(obj_types) > 1:
''')],
 "an object of a known class that names only its own type, with the prefix for copies", "it is read as an object of no known class", r"""
from pypsrp.complex_objects import Color
from pypsrp.serializer import Serializer
c = '<Obj RefId="0"><TN RefId="0">%s</TN><ToString>Red</ToString><I32>12</I32></Obj>'
for t in (["Deserialized.System.ConsoleColor"], ["Deserialized.System.ConsoleColor", "Deserialized.System.Enum"], ["System.ConsoleColor"]):
    o, v = outcome(Serializer().deserialize, c % "".join("<T>%s</T>" % x for x in t))
    check(o == "ok" and isinstance(v, Color) and v.value == 12, "%s %s %s" % (t, o, v))
""")
seed("derived-queue", "C22", "serializer.py", [('''        elif isinstance(value, Queue):''', '''        elif value_type == Queue:''')],
 "a value of a class that is derived from Queue", "it cannot be sent", r"""
import queue
from pypsrp.serializer import Serializer
class Mine(queue.Queue): pass
for cls in (queue.Queue, Mine, queue.LifoQueue):
    q = cls()
    for x in ("a", "b"): q.put(x)
    x = Serializer().serialize(q)
    check(len(x.findall("QUE/S")) == 2, cls.__name__)
""")
seed("object-id-wrap", "C07", "powershell.py", [('''        self.outgoing_counter += 1
        return fragments''', '''        self.outgoing_counter = self.outgoing_counter % 255 + 1
        return fragments''')],
 "a pool that sends more than 255 messages", "the ids of the messages start again, so a message shares its id with an earlier one", r"""
P = OpenedPool()
ids = []
def ans(r):
    if r.data: ids.extend(f[0] for f in C.parse_fragments(r.data))
    if r.action == "Command": return C.command_response(r, "CID")
    return C.ok(r)
P.h.answer = ans
ps = PowerShell(P.pool); ps.add_script("x")
outcome(ps.begin_invoke, ["v%d" % k for k in range(300)])
check(len(ids) > 300 and len(set(ids)) == len(ids), "%d ids, %d different" % (len(ids), len(set(ids))))
""")
seed("progress-trim", "C29", "powershell.py", [('''        self.streams.progress.append(typing.cast(ProgressRecord, message.data))''', '''        self.streams.progress.append(typing.cast(ProgressRecord, message.data))
        del self.streams.progress[:-50]''')],
 "a pipeline that reports progress more than 50 times", "the earlier records are gone", r"""
P = OpenedPool()
ps = PowerShell(P.pool); ps.add_script("x")
def ans(r):
    if r.action == "Command": return C.command_response(r, "CID")
    return C.receive_response(r, [("stdout", b"".join(P.out.msg("PROGRESS_RECORD", C.progress_record("a%d" % k, k % 100), ps.id) for k in range(80)) + P.out.msg("PIPELINE_STATE", C.ps_state(4), ps.id))])
P.h.answer = ans
ps.invoke()
check([x.activity for x in ps.streams.progress] == ["a%d" % k for k in range(80)], str(len(ps.streams.progress)))
""")
seed("events-trim", "C05", "powershell.py", [('''        self.user_events.append(user_event)''', '''        self.user_events.append(user_event)
        del self.user_events[:-100]''')],
 "a pool that gets more than 100 events", "the earlier events are gone", r"""
P = OpenedPool()
ps = PowerShell(P.pool); ps.add_script("x")
def ans(r):
    if r.action == "Command": return C.command_response(r, "CID")
    return C.receive_response(r, [("stdout", b"".join(P.out.msg("USER_EVENT", C.user_event(k)) for k in range(130)) + P.out.msg("PIPELINE_STATE", C.ps_state(4), ps.id))])
P.h.answer = ans
ps.invoke()
check([x.event_id for x in P.pool.user_events] == list(range(130)), str(len(P.pool.user_events)))
""")
