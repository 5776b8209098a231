PSF = "powershell.py"
seed("defrag-clear", "C08", PSF, [('''                fragments.append(incoming_buffer["data"] + frag.data)
                del self.incoming_buffer[frag.object_id]
''', '''                fragments.append(incoming_buffer["data"] + frag.data)
                self.incoming_buffer.clear()
''')], "two messages of several fragments whose fragments interleave", "finishing one message forgets the fragments of the other one, whose next fragment is then reported as out of order", r'''
P = OpenedPool()
ps = PowerShell(P.pool); ps.add_script("x")
n = [0]
def ans(r):
    if r.action == "Command": return C.command_response(r, "CID")
    a = P.out.frags("PIPELINE_OUTPUT", C.s_("first"), ps.id, [20, 50])
    b = P.out.frags("PIPELINE_OUTPUT", C.s_("second"), ps.id, [30])
    check(len(a) == 3 and len(b) == 2, "fragments")
    e = P.out.msg("PIPELINE_STATE", C.ps_state(4), ps.id)
    return C.receive_response(r, [("stdout", a[0] + b[0] + a[1] + b[1]), ("stdout", a[2] + e)], state="Done", cid="CID")
P.h.answer = ans
o, v = outcome(ps.invoke)
check(o == "ok" and v == ["second", "first"], "%s %s" % (o, v))
''')
seed("private-data-once", "C05", PSF, [('''        self._application_private_data = typing.cast(ApplicationPrivateData, message.data)
''', '''        if self._application_private_data is None:
            self._application_private_data = typing.cast(ApplicationPrivateData, message.data)
''')], "a second application private data message in the life of a pool", "the pool keeps showing the first data", r'''
P = OpenedPool(app=[("v", "one")])
ps = PowerShell(P.pool); ps.add_script("x")
def ans(r):
    if r.action == "Command": return C.command_response(r, "CID")
    return C.receive_response(r, [("stdout", P.out.msg("APPLICATION_PRIVATE_DATA", C.app_private([("v", "two")])) + P.out.msg("PIPELINE_STATE", C.ps_state(4), ps.id))], state="Done", cid="CID")
P.h.answer = ans
check(P.pool.application_private_data.data["v"] == "one", "first")
ps.invoke()
check(P.pool.application_private_data.data["v"] == "two", "second")
''')
seed("second-key", "C11", PSF, [('''        if self._key_exchanged or self._exchange_key is not None:''', '''        if self._key_exchanged:''')],
 "the server asks for the public key while the client's own exchange is waiting for the session key", "a second key replaces the first one; two public keys are sent", r'''
from cryptography.hazmat.primitives.asymmetric import rsa, padding
import base64, struct
P = OpenedPool()
keys = []
def session_key(pub):
    b = base64.b64decode(pub)
    e = struct.unpack("<I", b[16:20])[0]; n = int.from_bytes(b[20:276], "little")
    k = rsa.RSAPublicNumbers(e, n).public_key().encrypt(b"k" * 32, padding.PKCS1v15())
    return base64.b64encode(b"\x01\x02\x00\x00\x10f\x00\x00\x00\xa4\x00\x00" + k[::-1]).decode()
rec = [0]
def ans(r):
    if r.action == "Send":
        for m in C.Reassembler().feed(r.data):
            if m["type"] == "PUBLIC_KEY": keys.append(C.prim(C.ms(C.lx(m["xml"]), "PublicKey")))
        return C.ok(r)
    rec[0] += 1
    if rec[0] == 1: return C.receive_response(r, [("stdout", P.out.msg("PUBLIC_KEY_REQUEST", C.s_("")))])
    return C.receive_response(r, [("stdout", P.out.msg("ENCRYPTED_SESSION_KEY", C.obj(C.s_(session_key(keys[0]), "EncryptedSessionKey"))))])
P.h.answer = ans
P.h.limit = 50
try: o, v = outcome(P.pool.exchange_keys)
except Runaway as e: o, v = "runaway", e
check(o == "ok" and len(keys) == 1, "%s %s, %d keys" % (o, v, len(keys)))
''')
seed("close-disconnected", "C01", PSF, [('''        if self.state in [RunspacePoolState.CLOSED, RunspacePoolState.CLOSING, RunspacePoolState.BROKEN]:
            return
''', '''        if self.state in [
            RunspacePoolState.CLOSED,
            RunspacePoolState.CLOSING,
            RunspacePoolState.BROKEN,
            RunspacePoolState.DISCONNECTED,
        ]:
            return
''')], "closing a pool that was disconnected", "the remote shell is never deleted", r'''
P = OpenedPool()
acts = []
def ans(r):
    acts.append(r.action)
    return C.ok(r)
P.h.answer = ans
P.pool.disconnect()
P.pool.close()
check(acts == ["Disconnect", "Delete"], str(acts))
''')
seed("terminate-id", "C03", PSF, [('''        self.runspace_pool.shell.signal(SignalCode.TERMINATE, command_id=self._command_id or self.id)''', '''        self.runspace_pool.shell.signal(SignalCode.TERMINATE, command_id=self.id)''')],
 "closing a finished pipeline when the server assigned its own command id", "the terminate signal names a command the server does not know", r'''
P = OpenedPool()
ps = PowerShell(P.pool); ps.add_script("x")
sig = []
def ans(r):
    if r.action == "Command": return C.command_response(r, "11111111-2222-3333-4444-555555555555")
    if r.action == "Signal":
        sig.append(r.cmd)
        return C.ok(r)
    return C.receive_response(r, [("stdout", P.out.msg("PIPELINE_STATE", C.ps_state(4), ps.id))], state="Done", cid="X")
P.h.answer = ans
ps.invoke()
ps.close()
check(sig == ["11111111-2222-3333-4444-555555555555"], str(sig))
''')
seed("null-output", "C04", PSF, [('''            if response[0] == MessageType.PIPELINE_OUTPUT:
                self.output.append(response[1].data.data)
''', '''            if response[0] == MessageType.PIPELINE_OUTPUT and response[1].data.data is not None:
                self.output.append(response[1].data.data)
''')], "a pipeline that outputs $null", "null outputs are dropped", r'''
P = OpenedPool()
ps = PowerShell(P.pool); ps.add_script("x")
def ans(r):
    if r.action == "Command": return C.command_response(r, "CID")
    return C.receive_response(r, [("stdout", P.out.msg("PIPELINE_OUTPUT", C.nil(), ps.id) + P.out.msg("PIPELINE_OUTPUT", C.i32(1), ps.id) + P.out.msg("PIPELINE_STATE", C.ps_state(4), ps.id))], state="Done", cid="CID")
P.h.answer = ans
check(ps.invoke() == [None, 1], str(ps.output))
''')
seed("stop-state", "C02", PSF, [('''        self.state = PSInvocationState.STOPPED
        self.runspace_pool.pipelines.pop(self.id, None)

    def _invoke(''', '''        self.state = PSInvocationState.STOPPED
        self.runspace_pool.pipelines.pop(self._command_id or self.id, None)

    def _invoke(''')], "stopping a pipeline whose command id differs from its own id, then disconnecting the pool and looking at its pipelines", "the stopped pipeline stays registered in the pool", r'''
P = OpenedPool()
ps = PowerShell(P.pool); ps.add_script("x")
P.h.answer = lambda r: C.command_response(r, "11111111-2222-3333-4444-555555555555") if r.action == "Command" else C.ok(r)
ps.begin_invoke()
ps.stop()
check(list(P.pool.pipelines.values()) == [], "still registered: %s" % P.pool.pipelines)
''')
seed("params-sorted", "C20", PSF, [('''        for parameter_name, value in parameters.items():
            self.add_parameter(parameter_name, value)
''', '''        for parameter_name, value in sorted(parameters.items()):
            self.add_parameter(parameter_name, value)
''')], "several parameters added at once in an order that is not alphabetical", "the parameters are sent in another order than they were given", r'''
P = OpenedPool()
ps = PowerShell(P.pool); ps.add_cmdlet("c").add_parameters({"Zeta": 1, "Alpha": 2})
got = []
def ans(r):
    x = C.lx(C.Reassembler().feed(r.data)[0]["xml"])
    got.extend(C.prim(C.ms(a, "N")) for a in x.iter("Obj") if C.ms(a, "N") is not None)
    return C.command_response(r, "CID")
P.h.answer = ans
ps.begin_invoke()
check(got == ["Zeta", "Alpha"], str(got))
''')
seed("eoi-batch", "C09", PSF, [('''                if not isinstance(next_input, list):
                    next_input = [next_input]
''', '''                if not isinstance(next_input, list):
                    next_input = [next_input]
                elif len(next_input) == 0:
                    break
''')], "a generator of batches with an empty batch before the end", "the rest of the input and the end of the input are never sent", r'''
P = OpenedPool()
ps = PowerShell(P.pool); ps.add_script("x")
msgs, re = [], C.Reassembler()
def ans(r):
    msgs.extend(m["type"] for m in re.feed(r.data))
    return C.command_response(r, "CID") if r.action == "Command" else C.ok(r)
P.h.answer = ans
def gen():
    yield ["a", "b"]
    yield []
    yield ["c"]
ps.begin_invoke(gen())
check(msgs == ["CREATE_PIPELINE"] + ["PIPELINE_INPUT"] * 3 + ["END_OF_PIPELINE_INPUT"], str(msgs))
''')
