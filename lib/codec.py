"""Independent codec for SOAP/WSMan, PSRP fragments/messages and CLIXML (no code of pypsrp is used)."""
import itertools, base64, re, struct, uuid
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape as xesc

S = "http://www.w3.org/2003/05/soap-envelope"
WSA = "http://schemas.xmlsoap.org/ws/2004/08/addressing"
WSMAN = "http://schemas.dmtf.org/wbem/wsman/1/wsman.xsd"
WSMV = "http://schemas.microsoft.com/wbem/wsman/1/wsman.xsd"
RSP = "http://schemas.microsoft.com/wbem/wsman/1/windows/shell"
WSEN = "http://schemas.xmlsoap.org/ws/2004/09/enumeration"
WST = "http://schemas.xmlsoap.org/ws/2004/09/transfer"
PWSH = "http://schemas.microsoft.com/powershell"
CFG = "http://schemas.microsoft.com/wbem/wsman/1/config"
WSF = "http://schemas.microsoft.com/wbem/wsman/1/wsmanfault"

ACTIONS = {
    "http://schemas.xmlsoap.org/ws/2004/09/transfer/Get": "Get",
    "http://schemas.xmlsoap.org/ws/2004/09/transfer/Put": "Put",
    "http://schemas.xmlsoap.org/ws/2004/09/transfer/Create": "Create",
    "http://schemas.xmlsoap.org/ws/2004/09/transfer/Delete": "Delete",
    "http://schemas.xmlsoap.org/ws/2004/09/enumeration/Enumerate": "Enumerate",
    "http://schemas.xmlsoap.org/ws/2004/09/enumeration/Pull": "Pull",
}
for _a in ("Command", "Connect", "Disconnect", "Receive", "Reconnect", "Send", "Signal"):
    ACTIONS["http://schemas.microsoft.com/wbem/wsman/1/windows/shell/" + _a] = _a
PSURI = "http://schemas.microsoft.com/powershell/Microsoft.PowerShell"
CMDURI = "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/cmd"


def q(ns, t):
    return "{%s}%s" % (ns, t)


class Req:
    """A parsed WSMan request as the server sees it."""
    def __init__(self, raw, timeout=None, headers=None):
        self.raw, self.timeout, self.headers = raw, timeout, headers
        self.size = len(raw)
        env = ET.fromstring(raw)
        h = env.find(q(S, "Header"))
        self.header = h
        self.body = env.find(q(S, "Body"))
        def t(ns, n):
            e = h.find(q(ns, n))
            return e.text if e is not None else None
        self.action = ACTIONS.get(t(WSA, "Action"), t(WSA, "Action"))
        self.uri = t(WSMAN, "ResourceURI")
        self.msgid = t(WSA, "MessageID")
        self.session = t(WSMV, "SessionId")
        self.envsize = int(t(WSMAN, "MaxEnvelopeSize"))
        self.optimeout = t(WSMAN, "OperationTimeout")
        self.to = t(WSA, "To")
        ss = h.find(q(WSMAN, "SelectorSet"))
        self.selectors = None if ss is None else {x.attrib["Name"]: x.text for x in ss}
        os_ = h.find(q(WSMAN, "OptionSet"))
        self.options = [] if os_ is None else [(x.attrib["Name"], x.text) for x in os_]
        self.resource = self.body[0] if len(self.body) else None
        self.cmd = None
        self.stream = None
        self.data = None  # PSRP / stdin bytes
        r = self.resource
        if r is not None:
            tag = r.tag.split("}")[1]
            if tag in ("CommandLine", "Signal", "Connect"):
                self.cmd = r.attrib.get("CommandId")
            elif tag == "Send":
                st = r.find(q(RSP, "Stream"))
                self.cmd, self.stream = st.attrib.get("CommandId"), st.attrib.get("Name")
                self.end = st.attrib.get("End")
                self.data = base64.b64decode(st.text or "")
                self.nstreams = len(r.findall(q(RSP, "Stream")))
            elif tag == "Receive":
                st = r.find(q(RSP, "DesiredStream"))
                self.cmd, self.stream = st.attrib.get("CommandId"), st.text
            if tag == "CommandLine":
                args = r.findall(q(RSP, "Arguments"))
                self.args = [a.text for a in args]
                self.command = r.find(q(RSP, "Command")).text
                if self.uri != CMDURI:
                    self.data = base64.b64decode(args[0].text) if args and args[0].text else b""
            elif tag == "Shell":
                c = r.find(q(PWSH, "creationXml"))
                self.shellid = r.attrib.get("ShellId")
                if c is not None:
                    self.data = base64.b64decode(c.text or "")
            elif tag == "Connect":
                c = r.find(q(PWSH, "connectXml"))
                if c is not None:
                    self.data = base64.b64decode(c.text or "")
            elif tag == "Signal":
                self.code = r.find(q(RSP, "Code")).text


def envelope(relates, body, action="urn:response"):
    return ('<s:Envelope xmlns:s="%s" xmlns:a="%s" xmlns:w="%s" xmlns:rsp="%s" xmlns:p="%s" xmlns:x="%s" xmlns:n="%s">'
            '<s:Header><a:Action>%s</a:Action><a:MessageID>uuid:%s</a:MessageID><a:To>http://schemas.xmlsoap.org/ws/2004/08/addressing/role/anonymous</a:To>'
            '%s</s:Header><s:Body>%s</s:Body></s:Envelope>'
            % (S, WSA, WSMAN, RSP, WSMV, WST, WSEN, action, str(uuid.uuid4()).upper(),
               "" if relates is None else "<a:RelatesTo>%s</a:RelatesTo>" % relates, body)).encode("utf-8")


HDR = {"Content-Type": "application/soap+xml;charset=UTF-8"}


def ok(req, body="", relates=...):
    return 200, HDR, envelope(req.msgid if relates is ... else relates, body)


def fault_body(code=2150858843, reason="The request failed.", machine="host", subcode="w:InvalidSelectors", provider=""):
    if code is None:   # without the details of WSMan
        return ('<s:Fault><s:Code><s:Value>s:Sender</s:Value><s:Subcode><s:Value>%s</s:Value></s:Subcode></s:Code><s:Reason><s:Text xml:lang="en-US">%s</s:Text></s:Reason><s:Detail/></s:Fault>' % (subcode, reason))
    return ('<s:Fault><s:Code><s:Value>s:Sender</s:Value><s:Subcode><s:Value>%s</s:Value></s:Subcode></s:Code>'
            '<s:Reason><s:Text xml:lang="en-US">%s</s:Text></s:Reason><s:Detail>'
            '<f:WSManFault xmlns:f="%s" Code="%s" Machine="%s"><f:Message>%s%s</f:Message></f:WSManFault></s:Detail></s:Fault>'
            % (subcode, reason, WSF, code, machine, reason, provider))


# faults that are not the operation timeout nor say that the shell is gone
OTHER_CODES = [None, 5, 2150858792, 2150858794, 0x80338000, 995, 0x803381A6, 2150859046, 41, 0x803381AC, 0x8033805A, 0x8033805C, 0x8033809D, 0x80070005, 0x80338012, 0x803381FA]
ANY_CODES = itertools.cycle([2150858843] + OTHER_CODES)


REASONS = itertools.cycle(["The request failed.", "A timeout expired; the operation timed out.", "Access is denied.", "The WinRM client cannot complete the operation within the time specified in OperationTimeout.", "The shell was not found; it is closed."])


def fault(req, code=0, **kw):
    """code 0: one after the other of the codes above"""
    if code == 0: code = next(ANY_CODES)
    kw.setdefault("reason", next(REASONS))
    return 500, HDR, envelope(req.msgid, fault_body(code, **kw))


OP_TIMEOUT = 2150858793


def created(req, shell_id, uri=None, selectors=None, extra=""):
    sel = selectors or {"ShellId": shell_id}
    return ok(req, '<x:ResourceCreated><a:Address>http://h/wsman</a:Address><a:ReferenceParameters><w:ResourceURI>%s</w:ResourceURI>'
              '<w:SelectorSet>%s</w:SelectorSet></a:ReferenceParameters></x:ResourceCreated>'
              '<rsp:Shell><rsp:ShellId>%s</rsp:ShellId><rsp:ResourceUri>%s</rsp:ResourceUri><rsp:Owner>o</rsp:Owner>'
              '<rsp:ClientIP>1.1.1.1</rsp:ClientIP><rsp:IdleTimeOut>PT7200.000S</rsp:IdleTimeOut><rsp:InputStreams>stdin pr</rsp:InputStreams>'
              '<rsp:OutputStreams>stdout</rsp:OutputStreams>%s</rsp:Shell>'
              % (uri or req.uri, "".join('<w:Selector Name="%s">%s</w:Selector>' % kv for kv in sel.items()), shell_id, uri or req.uri, extra))


def command_response(req, cid):
    return ok(req, "<rsp:CommandResponse>%s</rsp:CommandResponse>" % ("" if cid is None else "<rsp:CommandId>%s</rsp:CommandId>" % cid))


def receive_response(req, chunks=(), state=None, rc=None, cid=None):
    """chunks: (stream name, bytes or None) or (stream name, bytes or None, whether it is marked as the stream's last)"""
    a = "" if cid is None else ' CommandId="%s"' % cid
    b = "".join('<rsp:Stream Name="%s"%s%s>%s</rsp:Stream>' % (c[0], a, ' End="true"' if c[2:] == (True,) else "", "" if c[1] is None else base64.b64encode(c[1]).decode()) for c in chunks)
    if state is not None:
        b += '<rsp:CommandState%s State="%s/CommandState/%s">%s</rsp:CommandState>' % (
            a, RSP, state, "" if rc is None else "<rsp:ExitCode>%s</rsp:ExitCode>" % rc)
    return ok(req, "<rsp:ReceiveResponse>%s</rsp:ReceiveResponse>" % b)


def connect_response(req, data=None):
    return ok(req, "<rsp:ConnectResponse>%s</rsp:ConnectResponse>" % (
        "" if data is None else '<pw:connectResponseXml xmlns:pw="%s">%s</pw:connectResponseXml>' % (PWSH, base64.b64encode(data).decode())))


# ---------------------------------------------------------------- PSRP
MT = dict(SESSION_CAPABILITY=0x00010002, INIT_RUNSPACEPOOL=0x00010004, PUBLIC_KEY=0x00010005, ENCRYPTED_SESSION_KEY=0x00010006,
          PUBLIC_KEY_REQUEST=0x00010007, CONNECT_RUNSPACEPOOL=0x00010008, RUNSPACEPOOL_INIT_DATA=0x0002100B, RESET_RUNSPACE_STATE=0x0002100C,
          SET_MAX_RUNSPACES=0x00021002, SET_MIN_RUNSPACES=0x00021003, RUNSPACE_AVAILABILITY=0x00021004, RUNSPACEPOOL_STATE=0x00021005,
          CREATE_PIPELINE=0x00021006, GET_AVAILABLE_RUNSPACES=0x00021007, USER_EVENT=0x00021008, APPLICATION_PRIVATE_DATA=0x00021009,
          GET_COMMAND_METADATA=0x0002100A, RUNSPACEPOOL_HOST_CALL=0x00021100, RUNSPACEPOOL_HOST_RESPONSE=0x00021101,
          PIPELINE_INPUT=0x00041002, END_OF_PIPELINE_INPUT=0x00041003, PIPELINE_OUTPUT=0x00041004, ERROR_RECORD=0x00041005,
          PIPELINE_STATE=0x00041006, DEBUG_RECORD=0x00041007, VERBOSE_RECORD=0x00041008, WARNING_RECORD=0x00041009,
          PROGRESS_RECORD=0x00041010, INFORMATION_RECORD=0x00041011, PIPELINE_HOST_CALL=0x00041100, PIPELINE_HOST_RESPONSE=0x00041101)
MTN = {v: k for k, v in MT.items()}
NIL = "00000000-0000-0000-0000-000000000000"


def message(mtype, xml, rpid=NIL, pid=NIL, dest=1, bom=False):
    t = MT[mtype] if isinstance(mtype, str) else mtype
    d = xml if isinstance(xml, bytes) else xml.encode("utf-8", "surrogatepass")
    return struct.pack("<II", dest, t) + uuid.UUID(rpid).bytes_le + uuid.UUID(pid).bytes_le + (b"\xef\xbb\xbf" if bom else b"") + d


def fragment(oid, fid, start, end, data):
    return struct.pack(">QQBI", oid, fid, (1 if start else 0) | (2 if end else 0), len(data)) + data


def fragments(oid, msg, cuts=()):
    """Split msg at the given offsets."""
    pts = [0] + sorted(c for c in set(cuts) if 0 < c < len(msg)) + [len(msg)]
    n = len(pts) - 1
    return [fragment(oid, i, i == 0, i == n - 1, msg[pts[i]:pts[i + 1]]) for i in range(n)]


def parse_fragments(buf):
    """Strictly parse concatenated fragments -> [(oid, fid, start, end, data)]; raises ValueError."""
    out = []
    while buf:
        if len(buf) < 21:
            raise ValueError("short fragment header")
        oid, fid, fl, ln = struct.unpack(">QQBI", buf[:21])
        if len(buf) < 21 + ln:
            raise ValueError("truncated fragment")
        out.append((oid, fid, bool(fl & 1), bool(fl & 2), buf[21:21 + ln]))
        buf = buf[21 + ln:]
    return out


def parse_message(m):
    dest, t = struct.unpack("<II", m[:8])
    rp, pid = str(uuid.UUID(bytes_le=m[8:24])), str(uuid.UUID(bytes_le=m[24:40]))
    d = m[40:]
    if d.startswith(b"\xef\xbb\xbf"):
        d = d[3:]
    return dict(dest=dest, type=MTN.get(t, hex(t)), rpid=rp, pid=pid, xml=d)


class Reassembler:
    """The server's strict view of one fragment stream of the client."""
    def __init__(self):
        self.cur = {}
        self.problems = []
        self.oids = []

    def feed(self, buf):
        done = []
        try:
            fr = parse_fragments(buf)
        except ValueError as e:
            self.problems.append(str(e))
            return done
        for oid, fid, st, en, d in fr:
            if st != (oid not in self.cur):
                self.problems.append("bad start mark on %d/%d" % (oid, fid))
            if st:
                self.cur[oid] = [0, b""]
                self.oids.append(oid)
            c = self.cur.setdefault(oid, [0, b""])
            if fid != c[0]:
                self.problems.append("fragment %d/%d where %d expected" % (oid, fid, c[0]))
            c[0] += 1
            c[1] += d
            if en:
                del self.cur[oid]
                if len(c[1]) < 40:
                    self.problems.append("message shorter than its header")
                else:
                    m = parse_message(c[1])
                    m["oid"] = oid
                    done.append(m)
        return done


# ---------------------------------------------------------------- CLIXML (building)
def nattr(n):
    return "" if n is None else ' N="%s"' % n


def esc_clixml(s):
    """Encode a Python string the way [MS-PSRP] 2.2.5.3.2 says (UTF-16 code units)."""
    out = []
    u = s.encode("utf-16-be", "surrogatepass")
    units = [u[i] << 8 | u[i + 1] for i in range(0, len(u), 2)]
    for i, c in enumerate(units):
        if c == 0x5F and i + 1 < len(units) and units[i + 1] in (0x78, 0x58):
            out.append("_x005F_")
        elif c < 0x20 or 0x7F <= c <= 0x9F or 0xD800 <= c <= 0xDFFF or c >= 0xFFFE:
            out.append("_x%04X_" % c)
        else:
            out.append(chr(c))
    return xesc("".join(out))


def s_(v, n=None): return "<S%s>%s</S>" % (nattr(n), esc_clixml(v))
def i32(v, n=None): return "<I32%s>%d</I32>" % (nattr(n), v)
def i64(v, n=None): return "<I64%s>%d</I64>" % (nattr(n), v)
def b_(v, n=None): return "<B%s>%s</B>" % (nattr(n), "true" if v else "false")
def nil(n=None): return "<Nil%s/>" % nattr(n)
def ver(v, n=None): return "<Version%s>%s</Version>" % (nattr(n), v)
def guid(v, n=None): return "<G%s>%s</G>" % (nattr(n), v)
def dt(v="2020-01-01T00:00:00.0000000Z", n=None): return "<DT%s>%s</DT>" % (nattr(n), v)


def obj(ms="", n=None, tn=None, ts=None, props="", ref=0, inner=""):
    t = ""
    if tn:
        t = '<TN RefId="%d">%s</TN>' % (ref, "".join("<T>%s</T>" % x for x in tn))
    return '<Obj%s RefId="%d">%s%s%s%s%s</Obj>' % (
        nattr(n), ref, t, inner, "" if ts is None else "<ToString>%s</ToString>" % esc_clixml(ts),
        "<Props>%s</Props>" % props if props else "", "<MS>%s</MS>" % ms if ms else "")


class Ids:
    def __init__(self): self.n = -1
    def __call__(self):
        self.n += 1
        return self.n


def session_capability(proto="2.3", psver="2.0", server="1.1.0.1"):
    return obj(ver(proto, "protocolversion") + ver(psver, "PSVersion") + ver(server, "SerializationVersion"))


def rp_state(st, err=None):
    return obj(i32(st, "RunspaceState") + (err or ""))


def ps_state(st, err=None):
    return obj(i32(st, "PipelineState") + (err or ""))


def init_data(mn, mx):
    return obj(i32(mn, "MinRunspaces") + i32(mx, "MaxRunspaces"))


def app_private(pairs=()):
    d = "".join("<En>%s%s</En>" % (s_(k, "Key"), s_(v, "Value")) for k, v in pairs)
    return obj('<Obj N="ApplicationPrivateData" RefId="1"><TN RefId="0"><T>System.Management.Automation.PSPrimitiveDictionary</T>'
               '<T>System.Collections.Hashtable</T><T>System.Object</T></TN><DCT>%s</DCT></Obj>' % d)


def availability(ci, value):
    v = b_(value, "SetMinMaxRunspacesResponse") if isinstance(value, bool) else i64(value, "SetMinMaxRunspacesResponse")
    return obj(v + i64(ci, "ci"))


def error_record(text, n=None, ref=0, fqid=None, cat=0, target=None):
    ms = (b_(False, "SerializeExtendedInfo") + s_(fqid or "E," + text, "FullyQualifiedErrorId") + i32(cat, "ErrorCategory_Category")
          + s_("", "ErrorCategory_Activity") + s_("R", "ErrorCategory_Reason") + s_("", "ErrorCategory_TargetName")
          + s_("", "ErrorCategory_TargetType") + s_(text, "ErrorCategory_Message")
          + (s_(target, "TargetObject") if target is not None else nil("TargetObject")) + nil("InvocationInfo"))
    return obj(ms, n=n, tn=["System.Management.Automation.ErrorRecord", "System.Object"], ts=text, ref=ref)


def info_record(kind, text):
    return obj(s_(text, "InformationalRecord_Message") + b_(False, "InformationalRecord_SerializeInvocationInfo"),
               tn=["System.Management.Automation.%sRecord" % kind, "System.Management.Automation.InformationalRecord", "System.Object"], ts=text)


def progress_record(text, pct=10):
    return obj(s_(text, "Activity") + i32(1, "ActivityId") + s_("sd", "StatusDescription") + s_("co", "CurrentOperation")
               + i32(-1, "ParentActivityId") + i32(pct, "PercentComplete")
               + '<Obj N="Type" RefId="7"><TN RefId="7"><T>System.Management.Automation.ProgressRecordType</T><T>System.Enum</T>'
                 '<T>System.ValueType</T><T>System.Object</T></TN><ToString>Processing</ToString><I32>0</I32></Obj>'
               + i32(-1, "SecondsRemaining"))


def information_record(text):
    return obj(s_(text, "MessageData") + s_("src", "Source") + dt(n="TimeGenerated")
               + '<Obj N="Tags" RefId="8"><TN RefId="8"><T>System.Collections.Generic.List`1[[System.String]]</T><T>System.Object</T></TN><LST><S>t</S></LST></Obj>'
               + s_("u", "User") + s_("c", "Computer") + '<U32 N="ProcessId">1</U32><U32 N="NativeThreadId">2</U32><U32 N="ManagedThreadId">3</U32>',
               ts=text, tn=["System.Management.Automation.InformationRecord", "System.Object"], ref=1)


def user_event(eid, src="src", data=None, more=None):
    """more: the sender, arguments and data as documents of their own (without a name), computer and runspace"""
    name = lambda x, n: re.sub(r"^<(\w+)", lambda m: m.group(0) + nattr(n), x)
    sender, args, given, comp, rid = more or (nil(), '<Obj RefId="5"><LST/></Obj>', None, "comp", "33333333-3333-3333-3333-333333333333")
    return obj(i32(eid, "PSEventArgs.EventIdentifier") + s_(src, "PSEventArgs.SourceIdentifier") + dt(n="PSEventArgs.TimeGenerated")
               + name(sender, "PSEventArgs.Sender") + name(args, "PSEventArgs.SourceArgs")
               + (name(given, "PSEventArgs.MessageData") if given else nil("PSEventArgs.MessageData") if data is None else s_(data, "PSEventArgs.MessageData"))
               + s_(comp, "PSEventArgs.ComputerName") + guid(rid, "PSEventArgs.RunspaceId"), ref=9,
               tn=["System.Management.Automation.PSEventArgs", "System.Object"])


def host_call(ci, method_id, method_name, params=""):
    return obj(i64(ci, "ci")
               + '<Obj N="mi" RefId="61"><TN RefId="61"><T>System.Management.Automation.Remoting.RemoteHostMethodId</T><T>System.Enum</T>'
                 '<T>System.ValueType</T><T>System.Object</T></TN><ToString>%s</ToString><I32>%d</I32></Obj>' % (method_name, method_id)
               + '<Obj N="mp" RefId="62"><TN RefId="62"><T>System.Collections.ArrayList</T><T>System.Object</T></TN><LST>%s</LST></Obj>' % params, ref=60)


# ---------------------------------------------------------------- CLIXML (reading)
_ESC = re.compile("_x([0-9A-Fa-f]{4})_")


def unesc_clixml(t):
    if t is None:
        return ""
    out = bytearray()
    i = 0
    while i < len(t):
        m = _ESC.match(t, i)
        if m:
            out += int(m.group(1), 16).to_bytes(2, "little")
            i = m.end()
        else:
            out += t[i].encode("utf-16-le", "surrogatepass")
            i += 1
    return bytes(out).decode("utf-16-le", "surrogatepass")


def lx(xml):
    return ET.fromstring(xml)


def ms(el, name):
    """The child of <MS> (or <Props>) with the given name."""
    for cont in ("MS", "Props"):
        c = el.find(cont)
        if c is not None:
            for x in c:
                if x.attrib.get("N") == name:
                    return x
    return None


def prim(x):
    if x is None: return None
    if x.tag == "Nil": return None
    if x.tag in ("I32", "I64", "U32", "U64", "By", "SB", "I16", "U16"): return int(x.text)
    if x.tag == "B": return x.text == "true"
    if x.tag in ("S", "URI", "XD", "SBK"): return unesc_clixml(x.text)
    if x.tag == "Obj":
        for c in x:
            if c.tag == "I32": return int(c.text)
    return x.text
