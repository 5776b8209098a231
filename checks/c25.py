"""C25: the convenience calls release the shell and return its results, specs/Convenience.tla (a monitor)."""
import base64, hashlib, os, random, shutil, tempfile, warnings
import requests
from lib import env, tlc, codec as C
from lib.server import *
from lib.check import pmap
from checks.full import Full, pipeline_end
from checks.c18 import norm

PROPS = ["OneShell", "Released", "Raised", "RanOnce", "FirstFailure", "AsConfigured"]
TEXT = dict(T1="hostname", T2="echo \u00e9 & <x> \"q\"", T3="_x0041_ $x\r\n'a'", T4="C:\\p q\\a.exe /c  x ", T5="\U0001F600 ]]>")
NAME = dict(A="PATH", B="b \u00e9<&>", D="_x000A_", E="ZZ")
VALUE = {"1": "v", "2": "", "3": "\u00e9 \"<>&' ", "4": "_x0041_\n"}
LINE = dict(a="line", b="\u00e9 <&> ", c="_x0041_", d="  x\ty", E="", f="\U0001F600")
BYTES = {"437": {"a": b"abc", "b": b"\r\n", "e": b"\x82", "z": b"\xff"}, "utf-8": {"a": b"abc", "b": b"\r\n", "<": b"\xc3", ">": b"\xa9"}, "utf-16-le": {"a": "ab".encode("utf-16-le"), "u": "\u4e2d".encode("utf-16-le"), "<": b"\x3d\xd8", ">": b"\x00\xde"}}
CHARS = {"437": {"abc": "a", "\r\n": "b", "\u00e9": "e", "\u00a0": "z"}, "utf-8": {"abc": "a", "\r\n": "b", "\u00e9": "<>"}, "utf-16-le": {"ab": "a", "\u4e2d": "u", "\U0001F600": "<>"}}
PSU = "http://schemas.microsoft.com/powershell/"
STREAMS = ("error", "warning", "verbose", "debug", "progress", "information")
rev = lambda d: {v: k for k, v in d.items()}
RT, RN, RV, RL = rev(TEXT), rev(NAME), rev(VALUE), rev(LINE)


def letters(s, enc_):
    if not isinstance(s, str): return repr(s)
    o = ""
    while s:
        for k, v in CHARS[enc_].items():
            if s.startswith(k):
                o, s = o + v, s[len(k):]
                break
        else: return o + "?" + repr(s[:10])
    return o


def fails(kind, rnd):
    """-> (error the caller has to see, how the server fails)"""
    if kind == "fault": return "WSManFaultError", lambda r: C.fault(r)
    if kind == "connection": return "ConnectionError", lambda r: requests.exceptions.ConnectionError("reset")
    if kind == "timeout": return "ReadTimeout", lambda r: requests.exceptions.ReadTimeout("slow")
    return "WinRMTransportError", lambda r: (503, {"Content-Type": "text/html"}, b"busy")


def statements(xml):
    x = C.lx(xml)
    p = C.ms(x, "PowerShell")
    def val(v):
        if v.tag == "Nil": return None
        t = C.prim(v)
        return RT.get(t, RV.get(t, RN.get(t, t))) if v.tag == "S" else v.text
    def cmd(c):
        a = []
        for y in C.ms(c, "Args").find("LST"):
            n, v = C.ms(y, "N"), C.ms(y, "V")
            n = "" if n.tag == "Nil" else C.prim(n)
            w = val(v)
            t = C.prim(v) if v.tag == "S" else None
            if n == "Name": w = RN.get(t, t)
            if n == "Value": w = RV.get(t, t)
            a.append(n if w is None else "%s=%s" % (n, w))
        n = C.prim(C.ms(c, "Cmd"))
        return ("" if C.ms(c, "IsScript").text == "false" else "script ") + n + "(%s)" % ";".join(a)
    e = C.ms(p, "ExtraCmds")
    l = [p] if e is None or e.tag == "Nil" else list(e.find("LST"))
    return " / ".join(" ".join(cmd(c) for c in C.ms(y, "Cmds").find("LST")) for y in l)


def script_of(name):
    with open(os.path.join(env.REPO, "src/pypsrp/pwsh_scripts", name), encoding="utf-8") as f: return norm(f.read())


def what(F, r, k):
    if k == "cmd":
        ok_ = not r.args and r.options and ("WINRS_SKIP_CMD_SHELL", "False") in r.options
        return "process " + RT.get(r.command, repr(r.command)) + ("" if ok_ else " with %s %s" % (r.args, r.options))
    m = C.Reassembler().feed(r.data or b"")
    m = [y for y in m if y["type"] == "CREATE_PIPELINE"]
    if not m: return "nothing yet"
    if k == "ps": return statements(m[0]["xml"])
    c = [e for e in C.lx(m[0]["xml"]).iter("Obj") if C.ms(e, "Cmd") is not None]
    return k + " script" if len(c) == 1 and norm(C.prim(C.ms(c[0], "Cmd"))) == script_of(k + ".ps1") else "another script"


def one(F, rnd, call, fail, d):
    """One call -> (events, number of requests).  fail: None or (position, kind)."""
    k, rep = call["k"], call["rep"]
    ev = [dict(op=dict(n="call", k=k, text=call["text"], env=call["env"], conf=call["conf"] or "Microsoft.PowerShell", rep=rep), obs=["accepted"])]
    err, how = fails(fail[1], rnd) if fail else ("-", None)
    emit, procs = [], []
    enc_ = call["enc"]
    if k == "cmd":
        # the letters of both streams, cut anywhere, with empty replies and timeouts in between
        todo = [("stdout", x) for x in "".join(rep["out"])] + [("stderr", x) for x in rep["err"]]
        if rnd.random() < .7:
            a, b = [x for x in todo if x[0] == "stdout"], [x for x in todo if x[0] == "stderr"]
            todo = []
            while a or b: todo.append((a if a and (not b or rnd.random() < .5) else b).pop(0))
        def plan():
            while True:
                n = rnd.choice([0, 1, 2, 5])
                part, todo[:] = todo[:n], todo[n:]
                yield part
                if not todo: return
        parts = list(plan())
        def proc(part, last):
            return lambda r, cid: C.receive_response(r, [(s, BYTES[enc_][x]) for s, x in part], state="Done" if last else "Running", rc=rep["rc"] if last and rep["rc"] != "-" else None, cid=cid)
        seq = [(p, i == len(parts) - 1) for i, p in enumerate(parts)]
        for p, last in seq:
            if rnd.random() < .3:
                procs.append(lambda r, cid: C.fault(r, C.OP_TIMEOUT))
            procs.append(proc(p, last))
    elif k == "ps":
        emit = [("PIPELINE_OUTPUT", C.s_(LINE[x])) for x in rep["out"]]
        rec = []
        for st in rep["streams"].split():
            n, v = st.split(":")
            t = LINE[v]
            rec.append(("ERROR_RECORD", C.error_record(t)) if n == "error" else ("PROGRESS_RECORD", C.progress_record(t)) if n == "progress" else ("INFORMATION_RECORD", C.information_record(t)) if n == "information"
                       else (n.upper() + "_RECORD", C.info_record(n.capitalize(), t)))
        while rec: emit.insert(rnd.randint(0, len(emit)), rec.pop()) if rnd.random() < 0 else emit.append(rec.pop(0))
        emit.append(pipeline_end(5 if rep["end"] == "Failed" else 4))
    elif k == "copy":
        emit = [("PIPELINE_OUTPUT", C.s_("C:\\x")), pipeline_end(4)] if rep["end"] == "Completed" else [("ERROR_RECORD", C.error_record("full")), pipeline_end(5, "failed")]
    else:
        data = rnd.randbytes(200)
        emit = [("PIPELINE_OUTPUT", C.s_(base64.b64encode(data).decode())), ("PIPELINE_OUTPUT", C.s_(hashlib.sha1(data).hexdigest())), pipeline_end(4)] if rep["end"] == "Completed" else [pipeline_end(5, "failed")]
    F.start(emit, fail[0] if fail else None, how, procs=procs)
    timeouts, orig = {}, F.h.answer
    def ans(r):
        out = orig(r)
        if isinstance(out, tuple) and b"2150858793" in (out[2] if isinstance(out[2], bytes) else out[2].encode()): timeouts[len(F.log) - 1] = True
        # the reply that completes the result: no data comes after it
        n = len(F.log) - 1
        lasts[n] = not F.log[n][1] and n not in timeouts and r.action == "Receive" and (not F.procs if k == "cmd" else bool(r.cmd) and not any(q[0] for q in F.queue))
        live.append(F.live)
        return out
    lasts, live = {}, []
    F.h.answer = ans
    cl = F.client
    envd = {NAME[a]: VALUE[b] for a, b in call["env"]}
    ckw = dict(configuration_name=call["conf"]) if call["conf"] else {}
    with warnings.catch_warnings(record=True):
        warnings.simplefilter("always")
        if k == "cmd": out, v = outcome(cl.execute_cmd, TEXT[call["text"]], **dict(({} if enc_ == "437" else dict(encoding=enc_)), **(dict(environment=envd) if call["env"] or rnd.random() < .3 else {})))
        elif k == "ps": out, v = outcome(cl.execute_ps, TEXT[call["text"]], **dict(ckw, **(dict(environment=envd) if call["env"] or rnd.random() < .3 else {})))
        elif k == "copy":
            src = os.path.join(d, "src.bin")
            with open(src, "wb") as f: f.write(rnd.randbytes(call["size"]))
            out, v = outcome(cl.copy, src, "C:\\x", **ckw)
        else: out, v = outcome(cl.fetch, "C:\\x", os.path.join(d, "dst.bin"), **ckw)
    F.h.answer = orig
    for i, (r, failed) in enumerate(F.log):
        res = "optimeout" if failed and err == "ReadTimeout" and r.action == "Receive" else err if failed else "optimeout" if timeouts.get(i) else "ok"
        sel = (r.selectors == {"ShellId": (live[i - 1] if i else None)}) and r.uri == F.uri
        a = r.action
        if a == "Create":
            e = dict(n="create", kind="cmd" if r.uri == C.CMDURI else "pool", conf="-" if r.uri == C.CMDURI else r.uri[len(PSU):] if r.uri.startswith(PSU) else "? " + r.uri, env="", r=res)
            if r.uri == C.CMDURI:
                v_ = r.resource.find(C.q(C.RSP, "Environment"))
                e["env"] = "" if v_ is None else " ".join("%s=%s" % (RN.get(y.attrib["Name"], "?"), RV.get(y.text or "", "?")) for y in v_)
        elif a == "Command": e = dict(n="command", sel=sel, what=what(F, r, k), r=res)
        elif a == "Receive" and (r.cmd or k == "cmd"): e = dict(n="receive", sel=sel, last=lasts[i], r=res)
        elif a in ("Receive", "Send") and not r.cmd: e = dict(n="setup", sel=sel, r=res)
        elif a == "Send": e = dict(n="input", sel=sel, r=res)
        elif a == "Signal": e = dict(n="signal", sel=sel and (r.cmd == F.cid), r=res)
        elif a == "Delete": e = dict(n="delete", sel=sel, r=res)
        else: e = dict(n="receive", sel=False, last=False, r=res)
        ev.append(dict(op=e, obs=["accepted"]))
    if out == "ok":
        if k == "cmd":
            good = isinstance(v, tuple) and len(v) == 3
            out = "stdout %s stderr %s code %s" % (letters(v[0], enc_), letters(v[1], enc_), v[2]) if good else repr(v)
        elif k == "ps":
            o, st, he = v
            rd = dict(error=str, progress=lambda x: x.activity, information=lambda x: x.message_data)
            sh = " ".join("%s:%s" % (n, RL.get(rd.get(n, lambda x: x.message)(x), "?")) for n in STREAMS for x in getattr(st, n))
            out = "output %s errors %s streams %s" % ("/".join({"": ""}.get(x, RL.get(x, "?")) for x in o.split("\n")), {True: "yes", False: "no"}.get(he, repr(he)), sh)
        else: out = "done"
    ev.append(dict(op=dict(n="return", res=out), obs=["accepted"]))
    return ev, len(F.log)


def run(job):
    """A session: several calls of one client.  One trace per session; sweep: a trace for every position of a failure."""
    rnd = random.Random(job["seed"])
    d = tempfile.mkdtemp(prefix="vconv-")
    old, tempfile.tempdir = tempfile.tempdir, d
    traces = []
    try:
        if job["sweep"]:
            n, k = None, 0
            call = job["calls"][0]
            for pos in range(200):
                for kind in (["-"] if pos == 0 else job["kinds"]):
                    F = Full(random.Random(job["seed"]), proto=job["proto"])
                    e, m = one(F, random.Random(job["seed"]), call, None if kind == "-" else (pos - 1, kind), d)
                    if kind == "-": n = m
                    if kind != "-":       # and the client is still usable
                        e += one(F, random.Random(1), call, None, d)[0]
                    traces.append(dict(cfg=0, ev=e))
                    F.close()
                if pos >= n: break
        else:
            F = Full(rnd, proto=job["proto"])
            ev = []
            for call in job["calls"]:
                f = None if rnd.random() < .5 else (rnd.randint(0, 8), rnd.choice(["fault", "connection", "timeout", "http"]))
                ev += one(F, rnd, call, f, d)[0]
            traces.append(dict(cfg=0, ev=ev))
            F.close()
    finally:
        tempfile.tempdir = old
        shutil.rmtree(d, ignore_errors=True)
    return traces


def call(rnd, k=None):
    k = k or rnd.choice(["cmd", "cmd", "ps", "ps", "ps", "copy", "fetch"])
    enc_ = rnd.choice(list(BYTES))
    names = list(NAME)
    rnd.shuffle(names)
    c = dict(k=k, text=rnd.choice([t for t in TEXT if k != "cmd" or t != "T3"]), env=[[n, rnd.choice(list(VALUE))] for n in names[:rnd.choice([0, 0, 1, 2, 4])]] if k in ("cmd", "ps") else [], enc=enc_, size=rnd.choice([0, 10, 5000, 400000]), conf=rnd.choice(["", "", "", "PowerShell.7", "my conf"]))
    rep = dict(out=[], err="", rc="-", end=rnd.choice(["Completed", "Completed", "Failed"]), streams="")
    if k == "cmd":
        al = [x for x in BYTES[enc_] if x not in "<>"] + (["<>"] if "<" in BYTES[enc_] else [])
        g = lambda: "".join(rnd.choice(al) for _ in range(rnd.choice([0, 1, 3, 8])))
        rep.update(out=[g()], err=g(), rc=rnd.choice(["-", "0", "1", "-5", "2147483647"]))
    elif k == "ps":
        l = [x for x in LINE if x not in ("E", "")]
        rep.update(out=[rnd.choice(l) for _ in range(rnd.choice([0, 1, 2, 6]))])
        if len(rep["out"]) > 1 and rnd.random() < .5: rep["out"][rnd.randrange(len(rep["out"]))] = ""
        rep["streams"] = " ".join("%s:%s" % (n, rnd.choice(l)) for n in STREAMS for _ in range(rnd.choice([0, 0, 0, 1, 2])))
    return dict(c, rep=rep)


LINE[""] = ""


def check(ck):
    th = env.THOROUGH
    r = tlc.run("Convenience", tlc.cfg(dict(MaxEv=14 if th else 12), view="View", invariants=["DeletedOnce"], properties=PROPS))
    ck.model(r)
    ck.log("model: %d states" % r.distinct)
    rnd = ck.rnd
    KINDS = ["fault", "connection", "timeout", "http"]
    jobs = []
    for k in ("cmd", "ps", "copy", "fetch"):
        for j in range(12 if th else 3):
            jobs.append(dict(seed=rnd.randrange(1 << 30), sweep=True, calls=[call(rnd, k)], kinds=KINDS if th or j == 0 else [rnd.choice(KINDS)], proto=rnd.choice(["2.3", "2.2", "2.1"])))
    for j in range(600 if th else 120):
        jobs.append(dict(seed=rnd.randrange(1 << 30), sweep=False, calls=[call(rnd) for _ in range(5)], kinds=[], proto=rnd.choice(["2.3", "2.1"])))
    res = pmap(run, jobs)
    traces, src = [], []
    for j, x in zip(jobs, res):
        if isinstance(x, tuple):
            ck.violation("%s %s" % (x[0], str(x[1]).strip().splitlines()[-1]), j)
            continue
        traces += x
        src += [j] * len(x)
    r, bad = tlc.check_traces("Convenience", dict(MaxEv=1), traces, timeout=600)
    if r is not None: ck.model(r)
    for t in traces: ck.traces(1, len(t["ev"]))
    for t, l, exp in bad:
        ck.violation("event %d, %s: %s" % (l, str(traces[t]["ev"][l]["op"])[:600], exp), dict(job=src[t], trace=traces[t]))
    ck.cov["failure positions"] = sum(len(x) for x, j in zip(res, jobs) if j["sweep"] and not isinstance(x, tuple))
    ck.log("%d recorded traces validated by TLC, %d rejected" % (len(traces), len(bad)))
    ck.sample(dict(trace=min(traces, key=lambda t: abs(len(t["ev"]) - 8))))
