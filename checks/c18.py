"""C18: copying a file, specs/Copy.tla (the receiving end judges what was sent)."""
import base64, hashlib, os, random, re, shutil, tempfile, warnings
from lib import env, tlc, codec as C
from lib.server import *
from lib.check import pmap
from checks.full import Full, pipeline_end

FRAG, MSG = 21, 40


def script():
    with open(os.path.join(env.REPO, "src/pypsrp/pwsh_scripts/copy.ps1"), encoding="utf-8") as f: return f.read()


def norm(t):
    t = re.sub("<#.*?#>", "", t, flags=re.S)
    return "\n".join(x.strip() for x in t.splitlines() if x.strip() and not x.strip().startswith("#"))


def run(case):
    rnd = random.Random(str(case))
    d = tempfile.mkdtemp(prefix="vcopy-")
    os.environ.update(VCOPY_DIR=d, VCOPY_D="$", VCOPY_X="other", HOME=d)
    try:
        content = rnd.randbytes(case["size"]) if case["fill"] == "random" else (b"\x00" if case["fill"] == "zero" else b"ab\r\n")[:1 if case["fill"] == "zero" else 4] * (case["size"] + 1)
        content = content[:case["size"]]
        name = "f $VCOPY_X \u00e9.bin"
        with open(os.path.join(d, name.replace("$VCOPY_X", "other")), "wb") as f: f.write(b"another file")
        with open(os.path.join(d, name), "wb") as f: f.write(content)
        F = Full(rnd, proto=case["proto"], max_envelope_size=case["env"])
        dest = case["dest"]
        emit = [("WARNING_RECORD", C.info_record("Warning", "w%d" % i)) for i in range(case["warn"])]
        rep = "C:\\Users\\\u00e9\\out.bin"
        if case["remote"] == "ok":
            # what the script prints before is not the path
            emit += [("PIPELINE_OUTPUT", C.s_("printed before"))] * rnd.choice([0, 0, 1])
            emit += [("PIPELINE_OUTPUT", C.s_(rep + rnd.choice(["", "\r\n", "  "]))), pipeline_end(4)]
        else:
            emit += [("ERROR_RECORD", C.error_record("disk full"))] if case["remote"] == "error+record" else []
            emit += [pipeline_end(5, "failed there")]
        F.start(emit)
        src = os.path.join(rnd.choice(["$VCOPY_DIR", "~"]), name.replace("$", "${VCOPY_D}")) if case["expand"] else os.path.join(d, name)
        # a relative path into a directory whose name is ~ is no path into the home directory
        back = os.getcwd()
        if not case["expand"] and rnd.random() < .4:
            os.makedirs(os.path.join(d, "home"))
            os.makedirs(os.path.join(d, "cwd"))
            os.symlink("..", os.path.join(d, "cwd", "~"))
            with open(os.path.join(d, "home", name), "wb") as f: f.write(b"another file")
            os.environ["HOME"] = os.path.join(d, "home")
            os.chdir(os.path.join(d, "cwd"))
            src = os.path.join("~", name)
        with warnings.catch_warnings(record=True) as wl:
            warnings.simplefilter("always")
            kw = dict(expand_variables=True) if case["expand"] else {}
            out, v = outcome(F.client.copy, src, dest, **kw)
        os.chdir(back)
        ev = []
        def add(o, obs=("accepted",)): ev.append(dict(op=o, obs=list(obs)))
        off, summ = 0, base64.b64encode(hashlib.sha1(content).hexdigest().encode()).decode()
        size = max(r.envsize for r, _ in F.log if r.cmd)
        pieces = 0
        for m in F.msgs:
            if m["type"] == "CREATE_PIPELINE":
                x = C.lx(m["xml"])
                cmds = [e for e in x.iter("Obj") if C.ms(e, "Cmd") is not None]
                args = [] if not cmds else [(C.prim(C.ms(a, "N")), C.ms(a, "V")) for a in C.ms(cmds[0], "Args").iter("Obj") if C.ms(a, "V") is not None]
                sc = len(cmds) == 1 and norm(C.prim(C.ms(cmds[0], "Cmd"))) == norm(script()) and C.ms(cmds[0], "IsScript").text == "true"
                add(dict(n="call", script=sc, dest=len(args) == 2 and args[0][0] is None and args[0][1].tag == "S" and C.prim(args[0][1]) == dest,
                         expand=len(args) == 2 and args[1][0] is None and args[1][1].tag == "B" and (args[1][1].text == "true") == case["expand"]))
            elif m["type"] == "PIPELINE_INPUT":
                x = C.lx(m["xml"])
                t = C.prim(x)
                if x.tag != "S": add(dict(n="junk"))
                elif off == len(content) and pieces > 0 and t == summ: add(dict(n="sum", good=True))
                else:
                    try: b = base64.b64decode(t, validate=True)
                    except Exception: b = None
                    if b is None: add(dict(n="junk"))
                    elif content[off:off + len(b)] == b:
                        add(dict(n="piece", at=off, len=len(b)))
                        off += len(b)
                        pieces += 1
                    elif b in (summ.encode(), base64.b64decode(summ)): add(dict(n="sum", good=b == base64.b64decode(summ)))
                    else:
                        k = content.find(b)
                        add(dict(n="piece", at=k, len=len(b)) if k >= 0 else dict(n="junk"))
            elif m["type"] == "END_OF_PIPELINE_INPUT": add(dict(n="eoi"))
        if out == "ok": res = "returned the reported path" if v == rep else "returned " + repr(v)
        elif out == "err:WinRMError": res = "err:WinRMError with the remote error" if "failed there" in str(v) and (case["remote"] != "error+record" or "disk full" in str(v)) else "err:WinRMError %s" % v
        else: res = out + " " + str(v)[:200]
        add(dict(n="result", remote="ok" if case["remote"] == "ok" else "error", warn=case["warn"]),
            [res, "warnings %s" % ("-" if case["remote"] != "ok" else sum(1 for w in wl if str(w.message).startswith("w")))])
        # requests within the announced size; the shell released
        wrong = [] if all(r.size <= r.envsize for r, _ in F.log) else ["request larger than announced"]
        if F.live is not None or F.deleted_n != 1: wrong.append("shell not deleted once")
        wrong += F.bad
        capacity = size // 4 * 3  # no chunk can be larger than the envelope
        F.close()
        return dict(cfg=dict(size=len(content), cap=capacity), ev=ev), wrong
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(ck):
    th = env.THOROUGH
    r = tlc.run("Copy", tlc.cfg(dict(MaxSize=6, Caps=frozenset([4, 8])), view="View", invariants=["EndHasAll", "NothingPastSize"], properties=["ReachesEnd", "RejectIsFinal"]))
    ck.model(r)
    ck.log("model: %d states" % r.distinct)
    rnd = ck.rnd
    cases = []
    # the chunk length in force is learned from one big copy per setting; sizes around its multiples are the interesting ones
    for envsize, proto in ((153600, "2.3"), (153600, "2.1"), (8192, "2.3"), (32768, "2.2")):
        t, w = run(dict(size=700000, fill="random", proto=proto, env=envsize, dest="d", expand=False, remote="ok", warn=0))
        ls = [e["op"]["len"] for e in t["ev"] if e["op"]["n"] == "piece"]
        if not ls: ls = [1000]
        b = ls[0]
        sizes = {0, 1, 2, 3, b - 1, b, b + 1, b + 2, 2 * b - 1, 2 * b, 2 * b + 1, 3 * b}
        for _ in range(20 if th else 4): sizes.add(rnd.randint(0, 4 * b))
        for z in sorted(sizes):
            for rep in range(3 if th else 1):
                cases.append(dict(size=z, fill=rnd.choice(["random", "zero", "text"]), proto=proto, env=envsize, dest=rnd.choice(["C:\\x\\\u00e9 _x0041_.bin", "%TMP%\\f", "~/rel", "$HOME\\f"]),
                                  expand=rnd.random() < .4, remote=rnd.choice(["ok", "ok", "error", "error+record"]), warn=rnd.choice([0, 0, 1, 3]), rep=rep))
    res = pmap(run, cases)
    traces, src = [], []
    for c, x in zip(cases, res):
        if x[0] in ("__runaway__", "__crash__"):
            ck.violation("copy: %s %s" % (x[0], x[1][-400:]), dict(case=c))
            continue
        t, wrong = x
        if wrong: ck.violation("copy of %d bytes: %s" % (c["size"], wrong), dict(case=c))
        traces.append(t)
        src.append(c)
    r, bad = tlc.check_traces("Copy", dict(MaxSize=0, Caps=frozenset([0])), traces)
    ck.model(r)
    ck.traces(len(traces) - len({b[0] for b in bad}), sum(len(t["ev"]) for t in traces))
    for t, l, exp in bad:
        ck.violation("copy of %d bytes: event %d %s: the receiving end says %s, observed %s" % (src[t]["size"], l, traces[t]["ev"][l]["op"], exp, traces[t]["ev"][l]["obs"]), dict(case=src[t], trace=traces[t]))
    ck.log("%d recorded copies judged by TLC, %d rejected" % (len(traces), len(bad)))
    if traces: ck.sample(dict(copy=src[0], trace=traces[0]))
