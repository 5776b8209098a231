"""C19: fetching a file, specs/Fetch.tla."""
import base64, hashlib, json, os, random, shutil, tempfile
from lib import env, tlc, codec as C
from lib.server import *
from lib.check import conform_walks, conform_predicted
from checks.full import Full, pipeline_end

PROPS = ["OnlyVerified", "ErrorLeaves"]
CODE = {"a": b"\x00\xff\xfe", "b": b"\r\n", "c": b"x" * 40000, "d": b"\x01" + bytes(range(256)), "o": b"O", "l": b"L", "e": "\u00e9".encode()}
enc = lambda t: b"".join(CODE[x] for x in ({"old": ["o", "l", "q"]}.get(t) or t) if x in CODE)
from checks.c18 import norm


def script():
    with open(os.path.join(env.REPO, "src/pypsrp/pwsh_scripts/fetch.ps1"), encoding="utf-8") as f: return f.read()


class Driver:
    def __init__(self, cfg):
        self.rnd = random.Random(str(cfg))
        self.d = tempfile.mkdtemp(prefix="vfetch-")
        self.tmp = os.path.join(self.d, "tmp")
        os.mkdir(self.tmp)
        # a directory whose name is ~ (it is the one of the destination), and another home
        os.makedirs(os.path.join(self.d, "cwd"))
        os.makedirs(os.path.join(self.d, "home"))
        os.symlink("..", os.path.join(self.d, "cwd", "~"))
        self.oldtmp, tempfile.tempdir = tempfile.tempdir, self.tmp
        os.environ.update(VFETCH_DIR=self.d, VFETCH_D="$", VFETCH_X="other", HOME=self.d)
        self.names = {}
        self.F = Full(self.rnd)
        self.dest = os.path.join(self.d, "d $VFETCH_X \u00e9.bin")
        if cfg["dest"] != "-":
            with open(self.dest, "wb") as f: f.write(self.bytes_of(cfg["dest"]))

    def bytes_of(self, t):
        b = enc(t)
        self.names.setdefault(b, t)
        return b

    def step(self, o):
        rnd, F = self.rnd, self.F
        got = [self.bytes_of(x) for x in o["got"]]
        text = "".join(o["got"])
        self.bytes_of(text)
        out = [C.s_(base64.b64encode(x).decode()) for x in got]
        sm = C.s_(rnd.choice(["no checksum", "", hashlib.sha1(b"".join(got)).hexdigest() + "0", hashlib.sha1(b"".join(got)).hexdigest()[:-1]]) if o["sum"] == "?" else hashlib.sha1(self.bytes_of(o["sum"])).hexdigest())
        emit = [("PIPELINE_OUTPUT", x) for x in out]
        fail_at = fail = None
        if o["remote"] == "ok": emit += [("PIPELINE_OUTPUT", sm), pipeline_end(4)]
        elif o["remote"] == "failed":
            k = rnd.choice([0, 1, 2])
            if k: emit += [("PIPELINE_OUTPUT", sm)]
            emit += [("ERROR_RECORD", C.error_record("no such file"))] if k == 2 else []
            emit += [pipeline_end(5, "no such file")]
        elif o["remote"] == "none": emit = [pipeline_end(4)]
        else:
            emit += [("PIPELINE_OUTPUT", sm), pipeline_end(4)]
            want = rnd.choice(["Command", "Receive"])
            fail_at = lambda i, r: r.cmd is not None and r.action == want
            fail = lambda r: C.fault(r)
        F.start(emit, fail_at, fail)
        deleted = F.deleted_n
        src = rnd.choice(["~/", "C:\\"]) + "$VFETCH_X\\${VFETCH_X}\u00e9 _x0041_ %TMP%"
        rel = not o["expand"] and rnd.random() < .3
        to = self.dest if o["place"] == "there" else os.path.join(self.d, "nowhere", "x", "f.bin")
        if rel: to = os.path.join("~", os.path.relpath(to, self.d))
        os.environ["HOME"] = os.path.join(self.d, "home") if rel else self.d
        if o["place"] == "missing": o = dict(o, expand=False)
        a = (src, rnd.choice(["$VFETCH_DIR", "~"]) + "/d ${VFETCH_D}VFETCH_X \u00e9.bin" if o["expand"] else to)
        back = os.getcwd()
        os.chdir(os.path.join(self.d, "cwd"))
        try: out, v = outcome(F.client.fetch, *a, **(dict(expand_variables=True) if o["expand"] else {}))
        finally: os.chdir(back)
        if o["place"] == "missing" and out.startswith("err:"):
            out = "error"
        if o["remote"] == "failed" and out == "err:WinRMError": out += " with the remote error" if "no such file" in str(v) else " " + str(v)
        if o["remote"] == "none" and out.startswith("err:"): out = "error"
        asked = "asked for nothing"
        for m in F.msgs:
            if m["type"] == "CREATE_PIPELINE":
                x = C.lx(m["xml"])
                cmds = [e for e in x.iter("Obj") if C.ms(e, "Cmd") is not None]
                args = [] if not cmds else [(C.prim(C.ms(a, "N")), C.ms(a, "V")) for a in C.ms(cmds[0], "Args").iter("Obj") if C.ms(a, "V") is not None]
                good = len(cmds) == 1 and norm(C.prim(C.ms(cmds[0], "Cmd"))) == norm(script()) and C.ms(cmds[0], "IsScript").text == "true" and len(args) == 2 \
                    and args[0][0] is None and args[1][0] is None and C.prim(args[0][1]) == src and args[1][1].tag == "B" and (args[1][1].text == "true") == o["expand"]
                asked = "asked for the file" if good and asked == "asked for nothing" else "asked for something else"
        if os.path.exists(self.dest):
            with open(self.dest, "rb") as f: b = f.read()
            ds = self.names.get(b, "something else (%d bytes)" % len(b))
        else: ds = "-"
        return [out, asked, "destination " + ds, "temporary files %d" % (len(os.listdir(self.tmp)) + len([x for x in os.listdir(self.d) if x not in ("tmp", "cwd", "home", os.path.basename(self.dest))] + os.listdir(os.path.join(self.d, "home")) + os.listdir(os.path.join(self.d, "cwd"))[1:])),
                "shell released" if F.live is None and F.deleted_n == deleted + 1 and not F.bad else "shell left %s" % F.bad]

    def close(self):
        tempfile.tempdir = self.oldtmp
        self.F.close()
        shutil.rmtree(self.d, ignore_errors=True)


def check(ck):
    th = env.THOROUGH
    r, edges, inits = tlc.mc("Fetch", {}, properties=PROPS)
    ck.model(r)
    ck.log("model: %d states, %d edges" % (r.distinct, len(edges)))
    conform_walks(ck, Driver, edges, lambda x: json.loads(x), inits, label="fetches", budget=None)
    rnd = ck.rnd
    runs = []
    for j in range(300 if th else 50):
        ops = []
        for _ in range(10):
            got = ["".join(rnd.choice("abcde") for _ in range(rnd.choice([0, 1, 2, 4]))) for _ in range(rnd.choice([0, 1, 1, 2, 4]))]
            full = "".join(got)
            k = rnd.choice(["good"] * 4 + ["drop", "swap", "dup", "?"])
            if k == "drop" and got: got.pop(rnd.randrange(len(got)))
            if k == "swap": rnd.shuffle(got)
            if k == "dup" and got: got.insert(0, rnd.choice(got))
            ops.append(dict(got=got, sum="?" if k == "?" else full, place=rnd.choice(["there"] * 5 + ["missing"]), remote=rnd.choice(["ok"] * 6 + ["failed", "none", "fault"]), expand=rnd.random() < .3))
            if ops[-1]["place"] == "missing": ops[-1]["expand"] = False
        runs.append((dict(dest=rnd.choice(["-", "", "old", "cab"])), ops))
    conform_predicted(ck, Driver, "Fetch", {}, runs, label="random fetches")
