"""Mutants of /repo/src/pypsrp that the existing tests do not notice, and which checks do.
mutate.py gen OUT [--every N]      lists mutants (OUT/mutants.json)
mutate.py test OUT [--jobs N]      runs the tests on each (OUT/tests.jsonl)
mutate.py check OUT COV [--jobs N] runs the checks that execute the changed line on each survivor (OUT/checks.jsonl)"""
import ast, concurrent.futures as F, glob, json, os, queue, random, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src/pypsrp"
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}


def mutants(path):
    text = open(path).read()
    lines = text.split("\n")
    off = [0]
    for l in lines: off.append(off[-1] + len((l + "\n").encode()))
    raw = text.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: raw[slice(*pos(n))].decode()
    out = []
    tree = ast.parse(text)
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n): c.up = n
    def fn(n):
        q = []
        while hasattr(n, "up"):
            n = n.up
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)): q.append(n.name)
        return ".".join(reversed(q))
    def skip(n):
        m = n
        while m is not None:
            if isinstance(m, ast.Call) and isinstance(m.func, ast.Attribute) and isinstance(m.func.value, ast.Name) and m.func.value.id in ("log", "warnings", "typing", "logging"): return True
            if isinstance(m, (ast.Raise, ast.Import, ast.ImportFrom)) and m is not n: return True
            if isinstance(m, ast.FunctionDef) and m.name in ("__repr__", "__str__"): return True
            if isinstance(m, ast.If) and "TYPE_CHECKING" in ast.dump(m.test): return True
            if isinstance(m, ast.Subscript) and isinstance(m.value, ast.Attribute) and isinstance(m.value.value, ast.Name) and m.value.value.id == "typing": return True
            u = getattr(m, "up", None)
            if isinstance(u, (ast.FunctionDef, ast.arg, ast.AnnAssign)) and m in (getattr(u, "returns", None), getattr(u, "annotation", None)): return True
            m = u
        return not fn(n) and False
    def add(n, new, kind, a=None, b=None):
        p = pos(n) if a is None else (a, b)
        if new != raw[slice(*p)].decode(): out.append(dict(file=os.path.basename(path), line=n.lineno, fn=fn(n), kind=kind, a=p[0], b=p[1], new=new, old=raw[slice(*p)].decode()[:80]))
    for n in ast.walk(tree):
        if not hasattr(n, "lineno") or skip(n): continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            add(n, "%s %s %s" % (seg(n.left), CMP[type(n.ops[0])], seg(n.comparators[0])), "cmp")
        elif isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                op = " and " if isinstance(n.op, ast.And) else " or "
                add(n, "(" + op.join("(%s)" % seg(v) for j, v in enumerate(n.values) if j != i) + ")", "drop operand %d" % i)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not): add(n, seg(n.operand), "not")
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            if not (isinstance(n.test, ast.Constant)):
                add(n.test, "True", "if true"); add(n.test, "False", "if false")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)) and not isinstance(n.left, ast.Constant):
            add(n, seg(n.left), "drop right operand")
        elif isinstance(n, ast.Constant) and type(n.value) is int and fn(n): add(n, str(n.value + 1), "int")
        elif isinstance(n, ast.Constant) and type(n.value) is bool and not isinstance(getattr(n, "up", None), ast.arguments): add(n, str(not n.value), "bool")
        elif isinstance(n, ast.Constant) and type(n.value) is str and not isinstance(n.up, (ast.Expr, ast.JoinedStr)) and fn(n) and "\n" not in seg(n) and len(n.value) > 0:
            add(n, repr(n.value + "x") if not n.value.endswith("}") else repr(n.value + "x"), "str")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call): add(n, "pass", "drop call")
        elif isinstance(n, ast.Assign) and fn(n): 
            if all(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets): add(n, "pass", "drop assignment")
        elif isinstance(n, ast.AugAssign): add(n, "pass", "drop augmented")
        elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None): add(n, "return None", "return none")
        elif isinstance(n, ast.Raise): add(n, "pass", "drop raise")
        elif isinstance(n, (ast.Continue, ast.Break)): add(n, "pass", "drop jump")
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    a, b = pos(k)
                    rest = raw[b:b + 2].decode()
                    if rest.startswith(","): add(k, "", "drop keyword", a, b + 1)
                    else: add(k, "", "drop keyword")
        elif isinstance(n, ast.ExceptHandler) and n.type is not None and isinstance(n.type, ast.Tuple):
            for i in range(len(n.type.elts)): add(n.type, "(" + "".join(seg(e) + ", " for j, e in enumerate(n.type.elts) if j != i) + ")", "drop exception %d" % i)
    res = []
    for m in out:
        new = raw[:m["a"]] + m["new"].encode() + raw[m["b"]:]
        try: compile(new.decode(), path, "exec")
        except SyntaxError: continue
        if ast.dump(ast.parse(new.decode())) == ast.dump(tree): continue
        res.append(m)
    return res


def write(m, root):
    p = os.path.join(root, "src/pypsrp", m["file"])
    raw = open(os.path.join(OUT, "src", m["file"]), "rb").read()
    open(p, "wb").write(raw[:m["a"]] + m["new"].encode() + raw[m["b"]:])


def copies(n):
    q, base = queue.Queue(), tempfile.mkdtemp(prefix="mut-")
    for i in range(n):
        r = "%s/%d/r" % (base, i)
        os.makedirs("%s/%d" % (base, i))
        subprocess.run("cp -a /repo %s && mkdir %s/%d/v && cd %s && tar cf - --exclude=./out --exclude=./seeded --exclude=./.git . | tar xf - -C %s/%d/v && cp %s/src/*.py %s/src/pypsrp/" % (r, base, i, V, base, i, OUT, r), shell=True, check=True)
        q.put("%s/%d" % (base, i))
    return q, base


ENV = dict({k: v for k, v in os.environ.items() if "CA_BUNDLE" not in k and "proxy" not in k.lower()}, TZ="UTC", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")


def go(out, name, items, work, jobs):
    q, base = copies(jobs)
    path = os.path.join(out, name)
    done = {json.loads(l)["i"] for l in open(path)} if os.path.exists(path) else set()
    f = open(path, "a")
    def one(m):
        w = q.get()
        try:
            write(m, w + "/r")
            r = work(m, w)
            shutil.copy(os.path.join(OUT, "src", m["file"]), os.path.join(w, "r/src/pypsrp", m["file"]))
        finally: q.put(w)
        f.write(json.dumps(dict(m, **r)) + "\n"); f.flush()
    try:
        with F.ThreadPoolExecutor(jobs) as ex: list(ex.map(one, [m for m in items if m["i"] not in done]))
    finally: shutil.rmtree(base, ignore_errors=True)


def test(m, w):
    try:
        r = subprocess.run("ulimit -v 8000000; exec timeout 60 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests/tests_pypsrp", shell=True, cwd=w + "/r", capture_output=True, text=True, env=dict(ENV, PYTHONPATH=w + "/r/src"))
        return dict(tests=r.returncode, tail=r.stdout.strip().splitlines()[-1:])
    except Exception as e: return dict(tests=99, tail=[str(e)])


MAP = {"client.py": "C25 C18 C19 C21 C29", "complex_objects.py": "C30 C29 C28 C22 C20 C21 C12", "encryption.py": "C14", "exceptions.py": "C15 C02", "host.py": "C12 C25", "messages.py": "C28 C29 C05 C04 C01 C20 C12 C06 C11 C24 C02",
       "negotiate.py": "C23 C14", "serializer.py": "C22 C30 C21 C11 C20 C29", "shell.py": "C17 C27 C25 C03", "wsman.py": "C26 C13 C15 C10 C14 C16 C31 C27", "_pool_manager.py": "C16 C31", "_utils.py": "C25 C18 C10 C26 C06",
       "powershell.py": "C28 C01 C02 C12 C04 C05 C06 C11 C09 C07 C08 C20 C24 C03 C10"}


def main():
    global OUT
    out = OUT = os.path.abspath(sys.argv[2])
    opt = lambda n, d: int(sys.argv[sys.argv.index(n) + 1]) if n in sys.argv else d
    os.makedirs(out, exist_ok=True)
    if sys.argv[1] == "gen":
        ms = [m for p in sorted(glob.glob(SRC + "/*.py")) for m in mutants(p)]
        random.Random(1).shuffle(ms)
        ms = ms[::opt("--every", 1)]
        for i, m in enumerate(ms): m["i"] = i
        shutil.copytree(SRC, out + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        json.dump(ms, open(out + "/mutants.json", "w"))
        print(len(ms))
    elif sys.argv[1] == "test":
        go(out, "tests.jsonl", json.load(open(out + "/mutants.json")), test, opt("--jobs", 6))
    else:
        cov = {os.path.basename(p)[:3]: json.load(open(p)) for p in glob.glob(sys.argv[3] + "/C*.json")}
        ms = [json.loads(l) for l in open(out + "/tests.jsonl")]
        ms = [m for m in ms if m["tests"] == 0 and not m["old"].startswith(("log.", "warnings."))]
        def work(m, w):
            ids = [c for c in MAP.get(m["file"], "").split() if m["line"] in cov.get(c, {}).get(m["file"], [])]
            res = {}
            for c in ids:
                try: r = subprocess.run(["timeout", "400", "./check.sh", c], cwd=w + "/v", env=dict(ENV, VP_REPO=w + "/r", VERIF_SEED="1", VERIF_TIER="quick"), capture_output=True, text=True).returncode
                except Exception as e: r = 98
                res[c] = r
                if r: break
            return dict(checks=res)
        go(out, "checks.jsonl", ms, work, opt("--jobs", 3))


main()
