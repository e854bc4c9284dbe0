"""Mutation testing of the checks: applies small syntactic changes to scratch copies of /repo, keeps those which pass the
repository's tests, runs the checks of the file's properties on them, and lists those no check catches (for review by hand).

usage: mutate.py OUT.jsonl [FILE ...] (env: JOBS, SCALE); OUT.jsonl is appended to, mutants in it are skipped
"""
import ast, copy, hashlib, json, multiprocessing, os, pathlib, resource, shutil, subprocess, sys

VERIF = pathlib.Path(__file__).resolve().parent.parent
SCRATCH = pathlib.Path("/tmp/mutate")
CHECKS = {"Binding": "C10", "Converter": "C11 C10", "Event": "C01 C02", "Geometry": "C27 C28", "ListModel": "C04 C03 C05 C06 C08 C09", "Model": "C21 C20", "Observable": "C01 C10 C03",
          "Persistence": "C12 C13 C14 C15", "Process": "C24", "Promise": "C25", "Recorder": "C15", "ReferenceCounting": "C20", "Registry": "C26", "Selection": "C07 C06",
          "Stream": "C18 C19 C20 C21", "StructuredModel": "C16 C17", "ThreadPool": "C22 C23", "Validator": "C10"}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot, ast.Eq], ast.IsNot: [ast.Is, ast.NotEq], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div]}


def mutations(node, parent_field):
    """yield (description, replacement node or function mutating a copy)"""
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        for new in CMP.get(type(node.ops[0]), []):
            def f(n, new=new):
                n.ops[0] = new(); return n
            yield f"{type(node.ops[0]).__name__}->{new.__name__}", f
        if isinstance(node.ops[0], (ast.Is, ast.IsNot)) and isinstance(node.comparators[0], ast.Constant) and node.comparators[0].value is None:
            yield "truth-for-none", (lambda n: n.left if isinstance(n.ops[0], ast.IsNot) else ast.UnaryOp(ast.Not(), n.left))
    if isinstance(node, ast.BoolOp):
        def f(n):
            n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And(); return n
        yield "and-or", f
        for i in range(len(node.values)):
            def f(n, i=i):
                v = n.values[:i] + n.values[i + 1:]
                return v[0] if len(v) == 1 else ast.BoolOp(n.op, v)
            yield f"drop-operand-{i}", f
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
        yield "drop-unary", lambda n: n.operand
    if isinstance(node, (ast.If, ast.While)):
        for v in (True, False):
            def f(n, v=v):
                n.test = ast.Constant(v); return n
            if not (isinstance(node, ast.While) and v) and not (isinstance(node.test, ast.Constant)):
                yield f"cond-{v}", f
        if isinstance(node, ast.If) and node.orelse:
            def f(n):
                n.orelse = []; return n
            yield "drop-else", f
    if isinstance(node, ast.IfExp):
        yield "ifexp-body", lambda n: n.body
        yield "ifexp-else", lambda n: n.orelse
    if isinstance(node, ast.BinOp) or isinstance(node, ast.AugAssign):
        for new in BIN.get(type(node.op), []):
            def f(n, new=new):
                n.op = new(); return n
            yield f"{type(node.op).__name__}->{new.__name__}", f
    if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Sub)):
        yield "left-only", lambda n: n.left
    if isinstance(node, ast.Constant) and parent_field not in ("doc",):
        if node.value is True or node.value is False:
            yield "flip-bool", lambda n: ast.Constant(not n.value)
        elif type(node.value) is int:
            yield "const+1", lambda n: ast.Constant(n.value + 1)
            if node.value:
                yield "const-1", lambda n: ast.Constant(n.value - 1)
        elif type(node.value) is float:
            yield "const*1.5+1", lambda n: ast.Constant(n.value * 1.5 + (1 if n.value == 0 else 0))
    if isinstance(node, ast.Expr) and isinstance(node.value, (ast.Call, ast.Await)):
        yield "delete-call", lambda n: ast.Pass()
    if isinstance(node, (ast.Assign, ast.AugAssign, ast.Delete)):
        yield "delete-" + type(node).__name__, lambda n: ast.Pass()
    if isinstance(node, ast.Raise):
        yield "delete-raise", lambda n: ast.Pass()
    if isinstance(node, (ast.Break, ast.Continue)):
        yield "delete-jump", lambda n: ast.Pass()
    if isinstance(node, ast.Return) and node.value is not None and not (isinstance(node.value, ast.Constant) and node.value.value is None):
        yield "return-none", lambda n: ast.Return(ast.Constant(None))
    if isinstance(node, ast.With):
        yield "unwrap-with", lambda n: ast.If(ast.Constant(True), n.body, [])
    if isinstance(node, ast.For):
        def f(n):
            n.iter = ast.Call(ast.Name("reversed", ast.Load()), [ast.Call(ast.Name("list", ast.Load()), [n.iter], [])], []); return n
        yield "reverse-loop", f
        def f(n):
            n.body = n.body + [ast.Break()]; return n
        yield "loop-once", f
    if isinstance(node, ast.Try):
        if node.finalbody:
            def f(n):
                body = n.body + n.finalbody
                return ast.If(ast.Constant(True), body, []) if not n.handlers else ast.Try(n.body, n.handlers, n.orelse, [])
            yield "finally-inline", f
        if node.handlers:
            yield "no-handlers", lambda n: ast.If(ast.Constant(True), n.body + n.orelse + n.finalbody, [])
    if isinstance(node, ast.Call):
        if len(node.args) >= 2:
            def f(n):
                n.args[0], n.args[1] = n.args[1], n.args[0]; return n
            yield "swap-args", f
        name = ast.unparse(node.func)
        if len(node.args) == 1 and not node.keywords and name in ("list", "dict", "set", "tuple", "copy.deepcopy", "copy.copy", "sorted", "reversed", "abs", "int", "float", "str"):
            yield "unwrap-call", lambda n: n.args[0]
        if name in ("min", "max"):
            def f(n, name=name):
                n.func = ast.Name("max" if name == "min" else "min", ast.Load()); return n
            yield "min-max", f
        if node.keywords and len(node.keywords) >= 1:
            for i in range(len(node.keywords)):
                def f(n, i=i):
                    del n.keywords[i]; return n
                yield f"drop-keyword-{i}", f
    if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
        yield "drop-slice", lambda n: n.value
    if isinstance(node, ast.Lambda):
        pass


def sites(tree):
    out = []

    def walk(node, path, field):
        out.append((node, path, field))
        for name, value in ast.iter_fields(node):
            if name in ("annotation", "returns", "type_comment", "decorator_list"):
                continue
            if isinstance(value, list):
                for i, x in enumerate(value):
                    if isinstance(x, ast.AST):
                        walk(x, path + [(name, i)], name)
            elif isinstance(value, ast.AST):
                walk(value, path + [(name, None)], name)
    walk(tree, [], "")
    return out


def all_mutants(path):
    src = path.read_text()
    tree = ast.parse(src)
    lines = src.splitlines()
    for node, p, field in sites(tree):
        if not p:
            continue
        for desc, f in mutations(node, field):
            t = copy.deepcopy(tree)
            parent = t
            for name, i in p[:-1]:
                parent = getattr(parent, name) if i is None else getattr(parent, name)[i]
            name, i = p[-1]
            n = getattr(parent, name) if i is None else getattr(parent, name)[i]
            new = f(n)
            if i is None:
                setattr(parent, name, new)
            else:
                getattr(parent, name)[i] = new
            ast.fix_missing_locations(t)
            try:
                text = ast.unparse(t)
                compile(text, "x", "exec")
            except Exception:
                continue
            line = getattr(node, "lineno", 0)
            key = hashlib.sha1((path.name + text).encode()).hexdigest()[:12]
            yield dict(key=key, file=path.stem, line=line, col=getattr(node, "col_offset", 0), op=desc, src=lines[line - 1].strip() if line else ""), text


def prepare(w):
    d = (SCRATCH if isinstance(w, int) or str(w).startswith("rf-") else SCRATCH.with_name("mutate_try")) / f"w{w}"
    if d.exists():
        shutil.rmtree(d)
    d.mkdir(parents=True)
    subprocess.run(["git", "clone", "-q", "/repo", str(d / "repo")], check=True)
    shutil.copytree(VERIF, d / "verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
    for f in ("run.py", "mon/core.py", "mon/sched.py"):
        q = d / "verif" / f
        q.write_text(q.read_text().replace("\"/repo", f"\"{d}/repo"))
    return d


def run(cmd, cwd, timeout, env):
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, start_new_session=True, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30)))
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, "timeout"


def worker(w, queue, lock, out, scale):
    d = prepare(w)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", VERIF_WORKERS="1", VERIF_SCALE=str(scale), VERIF_WALL="170", PYTHONPATH=str(d / "repo"))
    while True:
        item = queue.get()
        if item is None:
            return
        m, text = item
        target = d / "repo" / "nion" / "utils" / (m["file"] + ".py")
        original = target.read_text()
        target.write_text(text)
        try:
            rc, o = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "nion"], d / "repo", 60, env)
            if rc != 0 or "57 passed" not in o:
                m["result"] = "tests"
            else:
                m["result"] = "MISSED"
                m["codes"] = {}
                for c in CHECKS[m["file"]].split():
                    rc, o = run(["bash", "check.sh", c], d / "verif", 400, env)
                    m["codes"][c] = rc
                    if rc == 1 and "VIOLATION" in o:
                        m["result"] = c
                        break
        finally:
            target.write_text(original)
        with lock, open(out, "a") as f:
            f.write(json.dumps(m) + "\n")


def try_one(key, checks):
    """--try KEY CHECK...: show what the checks say about one mutant, at full scale"""
    d = prepare("try%d" % os.getpid())
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=str(d / "repo"))
    try:
        for name in CHECKS:
            for m, text in all_mutants(pathlib.Path("/repo/nion/utils") / (name + ".py")):
                if m["key"] == key:
                    print(m)
                    target = d / "repo" / "nion" / "utils" / (m["file"] + ".py")
                    target.write_text(text)
                    for c in checks or CHECKS[m["file"]].split():
                        print(*run(["bash", "check.sh", c], d / "verif", 400, env))
                    return
    finally:
        shutil.rmtree(d)


def main():
    if sys.argv[1] == "--try":
        return try_one(sys.argv[2], sys.argv[3:])
    out = sys.argv[1]
    names = sys.argv[2:] or sorted(CHECKS)
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)["key"] for l in open(out)}
    jobs = int(os.environ.get("JOBS", "8"))
    scale = float(os.environ.get("SCALE", "0.25"))
    queue = multiprocessing.Queue(maxsize=20)
    lock = multiprocessing.Lock()
    ws = [multiprocessing.Process(target=worker, args=(w, queue, lock, out, scale)) for w in range(jobs)]
    for p in ws:
        p.start()
    for name in names:
        for m, text in all_mutants(pathlib.Path("/repo/nion/utils") / (name + ".py")):
            if m["key"] not in done:
                done.add(m["key"])
                queue.put((m, text))
    for _ in ws:
        queue.put(None)
    for p in ws:
        p.join()
    shutil.rmtree(SCRATCH)


if __name__ == "__main__":
    main()
