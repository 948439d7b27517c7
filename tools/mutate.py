"""Developer tool: AST mutants of one source file, run against some checks; prints survivors.

mutate.py FILE(relative to sawatabi/) CHECKS(comma separated) [seconds per check]
"""
import ast, copy, json, os, shutil, signal, subprocess, sys, tempfile, time

REPO = "/repo"
os.environ.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", NO_GCE_CHECK="true", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", VERIF_SEED="1")

CMP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.Lt], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.Mult], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd]}


def mutants(src):
    tree = ast.parse(src)
    nodes = [n for n in ast.walk(tree)]
    doc = {id(n.body[0]) for n in nodes if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant)}
    out = []

    def emit(desc, line):
        out.append((desc, line, ast.unparse(tree)))

    for n in nodes:
        line = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                for r in CMP.get(type(op), []):
                    n.ops[i] = r()
                    emit(f"cmp {type(op).__name__}->{r.__name__}", line)
                    n.ops[i] = op
        elif isinstance(n, (ast.BinOp, ast.AugAssign)):
            op = n.op
            for r in BIN.get(type(op), []):
                n.op = r()
                emit(f"bin {type(op).__name__}->{r.__name__}", line)
            n.op = op
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            n.op = ast.UAdd()
            emit("usub dropped", line)
            n.op = ast.USub()
        elif isinstance(n, ast.BoolOp):
            op = n.op
            n.op = ast.Or() if isinstance(op, ast.And) else ast.And()
            emit("and/or", line)
            n.op = op
            if len(n.values) > 1:
                vs = n.values
                for k in range(len(vs)):
                    n.values = vs[:k] + vs[k + 1:] if len(vs) > 2 else [vs[1 - k]] * 2
                    emit(f"drop operand {k}", line)
                n.values = vs
        elif isinstance(n, ast.Constant) and not isinstance(n.value, str) and id(n) not in doc and n.value is not None and n.value is not Ellipsis:
            v = n.value
            for r in ([not v] if isinstance(v, bool) else [v + 1] if v == 0 else [v + 1, 0 * v]):
                n.value = r
                emit(f"const {v}->{r}", line)
            n.value = v
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            t = n.test
            for c in (True, False):
                n.test = ast.Constant(c)
                emit(f"cond->{c}", line)
            n.test = t
        if hasattr(n, "body") and isinstance(n.body, list):
            for attr in ("body", "orelse", "finalbody"):
                b = getattr(n, attr, None)
                if not isinstance(b, list):
                    continue
                for i, s in enumerate(b):
                    if id(s) in doc or isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass)):
                        continue
                    b[i] = ast.Pass()
                    emit(f"drop {ast.unparse(s).splitlines()[0][:70]}", s.lineno)
                    b[i] = s
        if isinstance(n, ast.Call):
            if n.keywords:
                ks = n.keywords
                for k in range(len(ks)):
                    n.keywords = ks[:k] + ks[k + 1:]
                    emit(f"drop keyword {ks[k].arg}", line)
                n.keywords = ks
            if len(n.args) == 1 and not n.keywords and isinstance(n.func, (ast.Name, ast.Attribute)):
                f = n.func
                nm = f.id if isinstance(f, ast.Name) else f.attr
                if nm in ("deepcopy", "copy", "sorted", "list", "abs", "float", "int", "dict", "set", "max", "min", "bool", "str"):
                    a, kw = n.func, n.args
                    n.func = ast.Name("_ident")
                    out.append((f"call {nm} dropped", line, ast.unparse(tree) + "\n\ndef _ident(x):\n    return x\n"))
                    n.func = a
    seen, res = {src}, []
    for d, l, s in out:
        if s in seen:
            continue
        seen.add(s)
        try:
            compile(s, "x", "exec")
        except SyntaxError:
            continue
        res.append((d, l, s))
    return res


def child(base, checks, secs, wfd):
    sys.path.insert(0, base)
    sys.path.insert(0, "/verif/harness")
    os.environ["VERIF_REPO"] = base
    os.environ["PYTHONPATH"] = base + ":/verif/harness"
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2)
    verdict = "SURVIVED"
    try:
        import common, run
        for c in checks:
            fn = common.resolve(run.CHECKS[c][0])
            t0 = time.time()
            for i in range(run.CHECKS[c][1]):
                if time.time() - t0 > secs:
                    break
                r = common.run_case(fn, c, 1, i, "quick", 40)
                if r["status"] != "ok" or any((c, k) not in common.load_known() for k in r["known"]):
                    verdict = f"{c}#{i} {r['status']} {str(r.get('message'))[:90]}"
                    break
            if verdict != "SURVIVED":
                break
    except BaseException as e:  # noqa
        verdict = f"import {type(e).__name__}"
    os.write(wfd, verdict.encode()[:1000])
    os._exit(0)


def main():
    rel, checks = sys.argv[1], sys.argv[2].split(",")
    secs = float(sys.argv[3]) if len(sys.argv) > 3 else 8
    jobs = int(os.environ.get("JOBS", "8"))
    src = open(f"{REPO}/sawatabi/{rel}").read()
    src = ast.unparse(ast.parse(src))  # line numbers below are those of the unparsed text
    work = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    open(f"/tmp/mut-src-{rel.replace('/', '_')}", "w").write(src)
    ms = mutants(src)
    if os.environ.get("LINES"):
        a, b = map(int, os.environ["LINES"].split("-"))
        ms = [m for m in ms if a <= m[1] <= b]
    print(rel, len(ms), "mutants", flush=True)
    import apache_beam, apache_beam.testing.test_stream, pandas, numpy, dimod, neal, pyqubo, scipy, requests  # noqa  (preload)
    try:
        import dwave.system  # noqa
    except Exception:
        pass
    running = {}
    surv = 0

    def reap(block):
        nonlocal surv
        while running:
            for pid in list(running):
                k, r, base, t0 = running[pid]
                p, _ = os.waitpid(pid, os.WNOHANG)
                if not p and time.time() - t0 > 90 + 4 * secs * len(checks):
                    os.killpg(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    p = pid
                if p:
                    v = os.read(r, 2000).decode(errors="replace") or "died/hang"
                    os.close(r)
                    del running[pid]
                    shutil.rmtree(base, ignore_errors=True)
                    d, l, _ = ms[k]
                    if v == "SURVIVED":
                        surv += 1
                    print(f"{'**' if v == 'SURVIVED' else '  '} {l}: {d} => {v}", flush=True)
                    if not block:
                        return
            if len(running) < jobs and not block:
                return
            time.sleep(0.05)

    for k, (d, l, s) in enumerate(ms):
        while len(running) >= jobs:
            reap(False)
        base = f"{work}/{k}"
        shutil.copytree(f"{REPO}/sawatabi", f"{base}/sawatabi", ignore=shutil.ignore_patterns("__pycache__"))
        open(f"{base}/sawatabi/{rel}", "w").write(s)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.setpgid(0, 0)
            os.close(r)
            child(base, checks, secs, w)
        os.close(w)
        running[pid] = (k, r, base, time.time())
    reap(True)
    shutil.rmtree(work, ignore_errors=True)
    print(rel, "survivors", surv, "of", len(ms), flush=True)


main()
