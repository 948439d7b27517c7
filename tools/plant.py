"""Developer tool: confirm planted bugs in scratch copies and store them under /verif/seeded.

plant.py SPECS.py [id ...]   SPECS.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)]
"""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys

PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", NO_GCE_CHECK="true", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO_SH = '#!/bin/bash\n# cwd is the repository\nhere="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 NO_GCE_CHECK=true PYTHONWARNINGS=ignore\nexec timeout 200 /opt/venv/bin/python "$here/demo.py"\n'


DEMO_PY = '''import os, sys, types

# user functions must live in a module other than __main__ to be shared with the pipeline;
# the module is not imported because the pipeline's threads need the import lock
body = types.ModuleType("body")
sys.modules["body"] = body
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "body.py")
exec(compile(open(path).read(), path, "exec"), body.__dict__)
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, env=ENV, **kw)


def tests(d):
    s = open("/opt/vp/test.sh").read().replace("/repo", d)
    out = d + "-res.json"
    open(d + "-test.sh", "w").write(s)
    sh(["bash", d + "-test.sh", out])
    r = json.load(open(out))
    bad = sorted(STABLE - set(r["passed"]))
    for f in (d + "-test.sh", out):
        os.remove(f)
    return bad


def one(b, check_only=False):
    d = "/tmp/pl/" + b["id"]
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    msg = [b["id"], b["prop"]]
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            n = s.count(old)
            if n != 1:
                return msg + [f"EDIT matches {n} times: {old[:50]!r}"]
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "-C", d, "diff"]).stdout
        out = "/verif/seeded/" + b["id"]
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/body.py", "w").write(b["demo"].lstrip("\n"))
        open(out + "/demo.py", "w").write(DEMO_PY)
        open(out + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        r0 = sh(["bash", out + "/demo.sh"], cwd="/repo")
        r1 = sh(["bash", out + "/demo.sh"], cwd=d)
        msg.append(f"demo {r0.returncode}/{r1.returncode}")
        if r0.returncode != 0:
            msg.append(r0.stderr[-600:])
        if r1.returncode == 0:
            msg.append("DEMO DOES NOT FAIL")
        bad = tests(d)
        msg.append("tests ok" if not bad else f"TESTS FAIL {bad[:3]}")
        if bad or r0.returncode or not r1.returncode:
            shutil.rmtree(out)
        return msg
    finally:
        pass


def main():
    os.makedirs("/tmp/pl", exist_ok=True)
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    bugs = [b for b in ns["BUGS"] if not want or b["id"] in want]
    with cf.ThreadPoolExecutor(7) as ex:
        for m in ex.map(one, bugs):
            print(*m, flush=True)
    for b in bugs:
        d = "/tmp/pl/" + b["id"]
        if os.path.exists("/verif/seeded/" + b["id"]):
            r = subprocess.run(["./run.sh", b["prop"], "quick"], cwd="/verif", capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d, VERIF_SEED="1"))
            first = r.stdout.strip().splitlines()
            print(b["id"], b["prop"], "exit", r.returncode, [l for l in first if "VIOLATION" not in l][-2:], r.stderr[-300:] if r.returncode not in (0, 1) else "", flush=True)
        shutil.rmtree(d, ignore_errors=True)


main()
