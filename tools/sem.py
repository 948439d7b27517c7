"""Developer tool: quick look at which changed copies a property's quick check catches (no tests, no demo).

sem.py SPECS.py [id ...]   SPECS.py defines S = [(id, prop, [(file, old, new), ...]), ...]
"""
import os, re, shutil, subprocess, sys

ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
tier = os.environ.get("TIER", "quick")
miss = []
for id, prop, edits in ns["S"]:
    if want and id not in want:
        continue
    d = "/tmp/sem/" + id
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.environ.get("SEMSRC", "/repo") + "/sawatabi", d + "/sawatabi", ignore=shutil.ignore_patterns("__pycache__"))
    ok = True
    for f, old, new in edits:
        p = f"{d}/sawatabi/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            print(id, f"EDIT matches {s.count(old)} times: {old[:60]!r}")
            ok = False
            break
        open(p, "w").write(s.replace(old, new))
    if ok:
        for pr in prop.split(","):
            r = subprocess.run([os.environ.get("VRUN","/verif/run.sh"), pr, tier], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d, VERIF_SEED="1"))
            msg = [l for l in r.stdout.splitlines() if re.match(r"C\d+ case", l)]
            print("  " if r.returncode == 1 else "**", id, pr, r.returncode, (msg[0][:170] if msg else r.stdout.strip()[-150:] + r.stderr[-200:]), flush=True)
            if r.returncode != 1:
                miss.append((id, pr))
    shutil.rmtree(d, ignore_errors=True)
shutil.rmtree("/tmp/sem", ignore_errors=True)
print("missed:", miss)
