"""seed.py <spec.py>: make seeded/<id>/ from a spec (ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO=python text), confirm it in a scratch copy.
options: --notest (skip the repository tests)"""
import json, os, shutil, subprocess, sys, tempfile
spec = {}
exec(open(sys.argv[1]).read(), spec)
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = tempfile.mkdtemp(prefix="seed_")
try:
    r = d + "/repo"
    subprocess.check_call(["cp", "-a", "/repo", r])
    for f, a, b in spec["EDITS"]:
        s = open(r + "/" + f).read()
        assert s.count(a) == 1, (f, a, s.count(a))
        open(r + "/" + f, "w").write(s.replace(a, b))
    diff = subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True).stdout
    out = "%s/seeded/%s" % (H, spec["ID"])
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo.py", "w").write(spec["DEMO"].lstrip())
    open(out + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd = the repository\nD="$(cd "$(dirname "$0")" && pwd)"\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$D/demo.py"\n')
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": spec["PROP"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
    ok = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    bad = subprocess.run(["bash", out + "/demo.sh"], cwd=r, capture_output=True, text=True)
    print("demo on clean:", ok.returncode, ok.stderr[-300:], "| on patched:", bad.returncode, bad.stderr[-200:].replace("\n", " "))
    if "--notest" not in sys.argv:
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-n", "4", "-p", "no:cacheprovider", "nidn/tests"], cwd=r, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=r, MPLBACKEND="Agg", OMP_NUM_THREADS="1"))
        print("tests:", t.returncode, t.stdout[-300:].replace("\n", " "))
    e = subprocess.run(["/opt/venv/bin/python", "check.py", spec["PROP"]], cwd=H, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=r))
    print("check:", e.returncode, "\n".join(x[:260] for x in e.stdout.strip().split("\n")[-4:]))
finally:
    shutil.rmtree(d)
