"""mkseed.py ID PROP : reads a JSON spec on stdin {edits:[[file,old,new]],demo:..., needs, what} and validates + writes /verif/seeded/ID"""
import json, os, subprocess, sys, shutil, tempfile
sid, prop = sys.argv[1:3]
spec = {}
exec(sys.stdin.read(), spec)
W = tempfile.mkdtemp(prefix="seed")
R = os.path.join(W, "repo")
subprocess.check_call(["cp", "-a", "/repo", R])
for f, old, new in spec["edits"]:
    p = os.path.join(R, f)
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
diff = subprocess.check_output(["git", "-C", R, "diff"], text=True)
out = f"/verif/seeded/{sid}"
os.makedirs(out, exist_ok=True)
open(out + "/patch.diff", "w").write(diff)
open(out + "/demo.py", "w").write(spec["demo"].lstrip("\n"))
open(out + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
os.chmod(out + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": spec["needs"], "what_it_breaks": spec["what"]}, open(out + "/meta.json", "w"), indent=1)
env = dict(os.environ)
r0 = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
r1 = subprocess.run(["bash", out + "/demo.sh"], cwd=R, capture_output=True, text=True)
ok = r0.returncode == 0 and r1.returncode != 0
t = subprocess.run(["bash", "-c", f"cd {R} && PYTHONDONTWRITEBYTECODE=1 timeout 200 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=5 -x 2>&1 | tail -3"], capture_output=True, text=True, env=dict(env, PYTHONPATH=R))
shutil.rmtree(W)
print(sid, "demo", r0.returncode, r1.returncode, "OK" if ok else "BAD", (r0.stderr + r0.stdout)[-800:] if r0.returncode else "", (r1.stderr + r1.stdout)[-200:] if ok else "PASSED WITH PATCH")
print(t.stdout[-300:])
