"""p2.py ID [extra PROP...]: like plant.py but in a private mount namespace (copy of /repo at /repo, copy of /verif at /verif)"""
import sys, os, subprocess, json, shutil, importlib.util
id, extra = sys.argv[1], sys.argv[2:]
spec = importlib.util.spec_from_file_location("m", "/tmp/pl/%s.py" % id); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
W = "/tmp/pl/w-" + id; V = "/tmp/pl/v-" + id
for x in (W, V): shutil.rmtree(x, ignore_errors=True)
subprocess.check_call(["cp", "-a", "/repo", W])
d = "/verif/seeded/" + id
os.makedirs(d, exist_ok=True)
for f, old, new in m.EDITS:
    p = os.path.join(W, "src/hypertag", f); s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", W, "diff"], text=True))
open(d + "/demo.py", "w").write(m.DEMO.lstrip())
open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: the property holds; nonzero: it is broken\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": m.PROP, "needs": m.NEEDS, "what_it_breaks": m.BREAKS}, open(d + "/meta.json", "w"), indent=1)
def ns(cmd, cwd): return subprocess.run(["unshare", "-m", "bash", "-c", "mount --bind %s /repo; [ -d %s ] && mount --bind %s /verif; cd %s; %s" % (W, V, V, cwd, cmd)], capture_output=True, text=True)
a = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
b = ns("bash %s/demo.sh" % d, "/repo")
print(id, "demo unchanged:", a.returncode, a.stderr[-300:], " patched:", b.returncode, b.stderr[-300:].strip().split("\n")[-1])
t = ns("bash /opt/vp/test.sh /tmp/pl/o-%s.json" % id, "/repo")
ok = "47 passed, 0 failed" in t.stdout
print(id, t.stdout.strip().split("\n")[-1])
if ok and b.returncode:
    shutil.copytree("/verif", V, ignore=shutil.ignore_patterns(".git", "seeded"))
    for p in [m.PROP] + extra:
        c = ns("python3 -B harness/run_check.py " + p, "/verif")
        print(id, "CHECK", p, "exit", c.returncode, c.stdout[:600].replace("\n", "\n    "))
shutil.rmtree(W, ignore_errors=True); shutil.rmtree(V, ignore_errors=True)
print("RESULT", id, "good" if a.returncode == 0 and b.returncode != 0 and ok else "BAD")
