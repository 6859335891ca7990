"""Runs the repository's stable tests in a scratch copy; prints ok or the stable tests that fail."""
import json, os, subprocess, sys, tempfile
repo = sys.argv[1]
sh = open("/opt/vp/test.sh").read().replace("PYTHONPATH=/repo", f"PYTHONPATH={repo}").replace("cd /repo", f"cd {repo}")
with tempfile.TemporaryDirectory() as d:
  open(d + "/t.sh", "w").write(sh)
  subprocess.run(["bash", d + "/t.sh", d + "/o.json"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
  o = json.load(open(d + "/o.json"))
st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
miss = sorted(st - set(o["passed"]))
print("ok" if not miss else f"FAIL{len(miss)}:{miss[:3]}")
