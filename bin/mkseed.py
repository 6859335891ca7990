"""mkseed.py SPEC.py: writes seeded/<id>/ from a spec (ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO)."""
import json, os, subprocess, sys, shutil, tempfile
for f in sys.argv[1:]:
  ns = {}
  exec(open(f).read(), ns)
  for s in ns["SEEDS"]:
    d = f"/verif/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(dir="/tmp")
    subprocess.check_call(["git", "clone", "-q", "/repo", w + "/repo"])
    for file, old, new in s["edits"]:
      p = f"{w}/repo/{file}"
      t = open(p).read()
      assert t.count(old) == 1, (s["id"], file, t.count(old), old)
      open(p, "w").write(t.replace(old, new))
    diff = subprocess.check_output(["git", "-C", w + "/repo", "diff"], text=True)
    open(d + "/patch.diff", "w").write(diff)
    shutil.rmtree(w)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.py", "w").write("import haiku as hk\nimport jax\nimport jax.numpy as jnp\nimport numpy as np\n" + s["demo"])
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# Run with cwd at the repository root.\n'
                                    'export PYTHONPATH="$PWD" JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1\n'
                                    'exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    print("wrote", s["id"])
