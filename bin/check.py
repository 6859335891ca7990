"""check.py PROPERTY [--tier quick|thorough]: decide one property.

1. Every contract of the property is verified against /repo's current source
   (pyvc: the real functions, re-read and instrumented on this run).
2. The executable form of the property runs against the real code under CPython:
   it searches a failing input for a refuted obligation, cross-checks the
   assumed contracts, and is the bounded stand-in for what is out of reach.
"""
import argparse
import hashlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.setrecursionlimit(6000)
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(ROOT, "evidence"))
PY = sys.executable


def allowed(c, tier):
  """Seconds of solving allowed for one contract (the quick tier leaves room for a machine half as fast)."""
  return c.budget * 4 if tier == "thorough" else min(360, max(150, c.budget * 2))


def verify_one(args):
  """Runs one contract in this process."""
  prop, idx, tier, q = args
  os.nice(5)
  from pyvc import core, spec
  from pyvc.instrument import Universe
  import contracts
  contracts.load(prop)
  c = spec.REGISTRY[prop][idx]
  res = {"name": c.name, "functions": c.functions, "obligations": [], "unsupported": [], "errors": [],
         "note": c.note, "bounded": getattr(c, "bounded", "")}
  t0 = time.time()
  try:
    u = Universe(REPO)
    U = lambda n: u.load("haiku._src." + n)
    budget = allowed(c, tier)
    if tier == "thorough":
      core.Ctx.TIMEOUT_MS = 40000
    run = core.Run(c.name, budget)
    run.explore(lambda ctx: c.fn(U))
    for o in run.obligations:
      res["obligations"].append((o.name, o.status, o.detail[:3000] if o.status != "proved" else "",
                                 o.model if o.status != "proved" else None,
                                 (o.smt or "")[:20000] if o.status not in ("proved",) else ""))
    res["unsupported"] = run.unsupported
    res["tb"] = run.tb[:3]
    res["errors"] = run.errors
    res["paths"] = run.paths
    res["feasible"] = run.feasible_paths
    res["by"] = dict(core.STATS.by)
    res["solver_s"] = core.STATS.solver_s
    res["queries"] = core.STATS.queries
    res["models"] = sorted(core.USED_MODELS)
    res["sources"] = {k: hashlib.sha256(v.encode()).hexdigest()[:16] for k, v in u.sources.items()}
  except BaseException as e:
    import traceback
    res["errors"].append(f"{type(e).__name__}: {e}\n{traceback.format_exc(limit=-8)}")
  res["wall_s"] = time.time() - t0
  q.put((idx, json.dumps(res, default=str)))


def run_contracts(prop, tier, hard):
  import contracts
  from pyvc import spec
  contracts.load(prop)
  n = len(spec.REGISTRY.get(prop, []))
  ctxm = mp.get_context("fork")
  q = ctxm.Queue()
  todo = sorted(range(n), key=lambda k: -spec.REGISTRY[prop][k].budget)
  live, out = {}, {}
  names = [c.name for c in spec.REGISTRY.get(prop, [])]
  t_end = time.time() + hard
  width = max(2, min(7, (os.cpu_count() or 4) - 1))
  while todo or live:
    while todo and len(live) < width:
      k = todo.pop(0)
      p = ctxm.Process(target=verify_one, args=((prop, k, tier, q),), daemon=True)
      p.start()
      b = allowed(spec.REGISTRY[prop][k], tier)
      live[k] = (p, time.time() + b * 1.5 + 30)
    try:
      k, r = q.get(timeout=0.2)
      out[k] = json.loads(r)
      live.pop(k, (None,))
    except Exception:
      pass
    for k, (p, end) in list(live.items()):
      if time.time() > min(end, t_end):
        p.kill()
        live.pop(k)
        out[k] = {"name": names[k], "functions": spec.REGISTRY[prop][k].functions, "obligations": [],
                  "unsupported": ["time limit"], "errors": [], "wall_s": hard, "note": ""}
      elif not p.is_alive() and k not in out:
        try:
          while True:
            k2, r = q.get(timeout=1.0)
            out[k2] = json.loads(r)
            live.pop(k2, None)
        except Exception:
          pass
        if k not in out:
          live.pop(k, None)
          out[k] = {"name": names[k], "functions": spec.REGISTRY[prop][k].functions, "obligations": [],
                    "unsupported": ["verifier process ended"], "errors": [], "wall_s": 0, "note": ""}
  return [out[k] for k in range(n)]


def start_concrete(prop, tier, seed, limit, out, focus=None):
  env = dict(os.environ, PYTHONPATH=REPO + os.pathsep + ROOT, JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1",
             PYTHONHASHSEED="0", TF_CPP_MIN_LOG_LEVEL="3", VERIF_REPO=REPO)
  cmd = [PY, "-m", "concrete.run", prop, "--tier", tier, "--seed", str(seed), "--limit", str(limit), "--out", out]
  if focus:
    cmd += ["--focus", focus]
  return subprocess.Popen(cmd, cwd=ROOT, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def known_findings(prop):
  out = []
  f = os.path.join(ROOT, "known_findings.txt")
  if os.path.exists(f):
    for line in open(f):
      line = line.strip()
      if line.startswith("finding:") and f"property={prop} " in line:
        out.append(line[len("finding:"):].strip())
  return out


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument("prop")
  ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
  ap.add_argument("--no-concrete", action="store_true")
  ap.add_argument("--no-proof", action="store_true")
  ap.add_argument("-v", action="store_true")
  a = ap.parse_args()
  seed = int(os.environ.get("VERIF_SEED", "1"))
  t0 = time.time()
  work = os.path.join(EVID, "work")
  os.makedirs(work, exist_ok=True)
  cout = os.path.join(work, f"{a.prop}.concrete.json")
  if os.path.exists(cout):
    os.remove(cout)
  quick = a.tier != "thorough"
  climit = 120 if quick else 1500
  proc = None if a.no_concrete else start_concrete(a.prop, a.tier, seed, climit, cout)
  results = [] if a.no_proof else run_contracts(a.prop, a.tier, 480 if quick else 3000)

  conc = None
  clog = ""
  if proc is not None:
    try:
      clog = proc.communicate(timeout=climit + 240)[0].decode(errors="replace")
    except subprocess.TimeoutExpired:
      proc.kill()
      clog = "concrete run timed out"
    if os.path.exists(cout):
      conc = json.load(open(cout))

  refuted, undecided, proved, total = [], [], 0, 0
  for r in results:
    vac = True
    for (name, status, detail, model, smt) in r["obligations"]:
      total += 1
      if status == "proved":
        proved += 1
        vac = False
      elif status == "refuted":
        refuted.append((r["name"], name, detail, model, smt))
      else:
        undecided.append((r["name"], name, detail))
    for u in r["unsupported"]:
      undecided.append((r["name"], "out of reach", u))
    for e in r["errors"]:
      undecided.append((r["name"], "not verifiable", e))
    vac = vac or (not r["unsupported"] and not r["errors"] and r.get("feasible", 1) == 0)
    if vac and not r["unsupported"] and not r["errors"] and not any(x[0] == r["name"] for x in refuted):
      undecided.append((r["name"], "vacuous", "no obligation on any feasible path"))

  # A refutation in a contract that also met code out of the verifier's reach is
  # not conclusive by itself: the bounded check decides.  Obligations the solvers
  # left open, or paths there was no time for, do not weaken one that is refuted.
  flaky = {n for n, w, d in undecided
           if w in ("out of reach", "not verifiable") and not str(d).startswith("time ")}
  solid = [x for x in refuted if x[0] not in flaky]
  soft = [x for x in refuted if x[0] in flaky]

  failures = conc["failures"] if conc else []
  known = known_findings(a.prop)
  kept, printed = [], set()
  for f in failures:
    k = next((l for l in known if f"key={f['law']}:" in l and (l.split(f"key={f['law']}:", 1)[1].split()[0]
                                                              in (f.get("key", ""), "*"))), None)
    if k is None:
      kept.append(f)
    else:
      printed.add(k)
  for l in known:
    print("KNOWN-FINDING: " + l)

  ok_conc = conc is not None and conc.get("complete", False)
  if conc is not None and conc.get("crashed"):
    kept.append({"law": "import", "seed": seed, "detail": conc["crashed"], "key": "crash"})

  replay = os.path.join(EVID, f"{a.prop}.replay.txt")
  violations = 0
  rc = 0
  if kept:
    with open(replay, "w") as fh:
      fh.write(f"property {a.prop}: the real code in {REPO} breaks it.\n\n")
      for f in kept[:10]:
        fh.write(f"law {f['law']} (concrete/{a.prop}), case seed {f['seed']}\n")
        fh.write(f"replay: cd {ROOT} && PYTHONPATH={REPO}:{ROOT} JAX_PLATFORMS=cpu {PY} -m concrete.run {a.prop} "
                 f"--law {f['law']!r} --case {f['seed']}\n{f['detail']}\n\n")
      for x in refuted[:10]:
        fh.write(f"failed obligation: {x[0]} / {x[1]}\n{x[2]}\ncountermodel: {x[3]}\n\n")
    print(f"VIOLATION property={a.prop} replay={replay}")
    violations, rc = len(kept), 1
  elif solid:
    with open(replay, "w") as fh:
      fh.write(f"property {a.prop}: obligations refuted; no failing input found among "
               f"{conc['evaluations'] if conc else 0} concrete cases.\n\n")
      for x in solid[:10]:
        fh.write(f"failed obligation: {x[0]} / {x[1]}\n{x[2]}\ncountermodel: {x[3]}\n\nquery:\n{x[4]}\n\n")
    print(f"VIOLATION property={a.prop} replay={replay} no-failing-input-found")
    violations, rc = len(solid), 1

  functions = sorted({f for r in results for f in r["functions"]})
  by = {}
  for r in results:
    for k, v in r.get("by", {}).items():
      by[k] = by.get(k, 0) + v
  und_contracts = sorted({n for n, _, _ in undecided} | {x[0] for x in soft})
  bounded = conc.get("bounds", []) if conc else []
  fully = not undecided and not refuted and total > 0
  coverage = {
      "obligations": total, "discharged": proved,
      "checker_cmd": f"{PY} bin/check.py {a.prop} --tier {a.tier}",
      "trusted_base": ["z3 4.x (python API), cvc5 for what z3 leaves unknown",
                       "pyvc: instrumentation, symbolic values and loop summaries (/verif/pyvc)",
                       "CPython semantics of the constructs pyvc executes natively"]
                      + ["assumed contract: " + m for m in sorted({m for r in results for m in r.get("models", [])})],
      "discharged_by": by,
      "solver_s": round(sum(r.get("solver_s", 0) for r in results), 2),
      "solver_queries": sum(r.get("queries", 0) for r in results),
      "paths": sum(r.get("paths", 0) for r in results),
      "functions_under_contract": functions,
      "contracts": [{"name": r["name"], "obligations": len(r["obligations"]),
                     "discharged": sum(1 for o in r["obligations"] if o[1] == "proved"),
                     "wall_s": round(r["wall_s"], 2),
                     "status": ("undecided" if r["name"] in und_contracts else
                                "refuted" if any(x[0] == r["name"] for x in solid) else "proved")}
                    for r in results],
      "undecided": [{"contract": n, "what": w, "why": str(d)[:300]} for n, w, d in undecided[:20]],
      "verified_sources": {k: v for r in results for k, v in r.get("sources", {}).items()},
      "bounded_standin_for": und_contracts,
      "concrete": {"evaluations": conc["evaluations"] if conc else 0,
                   "distinct": conc["distinct"] if conc else 0,
                   "laws": conc["laws"] if conc else {},
                   "bounds": bounded, "samples": conc["samples"] if conc else [], "complete": ok_conc},
  }
  ev = {"property": a.prop, "tier": "quick" if quick else "thorough", "seed": seed, "level": "proof",
        "coverage": coverage,
        "assumptions": ["the contracts of jax, jaxlib, numpy and the standard library listed under trusted_base",
                        "machine integers and floats are mathematical integers and reals (or uninterpreted)",
                        "one thread; no asynchronous exceptions"],
        "wall_s": round(time.time() - t0, 2), "violations": violations}
  with open(os.path.join(EVID, f"{a.prop}.json"), "w") as fh:
    json.dump(ev, fh, indent=1)
  print(f"{a.prop}: {proved}/{total} obligations discharged in {len(results)} contracts "
        f"({len(und_contracts)} undecided), concrete cases "
        f"{conc['evaluations'] if conc else 0}, {len(kept)} failing, {time.time() - t0:.1f}s")
  if a.v or (rc == 0 and not ok_conc):
    for n, w, d in undecided[:30]:
      print("  undecided:", n, "/", w, "/", str(d)[:1500])
    for x in refuted[:10]:
      print("  refuted:", x[0], "/", x[1], "/", x[2][:1500], x[3])
    for f in kept[:10]:
      print("  failing:", f["law"], f["seed"], f["detail"][:1500])
    if not ok_conc:
      print(clog[-3000:])
  if rc == 0 and not fully and not ok_conc and not a.no_concrete:
    print(f"{a.prop}: no answer (neither proof nor complete bounded check)")
    return 3
  return rc


if __name__ == "__main__":
  sys.exit(main())
