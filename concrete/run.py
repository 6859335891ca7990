"""Runs the executable laws of one property against the haiku on PYTHONPATH."""
import argparse
import importlib
import json
import os
import sys
import time
import traceback
import warnings
import zlib

MODULES = {
    "C01": ["store"], "C02": ["store"], "C04": ["rng"], "C13": ["conv"], "C08": ["structures"], "C09": ["structures"],
    "C03": ["transform"], "C05": ["modules"], "C06": ["modules"], "C07": ["hooks"], "C10": ["lifting"], "C11": ["stateful"], "C12": ["stateful"],
    "C14": ["nn"], "C15": ["nn"], "C16": ["nn"], "C17": ["nn"], "C18": ["nn2"], "C19": ["nn2"], "C20": ["nn2"], "C21": ["nn2"], "C22": ["nn2"], "C23": ["rng_scope"], "C24": ["nets"],
}


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument("prop")
  ap.add_argument("--tier", default="quick")
  ap.add_argument("--seed", type=int, default=1)
  ap.add_argument("--limit", type=float, default=100)
  ap.add_argument("--out")
  ap.add_argument("--law")
  ap.add_argument("--case", type=int)
  ap.add_argument("--focus")
  a = ap.parse_args()
  warnings.simplefilter("ignore")
  t0 = time.time()
  res = {"evaluations": 0, "distinct": 0, "laws": {}, "failures": [], "samples": [], "bounds": [], "complete": False}
  try:
    from concrete import laws as L
    import haiku  # noqa: F401  a tree that cannot be imported breaks every property
    for m in MODULES[a.prop]:
      importlib.import_module("concrete." + m)
  except Exception as e:
    res["crashed"] = traceback.format_exc(limit=-6)
    if a.out:
      json.dump(res, open(a.out, "w"))
    print(res["crashed"])
    return 1
  todo = L.LAWS.get(a.prop, {})
  if a.law:
    seeds = [a.case]
    g = L.Gen(a.case)
    try:
      todo[a.law].fn(g)
      print("holds; drawn:", g.log)
      return 0
    except Exception:
      traceback.print_exc()
      print("drawn:", g.log)
      return 1
  budget = {n: (l.quick if a.tier != "thorough" else l.thorough) for n, l in todo.items()}
  done = {n: 0 for n in todo}
  bad = {n: 0 for n in todo}
  skipped = {n: 0 for n in todo}
  sigs = set()
  complete = True
  active = [n for n in todo if budget[n] > 0]
  while active:
    for n in list(active):
      if time.time() - t0 > a.limit:
        complete = all(done[m] > skipped[m] for m in todo)
        active = []
        break
      k = done[n]
      seed = (zlib.crc32(f"{a.prop}/{n}/{k}".encode()) + 7919 * a.seed) % (2 ** 31)
      g = L.Gen(seed)
      done[n] += 1
      try:
        todo[n].fn(g)
        res["evaluations"] += 1
      except L.Skip:
        skipped[n] += 1
      except Exception as e:
        res["evaluations"] += 1
        bad[n] += 1
        tb = traceback.format_exc(limit=-5)
        if bad[n] <= 2:
          res["failures"].append({"law": n, "seed": seed, "key": getattr(e, "key", ""),
                                  "detail": f"drawn: {g.log}\n{tb}"[:4000]})
        if bad[n] >= 2:
          active.remove(n)
          continue
      sig = (n, repr(g.log))
      if sig not in sigs:
        sigs.add(sig)
        if len(res["samples"]) < 8 and k == 0:
          res["samples"].append({"law": n, "drawn": g.log[:12]})
      if done[n] >= budget[n]:
        active.remove(n)
  res["distinct"] = len(sigs)
  res["laws"] = {n: done[n] - skipped[n] for n in todo}
  res["bounds"] = [f"{n}: {done[n] - skipped[n]} random cases; {todo[n].bound}" for n in todo]
  res["complete"] = complete and bool(todo)
  res["wall_s"] = time.time() - t0
  if a.out:
    json.dump(res, open(a.out, "w"), default=str)
  for f in res["failures"]:
    print("FAIL", f["law"], f["seed"], f["detail"])
  print({k: res[k] for k in ("evaluations", "distinct", "laws", "complete", "wall_s")})
  return 1 if res["failures"] else 0


if __name__ == "__main__":
  sys.exit(main())
