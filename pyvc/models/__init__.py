"""Assumed contracts of the dependencies (jax, numpy, collections, re, ...).

Everything here is trusted: it is listed in the evidence as an assumption.
A jax function without a specific model is an uninterpreted function of its
arguments (equal arguments give equal results, nothing else is known); a
refutation that depends on such a function is reported as undecided.
"""

_MODS = {}


def lookup(name, fromlist):
  if not _MODS:
    from pyvc.models import build
    _MODS.update(build.modules())
  if name in _MODS:
    if fromlist or "." not in name:
      return _MODS[name]
    return _MODS[name.split(".")[0]]
  if name.split(".")[0] in ("jax", "numpy"):
    raise ImportError(name)
  return None
