"""Running a real module symbolically: a real context at init, then again with arbitrary
parameters and state of the shapes it asked for."""
import z3

from pyvc import arrays as A
from pyvc import containers as C
from pyvc import core
from pyvc import spec as S
from pyvc.core import SLeaf, Unsupported, V, ctx
from pyvc.models import build as M


def key(name="key"):
  return M.prng_leaf(ctx().fresh(name, V))


def entries(store):
  """[(module, name, value)] of a concrete two-level store."""
  out = []
  for m, d in items(store):
    for n, v in items(d):
      out.append((m, n, v))
  return out


def items(d):
  if isinstance(d, dict):
    return list(d.items())
  return [(k, d[k]) for k in list(d.keys())]


def names(store):
  return sorted(f"{m}:{n}" for m, n, _ in entries(store))


def fresh_like(store, keep=()):
  """The same entries with arbitrary values of the same shapes."""
  out = {}
  for m, n, v in entries(store):
    if n in keep:
      out.setdefault(m, {})[n] = v
    else:
      if not isinstance(v, A.Arr):
        raise Unsupported(f"{m}:{n} is not an array")
      out.setdefault(m, {})[n] = A.new(f"{m}:{n}", v.shp, v.dt, v.kind)
  return out


class Init:
  """f run at init."""

  def __init__(self, U, f, rng=True):
    base = U("base")
    def go():
      with base.new_context(rng=key() if rng else None) as c:
        self.out = f()
      self.params = c.collect_params()
      self.state = c.collect_initial_state()
      return self
    self.r = S.outcome(go)
    self.ok = not isinstance(self.r, S.Raised)


class Apply:
  """f run with these parameters and state."""

  def __init__(self, U, f, params, state=None, rng=None):
    base = U("base")
    def go():
      with base.new_context(params=params, state=state if state is not None else {}, rng=rng) as c:
        self.out = f()
      self.after = c.collect_state()
      return self
    self.params, self.before = params, state or {}
    self.r = S.outcome(go)
    self.ok = not isinstance(self.r, S.Raised)


def init_apply(name, U, f, keep=(), rng=True):
  """(init run, apply run on arbitrary parameters), or None after a failed obligation."""
  i = Init(U, f, rng)
  if not S.no_raise(name + " at init", i.r):
    return None
  a = Apply(U, f, fresh_like(i.params), fresh_like(i.state, keep), rng=key("apply_key"))
  if not S.no_raise(name + " at apply", a.r):
    return None
  return i, a


def same_names(name, store, want):
  got = names(store)
  S.prove(name, z3.BoolVal(got == sorted(want))) if got == sorted(want) else ctx().prove_false(name, f"{got}, expected {sorted(want)}")
  return got == sorted(want)


def dims(n, lo=1, prefix="d"):
  return tuple(S.sint(f"{prefix}{i}", lo) for i in range(n))
