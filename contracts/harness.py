"""Shared set-up: arbitrary haiku contexts."""
import z3

from pyvc import containers as C
from pyvc import rt
from pyvc import spec as S
from pyvc.containers import EDict, EDict2, EList, ESet
from pyvc.core import SInt, SLeaf, SStr, Str, V, Bool, Int, ctx, mk_str


class FakeModule:
  """A module instance as far as the store is concerned: it has a name."""

  def __init__(self, name):
    self.module_name = name
    self.name = name

  def vc_encode(self):
    return z3.Function("module_named", Str, V)(S.zstr(self.module_name))


def flat_mapping(U, mapping):
  """A FlatMapping whose contents are `mapping` (already validated object)."""
  ds = U("data_structures")
  f = object.__new__(ds.FlatMapping)
  object.__setattr__(f, "_mapping", mapping)
  object.__setattr__(f, "_structure", None)
  object.__setattr__(f, "_leaves", None)
  return f


def frozen_params(U, name="params"):
  """Arbitrary frozen two-level parameters."""
  c = ctx()
  has2 = c.fresh_fun(name + ".has2", Str, Str, Bool)
  vf = c.fresh_fun(name + ".val", Str, Str, V)
  has1 = c.fresh_fun(name + ".has1", Str, Bool)

  def inner(k1):
    d = EDict((C.LB(C.Base(f"{name}[{k1}]", Str, lambda k2: has2(k1, k2), lambda k2: SLeaf(vf(k1, k2)))),))
    return flat_mapping(U, d)
  outer = EDict((C.LB(C.Base(name, Str, has1, inner)),))
  fm = flat_mapping(U, outer)
  return fm, has1, (lambda a, b: z3.And(has1(a), has2(a, b))), vf


def bundle(U, frame):
  """Puts the frame inside an arbitrary module, or at top level."""
  base = U("base")
  if S.fork("inside a module"):
    m = FakeModule(S.sstr("module_name"))
    frame.module_stack.push(base.ModuleState(module=m, method_name="__call__"))
    return m.module_name, m
  return "~", None


def mem2(store, k1, k2):
  return store.mem2(S.zstr(k1), S.zstr(k2))


def val2(store, k1, k2):
  return store.find2(k1, k2)
