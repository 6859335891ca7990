"""C08: immutable parameter structures."""
import z3

from contracts import harness as Hn
from contracts.filtering import entry, immutable, source
from pyvc import containers as C
from pyvc import core
from pyvc import rt
from pyvc import spec as S
from pyvc.core import SLeaf, Str, V, Bool, ctx
from pyvc.spec import contract

P = "C08"


@contract(P, "to_immutable_dict copies", ["haiku._src.data_structures.to_immutable_dict",
                                          "haiku._src.data_structures.FlatMapping.__init__"], budget=90)
def freeze(U):
  ds = U("data_structures")
  st, h2, vf = source(U, "structure", False)
  r = S.outcome(lambda: ds.to_immutable_dict(st))
  if not S.no_raise("to_immutable_dict", r):
    return
  immutable(U, "outer", r)
  k1, k2 = S.sstr("any_module"), S.sstr("any_name")
  if S.fork("source mutated afterwards"):
    if S.fork("entry overwritten"):
      st[k1][k2] = S.sleaf("other")
    else:
      st[S.sstr("m2")][S.sstr("n2")] = S.sleaf("other")
  entry("copy", r, k1, k2, h2(k1.t, k2.t), SLeaf(vf(k1.t, k2.t)))
  m = r._to_mapping()
  if ctx().branch(core.to_bool(rt.in_(k1, m))):
    S.prove("nested dicts are immutable too", z3.BoolVal(type(r[k1]) is ds.FlatMapping))
    S.prove("freezing again changes nothing", z3.BoolVal(ds.to_immutable_dict(r) is r))


@contract(P, "to_mutable_dict copies", ["haiku._src.data_structures.to_mutable_dict"], budget=90)
def thaw(U):
  ds = U("data_structures")
  fm, h2, vf = source(U, "structure", True)
  r = S.outcome(lambda: ds.to_mutable_dict(fm))
  if not S.no_raise("to_mutable_dict", r):
    return
  k1, k2 = S.sstr("any_module"), S.sstr("any_name")
  S.prove("a plain dict", z3.BoolVal(rt.isinstance_(r, dict) and not isinstance(r, ds.FlatMapping)))
  h = h2(k1.t, k2.t)
  c = ctx()
  if not c.branch(core.to_bool(rt.in_(k1, r))):
    S.prove("no module lost", z3.Not(h))
    return
  inner = r[k1]
  S.prove("a plain dict inside", z3.BoolVal(not isinstance(inner, ds.FlatMapping)))
  has2 = core.to_bool(rt.in_(k2, inner))
  S.prove("entry present exactly when it was", has2 == h)
  if c.branch(has2):
    S.prove("value", S.same(inner[k2], SLeaf(vf(k1.t, k2.t))))


@contract(P, "FlatMapping protocol", ["haiku._src.data_structures.FlatMapping.__getitem__",
                                      "haiku._src.data_structures.FlatMapping.__getattr__",
                                      "haiku._src.data_structures.FlatMapping.__iter__",
                                      "haiku._src.data_structures.FlatMapping.__len__"], budget=60)
def protocol(U):
  ds = U("data_structures")
  d = S.one_level("d")
  before = C.EDict(d.st)
  fm = S.outcome(lambda: ds.FlatMapping(d))
  if not S.no_raise("constructor", fm):
    return
  k = S.sstr("k")
  present = ctx().branch(before.mem_term(k))
  if S.fork("source mutated"):
    d[k] = S.sleaf("other")
  what = S.pick("op", ["getitem", "get", "in", "len", "getattr"])
  v = before.find(k)[1] if present else None
  if what == "getitem":
    r = S.outcome(lambda: fm[k])
    if present:
      if S.no_raise("getitem", r):
        S.prove("getitem", S.same(r, v))
    else:
      S.must_raise("missing key", r, KeyError)
  elif what == "get":
    dflt = S.sleaf("default")
    r = S.outcome(lambda: fm.get(k, dflt))
    if S.no_raise("get", r):
      S.prove("get", S.same(r, v if present else dflt))
  elif what == "in":
    r = S.outcome(lambda: rt.in_(k, fm))
    if S.no_raise("in", r):
      S.prove("in", core.to_bool(r) == z3.BoolVal(present))
  elif what == "len":
    r = S.outcome(lambda: rt.len_(fm))
    if S.no_raise("len", r):
      S.prove("len", S.eq(r, rt.len_(before)))
  else:
    S.prove("assignment is impossible", z3.BoolVal(not hasattr(type(fm), "__setitem__") and not hasattr(type(fm), "__delitem__")
                                                   and not hasattr(type(fm), "update") and not hasattr(type(fm), "pop")))
