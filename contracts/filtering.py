"""C09: partition / filter / map / merge route every entry exactly once."""
import z3

from contracts import harness as Hn
from pyvc import containers as C
from pyvc import core
from pyvc import rt
from pyvc import spec as S
from pyvc.core import SBool, SLeaf, Str, V, Bool, ctx
from pyvc.spec import contract

P = "C09"


def source(U, name="structure", frozen=None):
  """An arbitrary structure, mutable or frozen: (value, has2, val)."""
  if S.fork(name + " is frozen") if frozen is None else frozen:
    fm, h1, h2, vf = Hn.frozen_params(U, name)
    return fm, h2, vf
  vf = ctx().fresh_fun(name + ".val", Str, Str, V)
  st = S.two_level(name, lambda a, k: SLeaf(vf(a, k)))
  before = C.EDict2(st.st)
  return st, (lambda a, k: before.mem2(a, k)), vf


def pure_pred(name="predicate"):
  return S.SFun(name, effects=False, result=lambda t: SBool(z3.Function("truth", V, Bool)(t)))


def holds(name, a, k, v):
  f = z3.Function(f"res_{name}/3", V, V, V, V)
  return z3.Function("truth", V, Bool)(f(S.encode(a), S.encode(k), S.encode(v)))


def entry(tag, r, k1, k2, want, val):
  """Obligations: r[k1][k2] is present iff want, and is val."""
  c = ctx()
  m = r._to_mapping()
  has1 = c.branch(core.to_bool(rt.in_(k1, m)))
  if not has1:
    S.prove(tag + ": entry present exactly when it should be", z3.Not(want))
    return
  inner = r[k1]
  im = inner._to_mapping() if hasattr(inner, "_to_mapping") else inner
  has2 = core.to_bool(rt.in_(k2, im))
  S.prove(tag + ": entry present exactly when it should be", has2 == want)
  if c.branch(has2):
    S.prove(tag + ": value", S.same(inner[k2], val))


def immutable(U, tag, r):
  S.prove(tag + ": result is immutable", z3.BoolVal(type(r) is U("data_structures").FlatMapping))


def src_val(vf, k1, k2):
  return SLeaf(vf(k1.t, k2.t))


@contract(P, "partition", ["haiku._src.filtering.partition", "haiku._src.data_structures.to_immutable_dict"], budget=150)
def partition(U):
  F = U("filtering")
  st, h2, vf = source(U)
  pred = pure_pred()
  r = S.outcome(lambda: F.partition(pred, st))
  if not S.no_raise("partition", r):
    return
  t, f = r
  k1, k2 = S.sstr("any_module"), S.sstr("any_name")
  p = holds("predicate", k1, k2, src_val(vf, k1, k2))
  h = h2(k1.t, k2.t)
  if S.fork("first"):
    immutable(U, "true side", t)
    entry("true side", t, k1, k2, z3.And(h, p), src_val(vf, k1, k2))
  else:
    immutable(U, "false side", f)
    entry("false side", f, k1, k2, z3.And(h, z3.Not(p)), src_val(vf, k1, k2))


@contract(P, "filter", ["haiku._src.filtering.filter"], budget=150)
def filter_(U):
  F = U("filtering")
  st, h2, vf = source(U)
  r = S.outcome(lambda: F.filter(pure_pred(), st))
  if not S.no_raise("filter", r):
    return
  k1, k2 = S.sstr("any_module"), S.sstr("any_name")
  immutable(U, "filter", r)
  entry("filter", r, k1, k2, z3.And(h2(k1.t, k2.t), holds("predicate", k1, k2, src_val(vf, k1, k2))),
        src_val(vf, k1, k2))


@contract(P, "map", ["haiku._src.filtering.map"], budget=150)
def map_(U):
  F = U("filtering")
  st, h2, vf = source(U)
  const = S.pick("fn", ["arbitrary", None, False])
  if const != "arbitrary":
    r = S.outcome(lambda: F.map(lambda m, n, v: const, st))
    if S.no_raise("map", r):
      k1, k2 = S.sstr("any_module"), S.sstr("any_name")
      entry("a result is kept, whatever it is", r, k1, k2, h2(k1.t, k2.t), const)
    return
  r = S.outcome(lambda: F.map(S.SFun("fn", effects=False), st))
  if not S.no_raise("map", r):
    return
  k1, k2 = S.sstr("any_module"), S.sstr("any_name")
  immutable(U, "map", r)
  v = SLeaf(z3.Function("res_fn/3", V, V, V, V)(S.encode(k1), S.encode(k2), vf(k1.t, k2.t)))
  entry("map", r, k1, k2, h2(k1.t, k2.t), v)


def merge(kinds):
  def run(U):
    F = U("filtering")
    srcs = [source(U, f"s{i}", fr) for i, fr in enumerate(kinds)]
    r = S.outcome(lambda: F.merge(*[s[0] for s in srcs]))
    if not S.no_raise("merge", r):
      return
    k1, k2 = S.sstr("any_module"), S.sstr("any_name")
    immutable(U, "merge", r)
    want = z3.Or(*[s[1](k1.t, k2.t) for s in srcs])
    v = srcs[0][2](k1.t, k2.t)
    for s in srcs[1:]:
      v = z3.If(s[1](k1.t, k2.t), s[2](k1.t, k2.t), v)
    entry("merge", r, k1, k2, want, SLeaf(v))
  return run


for kinds in [(True,), (False,), (True, True), (False, False), (True, False)]:
  contract(P, "merge of " + ", ".join("frozen" if k else "dict" for k in kinds), ["haiku._src.filtering.merge"],
           budget=200, note="arbitrary contents; one or two structures")(merge(kinds))
