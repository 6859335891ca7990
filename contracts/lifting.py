"""C10: hk.lift puts the parameters of an inner transform under its own name, and finds them again."""
import z3

from contracts import harness as Hn
from pyvc import containers as C
from pyvc import core
from pyvc import rt
from pyvc import spec as S
from pyvc.containers import EDict, EDict2
from pyvc.core import SInt, SLeaf, SStr, Str, V, Bool, Int, ctx, mk_str
from pyvc.spec import contract

P = "C10"


@contract(P, "pack_into_dict", ["haiku._src.lift.pack_into_dict"], budget=120)
def pack(U):
  L = U("lift")
  src, dst = S.one_level("src"), S.one_level("dst")
  prefix = S.sstr("prefix")
  d0, s0 = dst.st, src.st
  old = EDict(d0)
  r = S.outcome(lambda: L.pack_into_dict(src, dst, prefix))
  k = S.sstr("key")
  pk = core.mk_str(z3.Concat(prefix.t, z3.StringVal("/"), k.t))
  if isinstance(r, S.Raised):
    S.prove("only a clash is refused", z3.BoolVal(isinstance(r.exc, AssertionError)))
    return
  S.prove("source untouched", z3.BoolVal(src.st is s0))
  if ctx().branch(src.mem_term(k)):
    f, v = dst.find(pk)
    S.prove("stored under the prefix", z3.BoolVal(False) if not f else S.same(v, src.find(k)[1]))
    S.prove("no clash was overlooked", z3.Not(old.mem_term(pk)))
  q = S.sstr("other")
  ours = z3.And(z3.PrefixOf(z3.Concat(prefix.t, z3.StringVal("/")), q.t))
  S.prove("nothing else appears", z3.Implies(z3.Not(ours), dst.mem_term(q) == old.mem_term(q)))
  if ctx().branch(old.mem_term(q)):
    f, v = dst.find(q)
    S.prove("what was there stays", z3.BoolVal(False) if not f else S.same(v, old.find(q)[1]))


@contract(P, "unpack_from_dict", ["haiku._src.lift.unpack_from_dict"], budget=120)
def unpack(U):
  L = U("lift")
  fm, has1, has2, vf = Hn.frozen_params(U)
  prefix = S.sstr("prefix")
  r = S.outcome(lambda: L.unpack_from_dict(fm, prefix))
  if not S.no_raise("unpack", r):
    return
  S.prove("immutable", z3.BoolVal(type(r) is U("data_structures").FlatMapping))
  k, n = S.sstr("key"), S.sstr("name")
  pk = core.mk_str(z3.Concat(prefix.t, k.t))
  there = ctx().branch(core.to_bool(rt.in_(k, r._to_mapping())))
  S.prove("exactly the entries under the prefix", has1(pk.t) if there else z3.Not(has1(pk.t)))
  if there:
    inner = r[k]
    im = inner._to_mapping()
    h = core.to_bool(rt.in_(n, im))
    S.prove("same names", h == has2(pk.t, n.t))
    if ctx().branch(h):
      S.prove("same values", S.same(inner[n], SLeaf(vf(pk.t, n.t))))


@contract(P, "lift: apply finds what init stored", ["haiku._src.lift.LiftingModule"], budget=200)
def lifted(U):
  L, base = U("lift"), U("base")
  inner, has1, has2, vf = Hn.frozen_params(U, "inner")
  at_init = S.fork("init")
  fn = S.SFun("init_fn", result=lambda r: inner)
  x = S.sleaf("x")
  name = S.sstr("module_name")
  k, n = S.sstr("key"), S.sstr("name")
  if at_init:
    params = EDict2((C.L2B(C.Base2("outer", lambda a, b: SLeaf(z3.Function("outer_val", Str, Str, V)(a, b)))),))
  else:
    params, o1, o2, ov = Hn.frozen_params(U, "outer")
  w0 = ctx().world
  with base.HaikuContext(params, EDict2(()), None):
    m = L.LiftingModule(fn)
    m.module_name = name
    before = EDict2(params.st) if at_init else None
    r = S.outcome(lambda: m(x))
    full = core.mk_str(z3.Concat(name.t, z3.StringVal("/"), k.t))
    if at_init:
      if isinstance(r, S.Raised):
        S.prove("only a clash is refused", z3.BoolVal(isinstance(r.exc, AssertionError)))
        return
      S.prove("the parameters of the inner init are returned", z3.BoolVal(r is inner))
      S.prove("the inner init runs once, on the given arguments",
              ctx().world == z3.Function("eff_init_fn/1", S.W, V, S.W)(w0, x.t))
      if ctx().branch(has1(k.t)):
        f, v = params.find1(full)
        S.prove("stored under the name of the module", z3.BoolVal(False) if not f else z3.BoolVal(False) if not hasattr(v, "_to_mapping") else core.to_bool(rt.in_(n, v._to_mapping())) == has2(k.t, n.t))
      q = S.sstr("other")
      ours = z3.PrefixOf(z3.Concat(name.t, z3.StringVal("/")), q.t)
      S.prove("no other entry appears or disappears", z3.Implies(z3.Not(ours), params.mem1(q.t) == before.mem1(q.t)))
      return
    if not S.no_raise("apply", r):
      return
    S.prove("the inner init does not run", z3.BoolVal(ctx().world.eq(w0)))
    there = ctx().branch(core.to_bool(rt.in_(k, r._to_mapping())))
    S.prove("exactly the entries under the name of the module", o1(full.t) if there else z3.Not(o1(full.t)))
    if there:
      h = core.to_bool(rt.in_(n, r[k]._to_mapping()))
      S.prove("same names", h == o2(full.t, n.t))
      if ctx().branch(h):
        S.prove("same values", S.same(r[k][n], SLeaf(ov(full.t, n.t))))
