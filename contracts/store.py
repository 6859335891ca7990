"""C01 parameters and C02 state: the per-transform store."""
import z3

from contracts import harness as Hn
from pyvc import containers as C
from pyvc import core
from pyvc import rt
from pyvc import spec as S
from pyvc.containers import EDict2
from pyvc.core import SInt, SLeaf, SStr, Str, V, Bool, Int, ctx, mk_str
from pyvc.spec import contract


def frame_unchanged(tag, store, before, b, name):
  """Every entry except (b, name) is untouched, and nothing else appears."""
  k1, k2 = S.sstr("any_module"), S.sstr("any_name")
  c = ctx()
  c.assume(z3.Not(z3.And(k1.t == S.zstr(b), k2.t == S.zstr(name))))
  old = C.EDict2(before)
  S.prove(tag + ": no other entry appears or disappears",
          Hn.mem2(store, k1, k2) == Hn.mem2(old, k1, k2))
  if c.branch(Hn.mem2(old, k1, k2)):
    f0, v0 = old.find2(k1, k2)
    f1, v1 = store.find2(k1, k2)
    S.prove(tag + ": other entries keep their value", z3.BoolVal(f1) if not f1 else S.eq(v1, v0))


def unchanged(tag, store, before):
  k1, k2 = S.sstr("any_module"), S.sstr("any_name")
  old = C.EDict2(before)
  c = ctx()
  S.prove(tag + ": no entry appears or disappears", Hn.mem2(store, k1, k2) == Hn.mem2(old, k1, k2))
  if c.branch(Hn.mem2(old, k1, k2)):
    f1, v1 = store.find2(k1, k2)
    S.prove(tag + ": entries keep their value", z3.BoolVal(False) if not f1 else S.eq(v1, old.find2(k1, k2)[1]))


@contract("C01", "get_parameter during init", ["haiku._src.base.get_parameter", "haiku._src.base.run_creators",
                                               "haiku._src.base.run_getters"], budget=120)
def init(U):
  base = U("base")
  store = S.two_level("params")
  state = EDict2(())
  hctx = base.HaikuContext(store, state, None)
  name = S.sstr("name")
  shape = S.int_seq("shape", 0)
  dtype = S.sleaf("dtype")
  fn = S.SFun("init", raises=True)
  with hctx:
    frame = base.current_frame()
    b, m = Hn.bundle(U, frame)
    before = store.st
    w0 = ctx().world
    present = ctx().branch(Hn.mem2(store, b, name))
    r = S.outcome(lambda: base.get_parameter(name, shape, dtype, fn))
    tag = "existing" if present else "new"
    if present:
      v = C.EDict2(before).find2(b, name)[1]
      S.prove("existing: init is not run", z3.BoolVal(ctx().world.eq(w0)))
      unchanged("existing", store, before)
      if isinstance(r, S.Raised):
        S.prove("existing: only a shape mismatch is rejected",
                z3.And(z3.BoolVal(isinstance(r.exc, AssertionError)), z3.Not(S.eq(v.shape, shape))))
      else:
        S.prove("existing: the stored value itself is returned", S.same(r, v))
      return
    if isinstance(r, S.Raised) and isinstance(r.exc, S.UserError):
      unchanged("failed init", store, before)
      return
    v = SLeaf(z3.Function("res_init/2", S.W, V, V, V)(w0, S.encode(shape), dtype.t))
    S.prove("new: init runs exactly once with the given shape and dtype",
            ctx().world == z3.Function("eff_init/2", S.W, V, V, S.W)(w0, S.encode(shape), dtype.t))
    f1, v1 = store.find2(b, name)
    S.prove("new: the value is recorded", z3.BoolVal(False) if not f1 else S.same(v1, v))
    frame_unchanged("new", store, before, b, name)
    if isinstance(r, S.Raised):
      S.prove("new: only a shape mismatch is rejected",
              z3.And(z3.BoolVal(isinstance(r.exc, AssertionError)), z3.Not(S.eq(v.shape, shape))))
    else:
      S.prove("new: the created value is returned", S.same(r, v))
      w1, st1 = ctx().world, store.st
      r2 = S.outcome(lambda: base.get_parameter(name, shape, dtype, S.SFun("other_init")))
      if S.no_raise("second get", r2):
        S.prove("second get: same object", S.same(r2, r))
        S.prove("second get: no initializer runs", z3.BoolVal(ctx().world.eq(w1)))


@contract("C01", "get_parameter during apply", ["haiku._src.base.get_parameter"], budget=120)
def apply(U):
  base = U("base")
  fm, has1, has2, vf = Hn.frozen_params(U)
  hctx = base.HaikuContext(fm, EDict2(()), None)
  name = S.sstr("name")
  shape = S.int_seq("shape", 0)
  fn = S.SFun("init", raises=True)
  with hctx:
    b, m = Hn.bundle(U, base.current_frame())
    w0 = ctx().world
    r = S.outcome(lambda: base.get_parameter(name, shape, S.sleaf("dtype"), fn))
    present = ctx().branch(has2(S.zstr(b), name.t))
    S.prove("apply never runs an initializer", z3.BoolVal(ctx().world.eq(w0)))
    S.prove("apply never changes the parameters", z3.BoolVal(
        len(fm._mapping.st) == 1 and base.current_frame().params is fm))
    v = SLeaf(vf(S.zstr(b), name.t))
    if present:
      if isinstance(r, S.Raised):
        S.prove("only a shape mismatch is rejected",
                z3.And(z3.BoolVal(isinstance(r.exc, AssertionError)), z3.Not(S.eq(v.shape, shape))))
      else:
        S.prove("the given value is returned", S.same(r, v))
    else:
      S.must_raise("a missing parameter is an error", r, ValueError)


def state_store(base, name="state"):
  c = ctx()
  vi = c.fresh_fun(name + ".initial", Str, Str, V)
  vc = c.fresh_fun(name + ".current", Str, Str, V)
  st = S.two_level(name, lambda k1, k2: base.StatePair(SLeaf(vi(k1, k2)), SLeaf(vc(k1, k2))))
  return st, vi, vc


@contract("C02", "get_state", ["haiku._src.base.get_state", "haiku._src.base.run_creators"], budget=120)
def get_state(U):
  base = U("base")
  store, vi, vc = state_store(base)
  params = S.two_level("params")
  hctx = base.HaikuContext(params, store, None)
  name = S.sstr("name")
  has_init = S.fork("with init")
  shape = S.int_seq("shape", 0) if S.fork("with shape") else None
  dtype = S.sleaf("dtype")
  fn = S.SFun("init", raises=True) if has_init else None
  with hctx:
    b, m = Hn.bundle(U, base.current_frame())
    before, pbefore = store.st, params.st
    w0 = ctx().world
    present = ctx().branch(Hn.mem2(store, b, name))
    r = S.outcome(lambda: base.get_state(name, shape, dtype, fn))
    unchanged("parameters", params, pbefore)
    if present:
      if S.no_raise("existing state", r):
        S.prove("existing: the current value is returned", S.same(r, SLeaf(vc(S.zstr(b), name.t))))
        S.prove("existing: init is not run", z3.BoolVal(ctx().world.eq(w0)))
        unchanged("existing", store, before)
      return
    if isinstance(r, S.Raised):
      if isinstance(r.exc, S.UserError):
        S.prove("user error only from init", z3.BoolVal(has_init and shape is not None))
      else:
        S.prove("rejected only without init or shape",
                z3.BoolVal(isinstance(r.exc, ValueError) and (not has_init or shape is None)))
        S.prove("rejected without running init", z3.BoolVal(ctx().world.eq(w0)))
      unchanged("rejected", store, before)
      return
    S.prove("created only with init and shape", z3.BoolVal(has_init and shape is not None))
    v = SLeaf(z3.Function("res_init/2", S.W, V, V, V)(w0, S.encode(shape), dtype.t))
    S.prove("init runs once", ctx().world == z3.Function("eff_init/2", S.W, V, V, S.W)(w0, S.encode(shape), dtype.t))
    S.prove("the created value is returned", S.same(r, v))
    f, pair = store.find2(b, name)
    S.prove("recorded", z3.BoolVal(f))
    if f:
      S.prove("initial value recorded", S.same(pair.initial, v))
      S.prove("current value recorded", S.same(pair.current, v))
    frame_unchanged_state("new", base, store, before, b, name)


def frame_unchanged_state(tag, base, store, before, b, name):
  k1, k2 = S.sstr("any_module"), S.sstr("any_name")
  c = ctx()
  c.assume(z3.Not(z3.And(k1.t == S.zstr(b), k2.t == S.zstr(name))))
  old = C.EDict2(before)
  S.prove(tag + ": no other entry appears or disappears", Hn.mem2(store, k1, k2) == Hn.mem2(old, k1, k2))
  if c.branch(Hn.mem2(old, k1, k2)):
    v0 = old.find2(k1, k2)[1]
    f1, v1 = store.find2(k1, k2)
    S.prove(tag + ": other entries keep initial and current value",
            z3.BoolVal(False) if not f1 else z3.And(S.same(v1.initial, v0.initial), S.same(v1.current, v0.current)))


@contract("C02", "set_state then get_state", ["haiku._src.base.set_state", "haiku._src.base.get_state"], budget=120)
def set_state(U):
  base = U("base")
  store, vi, vc = state_store(base)
  params = S.two_level("params")
  hctx = base.HaikuContext(params, store, None)
  name = S.sstr("name")
  value = S.sleaf("value")
  with hctx:
    b, m = Hn.bundle(U, base.current_frame())
    before, pbefore = store.st, params.st
    present = ctx().branch(Hn.mem2(store, b, name))
    r = S.outcome(lambda: base.set_state(name, value))
    if not S.no_raise("set_state", r):
      return
    f, pair = store.find2(b, name)
    S.prove("recorded", z3.BoolVal(f))
    if not f:
      return
    S.prove("current value is the one set", S.same(pair.current, value))
    S.prove("initial value is the first value ever recorded",
            S.same(pair.initial, SLeaf(vi(S.zstr(b), name.t)) if present else value))
    frame_unchanged_state("set", base, store, before, b, name)
    unchanged("parameters", params, pbefore)
    g = S.outcome(lambda: base.get_state(name))
    if S.no_raise("get after set", g):
      S.prove("get returns the last value set", S.same(g, value))


@contract("C02", "extract_state", ["haiku._src.base.extract_state", "haiku._src.data_structures.to_immutable_dict"],
          budget=120)
def extract(U):
  base = U("base")
  store, vi, vc = state_store(base)
  initial = S.fork("initial")
  r = S.outcome(lambda: base.extract_state(store, initial=initial))
  if not S.no_raise("extract_state", r):
    return
  k1, k2 = S.sstr("any_module"), S.sstr("any_name")
  c = ctx()
  h1 = store.mem1(k1.t)
  S.prove("same modules", core.to_bool(rt.in_(k1, r._to_mapping())) == h1)
  if c.branch(h1):
    inner = r[k1]
    S.prove("same names", core.to_bool(rt.in_(k2, inner._to_mapping())) == Hn.mem2(store, k1, k2))
    if c.branch(Hn.mem2(store, k1, k2)):
      S.prove("initial / current value", S.same(inner[k2], SLeaf((vi if initial else vc)(k1.t, k2.t))))
  if S.fork("store afterwards"):
    S.prove("the store itself is not modified", z3.BoolVal(len(store.st) == 1))
