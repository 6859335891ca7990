"""C03: init and apply are functions of their arguments and leave nothing behind."""
import z3

from contracts import harness as Hn
from contracts.filtering import entry, immutable, source
from pyvc import containers as C
from pyvc import core
from pyvc import rt
from pyvc import spec as S
from pyvc.core import SLeaf, Str, V, Bool, ctx
from pyvc.models import build as M
from pyvc.spec import contract

P = "C03"


def clean(U, tag):
  base = U("base")
  for n in ("frame_stack", "param_creator_stack", "state_creator_stack", "param_getter_stack", "state_getter_stack"):
    S.prove(f"{tag}: {n} as before", S.eq(rt.len_(getattr(base, n)), 0))


def unchanged2(tag, st, h2, vf):
  """A caller's structure still has exactly its original contents."""
  k1, k2 = S.sstr("arg_module"), S.sstr("arg_name")
  h = h2(k1.t, k2.t)
  if hasattr(st, "_mapping"):
    S.prove(tag + ": argument not modified", z3.BoolVal(len(st._mapping.st) == 1))
    return
  S.prove(tag + ": argument keys not modified", st.mem2(k1.t, k2.t) == h)
  if ctx().branch(h):
    S.prove(tag + ": argument values not modified", S.same(st.find2(k1, k2)[1], SLeaf(vf(k1.t, k2.t))))


@contract(P, "init: collects exactly what f created", ["haiku._src.transform.transform_with_state",
                                                      "haiku._src.base.new_context",
                                                      "haiku._src.base.HaikuContext"], budget=120)
def init(U):
  base, tr = U("base"), U("transform")
  pn, sn = S.sstr("param_name"), S.sstr("state_name")
  x = S.sleaf("x")
  v, s0, s1 = S.sleaf("value"), S.sleaf("s0"), S.sleaf("s1")
  fails = S.fork("f fails")
  seen = []
  def f(a):
    seen.append((a, base.current_frame().params_frozen, rt.len_(base.frame_stack)))
    base.get_parameter(pn, v.shape, init=lambda sh, dt: v)
    base.get_state(sn, s0.shape, init=lambda sh, dt: s0)
    base.set_state(sn, s1)
    if fails:
      raise S.UserError("f")
    return a
  t = tr.transform_with_state(f)
  key = M.prng_leaf(ctx().fresh("rng", V)) if S.fork("with rng") else None
  r = S.outcome(lambda: t.init(key, x))
  clean(U, "init")
  if fails:
    S.must_raise("the failure of f propagates", r, S.UserError)
    return
  if not S.no_raise("init", r):
    return
  S.prove("f runs once, with the arguments of init", z3.And(z3.BoolVal(len(seen) == 1), S.same(seen[0][0], x)))
  S.prove("parameters are not frozen during init", z3.BoolVal(seen[0][1] is False))
  params, state = r
  immutable(U, "params", params)
  immutable(U, "state", state)
  k1, k2 = S.sstr("any_module"), S.sstr("any_name")
  if S.fork("look at params"):
    entry("params", params, k1, k2, z3.And(k1.t == z3.StringVal("~"), k2.t == pn.t), v)
  else:
    entry("state", state, k1, k2, z3.And(k1.t == z3.StringVal("~"), k2.t == sn.t), s0)


@contract(P, "init: calls are independent", ["haiku._src.transform.transform_with_state"], budget=120)
def twice(U):
  base, tr = U("base"), U("transform")
  names = [S.sstr("name_in_call_0"), S.sstr("name_in_call_1")]
  vals = [S.sleaf("v0"), S.sleaf("v1")]
  n = [0]
  keys = []
  def f():
    i = n[0]
    keys.append(base.next_rng_key())
    return base.get_parameter(names[i], vals[i].shape, init=lambda sh, dt: vals[i])
  t = tr.transform_with_state(f)
  k0 = M.prng_leaf(ctx().fresh("rng", V))
  t.init(k0)
  n[0] = 1
  r = S.outcome(lambda: t.init(k0))
  if not S.no_raise("second init", r):
    return
  S.prove("same rng, same keys", S.same(keys[0], keys[1]))
  k1, k2 = S.sstr("any_module"), S.sstr("any_name")
  entry("params of the second call", r[0], k1, k2, z3.And(k1.t == z3.StringVal("~"), k2.t == names[1].t), vals[1])


APPLY = ["haiku._src.transform.transform_with_state", "haiku._src.transform.check_mapping",
         "haiku._src.base.new_context", "haiku._src.base.extract_state"]


def apply(pfrozen, sfrozen, what):
  def run(U):
    base, tr = U("base"), U("transform")
    params, ph, pv = source(U, "params", pfrozen)
    state, sh, sv = source(U, "state", sfrozen)
    pn, sn, wn = S.sstr("param_name"), S.sstr("state_name"), S.sstr("written_name")
    x, w = S.sleaf("x"), S.sleaf("w")
    tl = z3.StringVal("~")
    c = ctx()
    c.assume(ph(tl, pn.t))
    c.assume(sh(tl, sn.t))
    got = {}
    def f(a):
      got["x"] = a
      got["frozen"] = base.current_frame().params_frozen
      if what == "params":
        return base.get_parameter(pn, SLeaf(pv(tl, pn.t)).shape, init=lambda sh, dt: w)
      if what == "state":
        return base.get_state(sn)
      base.set_state(wn, w)
    t = tr.transform_with_state(f)
    r = S.outcome(lambda: t.apply(params, state, None, x))
    clean(U, "apply")
    if not S.no_raise("apply", r):
      return
    out, new = r
    S.prove("arguments passed through", S.same(got["x"], x))
    S.prove("parameters are frozen during apply", z3.BoolVal(got["frozen"] is True))
    if what == "params":
      S.prove("f sees the given parameter", S.same(out, SLeaf(pv(tl, pn.t))))
    if what == "state":
      S.prove("f sees the given state", S.same(out, SLeaf(sv(tl, sn.t))))
    if what != "new state":
      unchanged2("params", params, ph, pv)
      unchanged2("state", state, sh, sv)
      return
    immutable(U, "state", new)
    k1, k2 = S.sstr("any_module"), S.sstr("any_name")
    mine = z3.And(k1.t == tl, k2.t == wn.t)
    if c.branch(mine):
      entry("written state", new, k1, k2, z3.BoolVal(True), w)
    else:
      entry("other state", new, k1, k2, sh(k1.t, k2.t), SLeaf(sv(k1.t, k2.t)))
  return run


for pf in (True, False):
  for sf in (True, False):
    for what in ("params", "state", "new state"):
      if what == "new state" and not pf or what == "params" and not sf:
        continue
      contract(P, f"apply: {what} ({'frozen' if pf else 'dict'} params, {'frozen' if sf else 'dict'} state)",
               APPLY, budget=120)(apply(pf, sf, what))


@contract(P, "apply: no parameters given", APPLY, budget=60)
def no_params(U):
  base, tr, ds = U("base"), U("transform"), U("data_structures")
  which = S.pick("params", ["None", "empty dict", "empty frozen dict"])
  params = {"None": None, "empty dict": {}, "empty frozen dict": ds.to_immutable_dict({})}[which]
  pn, v = S.sstr("param_name"), S.sleaf("value")
  got = []
  def f():
    got.append(base.current_frame().params_frozen)
    return base.get_parameter(pn, v.shape, init=lambda sh, dt: v)
  r = S.outcome(lambda: tr.transform_with_state(f).apply(params, None, None))
  clean(U, "apply")
  S.prove("parameters are frozen during apply", z3.BoolVal(got == [True]))
  S.must_raise("no parameter is made up", r, ValueError)


@contract(P, "the rng argument: a key, a seed or a state of a sequence; anything else is refused", [
    "haiku._src.transform.to_prng_sequence", "haiku._src.base.PRNGSequence.__init__", "haiku._src.base.assert_is_prng_key"], budget=60)
def rng_kinds(U):
  base, tr = U("base"), U("transform")
  k0 = M.prng_leaf(ctx().fresh("rng", V))
  which = S.pick("rng", ["key", "seed", "none", "sequence", "string", "float", "mapping"])
  given = {"key": k0, "seed": 3, "none": None, "sequence": base.PRNGSequence(k0), "string": "rng", "float": 1.5,
           "mapping": {"a": 1}}[which]
  seen = []
  def f():
    p = base.current_frame().rng_stack.peek()
    seen.append(p)
    return base.maybe_next_rng_key()
  t = tr.transform_with_state(f)
  at_init = S.fork("init")
  r = S.outcome(lambda: t.init(given) if at_init else t.apply(None, None, given))
  clean(U, "call")
  if which in ("key", "seed", "none"):
    if S.no_raise("accepted", r):
      S.prove("a sequence of its own, or none", z3.BoolVal(seen == [None] if which == "none" else (
          len(seen) == 1 and type(seen[0]).__name__ == "PRNGSequence" and seen[0] is not given)))
  else:
    S.must_raise("refused", r, ValueError)
    S.prove("f did not run", z3.BoolVal(not seen))


@contract(P, "apply: failure of f leaves no context behind", ["haiku._src.transform.transform_with_state"], budget=90)
def apply_fails(U):
  base, tr = U("base"), U("transform")
  def f():
    if S.fork("inside a nested scope"):
      with base.custom_creator(S.SFun("c"), state=S.fork("state creator")), \
           base.custom_getter(S.SFun("g"), state=S.fork("state getter")):
        raise S.UserError("f")
    raise S.UserError("f")
  t = tr.transform_with_state(f)
  params, ph, pv = source(U, "params", True)
  r = S.outcome(lambda: t.apply(params, None, None))
  S.must_raise("the failure of f propagates", r, S.UserError)
  clean(U, "apply")


@contract(P, "without_state / without_apply_rng", ["haiku._src.transform.without_state",
                                                   "haiku._src.transform.without_apply_rng",
                                                   "haiku._src.transform.transform",
                                                   "haiku._src.transform.tie_in_original_fn"], budget=90)
def wrappers(U):
  tr, ds = U("transform"), U("data_structures")
  params, ph, pv = source(U, "params", True)
  used = S.fork("state used")
  st = ds.FlatMapping({"~": ds.FlatMapping({"s": S.sleaf("s")})}) if used else ds.FlatMapping({})
  calls = []
  out = S.sleaf("out")
  def ini(*a, **k):
    calls.append(("init", a, k))
    return params, st
  def app(*a, **k):
    calls.append(("apply", a, k))
    return out, st
  orig = S.SFun("orig")
  ini._original_fn = orig
  app._original_fn = orig
  t = tr.TransformedWithState(ini, app)
  key, x, y = S.sleaf("key"), S.sleaf("x"), S.sleaf("y")
  which = S.pick("wrapper", ["without_state.init", "without_state.apply", "without_apply_rng(state)", "both"])
  if which == "without_state.init":
    w = tr.without_state(t)
    r = S.outcome(lambda: w.init(key, x, k=y))
    if used:
      S.must_raise("use of state is an error", r, ValueError)
    elif S.no_raise(which, r):
      S.prove("params passed on", z3.BoolVal(r is params))
      S.prove("arguments passed on", z3.And(S.same(calls[0][1][0], key), S.same(calls[0][1][1], x), S.same(calls[0][2]["k"], y)))
    S.prove("is a Transformed", z3.BoolVal(type(w) is tr.Transformed))
  elif which == "without_state.apply":
    w = tr.without_state(t)
    r = S.outcome(lambda: w.apply(params, key, x, k=y))
    if used:
      S.must_raise("use of state is an error", r, ValueError)
    elif S.no_raise(which, r):
      S.prove("output passed on", S.same(r, out))
      a = calls[0][1]
      S.prove("arguments passed on", z3.And(z3.BoolVal(a[0] is params and rt.len_(a[1]) == 0), S.same(a[2], key),
                                            S.same(a[3], x), S.same(calls[0][2]["k"], y)))
  elif which == "without_apply_rng(state)":
    w = tr.without_apply_rng(t)
    S.prove("keeps its kind", z3.BoolVal(type(w) is tr.TransformedWithState and w.init is ini))
    r = S.outcome(lambda: w.apply(params, st, x, k=y))
    if S.no_raise(which, r):
      a = calls[0][1]
      S.prove("rng is None, the rest passed on", z3.And(
          z3.BoolVal(a[0] is params and a[1] is st and a[2] is None), S.same(a[3], x), S.same(calls[0][2]["k"], y)))
  else:
    w = tr.without_apply_rng(tr.without_state(t))
    S.prove("keeps its kind", z3.BoolVal(type(w) is tr.Transformed))
    r = S.outcome(lambda: w.apply(params, x))
    if used:
      S.must_raise("use of state is an error", r, ValueError)
    elif S.no_raise(which, r):
      a = calls[0][1]
      S.prove("rng is None, the rest passed on", z3.And(z3.BoolVal(a[0] is params and a[2] is None), S.same(a[3], x)))
