"""C07: creators, getters, interceptors and method hooks."""
import contextlib

import z3

from contracts import harness as Hn
from contracts.store import frame_unchanged, unchanged
from pyvc import containers as C
from pyvc import core
from pyvc import rt
from pyvc import spec as S
from pyvc.containers import EDict2, ESet
from pyvc.core import SLeaf, Str, V, ctx
from pyvc.spec import contract

P = "C07"
NOTE = "the number of registrations is fixed (0 to 3); their behaviour, the values and the store are arbitrary"


class Hooks:
  """n registered callbacks with arbitrary behaviour; remembers every call."""

  def __init__(self, n):
    self.n = n
    self.calls = []       # (i, received, context)
    self.passed = {}      # i -> what it handed to next
    self.returned = {}    # i -> what it returned
    self.got = {}         # i -> what next returned
    self.stop = None      # (i, "skip" | "raise")
    self.raised = []

  def one(self, i, received, context, nxt, fresh):
    self.calls.append((i, received, context))
    what = S.pick(f"behaviour {i}", ["pass", "skip", "raise", "raise after"])
    if what == "raise":
      self.stop = (i, "raise")
      raise S.UserError(f"hook {i}")
    if what == "skip":
      self.stop = (i, "skip")
    else:
      self.passed[i] = fresh(i)
      self.got[i] = nxt(*self.passed[i])
      if what == "raise after":
        self.raised.append(i)
        raise S.UserError(f"hook {i}")
    self.returned[i] = S.sleaf(f"returned_{i}")
    return self.returned[i]

  def reached(self):
    """Number of hooks that run; whether the innermost operation runs; whether it fails."""
    if self.stop is not None:
      return self.stop[0] + 1, False
    return self.n, True

  def check(self, tag, first, base_result):
    k, base = self.reached()
    S.prove(tag + ": outermost first, each once", z3.BoolVal([c[0] for c in self.calls] == list(range(k))))
    for i, rec, _ in self.calls:
      want = first if i == 0 else self.passed[i - 1]
      S.prove(tag + ": each receives what the previous one passed on",
              z3.And(z3.BoolVal(len(rec) == len(want)), *[S.same(a, b) for a, b in zip(rec, want)]))
    for i in self.got:
      inner = self.returned[i + 1] if i + 1 in self.returned else base_result
      S.prove(tag + ": next returns the result of the following one", S.same(self.got[i], inner))


def nested(managers, body):
  if not managers:
    return body()
  with managers[0]():
    return nested(managers[1:], body)


def creators(kind, n):
  def run(U):
    base = U("base")
    params, state = EDict2(()), EDict2(())
    if kind == "param":
      params = S.two_level("params")
    else:
      c = ctx()
      iv, cv = c.fresh_fun("initial", Str, Str, V), c.fresh_fun("current", Str, Str, V)
      state = S.two_level("state", lambda a, b: base.StatePair(SLeaf(iv(a, b)), SLeaf(cv(a, b))))
    store = params if kind == "param" else state
    h = Hooks(n)
    inits = [S.SFun(f"init_{i}") for i in range(n + 1)]
    ran = []
    def make(i):
      def creator(nxt, shape, dtype, init, context):
        return h.one(i, (shape, dtype, init), context, nxt,
                     lambda i: (S.int_seq(f"shape_{i}", 0), S.sleaf(f"dtype_{i}"), inits[i + 1]))
      return creator
    for i, f in enumerate(inits):
      f.hook = lambda a, k, i=i: ran.append((i, a))
      f.result = lambda r: ran.append(SLeaf(r)) or ran[-1]
    name, shape, dtype = S.sstr("name"), S.int_seq("shape", 0), S.sleaf("dtype")
    with base.HaikuContext(params, state, None):
      frame = base.current_frame()
      b, m = Hn.bundle(U, frame)
      present = ctx().branch(Hn.mem2(store, b, name))
      before = store.st
      get = base.get_parameter if kind == "param" else base.get_state
      flags = dict(params=kind == "param" or S.fork("both"), state=kind == "state" or S.fork("both"))
      wrong = dict(params=kind != "param", state=kind != "state")
      def other(*a):
        raise AssertionError("a creator registered for the other kind runs")
      def body():
        with base.custom_creator(other, **wrong):
          return get(name, shape, dtype, inits[0])
      r = S.outcome(lambda: nested([lambda i=i: base.custom_creator(make(i), **flags) for i in range(n)], body))
      for st in ("param_creator_stack", "state_creator_stack"):
        S.prove("no creator stays registered", S.eq(rt.len_(getattr(base, st)), 0))
      if present:
        S.prove("an existing value: no creator runs", z3.BoolVal(not h.calls and not ran))
        return
      k, at_base = h.reached()
      made = ran[1] if len(ran) == 2 else None
      h.check("creators", (shape, dtype, inits[0]), made)
      S.prove("the initializer runs once, exactly if no creator stops", z3.BoolVal(bool(at_base) == (len(ran) == 2)))
      if at_base:
        last = h.passed[n - 1] if n else (shape, dtype, inits[0])
        S.prove("the initializer passed on last runs, with the shape and dtype passed on last",
                z3.And(z3.BoolVal(inits[ran[0][0]] is last[2]), S.same(ran[0][1][0], last[0]), S.same(ran[0][1][1], last[1])))
      for _, _, cx in h.calls:
        S.prove("context: the variable being created",
                z3.And(S.zstr(cx.full_name) == z3.Concat(S.zstr(b), z3.StringVal("/"), name.t),
                       z3.BoolVal(cx.module is m), S.same(cx.original_dtype, dtype), S.same(cx.original_shape, shape)))
      failed = h.raised or (h.stop is not None and h.stop[1] == "raise")
      if failed:
        S.must_raise("failure propagates", r, S.UserError)
        unchanged("a failing creator", store, before)
        return
      v = h.returned[0] if n else made
      f, w = store.find2(b, name)
      S.prove("what the outermost creator returns is recorded",
              z3.BoolVal(False) if not f else S.same(w if kind == "param" else w.current, v))
      frame_unchanged("creation", store, before, b, name)
      if isinstance(r, S.Raised):
        S.prove("only a shape mismatch is rejected",
                z3.And(z3.BoolVal(kind == "param" and isinstance(r.exc, AssertionError)), z3.Not(S.eq(v.shape, shape))))
      else:
        S.prove("and returned", S.same(r, v))
  return run


def getters(kind, n):
  def run(U):
    base = U("base")
    params, state = EDict2(()), EDict2(())
    if kind == "param":
      params = S.two_level("params")
    else:
      c = ctx()
      iv, cv = c.fresh_fun("initial", Str, Str, V), c.fresh_fun("current", Str, Str, V)
      state = S.two_level("state", lambda a, b: base.StatePair(SLeaf(iv(a, b)), SLeaf(cv(a, b))))
    store = params if kind == "param" else state
    h = Hooks(n)
    def make(i):
      def getter(nxt, value, context):
        return h.one(i, (value,), context, nxt, lambda i: (S.sleaf(f"value_{i}"),))
      return getter
    name, shape, dtype = S.sstr("name"), S.int_seq("shape", 0), S.sleaf("dtype")
    v0 = S.sleaf("created")
    with base.HaikuContext(params, state, None):
      frame = base.current_frame()
      b, m = Hn.bundle(U, frame)
      before = store.st
      present = ctx().branch(Hn.mem2(store, b, name))
      get = base.get_parameter if kind == "param" else base.get_state
      wrong = dict(params=kind != "param", state=kind != "state")
      def other(*a):
        raise AssertionError("a getter registered for the other kind runs")
      flags = dict(params=kind == "param" or S.fork("both"), state=kind == "state" or S.fork("both"))
      def body():
        with base.custom_getter(other, **wrong):
          return get(name, shape, dtype, lambda s, d: v0)
      r = S.outcome(lambda: nested([lambda i=i: base.custom_getter(make(i), **flags) for i in range(n)], body))
      for st in ("param_getter_stack", "state_getter_stack"):
        S.prove("no getter stays registered", S.eq(rt.len_(getattr(base, st)), 0))
      if present:
        w = C.EDict2(before).find2(b, name)[1]
        v = w if kind == "param" else w.current
        unchanged("a get", store, before)
      else:
        v = v0
        f, w = store.find2(b, name)
        S.prove("the value is stored as created, whatever the getters do",
                z3.BoolVal(False) if not f else S.same(w if kind == "param" else w.current, v))
        frame_unchanged("a get", store, before, b, name)
      base_result = h.passed[n - 1][0] if n and n - 1 in h.passed else v
      h.check("getters", (v,), base_result)
      for _, _, cx in h.calls:
        S.prove("context: the variable being read",
                z3.And(S.zstr(cx.full_name) == z3.Concat(S.zstr(b), z3.StringVal("/"), name.t),
                       z3.BoolVal(cx.module is m), S.same(cx.original_dtype, dtype), S.same(cx.original_shape, shape)))
      if h.raised or (h.stop is not None and h.stop[1] == "raise"):
        S.must_raise("failure propagates", r, S.UserError)
        return
      want = h.returned[0] if n else v
      if isinstance(r, S.Raised):
        S.prove("only a shape mismatch is rejected",
                z3.And(z3.BoolVal(kind == "param" and isinstance(r.exc, AssertionError)), z3.Not(S.eq(want.shape, shape))))
      else:
        S.prove("the result is what the outermost getter returns", S.same(r, want))
  return run


for kind in ("param", "state"):
  for n in range(4):
    contract(P, f"{n} creators, {kind}", ["haiku._src.base.run_creators", "haiku._src.base.custom_creator",
                                          f"haiku._src.base.get_{'parameter' if kind == 'param' else 'state'}"],
             budget=120, note=NOTE)(creators(kind, n))
    contract(P, f"{n} getters, {kind}", ["haiku._src.base.run_getters", "haiku._src.base.custom_getter",
                                         f"haiku._src.base.get_{'parameter' if kind == 'param' else 'state'}"],
             budget=120, note=NOTE)(getters(kind, n))


def interceptors(n, nhooks):
  def run(U):
    base, M = U("base"), U("module")
    h = Hooks(n)
    seen, order = [], []
    x, y = S.sleaf("x"), S.sleaf("y")
    fails = S.fork("the method fails")
    res = S.sleaf("result")
    class Mod(M.Module):
      def go(self, a, *, k):
        seen.append((a, k, base.current_frame().module_stack.peek().module is self))
        order.append("body")
        if fails:
          raise S.UserError("method")
        return res
    def make(i):
      def interceptor(nxt, args, kwargs, cx):
        order.append(i)
        S.prove("arguments are passed as given", z3.BoolVal(rt.len_(args) == 1 and rt.len_(kwargs) == 1))
        return h.one(i, (args[0], kwargs["k"]), cx, lambda a, k: nxt(a, k=k),
                     lambda i: (S.sleaf(f"arg_{i}"), S.sleaf(f"kwarg_{i}")))
      return interceptor
    hooks = []
    def hook(j):
      @contextlib.contextmanager
      def cm(mod, name):
        hooks.append(("in", j, mod, name))
        order.append(f"in{j}")
        try:
          yield
        finally:
          order.append(f"out{j}")
      return cm
    with base.new_context():
      m = Mod(name="m")
      r = S.outcome(lambda: nested([lambda j=j: M.hook_methods(hook(j)) for j in range(nhooks)],
                                   lambda: nested([lambda i=i: M.intercept_methods(make(i)) for i in range(n)],
                                                  lambda: m.go(x, k=y))))
      S.prove("nothing stays registered", z3.And(S.eq(rt.len_(M.interceptor_stack), 0),
                                                 S.eq(rt.len_(M.method_hook_stack), 0)))
      S.prove("no scope left open", S.eq(rt.len_(base.current_frame().module_stack), 0))
      k, at_base = h.reached()
      h.check("interceptors", (x, y), res)
      S.prove("the method runs once, exactly if no interceptor stops", z3.BoolVal(len(seen) == (1 if at_base else 0)))
      if at_base:
        last = h.passed[n - 1] if n else (x, y)
        S.prove("with the arguments passed on last, in its scope",
                z3.And(S.same(seen[0][0], last[0]), S.same(seen[0][1], last[1]), z3.BoolVal(seen[0][2])))
      for _, _, cx in h.calls:
        S.prove("context", z3.BoolVal(cx.module is m and cx.method_name == "go"))
      ins = [f"in{j}" for j in range(nhooks)]
      S.prove("every hook is entered before and left after the method, whatever happens",
              z3.BoolVal(sorted(order[:nhooks]) == ins and sorted(order[len(order) - nhooks:]) == sorted(f"out{j}" for j in range(nhooks))
                         and len(order) == 2 * nhooks + k + (1 if at_base else 0)
                         and [o[2:] for o in order[:nhooks]] == [o[3:] for o in order[len(order) - nhooks:]][::-1]))
      for _, _, mod, name in hooks:
        S.prove("hooks see the module and the method", z3.BoolVal(mod is m and name == "go"))
      bad = h.raised or (h.stop is not None and h.stop[1] == "raise") or (fails and at_base)
      if bad:
        S.must_raise("failure propagates", r, S.UserError)
      elif S.no_raise("call", r):
        S.prove("the result is what the outermost interceptor returns", S.same(r, h.returned[0] if n else res))
      # afterwards
      del seen[:], order[:], h.calls[:]
      if not fails:
        r = S.outcome(lambda: m.go(x, k=y))
        if S.no_raise("later call", r):
          S.prove("later calls are not intercepted", z3.And(z3.BoolVal(len(seen) == 1 and not h.calls and order == ["body"]),
                                                            S.same(r, res)))
  return run


for n, nh in ((0, 0), (0, 2), (1, 0), (1, 1), (2, 0), (3, 0)):
  contract(P, f"{n} interceptors, {nh} method hooks",
           ["haiku._src.module.run_interceptors", "haiku._src.module.intercept_methods", "haiku._src.module.wrap_method",
            "haiku._src.module._module_method_call", "haiku._src.data_structures.Stack"],
           budget=120, note=NOTE)(interceptors(n, nh))


@contract(P, "orig_method bypasses the remaining interceptors", ["haiku._src.module.run_interceptors"], budget=60)
def orig(U):
  base, M = U("base"), U("module")
  x, res = S.sleaf("x"), S.sleaf("result")
  seen, calls = [], []
  class Mod(M.Module):
    def go(self, a):
      seen.append(a)
      return res
  y = S.sleaf("y")
  def outer(nxt, args, kwargs, cx):
    calls.append("outer")
    return cx.orig_method(y)
  def inner(nxt, args, kwargs, cx):
    calls.append("inner")
    return nxt(*args, **kwargs)
  with base.new_context():
    m = Mod(name="m")
    with M.intercept_methods(outer), M.intercept_methods(inner):
      r = S.outcome(lambda: m.go(x))
    if S.no_raise("call", r):
      S.prove("only the outer interceptor and the method run",
              z3.And(z3.BoolVal(calls == ["outer"] and len(seen) == 1), S.same(seen[0], y), S.same(r, res)))


@contract(P, "registration inside a running callback", ["haiku._src.module.run_interceptors", "haiku._src.base.run_getters",
                                                         "haiku._src.base.run_creators"], budget=60)
def inside(U):
  base, M = U("base"), U("module")
  calls = []
  x, v = S.sleaf("x"), S.sleaf("v")
  class Mod(M.Module):
    def go(self, a):
      calls.append("go")
      return self.deep(a)
    def deep(self, a):
      calls.append("deep")
      return a
  def late(nxt, args, kwargs, cx):
    calls.append(("late", cx.method_name))
    return nxt(*args, **kwargs)
  def outer(nxt, args, kwargs, cx):
    calls.append(("outer", cx.method_name))
    if cx.method_name == "go":
      with M.intercept_methods(late):
        return nxt(*args, **kwargs)
    return nxt(*args, **kwargs)
  def late_get(nxt, value, cx):
    calls.append("late_get")
    return nxt(value)
  def get(nxt, value, cx):
    calls.append("get")
    with base.custom_getter(late_get):
      return nxt(value)
  def late_create(nxt, shape, dtype, init, cx):
    calls.append("late_create")
    return nxt(shape, dtype, init)
  def create(nxt, shape, dtype, init, cx):
    calls.append("create")
    with base.custom_creator(late_create):
      return nxt(shape, dtype, init)
  with base.new_context():
    m = Mod(name="m")
    with M.intercept_methods(outer):
      r = S.outcome(lambda: m.go(x))
    if S.no_raise("call", r):
      S.prove("an interceptor registered by another acts on later calls only",
              z3.BoolVal(calls == [("outer", "go"), "go", ("outer", "deep"), ("late", "deep"), "deep"]))
    del calls[:]
    with base.custom_getter(get), base.custom_creator(create):
      r = S.outcome(lambda: base.get_parameter("w", v.shape, init=lambda s, d: v))
    if S.no_raise("get", r):
      S.prove("a creator or getter registered by another acts on later calls only", z3.BoolVal(calls == ["create", "get"]))


@contract(P, "registration outside a transformation is an error",
          ["haiku._src.module.intercept_methods", "haiku._src.base.custom_creator", "haiku._src.base.custom_getter"], budget=30)
def outside(U):
  base, M = U("base"), U("module")
  for f in (M.intercept_methods, base.custom_creator, base.custom_getter):
    S.must_raise("rejected", S.outcome(lambda: f(lambda *a: None)), ValueError)
  for st in (M.interceptor_stack, base.param_creator_stack, base.param_getter_stack):
    S.prove("nothing registered", S.eq(rt.len_(st), 0))
