"""C07: creators, getters, interceptors and method hooks against a reference interpreter."""
import contextlib

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np
from haiku._src import module as module_lib

from concrete.laws import law, raises


class Boom(Exception):
  pass


class Rule:
  def __init__(self, g, n):
    self.id = n
    self.kind = str(g.r.choice(["creator", "getter", "interceptor", "hook"]))
    self.params = g.r.rand() < 0.7
    self.state = g.r.rand() < 0.5
    self.beh = str(g.r.choice(["pass", "pre", "post", "both", "skip", "orig", "boom_pre", "boom_post"],
                              p=[.2, .2, .2, .15, .1, .05, .05, .05]))

  def __repr__(self):
    return f"{self.kind}{self.id}:{self.beh}:{int(self.params)}{int(self.state)}"

  def pre(self):
    return self.beh in ("pre", "both")

  def post(self):
    return self.beh in ("post", "both")


def program(g, depth=0):
  """[("with", Rule, body) | ("param", name) | ("state", name) | ("set", name, v) | ("call", mod, n) | ("new", name)]"""
  out = []
  for _ in range(g.r.randint(1, 4)):
    k = str(g.r.choice(["with", "with", "with", "param", "state", "set", "call", "call", "new"]))
    if k == "with" and depth < 5:
      out.append(("with", Rule(g, g.r.randint(1, 90)), program(g, depth + 1)))
    elif k == "with":
      continue
    elif k == "set":
      out.append(("set", str(g.r.choice(["s", "t"])), int(g.r.randint(5))))
    elif k == "param":
      out.append(("param", str(g.r.choice(["p", "q", "r"]))))
    elif k == "state":
      out.append(("state", str(g.r.choice(["s", "t"]))))
    else:
      out.append((k, int(g.r.randint(2)), int(g.r.randint(3))))
  return out


# ------------------------------------------------------------------ real run

DT = object()


def real(prog, trace, out):
  class M(hk.Module):
    def __call__(self, x, *, k):
      trace.append(("body", self.module_name, "__call__", float(x), k))
      if k > 0:
        x = self.helper(x, k=k - 1)
      return x * 2

    def helper(self, x, *, k):
      trace.append(("body", self.module_name, "helper", float(x), k))
      w = hk.get_parameter("w", [], init=init(50))
      s = hk.get_state("s", [], init=init(60))
      return x + w + s

  def init(v):
    def f(shape, dtype):
      trace.append(("init", v, tuple(shape)))
      return jnp.full(shape, float(v))
    return f

  def enter(r):
    def creator(nxt, shape, dtype, ini, c):
      trace.append(("creator", r.id, tuple(shape), c.full_name, c.module and c.module.module_name,
                    tuple(c.original_shape)))
      if r.beh == "boom_pre":
        raise Boom()
      if r.beh in ("skip", "orig"):
        return jnp.full(shape, 1000. + r.id)
      v = nxt(shape, dtype, init(r.id) if r.pre() else ini)
      trace.append(("created", r.id, float(v)))
      if r.beh == "boom_post":
        raise Boom()
      return v + 1 if r.post() else v

    def getter(nxt, value, c):
      trace.append(("getter", r.id, float(value), c.full_name, c.module and c.module.module_name))
      if r.beh == "boom_pre":
        raise Boom()
      if r.beh in ("skip", "orig"):
        return value + 2000. + r.id
      v = nxt(value + r.id if r.pre() else value)
      trace.append(("got", r.id, float(v)))
      if r.beh == "boom_post":
        raise Boom()
      return v * 3 if r.post() else v

    def interceptor(nxt, args, kwargs, c):
      trace.append(("icpt", r.id, c.method_name, type(c.module) is M,
                    getattr(c.module, "module_name", None), repr(args) if c.method_name == "__init__" else float(args[0]),
                    sorted(kwargs.items())))
      if c.method_name == "__init__":
        return nxt(*args, **kwargs)
      if r.beh == "boom_pre":
        raise Boom()
      if r.beh == "skip":
        return 3000. + r.id
      if r.beh == "orig":
        return c.orig_method(*args, **kwargs)
      if r.pre():
        args = (args[0] + r.id,)
      v = nxt(*args, **kwargs)
      trace.append(("ret", r.id, float(v)))
      if r.beh == "boom_post":
        raise Boom()
      return v - 1 if r.post() else v

    @contextlib.contextmanager
    def hook(mod, name):
      trace.append(("hook+", r.id, name))
      try:
        yield
      finally:
        trace.append(("hook-", r.id, name))
    if r.kind == "creator":
      return hk.experimental.custom_creator(creator, params=r.params, state=r.state)
    if r.kind == "getter":
      return hk.experimental.custom_getter(getter, params=r.params, state=r.state)
    if r.kind == "interceptor":
      return hk.experimental.intercept_methods(interceptor)
    return module_lib.hook_methods(hook)

  def run(prog, mods):
    for op in prog:
      try:
        if op[0] == "with":
          with enter(op[1]):
            run(op[2], mods)
        elif op[0] == "param":
          out.append(float(hk.get_parameter(op[1], [], init=init(10))))
        elif op[0] == "state":
          out.append(float(hk.get_state(op[1], [], init=init(20))))
        elif op[0] == "set":
          hk.set_state(op[1], jnp.asarray(float(op[2])))
        elif op[0] == "new":
          mods[op[1]] = M(name=f"m{op[1]}")
        else:
          out.append(float(mods[op[1]](1., k=op[2])))
      except Boom:
        out.append("boom")
  def top():
    run(prog, [M(name="m0"), M(name="m1")])
  return hk.transform_with_state(top)


# ------------------------------------------------------------------ reference


class Ref:
  def __init__(self, trace, out):
    self.trace, self.out = trace, out
    self.rules = []
    self.params, self.init_state, self.state = {}, {}, {}
    self.mod = None
    self.count = {}

  def of(self, kind, which=None):
    return [r for r in self.rules if r.kind == kind and (which is None or getattr(r, which))]

  def create(self, which, full, v0):
    rules = self.of("creator", which)
    def go(k, v):
      if k == len(rules):
        self.trace.append(("init", v, ()))
        return float(v)
      r = rules[k]
      self.trace.append(("creator", r.id, (), full, self.mod, ()))
      if r.beh == "boom_pre":
        raise Boom()
      if r.beh in ("skip", "orig"):
        return 1000. + r.id
      x = go(k + 1, r.id if r.pre() else v)
      self.trace.append(("created", r.id, x))
      if r.beh == "boom_post":
        raise Boom()
      return x + 1 if r.post() else x
    return go(0, v0)

  def get(self, which, full, v):
    rules = self.of("getter", which)
    def go(k, v):
      if k == len(rules):
        return v
      r = rules[k]
      self.trace.append(("getter", r.id, v, full, self.mod))
      if r.beh == "boom_pre":
        raise Boom()
      if r.beh in ("skip", "orig"):
        return v + 2000. + r.id
      x = go(k + 1, v + r.id if r.pre() else v)
      self.trace.append(("got", r.id, x))
      if r.beh == "boom_post":
        raise Boom()
      return x * 3 if r.post() else x
    return go(0, v)

  def param(self, name, v0):
    key = (self.mod or "~", name)
    if key not in self.params:
      self.params[key] = self.create("params", "/".join(key), v0)
    return self.get("params", "/".join(key), self.params[key])

  def get_state(self, name, v0):
    key = (self.mod or "~", name)
    if key not in self.state:
      self.state[key] = self.init_state[key] = self.create("state", "/".join(key), v0)
    return self.get("state", "/".join(key), self.state[key])

  def set_state(self, name, v):
    key = (self.mod or "~", name)
    self.init_state.setdefault(key, v)
    self.state[key] = v

  def method(self, mod, name, args, kwargs, body):
    hooks = self.of("hook")[::-1]
    rules = self.of("interceptor")
    old = self.mod
    self.mod = mod if mod is not None else "ctor"
    entered = []
    try:
      for h in hooks:
        self.trace.append(("hook+", h.id, name))
        entered.append(h)
      def go(k, x):
        if k == len(rules):
          return body(x)
        r = rules[k]
        self.trace.append(("icpt", r.id, name, True, mod, x if name == "__init__" else float(x), sorted(kwargs.items())))
        if name == "__init__":
          return go(k + 1, x)
        if r.beh == "boom_pre":
          raise Boom()
        if r.beh == "skip":
          return 3000. + r.id
        if r.beh == "orig":
          return body(x)
        v = go(k + 1, x + r.id if r.pre() else x)
        self.trace.append(("ret", r.id, v))
        if r.beh == "boom_post":
          raise Boom()
        return v - 1 if r.post() else v
      return go(0, args)
    finally:
      for h in entered[::-1]:
        self.trace.append(("hook-", h.id, name))
      self.mod = old

  def new(self, n):
    def body(x):
      c = self.count.get(n, 0)
      self.count[n] = c + 1
      return n if c == 0 else f"{n}_{c}"
    return self.method(None, "__init__", "()", {"name": n}, body)

  def call(self, mod, x, k):
    def body(x):
      self.trace.append(("body", mod, "__call__", float(x), k))
      if k > 0:
        x = self.method(mod, "helper", x, {"k": k - 1}, lambda x: self.helper(mod, x, k - 1))
      return x * 2.
    return self.method(mod, "__call__", x, {"k": k}, body)

  def helper(self, mod, x, k):
    self.trace.append(("body", mod, "helper", float(x), k))
    w = self.param("w", 50)
    s = self.get_state("s", 60)
    return x + w + s

  def run(self, prog, mods):
    for op in prog:
      n = len(self.rules)
      try:
        if op[0] == "with":
          self.rules.append(op[1])
          self.run(op[2], mods)
        elif op[0] == "param":
          self.out.append(self.param(op[1], 10))
        elif op[0] == "state":
          self.out.append(self.get_state(op[1], 20))
        elif op[0] == "set":
          self.set_state(op[1], float(op[2]))
        elif op[0] == "new":
          mods[op[1]] = self.new(f"m{op[1]}")
        else:
          self.out.append(self.call(mods[op[1]], 1., op[2]))
      except Boom:
        self.out.append("boom")
      finally:
        del self.rules[n:]


def check(prog, t1, o1, ref, p, s):
  assert o1 == ref.out, f"results {o1} != {ref.out}"
  assert t1 == ref.trace, "trace differs:\n" + "\n".join(
      f"{a}   expected {b}" for a, b in zip(t1 + [None] * 99, ref.trace + [None] * 99) if a != b)[:1500]
  got = {(m, k): float(v) for m, b in p.items() for k, v in b.items()}
  assert got == ref.params, f"params {got} != {ref.params}"
  got = {(m, k): float(v) for m, b in s.items() for k, v in b.items()}
  assert got == ref.init_state, f"state {got} != {ref.init_state}"


@law("C07", quick=1200, bound="programs of at most 6 nested registrations, 8 behaviours, 2 modules, 5 variables")
def hooks_program(g):
  """everything runs in registration order, in its extent, once, and sees what the outer one passed"""
  prog = program(g)
  g.note(prog)
  t1, o1 = [], []
  t = real(prog, t1, o1)
  p, s = t.init(None)
  ref = Ref([], [])
  mods = [ref.new("m0"), ref.new("m1")]
  ref.run(prog, mods)
  check(prog, t1, o1, ref, p, s)
  # nothing stays registered
  t3, o3 = [], []
  real([("call", 0, 1), ("param", "p")], t3, o3).init(None)
  ref3 = Ref([], [])
  ref3.run([("call", 0, 1), ("param", "p")], [ref3.new("m0"), ref3.new("m1")])
  assert t3 == ref3.trace and o3 == ref3.out, f"afterwards: {t3} != {ref3.trace}"
  if "boom" in o1:
    return              # a parameter may be missing
  # apply: stored values, no creators, getters again
  t2, o2 = [], []
  _, s2 = real(prog, t2, o2).apply(p, s, None)
  ref2 = Ref([], [])
  ref2.params, ref2.state, ref2.init_state = dict(ref.params), dict(ref.init_state), dict(ref.init_state)
  mods = [ref2.new("m0"), ref2.new("m1")]
  ref2.run(prog, mods)
  assert o2 == ref2.out, f"apply: results {o2} != {ref2.out}"
  assert t2 == ref2.trace, f"apply: trace {t2} != {ref2.trace}"
  got = {(m, k): float(v) for m, b in s2.items() for k, v in b.items()}
  assert got == ref2.state, f"apply: state {got} != {ref2.state}"


@law("C07", quick=10, bound="one registration")
def outside(g):
  """registration outside a transformed function is an error; context attributes are the documented ones"""
  for f in (hk.experimental.custom_creator, hk.experimental.custom_getter, hk.experimental.intercept_methods):
    raises(ValueError, f, lambda *a: None)
  seen = []
  dt = g.pick([jnp.float32, jnp.bfloat16, jnp.int32])
  shape = g.shape()
  inside = g.bool()
  def getter(nxt, v, c):
    seen.append(c)
    return nxt(v)
  class M(hk.Module):
    def __call__(self):
      with hk.experimental.custom_getter(getter, state=True), hk.experimental.custom_creator(lambda n, *a: seen.append(a[-1]) or n(*a[:-1]), state=True):
        hk.get_parameter("w", shape, dt, init=jnp.zeros)
        hk.get_state("w", shape, dt, init=jnp.zeros)
      return self
  mods = []
  hk.transform_with_state(lambda: mods.append(M(name="mm")()) if inside else M.__call__.__wrapped__(None)).init(None)
  assert len(seen) == 4
  for c in seen:
    assert c.name == "w" and c.module_name == ("mm" if inside else "~") and c.full_name == c.module_name + "/w"
    assert c.module is (mods[0] if inside else None)
    assert c.original_dtype == dt and tuple(c.original_shape) == shape


@law("C07", quick=40, bound="at most 4 creators")
def creator_arguments(g):
  """each creator sees the shape, dtype and initializer the previous one passed on; so does the initializer"""
  n = g.int(1, 4)
  which = g.pick(["param", "state"])
  steps = [(g.shape(), g.pick([jnp.float32, jnp.int32, jnp.bfloat16])) for _ in range(n)]
  shape, dtype = g.shape(), jnp.float16
  log, inits = [], []
  def init(k):
    def f(s, d):
      log.append(("init", k, tuple(s), d))
      return jnp.zeros(s, d)
    return f
  inits = [init(k) for k in range(n + 1)]
  def creator(k):
    def f(nxt, s, d, ini, c):
      log.append((k, tuple(s), d, inits.index(ini), tuple(c.original_shape), c.original_dtype))
      nxt(*steps[k], inits[k + 1])
      return jnp.ones(shape, dtype)
    return f
  def f():
    with contextlib.ExitStack() as st:
      for k in range(n):
        st.enter_context(hk.experimental.custom_creator(creator(k), params=which == "param", state=which == "state"))
      get = hk.get_parameter if which == "param" else hk.get_state
      return get("w", shape, dtype, init=inits[0])
  hk.transform_with_state(f).init(None)
  seen = [(shape, dtype)] + steps
  want = [(k, tuple(seen[k][0]), seen[k][1], k, shape, dtype) for k in range(n)] + [("init", n, tuple(seen[n][0]), seen[n][1])]
  assert log == want, (log, want)
