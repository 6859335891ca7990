"""Parameters (C01) and state (C02): programs of store operations against a
dictionary reference."""
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from concrete.laws import Skip, close, law, raises, same_tree

KEY = jax.random.PRNGKey(0)


class Mod(hk.Module):
  """Runs a program of store operations."""

  def __init__(self, ops, name=None):
    super().__init__(name=name)
    self.ops = ops

  def __call__(self, run):
    return run(self.module_name, self.ops)


def program(g, depth=0, state=False):
  """[(op, ...)] nested up to three modules deep."""
  ops = []
  for _ in range(g.int(1, 5)):
    k = g.pick(["get", "get", "get", "call"] + (["set", "sget", "sget0"] if state else []))
    if k == "call" and depth < 2:
      ops.append(("call", g.pick(["m", "n", "block", None]), program(g, depth + 1, state), g.int(1, 2)))
    elif k in ("set", "sget", "sget0"):
      ops.append((k, g.pick(["s", "t", "u"]), g.int(0, 99)))
    else:
      ops.append(("get", g.pick(["w", "b", "s"]), g.pick([(), (2,), (1, 3)]), g.int(0, 99)))
  return ops


class Ref:
  """The reference store."""

  def __init__(self, params=None, state=None):
    self.params = params if params is not None else {}
    self.frozen = params is not None
    self.state = state if state is not None else {}
    self.initial = {m: dict(d) for m, d in self.state.items()}
    self.inits = []
    self.want_inits = []


class Mismatch(Exception):
  pass


def make_run(ref, log):
  def run(mod, ops):
    for op in ops:
      if op[0] == "call":
        m = Mod(op[2], name=op[1])
        for _ in range(op[3]):
          m(run)
        continue
      bundle = ref.params if op[0] == "get" else ref.state
      d = bundle.setdefault(mod, {}) if not (op[0] == "get" and ref.frozen) else bundle.get(mod, {})
      if op[0] == "get":
        _, name, shape, tagv = op
        def init(shape_, dtype_, tagv=tagv, mod=mod, name=name):
          ref.inits.append((mod, name, tuple(shape_), np.dtype(dtype_).name, tagv))
          return jnp.full(shape_, tagv, dtype_)
        dt = jnp.float32 if tagv % 2 else jnp.int32
        known = name in d
        bad = (ref.frozen and not known) or (known and tuple(np.shape(d[name])) != tuple(shape))
        if bad:
          exc = raises((ValueError, AssertionError), hk.get_parameter, name, shape, dt, init)
          raise Mismatch(str(exc))
        v = hk.get_parameter(name, shape, dt, init)
        if not known:
          ref.want_inits.append((mod, name, tuple(shape), np.dtype(dt).name, tagv))
          d[name] = v
          assert tuple(v.shape) == tuple(shape) and v.dtype == dt and (np.asarray(v) == tagv).all(), (v, op)
        else:
          assert v is d[name], f"{mod}/{name}: a different object was returned"
        again = hk.get_parameter(name, shape, dt, init)
        assert again is v, f"{mod}/{name}: second get returned another object"
      elif op[0] == "set":
        v = jnp.asarray(op[2])
        hk.set_state(op[1], v)
        if op[1] not in d:
          ref.initial.setdefault(mod, {})[op[1]] = v
        d[op[1]] = v
        assert hk.get_state(op[1]) is v
      elif op[0] == "sget":
        calls = []
        def sinit(s, t, x=op[2]):
          calls.append((tuple(s), t))
          return jnp.full(s, x, t)
        v = hk.get_state(op[1], (), jnp.int32, sinit)
        if op[1] in d:
          assert v is d[op[1]] and not calls, f"state {mod}/{op[1]}"
        else:
          assert calls == [((), jnp.int32)], calls
          assert int(v) == op[2]
          d[op[1]] = v
          ref.initial.setdefault(mod, {})[op[1]] = v
          assert hk.get_state(op[1]) is v
      else:   # sget0
        if op[1] in d:
          assert hk.get_state(op[1]) is d[op[1]]
        else:
          raises(ValueError, hk.get_state, op[1])
          raises(ValueError, hk.get_state, op[1], None, jnp.float32, jnp.zeros)
    return None
  return run


def prune(d):
  return {m: {k: v for k, v in b.items()} for m, b in d.items() if b}


def to_dict(t):
  return {m: dict(b) for m, b in t.items() if len(b)}


def ids_equal(a, b, what):
  a, b = to_dict(a), prune(b)
  assert set(a) == set(b), f"{what}: modules {sorted(a)} != {sorted(b)}"
  for m in a:
    assert set(a[m]) == set(b[m]), f"{what}[{m}]: {sorted(a[m])} != {sorted(b[m])}"
    for k in a[m]:
      x, y = np.asarray(a[m][k]), np.asarray(b[m][k])
      assert x.dtype == y.dtype and x.shape == y.shape and (x == y).all(), f"{what}[{m}][{k}]: {x} != {y}"


def both(g, state):
  prog = program(g, state=state)
  g.note(prog)
  ref = Ref()
  t = hk.transform_with_state(lambda: make_run(ref, None)("~", prog))
  try:
    params, st = t.init(KEY)
  except Mismatch:
    ref = None
  if ref is None:
    return
  assert ref.inits == ref.want_inits, f"initializers ran {ref.inits}, expected {ref.want_inits}"
  ids_equal(params, ref.params, "init params")
  ids_equal(st, ref.initial, "init state")
  # apply: same values back, nothing created, inputs untouched
  before = to_dict(params)
  bstate = to_dict(st)
  ref2 = Ref({m: dict(b) for m, b in before.items()}, {m: dict(b) for m, b in bstate.items()})
  t2 = hk.transform_with_state(lambda: make_run(ref2, None)("~", prog))
  _, st2 = t2.apply(params, st, KEY)
  assert not ref2.inits, f"apply ran initializers {ref2.inits}"
  ids_equal(params, before, "params after apply")
  ids_equal(st, bstate, "state given to apply")
  ids_equal(st2, ref2.state, "state out of apply")
  # a missing parameter is an error, however the rest looks
  names = [(m, k) for m in before for k in before[m]]
  if names:
    m, k = g.pick(names)
    part = {m2: {k2: v for k2, v in b.items() if (m2, k2) != (m, k)} for m2, b in before.items()}
    ref3 = Ref({m2: dict(b) for m2, b in part.items()}, {m: dict(b) for m, b in bstate.items()})
    t3 = hk.transform_with_state(lambda: make_run(ref3, None)("~", prog))
    raises((Mismatch, ValueError), t3.apply, part, st, KEY)
    assert not ref3.inits, "an initializer ran during apply"


@law("C01", quick=120)
def params_program(g):
  """programs of at most 5 operations per module, 3 levels deep, 3 names"""
  both(g, False)


@law("C02", quick=150)
def state_program(g):
  """programs of at most 5 operations per module, 3 levels deep, 3 names"""
  both(g, True)


@law("C01", quick=20)
def shape_mismatch(g):
  """one parameter"""
  s1, s2 = g.shape(0, 3), g.shape(0, 3)
  bundle = g.bool()

  def get(shape, init=jnp.zeros):
    if not bundle:
      return hk.get_parameter("w", shape, init=init)
    class M(hk.Module):
      def __call__(self):
        return hk.get_parameter("w", shape, init=init)
    return M(name="m")()
  params = hk.transform(lambda: get(s1)).init(None)
  ap = hk.transform(lambda: get(s2)).apply
  if s1 == s2:
    assert ap(params, None).shape == s1
  else:
    raises((ValueError, AssertionError), ap, params, None)
    if not bundle:
      raises((ValueError, AssertionError),
             hk.transform(lambda: (get(s1), hk.get_parameter("w", s2, init=jnp.ones))).init, None)
  # an initializer of the wrong shape is rejected
  if s1 != s2:
    raises((ValueError, AssertionError), hk.transform(lambda: get(s1, lambda s, d: jnp.zeros(s2, d))).init, None)
  # without initializer: error, nothing recorded
  raises((ValueError, AssertionError), hk.transform(lambda: get(s1, None)).init, None)


@law("C01", quick=30)
def shared_modules(g):
  """one module instance used from several places shares its parameters"""
  n = g.int(2, 4)
  calls = []
  def f(x):
    lin = hk.Linear(3, w_init=lambda s, d: calls.append(s) or jnp.ones(s, d))
    class Outer(hk.Module):
      def __call__(self, y):
        return lin(y)
    y = x
    for k in range(n):
      y = Outer(name=g.pick(["o", "p"]))(y) if g.bool() else lin(y)
    return y
  p = hk.transform(f).init(KEY, jnp.ones((2, 3)))
  assert list(p) == ["linear"] and set(p["linear"]) == {"w", "b"}, p
  assert [tuple(c) for c in calls] == [(3, 3)], calls


@law("C02", quick=40)
def state_threading(g):
  """k applications of a counter net"""
  n = g.int(1, 5)
  k0 = g.int(0, 3)
  class Counter(hk.Module):
    def __call__(self):
      c = hk.get_state("c", (), jnp.int32, lambda s, d: jnp.full(s, k0, d))
      hk.set_state("c", c + 1)
      hk.set_state("prev", c)
      return c
  t = hk.transform_with_state(lambda: (Counter(name="a")(), Counter(name="b")()))
  params, st = t.init(None)
  assert int(st["a"]["c"]) == k0 and int(st["b"]["c"]) == k0, "init returns initial values"
  assert int(st["a"]["prev"]) == k0
  for j in range(n):
    keep = jax.tree_util.tree_map(lambda x: x, st)
    (a, b), st2 = t.apply(params, st, None)
    assert int(a) == int(b) == k0 + j
    same_tree(keep, st, "state given to apply")
    assert int(st2["a"]["c"]) == k0 + j + 1 and int(st2["a"]["prev"]) == k0 + j
    st = st2
  # an apply that touches nothing returns the state unchanged
  t0 = hk.transform_with_state(lambda: hk.get_state("zz", (), jnp.int32, jnp.zeros))
  _, s3 = hk.transform_with_state(lambda: None).apply(params, st, None)
  same_tree(dict(to_dict(s3)), dict(to_dict(st)), "untouched state")


@law("C01", quick=25)
def permuted_shapes(g):
  """shapes with the same number of elements are still different shapes; equal shapes are accepted in any sequence type"""
  dims = g.ints(g.int(1, 4), 1, 4)
  other = g.pick(["perm", "flat", "extra", "split"])
  s1 = tuple(dims)
  s2 = {"perm": tuple(g.perm(dims)), "flat": (int(np.prod(dims)),), "extra": s1 + (1,), "split": (1,) + s1}[other]
  at_apply = g.bool()
  val = jnp.ones(s2)
  def f(shape):
    return hk.get_parameter("w", shape, init=lambda s, d: val)
  if at_apply:
    run = lambda shape: hk.transform(lambda: f(shape)).apply({"~": {"w": val}}, None)
  else:
    run = lambda shape: hk.transform(lambda: f(shape)).init(None)
  for sh in (s1, list(s1), np.array(s1)):
    if s1 == s2:
      run(sh)
    else:
      raises((ValueError, AssertionError), run, sh)


@law("C02", quick=30)
def set_state_any_value(g):
  """state values may change shape, dtype and structure; initial and current stay apart"""
  vals = [g.pick([jnp.zeros(()), jnp.ones((3,)), jnp.ones((3,), jnp.int32), (jnp.ones(2),), (1, 2.), None,
                  np.zeros((2, 2)), 0, 0., False]) for _ in range(g.int(2, 5))]
  def f():
    for v in vals:
      hk.set_state("s", v)
      got = hk.get_state("s")
      assert got is v, (got, v)
      got = hk.get_state("s", (7,), init=lambda s, d: 1 / 0)
      assert got is v
    return hk.get_state("s")
  t = hk.transform_with_state(f)
  _, s0 = t.init(None)
  same_tree(s0["~"]["s"], vals[0], "initial value")
  _, s1 = t.apply({}, {"~": {"s": 12345, "t": vals[0]}}, None)
  same_tree(s1["~"]["s"], vals[-1], "current value")
  same_tree(s1["~"]["t"], vals[0], "other entry")
  # init with get_state first: the initial value is the one get_state created
  v0 = jnp.full((), 77.)
  def h():
    hk.get_state("s", (), init=lambda s, d: v0)
    return f()
  _, s0 = hk.transform_with_state(h).init(None)
  same_tree(s0["~"]["s"], v0, "initial value after get then set")
