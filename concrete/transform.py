"""C03: init and apply are functions of their arguments and leave nothing behind."""
import collections
import types

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from concrete.laws import Skip, close, law, raises, same_tree


class Boom(Exception):
  pass


def make_net(g, boom=False):
  """A random program over the whole stateful API; returns (f, trace)."""
  prog = []
  for _ in range(g.int(1, 5)):
    prog.append(g.pick(["param", "state", "rng", "module", "creator", "getter", "nested", "out"]))
  names = [g.pick(["w", "b", "s"]) for _ in prog]
  seen = {}

  class M(hk.Module):
    def __init__(self, k, name=None):
      super().__init__(name=name)
      self.k = k

    def __call__(self, x):
      w = hk.get_parameter("w", [], init=lambda s, d: jnp.full(s, self.k, d))
      c = hk.get_state("c", [], init=jnp.zeros)
      hk.set_state("c", c + 1)
      if boom and self.k > 3:
        raise Boom()
      return x * w + c

  def f(x, *, scale=1.0):
    out = [x * scale]
    for i, (op, n) in enumerate(zip(prog, names)):
      if op == "param":
        out.append(hk.get_parameter(n + "p", [2], init=lambda s, d: jnp.full(s, i + 1.0)))
      elif op == "state":
        v = hk.get_state(n, [], init=lambda s, d: jnp.full(s, float(i)))
        hk.set_state(n, v + x)
        out.append(v)
      elif op == "rng":
        out.append(jax.random.uniform(hk.next_rng_key()))
      elif op == "module":
        out.append(M(float(i))(x))
      elif op == "creator":
        with hk.experimental.custom_creator(lambda nx, s, d, init, c: nx(s, d, init) + 1), \
             hk.experimental.custom_creator(lambda nx, s, d, init, c: nx(s, d, init) + 1, params=False, state=True):
          out.append(M(float(i), name="created")(x))
      elif op == "getter":
        with hk.experimental.custom_getter(lambda nx, v, c: nx(v) * 2), \
             hk.experimental.custom_getter(lambda nx, v, c: nx(v) * 2, params=False, state=True):
          out.append(M(float(i), name="got")(x))
      elif op == "nested":
        g2 = hk.transform_with_state(lambda y: M(7.0)(y) + jax.random.uniform(hk.next_rng_key()))
        if not boom:
          p, s = g2.init(jax.random.PRNGKey(i), x)
          r, s = g2.apply(p, s, jax.random.PRNGKey(i + 1), x)
          out.append(r)
          out.append(p)
      else:
        out.append({"k": x})
    if boom:
      raise Boom()
    return out
  return f


def outside():
  """No transformation is active."""
  raises(ValueError, hk.get_parameter, "w", [], init=jnp.zeros)
  raises(ValueError, hk.get_state, "w", [], init=jnp.zeros)
  raises(ValueError, hk.set_state, "w", 1)
  raises(ValueError, hk.next_rng_key)
  raises(ValueError, hk.Module)
  # nothing a previous transformation installed is still there
  t = hk.transform_with_state(lambda: (hk.get_parameter("w", [], init=jnp.zeros), hk.get_state("s", [], init=jnp.zeros)))
  p, s = t.init(None)
  assert {m: dict(b) for m, b in p.items()} == {"~": {"w": 0.}}, p
  assert {m: dict(b) for m, b in s.items()} == {"~": {"s": 0.}}, s
  (a, b), s2 = t.apply({"~": {"w": jnp.asarray(5.)}}, {"~": {"s": jnp.asarray(6.)}}, None)
  assert float(a) == 5. and float(b) == 6.


@law("C03", quick=40)
def pure(g):
  """programs of at most 5 operations over parameters, state, rng, modules, creators, getters, nested transforms"""
  f = make_net(g)
  t = hk.transform_with_state(f)
  assert type(t) is hk.TransformedWithState
  key, key2 = jax.random.PRNGKey(g.int(0, 9)), jax.random.PRNGKey(g.int(10, 19))
  x = jnp.asarray(2.)
  p, s = t.init(key, x, scale=2.0)
  outside()
  p2, s2 = t.init(key, x, scale=2.0)
  same_tree(p, p2, "params of a second init")
  same_tree(s, s2, "state of a second init")
  pd = {m: dict(b) for m, b in p.items()}
  sd = {m: dict(b) for m, b in s.items()}
  keep_p = {m: dict(b) for m, b in pd.items()}
  keep_s = {m: dict(b) for m, b in sd.items()}
  o1, n1 = t.apply(p, s, key2, x, scale=3.0)
  o2, n2 = t.apply(pd, sd, key2, x, scale=3.0)
  same_tree(o1, o2, "apply depends on the kind of mapping")
  same_tree(n1, n2, "apply depends on the kind of mapping")
  assert pd.keys() == keep_p.keys() and all(
      pd[m].keys() == keep_p[m].keys() and all(pd[m][k] is keep_p[m][k] for k in pd[m]) for m in pd), "params modified"
  assert sd.keys() == keep_s.keys() and all(
      sd[m].keys() == keep_s[m].keys() and all(sd[m][k] is keep_s[m][k] for k in sd[m]) for m in sd), "state modified"
  o3, n3 = t.apply(p, s, key2, x, scale=3.0)
  same_tree(o1, o3, "second apply")
  same_tree(n1, n3, "state of second apply")
  p3, s3 = jax.jit(t.init)(key, x)
  same_tree(p, p3, "jitted init")
  o4, n4 = jax.jit(lambda *a: t.apply(*a, scale=3.0))(p, s, key2, x)
  for a, b in zip(jax.tree_util.tree_leaves((o1, n1)), jax.tree_util.tree_leaves((o4, n4))):
    close(a, b, "jitted apply")
  assert jax.tree_util.tree_structure((o1, n1)) == jax.tree_util.tree_structure((o4, n4))
  outside()


@law("C03", quick=25)
def failure(g):
  """the same programs, failing at a random place, during init or apply"""
  f = make_net(g, boom=True)
  t = hk.transform_with_state(f)
  raises(Boom, t.init, jax.random.PRNGKey(0), jnp.asarray(2.))
  outside()
  def app():
    t2 = hk.transform_with_state(lambda x: (hk.get_state("a", init=jnp.ones, shape=[]), hk.Linear(2)(x), f_fail()))
    def f_fail():
      with hk.experimental.custom_getter(lambda nx, v, c: nx(v) * 2):
        with hk.experimental.intercept_methods(lambda nx, a, k, c: nx(*a, **k)):
          raise Boom()
    t2.apply({"linear": {"w": jnp.ones((3, 2)), "b": jnp.ones(2)}}, None, None, jnp.ones((1, 3)))
  raises(Boom, app)
  outside()


@law("C03", quick=30)
def rng_argument(g):
  """rng as key, int seed, or None; the given state and params may be None or empty"""
  seed = g.int(0, 99)
  def f():
    return hk.get_parameter("w", [2], init=hk.initializers.RandomNormal()), jax.random.uniform(hk.next_rng_key())
  t = hk.transform(f)
  a = t.init(seed)
  b = t.init(jax.random.PRNGKey(seed))
  same_tree(a, b, "int seed")
  same_tree(t.apply(a, seed), t.apply(a, jax.random.PRNGKey(seed)), "int seed at apply")
  c = t.init(jax.random.PRNGKey(seed + 1))
  assert not np.array_equal(a["~"]["w"], c["~"]["w"]), "the rng is ignored"
  raises(ValueError, t.init, None)
  raises(ValueError, t.apply, a, None)
  raises(ValueError, t.init, "not a key")
  raises(ValueError, t.apply, a, "not a key")
  for bad in (hk.PRNGSequence(seed), (jax.random.PRNGKey(0),), 1.5):
    raises(ValueError, t.init, bad)
    raises(ValueError, t.apply, a, bad)
  for none in (None, {}, hk.data_structures.to_immutable_dict({})):
    raises(ValueError, t.apply, none, seed)      # parameters are not made up during apply
  raises(TypeError, t.apply, jnp.ones(3), None)
  ts = hk.transform_with_state(lambda x: x + 1)
  for p in (None, {}, hk.data_structures.to_immutable_dict({})):
    for s in (None, {}, hk.data_structures.to_immutable_dict({})):
      out, st = ts.apply(p, s, None, 1)
      assert out == 2 and len(st) == 0
  raises(TypeError, ts.apply, {}, jnp.ones(3), None, 1)


@law("C03", quick=30)
def wrappers(g):
  """without_state, without_apply_rng in either order, transform"""
  use_state = g.bool()
  late = g.bool()
  def f(x, *, k=0):
    if use_state and not (late and hk.running_init()):
      hk.set_state("s", x)
    return x * hk.get_parameter("w", [], init=jnp.ones) + k
  x = jnp.asarray(float(g.int(1, 9)))
  for t in (hk.transform(f), hk.without_state(hk.transform_with_state(f))):
    assert type(t) is hk.Transformed
    if use_state and not late:
      raises(ValueError, t.init, None, x)
    else:
      p = t.init(None, x)
      assert isinstance(p, collections.abc.Mapping) and list(p) == ["~"]
    pr = {"~": {"w": jnp.asarray(3.)}}
    if use_state:
      raises(ValueError, t.apply, pr, None, x)
    else:
      assert float(t.apply(pr, None, x, k=2)) == float(x) * 3 + 2
      u = hk.without_apply_rng(t)
      assert type(u) is hk.Transformed and float(u.apply(pr, x, k=2)) == float(x) * 3 + 2
  ts = hk.without_apply_rng(hk.transform_with_state(f))
  assert type(ts) is hk.TransformedWithState
  out, st = ts.apply({"~": {"w": jnp.asarray(3.)}}, {"~": {"other": 1}}, x, k=5)
  assert float(out) == float(x) * 3 + 5
  want = {"other": 1}
  if use_state:
    want["s"] = x
  assert dict(st["~"]) == want, st
  raises((ValueError, TypeError), hk.without_apply_rng, f)


@law("C03", quick=30)
def unused_inputs(g):
  """extra modules in params and state: never visible in params, carried over in state"""
  ms = {f"m{k}": {n: jnp.asarray(float(k)) for n in g.sub(["w", "b", "c"]) + ["z"]} for k in range(g.int(0, 4))}
  names = [(m, n) for m in ms for n in ms[m]]
  touched = [q for q in names if g.bool(0.3)]
  def f():
    for m, n in touched:
      with hk.experimental.name_scope(m) if hasattr(hk.experimental, "name_scope") else _null():
        pass
    return None
  t = hk.transform_with_state(f)
  out, st = t.apply(ms, ms, None)
  assert {m: dict(b) for m, b in st.items()} == ms, "state changed by a function that does not touch it"
  for m in ms:
    for n in ms[m]:
      assert st[m][n] is ms[m][n]
  # writing into one module leaves the others alone
  if ms:
    tgt = g.pick(list(ms))
    class W(hk.Module):
      def __call__(self):
        hk.set_state("z", jnp.asarray(-1.))
    _, st = hk.transform_with_state(lambda: W(name=tgt)()).apply(ms, ms, None)
    want = {m: dict(b) for m, b in ms.items()}
    want[tgt]["z"] = jnp.asarray(-1.)
    assert {m: {k: float(v) for k, v in b.items()} for m, b in st.items()} == {
        m: {k: float(v) for k, v in b.items()} for m, b in want.items()}
    assert float(ms[tgt]["z"]) != -1.
    # the result does not alias the input
    raises(Exception, lambda: st[tgt].__setitem__("z", 0))


class _null:
  def __enter__(self):
    return None

  def __exit__(self, *a):
    return None


@law("C03", quick=20)
def interleaved(g):
  """one transformed function called while another is running: neither sees the other"""
  inner = hk.transform_with_state(lambda: (hk.get_parameter("w", [], init=jnp.ones),
                                           hk.get_state("s", [], init=jnp.zeros), hk.next_rng_key()))
  boom = g.bool()
  res = {}
  def outer():
    a = hk.get_parameter("w", [], init=lambda s, d: jnp.full(s, 5.))
    k1 = hk.next_rng_key()
    res["inner"] = inner.init(jax.random.PRNGKey(1))
    if boom:
      def bad():
        hk.get_parameter("zz", [], init=jnp.ones)
        hk.set_state("zz", 1)
        raise Boom()
      raises(Boom, hk.transform_with_state(bad).init, None)
    res["applied"] = inner.apply({"~": {"w": jnp.asarray(8.)}}, {"~": {"s": jnp.asarray(9.)}}, jax.random.PRNGKey(2))
    return a, k1, hk.next_rng_key(), hk.get_parameter("w", [], init=jnp.zeros)
  def alone():
    a = hk.get_parameter("w", [], init=lambda s, d: jnp.full(s, 5.))
    return a, hk.next_rng_key(), hk.next_rng_key(), a
  p, s = hk.transform_with_state(outer).init(jax.random.PRNGKey(0))
  assert {m: dict(b) for m, b in p.items()} == {"~": {"w": 5.}} and not len(s)
  same_tree(res["inner"], inner.init(jax.random.PRNGKey(1)), "inner init")
  (w, st, _), ns = res["applied"]
  assert float(w) == 8. and float(st) == 9. and float(ns["~"]["s"]) == 9.
  o1, _ = hk.transform_with_state(outer).apply(p, s, jax.random.PRNGKey(3))
  o2, _ = hk.transform_with_state(alone).apply(p, s, jax.random.PRNGKey(3))
  same_tree(o1, o2, "outer")
  outside()
