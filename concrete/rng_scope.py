"""C23: which sequence keys come from."""
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from concrete.laws import law, raises
from concrete.rng import Ref, kb


def tree(g, depth):
  """A random program: draws, nested with_rng, modules, optimised functions, failing blocks."""
  out = []
  for _ in range(g.int(1, 4)):
    op = g.pick(["next", "maybe", "keys", "reserve", "with", "module", "optimize", "fail"])
    if op in ("with", "module", "optimize", "fail") and depth == 0:
      op = "next"
    n = g.int(0, 3)
    out.append((op, n, tree(g, depth - 1) if op in ("with", "module", "optimize", "fail") else None))
  return out


def count(prog):
  """Calls of next_rng_key within the program (wherever the keys come from)."""
  n = 0
  for op, k, sub in prog:
    n += op == "next"
    if sub is not None:
      n += count(sub)
  return n


class Fail(Exception):
  pass


class Nothing:
  """Stands for the reference sequence during a dry run."""
  key, sub = None, []
  reserve = next = staticmethod(lambda *a: None)
  take = staticmethod(lambda n: [None] * n)


def run(prog, ref, log):
  for op, n, sub in prog:
    if op == "next":
      log(hk.next_rng_key(), ref.next())
    elif op == "maybe":
      log(hk.maybe_next_rng_key(), ref.next())
    elif op == "keys":
      for a, b in zip(hk.next_rng_keys(n), ref.take(n), strict=True):
        log(a, b)
    elif op == "reserve":
      hk.reserve_rng_keys(n)
      ref.reserve(n)
    elif op == "with":
      k = jax.random.PRNGKey(1000 + n)
      with hk.with_rng(k):
        run(sub, Nothing if ref is Nothing else Ref(k), log)
    elif op == "module":
      class M(hk.Module):
        def __call__(self):
          run(sub, ref, log)
      M()()
    elif op == "fail":
      try:
        k = jax.random.PRNGKey(2000 + n)
        with hk.with_rng(k):
          run(sub, Nothing if ref is Nothing else Ref(k), log)
          raise Fail
      except Fail:
        pass
    else:
      # Expected: the calls of next_rng_key are counted and reserved, then the function runs.
      first = []
      def f():
        if not first:
          first.append(1)           # the dry run
          run(sub, Nothing, lambda a, b: None)
          return
        ref.reserve(count(sub))
        run(sub, ref, log)
      hk.experimental.optimize_rng_use(f)()


@law("C23", quick=60, thorough=800, bound="programs of at most 4 operations per level, 3 levels")
def programs(g):
  prog = tree(g, g.int(0, 2))
  if any("optimize" in repr(s) for _, _, s in prog if s) and "optimize" in repr([s for o, _, s in prog if o == "optimize"]):
    prog = [("next", 0, None)]         # an optimised function within another is counted differently
  g.note(prog)
  key = jax.random.PRNGKey(g.int(0, 1000))
  def f():
    ref = Ref(key)
    def log(a, b):
      if not isinstance(a, jax.core.Tracer):
        assert kb(a) == kb(b), "key differs from that of the reference sequence"
    run(prog, ref, log)
    assert kb(hk.next_rng_key()) == kb(ref.next()), "key after the program"
  t = hk.transform(f)
  t.init(key) if g.bool() else t.apply({}, key)


@law("C23", quick=20, thorough=150, bound="functions of at most 4 keys")
def dry_run_leaves_nothing(g):
  n, pre, steps = g.int(0, 4), g.bool(), []
  def f(x):
    steps.append(hk.running_init())
    w = hk.get_parameter("w", (2,), init=jnp.ones)
    c = hk.get_state("c", (), init=jnp.zeros)
    hk.set_state("c", c + 1)
    ks = [hk.next_rng_key() for _ in range(n)]
    return x * w + c, ks
  def outer(x):
    if pre:
      hk.set_state("c", jnp.asarray(5.))
    return hk.experimental.optimize_rng_use(f)(x)
  t = hk.transform_with_state(outer)
  x = jnp.arange(2.)
  p, s = t.init(jax.random.PRNGKey(0), x)
  assert set(p) == {"~"} and set(p["~"]) == {"w"}
  assert float(s["~"]["c"]) == (5. if pre else 0.), "initial state is the first value"
  steps.clear()
  p2 = {"~": {"w": jnp.asarray([2., 3.])}}
  (y, ks), s2 = t.apply(p2, {"~": {"c": jnp.asarray(7.)}}, jax.random.PRNGKey(1), x)
  c = 5. if pre else 7.
  assert np.allclose(y, x * p2["~"]["w"] + c) and float(s2["~"]["c"]) == c + 1, "the state changes once"
  assert len({kb(k) for k in ks}) == n
  with_key = hk.transform(lambda: hk.experimental.optimize_rng_use(lambda: hk.get_parameter("v", (), init=hk.initializers.RandomNormal()))())
  a, = with_key.init(jax.random.PRNGKey(3))["~"].values()
  k1 = jax.random.split(jax.random.PRNGKey(3), 2)[1]
  assert np.allclose(a, jax.random.normal(k1, ()))


@law("C23", quick=10, thorough=30)
def failing_functions(g):
  """a function that raises leaves the hook, the frame and the keys as they were"""
  n, key = g.int(0, 3), jax.random.PRNGKey(g.int(0, 99))
  at = g.pick(["dry", "real"])
  def f():
    runs.append(1)
    for _ in range(n):
      hk.next_rng_key()
    if at == "dry" or len(runs) == 2:
      raise Fail
  def outer():
    try:
      hk.experimental.optimize_rng_use(f)()
    except Fail:
      pass
    ref = Ref(key)
    if at == "real":
      ref.reserve(n)
      [ref.next() for _ in range(n)]
    assert kb(hk.next_rng_key()) == kb(ref.next())
    g2 = hk.experimental.optimize_rng_use(lambda: [hk.next_rng_key() for _ in range(2)])
    ks = g2()
    ref.reserve(2)
    assert [kb(k) for k in ks] == [kb(ref.next()), kb(ref.next())]
  runs = []
  hk.transform(outer).apply({}, key)


@law("C23", quick=10, thorough=20)
def missing(g):
  """no key, or no transform"""
  fns = [hk.next_rng_key, lambda: hk.next_rng_keys(g.int(0, 2)), lambda: hk.reserve_rng_keys(2)]
  for fn in fns:
    raises(ValueError, hk.transform(fn).apply, {}, None)
    raises(ValueError, fn)
  raises(ValueError, hk.maybe_next_rng_key)
  raises(ValueError, hk.running_init)
  raises(ValueError, lambda: hk.with_rng(jax.random.PRNGKey(0)))
  assert hk.transform(hk.maybe_next_rng_key).apply({}, None) is None
  def f():
    k = jax.random.PRNGKey(g.int(0, 9))
    with hk.with_rng(k):
      assert kb(hk.next_rng_key()) == kb(Ref(k).next())
    assert hk.maybe_next_rng_key() is None
    return hk.running_init()
  assert hk.transform(f).apply({}, None) is False
  seen = []
  hk.transform(lambda: seen.append(hk.running_init())).init(None)
  assert seen == [True]
