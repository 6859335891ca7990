"""Executable laws: the properties as oracles over the real code."""
import numpy as np

LAWS = {}      # property -> {name: Law}


class Law:
  def __init__(self, prop, name, fn, quick, thorough, bound):
    self.prop, self.name, self.fn = prop, name, fn
    self.quick, self.thorough, self.bound = quick, thorough, bound


def law(prop, quick=20, thorough=None, bound=""):
  """fn(g) draws one case from the generator g and asserts."""
  def deco(fn):
    LAWS.setdefault(prop, {})[fn.__name__] = Law(prop, fn.__name__, fn, quick,
                                                 thorough or quick * 20, bound or (fn.__doc__ or "").strip())
    return fn
  return deco


class Gen:
  """Random draws for one case; remembers what was drawn."""

  def __init__(self, seed):
    self.r = np.random.RandomState(seed % (2 ** 32))
    self.log = []

  def note(self, v):
    if len(self.log) < 40:
      self.log.append(v if isinstance(v, (int, float, str, bool, type(None))) else repr(v)[:200])
    return v

  def int(self, lo, hi):
    return self.note(int(self.r.randint(lo, hi + 1)))

  def bool(self, p=0.5):
    return self.note(bool(self.r.rand() < p))

  def pick(self, xs):
    xs = list(xs)
    return self.note(xs[self.r.randint(len(xs))])

  def sub(self, xs):
    return self.note([x for x in xs if self.r.rand() < 0.5])

  def shape(self, lo=0, hi=3, dim=4, mind=1):
    return self.note(tuple(int(self.r.randint(mind, dim + 1)) for _ in range(self.r.randint(lo, hi + 1))))

  def array(self, shape, scale=1.0, dtype=np.float32):
    return np.asarray(self.r.randn(*shape) * scale).astype(dtype)

  def ints(self, n, lo, hi):
    return self.note([int(self.r.randint(lo, hi + 1)) for _ in range(n)])

  def name(self):
    return self.note(self.r.choice(["a", "b", "w", "x_1", "foo", "Foo", "linear", "linear_1", "bar_2", "a_1_1"]))

  def perm(self, xs):
    xs = list(xs)
    self.r.shuffle(xs)
    return self.note(xs)


class Skip(Exception):
  """The drawn case is outside the law's scope."""


def raises(exc, fn, *a, **k):
  try:
    r = fn(*a, **k)
  except exc as e:
    return e
  raise AssertionError(f"expected {exc}, got {r!r}"[:500])


def same_tree(a, b, msg=""):
  """Same structure, same values."""
  import jax
  ta, tb = jax.tree_util.tree_structure(a), jax.tree_util.tree_structure(b)
  assert ta == tb, f"{msg}: structure {ta} != {tb}"
  for x, y in zip(jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)):
    x, y = np.asarray(x), np.asarray(y)
    assert x.dtype == y.dtype and x.shape == y.shape, f"{msg}: {x.dtype}{x.shape} != {y.dtype}{y.shape}"
    assert np.array_equal(x, y, equal_nan=x.dtype.kind in "fc"), f"{msg}: {x} != {y}"


def close(a, b, msg="", tol=1e-4):
  a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
  assert a.shape == b.shape, f"{msg}: shape {a.shape} != {b.shape}"
  assert np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True), f"{msg}: {a} != {b}"
