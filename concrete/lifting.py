"""C10: hk.lift."""
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from concrete.laws import close, law, raises, same_tree


class Inner(hk.Module):
  def __init__(self, names, sub, name=None):
    super().__init__(name=name)
    self.names, self.sub = names, sub

  def __call__(self, x):
    for i, n in enumerate(self.names):
      x = x + hk.get_parameter(n, [], init=lambda s, d: jnp.asarray(0.1 * i + 0.5))
    if self.sub:
      x = x * Inner(self.names[:1], False, name=self.sub)(x)
    return x


def inner_program(g):
  """(description, function): modules with a few parameters, some at top level."""
  mods = [(g.pick(["a", "ab", "lifted", "m", "b"]), g.pick([["w"], ["w", "b"], ["b", "w", "a"]]), g.pick([None, "a", "sub"]))
          for _ in range(g.int(1, 3))]
  top = g.bool(0.3)
  def f(x):
    if top:
      x = x + hk.get_parameter("top", [], init=lambda s, d: jnp.asarray(2.5))
    for n, ns, sub in mods:
      x = Inner(ns, sub, name=n)(x)
    return x
  return (mods, top), hk.transform(f)


@law("C10", quick=40, bound="1-3 lifted functions of 1-3 modules, outer modules, nested in modules")
def lift_round_trip(g):
  """outer params hold the inner ones under the lift's name, and apply hands exactly those back"""
  k = g.int(1, 3)
  inners = [inner_program(g) for _ in range(k)]
  names = [g.pick(["a", "ab", "lifted", "a_x", "lift"]) for _ in range(k)]
  before = [g.bool(0.5) for _ in range(k)]
  inside = g.bool(0.4)
  g.note(([d for d, _ in inners], names, before, inside))
  seen = {}
  class Outer(hk.Module):
    def __call__(self, x):
      return body(x)
  def body(x):
    for i, (_, inner) in enumerate(inners):
      if before[i]:
        x = x + Inner(["w"], None, name=names[i] + "x")(x)
      lifted = hk.experimental.lift(inner.init, name=names[i])
      p = lifted(None, x)
      seen[i] = (lifted.module_name, p)
      x = inner.apply(p, None, x)
    return x
  f = hk.without_apply_rng(hk.transform((lambda x: Outer(name="o")(x)) if inside else body))
  x = jnp.asarray(0.75)
  params = f.init(None, x)
  first = dict(seen)
  want = {}
  for n, p in first.values():
    for m in p:
      assert f"{n}/{m}" not in want, "two lifted functions share a key"
      want[f"{n}/{m}"] = p[m]
  for m, b in want.items():
    assert m in params, (m, list(params))
    assert dict(params[m]) == dict(b), (m, params[m], b)
  others = {m for m in params if m not in want}
  assert all(not any(m.startswith(n + "/") for n, _ in first.values()) for m in others), (others, first)
  for i, (_, inner) in enumerate(inners):
    # the lifted function's own init, run on its own, has the same parameters
    assert jax.tree_util.tree_structure(hk.data_structures.to_mutable_dict(inner.init(None, x))) == \
        jax.tree_util.tree_structure(hk.data_structures.to_mutable_dict(first[i][1]))
  other = jax.tree_util.tree_map(lambda v: v * 1.5 + 0.25, params)
  seen.clear()
  y = f.apply(other, x)
  assert set(seen) == set(first)
  for i in seen:
    n, p = seen[i]
    assert n == first[i][0]
    want = {m[len(n) + 1:]: dict(other[m]) for m in other if m.startswith(n + "/")}
    got = {m: dict(b) for m, b in p.items()}
    assert got == want, (got, want)
    raises(Exception, lambda p=p: p.__setitem__("x", 1))
  # the whole thing computed by hand
  z = x
  for i, (_, inner) in enumerate(inners):
    if before[i]:
      own = [m for m in others if m.split("/")[-1].rsplit("_", 1)[0] == names[i] + "x" or m.split("/")[-1] == names[i] + "x"]
      if len(own) != 1:
        return
      z = z + z + other[own[0]]["w"]
    z = inner.apply(seen[i][1], None, z)
  close(y, z, "output")


@law("C10", quick=10, bound="one clash")
def clash(g):
  """a lifted function run twice through one lift cannot overwrite its parameters"""
  _, inner = inner_program(g)
  def f(x):
    m = hk.experimental.lift(inner.init, name="a")
    m(None, x)
    m(None, x)
  raises(AssertionError, lambda: hk.transform(f).init(None, 1.))


@law("C10", quick=10, bound="two levels")
def nested(g):
  """a lift inside a lifted function"""
  _, deep = inner_program(g)
  mid = hk.transform(lambda x: deep.apply(hk.experimental.lift(deep.init, name=g0)(None, x), None, x) + Inner(["w"], None, name="a")(x))
  g0 = g.pick(["a", "b", "lifted"])
  g1 = g.pick(["a", "b", "lifted"])
  top = hk.without_apply_rng(hk.transform(lambda x: mid.apply(hk.experimental.lift(mid.init, name=g1)(None, x), None, x)))
  x = jnp.asarray(0.5)
  p = top.init(None, x)
  q = mid.init(None, x)
  want = {f"{g1}/{m}": dict(q[m]) for m in q}
  assert {m: dict(b) for m, b in p.items()} == want, (p, want)
  p2 = jax.tree_util.tree_map(lambda v: v + 0.125, p)
  q2 = jax.tree_util.tree_map(lambda v: v + 0.125, q)
  close(top.apply(p2, x), mid.apply(q2, None, x), "output")
