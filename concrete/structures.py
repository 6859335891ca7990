"""C08 / C09 on the real code."""
import collections
import copy
import pickle

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from concrete.laws import law, raises, same_tree
from haiku._src import data_structures as ds

MODS = ["a", "a/b", "a/~/b", "lin", "lin_1", "", "z", "A"]
NAMES = ["w", "b", "w_1", "", "a/b", "scale"]


def structure(g, max_mods=4):
  out = {}
  for m in g.perm(MODS)[:g.int(0, max_mods)]:
    out[m] = {}
    for n in g.perm(NAMES)[:g.int(0, 4)]:
      out[m][n] = g.int(-9, 9) if g.bool() else g.array(g.shape(0, 2, 3))
  return out


def entries(s):
  return {(m, n): v for m, b in s.items() for n, v in b.items()}


def eqv(a, b):
  return a is b or (np.shape(a) == np.shape(b) and np.array_equal(a, b))


def same_entries(a, b, msg):
  ea, eb = entries(a), entries(b)
  assert set(ea) == set(eb), f"{msg}: {sorted(ea)} != {sorted(eb)}"
  for k in ea:
    assert eqv(ea[k], eb[k]), f"{msg}: {k}"


def wrap(g, s):
  kind = g.pick(["dict", "frozen", "mixed", "ordered"])
  if kind == "frozen":
    return hk.data_structures.to_immutable_dict(s)
  if kind == "mixed":
    return {m: (hk.data_structures.to_immutable_dict(b) if i % 2 else b) for i, (m, b) in enumerate(s.items())}
  if kind == "ordered":
    return collections.OrderedDict(s)
  return s


def pred_for(g):
  table = {}
  bits = g.int(0, 2 ** 16 - 1)
  def pred(m, n, v):
    h = (MODS.index(m) * 7 + NAMES.index(n) * 3) % 16
    table[(m, n)] = bool((bits >> h) & 1)
    kind = h % 3
    r = table[(m, n)]
    return r if kind == 0 else (np.bool_(r) if kind == 1 else int(r) * 5)
  return pred, table


@law("C09", quick=120, bound="up to 4 modules with up to 4 entries, arbitrary predicates")
def partition_filter(g):
  s = structure(g)
  snap = copy.deepcopy(s)
  src = wrap(g, s)
  pred, table = pred_for(g)
  a, b = hk.data_structures.partition(pred, src)
  want_a = {k for k in entries(s) if table[k]}
  assert set(entries(a)) == want_a and set(entries(b)) == set(entries(s)) - want_a, (a, b)
  for side in (a, b):
    assert type(side).__name__ == "FlatMapping"
    for k, v in entries(side).items():
      assert v is entries(s)[k] or eqv(v, entries(s)[k])
    assert all(len(bundle) for bundle in side.values()), "empty bundle"
  same_entries(hk.data_structures.merge(a, b), s, "partition then merge")
  same_entries(hk.data_structures.merge(b, a), s, "partition then merge")
  f = hk.data_structures.filter(pred, src)
  assert f == a or set(entries(f)) == want_a
  same_entries(f, a, "filter")
  same_entries(src, snap, "input unchanged")


@law("C09", quick=80, bound="up to 4 modules with up to 4 entries")
def map_(g):
  s = structure(g)
  src = wrap(g, s)
  calls = []
  def fn(m, n, v):
    calls.append((m, n))
    assert eqv(v, s[m][n])
    return (m, n, id(v)) if g.r.rand() < 0 else jnp.asarray(len(m) * 100 + len(n))
  r = hk.data_structures.map(fn, src)
  assert sorted(calls) == sorted(entries(s)), "each entry mapped exactly once"
  assert set(entries(r)) == set(entries(s))
  for (m, n), v in entries(r).items():
    assert int(v) == len(m) * 100 + len(n)
  kinds = {mn: g.pick([None, 0, False, (), {}, "s"]) for mn in entries(s)}
  r = hk.data_structures.map(lambda m, n, v: kinds[m, n], src)
  assert {(m, n): v for m in r for n, v in r[m].items()} == kinds, "every result is kept, whatever it is"


@law("C09", quick=100, bound="up to 5 structures, overlapping")
def merge(g):
  ss = [structure(g, 5) for _ in range(g.int(1, 5))]
  snaps = copy.deepcopy(ss)
  r = hk.data_structures.merge(*[wrap(g, s) for s in ss])
  want = {}
  for s in ss:
    want.update(entries(s))
  got = entries(r)
  assert set(got) == set(want)
  for k in want:
    assert eqv(got[k], want[k]), k
  for s, t in zip(ss, snaps):
    same_entries(s, t, "inputs unchanged")


# ------------------------------------------------------------------------ C08


def nested(g, depth=3):
  d = {}
  for k in g.perm(["a", "b", "c", "zz", "B", "a/b"])[:g.int(0, 3)]:
    t = g.pick(["leaf", "leaf", "dict", "none", "list", "tuple"])
    if t == "dict" and depth > 0:
      d[k] = nested(g, depth - 1)
    elif t == "none":
      d[k] = None
    elif t == "list":
      d[k] = [g.int(0, 9), g.int(0, 9)]
    elif t == "tuple":
      d[k] = (g.int(0, 9), {"in": g.int(0, 3)})
    else:
      d[k] = g.int(-99, 99)
  return d


def strip(x):
  """Plain-dict form of anything."""
  if isinstance(x, (dict, ds.FlatMapping)):
    return {k: strip(v) for k, v in x.items()}
  if isinstance(x, list):
    return [strip(v) for v in x]
  if isinstance(x, tuple):
    return tuple(strip(v) for v in x)
  return x


@law("C08", quick=150, bound="nested dicts of depth <= 3 with list, tuple and None values")
def freeze_thaw(g):
  d = nested(g)
  snap = copy.deepcopy(d)
  f = hk.data_structures.to_immutable_dict(d)
  assert strip(f) == snap and f == snap and not (f != snap)
  def poison(x):
    for k in list(x):
      if type(x[k]) is dict:
        poison(x[k])
      x[k] = "changed"
    x["extra"] = 1
  def all_frozen(x):
    assert type(x) is ds.FlatMapping, type(x)
    for v in x.values():
      if isinstance(v, (dict, ds.FlatMapping)):
        all_frozen(v)
  all_frozen(f)
  m = hk.data_structures.to_mutable_dict(f)
  assert m == snap and type(m) is dict
  def all_plain(x):
    assert type(x) is dict
    for v in x.values():
      if isinstance(v, (dict, ds.FlatMapping)):
        all_plain(v)
  all_plain(m)
  poison(m)
  assert strip(f) == snap, "mutating the thawed copy reached the frozen one"
  poison(d)
  assert strip(f) == snap, "mutating the source reached the frozen copy"
  assert hk.data_structures.to_immutable_dict(f) == f
  def attack(x):
    for fn in (lambda: x.__setitem__("a", 1), lambda: x.__delitem__("a")):
      raises((TypeError, AttributeError, KeyError), fn)
  attack(f)


@law("C08", quick=150, bound="as freeze_thaw; tree_map, flatten, pickle, deepcopy, equality, hash, protocol")
def pytree_and_protocol(g):
  d = nested(g)
  f = hk.data_structures.to_immutable_dict(d)
  leaves, td = jax.tree_util.tree_flatten(f)
  assert leaves == jax.tree_util.tree_leaves(d), "leaves in the order of the plain dict"
  u = jax.tree_util.tree_unflatten(td, leaves)
  assert type(u) is ds.FlatMapping and strip(u) == d and u == f
  assert hash(u) == hash(f)
  t = jax.tree_util.tree_map(lambda x: x + 1, f)
  assert strip(t) == jax.tree_util.tree_map(lambda x: x + 1, d)
  t2 = jax.tree_util.tree_map(lambda x, y: (x, [y]), f, u)     # leaves that become trees
  assert strip(t2) == jax.tree_util.tree_map(lambda x: (x, [x]), d)
  assert jax.tree_util.tree_leaves(t2) == jax.tree_util.tree_leaves(jax.tree_util.tree_map(lambda x: (x, [x]), d))
  Pt = collections.namedtuple("Pt", "x y")
  for mk in (lambda x: (x, [x]), lambda x: {"k": x}, lambda x: [], lambda x: None, lambda x: Pt(x, None), lambda x: [[x], x],
             lambda x: hk.data_structures.to_immutable_dict({"k": {"j": x}}), lambda x: (x, None) if x and x % 2 else x):
    t4, want = jax.tree_util.tree_map(mk, f), jax.tree_util.tree_map(mk, d)
    fresh = hk.data_structures.to_immutable_dict(want)
    assert strip(t4) == strip(want)
    assert jax.tree_util.tree_leaves(t4) == jax.tree_util.tree_leaves(want), "leaves of a mapped structure"
    if type(mk(1)) is not dict:
      assert jax.tree_util.tree_structure(t4) == jax.tree_util.tree_structure(fresh), "structure of a mapped structure"
    assert strip(jax.tree_util.tree_map(lambda x: x, t4)) == strip(want)
  copy_of = lambda x: float(str(x)) if isinstance(x, float) else x
  big = jax.tree_util.tree_map(lambda x: x + 0.5, d)
  b1, b2 = [hk.data_structures.to_immutable_dict(jax.tree_util.tree_map(copy_of, b)) for b in (big, big)]
  assert b1 == b2 and hash(b1) == hash(b2), "equal structures have equal hashes"
  assert hash(b1) == hash(hk.data_structures.to_immutable_dict(dict(reversed(list(big.items()))))), "the order of entries matters"
  assert len({b1: 0, b2: 1}) == 1
  t3 = jax.tree_util.tree_map(lambda x: None, f)
  assert strip(t3) == jax.tree_util.tree_map(lambda x: None, d)
  assert jax.tree_util.tree_leaves(t3) == []
  for c in (pickle.loads(pickle.dumps(f)), copy.deepcopy(f)):
    assert c == f and strip(c) == d
  for x in (f, u):
    assert len(x) == len(d) and sorted(x) == sorted(d) and sorted(x.keys()) == sorted(d)
    assert {k: strip(v) for k, v in x.items()} == d
    assert len(list(x.values())) == len(d)
    some = {"a", "zz", "nope"}
    assert x.keys() & some == d.keys() & some and x.keys() | some == d.keys() | some and x.keys() - some == d.keys() - some
    assert x.keys() == d.keys() and ("a" in x.keys()) == ("a" in d) and len(x.keys()) == len(d)
    assert dict(zip(x.keys(), x.values())) == dict(x.items()) and dict(x) == dict(x.items()) == {**x}
    for k in ["a", "b", "c", "zz", "B", "a/b", "nope"]:
      assert (k in x) == (k in d)
      if k in d:
        assert strip(x[k]) == d[k] and strip(x.get(k)) == d[k]
      else:
        raises(KeyError, lambda: x[k])
        assert x.get(k, 7) == 7
        raises(AttributeError, lambda: getattr(x, k))
  e = copy.deepcopy(d)
  if g.bool() or not e:
    e["new_key"] = 1
  else:
    e.pop(sorted(e)[0])
  h = hk.data_structures.to_immutable_dict(e)
  assert f != h and not (f == h) and f != e and f != None  # noqa: E711
  r = repr(f)
  assert r.startswith("FlatMapping(") and all(repr(k) in r for k in d)


@law("C08", quick=30, bound="params of a transformed function through jit/grad/vmap-style tree transforms")
def through_jax(g):
  d = {m: {n: jnp.asarray(g.array(g.shape(0, 2, 3))) for n in g.perm(NAMES)[:g.int(1, 3)]}
       for m in g.perm(MODS)[:g.int(1, 3)]}
  f = hk.data_structures.to_immutable_dict(d)
  out = jax.jit(lambda p: jax.tree_util.tree_map(lambda x: x * 2, p))(f)
  assert type(out) is ds.FlatMapping
  for m in d:
    for n in d[m]:
      assert np.array_equal(out[m][n], d[m][n] * 2)
  gr = jax.grad(lambda p: sum(jnp.sum(x * x) for x in jax.tree_util.tree_leaves(p)))(f)
  for m in d:
    for n in d[m]:
      assert np.allclose(gr[m][n], d[m][n] * 2)
