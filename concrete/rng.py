"""C04: random keys."""
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from concrete.laws import Skip, law, raises


def kb(k):
  return np.asarray(k).tobytes()


class Ref:
  """The reference sequence: one split of `num+1` per reservation, in order."""

  def __init__(self, key):
    self.key, self.sub = key, []

  def reserve(self, n):
    if n > 0:
      ks = jax.random.split(self.key, n + 1)
      self.key = ks[0]
      self.sub += list(ks[1:])

  def next(self):
    if not self.sub:
      self.reserve(1)
    return self.sub.pop(0)

  def take(self, n):
    self.reserve(max(n - len(self.sub), 0))
    return [self.next() for _ in range(n)]


def drive(g, seq, ref, seen, steps):
  for _ in range(steps):
    op = g.pick(["next", "next", "take", "reserve", "save", "full"])
    if op == "next":
      out = [next(seq)]
      want = [ref.next()]
    elif op == "take":
      n = g.int(0, 4)
      out = seq.take(n)
      assert isinstance(out, tuple) and len(out) == n
      want = ref.take(n)
    elif op == "reserve":
      n = g.int(-1, 4)
      seq.reserve(n)
      ref.reserve(n)
      continue
    elif op == "full":
      before = [kb(x) for x in seq.internal_state[1]]
      seq.reserve_up_to_full()
      after = [kb(x) for x in seq.internal_state[1]]
      assert len(after) == 1, "the block is full"
      if len(before) >= 1:
        assert after == before[:1]
        ref.sub = ref.sub[:1]
      else:
        ref.reserve(1 - len(ref.sub))
      continue
    else:
      key, subs = seq.internal_state
      assert isinstance(subs, tuple)
      s2 = hk.PRNGSequence((key, subs))
      s3 = hk.PRNGSequence(99)
      s3.replace_internal_state((key, subs))
      r2 = Ref(ref.key)
      r2.sub = list(ref.sub)
      for _ in range(3):
        w = kb(r2.next())
        assert kb(next(s2)) == w and kb(next(s3)) == w, "copied sequence differs"
      k2, sub2 = seq.internal_state
      assert kb(k2) == kb(key) and [kb(a) for a in sub2] == [kb(a) for a in subs], "copy shares state"
      continue
    for o, w in zip(out, want):
      assert kb(o) == kb(w), f"{op}: key differs from the reference sequence"
      assert kb(o) not in seen, f"{op}: key handed out twice"
      seen.add(kb(o))
  held = [kb(seq.internal_state[0])] + [kb(k) for k in seq.internal_state[1]]
  assert len(set(held)) == len(held) and not (set(held) & seen), "a held key was already handed out"


@law("C04", quick=80)
def sequence(g):
  """sequences of at most 12 operations"""
  seed = g.int(0, 1000)
  key = jax.random.PRNGKey(seed)
  seq = hk.PRNGSequence(seed if g.bool() else key)
  drive(g, seq, Ref(key), set(), g.int(1, 12))


@law("C04", quick=60)
def in_transform(g):
  """programs of at most 10 rng operations under transform, nested with_rng"""
  key = jax.random.PRNGKey(g.int(0, 1000))
  prog = [g.pick(["next", "keys", "reserve", "maybe", "with", "module", "jit"]) for _ in range(g.int(1, 10))]
  nums = g.ints(len(prog), 0, 3)
  g.note(prog)
  inside = g.pick(["init", "apply"])

  def f(ref):
    seen = set()
    def got(o, w):
      assert kb(o) == kb(w), "key differs from the reference sequence"
      assert kb(o) not in seen, "key handed out twice"
      seen.add(kb(o))
    for op, n in zip(prog, nums):
      if op == "next":
        got(hk.next_rng_key(), ref.next())
      elif op == "maybe":
        got(hk.maybe_next_rng_key(), ref.next())
      elif op == "keys":
        ks = hk.next_rng_keys(n)
        assert len(ks) == n
        for o, w in zip(ks, ref.take(n)):
          got(o, w)
      elif op == "reserve":
        hk.reserve_rng_keys(n)
        ref.reserve(n)
      elif op == "with":
        k2 = jax.random.PRNGKey(10_000 + n)
        r2 = Ref(k2)
        with hk.with_rng(k2):
          for _ in range(n):
            assert kb(hk.next_rng_key()) == kb(r2.next()), "with_rng draws from its own sequence"
        try:
          with hk.with_rng(k2):
            hk.next_rng_key()
            raise ZeroDivisionError
        except ZeroDivisionError:
          pass
      elif op == "module":
        class M(hk.Module):
          def __call__(self):
            return hk.next_rng_key()
        got(M()(), ref.next())
    return len(seen)
  t = hk.transform(lambda: f(Ref(key)))
  prm = {}
  t.init(key) if inside == "init" else t.apply(prm, key)
  t.init(key) if inside == "init" else t.apply(prm, key)


@law("C04", quick=10)
def no_key(g):
  """missing key"""
  for fn in (hk.next_rng_key, lambda: hk.next_rng_keys(2), lambda: hk.reserve_rng_keys(1)):
    raises(ValueError, hk.transform(fn).apply, {}, None)
    raises(ValueError, hk.transform(fn).init, None)
    raises(ValueError, fn)
  assert hk.transform(hk.maybe_next_rng_key).apply({}, None) is None
  for bad in (jnp.zeros((3,), jnp.uint32), jnp.zeros((2,), jnp.int32), jnp.zeros((1, 2), jnp.uint32), "a", 1.5):
    raises(ValueError, hk.PRNGSequence, bad)
  ok = jax.random.PRNGKey(0)
  raises(ValueError, hk.PRNGSequence, (ok, (jnp.zeros((3,), jnp.uint32),)))
  raises(ValueError, hk.PRNGSequence(0).replace_internal_state, (jnp.zeros((3,), jnp.uint32), ()))
  with_none = hk.transform(lambda: hk.with_rng(jax.random.PRNGKey(3)).__enter__() or hk.next_rng_key())


@law("C04", quick=20)
def optimize_rng(g):
  """optimize_rng_use does not change a function's results, and gives it unique keys"""
  n = g.int(1, 4)
  pre = g.int(0, 2)
  def f():
    return [hk.next_rng_key() for _ in range(n)]
  def outer():
    a = [hk.next_rng_key() for _ in range(pre)]
    b = hk.experimental.optimize_rng_use(f)()
    c = hk.next_rng_key()
    return a + b + [c]
  ks = hk.transform(outer).apply({}, jax.random.PRNGKey(g.int(0, 99)))
  assert len(ks) == pre + n + 1 and len({kb(k) for k in ks}) == len(ks), "keys are unique"
