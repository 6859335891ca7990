"""Laws of the layers: the real modules against direct numpy definitions (C14-C17)."""
import warnings

import jax
import jax.numpy as jnp
import numpy as np

import haiku as hk
from concrete.laws import Skip, close, law, raises, same_tree

KEY = jax.random.PRNGKey(3)


def tr(f):
  return hk.transform_with_state(f)


def scramble(g, tree, scale=1.0):
  """The same structure with arbitrary values."""
  def one(x):
    x = np.asarray(x)
    if x.dtype.kind in "iu":
      return x
    return jnp.asarray(np.asarray(g.r.randn(*x.shape) * scale).astype(x.dtype))
  return jax.tree_util.tree_map(one, tree)


def shapes(tree):
  return {m: {n: tuple(np.shape(v)) for n, v in d.items()} for m, d in tree.items()}


def drive(g, f, *args, params=None, state=None):
  """init, arbitrary parameter values, apply: (out, params, state before, state after)."""
  t = tr(f)
  p, s = t.init(KEY, *args)
  p2 = scramble(g, p) if params is None else params
  s2 = s if state is None else state
  out, s3 = t.apply(p2, s2, jax.random.PRNGKey(5), *args)
  return out, p2, s2, s3


# ---------------------------------------------------------------- C14


@law("C14", quick=60, bound="ranks 1-5, dimensions 0-4, preserve_dims 1-4, target shapes with and without -1")
def reshape_keeps_elements(g):
  shape = g.shape(1, 5, 4, 1)
  keep = g.int(1, 4)
  if g.bool(0.15):
    shape = tuple(0 if g.bool(0.3) else d for d in shape)
  x = np.arange(int(np.prod(shape)), dtype=np.float32).reshape(shape)
  rest = shape[keep:]
  n = int(np.prod(rest))
  if g.bool(0.3):
    target, want = None, (n,)
  else:
    fs = []
    m = n
    while m > 1 and len(fs) < 3:
      ds = [d for d in range(1, m + 1) if m % d == 0]
      d = g.pick(ds)
      fs.append(d)
      m //= d
    fs.insert(g.int(0, len(fs)), m)
    if 0 in fs:
      raise Skip()
    want = tuple(fs)
    target = list(want)
    if g.bool(0.6):
      target[g.int(0, len(target) - 1)] = -1
    if g.bool():
      target = tuple(target)
  def f(x):
    if target is None:
      return hk.Flatten(preserve_dims=keep)(x)
    return hk.Reshape(target, preserve_dims=keep)(x)
  out = hk.transform(f).apply({}, None, x)
  if len(shape) <= keep:
    assert out.shape == shape and np.array_equal(out, x)
  else:
    assert out.shape == shape[:keep] + want, (out.shape, shape[:keep] + want)
    assert np.array_equal(np.asarray(out).ravel(), x.ravel())


@law("C14", quick=6)
def reshape_rejects(g):
  f = hk.transform(lambda x: hk.Reshape((-1, -1))(x))
  raises(ValueError, f.init, None, np.ones([2, 4]))
  for k in (0, -1):
    raises(ValueError, hk.transform(lambda x: hk.Reshape((-1,), preserve_dims=k)(x)).init, None, np.ones([2, 4]))
    raises(ValueError, hk.transform(lambda x: hk.Flatten(preserve_dims=k)(x)).init, None, np.ones([2, 4]))


@law("C14", quick=60, bound="up to 3 positional and 2 keyword arguments, num_dims 1-3, nested inputs and outputs")
def batch_apply_merges_and_splits(g):
  nd = g.int(1, 3)
  lead = g.shape(nd, nd, 3)
  calls = []
  def arr(rank_ok=True):
    if rank_ok:
      return g.array(lead + g.shape(0, 2, 3))
    return g.array(g.shape(0, nd - 1, 3) if nd > 1 else ())
  args = [arr()] + [arr(g.bool(0.7)) for _ in range(g.int(0, 2))]
  g.r.shuffle(args)
  kw = {n: arr(g.bool(0.7)) for n in g.sub(["p", "q"])}
  if g.bool(0.4):
    args = [{"z": args[0], "a": arr()}] + args[1:]
  n = int(np.prod(lead))
  def f(*a, **k):
    calls.append((a, k))
    ls = [x for x in jax.tree_util.tree_leaves((a, k)) if np.ndim(x) >= 1 and np.shape(x)[0] == n]
    return {"first": jnp.sin(ls[0]), "all": (jnp.arange(n), jnp.stack([jnp.arange(n), jnp.arange(n)], 1))}
  out = hk.BatchApply(f, nd)(*args, **kw)
  assert len(calls) == 1
  a, k = calls[0]
  def merged(x):
    return np.reshape(x, (n,) + np.shape(x)[nd:]) if np.ndim(x) >= nd else x
  same_tree((list(a), dict(k)), jax.tree_util.tree_map(lambda x: np.asarray(merged(x)), (list(args), kw)), "arguments")
  assert out["all"][0].shape == lead and np.array_equal(np.ravel(out["all"][0]), np.arange(n))
  assert out["all"][1].shape == lead + (2,)
  assert out["first"].shape[:nd] == lead
  if g.bool(0.2):
    raises(ValueError, hk.BatchApply(f, nd), *[np.float32(1.0)] if nd > 1 else [np.float32(1)])


@law("C14", quick=25)
def expand_apply_axis(g):
  ax = g.pick([0, -1])
  x, y = g.array(g.shape(1, 3, 3)), g.array(g.shape(1, 3, 3))
  seen = []
  def f(a, b=None):
    seen.append((a.shape, b.shape))
    return {"a": a * 2, "b": b + 1}
  out = hk.expand_apply(f, axis=ax)(x, b=y)
  e = lambda s: (1,) + s if ax == 0 else s + (1,)
  assert seen == [(e(x.shape), e(y.shape))], seen
  close(out["a"], x * 2)
  close(out["b"], y + 1)
  raises(ValueError, hk.expand_apply, f, g.pick([1, -2, 2]))


@law("C14", quick=30)
def sequential_in_order(g):
  n = g.int(0, 5)
  log = []
  def mk(i):
    def layer(x, *a, **k):
      log.append((i, a, k))
      return x * (i + 2) + i
    return layer
  layers = [mk(i) for i in range(n)]
  src = g.pick([list, tuple, iter])(layers)
  a = (1, "z") if g.bool() else ()
  k = {"flag": True} if g.bool() else {}
  x = g.array((3,))
  out = hk.transform(lambda x: hk.Sequential(src)(x, *a, **k)).apply({}, None, x)
  want = x
  for i in range(n):
    want = want * (i + 2) + i
  close(out, want)
  assert log == [(i, a if i == 0 else (), k if i == 0 else {}) for i in range(n)], log


@law("C14", quick=15)
def to_module_runs_the_function(g):
  name = g.pick([None, "custom", "other_1"])
  calls = []
  def some_fn(x, *a, y=1):
    """Doc."""
    calls.append((a, y))
    w = hk.get_parameter("w", [], init=jnp.ones)
    s = hk.get_state("s", [], init=jnp.zeros)
    hk.set_state("s", s + 1)
    return x * w + y
  cls = hk.to_module(some_fn)
  assert issubclass(cls, hk.Module) and cls.__doc__ == "Doc."
  def f(x):
    m = cls() if name is None else cls(name=name)
    a = m(x, 5, y=2)
    b = m(x, y=3)
    c = cls()(x)
    return a, b, c
  (a, b, c), p, s0, s1 = drive(g, f, g.array((2,)))
  nm = name or "some_fn"
  other = "some_fn_1" if name is None else "some_fn"
  assert set(p) == {nm, other} == set(s1), (set(p), set(s1))
  assert int(s1[nm]["s"]) == int(s0[nm]["s"]) + 2 and int(s1[other]["s"]) == int(s0[other]["s"]) + 1
  assert calls[-3:] == [((5,), 2), ((), 3), ((), 1)]
  close(a - 2, b - 3)
  raises(TypeError, hk.transform(lambda x: cls(x)(x)).init, None, jnp.ones([1]))


# ---------------------------------------------------------------- C15


@law("C15", quick=40, bound="input ranks 1-4, sizes 1-5, with and without bias, float32 and bfloat16")
def linear_is_affine(g):
  shape = g.shape(1, 4, 5)
  out_size = g.int(1, 5)
  bias = g.bool(0.7)
  dt = g.pick([np.float32, np.float32, jnp.bfloat16])
  x = jnp.asarray(g.array(shape)).astype(dt)
  seen = {}
  def wi(s, d):
    seen["w"] = (tuple(s), d)
    return jnp.ones(s, d)
  def bi(s, d):
    seen["b"] = (tuple(s), d)
    return jnp.zeros(s, d)
  custom = g.bool()
  def f(x):
    m = hk.Linear(out_size, with_bias=bias, w_init=wi if custom else None, b_init=bi if custom and bias else None)
    y = m(x)
    assert m.input_size == shape[-1] and m.output_size == out_size
    return y
  t = hk.transform(f)
  p0 = t.init(KEY, x)
  want = {"w": (shape[-1], out_size)}
  if bias:
    want["b"] = (out_size,)
  assert shapes(p0) == {"linear": want}, shapes(p0)
  assert all(v.dtype == dt for v in p0["linear"].values())
  if custom:
    assert seen["w"] == ((shape[-1], out_size), dt)
  else:
    w0 = np.asarray(p0["linear"]["w"], np.float64)
    assert np.all(np.abs(w0) <= 2.05 / np.sqrt(shape[-1]))
    if bias:
      assert not np.any(np.asarray(p0["linear"]["b"], np.float32))
  p = scramble(g, p0)
  out = t.apply(p, None, x)
  assert out.shape == shape[:-1] + (out_size,) and out.dtype == dt
  ref = np.tensordot(np.asarray(x, np.float64), np.asarray(p["linear"]["w"], np.float64), 1)
  if bias:
    ref = ref + np.asarray(p["linear"]["b"], np.float64)
  close(out, ref, "linear", 1e-4 if dt == np.float32 else 8e-2)


@law("C15", quick=3)
def linear_default_scale(g):
  """The default weights have standard deviation 1/sqrt(fan_in) before truncation at two of them."""
  n = g.pick([64, 256])
  p = hk.transform(lambda x: hk.Linear(300)(x)).init(jax.random.PRNGKey(g.int(0, 99)), jnp.ones([1, n]))
  w = np.asarray(p["linear"]["w"]) * np.sqrt(n)
  assert abs(w.std() - 0.8796) < 0.02 and abs(w.mean()) < 0.02 and np.abs(w).max() <= 2.001
  raises(ValueError, hk.transform(lambda x: hk.Linear(3)(x)).init, KEY, jnp.ones([]))


@law("C15", quick=50, bound="ranks 2-5, all subsets of the non-batch dimensions, negative indices")
def bias_shape_and_sum(g):
  shape = g.shape(2, 5, 4)
  r = len(shape)
  dims = g.pick(["all", "none", "some"])
  if dims == "some":
    sel = [d for d in range(1, r) if g.bool()]
    if not sel:
      raise Skip()
    ds = [d - r if g.bool(0.4) else d for d in sel]
    g.r.shuffle(ds)
    full = [shape[d] if d in sel else 1 for d in range(r)]
    while full and full[0] == 1:
      full.pop(0)
    want = tuple(full)
  else:
    ds = None if dims == "all" else []
    want = shape[1:] if dims == "all" else ()
  mult = g.pick([None, -1, 0.5, 0])
  x = g.array(shape)
  osz = g.pick([None, tuple(shape[1:]), list(shape[1:])])
  def f(x):
    m = hk.Bias(output_size=osz, bias_dims=ds)
    y = m(x, multiplier=mult)
    assert tuple(m.bias_shape) == want, (m.bias_shape, want)
    return y
  out, p, _, _ = drive(g, f, x)
  b = np.asarray(p["bias"]["b"])
  assert b.shape == want
  close(out, x + b * (1 if mult is None else mult), "bias")
  raises(ValueError, hk.transform(lambda x: hk.Bias(bias_dims=[g.pick([0, -r, r])])(x)).init, KEY, x)
  raises(ValueError, hk.transform(lambda x: hk.Bias(output_size=shape[1:] + (2,))(x)).init, KEY, x)
  raises(ValueError, hk.transform(lambda x: hk.Bias()(x)).init, KEY, np.ones([3], np.float32))


@law("C15", quick=30, bound="0-4 layers")
def mlp_alternates(g):
  sizes = [g.int(1, 4) for _ in range(g.int(1, 4))]
  bias, final = g.bool(0.7), g.bool()
  act = g.pick([None, jnp.tanh])
  x = g.array((g.int(1, 3), g.int(1, 4)))
  def f(x):
    kw = {} if act is None else {"activation": act}
    m = hk.nets.MLP(iter(sizes) if g.r.rand() < 0.3 else sizes, with_bias=bias, activate_final=final, **kw)
    y = m(x)
    r = m.reverse()
    z = r(y)
    r2 = m.reverse(activate_final=not final, name="back")
    return y, z, r2(y)
  (y, z, z2), p, _, _ = drive(g, f, x)
  a = (lambda v: np.maximum(v, 0)) if act is None else np.tanh
  def ref(x, pre, n, fin):
    for i in range(n):
      q = p[f"{pre}/~/linear_{i}"]
      x = x @ np.asarray(q["w"], np.float64) + (np.asarray(q["b"]) if bias else 0)
      assert ("b" in q) == bias
      if i < n - 1 or fin:
        x = a(x)
    return x
  want = ref(x, "mlp", len(sizes), final)
  close(y, want, "mlp", 1e-3)
  assert z.shape == x.shape and z2.shape == x.shape
  close(z, ref(want, "mlp/~reverse/mlp_reversed", len(sizes), final), "reversed", 1e-3)
  close(z2, ref(want, "mlp/~reverse/back", len(sizes), not final), "reversed, other activation", 1e-3)


@law("C15", quick=25)
def mlp_dropout(g):
  """Dropout only before activations, with keys of its own, one per layer."""
  sizes = [g.int(2, 5) for _ in range(g.int(1, 4))]
  rate = g.pick([0.0, 0.3, 0.7])
  final = g.bool()
  x = g.array((4, 6))
  seen = []
  k = jax.random.PRNGKey(g.int(0, 1000))
  def act(v):
    seen.append(np.asarray(v))
    return v
  f = hk.without_apply_rng(hk.transform(lambda x, k: hk.nets.MLP(sizes, activate_final=final, activation=act)(x, rate, k)))
  p = scramble(g, f.init(KEY, x, k))
  seen.clear()
  out = f.apply(p, x, k)
  keys = hk.PRNGSequence(k)
  v = np.asarray(x, np.float64)
  n = 0
  for i in range(len(sizes)):
    q = p[f"mlp/~/linear_{i}"]
    v = v @ np.asarray(q["w"], np.float64) + np.asarray(q["b"], np.float64)
    if i < len(sizes) - 1 or final:
      if rate:
        v = np.asarray(hk.dropout(next(keys), rate, jnp.asarray(v.astype(np.float32))), np.float64)
      close(seen[n], v, "activated value", 1e-3)
      n += 1
  assert n == len(seen)
  close(out, v, "mlp with dropout", 1e-3)
  m = lambda *a: hk.transform(lambda x: hk.nets.MLP(sizes)(x, *a)).init(KEY, x)
  raises(ValueError, m, 0.5, None)
  raises(ValueError, m, None, k)


@law("C15", quick=25)
def dropout_keeps_or_scales(g):
  rate = g.pick([0.0, 0.1, 0.5, 0.9])
  x = g.array(g.shape(0, 3, 6)) + 3
  k = jax.random.PRNGKey(g.int(0, 1000))
  y = np.asarray(hk.dropout(k, rate, x))
  if rate == 0:
    assert np.array_equal(y, x)
  else:
    keep = np.isclose(y, x / (1 - rate), rtol=1e-4)
    assert y.shape == x.shape and np.all(keep | (y == 0))
    big = np.asarray(hk.dropout(k, rate, jnp.ones([2000])))
    assert abs((big != 0).mean() - (1 - rate)) < 0.06
    assert not np.array_equal(big != 0, np.asarray(hk.dropout(jax.random.split(k)[0], rate, jnp.ones([2000]))) != 0)
  raises(ValueError, hk.dropout, k, g.pick([-0.1, 1.0, 1.5]), x)


@law("C15", quick=40)
def embed_rows(g):
  v, d = g.int(1, 6), g.int(1, 5)
  style = g.pick(["ARRAY_INDEX", "ONE_HOT", "one_hot", "array_index"])
  call_style = g.pick([None, "ARRAY_INDEX", "ONE_HOT"])
  ids = g.r.randint(0, v, size=g.shape(0, 3, 4)).astype(g.pick([np.int32, np.uint8]))
  given = g.bool(0.4)
  m0 = g.array((v, d))
  def f(ids):
    if given:
      kw = dict(embedding_matrix=m0)
      if g.r.rand() < 0.5:
        kw.update(vocab_size=v, embed_dim=d)
    else:
      kw = dict(vocab_size=v, embed_dim=d)
    e = hk.Embed(lookup_style=getattr(hk.EmbedLookupStyle, style) if style.isupper() else style, **kw)
    assert e.vocab_size == v and e.embed_dim == d
    return e(ids) if call_style is None else e(ids, lookup_style=call_style)
  t = hk.transform(f)
  p = t.init(KEY, ids)
  assert shapes(p) == {"embed": {"embeddings": (v, d)}}
  if given:
    close(p["embed"]["embeddings"], m0, "initial matrix")
  p = scramble(g, p)
  out = t.apply(p, None, ids)
  close(out, np.asarray(p["embed"]["embeddings"])[ids.astype(np.int64)], "rows")
  raises(ValueError, t.apply, p, None, ids.astype(np.float32))
  raises(ValueError, hk.transform(lambda: hk.Embed(vocab_size=3)).init, KEY)
  raises(ValueError, hk.transform(lambda: hk.Embed(embedding_matrix=m0, vocab_size=v + 1)).init, KEY)
  raises(ValueError, hk.transform(lambda: hk.Embed(embedding_matrix=m0, embed_dim=d + 1)).init, KEY)


@law("C15", quick=20)
def attention_matches_definition(g):
  b, t, s, h, k = g.int(1, 2), g.int(1, 3), g.int(1, 4), g.int(1, 3), g.int(1, 4)
  vs = g.pick([None, g.int(1, 4)])
  ms = g.pick([None, g.int(1, 5)])
  dq, dk, dv = g.int(1, 4), g.int(1, 4), g.int(1, 4)
  q, key, val = g.array((b, t, dq)), g.array((b, s, dk)), g.array((b, s, dv))
  mask = None
  if g.bool():
    mask = (g.r.rand(b, g.pick([1, h]), t, s) < 0.6).astype(np.float32)
    mask[..., 0] = 1
  def f(q, key, val):
    return hk.MultiHeadAttention(h, k, 1.0, value_size=vs, model_size=ms)(q, key, val, mask)
  out, p, _, _ = drive(g, f, q, key, val)
  V = vs or k
  M = ms or h * k
  n = "multi_head_attention/"
  assert shapes(p) == {n + "query": {"w": (dq, h * k), "b": (h * k,)}, n + "key": {"w": (dk, h * k), "b": (h * k,)},
                       n + "value": {"w": (dv, h * V), "b": (h * V,)}, n + "linear": {"w": (h * V, M), "b": (M,)}}, shapes(p)
  pr = lambda x, nm, sz: (x.astype(np.float64) @ np.asarray(p[n + nm]["w"], np.float64) + np.asarray(p[n + nm]["b"])).reshape(
      x.shape[:2] + (h, sz))
  Q, K, W = pr(q, "query", k), pr(key, "key", k), pr(val, "value", V)
  lg = np.einsum("bthd,bshd->bhts", Q, K) / np.sqrt(k)
  if mask is not None:
    lg = np.where(mask > 0, lg, -1e30)
  e = np.exp(lg - lg.max(-1, keepdims=True))
  a = e / e.sum(-1, keepdims=True)
  o = np.einsum("bhts,bshd->bthd", a, W).reshape(b, t, -1)
  close(out, o @ np.asarray(p[n + "linear"]["w"], np.float64) + np.asarray(p[n + "linear"]["b"]), "attention", 2e-3)


@law("C15", quick=15)
def one_hot_and_multinomial(g):
  n = g.int(1, 5)
  ids = g.r.randint(0, n, size=g.shape(0, 3, 4))
  o = np.asarray(hk.one_hot(ids, n))
  assert o.shape == ids.shape + (n,) and np.array_equal(o, np.eye(n, dtype=np.float32)[ids])
  b, c, m = g.int(1, 3), g.int(1, 4), g.int(1, 3)
  lg = g.array((b, c) if g.bool() else (c,), 2.0)
  forced = g.int(0, c - 1)
  lg[..., forced] += 200
  s = np.asarray(hk.multinomial(jax.random.PRNGKey(g.int(0, 99)), lg, m))
  assert s.shape == lg.shape[:-1] + (m,) and np.all(s == forced), s


# ---------------------------------------------------------------- C16


@law("C16", quick=40, bound="1-6 calls, with and without debiasing, warmup 0-3, update_stats on and off")
def ema_history(g):
  decay = g.pick([0.0, 0.5, 0.9, 0.99])
  warm = g.pick([0, 0, 1, 3])
  debias = g.bool() if not warm else False
  shape = g.shape(0, 2, 3)
  dt = g.pick([np.float32, np.float32, np.float16])
  f = tr(lambda v, u: hk.ExponentialMovingAverage(decay, zero_debias=debias, warmup_length=warm)(v, update_stats=u))
  vals = [g.array(shape).astype(dt) for _ in range(g.int(1, 6))]
  _, s = f.init(None, vals[0], True)
  n = "exponential_moving_average"
  assert set(s[n]) == {"counter", "hidden", "average"} and int(s[n]["counter"]) == -warm
  h, c = np.zeros(shape), -warm
  avg = None
  tol = 1e-4 if dt == np.float32 else 2e-2
  for v in vals:
    u = g.bool(0.75)
    before = s
    out, s = f.apply({}, s, None, v, u)
    d = 0.0 if (warm and c + 1 <= 0) else decay
    nh = h * d + v.astype(np.float64) * (1 - d)
    na = nh / (1 - decay ** (c + 1)) if debias else nh
    close(out, na, "value", tol)
    if u:
      h, c, avg = nh, c + 1, na
      close(s[n]["hidden"], h, "hidden", tol)
      close(s[n]["average"], avg, "average", tol)
      assert int(s[n]["counter"]) == c
      assert s[n]["hidden"].dtype == dt
    else:
      same_tree(s, before, "unchanged without update_stats")
  if avg is not None:
    a, s2 = tr(lambda: hk.ExponentialMovingAverage(decay, zero_debias=debias, warmup_length=warm).average).apply({}, s, None)
    close(a, avg, "average property", tol)
    same_tree(s2, s)
  raises(ValueError, hk.transform(lambda: hk.ExponentialMovingAverage(0.5, warmup_length=-1)).init, None)
  raises(ValueError, hk.transform(lambda: hk.ExponentialMovingAverage(0.5, True, 2)).init, None)


def channel_axes(shape, fmt):
  ch = 1 if fmt in ("channels_first", "NC...") else len(shape) - 1
  return ch, tuple(i for i in range(len(shape)) if i != ch)


@law("C16", quick=50, bound="ranks 2-5, channels first/last, explicit axes, 1-4 calls of mixed modes")
def batch_norm_history(g):
  shape = g.shape(2, 5, 4)
  if int(np.prod(shape)) > 300:
    raise Skip()
  fmt = g.pick(["channels_last", "channels_first", "N...C", "NC..."])
  ch, axes = channel_axes(shape, fmt)
  explicit = g.bool(0.25)
  if explicit:
    axes = tuple(i for i in range(len(shape)) if g.bool()) or (0,)
  sc, of = g.bool(), g.bool()
  decay, eps = g.pick([0.9, 0.5]), g.pick([1e-5, 1e-1])
  pass_scale, pass_off = (not sc) and g.bool(), (not of) and g.bool()
  escale, eoff = g.array((shape[ch],) + (1,) * (len(shape) - 1 - ch)), g.array(())
  def f(x, mode):
    kw = {"axis": list(axes)} if explicit else {}
    bn = hk.BatchNorm(sc, of, decay, eps=eps, data_format=fmt, **kw)
    return bn(x, is_training=mode in ("train", "both"), test_local_stats=mode in ("local", "both"),
              scale=escale if pass_scale else None, offset=eoff if pass_off else None)
  t = tr(f)
  x = g.array(shape)
  p, s = t.init(KEY, x, "train")
  wsh = tuple(1 if i in axes else d for i, d in enumerate(shape))
  want = {}
  if sc:
    want["scale"] = wsh
  if of:
    want["offset"] = wsh
  assert shapes(p) == ({"batch_norm": want} if want else {}), shapes(p)
  for m in p.values():
    for k, v in m.items():
      assert np.all(np.asarray(v) == (1 if k == "scale" else 0))
  p = scramble(g, p)
  scale = np.asarray(p["batch_norm"]["scale"]) if sc else escale if pass_scale else 1.0
  off = np.asarray(p["batch_norm"]["offset"]) if of else eoff if pass_off else 0.0
  hid = {"mean": np.zeros(wsh), "var": np.zeros(wsh)}
  avg = {"mean": None, "var": None}
  n = 0
  s = scramble_ema(s)
  for _ in range(g.int(1, 4)):
    mode = g.pick(["train", "both", "eval", "local"])
    if mode == "eval" and n == 0:
      mode = "train"
    x = g.array(shape) * 2 + 1
    before = s
    y, s = t.apply(p, s, None, x, mode)
    x64 = x.astype(np.float64)
    bm, bv = x64.mean(axes, keepdims=True), x64.var(axes, keepdims=True)
    if mode in ("train", "both"):
      n += 1
      for k, v in (("mean", bm), ("var", bv)):
        hid[k] = hid[k] * decay + v * (1 - decay)
        avg[k] = hid[k] / (1 - decay ** n)
        close(s[f"batch_norm/~/{k}_ema"]["average"], avg[k], k + " statistics", 1e-3)
        close(s[f"batch_norm/~/{k}_ema"]["hidden"], hid[k], k + " hidden", 1e-3)
    else:
      same_tree(s, before, "statistics unchanged in " + mode)
    m, v = (avg["mean"], avg["var"]) if mode == "eval" else (bm, bv)
    close(y, (x64 - m) / np.sqrt(v + eps) * scale + off, "normalised in " + mode, 5e-3)


def scramble_ema(s):
  """Statistics as they are before the first update."""
  return hk.data_structures.to_immutable_dict({m: {k: jnp.zeros_like(v) for k, v in d.items()} for m, d in s.items()})


@law("C16", quick=8)
def batch_norm_rejects(g):
  x = g.array((2, 3))
  bad = lambda fn: raises(ValueError, tr(fn).init, KEY, x)
  bad(lambda x: hk.BatchNorm(False, True, 0.9, scale_init=jnp.ones)(x, True))
  bad(lambda x: hk.BatchNorm(True, False, 0.9, offset_init=jnp.ones)(x, True))
  bad(lambda x: hk.BatchNorm(True, True, 0.9)(x, True, scale=jnp.ones([3])))
  bad(lambda x: hk.BatchNorm(True, True, 0.9)(x, True, offset=jnp.ones([3])))
  bad(lambda x: hk.BatchNorm(True, True, 0.9, cross_replica_axis_index_groups=[[0]])(x, True))
  bad(lambda x: hk.BatchNorm(True, True, 0.9, data_format="WRONG")(x, True))


@law("C16", quick=6)
def batch_norm_cross_replica(g):
  """Statistics over all replicas of the named axis."""
  r, shape = g.int(2, 3), (g.int(1, 3), 4)
  x = g.array((r,) + shape)
  t = tr(lambda x: hk.BatchNorm(False, False, 0.9, cross_replica_axis="i")(x, True))
  plain = tr(lambda x: hk.BatchNorm(False, False, 0.9)(x, True))
  _, s = plain.init(None, x[0])
  y, s2 = jax.vmap(lambda x: t.apply({}, s, None, x), axis_name="i")(x)
  m, v = x.reshape(-1, 4).mean(0), x.reshape(-1, 4).var(0)
  close(y, (x - m) / np.sqrt(v + 1e-5), "normalised across replicas", 1e-2)
  for i in range(1, r):
    close(s2["batch_norm/~/mean_ema"]["hidden"][i], s2["batch_norm/~/mean_ema"]["hidden"][0])


# ---------------------------------------------------------------- C17


@law("C17", quick=50, bound="ranks 1-5, axes given as int, tuple or slice, external scale and offset")
def layer_norm_axes(g):
  shape = g.shape(1, 5, 4)
  r = len(shape)
  kind = g.pick(["int", "seq", "slice"])
  if kind == "int":
    ax = g.int(-r, r - 1)
    axes = (ax % r,)
  elif kind == "seq":
    axes = tuple(i for i in range(r) if g.bool()) or (r - 1,)
    ax = g.pick([list, tuple])([a - r if g.bool(0.3) else a for a in axes])
  else:
    ax = slice(g.int(0, r - 1), g.pick([None, r, -1]), g.pick([None, 1, 2]))
    axes = tuple(range(r)[ax])
    if not axes:
      raise Skip()
  sc, of = g.bool(), g.bool()
  ext_s, ext_o = (not sc) and g.bool(), (not of) and g.bool()
  eps = g.pick([1e-5, 1e-1])
  x = g.array(shape) * 2 + 1
  es, eo = g.array(shape if g.bool() else shape[-1:]), g.array(())
  def f(x):
    return hk.LayerNorm(ax, sc, of, eps=eps)(x, scale=es if ext_s else None, offset=eo if ext_o else None)
  t = hk.transform(f)
  p = t.init(KEY, x)
  want = {k: shape[-1:] for k, on in (("scale", sc), ("offset", of)) if on}
  assert shapes(p) == ({"layer_norm": want} if want else {}), shapes(p)
  for m in p.values():
    for k, v in m.items():
      assert np.all(np.asarray(v) == (1 if k == "scale" else 0))
  p = scramble(g, p)
  y = t.apply(p, None, x)
  s = np.asarray(p["layer_norm"]["scale"]) if sc else es if ext_s else 1.0
  o = np.asarray(p["layer_norm"]["offset"]) if of else eo if ext_o else 0.0
  x64 = x.astype(np.float64)
  close(y, (x64 - x64.mean(axes, keepdims=True)) / np.sqrt(x64.var(axes, keepdims=True) + eps) * s + o, "layer norm", 5e-3)
  raises(ValueError, hk.transform(lambda x: hk.LayerNorm(-1, True, True)(x, scale=es)).init, KEY, x)
  raises(ValueError, hk.transform(lambda x: hk.LayerNorm(-1, True, True)(x, offset=eo)).init, KEY, x)
  raises(ValueError, hk.transform(lambda x: hk.LayerNorm(-1, False, True, scale_init=jnp.ones)(x)).init, KEY, x)
  raises(ValueError, hk.transform(lambda x: hk.LayerNorm(g.pick(["a", 1.5, [1, "b"]]), True, True)(x)).init, KEY, x)


@law("C17", quick=30, bound="ranks 3-5, channels first and last")
def instance_norm_spatial(g):
  shape = g.shape(3, 5, 4)
  fmt = g.pick(["channels_last", "channels_first", "N...C", "NC..."])
  ch, _ = channel_axes(shape, fmt)
  axes = tuple(i for i in range(1, len(shape)) if i != ch)
  sc, of = g.bool(0.7), g.bool(0.7)
  eps = g.pick([1e-5, 1e-1])
  x = g.array(shape) * 2 + 1
  t = hk.transform(lambda x: hk.InstanceNorm(sc, of, eps=eps, data_format=fmt)(x))
  p = scramble(g, t.init(KEY, x))
  y = t.apply(p, None, x)
  per = (shape[ch],) + (1,) * (len(shape) - 1 - ch)
  q = p.get("instance_norm", {})
  s = np.reshape(q["scale"], per) if sc else 1.0
  o = np.reshape(q["offset"], per) if of else 0.0
  x64 = x.astype(np.float64)
  close(y, (x64 - x64.mean(axes, keepdims=True)) / np.sqrt(x64.var(axes, keepdims=True) + eps) * s + o, "instance norm", 5e-3)


@law("C17", quick=50, bound="ranks 2-5, 1-3 groups, default and explicit axes, several calls of other sizes")
def group_norm_groups(g):
  groups, per = g.int(1, 3), g.int(1, 3)
  c = groups * per
  sp = g.shape(0, 3, 3)
  fmt = g.pick(["channels_last", "channels_first", "N...C", "NC..."])
  first = fmt in ("channels_first", "NC...")
  mk = lambda n, sp: g.array((n, c) + sp if first else (n,) + sp + (c,)) * 2 + 1
  r = len(sp) + 2
  sc, of = g.bool(), g.bool()
  ext_s, ext_o = (not sc) and g.bool(), (not of) and g.bool()
  es, eo = g.array((c,) + (1,) * len(sp)) if first else g.array((c,)), g.array(())
  eps = g.pick([1e-5, 1e-1])
  explicit = g.bool(0.4)
  ch = 1 if first else r - 1
  if explicit:
    axes = tuple(sorted(set([ch] + [i for i in range(1, r) if g.bool(0.5)]))) if g.bool(0.8) else (ch,)
    ax = tuple(a - r if g.bool(0.4) else a for a in axes)
  else:
    axes, ax = tuple(range(1, r)), slice(1, None)
  xs = [mk(g.int(1, 3), sp)]
  for _ in range(g.int(0, 2)):
    xs.append(mk(g.int(1, 3), tuple(g.int(1, 3) for _ in sp)))
  def f(*xs):
    m = hk.GroupNorm(groups, axis=ax, create_scale=sc, create_offset=of, eps=eps, data_format=fmt)
    return [m(x, scale=es if ext_s else None, offset=eo if ext_o else None) for x in xs]
  t = hk.transform(f)
  p = t.init(KEY, *xs)
  per_ch = (c,) + (1,) * (r - 2) if first else (c,)
  want = {k: per_ch for k, on in (("scale", sc), ("offset", of)) if on}
  assert shapes(p) == ({"group_norm": want} if want else {}), shapes(p)
  p = scramble(g, p)
  s = np.asarray(p["group_norm"]["scale"]) if sc else es if ext_s else 1.0
  o = np.asarray(p["group_norm"]["offset"]) if of else eo if ext_o else 0.0
  for x, y in zip(xs, t.apply(p, None, *xs)):
    x64 = x.astype(np.float64)
    gx = x64.reshape((x.shape[0], groups, per) + x.shape[2:]) if first else x64.reshape(x.shape[:-1] + (groups, per))
    if first:
      red = tuple(a if a == 0 else a + 1 for a in axes)
    else:
      red = tuple(a if a != r - 1 else a + 1 for a in axes)
    n = (gx - gx.mean(red, keepdims=True)) / np.sqrt(gx.var(red, keepdims=True) + eps)
    close(y, n.reshape(x.shape) * s + o, "group norm", 5e-3)
  raises(ValueError, hk.transform(lambda x: hk.GroupNorm(c + 1, data_format=fmt)(x)).init, KEY, xs[0])
  raises(ValueError, hk.transform(lambda x: hk.GroupNorm(groups, create_scale=True, data_format=fmt)(x, scale=es)).init, KEY, xs[0])
  raises(ValueError, hk.transform(lambda x: hk.GroupNorm(groups, create_offset=True, data_format=fmt)(x, offset=eo)).init, KEY, xs[0])
