"""Laws of recurrent cores, pooling, initializers and parameter transforms (C18-C22)."""
import jax
import jax.numpy as jnp
import numpy as np

import haiku as hk
from concrete.laws import Skip, close, law, raises, same_tree
from concrete.nn import KEY, drive, scramble, shapes, tr

sigmoid = lambda x: 1 / (1 + np.exp(-np.asarray(x, np.float64)))
f64 = lambda x: np.asarray(x, np.float64)


def near(a, b, tol=1e-4):
  """close over trees."""
  ta, tb = jax.tree_util.tree_structure(a), jax.tree_util.tree_structure(b)
  assert ta == tb, f"{ta} != {tb}"
  for x, y in zip(jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)):
    close(x, y, tol=tol)


# ---------------------------------------------------------------- C18


def lstm_step(w, b, x, h, c):
  g = np.concatenate([x, h], -1) @ w + b
  n = h.shape[-1]
  i, j, f, o = (g[..., k * n:(k + 1) * n] for k in range(4))
  c = sigmoid(f + 1) * c + sigmoid(i) * np.tanh(j)
  return sigmoid(o) * np.tanh(c), c


@law("C18", quick=40, bound="batched and unbatched, sizes 1-4, up to 4 steps")
def gates(g):
  kind = g.pick(["rnn", "rnn1", "lstm", "gru"])
  n, h, T = g.int(1, 4), g.int(1, 4), g.int(1, 4)
  b = (g.int(1, 3),) if g.bool() else ()
  xs = g.array((T,) + b + (n,))
  mk = {"rnn": lambda: hk.VanillaRNN(h), "rnn1": lambda: hk.VanillaRNN(h, double_bias=False), "lstm": lambda: hk.LSTM(h),
        "gru": lambda: hk.GRU(h)}[kind]
  def f(xs):
    core = mk()
    s = core.initial_state(b[0] if b else None)
    outs = []
    for t in range(T):
      o, s = core(xs[t], s)
      outs.append(o)
    return jnp.stack(outs), s
  (out, last), p, _, _ = drive(g, f, xs)
  hs = np.zeros(b + (h,))
  cs = np.zeros(b + (h,))
  want = []
  p = {k: {q: f64(v) for q, v in d.items()} for k, d in p.items()}
  for t in range(T):
    x = f64(xs[t])
    if kind.startswith("rnn"):
      lin = sorted(p)
      assert len(lin) == 2, lin
      a = x @ p[lin[0]]["w"] + p[lin[0]]["b"] + hs @ p[lin[1]]["w"]
      if kind == "rnn":
        a = a + p[lin[1]]["b"]
      else:
        assert "b" not in p[lin[1]]
      hs = np.maximum(a, 0)
    elif kind == "lstm":
      k = sorted(p)[0]
      hs, cs = lstm_step(p[k]["w"], p[k]["b"], x, hs, cs)
    else:
      q = p["gru"]
      w, u, bb = q["w_i"], q["w_h"], q["b"]
      z = sigmoid(x @ w[:, :h] + hs @ u[:, :h] + bb[:h])
      r = sigmoid(x @ w[:, h:2 * h] + hs @ u[:, h:2 * h] + bb[h:2 * h])
      a = np.tanh(x @ w[:, 2 * h:] + (r * hs) @ u[:, 2 * h:] + bb[2 * h:])
      hs = (1 - z) * hs + z * a
    want.append(hs)
  near(out, np.stack(want), tol=1e-3)
  near(last, hk.LSTMState(hs, cs) if kind == "lstm" else hs, tol=1e-3)


@law("C18", quick=40, bound="1-5 steps, batch and time major, inside and outside a transform, nested inputs")
def unrolls_agree(g):
  T, B, n, h = g.int(1, 5), g.int(1, 3), g.int(1, 3), g.int(1, 3)
  major = g.bool()
  kind = g.pick(["lstm", "gru", "rnn", "pair", "conv"])
  nested = kind == "pair"
  shape = (T, B) if major else (B, T)
  xs = g.array(shape + ((2, 2, n) if kind == "conv" else (n,)))
  if nested:
    xs = {"b": xs, "a": g.array(shape + (n,))}
  class Pair(hk.RNNCore):
    def __call__(self, x, s):
      w = hk.get_parameter("w", [n], init=jnp.ones)
      s2 = s * 0.5 + x["b"] * w - x["a"]
      return (s2 * 2, {"k": s + 1}), s2
    def initial_state(self, m):
      return jnp.zeros((n,) if m is None else (m, n))
  mk = {"lstm": lambda: hk.LSTM(h), "gru": lambda: hk.GRU(h), "rnn": lambda: hk.VanillaRNN(h), "pair": Pair,
        "conv": lambda: hk.Conv2DLSTM((2, 2), h, 3)}[kind]
  def step(x, s):
    return mk()(x, s)
  ft = hk.without_apply_rng(hk.transform(step))
  x0 = jax.tree_util.tree_map(lambda v: v[0] if major else v[:, 0], xs)
  s0 = hk.transform(lambda: mk().initial_state(B)).apply({}, None)
  s0 = scramble(g, s0)
  p = scramble(g, ft.init(KEY, x0, s0), 0.5)
  s, outs = s0, []
  for t in range(T):
    o, s = ft.apply(p, jax.tree_util.tree_map(lambda v: v[t] if major else v[:, t], xs), s)
    outs.append(o)
  want = jax.tree_util.tree_map(lambda *a: np.stack(a, 0 if major else 1), *outs)
  where = g.pick(["outside", "inside"])
  for fn in (hk.static_unroll, hk.dynamic_unroll):
    if where == "outside":
      got, last = fn(lambda x, st: ft.apply(p, x, st), xs, s0, time_major=major)
    else:
      def run(xs):
        def core(x, st):
          return ft.apply(p, x, st)
        return fn(core, xs, s0, time_major=major)
      got, last = hk.transform(run).apply({}, None, xs)
    near(got, want)
    near(last, s)
  if kind != "conv":
    def whole(xs, fn):
      return fn(mk(), xs, s0, time_major=major)
    a = hk.without_apply_rng(hk.transform(lambda xs: whole(xs, hk.dynamic_unroll)))
    pa = a.init(KEY, xs)
    assert shapes(pa) == shapes(p), (shapes(pa), shapes(p))
    near(a.apply(p, xs), (want, s))
    b = hk.without_apply_rng(hk.transform(lambda xs: whole(xs, hk.static_unroll)))
    same_tree(b.init(KEY, xs), pa)
    near(b.apply(p, xs), (want, s))


@law("C18", quick=20, bound="1-3 spatial dimensions")
def conv_lstm_gates(g):
  d = g.int(1, 3)
  sp = tuple(g.int(1, 3) for _ in range(d))
  cin, ch = g.int(1, 2), g.int(1, 2)
  b = (g.int(1, 2),) if g.bool() else ()
  k = g.pick([1, 2, 3])
  x, h, c = g.array(b + sp + (cin,)), g.array(b + sp + (ch,)), g.array(b + sp + (ch,))
  def f(x, h, c):
    m = getattr(hk, f"Conv{d}DLSTM")(sp, ch, k)
    s = m.initial_state(b[0] if b else None)
    assert s.hidden.shape == h.shape and s.cell.shape == c.shape
    return m(x, hk.LSTMState(h, c))
  (out, st), p, _, _ = drive(g, f, x, h, c)
  names = sorted(p)
  assert len(names) == 2, names
  hh, ii = [n for n in names if n.endswith("hidden_to_hidden")][0], [n for n in names if n.endswith("input_to_hidden")][0]
  def conv(x, q):
    m = hk.transform(lambda v: hk.ConvND(d, 4 * ch, k, name="c")(v))
    return f64(m.apply({"c": q}, None, x))
  gates_ = conv(x, p[ii]) + conv(h, p[hh])
  i, j, fo, o = (gates_[..., q * ch:(q + 1) * ch] for q in range(4))
  cn = sigmoid(fo + 1) * f64(c) + sigmoid(i) * np.tanh(j)
  hn = sigmoid(o) * np.tanh(cn)
  close(out, hn, tol=1e-3)
  close(st.hidden, hn, tol=1e-3)
  close(st.cell, cn, tol=1e-3)


@law("C18", quick=40, bound="states of 1-3 entries of rank 1-3, resets per example or one, nested")
def reset_core(g):
  B = g.int(1, 3)
  batched = g.bool(0.8)
  n = g.int(1, 3)
  shapes_ = [tuple(g.int(1, 3) for _ in range(g.int(0 if k else 1, 2))) for k in range(n)]
  inits = [g.array(s) for s in shapes_]
  class Core(hk.RNNCore):
    def __call__(self, x, s):
      return (x, s), jax.tree_util.tree_map(lambda v: v + 1, s)
    def initial_state(self, m):
      return tuple(jnp.asarray(v) if m is None else jnp.broadcast_to(v, (m,) + v.shape) for v in inits)
  lead = (B,) if batched else ()
  state = tuple(g.array(lead + s) for s in shapes_)
  per = batched and g.bool(0.7)
  mk = lambda: np.asarray(g.r.rand(*(lead if per else ())) < 0.5)
  nested = g.bool()
  r = tuple(mk() for _ in range(n)) if nested else mk()
  x = g.array((B if batched else 1, 2))
  (out, nxt) = hk.transform(lambda: hk.ResetCore(Core())((x, r), state)).apply({}, None)
  gx, seen = out
  assert np.array_equal(gx, x)
  for k in range(n):
    q = r[k] if nested else r
    for e in (range(B) if batched else [None]):
      sel = bool(q[e]) if per else bool(q)
      have = np.asarray(seen[k][e] if batched else seen[k])
      want = inits[k] if sel else (state[k][e] if batched else state[k])
      assert np.array_equal(have, want), (k, e, sel)
  same_tree(nxt, jax.tree_util.tree_map(lambda v: v + 1, seen))
  bad = np.zeros(B + 1, bool)
  if batched:
    raises(ValueError, hk.transform(lambda: hk.ResetCore(Core())((x, bad), state)).apply, {}, None)


@law("C18", quick=30, bound="0-4 layers, cores and functions, with and without skip connections")
def deep_rnn(g):
  n = g.int(0, 4)
  skip = g.bool() and n > 0
  kinds = ["core" if skip or g.bool(0.6) else "fn" for _ in range(n)]
  B = g.int(1, 2)
  class Core(hk.RNNCore):
    def __init__(self, k):
      super().__init__(name=f"core{k}")
      self.k = k
    def __call__(self, x, s):
      return jnp.concatenate([x * (self.k + 2), s], -1), s + x.sum() + self.k
    def initial_state(self, m):
      return jnp.full((1,) if m is None else (m, 1), float(self.k))
  x = g.array((B, 2))
  def f(x):
    layers = [Core(k) if c == "core" else (lambda v, k=k: v - k) for k, c in enumerate(kinds)]
    m = hk.deep_rnn_with_skip_connections(layers) if skip else hk.DeepRNN(layers)
    s = m.initial_state(B)
    return m(x, s), s, m.initial_state(None)
  (out, nxt), s, s0 = hk.transform(f).apply({}, None, x)
  cores = [k for k, c in enumerate(kinds) if c == "core"]
  assert type(s) is tuple and len(s) == len(cores) == len(s0) == len(nxt) and type(nxt) is tuple
  cur, outs, states = f64(x), [], []
  for k, c in enumerate(kinds):
    if skip and k:
      cur = np.concatenate([x, cur], -1)
    if c == "fn":
      cur = cur - k
    else:
      st = np.full((B, 1), float(k))
      j = cores.index(k)
      assert np.array_equal(s[j], st) and s0[j].shape == (1,)
      states.append(st + cur.sum() + k)
      cur = np.concatenate([cur * (k + 2), st], -1)
      outs.append(cur)
  close(out, np.concatenate(outs, -1) if skip else cur, tol=1e-4)
  for a, b in zip(nxt, states):
    close(a, b, tol=1e-3)
  if skip:
    raises(ValueError, hk.transform(lambda: hk.deep_rnn_with_skip_connections([Core(0), jnp.tanh])).apply, {}, None)


@law("C18", quick=8)
def rnn_rejects(g):
  x = np.zeros(g.pick([(), (1, 1, 1), (1, 2, 1, 1)]), np.float32)
  raises(ValueError, hk.transform(lambda: hk.LSTM(2)(x, hk.LSTM(2).initial_state(None))).init, KEY)
  raises(ValueError, hk.transform(lambda: hk.GRU(2)(x, jnp.zeros(2))).init, KEY)
  out, s = hk.transform(lambda: hk.IdentityCore()(x, 5)).apply({}, None)
  assert out is x and s == 5
  assert hk.transform(lambda: hk.IdentityCore().initial_state(3)).apply({}, None) == ()


# ---------------------------------------------------------------- C19


def naive_pool(x, w, s, padding, mode):
  import itertools
  x = f64(x)
  pads, out = [], []
  for d, k, t in zip(x.shape, w, s):
    if padding == "SAME":
      o = -(-d // t)
      p = max((o - 1) * t + k - d, 0)
      pads.append((p // 2, p - p // 2))
    else:
      o = (d - k) // t + 1
      pads.append((0, 0))
    out.append(max(o, 0))
  r = np.zeros(out)
  for pos in itertools.product(*[range(o) for o in out]):
    sl = tuple(slice(max(q * t - p[0], 0), max(q * t - p[0] + k, 0)) for q, t, p, k in zip(pos, s, pads, w))
    v = x[sl]
    r[pos] = (v.max() if v.size else -np.inf) if mode == "max" else v.mean()
  return r


@law("C19", quick=80, bound="ranks 2-5, windows and strides 1-3 as int, full or short sequence, every channel axis")
def pooling(g):
  rank = g.int(2, 5)
  x = g.array(tuple(g.int(1, 4) for _ in range(rank)))
  axis = g.pick([-1, -1, None] + list(range(1, rank)) + list(range(1 - rank, 0)))
  def size():
    kind = g.pick(["int", "full", "short"])
    if kind == "int":
      k = g.int(1, 3)
      ax = None if axis is None else axis % rank
      return k, tuple(1 if d in (0, ax) else k for d in range(rank))
    m = rank if kind == "full" else g.int(1, rank)
    ks = [g.int(1, 3) for _ in range(m)]
    return (tuple(ks) if g.bool() else ks), (1,) * (rank - m) + tuple(ks)
  (warg, w), (sarg, s) = size(), size()
  padding = g.pick(["SAME", "VALID"])
  if padding == "VALID" and any(k > d for k, d in zip(w, x.shape)):
    raise Skip()
  mode = g.pick(["max", "avg"])
  kw = {} if axis == -1 and g.bool() else {"channel_axis": axis}
  if g.bool():
    got = getattr(hk, mode + "_pool")(x, warg, sarg, padding, **kw)
  else:
    cls = hk.MaxPool if mode == "max" else hk.AvgPool
    got = hk.transform(lambda v: cls(warg, sarg, padding, **kw)(v)).apply({}, None, x)
  close(got, naive_pool(x, w, s, padding, mode), f"{mode} {w} {s} {padding}", tol=1e-5)


@law("C19", quick=10)
def pooling_rejects(g):
  f = g.pick([hk.max_pool, hk.avg_pool])
  x = g.array((2, 3, 3, 1))
  raises(ValueError, f, x, 2, 2, g.pick(["same", "valid", "FULL", ""]))
  raises(ValueError, f, x, 2, 2, "SAME", channel_axis=g.pick([4, 5, -4, -5]))
  raises(Exception, f, x, (1, 1, 2, 2, 1), 2, "SAME")


# ---------------------------------------------------------------- C20


def drawn(init, shape, dtype, seed=0):
  """One value of an initializer."""
  return hk.transform(lambda: init(shape, dtype)).apply({}, jax.random.PRNGKey(seed))


@law("C20", quick=60, bound="ranks 0-4, float32, bfloat16 and float16")
def exact_initializers(g):
  kind = g.pick(["constant", "array", "identity", "normal", "truncated", "uniform"])
  dtype = g.pick([jnp.float32, jnp.bfloat16, jnp.float16])
  shape = g.shape(2 if kind == "identity" else 0, 4, 4, 1)
  s = list(shape) if g.bool() else shape

  if kind == "constant":
    want, init = np.full(shape, 1.5), hk.initializers.Constant(1.5)
  elif kind == "array":
    if not shape:
      raise Skip()
    c = np.arange(shape[-1], dtype=np.float32)
    want, init = np.broadcast_to(c, shape), hk.initializers.Constant(c)
  elif kind == "identity":
    want, init = np.broadcast_to(2.5 * np.eye(*shape[-2:]), shape), hk.initializers.Identity(2.5)
  else:
    a, b = 0.5, 2.0
    cls = {"normal": hk.initializers.RandomNormal, "truncated": hk.initializers.TruncatedNormal, "uniform": hk.initializers.RandomUniform}[kind]
    init = cls(a, b)
    key = hk.transform(lambda: hk.next_rng_key()).apply({}, jax.random.PRNGKey(0))
    want = {"normal": lambda: a * jax.random.normal(key, shape, dtype) + b,
            "truncated": lambda: a * jax.random.truncated_normal(key, -2.0, 2.0, shape, dtype) + b,
            "uniform": lambda: jax.random.uniform(key, shape, dtype, a, b)}[kind]()
  got = drawn(init, s, dtype)
  assert got.dtype == dtype and got.shape == tuple(shape), (got.dtype, got.shape)
  close(got, np.asarray(want, np.float64), kind, tol=2e-2 if dtype != jnp.float32 else 1e-5)


@law("C20", quick=40, bound="ranks 0-4 with about 4000 elements, the three modes and distributions")
def variance_scaling(g):
  rank = g.int(0, 4)
  shape = {0: (), 1: (4000,), 2: (40, 100), 3: (5, 20, 40), 4: (3, 4, 10, 40)}[rank]
  if len(shape) == 2 and g.bool():
    shape = shape[::-1]
  mode, dist = g.pick(["fan_in", "fan_out", "fan_avg"]), g.pick(["normal", "truncated_normal", "uniform"])
  scale = g.pick([0.5, 1.0, 2.0])
  field = int(np.prod(shape[:-2])) if rank > 2 else 1
  fi, fo = (1, 1) if rank == 0 else (shape[0],) * 2 if rank == 1 else (shape[-2] * field, shape[-1] * field)
  n = {"fan_in": fi, "fan_out": fo, "fan_avg": (fi + fo) / 2}[mode]
  got = f64(drawn(hk.initializers.VarianceScaling(scale, mode, dist), shape, jnp.float32, g.int(0, 99)))
  std = np.sqrt(scale / n)
  assert got.shape == shape
  if rank:
    assert abs(got.std() / std - 1) < 0.08, (got.std(), std)
    assert abs(got.mean()) < 0.1 * std
  lim = {"uniform": np.sqrt(3) * std, "truncated_normal": 2 * std / .87962566103423978, "normal": 6 * std}[dist]
  assert np.abs(got).max() <= lim * 1.0001
  if rank:
    assert np.abs(got).max() > 0.9 * min(lim, 3 * std)


@law("C20", quick=40, bound="ranks 0-4 of sizes 1-5, every mode")
def variance_scale_exact(g):
  """The draw of the scaled distribution, for the same key."""
  shape, mode, s = g.shape(0, 4, 5, 1), g.pick(["fan_in", "fan_out", "fan_avg"]), g.pick([0.5, 1.0, 2.0])
  if len(shape) < 2:
    fi = fo = shape[0] if shape else 1
  else:
    field = int(np.prod(shape[:-2]))
    fi, fo = shape[-2] * field, shape[-1] * field
  v = s / {"fan_in": fi, "fan_out": fo, "fan_avg": (fi + fo) / 2}[mode]
  H, k = hk.initializers, g.int(0, 99)
  for dist, ref in [("normal", H.RandomNormal(np.sqrt(v))), ("truncated_normal", H.TruncatedNormal(np.sqrt(v) / .87962566103423978)),
                    ("uniform", H.RandomUniform(-np.sqrt(3 * v), np.sqrt(3 * v)))]:
    close(drawn(H.VarianceScaling(s, mode, dist), shape, jnp.float32, k), drawn(ref, shape, jnp.float32, k), tol=1e-4)


@law("C20", quick=30)
def other_scalings(g):
  shape = g.pick([(40, 100), (5, 20, 40), (4000,)])
  got = f64(drawn(hk.initializers.UniformScaling(2.0), shape, jnp.float32, g.int(0, 99)))
  lim = 2 * np.sqrt(3 / np.prod(shape[:-1]))
  assert got.shape == shape and 0.98 * lim < np.abs(got).max() <= lim * 1.0001
  shape = g.shape(2, 4, 4, 1)
  axis = g.pick(list(range(-len(shape), len(shape))))
  got = f64(drawn(hk.initializers.Orthogonal(1.5, axis), shape, jnp.float32, g.int(0, 99)))
  assert got.shape == shape
  m = np.moveaxis(got, axis, 0).reshape(shape[axis], -1) / 1.5
  e = m @ m.T if m.shape[0] <= m.shape[1] else m.T @ m
  assert np.allclose(e, np.eye(e.shape[0]), atol=1e-4), (shape, axis)
  # uniform over the orthogonal matrices: entries of both signs
  k0 = g.int(0, 10**6)
  first = {bool(f64(drawn(hk.initializers.Orthogonal(), (2, 2), jnp.float32, k0 + k))[j, j] > 0) for k in range(30) for j in (0,)}
  assert first == {True, False}
  raises(ValueError, drawn, hk.initializers.Orthogonal(), g.pick([(), (3,)]), jnp.float32)
  raises(ValueError, drawn, hk.initializers.Identity(), g.pick([(), (3,)]), jnp.float32)
  raises(ValueError, hk.initializers.VarianceScaling, -0.5)
  raises(ValueError, hk.initializers.VarianceScaling, 1.0, "fan")
  raises(ValueError, hk.initializers.VarianceScaling, 1.0, "fan_in", "gauss")


@law("C20", quick=15)
def fresh_keys(g):
  """Two draws in a row differ, and are reproduced by the same seed."""
  init = g.pick([hk.initializers.RandomNormal(), hk.initializers.TruncatedNormal(), hk.initializers.RandomUniform(),
                 hk.initializers.VarianceScaling(), hk.initializers.UniformScaling(), hk.initializers.Orthogonal()])
  shape = g.shape(2, 3, 4, 2)
  def f():
    return init(shape, jnp.float32), init(shape, jnp.float32), hk.next_rng_key()
  t = hk.transform(f)
  k = jax.random.PRNGKey(g.int(0, 99))
  a, b, c = t.apply({}, k)
  assert not np.array_equal(a, b)
  same_tree(t.apply({}, k), (a, b, c))
  third = hk.transform(lambda: [hk.next_rng_key() for _ in range(3)][2]).apply({}, k)
  assert np.array_equal(third, c), "one key per draw"


# ---------------------------------------------------------------- C21


def sn_ref(u, w, eps, n):
  m = f64(w).reshape(-1, w.shape[-1])
  unit = lambda v: v / np.sqrt((v * v).sum() + eps)
  for _ in range(n):
    v = unit(u @ m.T)
    u = unit(v @ m)
  s = float((v @ m @ u.T)[0, 0])
  return f64(w) / s, u, s


@law("C21", quick=30, bound="ranks 2-4, 1-3 power iterations, 1-4 calls")
def spectral_norm_history(g):
  shape, n, eps = g.shape(2, 4, 4, 1), g.int(1, 3), g.pick([1e-4, 1e-2, 1.0])
  t = tr(lambda w, up: hk.SpectralNorm(eps, n)(w, update_stats=up))
  _, s = t.init(KEY, g.array(shape), True)
  for _ in range(g.int(1, 4)):
    w, up = g.array(shape), g.bool(0.7)
    u = f64(s["spectral_norm"]["u0"])
    want, u2, sig = sn_ref(u, w, eps, n)
    if abs(sig) < 1e-2:
      raise Skip()
    out, s2 = t.apply({}, s, None, w, up)
    close(out, want, tol=2e-3)
    # the power iteration is not differentiated
    r = g.array(shape)
    gw = jax.grad(lambda w: (t.apply({}, s, None, w, up)[0] * r).sum())(w)
    m, uu = f64(w).reshape(-1, shape[-1]), u
    for _ in range(n):
      vv = uu @ m.T
      vv = vv / np.sqrt((vv * vv).sum() + eps)
      uu = vv @ m
      uu = uu / np.sqrt((uu * uu).sum() + eps)
    if abs(sig) > 0.1:
      close(gw, f64(r) / sig - (f64(r) * f64(w)).sum() / sig**2 * (vv.T @ uu).reshape(shape), tol=1e-2)
    if up:
      close(s2["spectral_norm"]["u0"], u2, tol=2e-3)
      close(s2["spectral_norm"]["sigma"], sig, tol=2e-3)
    else:
      same_tree(s2, s)
    s = s2
  raises(ValueError, t.init, KEY, g.array(g.pick([(), (3,)])), True)
  raises(ValueError, tr(lambda w: hk.SpectralNorm()(w, error_on_non_matrix=True)).init, KEY, g.array((2, 2, 2)))


NAMES = ["a", "b", "w", "a/b", "a__b", "a/~/b", "a/~b", "a_tilde", "l_1", "l_2", "l", "linear/w_1", "w_1"]


@law("C21", quick=40, bound="trees of up to 6 entries, with names that look alike, patterns, 1-3 calls")
def param_trees(g):
  import re
  kind = g.pick(["ema", "ema", "sn"])
  tree = {}
  for _ in range(g.int(0, 6)):
    m, n = g.pick(NAMES), g.pick([x for x in NAMES if "/" not in x] + ["b__c", "c"])
    tree.setdefault(m, {})[n] = g.array(g.shape(2, 3, 3) if kind == "sn" else g.shape(0, 3, 3))
  rx = g.pick(["", "", ".*w", "a", "a/b", ".*b$", "w"])
  decay = g.pick([0.5, 0.9])
  if kind == "ema":
    deb = g.bool()
    warm = 0 if deb else g.int(0, 2)
    f = lambda p, up: hk.EMAParamsTree(decay, deb, warm, rx)(p, update_stats=up)
  else:
    f = lambda p, up: hk.SNParamsTree(1e-2, 1, rx)(p, update_stats=up)
  t = tr(f)
  p0, s = t.init(KEY, tree, True)
  assert not p0
  hist = {}
  mine = [(m, n) for m in tree for n in tree[m] if not (rx and re.match(rx, m + "/" + n))]
  assert len(s) == len(mine), (sorted(s), mine)
  hid = {k: 0.0 for k in mine}
  cnt = 0
  for _ in range(g.int(1, 3)):
    vals = {m: {n: g.array(v.shape) for n, v in d.items()} for m, d in tree.items()}
    up = g.bool(0.7)
    if g.bool():
      vals = hk.data_structures.to_immutable_dict(vals)
    out, s2 = t.apply({}, s, None, vals, up)
    assert shapes(out) == shapes(tree)
    for m in tree:
      for n in tree[m]:
        x = f64(vals[m][n])
        if (m, n) not in mine:
          assert np.array_equal(out[m][n], vals[m][n]), (m, n)
        elif kind == "ema":
          d = 0.0 if cnt + 1 - warm <= 0 and warm else decay
          h = hid[m, n] * d + x * (1 - d)
          close(out[m][n], h / (1 - decay ** (cnt + 1)) if deb else h, f"{m}/{n}", tol=1e-3)
          if up:
            hid[m, n] = h
    if kind == "sn":
      # each entry is a multiple of itself, with one factor per entry taken from its own state
      own = {}
      for m, n in mine:
        x, y = f64(vals[m][n]), f64(out[m][n])
        ok = [k for k in s if s[k]["u0"].shape == (1, x.shape[-1]) and np.allclose(
            sn_ref(f64(s[k]["u0"]), x, 1e-2, 1)[0], y, rtol=1e-2, atol=1e-3)]
        assert ok, (m, n)
    if up:
      cnt += 1
    else:
      same_tree(s2, s)
    s = s2


# ---------------------------------------------------------------- C22


@law("C22", quick=30, bound="ranks 1-3, codebooks of 1-5 entries, 1-3 calls of training and evaluation")
def vector_quantizers(g):
  D, K = g.int(1, 3), g.int(1, 5)
  ema = g.bool()
  lead = g.shape(0, 2, 3, 1)
  cost, decay, eps = 0.25, g.pick([0.0, 0.5, 0.9]), g.pick([1e-5, 0.1])
  if ema:
    f = lambda x, train: hk.nets.VectorQuantizerEMA(D, K, cost, decay, eps)(x, train)
  else:
    f = lambda x, train: hk.nets.VectorQuantizer(D, K, cost)(x, train)
  t = tr(f)
  p, s = t.init(KEY, g.array(lead + (D,)), g.bool())
  if not ema:
    p = scramble(g, p)
    assert not s
  else:
    assert not p
  name = sorted(p or s, key=len)[0]
  hist = {"n": np.zeros(K), "w": np.zeros((D, K)), "c": 0}
  if ema:
    s = {m: dict(d) for m, d in s.items()}
    for m in s:
      for q in s[m]:
        s[m][q] = np.zeros_like(s[m][q]) if m != name else g.array((D, K))
      s[m].setdefault("counter", np.zeros((), np.int32)) if m != name else None
  for _ in range(g.int(1, 3)):
    x, train = g.array(lead + (D,)), g.bool(0.7)
    e = f64((s if ema else p)[name]["embeddings"])
    out, s2 = t.apply(p, s, None, x, train)
    flat = f64(x).reshape(-1, D)
    dist = ((flat[:, :, None] - e[None]) ** 2).sum(1)
    near = dist.argmin(1)
    srt = np.sort(dist, 1)
    if K > 1 and (srt[:, 1] - srt[:, 0]).min() < 1e-3:
      raise Skip()
    assert np.array_equal(np.asarray(out["encoding_indices"]), near.reshape(lead))
    close(out["encodings"], np.eye(K)[near])
    q = e.T[near].reshape(x.shape)
    close(out["quantize"], q, tol=1e-3)
    close(out["distances"], dist, tol=1e-2)
    lat = ((q - x) ** 2).mean()
    close(out["loss"], lat * (cost if ema else 1 + cost), tol=1e-3)
    avg = np.eye(K)[near].mean(0)
    close(out["perplexity"], np.exp(-(avg * np.log(avg + 1e-10)).sum()), tol=1e-3)
    gx = jax.grad(lambda v: t.apply(p, s, None, v, train)[0]["quantize"].sum())(x)
    close(gx, np.ones(x.shape), tol=1e-4)
    gl = jax.grad(lambda v: t.apply(p, s, None, v, train)[0]["loss"])(x)
    close(gl, cost * 2 * (f64(x) - q) / x.size, tol=1e-3)
    if not ema:
      ge = jax.grad(lambda v: t.apply(v, s, None, x, train)[0]["loss"] + t.apply(v, s, None, x, train)[0]["quantize"].sum())(p)
      we = np.zeros((D, K))
      np.add.at(we.T, near, 2 * (q.reshape(-1, D) - flat) / x.size)
      close(ge[name]["embeddings"], we, tol=1e-3)
    if ema and train:
      hist["c"] += 1
      hist["n"] = hist["n"] * decay + np.eye(K)[near].sum(0) * (1 - decay)
      hist["w"] = hist["w"] * decay + flat.T @ np.eye(K)[near] * (1 - decay)
      dn = 1 - decay ** hist["c"]
      n, w = hist["n"] / dn, hist["w"] / dn
      tot = n.sum()
      close(s2[name]["embeddings"], w / ((n + eps) / (tot + K * eps) * tot), tol=5e-2)
    else:
      same_tree(jax.tree_util.tree_map(np.asarray, dict(hk.data_structures.to_mutable_dict(s2))), jax.tree_util.tree_map(np.asarray, dict(s)))
    s = hk.data_structures.to_mutable_dict(s2)
  if ema:
    raises(ValueError, tr(lambda x: hk.nets.VectorQuantizerEMA(D, K, cost, g.pick([-0.1, 1.1]))(x, True)).init, KEY, g.array((1, D)))
