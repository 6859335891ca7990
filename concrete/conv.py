"""C13 on the real code: window geometry of convolutions against a direct oracle."""
import itertools

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from concrete.laws import Skip, close, law, raises
from haiku._src import utils as utils_src

PADS = {
    "same": lambda k: ((k - 1) // 2, k // 2 if k % 2 == 0 else (k - 1) // 2),
    "valid": lambda k: (0, 0),
    "full": lambda k: (k - 1, k - 1),
    "causal": lambda k: (k - 1, 0),
    "reverse_causal": lambda k: (0, k - 1),
}
PADS["same"] = lambda k: ((k - 1) // 2, (k - 1) - (k - 1) // 2)


@law("C13", quick=60, bound="kernel sizes 1..40")
def pad_functions(g):
  k = g.int(1, 40)
  for n, f in PADS.items():
    got = getattr(hk.pad, n)(k)
    assert tuple(got) == f(k), (n, k, got)


@law("C13", quick=60, bound="1..4 dimensions, kernels 1..7, rates 1..4")
def pad_create(g):
  n = g.int(1, 4)
  kern = g.ints(n, 1, 7) if g.bool() else g.int(1, 7)
  rate = g.ints(n, 1, 4) if g.bool() else g.int(1, 4)
  names = sorted(PADS)
  per = g.bool()
  pads = [g.pick(names) for _ in range(n)]
  arg = [getattr(hk.pad, p) for p in pads] if per else getattr(hk.pad, pads[0])
  if not per:
    pads = [pads[0]] * n
  got = hk.pad.create(arg, kern, rate, n)
  ks = kern if isinstance(kern, list) else [kern] * n
  rs = rate if isinstance(rate, list) else [rate] * n
  want = [PADS[p]((k - 1) * r + 1) for p, k, r in zip(pads, ks, rs)]
  assert [tuple(x) for x in got] == want, (got, want)


@law("C13", quick=60, bound="n 1..5, int, str, callable, tuple or list")
def replicate(g):
  n = g.int(1, 5)
  kind = g.pick(["int", "str", "tuple", "list", "fn"])
  if kind in ("tuple", "list"):
    m = g.int(0, 6)
    e = g.ints(m, -3, 3)
    e = tuple(e) if kind == "tuple" else e
    if m not in (1, n):
      raises(TypeError, utils_src.replicate, e, n, "x")
      return
    want = tuple(e) * n if m == 1 else tuple(e)
  else:
    e = {"int": 3, "str": "SAME", "fn": hk.pad.same}[kind]
    want = (e,) * n
  got = utils_src.replicate(e, n, "x")
  assert isinstance(got, tuple) and got == want, (got, want)


def naive_conv(x, w, pads, stride, rate, groups=1):
  """x [N, *sp, C], w [*k, C/groups, O]; direct summation in float64."""
  sp = len(pads)
  x = np.pad(x.astype(np.float64), [(0, 0)] + list(pads) + [(0, 0)])
  k = w.shape[:sp]
  out_sp = [(x.shape[1 + d] - ((k[d] - 1) * rate[d] + 1)) // stride[d] + 1 for d in range(sp)]
  if min(out_sp) < 1:
    raise Skip()
  co = w.shape[-1]
  out = np.zeros([x.shape[0]] + out_sp + [co])
  cg, og = w.shape[-2], co // groups
  for o in itertools.product(*[range(s) for s in out_sp]):
    for kk in itertools.product(*[range(s) for s in k]):
      idx = tuple(o[d] * stride[d] + kk[d] * rate[d] for d in range(sp))
      xv = x[(slice(None),) + idx]
      for gi in range(groups):
        out[(slice(None),) + o][:, gi * og:(gi + 1) * og] += \
            xv[:, gi * cg:(gi + 1) * cg] @ w[kk][:, gi * og:(gi + 1) * og]
  return out


def same_lax(size, k, stride, rate):
  eff = (k - 1) * rate + 1
  out = -(-size // stride)
  tot = max((out - 1) * stride + eff - size, 0)
  return tot // 2, tot - tot // 2


def draw_pad(g, n, sizes, ks, strides, rates):
  kind = g.pick(["SAME", "VALID", "fn", "fns", "pairs"])
  if kind == "pairs":
    want = [tuple(g.ints(2, 0, 3)) for _ in range(n)]
    return want, want
  if kind == "SAME":
    return kind, [same_lax(*t) for t in zip(sizes, ks, strides, rates)]
  if kind == "VALID":
    return kind, [(0, 0)] * n
  names = [g.pick(sorted(PADS)) for _ in range(n)]
  if kind == "fn":
    names = names[:1] * n
  want = [PADS[p]((k - 1) * r + 1) for p, k, r in zip(names, ks, rates)]
  arg = getattr(hk.pad, names[0]) if kind == "fn" else [getattr(hk.pad, p) for p in names]
  return arg, want


def perturb(tree, g):
  return jax.tree_util.tree_map(lambda a: jnp.asarray(g.array(a.shape)), tree)


@law("C13", quick=18, thorough=250, bound="1..3 spatial dimensions of size <= 7, all paddings, strides and rates <= 3")
def convolution(g):
  n = g.pick([1, 2, 2, 3])
  sizes = g.ints(n, 3, 7 if n < 3 else 4)
  ks, strides, rates = g.ints(n, 1, 3), g.ints(n, 1, 3), g.ints(n, 1, 2)
  if g.bool():
    rates = [1] * n
  elif g.bool():
    strides = [1] * n
  groups = g.pick([1, 1, 2])
  ci, co = groups * g.int(1, 2), groups * g.int(1, 2)
  arg, pads = draw_pad(g, n, sizes, ks, strides, rates)
  first = g.bool()
  bias = g.bool()
  batched = g.bool(0.8)
  masked = g.bool(0.3)
  mask = np.asarray((g.r.rand(*(ks + [ci // groups, co])) < 0.6) * g.pick([1.0, 0.5, -1.0]), np.float32) if masked else None
  fmt_last, fmt_first = {1: ("NWC", "NCW"), 2: ("NHWC", "NCHW"), 3: ("NDHWC", "NCDHW")}[n]
  cls = {1: hk.Conv1D, 2: hk.Conv2D, 3: hk.Conv3D}[n]
  f = hk.without_apply_rng(hk.transform(lambda x: cls(
      co, ks, stride=strides, rate=rates, padding=arg, with_bias=bias, mask=mask, feature_group_count=groups,
      data_format=fmt_first if first else fmt_last)(x)))
  x = g.array((2 if batched else 1,) + tuple(sizes) + (ci,))
  xi = np.moveaxis(x, -1, 1) if first else x
  if not batched:
    xi = xi[0]
  p = perturb(f.init(jax.random.PRNGKey(g.int(0, 99)), xi), g)
  (pm,) = p.values()
  w = np.asarray(pm["w"])
  assert w.shape == tuple(ks) + (ci // groups, co), w.shape
  want = naive_conv(x, w * (mask if masked else 1), pads, strides, rates, groups)
  got = np.asarray(f.apply(p, xi))
  if bias:
    assert pm["b"].size == co
    want = want + np.asarray(pm["b"]).reshape(-1)
  if first:
    want = np.moveaxis(want, -1, 1)
  if not batched:
    want = want[0]
  close(got, want, "conv", 1e-3)


@law("C13", quick=10, thorough=120, bound="1..2 spatial dimensions; against the transposed map of the direct convolution")
def transpose(g):
  n = g.pick([1, 2])
  sizes = g.ints(n, 2, 5)
  ks, strides = g.ints(n, 1, 4), g.ints(n, 1, 3)
  padding = g.pick(["SAME", "VALID"])
  ci, co = g.int(1, 2), g.int(1, 3)
  first = g.bool()
  cls = {1: hk.Conv1DTranspose, 2: hk.Conv2DTranspose}[n]
  fmt_last, fmt_first = {1: ("NWC", "NCW"), 2: ("NHWC", "NCHW")}[n]
  f = hk.without_apply_rng(hk.transform(lambda x: cls(
      co, ks, stride=strides, padding=padding, with_bias=False, data_format=fmt_first if first else fmt_last)(x)))
  x = g.array((2,) + tuple(sizes) + (ci,))
  xi = np.moveaxis(x, -1, 1) if first else x
  p = perturb(f.init(jax.random.PRNGKey(0), xi), g)
  (pm,) = p.values()
  w = np.asarray(pm["w"])
  assert w.shape == tuple(ks) + (co, ci), w.shape
  # output size: SAME -> size*stride; VALID -> size*stride + max(k - stride, 0)
  outs = [s * st if padding == "SAME" else s * st + max(k - st, 0) for s, st, k in zip(sizes, strides, ks)]
  got = np.asarray(f.apply(p, xi))
  if first:
    got = np.moveaxis(got, 1, -1)
  assert got.shape == (2,) + tuple(outs) + (co,), (got.shape, outs)
  # out[o] = sum_i x[i] w[flip], scattered: y[i*stride + k'] += x[i] @ w[k - 1 - k']^T
  full = np.zeros((2,) + tuple(s * st + max(k - st, 0) + k for s, st, k in zip(sizes, strides, ks)) + (co,))
  for i in itertools.product(*[range(s) for s in sizes]):
    for kk in itertools.product(*[range(k) for k in ks]):
      o = tuple(i[d] * strides[d] + kk[d] for d in range(n))
      wk = w[tuple(ks[d] - 1 - kk[d] for d in range(n))]
      full[(slice(None),) + o] += x[(slice(None),) + i] @ wk.T
  sl = []
  for d in range(n):
    k, st = ks[d], strides[d]
    lo = 0
    if padding == "SAME":
      pad_len = k + st - 2
      pad_a = k - 1 if st > k - 1 else -(-pad_len // 2)
      lo = k - 1 - pad_a
    sl.append(slice(lo, lo + outs[d]))
  close(got, full[(slice(None),) + tuple(sl)], "transpose", 1e-3)


@law("C13", quick=12, thorough=60, bound="1..3 spatial dimensions; size of the output of a transposed convolution")
def output_shape(g):
  n, first, batched = g.pick([1, 2, 3]), g.bool(), g.bool()
  sizes, ks, strides = g.ints(n, 2, 5), g.ints(n, 1, 4), g.ints(n, 1, 3)
  padding = g.pick(["SAME", "VALID"])
  want = [max(1, (s - 1) * st + (k if padding == "VALID" else 1) + g.int(0, st - 1)) for s, st, k in zip(sizes, strides, ks)]
  f = hk.without_apply_rng(hk.transform(lambda x: hk.ConvNDTranspose(
      n, 3, ks, stride=strides, padding=padding, output_shape=want, data_format="channels_first" if first else "channels_last")(x)))
  shape = ((2,) if batched else ()) + (((2,) + tuple(sizes)) if first else tuple(sizes) + (2,))
  x = jax.ShapeDtypeStruct(shape, jnp.float32)
  p = jax.eval_shape(f.init, jax.random.PRNGKey(0), x)
  out = jax.eval_shape(f.apply, p, x).shape
  sp = tuple(out)[1:] if batched else tuple(out)
  assert sp == ((3,) + tuple(want) if first else tuple(want) + (3,)), (out, want)


@law("C13", quick=12, thorough=40, bound="about 4000 weights")
def initial_weights(g):
  n, first, kind = g.pick([1, 2]), g.bool(), g.pick(["conv", "transpose", "depthwise", "groups"])
  k = [5] if n == 1 else [2, 3]
  fmt = "channels_first" if first else "channels_last"
  if kind == "depthwise":
    f, shape, fan = (lambda x: hk.DepthwiseConv2D(30, [4, 6], data_format="NCHW" if first else "NHWC")(x)), (8, 8), 24
    ci = 6
  elif kind == "transpose":
    f, shape, ci = (lambda x: hk.ConvNDTranspose(n, 80, k, data_format=fmt)(x)), (8,) * n, 9
    fan = 9 * int(np.prod(k))
  else:
    gr = 3 if kind == "groups" else 1
    f, shape, ci = (lambda x: hk.ConvND(n, 90, k, feature_group_count=gr, data_format=fmt)(x)), (8,) * n, 27 if gr == 3 else 9
    fan = ci // gr * int(np.prod(k))
  x = jnp.zeros((1, ci) + shape if first else (1,) + shape + (ci,))
  p, = hk.transform(f).init(jax.random.PRNGKey(g.int(0, 99)), x).values()
  w = np.asarray(p["w"], np.float64) * np.sqrt(fan)
  assert abs(w.std() - .8796) < 0.05 and abs(w).max() <= 2.001, (kind, w.std())
  assert not np.asarray(p["b"]).any()


@law("C13", quick=8, thorough=60, bound="initializers given by the user; sizes <= 4")
def given_initializers(g):
  n, bias, first = g.pick([1, 2]), g.bool(), g.bool()
  kind = g.pick(["conv", "transpose", "depthwise", "separable"])
  n = 2 if kind in ("depthwise", "separable") else n
  fmt = ("NCHW" if first else "NHWC") if kind in ("depthwise", "separable") else ("channels_first" if first else "channels_last")
  kw = dict(w_init=hk.initializers.Constant(2.5), data_format=fmt, with_bias=bias)
  if bias:
    kw["b_init"] = hk.initializers.Constant(-1.5)
  k = g.ints(n, 1, 3)
  mk = {"conv": lambda: hk.ConvND(n, 2, k, **kw), "transpose": lambda: hk.ConvNDTranspose(n, 2, k, **kw),
        "depthwise": lambda: hk.DepthwiseConv2D(2, k, **kw),
        "separable": lambda: hk.SeparableDepthwiseConv2D(2, k, **kw)}[kind]
  x = jnp.zeros((1, 3) + (4,) * n if first else (1,) + (4,) * n + (3,))
  p = hk.transform(lambda x: mk()(x)).init(jax.random.PRNGKey(0), x)
  for name, v in ((k, v) for m in p.values() for k, v in m.items()):
    assert (np.asarray(v) == (2.5 if name == "w" else -1.5)).all(), (kind, name, v)


@law("C13", quick=10, thorough=120, bound="DepthwiseConv2D, sizes <= 6")
def depthwise(g):
  n = 2
  sizes = g.ints(n, 3, 6)
  ks = g.ints(n, 1, 3)
  strides, rates = [g.int(1, 2)] * 2, [1] * n
  mult, ci = g.int(1, 2), g.int(1, 3)
  padding = g.pick(["SAME", "VALID", [(1, 0), (2, 1)]])
  first = g.bool()
  bias = g.bool()
  f = hk.without_apply_rng(hk.transform(lambda x: hk.DepthwiseConv2D(
      mult, ks, stride=strides, padding=padding, with_bias=bias, data_format="NCHW" if first else "NHWC")(x)))
  x = g.array((2,) + tuple(sizes) + (ci,))
  xi = np.moveaxis(x, -1, 1) if first else x
  p = perturb(f.init(jax.random.PRNGKey(0), xi), g)
  (pm,) = p.values()
  w = np.asarray(pm["w"])
  assert w.shape == tuple(ks) + (1, mult * ci), w.shape
  if padding == "SAME":
    pads = [same_lax(*t) for t in zip(sizes, ks, strides, rates)]
  else:
    pads = [(0, 0)] * n if padding == "VALID" else padding
  want = naive_conv(x, w, pads, strides, rates, groups=ci)
  if bias:
    want = want + np.asarray(pm["b"]).reshape(-1)
  got = np.asarray(f.apply(p, xi))
  if first:
    got = np.moveaxis(got, 1, -1)
  close(got, want, "depthwise", 1e-3)


@law("C13", quick=6, thorough=60, bound="SeparableDepthwiseConv2D, stride 1")
def separable(g):
  sizes, ks = g.ints(2, 3, 6), g.ints(2, 1, 3)
  mult, ci = g.int(1, 2), g.int(1, 3)
  padding = g.pick(["SAME", "VALID"])
  f = hk.without_apply_rng(hk.transform(lambda x: hk.SeparableDepthwiseConv2D(mult, ks, padding=padding)(x)))
  x = g.array((2,) + tuple(sizes) + (ci,))
  p = perturb(f.init(jax.random.PRNGKey(0), x), g)
  ws = {np.asarray(m["w"]).shape: m for m in p.values()}
  w1 = next(np.asarray(m["w"]) for m in p.values() if "b" not in m)
  m2 = next(m for m in p.values() if "b" in m)
  w2 = np.asarray(m2["w"])
  assert w1.shape == (ks[0], 1, 1, mult * ci) and w2.shape == (1, ks[1], 1, mult * ci), (w1.shape, w2.shape)
  def pads(k, sz):
    return [same_lax(s, kk, 1, 1) for s, kk in zip(sz, k)] if padding == "SAME" else [(0, 0)] * 2
  h = naive_conv(x, w1, pads((ks[0], 1), sizes), [1, 1], [1, 1], groups=ci)
  want = naive_conv(h, w2, pads((1, ks[1]), h.shape[1:3]), [1, 1], [1, 1], groups=mult * ci)
  close(f.apply(p, x), want + np.asarray(m2["b"]).reshape(-1), "separable", 1e-3)


def conv_eqn(f, *args):
  """The convolution in the traced program."""
  jx = jax.make_jaxpr(f)(*args)
  found = []
  def walk(j):
    for e in j.eqns:
      if e.primitive.name == "conv_general_dilated":
        found.append(e)
      for v in e.params.values():
        if hasattr(v, "jaxpr"):
          walk(v.jaxpr)
        elif hasattr(v, "eqns"):
          walk(v)
  walk(jx.jaxpr)
  assert len(found) == 1, f"{len(found)} convolutions"
  return found[0], jx.out_avals[0].shape


@law("C13", quick=25, thorough=300, bound="1..7 spatial dimensions, traced program and output shape")
def any_rank(g):
  n = g.int(1, 7)
  first = g.bool()
  transpose = g.bool(0.3)
  sizes, ks = g.ints(n, 5, 9), g.ints(n, 1, 3)
  strides, rates = g.ints(n, 1, 3), g.ints(n, 1, 2)
  if transpose:
    rates = [1] * n
  ci, co = 2, 3
  arg, pads = ("VALID", [(0, 0)] * n) if transpose else draw_pad(g, n, sizes, ks, strides, rates)
  kw = {} if transpose else {"rate": rates}
  cls = hk.ConvNDTranspose if transpose else hk.ConvND
  f = hk.without_apply_rng(hk.transform(lambda x: cls(
      n, co, ks, stride=strides, padding=arg, data_format=g_fmt, **kw)(x)))
  g_fmt = "channels_first" if first else "channels_last"
  shape = (2, ci) + tuple(sizes) if first else (2,) + tuple(sizes) + (ci,)
  x = jax.ShapeDtypeStruct(shape, jnp.float32)
  p = jax.eval_shape(f.init, jax.random.PRNGKey(0), x)
  (pm,) = p.values()
  assert pm["w"].shape == (tuple(ks) + ((co, ci) if transpose else (ci, co))), pm["w"].shape
  e, out = conv_eqn(f.apply, p, x)
  if transpose:
    osz = [(s - 1) * st + k if k > st else s * st for s, st, k in zip(sizes, strides, ks)]
  else:
    osz = [(s + lo + hi - ((k - 1) * r + 1)) // st + 1 for s, (lo, hi), k, r, st in zip(sizes, pads, ks, rates, strides)]
  assert out == ((2, co) + tuple(osz) if first else (2,) + tuple(osz) + (co,)), (out, osz)
  dn = e.params["dimension_numbers"]
  sp = tuple(range(2, n + 2)) if first else tuple(range(1, n + 1))
  img = (0, 1) + sp if first else (0, n + 1) + sp
  assert tuple(dn.lhs_spec) == img and tuple(dn.out_spec) == img, dn
  ker = tuple(range(n))
  assert tuple(dn.rhs_spec)[2:] == ker and set(dn.rhs_spec[:2]) == {n, n + 1}, dn
  if not transpose:
    assert tuple(dn.rhs_spec)[:2] == (n + 1, n), dn
    assert tuple(e.params["window_strides"]) == tuple(strides)
    assert tuple(e.params["rhs_dilation"]) == tuple(rates) and set(e.params["lhs_dilation"]) <= {1}
    assert [tuple(q) for q in e.params["padding"]] == [tuple(q) for q in pads], (e.params["padding"], pads)
