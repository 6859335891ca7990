"""C13: the convolution layers convolve with their own weights and geometry."""
import z3

from contracts import layers as L
from contracts.dense import same_dtype, truncated
from pyvc import arrays as A
from pyvc import core
from pyvc import spec as S
from pyvc.core import ctx
from pyvc.spec import contract

P = "C13"

FORMATS = {1: [("NWC", True), ("NCW", False)], 2: [("NHWC", True), ("NCHW", False), ("channels_first", False)],
           3: [("NDHWC", True), ("NCDHW", False), ("N...C", True), ("NC...", False)]}


def numbers(n, last, transposed=False):
  image = (0, n + 1) + tuple(range(1, n + 1)) if last else (0, 1) + tuple(range(2, n + 2))
  kernel = ((n, n + 1) if transposed else (n + 1, n)) + tuple(range(n))
  return image, kernel, image


def sizes(what, n, lo=1):
  """(argument, per-dimension values): an int or a sequence of ints."""
  if S.pick(what, ["int", "tuple"]) == "int":
    k = S.sint(what, lo)
    return k, (k,) * n
  ks = L.dims(n, lo, what)
  return ks, ks


def own_init(name, made):
  """An arbitrary initializer; its results are kept in `made`."""
  def init(shape, dtype):
    made.append(A.new(name, tuple(shape), dtype))
    return made[-1]
  return init


def used(name, got, made, k, of):
  """`got` is the k-th of exactly `of` results of the user's initializer."""
  ok = len(made) == of
  S.prove(name, S.same(got, made[k]) if ok else z3.BoolVal(False))


def weights(name, i, a, mod, w_shape, fan_in, n_out, bias, last, n, dt, init, binit=None):
  if not L.same_names("parameter entries", i.params, [mod + ":w"] + [mod + ":b"] * bias):
    return None
  p0, p = i.params[mod], a.params[mod]
  A.prove_shape("w shape", p0["w"], w_shape)
  same_dtype("w dtype", p0["w"], dt)
  if init is not None:
    used("own w_init", p0["w"], init, 0, 1)
  else:
    truncated("w has stddev 1/sqrt(fan_in)", p0["w"], 1 / A.sqrt_term(A.rv(S.zint(A.product(fan_in)))))
  if bias:
    b_shape = (n_out,) if last else (n_out,) + (1,) * n
    if binit is not None:
      used("own b_init", p0["b"], binit, 0, 1)
      A.prove_shape("one bias per output channel", p0["b"], b_shape)
    else:
      A.prove_arr("b starts at zero, one per output channel", p0["b"], A.const(0.0, b_shape))
    same_dtype("b dtype", p0["b"], dt)
  return p


@contract(P, "ConvND", ["haiku._src.conv.ConvND.__init__", "haiku._src.conv.ConvND.__call__", "haiku._src.conv.Conv1D.__init__",
                        "haiku._src.conv.Conv2D.__init__", "haiku._src.conv.Conv3D.__init__"], budget=300,
          note="1-3 spatial dimensions; sizes symbolic; jax.lax.conv_general_dilated assumed")
def convnd(U):
  cv, pad = U("conv"), U("pad")
  n = S.pick("spatial dims", [1, 2, 3])
  fmt, last = S.pick("format", FORMATS[n])
  aspect = S.pick("aspect", ["kernel", "stride", "rate", "padding", "mask", "groups", "plain"])
  batched = S.fork("batched")
  named = S.fork("ConvnD class") if aspect in ("plain", "padding", "stride", "rate") else False
  cout = S.sint("output_channels", 1)
  kw, kernel, stride, rate, groups = {}, None, (1,) * n, (1,) * n, 1
  if aspect == "kernel":
    karg, kernel = sizes("kernel_shape", n)
  else:
    karg = kernel = L.dims(n, 1, "kernel")
  if aspect == "stride":
    kw["stride"], stride = sizes("stride", n)
  if aspect == "rate":
    kw["rate"], rate = sizes("rate", n)
  padding, want_pad = "SAME", "SAME"
  if aspect == "padding":
    kind = S.pick("padding", ["VALID", "valid", "same", "function", "functions", "pairs"])
    if kind == "function":
      padding = S.pick("pad fn", [pad.same, pad.causal, pad.full])
      kw["rate"], rate = sizes("rate", n)
      want_pad = tuple(padding((k - 1) * r + 1) for k, r in zip(kernel, rate))
    elif kind == "functions":
      padding = [[pad.causal, pad.valid, pad.full][j % 3] for j in range(n)]
      want_pad = tuple(f(k) for f, k in zip(padding, kernel))
    elif kind == "pairs":
      padding = [(S.sint(f"lo{j}", 0), S.sint(f"hi{j}", 0)) for j in range(n)]
      want_pad = tuple(padding)
    else:
      padding, want_pad = kind, kind.upper()
    kw["padding"] = padding
  cin = S.sint("input_channels", 1)
  if aspect == "groups":
    groups = S.sint("feature_group_count", 2)
    per, each = S.sint("channels per group", 1), S.sint("outputs per group", 1)
    cin, cout = per * groups, each * groups
    kw["feature_group_count"] = groups
    w_shape = kernel + (per, cout)
  else:
    w_shape = kernel + (cin, cout)
  space = L.dims(n, 1, "s")
  shape = (space + (cin,)) if last else (cin,) + space
  x = A.new("x", ((S.sint("batch", 1),) if batched else ()) + shape, S.sleaf("dtype"))
  bias = S.fork("with_bias") if aspect == "plain" else True
  kw["with_bias"] = bias
  mask = None
  if aspect == "mask":
    mask = kw["mask"] = A.new("mask", w_shape)
  made, bmade = None, None
  if aspect == "plain" and S.fork("own initializers"):
    made, bmade = [], []
    kw["w_init"], kw["b_init"] = own_init("w0", made), own_init("b0", bmade)
  def f():
    if named:
      m = getattr(cv, f"Conv{n}D")(cout, karg, data_format=fmt, name="conv", **kw)
    else:
      m = cv.ConvND(n, cout, karg, data_format=fmt, name="conv", **kw)
    return m(x)
  r = L.init_apply("ConvND", U, f)
  if r is None:
    return
  i, a = r
  p = weights("ConvND", i, a, "conv", w_shape, w_shape[:-1], cout, bias, last, n, x, made, bmade)
  if p is None:
    return
  w = p["w"] * mask if mask is not None else p["w"]
  xb = x if batched else A.expand_dims(x, 0)
  want = A.conv_general_dilated(xb, w, stride, want_pad, (1,) * n, rate, numbers(n, last), groups)
  if bias:
    want = want + p["b"]
  A.prove_arr("convolution with the given geometry, plus the bias of the channel", a.out, want if batched else A.squeeze(want, 0))


@contract(P, "ConvND rejects", ["haiku._src.conv.ConvND.__init__", "haiku._src.conv.ConvND.__call__",
                                "haiku._src.conv.ConvNDTranspose.__call__", "haiku._src.conv.ConvNDTranspose.__init__"])
def convnd_rejects(U):
  cv = U("conv")
  n = S.pick("spatial dims", [1, 2])
  kind = S.pick("kind", ["dims", "rank", "groups", "mask", "transposed dims", "transposed rank", "transposed mask", "output_shape"])
  rank = S.pick("rank", [n, n + 3]) if "rank" in kind else n + 2
  x = A.new("x", L.dims(rank))
  def f():
    if kind == "dims":
      return cv.ConvND(S.sint("dims", None) if False else S.pick("zero", [0, -1]), 3, 3)
    if kind == "transposed dims":
      return cv.ConvNDTranspose(S.pick("zero", [0, -1]), 3, 3)
    if kind == "rank":
      return cv.ConvND(n, S.sint("c", 1), 3)(x)
    if kind == "groups":
      g = S.sint("g", 2)
      ctx().assume(S.zint(x.shape[-1]) % S.zint(g) != 0)
      return cv.ConvND(n, S.sint("c", 1) * g, 3, feature_group_count=g)(x)
    if kind in ("mask", "transposed mask"):
      c, m = S.sint("c", 1), L.dims(n + 2, 1, "m")
      want = (3,) * n + ((x.shape[-1], c) if kind == "mask" else (c, x.shape[-1]))
      ctx().assume(z3.Or(*[S.zint(a) != S.zint(b) for a, b in zip(want, m)]))
      return (cv.ConvND if kind == "mask" else cv.ConvNDTranspose)(n, c, 3, mask=A.new("mask", m))(x)
    if kind == "transposed rank":
      return cv.ConvNDTranspose(n, S.sint("c", 1), 3)(x)
    return cv.ConvNDTranspose(n, S.sint("c", 1), 3, output_shape=S.sint("o", 1), padding=[(1, 1)] * n)
  S.must_raise(kind, L.Init(U, f).r, ValueError)


@contract(P, "ConvNDTranspose", ["haiku._src.conv.ConvNDTranspose.__init__", "haiku._src.conv.ConvNDTranspose.__call__",
                                 "haiku._src.conv.Conv1DTranspose.__init__", "haiku._src.conv.Conv2DTranspose.__init__",
                                 "haiku._src.conv.Conv3DTranspose.__init__", "haiku._src.conv.compute_adjusted_padding"], budget=300,
          note="1-3 spatial dimensions; sizes symbolic; jax.lax.conv_transpose assumed")
def convnd_transpose(U):
  cv = U("conv")
  n = S.pick("spatial dims", [1, 2, 3])
  fmt, last = S.pick("format", FORMATS[n])
  aspect = S.pick("aspect", ["kernel", "stride", "padding", "mask", "output_shape", "plain"])
  batched = S.fork("batched")
  named = S.fork("ConvnDTranspose class") if aspect != "kernel" else False
  cout, cin = S.sint("output_channels", 1), S.sint("input_channels", 1)
  kw, stride = {}, (1,) * n
  if aspect == "kernel":
    karg, kernel = sizes("kernel_shape", n)
  else:
    karg = kernel = L.dims(n, 1, "kernel")
  space = L.dims(n, 1, "s")
  if aspect in ("stride", "output_shape"):
    kw["stride"], stride = sizes("stride", n)
  padding = "SAME"
  if aspect == "padding":
    padding = kw["padding"] = S.pick("padding", ["SAME", "VALID", "pairs"])
    if padding == "pairs":
      padding = kw["padding"] = tuple((S.sint(f"lo{j}", 0), S.sint(f"hi{j}", 0)) for j in range(n))
  adjusted = None
  if aspect == "output_shape":
    adjusted = tuple((S.sint(f"before{j}", 0), S.sint(f"after{j}", 0)) for j in range(n))
    kw["output_shape"], target = sizes("output_shape", n)
    padding = kw["padding"] = S.pick("padding", ["SAME", "VALID"])
  calls = []
  def stub(i, o, k, s, p):
    j = len(calls) % n
    calls.append((i, o, k, s, p))
    return adjusted[j]
  w_shape = kernel + (cout, cin)
  shape = (space + (cin,)) if last else (cin,) + space
  x = A.new("x", ((S.sint("batch", 1),) if batched else ()) + shape, S.sleaf("dtype"))
  bias = S.fork("with_bias") if aspect == "plain" else True
  kw["with_bias"] = bias
  mask = None
  if aspect == "mask":
    mask = kw["mask"] = A.new("mask", w_shape)
  made, bmade = None, None
  if aspect == "plain" and S.fork("own initializers"):
    made, bmade = [], []
    kw["w_init"], kw["b_init"] = own_init("w0", made), own_init("b0", bmade)
  def f():
    if named:
      m = getattr(cv, f"Conv{n}DTranspose")(cout, karg, data_format=fmt, name="conv", **kw)
    else:
      m = cv.ConvNDTranspose(n, cout, karg, data_format=fmt, name="conv", **kw)
    return m(x)
  old = cv.compute_adjusted_padding
  if adjusted:
    cv.compute_adjusted_padding = stub      # verified on its own below
  try:
    r = L.init_apply("ConvNDTranspose", U, f)
  finally:
    cv.compute_adjusted_padding = old
  if r is None:
    return
  i, a = r
  if adjusted:
    S.prove("padding worked out per dimension", z3.BoolVal(len(calls) == 2 * n))
    for j, (ci, co, ck, cs, cp) in enumerate(calls[:n]):
      S.prove("padding from the sizes of the dimension", z3.And(
          S.eq(ci, space[j]), S.eq(co, target[j]), S.eq(ck, kernel[j]), S.eq(cs, stride[j]), z3.BoolVal(cp == padding)))
  p = weights("ConvNDTranspose", i, a, "conv", w_shape, kernel + (cin,), cout, bias, last, n, x, made, bmade)
  if p is None:
    return
  w = p["w"] * mask if mask is not None else p["w"]
  xb = x if batched else A.expand_dims(x, 0)
  want = A.conv_transpose(xb, w, stride, adjusted or padding, None, numbers(n, last, True))
  if bias:
    want = want + p["b"]
  A.prove_arr("transposed convolution with the given geometry, plus the bias of the channel", a.out,
              want if batched else A.squeeze(want, 0))


@contract(P, "DepthwiseConv2D", ["haiku._src.depthwise_conv.DepthwiseConv2D.__init__", "haiku._src.depthwise_conv.DepthwiseConv2D.__call__",
                                 "haiku._src.depthwise_conv.SeparableDepthwiseConv2D.__init__",
                                 "haiku._src.depthwise_conv.SeparableDepthwiseConv2D.__call__"],
          note="sizes symbolic; jax.lax.conv_general_dilated assumed")
def depthwise(U):
  dw = U("depthwise_conv")
  fmt, last = S.pick("format", FORMATS[2])
  separable = S.fork("separable")
  mult, cin = S.sint("channel_multiplier", 1), S.sint("input_channels", 1)
  aspect = S.pick("aspect", ["kernel", "stride", "padding", "plain", "init"])
  kw, stride, padding = {}, (1, 1), "SAME"
  karg, kernel = sizes("kernel_shape", 2) if aspect == "kernel" else (L.dims(2, 1, "kernel"),) * 2
  if aspect == "stride":
    kw["stride"], stride = sizes("stride", 2)
  if aspect == "padding":
    padding = kw["padding"] = S.pick("padding", ["VALID", "pairs"])
    if padding == "pairs":
      padding = kw["padding"] = tuple((S.sint(f"lo{j}", 0), S.sint(f"hi{j}", 0)) for j in range(2))
  bias = S.fork("with_bias") if aspect == "plain" else True
  kw["with_bias"] = bias
  made, bmade = None, None
  if aspect == "init":
    made, bmade = [], []
    kw["w_init"], kw["b_init"] = own_init("w0", made), own_init("b0", bmade)
  space = L.dims(2, 1, "s")
  x = A.new("x", (S.sint("batch", 1),) + ((space + (cin,)) if last else (cin,) + space), S.sleaf("dtype"))
  def f():
    c = dw.SeparableDepthwiseConv2D if separable else dw.DepthwiseConv2D
    return c(mult, karg, data_format=fmt, name="conv", **kw)(x)
  r = L.init_apply("DepthwiseConv2D", U, f)
  if r is None:
    return
  i, a = r
  dn = numbers(2, last)
  conv = lambda v, w, s, g: A.conv_general_dilated(v, w, s, padding, (1, 1), (1, 1), dn, g)
  if not separable:
    w_shape = tuple(kernel) + (1, mult * cin)
    p = weights("DepthwiseConv2D", i, a, "conv", w_shape, tuple(kernel) + (1,), mult * cin, bias, last, 2, x, made, bmade)
    if p is None:
      return
    want = conv(x, p["w"], stride, cin)
    A.prove_arr("each channel is convolved on its own, plus the bias of the channel", a.out, want + p["b"] if bias else want)
    return
  n1, n2 = "conv/~/depthwise_conv2_d", "conv/~/depthwise_conv2_d_1"
  if not L.same_names("parameter entries", i.params, [n1 + ":w", n2 + ":w"] + [n2 + ":b"] * bias):
    return
  A.prove_shape("first kernel", i.params[n1]["w"], (kernel[0], 1, 1, mult * cin))
  A.prove_shape("second kernel", i.params[n2]["w"], (1, kernel[1], 1, mult * cin))
  p0, p = i.params, a.params
  if made is not None:
    used("own w_init for the first kernel", p0[n1]["w"], made, 0, 2)
    used("own w_init for the second kernel", p0[n2]["w"], made, 1, 2)
  else:
    truncated("first kernel has stddev 1/sqrt(fan_in)", p0[n1]["w"], 1 / A.sqrt_term(A.rv(S.zint(kernel[0]))))
    truncated("second kernel has stddev 1/sqrt(fan_in)", p0[n2]["w"], 1 / A.sqrt_term(A.rv(S.zint(kernel[1]))))
  if bias:
    b_shape = (mult * cin,) if last else (mult * cin, 1, 1)
    if bmade is not None:
      used("own b_init", p0[n2]["b"], bmade, 0, 1)
      A.prove_shape("one bias per output channel", p0[n2]["b"], b_shape)
    else:
      A.prove_arr("b starts at zero, one per output channel", p0[n2]["b"], A.const(0.0, b_shape))
  want = conv(conv(x, p[n1]["w"], stride, cin), p[n2]["w"], (1, 1), mult * cin)
  A.prove_arr("column then row convolution per channel", a.out, want + p[n2]["b"] if bias else want)
