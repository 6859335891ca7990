"""C24: ResNet and MobileNetV1 against references written with jax.lax and numpy."""
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from concrete.laws import law, raises


def conv(x, w, stride, padding, groups=1):
  return jax.lax.conv_general_dilated(x, w, stride, padding, dimension_numbers=("NHWC", "HWIO", "NHWC"), feature_group_count=groups)


class Ref:
  """Applies named layers from the parameters and state; `mode` is train, local or test."""

  def __init__(self, params, state, mode, eps=1e-5, decay=0.9):
    self.p, self.s, self.mode, self.eps, self.decay, self.used, self.new = params, state, mode, eps, decay, set(), {}

  def conv(self, name, x, stride, padding="SAME", groups=1):
    self.used.add(name)
    p = self.p[name]
    y = conv(x, p["w"], (stride,) * 2 if isinstance(stride, int) else stride, padding, groups)
    return y + p["b"] if "b" in p else y

  def bn(self, name, x, decay=None):
    self.used.add(name)
    m, v = name + "/~/mean_ema", name + "/~/var_ema"
    if self.mode == "test":
      mean, var = self.s[m]["average"], self.s[v]["average"]
    else:
      mean = x.mean((0, 1, 2), keepdims=True)
      var = (x ** 2).mean((0, 1, 2), keepdims=True) - mean ** 2
    if self.mode == "train":
      d = self.decay if decay is None else decay
      for k, val in ((m, mean), (v, var)):
        c = int(self.s[k]["counter"]) + 1
        h = np.asarray(self.s[k]["hidden"]) * d + np.asarray(val) * (1 - d)
        self.new[k] = (c, h, h / (1 - d ** c))
    p = self.p.get(name, {})
    return (x - mean) / np.sqrt(var + self.eps) * p.get("scale", 1.) + p.get("offset", 0.)

  def linear(self, name, x):
    self.used.add(name)
    return x @ self.p[name]["w"] + self.p[name].get("b", 0.)


relu = lambda x: jnp.maximum(x, 0)


def perturbed(params, state, g):
  r = np.random.RandomState(g.int(0, 10 ** 6))
  params = jax.tree_util.tree_map(lambda v: jnp.asarray(r.normal(size=v.shape) * .3 + .1, v.dtype), params)
  size = g.pick([1., 1e-4])      # small variances make eps visible
  def st(m, d):
    return {k: jnp.asarray(3, v.dtype) if k == "counter" else jnp.asarray((np.abs(r.normal(size=v.shape)) + .2) * size, v.dtype)
            for k, v in d.items()}
  return params, {m: st(m, d) for m, d in state.items()}


def close(a, b, what):
  a, b = np.asarray(a), np.asarray(b)
  assert a.shape == b.shape, f"{what}: {a.shape} but {b.shape}"
  assert np.allclose(a, b, rtol=2e-3, atol=2e-3 * max(1., np.abs(b).max())), f"{what}: {np.abs(a - b).max()}"


def check_state(new, ref, old):
  for k, d in new.items():
    if ref.mode == "train":
      c, h, avg = ref.new[k]
      assert int(d["counter"]) == c, k
      close(d["hidden"], h, k)
      close(d["average"], avg, k)
    else:
      for q in d:
        assert (np.asarray(d[q]) == np.asarray(old[k][q])).all(), f"state {k} changed outside training"


MODES = {"train": dict(is_training=True), "local": dict(is_training=False, test_local_stats=True), "test": dict(is_training=False)}


@law("C24", quick=6, thorough=80, bound="groups of 1-2 blocks, at most 16 channels, 16x16 inputs")
def resnet(g):
  v2, bottleneck = g.bool(), g.bool()
  blocks = g.ints(4, 1, 2)
  chans = [4 * c for c in g.ints(4, 1, 4)]
  proj = [True] * 4
  if not v2 and g.bool():
    chans[0] = 64
    proj[0] = False
  if v2 and g.bool():
    chans[0], proj[0] = 64, False
  decay, eps = g.pick([0.9, 0.5]), g.pick([1e-5, 0.1])
  kw = {} if decay == 0.9 and eps == 1e-5 else {"bn_config": {"decay_rate": decay, "eps": eps}}
  mode = g.pick(list(MODES))
  g.note((v2, bottleneck, blocks, chans, proj, kw, mode))
  f = lambda x, **k: hk.nets.ResNet(blocks, 5, resnet_v2=v2, bottleneck=bottleneck, channels_per_group=chans,
                                    use_projection=proj, name="net", **kw)(x, **k)
  t = hk.without_apply_rng(hk.transform_with_state(f))
  x = g.array((2, 16, 16, 3))
  p0, s0 = t.init(jax.random.PRNGKey(0), x, is_training=True)
  assert not np.asarray(p0["net/~/logits"]["w"]).any(), "logits start at zero"
  p, s = perturbed(p0, s0, g)
  y, s1 = t.apply(p, s, x, **MODES[mode])
  r = Ref(p, s, mode, eps, decay)
  n = "net/~/"
  h = r.conv(n + "initial_conv", x, 2)
  if not v2:
    h = relu(r.bn(n + "initial_batchnorm", h))
  h = jax.lax.reduce_window(h, -jnp.inf, jax.lax.max, (1, 3, 3, 1), (1, 2, 2, 1), "SAME")
  for gi in range(4):
    for b in range(blocks[gi]):
      m = f"net/~/block_group_{gi}/~/block_{b}/~/"
      st = (1 if gi == 0 else 2) if b == 0 else 1
      pr = proj[gi] and b == 0
      convs = [(chans[gi] // 4, 1, 1), (chans[gi] // 4, 3, st), (chans[gi], 1, 1)] if bottleneck else [(chans[gi], 3, st), (chans[gi], 3, 1)]
      for k, (c, ks, _) in enumerate(convs):
        w = p[m + f"conv_{k}"]["w"]
        assert w.shape[:2] == (ks, ks) and w.shape[3] == c, (m, k, w.shape)
        if k == 2 and not v2:
          assert not np.asarray(p0[m + f"batchnorm_{k}"]["scale"]).any(), "the last scale starts at zero"
        else:
          assert (np.asarray(p0[m + f"batchnorm_{k}"]["scale"]) == 1).all()
      short = h
      if not v2:
        if pr:
          short = r.bn(m + "shortcut_batchnorm", r.conv(m + "shortcut_conv", h, st))
        for k, (_, _, sk) in enumerate(convs):
          h = r.bn(m + f"batchnorm_{k}", r.conv(m + f"conv_{k}", h, sk))
          h = relu(h) if k < len(convs) - 1 else h
        h = relu(h + short)
      else:
        for k, (_, _, sk) in enumerate(convs):
          h = relu(r.bn(m + f"batchnorm_{k}", h))
          if k == 0 and pr:
            short = r.conv(m + "shortcut_conv", h, st)
          h = r.conv(m + f"conv_{k}", h, sk)
        h = h + short
  if v2:
    h = relu(r.bn(n + "final_batchnorm", h))
  close(y, r.linear(n + "logits", h.mean((1, 2))), "output")
  assert r.used == set(p), sorted(r.used ^ set(p))
  check_state(s1, r, s)


# The numbers of weights of the published networks (1000 classes).
SIZES = {18: 11689512, 34: 21797672, 50: 25557032, 101: 44549160, 152: 60192808, 200: 64673832}


@law("C24", quick=3, thorough=24)
def published_sizes(g):
  """ResNet18 to 200 have the published number of parameters; configurations pass through"""
  d = g.pick([18, 34, 50, 50, 101])
  x = jax.ShapeDtypeStruct((1, 224, 224, 3), jnp.float32)
  f = hk.transform_with_state(lambda x: getattr(hk.nets, f"ResNet{d}")(1000)(x, True))
  p, s = jax.eval_shape(f.init, jax.random.PRNGKey(0), x)
  # Every projection is by convolution without bias; the last group halves three times.
  n = sum(int(np.prod(v.shape)) for m in p.values() for v in m.values())
  assert n == SIZES[d], n
  f2 = hk.transform_with_state(lambda x: getattr(hk.nets, f"ResNet{d}")(
      10, bn_config={"create_offset": False, "decay_rate": 0.5}, resnet_v2=True, logits_config={"name": "head", "with_bias": False}, name="n")(x, True))
  p, s = jax.eval_shape(f2.init, jax.random.PRNGKey(0), x)
  assert set(p["n/~/head"]) == {"w"} and p["n/~/head"]["w"].shape[1] == 10
  assert "n/~/final_batchnorm" in p and "n/~/initial_batchnorm" not in p
  assert all(set(v) == {"scale"} for k, v in p.items() if "batchnorm" in k)


@law("C24", quick=8, thorough=80, bound="0-3 blocks, at most 8 channels")
def mobilenet(g):
  n, use_bn, mode = g.int(0, 3), g.bool(), g.pick(["train", "test"])
  strides, chans = g.ints(n, 1, 2), g.ints(n, 1, 8)
  f = lambda x, t: hk.nets.MobileNetV1(strides, chans, 4, use_bn, name="net")(x, t)
  t = hk.without_apply_rng(hk.transform_with_state(f))
  x = g.array((2, 15, 17, 3))
  p0, s0 = t.init(jax.random.PRNGKey(0), x, True)
  p, s = perturbed(p0, s0, g)
  y, s1 = t.apply(p, s, x, mode == "train")
  r = Ref(p, s, mode, decay=0.999)
  bn = (lambda k, v: r.bn(k, v)) if use_bn else (lambda k, v: v)
  h = relu(bn("net/batch_norm", r.conv("net/conv2_d", x, 2, "VALID")))
  assert p["net/conv2_d"]["w"].shape == (3, 3, 3, 32)
  for k in range(n):
    m = "net/mobile_net_v1_block" + (f"_{k}" if k else "")
    c = h.shape[-1]
    h = r.conv(m + "/depthwise_conv", h, strides[k], ((1, 1), (1, 1)), c)
    h = relu(bn(m + "/batch_norm", h))
    h = relu(bn(m + "/batch_norm_1", r.conv(m + "/pointwise_conv", h, 1, "VALID")))
    assert h.shape[-1] == chans[k]
  close(y, r.linear("net/logits", h.mean((1, 2))), "output")
  assert r.used == set(p), sorted(r.used ^ set(p))
  assert all(("b" in v) == (not use_bn) for k, v in p.items() if "conv" in k.rsplit("/", 1)[-1])
  check_state(s1, r, s)
  for a, b in ((n + 1, n), (n, n + 2)):
    raises(ValueError, hk.transform_with_state(lambda: hk.nets.MobileNetV1((1,) * a, (2,) * b)).init, None)


@law("C24", quick=2, thorough=4)
def mobilenet_default(g):
  """the default MobileNetV1 has the published number of parameters"""
  f = hk.transform_with_state(lambda x: hk.nets.MobileNetV1()(x, True))
  p, _ = jax.eval_shape(f.init, jax.random.PRNGKey(0), jax.ShapeDtypeStruct((1, 224, 224, 3), jnp.float32))
  n = sum(int(np.prod(v.shape)) for m in p.values() for v in m.values())
  assert n == 4231976, n


@law("C24", quick=4, thorough=8)
def rejects(g):
  n = g.pick([0, 3, 5])
  raises(ValueError, hk.transform(lambda: hk.nets.ResNet((1,) * n, 10)).init, jax.random.PRNGKey(0))
  raises(ValueError, hk.transform(lambda: hk.nets.ResNet((1,) * 4, 10, channels_per_group=(8,) * n)).init, jax.random.PRNGKey(0))
