"""C24: ResNet and MobileNetV1 are the documented compositions of layers.

Modular: convolutions, batch normalisation, linear layers and pooling are proved in C13, C15, C16 and C19;
here they are arbitrary functions that record how they were made and what they were applied to."""
import inspect

import z3

from contracts import layers as L
from pyvc import arrays as A
from pyvc import containers as C
from pyvc import core
from pyvc import rt
from pyvc import spec as S
from pyvc.core import ctx
from pyvc.spec import contract

P = "C24"
CONV = dict(stride=1, rate=1, padding="SAME", with_bias=True, w_init=None, b_init=None, mask=None, feature_group_count=1)
PAIRS = ("kernel_shape", "stride", "rate")


def plain(v):
  """Lists made by the verified code as tuples."""
  if isinstance(v, C.EList):
    v = C.concrete_tuple(v)
  return tuple(map(plain, v)) if isinstance(v, (list, tuple)) else v


def pair(v):
  v = plain(v)
  return v if isinstance(v, tuple) and len(v) == 2 else v * 2 if isinstance(v, tuple) and len(v) == 1 else (v, v)


def same_value(a, b):
  a, b = plain(a), plain(b)
  if isinstance(b, tuple):
    return z3.And(*[same_value(x, y) for x, y in zip(a, b)]) if isinstance(a, tuple) and len(a) == len(b) else z3.BoolVal(False)
  if a is b:
    return z3.BoolVal(True)
  if a is None or b is None or callable(a) or callable(b):
    return z3.BoolVal(False)
  if isinstance(b, (str, bool)) or isinstance(a, (str, bool)):
    return z3.BoolVal(type(a) is type(b) and a == b)
  return S.eq(a, b)


class Layers:
  """Stands for the layers of a network file: real modules (so that they are named), arbitrary functions."""

  def __init__(self, U, net, shape):
    self.U, self.mod, self.calls, self.made = U, U("nets." + net), [], {}
    self.shape = shape                     # (config, input) -> output shape
    world = self

    def stub(kind, real):
      sig = inspect.signature(real.__init__)
      class Stub(U("module").Module):
        def __init__(self, *a, **k):
          b = sig.bind(None, *a, **k)
          b.apply_defaults()
          super().__init__(name=b.arguments.pop("name"))
          b.arguments.pop("self", None)
          world.made[self.module_name] = (kind, dict(b.arguments))
          self.config = dict(b.arguments)
        def __call__(self, *a, **k):
          return world.call(self.module_name, kind, self.config, a, k)
      Stub.__name__ = Stub.__qualname__ = real.__name__
      return Stub

    self.new = {}
    for name, file in (("Conv2D", "conv"), ("DepthwiseConv2D", "depthwise_conv"), ("BatchNorm", "batch_norm"), ("Linear", "basic")):
      if hasattr(self.mod.hk, name):
        self.new[name] = stub(name, getattr(U(file), name))
    if hasattr(self.mod.hk, "max_pool"):
      sig2 = inspect.signature(U("pool").max_pool)
      def max_pool(*a, **k):
        b = sig2.bind(*a, **k)
        b.apply_defaults()
        cfg = dict(b.arguments)
        v = cfg.pop("value")
        world.made["max_pool"] = ("max_pool", cfg)
        return world.call("max_pool", "max_pool", cfg, (v,), {})
      self.new["max_pool"] = max_pool

  def call(self, name, kind, cfg, a, k):
    if kind == "BatchNorm":
      b = inspect.signature(self.U("batch_norm").BatchNorm.__call__).bind(None, *a, **k)
      b.apply_defaults()
      x, rest = b.arguments["inputs"], dict(b.arguments)
    else:
      b = inspect.signature(lambda inputs, precision=None: 0).bind(*a, **k)
      x, rest = b.arguments["inputs"], {}
    out = A.new("out_of_" + name, self.shape(kind, cfg, x), x.dt)
    self.calls.append((name, x, rest, out))
    return out

  def __enter__(self):
    self.old = {k: getattr(self.mod.hk, k) for k in self.new}
    for k, v in self.new.items():
      setattr(self.mod.hk, k, v)
    return self

  def __exit__(self, *a):
    for k, v in self.old.items():
      setattr(self.mod.hk, k, v)


def check_config(name, made, kind, want, ignore=()):
  if made is None or made[0] != kind:
    return ctx().prove_false(name, f"not a {kind}")
  for k, v in want.items():
    got = made[1].get(k)
    ok = same_value(pair(got), pair(v)) if k in PAIRS else same_value(got, v)
    S.prove(f"{name}: {k}", ok)


def check_calls(net, w, want):
  """want: {layer: (input as a function of the outputs by layer, other arguments)}; each applied once."""
  got = sorted(c[0] for c in w.calls)
  if got != sorted(want):
    ctx().prove_false(net + ": each layer is applied once", f"{got}, expected {sorted(want)}")
    return None
  S.prove(net + ": each layer is applied once", z3.BoolVal(True))
  outs = {c[0]: c[3] for c in w.calls}
  for name, x, rest, _ in w.calls:
    inp, more = want[name]
    A.prove_arr(f"{net}: the input of {name}", x, inp(outs))
    for k, v in more.items():
      S.prove(f"{net}: {k} of {name}", same_value(rest.get(k), v))
  return outs


def conv_cfg(channels, kernel, stride, **more):
  return dict(CONV, output_channels=channels, kernel_shape=kernel, stride=stride, data_format="NHWC", **more)


def flags():
  return S.sleaf("is_training"), S.sleaf("test_local_stats")


def feature_map(name="x"):
  return A.new(name, L.dims(4, 1, name), S.sleaf("dtype"))


# ------------------------------------------------------------------------- ResNet


def bn_params(v2):
  """(the bn_config given, the configuration every BatchNorm then has)."""
  given = {"decay_rate": S.sreal("decay_rate")}
  kind = S.pick("bn_config", ["decay only", "full"])
  if kind == "full":
    given.update(eps=S.sreal("eps"), create_scale=False, create_offset=False)
  want = dict({"eps": 1e-5, "create_scale": True, "create_offset": True, "scale_init": None, "offset_init": None, "axis": None,
               "cross_replica_axis": None, "cross_replica_axis_index_groups": None, "data_format": "channels_last"}, **given)
  return given, want


def block(v2, U):
  bottleneck, proj = S.fork("bottleneck"), S.fork("use_projection")
  stride = S.pick("stride", [1, 2, (S.sint("s0", 1), S.sint("s1", 1))]) if proj else 1
  given, bn = bn_params(v2)
  if bottleneck and given.get("create_scale") is False and not v2:
    given.pop("create_scale"), bn.update(create_scale=True)     # scale_init of batchnorm_2 needs a scale
  q = S.sint("quarter", 1)
  channels = 4 * q if bottleneck else q
  x = feature_map()
  if not proj:
    x = A.new("x", x.shp[:3] + (channels,), x.dt)
  small = (S.sint("H2", 1), S.sint("W2", 1))
  def shape(kind, cfg, v):
    if kind == "BatchNorm":
      return v.shp
    sp = v.shp[1:3] if plain(cfg["stride"]) in (1, (1, 1)) else small
    return (v.shp[0],) + tuple(sp) + (cfg["output_channels"],)
  training, local = flags()
  w = Layers(U, "resnet", shape)
  cls = "BlockV2" if v2 else "BlockV1"
  given = dict(given)
  before = dict(given)
  with w:
    r = L.Init(U, lambda: getattr(w.mod, cls)(channels, stride, proj, given, bottleneck, name="block")(x, training, local))
  if not S.no_raise(cls, r.r):
    return
  S.prove("bn_config is not modified", z3.BoolVal(list(given) == list(before)))
  n = 3 if bottleneck else 2
  inner = "block/~/"
  for k in range(n):
    last = k == n - 1
    ch = channels if last or not bottleneck else q
    kernel = (3 if k == 1 else 1) if bottleneck else 3
    s = stride if k == (1 if bottleneck else 0) else 1
    check_config(f"conv_{k}", w.made.get(f"{inner}conv_{k}"), "Conv2D", dict(conv_cfg(ch, kernel, s), with_bias=False))
    cfg = dict(bn)
    if k == 2 and not v2:
      cfg["scale_init"] = w.mod.jnp.zeros
    check_config(f"batchnorm_{k}", w.made.get(f"{inner}batchnorm_{k}"), "BatchNorm", cfg)
  if proj:
    check_config("shortcut_conv", w.made.get(inner + "shortcut_conv"), "Conv2D", dict(conv_cfg(channels, 1, stride), with_bias=False))
    if not v2:
      check_config("shortcut_batchnorm", w.made.get(inner + "shortcut_batchnorm"), "BatchNorm", bn)
  fl = {"is_training": training, "test_local_stats": local, "scale": None, "offset": None}
  relu = A.relu
  want = {}
  if v2:
    for k in range(n):
      want[f"{inner}batchnorm_{k}"] = ((lambda o, k=k: o[f"{inner}conv_{k-1}"] if k else x), fl)
      want[f"{inner}conv_{k}"] = ((lambda o, k=k: relu(o[f"{inner}batchnorm_{k}"])), {})
    if proj:
      want[inner + "shortcut_conv"] = ((lambda o: relu(o[inner + "batchnorm_0"])), {})
    out = lambda o: o[f"{inner}conv_{n-1}"] + (o[inner + "shortcut_conv"] if proj else x)
  else:
    for k in range(n):
      want[f"{inner}conv_{k}"] = ((lambda o, k=k: relu(o[f"{inner}batchnorm_{k-1}"]) if k else x), {})
      want[f"{inner}batchnorm_{k}"] = ((lambda o, k=k: o[f"{inner}conv_{k}"]), fl)
    if proj:
      want[inner + "shortcut_conv"] = ((lambda o: x), {})
      want[inner + "shortcut_batchnorm"] = ((lambda o: o[inner + "shortcut_conv"]), fl)
    out = lambda o: relu(o[f"{inner}batchnorm_{n-1}"] + (o[inner + "shortcut_batchnorm"] if proj else x))
  o = check_calls(cls, w, want)
  if o is not None:
    A.prove_arr(cls + ": the residual sum", r.out, out(o))


for _v in (False, True):
  _c = "BlockV2" if _v else "BlockV1"
  contract(P, _c, [f"haiku._src.nets.resnet.{_c}.__init__", f"haiku._src.nets.resnet.{_c}.__call__"], budget=120,
           note="layers are arbitrary functions (modular)")((lambda v: lambda U: block(v, U))(_v))


class Blocks:
  """Stands for a class of sub-networks: records what is made and applied."""

  def __init__(self, U, mod, attr, nonneg=False):
    """nonneg: the contract of the class says that its results have passed through relu."""
    self.mod, self.attr, self.made, self.calls = mod, attr, [], []
    world, real = self, getattr(mod, attr)
    sig = inspect.signature(real.__init__)
    csig = inspect.signature(real.__call__)
    class Stub(U("module").Module):
      def __init__(self, *a, **k):
        b = sig.bind(None, *a, **k)
        b.apply_defaults()
        name = b.arguments.pop("name")
        super().__init__(name=name)
        b.arguments.pop("self", None)
        self.k = len(world.made)
        world.made.append((self.module_name, {q: v if q != "bn_config" else dict(L.items(v)) for q, v in b.arguments.items()}))
      def __call__(self, *a, **k):
        b = csig.bind(None, *a, **k)
        b.apply_defaults()
        rest = dict(b.arguments)
        rest.pop("self", None)
        x = rest.pop("inputs")
        out = A.new(f"out_of_{self.k}", x.shp, x.dt)
        out = A.relu(out) if nonneg else out
        world.calls.append((self.k, x, rest, out))
        return out
    Stub.__name__ = Stub.__qualname__ = attr
    self.stub = Stub

  def __enter__(self):
    real = getattr(self.mod, self.attr)
    # Wherever the file refers to the class: by its name or as an attribute of another class.
    self.old = [(o, k) for o in [self.mod] + [v for v in vars(self.mod).values() if isinstance(v, type)]
                for k, v in list(vars(o).items()) if v is real]
    self.real = real
    for o, k in self.old:
      setattr(o, k, self.stub)
    return self

  def __exit__(self, *a):
    for o, k in self.old:
      setattr(o, k, self.real)

  def chain(self, net, x, more):
    """Each made block is applied once, in the order they are named, to the output of the one before."""
    ok = [c[0] for c in self.calls] == list(range(len(self.made)))
    S.prove(net + ": the blocks are applied once each, in order", z3.BoolVal(ok))
    if not ok:
      return None
    for k, v, rest, out in self.calls:
      A.prove_arr(f"{net}: block {k} continues from the one before", v, x)
      for q, u in more.items():
        S.prove(f"{net}: {q}", same_value(rest.get(q), u))
      x = out
    return x


@contract(P, "BlockGroup", ["haiku._src.nets.resnet.BlockGroup.__init__", "haiku._src.nets.resnet.BlockGroup.__call__"],
          note="bounded: 1-4 blocks; everything else arbitrary")
def group(U):
  mod = U("nets.resnet")
  v2 = S.fork("resnet_v2")
  n = S.pick("num_blocks", [1, 2, 4])
  ch, stride = S.sint("channels", 1), S.pick("stride", [1, 2, (S.sint("s0", 1), S.sint("s1", 1))])
  bottleneck, proj = S.fork("bottleneck"), S.fork("use_projection")
  bn = {"decay_rate": S.sreal("decay_rate"), "eps": S.sreal("eps")}
  x = feature_map()
  training, local = flags()
  with Blocks(U, mod, "BlockV2" if v2 else "BlockV1", not v2) as b:
    r = L.Init(U, lambda: mod.BlockGroup(ch, n, stride, bn, v2, bottleneck, proj, name="group")(x, training, local))
  if not S.no_raise("BlockGroup", r.r):
    return
  S.prove("as many blocks as asked for", z3.BoolVal([m[0] for m in b.made] == [f"group/~/block_{k}" for k in range(n)]))
  if len(b.made) != n:
    return
  for k, (_, cfg) in enumerate(b.made):
    check_config(f"block {k}", ("b", cfg), "b", {"channels": ch, "stride": stride if k == 0 else 1, "bottleneck": bottleneck,
                                                 "use_projection": proj and k == 0})
    for q, v in bn.items():
      S.prove(f"block {k}: bn_config", same_value(cfg["bn_config"].get(q), v))
  out = b.chain("BlockGroup", x, {"is_training": training, "test_local_stats": local})
  if out is not None:
    A.prove_arr("BlockGroup: the result is that of the last block", r.out, out)


FOUR = dict(blocks=(3, 4, 6, 3), wide=(256, 512, 1024, 2048), narrow=(64, 128, 256, 512))
DEPTHS = {18: ((2, 2, 2, 2), False), 34: ((3, 4, 6, 3), False), 50: ((3, 4, 6, 3), True), 101: ((3, 4, 23, 3), True),
          152: ((3, 8, 36, 3), True), 200: ((3, 24, 36, 3), True)}


@contract(P, "ResNet", ["haiku._src.nets.resnet.ResNet.__init__", "haiku._src.nets.resnet.ResNet.__call__"] +
          [f"haiku._src.nets.resnet.ResNet{d}.__init__" for d in DEPTHS], budget=200, note="block groups and layers are arbitrary functions (modular)")
def resnet(U):
  depth = S.pick("network", ["general"] + list(DEPTHS))
  v2 = S.fork("resnet_v2")
  classes = S.sint("num_classes", 1)
  mod = U("nets.resnet")
  kw = {"resnet_v2": v2, "name": "net"}
  aspect = S.pick("configured", ["defaults", "bn_config", "logits_config"])
  bn = {"decay_rate": 0.9, "eps": 1e-5, "create_scale": True, "create_offset": True}
  logits = dict(with_bias=True, w_init=mod.jnp.zeros, b_init=None)
  lname = "net/~/logits"
  given = {}
  if aspect == "bn_config":
    given = {"decay_rate": S.sreal("decay_rate"), "create_offset": False} if S.fork("decay") else {"eps": S.sreal("eps"), "create_scale": False}
    bn.update(given)
    kw["bn_config"] = given
  if aspect == "logits_config":
    own = S.SFun("w_init")
    given = {"with_bias": False}
    logits = dict(with_bias=False, w_init=mod.jnp.zeros, b_init=None)
    if S.fork("w_init"):
      given["w_init"] = logits["w_init"] = own
    else:
      given["name"] = "head"
      lname = "net/~/head"
    kw["logits_config"] = given
  before = dict(given)
  if depth == "general":
    blocks, chans = tuple(S.sint(f"blocks{k}", 1) for k in range(4)), tuple(S.sint(f"channels{k}", 1) for k in range(4))
    bottleneck = S.fork("bottleneck")
    projs = S.pick("use_projection", [(True, False, True, False), (False, True, True, True)])
    make = lambda: mod.ResNet(blocks, classes, bottleneck=bottleneck, channels_per_group=chans, use_projection=projs, **kw)
  else:
    blocks, bottleneck = DEPTHS[depth]
    chans = FOUR["wide"] if bottleneck else FOUR["narrow"]
    projs = (bottleneck, True, True, True)
    make = lambda: getattr(mod, f"ResNet{depth}")(classes, **kw)
  x = feature_map()
  training, local = flags()
  with_local = S.fork("test_local_stats given")
  def shape(kind, cfg, v):
    if kind == "BatchNorm":
      return v.shp
    if kind == "Linear":
      return v.shp[:-1] + (cfg["output_size"],)
    if kind == "max_pool":
      return (v.shp[0], S.sint("pooled_h", 1), S.sint("pooled_w", 1), v.shp[3])
    return (v.shp[0], S.sint("conv_h", 1), S.sint("conv_w", 1), cfg["output_channels"])
  w = Layers(U, "resnet", shape)
  with w, Blocks(U, mod, "BlockGroup", not v2) as b:
    r = L.Init(U, lambda: make()(x, training, local) if with_local else make()(x, is_training=training))
  if not S.no_raise("ResNet", r.r):
    return
  if not with_local:
    local = False
  S.prove("the given configurations are not modified", z3.BoolVal(list(given) == list(before)))
  check_config("initial_conv", w.made.get("net/~/initial_conv"), "Conv2D", dict(conv_cfg(64, 7, 2), with_bias=False))
  bname = "net/~/final_batchnorm" if v2 else "net/~/initial_batchnorm"
  check_config("batchnorm", w.made.get(bname), "BatchNorm",
               dict({"scale_init": None, "offset_init": None, "axis": None, "cross_replica_axis": None,
                     "data_format": "channels_last"}, **bn))
  check_config("logits", w.made.get(lname), "Linear", dict(logits, output_size=classes))
  mp = w.made.get("max_pool")
  if mp is None:
    return ctx().prove_false("max_pool", "not used")
  S.prove("max_pool", z3.And(same_value(mp[1]["window_shape"], (1, 3, 3, 1)), same_value(mp[1]["strides"], (1, 2, 2, 1)),
                             same_value(mp[1]["padding"], "SAME")))
  S.prove("four block groups", z3.BoolVal([m[0] for m in b.made] == [f"net/~/block_group_{k}" for k in range(4)]))
  if len(b.made) != 4:
    return
  for k, (_, cfg) in enumerate(b.made):
    check_config(f"group {k}", ("b", cfg), "b", {"channels": chans[k], "num_blocks": blocks[k], "stride": 1 if k == 0 else 2,
                                                 "resnet_v2": v2, "bottleneck": bottleneck, "use_projection": projs[k]})
    for q, v in bn.items():
      S.prove(f"group {k}: bn_config", same_value(cfg["bn_config"].get(q), v))
  fl = {"is_training": training, "test_local_stats": local, "scale": None, "offset": None}
  relu = A.relu
  if not w.calls or not b.calls:
    return ctx().prove_false("layers", "not applied")
  first, last = b.calls[0][1], b.calls[-1][3]
  want = {"net/~/initial_conv": (lambda o: x, {})}
  if v2:
    want["max_pool"] = (lambda o: o["net/~/initial_conv"], {})
    want[bname] = (lambda o: last, fl)
    feats = lambda o: relu(o[bname])
  else:
    want[bname] = (lambda o: o["net/~/initial_conv"], fl)
    want["max_pool"] = (lambda o: relu(o[bname]), {})
    feats = lambda o: last
  want[lname] = (lambda o: A.mean(feats(o), (1, 2)), {})
  o = check_calls("ResNet", w, want)
  if o is None:
    return
  b.chain("ResNet", o["max_pool"], {"is_training": training, "test_local_stats": local})
  A.prove_arr("ResNet: the result is that of the logits layer", r.out, o[lname])


@contract(P, "ResNet rejects", ["haiku._src.nets.resnet.ResNet.__init__", "haiku._src.nets.resnet.check_length"])
def rejects(U):
  mod = U("nets.resnet")
  n = S.pick("length", [0, 3, 5])
  kw = {"blocks_per_group": (1,) * n} if S.fork("blocks") else {"blocks_per_group": (1,) * 4, "channels_per_group": (8,) * n}
  with Layers(U, "resnet", lambda kind, cfg, v: v.shp), Blocks(U, mod, "BlockGroup"):
    S.must_raise("wrong number of groups", L.Init(U, lambda: mod.ResNet(num_classes=10, **kw)).r, ValueError)


# ---------------------------------------------------------------------- MobileNet


def mobile_shape(kind, cfg, v):
  if kind == "BatchNorm":
    return v.shp
  if kind == "Linear":
    return v.shp[:-1] + (cfg["output_size"],)
  if kind == "DepthwiseConv2D":
    return (v.shp[0], S.sint("dw_h", 1), S.sint("dw_w", 1), v.shp[3])
  return (v.shp[0],) + tuple((S.sint("cv_h", 1), S.sint("cv_w", 1))) + (cfg["output_channels"],)


BN999 = {"create_scale": True, "create_offset": True, "decay_rate": 0.999, "eps": 1e-5, "scale_init": None, "offset_init": None,
         "axis": None, "cross_replica_axis": None, "data_format": "channels_last"}


@contract(P, "MobileNetV1Block", ["haiku._src.nets.mobilenetv1.MobileNetV1Block.__init__",
                                  "haiku._src.nets.mobilenetv1.MobileNetV1Block.__call__"])
def mobile_block(U):
  mod = U("nets.mobilenetv1")
  bn, ch, stride = S.fork("use_bn"), S.sint("channels", 1), S.sint("stride", 1)
  x, training = feature_map(), S.sleaf("is_training")
  w = Layers(U, "mobilenetv1", mobile_shape)
  with w:
    r = L.Init(U, lambda: mod.MobileNetV1Block(ch, stride, bn, name="block")(x, training))
  if not S.no_raise("MobileNetV1Block", r.r):
    return
  d, p, b1, b2 = ["block/" + s for s in ("depthwise_conv", "pointwise_conv", "batch_norm", "batch_norm_1")]
  check_config("depthwise_conv", w.made.get(d), "DepthwiseConv2D",
               {"channel_multiplier": 1, "kernel_shape": 3, "stride": stride, "padding": ((1, 1), (1, 1)), "with_bias": not bn,
                "w_init": None, "b_init": None, "data_format": "NHWC"})
  check_config("pointwise_conv", w.made.get(p), "Conv2D", dict(conv_cfg(ch, 1, 1), padding="VALID", with_bias=not bn))
  fl = {"is_training": training, "test_local_stats": False, "scale": None, "offset": None}
  want = {d: (lambda o: x, {})}
  relu = A.relu
  if bn:
    for b in (b1, b2):
      check_config("batch_norm", w.made.get(b), "BatchNorm", BN999)
    want[b1] = (lambda o: o[d], fl)
    want[b2] = (lambda o: o[p], fl)
  want[p] = (lambda o: relu(o[b1] if bn else o[d]), {})
  o = check_calls("MobileNetV1Block", w, want)
  if o is not None:
    A.prove_arr("the result", r.out, relu(o[b2] if bn else o[p]))


@contract(P, "MobileNetV1", ["haiku._src.nets.mobilenetv1.MobileNetV1.__init__", "haiku._src.nets.mobilenetv1.MobileNetV1.__call__"],
          note="bounded: 0-3 blocks, and the default 13")
def mobile(U):
  mod = U("nets.mobilenetv1")
  bn, classes = S.fork("use_bn"), S.sint("num_classes", 1)
  n = S.pick("blocks", ["default", 0, 1, 3])
  if n == "default":
    strides = (1, 2, 1, 2, 1, 2, 1, 1, 1, 1, 1, 2, 1)
    channels = (64, 128, 128, 256, 256, 512, 512, 512, 512, 512, 512, 1024, 1024)
    kw = {}
  else:
    strides, channels = L.dims(n, 1, "stride"), L.dims(n, 1, "channel")
    kw = {"strides": strides, "channels": channels}
  x, training = feature_map(), S.sleaf("is_training")
  w = Layers(U, "mobilenetv1", mobile_shape)
  with w, Blocks(U, mod, "MobileNetV1Block", True) as b:
    r = L.Init(U, lambda: mod.MobileNetV1(num_classes=classes, use_bn=bn, name="net", **kw)(x, training))
  if not S.no_raise("MobileNetV1", r.r):
    return
  c, nb, lg = "net/conv2_d", "net/batch_norm", "net/logits"
  check_config("initial conv", w.made.get(c), "Conv2D", dict(conv_cfg(32, 3, 2), padding="VALID", with_bias=not bn))
  check_config("logits", w.made.get(lg), "Linear", {"output_size": classes, "with_bias": True, "w_init": None, "b_init": None})
  names = ["net/mobile_net_v1_block" + (f"_{k}" if k else "") for k in range(len(strides))]
  S.prove("one block per stride", z3.BoolVal([m[0] for m in b.made] == names))
  if len(b.made) != len(strides):
    return
  for k, (_, cfg) in enumerate(b.made):
    check_config(f"block {k}", ("b", cfg), "b", {"channels": channels[k], "stride": strides[k], "use_bn": bn})
  fl = {"is_training": training, "test_local_stats": False, "scale": None, "offset": None}
  relu = A.relu
  want = {c: (lambda o: x, {})}
  if bn:
    check_config("batch_norm", w.made.get(nb), "BatchNorm", BN999)
    want[nb] = (lambda o: o[c], fl)
  outs = {k[0]: k[3] for k in w.calls}
  if (nb if bn else c) not in outs:
    return ctx().prove_false("the first layers", "not applied")
  feats = b.chain("MobileNetV1", relu(outs[nb if bn else c]), {"is_training": training})
  if feats is None:
    return
  want[lg] = (lambda o: A.mean(feats, (1, 2)), {})
  o = check_calls("MobileNetV1", w, want)
  if o is not None:
    A.prove_arr("the result is that of the logits layer", r.out, o[lg])


@contract(P, "MobileNetV1 rejects", ["haiku._src.nets.mobilenetv1.MobileNetV1.__init__"])
def mobile_rejects(U):
  mod = U("nets.mobilenetv1")
  n, m = S.pick("lengths", [(0, 1), (2, 1), (2, 3)])
  S.must_raise("strides and channels of different lengths",
               L.Init(U, lambda: mod.MobileNetV1(strides=(1,) * n, channels=(8,) * m)).r, ValueError)
