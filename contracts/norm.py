"""C16, C17: statistics and normalisation."""
import z3

from contracts import layers as L
from pyvc import arrays as A
from pyvc import spec as S
from pyvc.core import ctx
from pyvc.spec import contract


def ema_ref(hidden, value, decay, debias, counter):
  h = hidden * decay + value * (1 - decay)
  return h, (h / (1 - A.power(decay, counter)) if debias else h)


@contract("C16", "ExponentialMovingAverage", ["haiku._src.moving_averages.ExponentialMovingAverage.__init__",
                                              "haiku._src.moving_averages.ExponentialMovingAverage.__call__",
                                              "haiku._src.moving_averages.ExponentialMovingAverage.average"],
          note="ranks 0-3, symbolic sizes, symbolic decay and counter")
def ema(U):
  rank = S.pick("rank", [0, 1, 2, 3])
  x = A.new("value", L.dims(rank))
  decay = S.sreal("decay")
  warm = S.sint("warmup", 0)
  debias = S.fork("debias")
  update = S.fork("update_stats")
  E = U("moving_averages").ExponentialMovingAverage
  r = S.outcome(lambda: L.Init(U, lambda: E(decay, debias, warm)))
  def f():
    return E(decay, debias, warm)(x, update)
  i = L.Init(U, f)
  if not i.ok:
    S.prove("rejects only warmup with debiasing", z3.And(z3.BoolVal(debias), warm.t > 0))
    S.prove("ValueError", z3.BoolVal(isinstance(i.r.exc, ValueError)))
    return
  S.prove("accepts", z3.Not(z3.And(z3.BoolVal(debias), warm.t > 0)))
  m = "exponential_moving_average"
  want = [m + ":counter", m + ":hidden"] + ([m + ":average"] if update else [])
  if not L.same_names("state entries", i.state, want):
    return
  A.prove_arr("counter starts at -warmup", i.state[m]["counter"], A.const(0 - warm))
  A.prove_arr("hidden starts at zero", i.state[m]["hidden"], A.const(0.0, x.shape))
  st = L.fresh_like(i.state)
  st[m].setdefault("average", A.new("average", x.shape))
  a = L.Apply(U, f, {}, st)
  if not S.no_raise("apply", a.r):
    return
  c = st[m]["counter"] + 1
  d = A.select(z3_le0(c, warm), 0.0, A.const(decay))
  h, avg = ema_ref(st[m]["hidden"], x, d, debias, c)
  A.prove_arr("returns the average", a.out, avg)
  if update:
    A.prove_arr("counter counts", a.after[m]["counter"], c)
    A.prove_arr("hidden decays", a.after[m]["hidden"], h)
    A.prove_arr("average stored", a.after[m]["average"], avg)
    b = L.Apply(U, lambda: E(decay, debias, warm).average, {}, a.after)
    if S.no_raise("average", b.r):
      A.prove_arr("the average property", b.out, avg)
  else:
    for k in ("counter", "hidden", "average"):
      A.prove_arr(k + " unchanged", a.after[m][k], st[m][k])


def z3_le0(c, warm):
  return A.Arr((), lambda: z3.And(warm.t > 0, c.at() <= 0), "b")


def same_dtype(name, got, x):
  if got.dt is None:
    raise S.Unsupported(name + ": dtype not tracked")
  S.prove(name, S.encode(got.dt) == S.encode(x.dtype))


def parameters(i, m, shape, sc, of, x):
  """The learned scale and offset start as ones and zeros, one per channel, in the input's dtype."""
  want = [m + ":scale"] * sc + [m + ":offset"] * of
  if not L.same_names("parameter entries", i.params, want):
    return False
  for k, on, v in (("scale", sc, 1.0), ("offset", of, 0.0)):
    if on:
      A.prove_arr(f"{k} starts at {v}", i.params[m][k], A.const(v, shape))
      same_dtype(k + " dtype", i.params[m][k], x)
  return True


def symbolic_input(name, rank):
  return A.new(name, L.dims(rank), S.sleaf("dtype"))


def scaling(sc, of):
  """None, external or learned, for scale and offset."""
  return S.pick("scaling", ["none", "learned", "external"])


def formats(rank, full):
  return ["channels_last", "channels_first"] + (["N...C", "NC..."] if rank == full else [])


def channel_of(fmt, rank):
  return 1 if fmt in ("channels_first", "NC...") else rank - 1


@contract("C16", "BatchNorm", ["haiku._src.batch_norm.BatchNorm.__init__", "haiku._src.batch_norm.BatchNorm.__call__",
                               "haiku._src.moving_averages.ExponentialMovingAverage.__call__", "haiku._src.utils.get_channel_index"],
          budget=120, note="ranks 2-5, symbolic sizes")
def batch_norm(U):
  rank = S.pick("rank", [2, 3, 4, 5])
  x = symbolic_input("inputs", rank)
  fmt = S.pick("data_format", formats(rank, 2))
  mode = S.pick("mode", ["train", "local", "eval", "train local"])
  how = scaling(0, 0)
  cross = mode == "train" and S.fork("cross_replica_axis")
  groups = [[0, 1], [2, 3]] if cross and S.fork("cross_replica_axis_index_groups") else None
  ch = channel_of(fmt, rank)
  axes = S.pick("axis", [None] if rank != 3 else [None, (0,), (1, 2), (0, 2), (0, 1, 2)])
  red = axes if axes is not None else tuple(k for k in range(rank) if k != ch)
  pshape = tuple(1 if k in red else d for k, d in enumerate(x.shape))
  decay, eps = S.sreal("decay"), S.sreal("eps")
  ext = (A.new("scale", pshape), A.new("offset", pshape)) if how == "external" else (None, None)
  learned = how == "learned"
  BN = U("batch_norm").BatchNorm
  def f(mode=mode):
    bn = BN(learned, learned, decay, eps=eps, data_format=fmt, axis=None if axes is None else list(axes),
            cross_replica_axis="i" if cross else None, cross_replica_axis_index_groups=groups)
    return bn(x, "train" in mode, "local" in mode, *ext)
  i = L.Init(U, lambda: f("train"))
  if not S.no_raise("init", i.r):
    return
  if not parameters(i, "batch_norm", pshape, learned, learned, x):
    return
  st = L.fresh_like(i.state)
  p = L.fresh_like(i.params)
  a = L.Apply(U, f, p, st)
  if not S.no_raise("apply", a.r):
    return
  me, ve = "batch_norm/~/mean_ema", "batch_norm/~/var_ema"
  if not L.same_names("state entries", st, [f"{m}:{k}" for m in (me, ve) for k in ("counter", "hidden", "average")]):
    return
  if mode == "eval":
    mean, var = st[me]["average"], st[ve]["average"]
  else:
    mean = A.mean(x, red, True)
    sq = A.mean(x * x, red, True)
    if cross:
      mean, sq = A.collective("pmean")(mean, "i", groups), A.collective("pmean")(sq, "i", groups)
    var = sq - mean * mean
  scale, offset = (p["batch_norm"]["scale"], p["batch_norm"]["offset"]) if learned else ext if how == "external" else (
      A.const(1.0), A.const(0.0))
  A.prove_arr("normalised", a.out, (x - mean) / A.sqrt(var + eps) * scale + offset)
  for m, v in ((me, mean), (ve, var)):
    if "train" in mode:
      c = st[m]["counter"] + 1
      h, avg = ema_ref(st[m]["hidden"], v, A.const(decay), True, c)
      for k, w in (("counter", c), ("hidden", h), ("average", avg)):
        A.prove_arr(f"{m} {k}", a.after[m][k], w)
    else:
      for k in ("counter", "hidden", "average"):
        A.prove_arr(f"{m} {k} unchanged", a.after[m][k], st[m][k])


@contract("C16", "BatchNorm rejects", ["haiku._src.batch_norm.BatchNorm.__init__", "haiku._src.batch_norm.BatchNorm.__call__"])
def batch_norm_rejects(U):
  BN = U("batch_norm").BatchNorm
  x = symbolic_input("inputs", 2)
  v = A.new("v", ())
  bad = {
      "scale_init without scale": lambda: BN(False, True, 0.9, scale_init=S.SFun("init")),
      "offset_init without offset": lambda: BN(True, False, 0.9, offset_init=S.SFun("init")),
      "groups without axis": lambda: BN(True, True, 0.9, cross_replica_axis_index_groups=[[0]]),
      "data format": lambda: BN(True, True, 0.9, data_format="WRONG"),
      "scale passed": lambda: BN(True, False, 0.9)(x, True, scale=v),
      "offset passed": lambda: BN(False, True, 0.9)(x, True, offset=v),
  }
  k = S.pick("case", list(bad))
  S.must_raise(k, L.Init(U, bad[k]).r, ValueError)


# ------------------------------------------------------------------- C17


def normalised(x, axes, eps):
  return (x - A.mean(x, axes, True)) / A.sqrt(A.var(x, axes, True) + eps)


def external(x):
  """Scale and offset given at call time: any shape that broadcasts to the input."""
  kind = S.pick("external shape", ["full", "last", "scalar"])
  s = {"full": x.shape, "last": x.shape[-1:], "scalar": ()}[kind]
  return A.new("scale", s), A.new("offset", s)


@contract("C17", "LayerNorm", ["haiku._src.layer_norm.LayerNorm.__init__", "haiku._src.layer_norm.LayerNorm.__call__"],
          budget=120, note="ranks 1-4, symbolic sizes")
def layer_norm(U):
  rank = S.pick("rank", [1, 2, 3, 4])
  x = symbolic_input("inputs", rank)
  choices = [-1, 0, slice(0, None), slice(1, None), slice(None, -1), (0,), (-1,), tuple(range(rank)), tuple(range(1, rank)),
             list(range(-1, -rank - 1, -1))]
  if rank == 4:
    choices += [(1, -1), (0, 2), slice(1, 3), [3, 1], slice(-2, None), slice(None, None, 2), slice(None, None, -2)]
  ax = S.pick("axis", choices)
  axes = tuple(range(rank)[ax]) if isinstance(ax, slice) else (ax,) if isinstance(ax, int) else tuple(ax)
  axes = tuple(a % rank for a in axes)
  if not axes:
    return
  eps = S.sreal("eps")
  how = S.pick("scaling", ["none", "learned", "external", "scale only", "offset only"])
  sc, of = how in ("learned", "scale only"), how in ("learned", "offset only")
  ext = external(x) if how == "external" else (None, None)
  LN = U("layer_norm").LayerNorm
  r = L.init_apply("LayerNorm", U, lambda: LN(ax, sc, of, eps=eps)(x, *ext))
  if r is None:
    return
  i, a = r
  if not parameters(i, "layer_norm", x.shape[-1:], sc, of, x):
    return
  p = a.params.get("layer_norm", {})
  scale = p["scale"] if sc else ext[0] if ext[0] is not None else A.const(1.0)
  offset = p["offset"] if of else ext[1] if ext[1] is not None else A.const(0.0)
  A.prove_arr("normalised", a.out, normalised(x, axes, eps) * scale + offset)


@contract("C17", "InstanceNorm", ["haiku._src.layer_norm.InstanceNorm.__init__", "haiku._src.layer_norm.LayerNorm.__call__",
                                  "haiku._src.utils.get_channel_index"], budget=120, note="ranks 3-5, symbolic sizes")
def instance_norm(U):
  rank = S.pick("rank", [3, 4, 5])
  x = symbolic_input("inputs", rank)
  fmt = S.pick("data_format", formats(rank, 3))
  ch = channel_of(fmt, rank)
  axes = tuple(k for k in range(1, rank) if k != ch)
  eps = S.sreal("eps")
  sc, of = S.pick("learned", [(True, True), (True, False), (False, True), (False, False)])
  IN = U("layer_norm").InstanceNorm
  r = L.init_apply("InstanceNorm", U, lambda: IN(sc, of, eps=eps, data_format=fmt)(x))
  if r is None:
    return
  i, a = r
  p = a.params.get("instance_norm", {})
  one = tuple(x.shape[ch:ch + 1]) + (1,) * (rank - 1 - ch)
  if not parameters(i, "instance_norm", one, sc, of, x):
    return
  scale = p["scale"] if sc else A.const(1.0)
  offset = p["offset"] if of else A.const(0.0)
  A.prove_arr("normalised", a.out, normalised(x, axes, eps) * scale + offset)


@contract("C17", "GroupNorm", ["haiku._src.group_norm.GroupNorm.__init__", "haiku._src.group_norm.GroupNorm.__call__",
                               "haiku._src.group_norm.GroupNorm._initialize", "haiku._src.utils.get_channel_index"],
          budget=200, note="ranks 2-4, symbolic sizes and group count, one or two calls")
def group_norm(U):
  rank = S.pick("rank", [2, 3, 4])
  fmt = S.pick("data_format", formats(rank, 2))
  ch = channel_of(fmt, rank)
  groups, per = S.sint("groups", 1), S.sint("per group", 1)
  sizes = list(L.dims(rank))
  sizes[ch] = groups * per
  again = list(L.dims(rank, prefix="e"))
  again[ch] = groups * per
  dt = S.sleaf("dtype")
  two = rank == 3 and S.fork("second call")
  xs = [A.new("x", sizes, dt)] + ([A.new("y", again, dt)] if two else [])
  eps = S.sreal("eps")
  axs = [slice(1, None)]
  if rank == 3 and not two:
    axs += [1, -1, (1, 2), (-1, -2), slice(2, None), (ch,), slice(1, None, 2)]
  ax = S.pick("axis", axs)
  axes = tuple(range(rank)[ax]) if isinstance(ax, slice) else (ax,) if isinstance(ax, int) else tuple(ax)
  axes = tuple(a % rank for a in axes)
  how = S.pick("scaling", ["none", "learned", "external"])
  learned = how == "learned"
  pshape = (groups * per,) + (1,) * (rank - 1 - ch)
  ext = (A.new("scale", pshape), A.new("offset", pshape)) if how == "external" else (None, None)
  GN = U("group_norm").GroupNorm
  def f():
    m = GN(groups, axis=ax, create_scale=learned, create_offset=learned, eps=eps, data_format=fmt)
    return [m(x, *ext) for x in xs]
  r = L.init_apply("GroupNorm", U, f)
  if r is None:
    return
  i, a = r
  if not parameters(i, "group_norm", pshape, learned, learned, xs[0]):
    return
  p = a.params.get("group_norm", {})
  scale, offset = (p["scale"], p["offset"]) if learned else ext if how == "external" else (A.const(1.0), A.const(0.0))
  for n, (x, y) in enumerate(zip(xs, a.out)):
    gshape = x.shape[:ch] + (groups, per) + x.shape[ch + 1:]
    red = tuple(k if k < ch else k + 1 for k in axes)
    want = A.reshape(normalised(A.reshape(x, gshape), red, eps), x.shape)
    A.prove_arr(f"normalised in groups, call {n}", y, want * scale + offset)


@contract("C17", "rejections", ["haiku._src.layer_norm.LayerNorm.__init__", "haiku._src.layer_norm.LayerNorm.__call__",
                                "haiku._src.group_norm.GroupNorm.__init__", "haiku._src.group_norm.GroupNorm.__call__"])
def rejections(U):
  LN, GN = U("layer_norm").LayerNorm, U("group_norm").GroupNorm
  x = symbolic_input("inputs", 2)
  v = A.new("v", ())
  g = S.sint("groups", 1)
  bad = {
      "scale_init without scale": lambda: LN(-1, False, True, scale_init=S.SFun("init")),
      "offset_init without offset": lambda: LN(-1, True, False, offset_init=S.SFun("init")),
      "axis": lambda: LN("a", True, True),
      "axis element": lambda: LN([1, "b"], True, True),
      "scale passed": lambda: LN(-1, True, False)(x, scale=v),
      "offset passed": lambda: LN(-1, False, True)(x, offset=v),
      "group scale_init without scale": lambda: GN(g, create_scale=False, scale_init=S.SFun("init")),
      "group offset_init without offset": lambda: GN(g, create_offset=False, offset_init=S.SFun("init")),
      "group axis": lambda: GN(g, axis="a"),
  }
  k = S.pick("case", list(bad) + ["group scale passed", "group offset passed", "indivisible", "rank changes"])
  if k in bad:
    S.must_raise(k, L.Init(U, bad[k]).r, ValueError)
    return
  def f():
    if k == "group scale passed":
      return GN(1, create_scale=True)(x, scale=v)
    if k == "group offset passed":
      return GN(1, create_offset=True)(x, offset=v)
    if k == "rank changes":
      m = GN(1)
      m(x)
      return m(symbolic_input("other", 3))
    return GN(g)(x)
  if k == "indivisible":
    ctx().assume(S.zint(x.shape[1]) % g.t != 0, check=True)
  S.must_raise(k, L.Init(U, f).r, ValueError)
