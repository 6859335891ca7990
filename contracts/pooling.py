"""C19: pooling windows cover the spatial axes; averages count the valid elements."""
import z3

from contracts import layers as L
from pyvc import arrays as A
from pyvc import containers as C
from pyvc import core
from pyvc import spec as S
from pyvc.core import ctx
from pyvc.spec import contract

P = "C19"
SRC = "haiku._src.pool."
AXES = {1: [-1, None, 0], 2: [-1, None, 0, 1], 3: [-1, None, 1, 2, -2], 4: [-1, None, 1, 2, 3, -2, -3], 5: [-1, None, 1, 4, -4]}


def full_window(size, rank, axis):
  """The documented window: one for batch and channels, the size elsewhere."""
  ax = None if axis is None else axis % rank
  return tuple(1 if d == 0 or d == ax else size for d in range(rank))


def draw_size(what, rank):
  """(argument, expected window as a function of the channel axis)."""
  kind = S.pick(what, ["int", "full", "full list", "short", "empty"])
  if kind == "int":
    k = S.sint(what, 1)
    return k, lambda axis: full_window(k, rank, axis)
  m = rank if kind.startswith("full") else 0 if kind == "empty" else max(rank - S.pick("missing", [1, 2]), 0)
  ks = L.dims(m, 1, what)
  return (list(ks) if kind == "full list" else ks), lambda axis: (1,) * (rank - m) + ks


@contract(P, "_infer_shape", [SRC + "_infer_shape"])
def infer(U):
  rank = S.pick("rank", [1, 2, 3, 4, 5])
  x = A.new("x", L.dims(rank))
  arg, want = draw_size("size", rank)
  axis = S.pick("channel_axis", AXES[rank] + [rank, -rank - 1])
  r = S.outcome(lambda: U("pool")._infer_shape(x, arg, axis))
  if isinstance(arg, core.SInt) and axis is not None and abs(axis) >= rank and axis != 0:
    S.must_raise("the channel axis does not exist", r, ValueError)
    return
  if not S.no_raise("_infer_shape", r):
    return
  got = C.concrete_tuple(r)
  S.prove("one entry per axis", z3.BoolVal(len(got) == rank))
  w = want(axis)
  S.prove("window", z3.And(*[S.eq(a, b) for a, b in zip(got, w)]))


@contract(P, "_infer_shape rejects", [SRC + "_infer_shape"])
def infer_rejects(U):
  rank = S.pick("rank", [1, 2, 3])
  x = A.new("x", L.dims(rank))
  r = S.outcome(lambda: U("pool")._infer_shape(x, L.dims(rank + 1), -1))
  S.prove("too many entries", z3.BoolVal(isinstance(r, S.Raised)))


@contract(P, "max_pool, avg_pool", [SRC + n for n in ("max_pool", "avg_pool", "MaxPool.__init__", "MaxPool.__call__",
                                                       "AvgPool.__init__", "AvgPool.__call__", "_warn_if_unsafe")],
          note="ranks 2-4; jax.lax.reduce_window assumed")
def pools(U):
  pool = U("pool")
  rank = S.pick("rank", [2, 3, 4])
  x = A.new("x", L.dims(rank))
  warg, win = draw_size("window", rank)
  if S.fork("stride is an int"):
    sarg = S.sint("stride", 1)
    stride = lambda axis: full_window(sarg, rank, axis)
  else:
    sarg = L.dims(rank, 1, "stride")
    stride = lambda axis: sarg
  axis = S.pick("channel_axis", [-1, None, 1, -2][:rank + 1])
  padding = S.pick("padding", ["SAME", "VALID"])
  kind = S.pick("form", ["max", "avg", "MaxPool", "AvgPool"])
  default = axis == -1 and (kind in ("max", "AvgPool")) == (padding == "SAME")
  kw = {} if default else {"channel_axis": axis}
  if kind in ("max", "avg"):
    r = S.outcome(lambda: getattr(pool, kind + "_pool")(x, warg, sarg, padding, **kw))
  else:
    i = L.Init(U, lambda: getattr(pool, kind)(warg, sarg, padding, **kw)(x))
    r = i.r if not i.ok else i.out
  if not S.no_raise(kind, r):
    return
  w, s = win(axis), stride(axis)
  if "max" in kind.lower():
    want = A.reduce_window(x, -float("inf"), pool.lax.max, w, s, padding)
  else:
    total = A.reduce_window(x, 0.0, pool.lax.add, w, s, padding)
    if padding == "VALID":
      want = total / A.lift(A.product(w))
    else:
      want = total / A.reduce_window(A.full(x.shp, 1.0), 0.0, pool.lax.add, w, s, padding)
  A.prove_arr("maximum of each window" if "max" in kind.lower() else "mean of the valid elements of each window", r, want)


@contract(P, "rejects", [SRC + n for n in ("max_pool", "avg_pool")])
def rejects(U):
  pool = U("pool")
  x = A.new("x", L.dims(3))
  f = S.pick("form", [pool.max_pool, pool.avg_pool])
  bad = S.pick("padding", ["same", "FULL", "valid", ""])
  S.must_raise("unknown padding", S.outcome(lambda: f(x, 2, 2, bad)), ValueError)
