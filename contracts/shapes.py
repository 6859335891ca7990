"""C14: modules that only move elements around, and compose layers."""
import z3

from contracts import layers as L
from pyvc import arrays as A
from pyvc import spec as S
from pyvc.core import ctx
from pyvc.spec import contract

P = "C14"


def flat(dims):
  return A.product(dims)


@contract(P, "Reshape", ["haiku._src.reshape.Reshape.__init__", "haiku._src.reshape.Reshape.__call__",
                         "haiku._src.reshape._infer_shape"], note="ranks 1-4, targets of 1-3 dimensions; sizes symbolic")
def reshape(U):
  keep = S.pick("preserve_dims", [1, 2, 3])
  rank = S.pick("rank", [1, 2, 3, 4])
  kind = S.pick("target", ["list", "tuple"]) if rank == 2 else "tuple"
  lead = L.dims(min(keep, rank), prefix="b")
  R = U("reshape").Reshape
  if rank <= keep:
    x = A.new("x", lead[:rank])
    r = S.outcome(lambda: L.Init(U, lambda: R((-1, 3), preserve_dims=keep)(x)))
    if S.no_raise("short input", r) and S.no_raise("short input", r.r):
      S.prove("returned as it is", S.same(r.out, x))
    return
  rest = L.dims(rank - keep, prefix="d")
  # targets whose size is that of the merged dimensions
  m = S.pick("dimensions out", [1, 2, 3])
  fs = rest if m == len(rest) else None
  if m == 1:
    want = (flat(rest),)
  elif fs is not None:
    want = tuple(reversed(rest)) if S.fork("reversed") else rest
  else:
    k = S.pick("unit at", range(m))
    want = [1] * m
    want[k] = flat(rest)
    want = tuple(want)
  target = list(want)
  wild = S.pick("wildcard", [None] + list(range(m)))
  if wild is not None:
    target[wild] = -1
  if kind == "tuple":
    target = tuple(target)
  x = A.new("x", lead + rest)
  i = L.Init(U, lambda: R(target, preserve_dims=keep)(x))
  if S.no_raise("Reshape", i.r):
    A.prove_arr("same elements in order", i.out, A.reshape(x, lead + want))


@contract(P, "Flatten", ["haiku._src.reshape.Flatten.__init__", "haiku._src.reshape.Reshape.__call__", "haiku._src.reshape._infer_shape"],
          note="ranks 1-5; sizes symbolic")
def flatten(U):
  keep = S.pick("preserve_dims", [1, 2, 3, None])
  rank = S.pick("rank", [1, 2, 3, 4, 5])
  x = A.new("x", L.dims(rank))
  F = U("reshape").Flatten
  i = L.Init(U, lambda: (F() if keep is None else F(preserve_dims=keep))(x))
  if S.no_raise("Flatten", i.r):
    k = keep or 1
    if rank <= k:
      S.prove("returned as it is", S.same(i.out, x))
    else:
      A.prove_arr("same elements in order", i.out, A.reshape(x, x.shape[:k] + (flat(x.shape[k:]),)))


@contract(P, "Reshape rejects", ["haiku._src.reshape.Reshape.__init__", "haiku._src.reshape.Flatten.__init__"])
def rejects(U):
  k = S.sint("preserve_dims", None, 3)
  r = U("reshape")
  which = S.pick("class", ["reshape", "flatten", "two wildcards"])
  if which == "two wildcards":
    i = L.Init(U, lambda: r.Reshape((-1, 2, -1)))
    S.must_raise("at most one -1", i.r, ValueError)
    return
  i = L.Init(U, lambda: r.Reshape((-1, 2), preserve_dims=k) if which == "reshape" else r.Flatten(preserve_dims=k))
  if i.ok:
    S.prove("accepts only positive preserve_dims", k.t >= 1)
  else:
    S.prove("rejects only non-positive preserve_dims", k.t <= 0)
    S.prove("ValueError", z3.BoolVal(isinstance(i.r.exc, ValueError)))


@contract(P, "merge_leading_dims", ["haiku._src.basic.merge_leading_dims", "haiku._src.basic.ndim_at_least"], note="ranks 0-4")
def merge(U):
  n = S.pick("num_dims", [1, 2, 3])
  rank = S.pick("rank", [0, 1, 2, 3, 4])
  x = A.new("x", L.dims(rank))
  r = S.outcome(U("basic").merge_leading_dims, x, n)
  if S.no_raise("merge", r):
    if rank < n:
      S.prove("returned as it is", S.same(r, x))
    else:
      A.prove_arr("leading dimensions merged", r, A.reshape(x, (flat(x.shape[:n]),) + x.shape[n:]))


@contract(P, "split_leading_dim", ["haiku._src.basic.split_leading_dim"], note="ranks 1-3, 1-3 dimensions out")
def split(U):
  n = S.pick("dims", [1, 2, 3])
  lead = L.dims(n, prefix="b")
  rest = L.dims(S.pick("rank", [0, 1, 2]))
  x = A.new("x", (flat(lead),) + rest)
  r = S.outcome(U("basic").split_leading_dim, x, lead)
  if S.no_raise("split", r):
    A.prove_arr("leading dimension split", r, A.reshape(x, lead + rest))


@contract(P, "BatchApply", ["haiku._src.basic.BatchApply.__init__", "haiku._src.basic.BatchApply.__call__",
                            "haiku._src.basic.arbitrary_mergeable_leaf", "haiku._src.basic.merge_leading_dims",
                            "haiku._src.basic.split_leading_dim"], note="num_dims 1-3; sizes symbolic")
def batch_apply(U):
  n = S.pick("num_dims", [1, 2, 3])
  lead = L.dims(n, prefix="b")
  size = flat(lead)
  d = S.sint("d", 1)
  x = A.new("x", lead + (d,))
  y = A.new("y", lead)
  small = A.new("small", L.dims(n - 1, prefix="s"))
  calls = []
  out = {"o": A.new("out", (size, 3)), "p": (A.new("out2", (size,)), A.new("out3", (size, 2, d)))}
  def f(*a, **k):
    calls.append((a, k))
    return out
  form = S.pick("arguments", ["x", "small first", "keyword only", "nested", "all"])
  args, kw = {"x": ((x,), {}), "small first": ((small, x), {}), "keyword only": ((), {"k": y}),
              "nested": (((x, {"in": y}),), {}), "all": ((y, small), {"a": x, "b": small})}[form]
  BA = U("basic").BatchApply
  r = S.outcome(lambda: (BA(f) if n == 2 and S.fork("default num_dims") else BA(f, n))(*args, **kw))
  if not S.no_raise("BatchApply", r):
    return
  S.prove("called once", z3.BoolVal(len(calls) == 1))
  a, k = calls[0]
  def check(name, got, want):
    if isinstance(want, A.Arr):
      if len(want.shp) >= n:
        A.prove_arr(name, got, A.reshape(want, (size,) + want.shp[n:]))
      else:
        S.prove(name + ": passed as it is", S.same(got, want))
    elif isinstance(want, tuple):
      S.prove(name + ": as many", S.eq(S.length(got), len(want)))
      for j, w in enumerate(want):
        check(f"{name}[{j}]", got[j], w)
    else:
      S.prove(name + ": keys", z3.BoolVal(sorted(got.keys()) == sorted(want)))
      for j in want:
        check(f"{name}[{j}]", got[j], want[j])
  check("arguments", tuple(a), args)
  check("keyword arguments", k, kw)
  A.prove_arr("output split", r["o"], A.reshape(out["o"], lead + (3,)))
  A.prove_arr("output split, nested 0", r["p"][0], A.reshape(out["p"][0], lead))
  A.prove_arr("output split, nested 1", r["p"][1], A.reshape(out["p"][1], lead + (2, d)))


@contract(P, "BatchApply rejects", ["haiku._src.basic.BatchApply.__call__", "haiku._src.basic.arbitrary_mergeable_leaf"])
def batch_apply_rejects(U):
  n = S.pick("num_dims", [1, 2, 3])
  small = A.new("small", L.dims(n - 1, prefix="s"))
  f = S.SFun("f")
  args, kw = S.pick("arguments", [((small,), {}), ((), {"k": small}), ((), {}), ((None, small), {"z": None})])
  w = ctx().world
  r = S.outcome(lambda: U("basic").BatchApply(f, n)(*args, **kw))
  S.must_raise("no argument to merge", r, ValueError)
  S.prove("the function is not called", z3.BoolVal(ctx().world.eq(w)))


@contract(P, "expand_apply", ["haiku._src.basic.expand_apply"], note="ranks 0-3")
def expand_apply(U):
  axis = S.pick("axis", [0, -1])
  x = A.new("x", L.dims(S.pick("rank", [0, 1, 2, 3])))
  y = A.new("y", L.dims(1, prefix="e"))
  e = lambda s: (1,) + s if axis == 0 else s + (1,)
  calls = []
  out = (A.new("out", e((4, 5))), {"k": A.new("out2", e(()))})
  def f(*a, **k):
    calls.append((a, k))
    return out
  r = S.outcome(lambda: (U("basic").expand_apply(f) if axis == 0 and S.fork("default axis") else U("basic").expand_apply(f, axis))(
      x, [y], z=y))
  if not S.no_raise("expand_apply", r):
    return
  S.prove("called once", z3.BoolVal(len(calls) == 1))
  a, k = calls[0]
  A.prove_arr("argument", a[0], A.reshape(x, e(x.shp)))
  A.prove_arr("nested argument", a[1][0], A.reshape(y, e(y.shp)))
  A.prove_arr("keyword argument", k["z"], A.reshape(y, e(y.shp)))
  A.prove_arr("output", r[0], A.reshape(out[0], (4, 5)))
  A.prove_arr("nested output", r[1]["k"], A.reshape(out[1]["k"], ()))


@contract(P, "expand_apply rejects", ["haiku._src.basic.expand_apply"])
def expand_apply_rejects(U):
  axis = S.sint("axis")
  r = S.outcome(U("basic").expand_apply, lambda x: x, axis)
  if isinstance(r, S.Raised):
    S.prove("rejects only other axes", z3.And(axis.t != 0, axis.t != -1))
    S.prove("ValueError", z3.BoolVal(isinstance(r.exc, ValueError)))
  else:
    S.prove("accepts only 0 and -1", z3.Or(axis.t == 0, axis.t == -1))


@contract(P, "Sequential", ["haiku._src.basic.Sequential.__init__", "haiku._src.basic.Sequential.__call__"],
          note="0-4 layers; any layers")
def sequential(U):
  n = S.pick("layers", [0, 1, 2, 3, 4])
  log = []
  def mk(i):
    g = S.SFun(f"layer{i}", raises=i == 1)
    def layer(*a, **k):
      log.append((i, a, k))
      return g(*a, **k)
    return g, layer
  made = [mk(i) for i in range(n)]
  src = S.pick("container", [list, tuple, iter])([l for _, l in made])
  extra = S.fork("extra arguments")
  a, k = ((S.sleaf("arg"),), {"flag": S.sleaf("flag")}) if extra else ((), {})
  x = S.sleaf("x")
  Seq = U("basic").Sequential
  w = ctx().world
  i = L.Init(U, lambda: Seq(src)(x, *a, **k))
  if not i.ok:
    S.prove("only a layer's own exception", z3.BoolVal(type(i.r.exc).__name__ == "UserError"))
    S.prove("raised by the second layer", z3.BoolVal([e[0] for e in log] == [0, 1]))
    return
  S.prove("every layer once, in order", z3.BoolVal([e[0] for e in log] == list(range(n))))
  got = i.out
  end = ctx().world
  ctx().world = w
  want = x
  for j, (g, _) in enumerate(made):
    S.prove(f"layer {j} gets the output of the previous one", S.same(log[j][1][0], want))
    S.prove(f"layer {j} arguments", z3.BoolVal(log[j][1][1:] == a and dict(log[j][2]) == k if j == 0 else
                                               len(log[j][1]) == 1 and not log[j][2]))
    g.raises = False
    want = g(want, *(a if j == 0 else ()), **(k if j == 0 else {}))
  S.prove("returns the last output", S.same(got, want))
  S.prove("no other effects", z3.BoolVal(ctx().world.eq(end)))


@contract(P, "to_module", ["haiku._src.basic.to_module"])
def to_module(U):
  g = S.SFun("some_fn", raises=True)
  def some_fn(*a, **k):
    """Doc."""
    return g(*a, **k)
  custom = S.fork("custom name")
  x, y = S.sleaf("x"), S.sleaf("y")
  seen = []
  w = ctx().world
  def f():
    cls = U("basic").to_module(some_fn)
    m = cls(name="mine") if custom else cls()
    seen.append((m, cls))
    return m(x, k=y)
  i = L.Init(U, f)
  if not i.ok:
    S.prove("only the function's own exception", z3.BoolVal(type(i.r.exc).__name__ == "UserError"))
    return
  m, cls = seen[0]
  S.prove("a module", z3.BoolVal(issubclass(cls, U("module").Module)))
  S.prove("named after the function", S.eq(m.module_name, "mine" if custom else "some_fn"))
  S.prove("documented by the function", z3.BoolVal(cls.__doc__ == "Doc."))
  end = ctx().world
  ctx().world = w
  g.raises = False
  S.prove("runs the function", S.same(i.out, g(x, k=y)))
  S.prove("no other effects", z3.BoolVal(ctx().world.eq(end)))


@contract(P, "to_module rejects", ["haiku._src.basic.to_module"])
def to_module_rejects(U):
  v = S.pick("name", [3, S.sleaf("x"), ("a",)])
  i = L.Init(U, lambda: U("basic").to_module(lambda x: x)(v))
  S.must_raise("name must be a string", i.r, TypeError)
