"""C21: spectral normalisation, and averaging or normalising whole parameter trees."""
import z3

from contracts import layers as L
from contracts.norm import ema_ref
from pyvc import arrays as A
from pyvc import core
from pyvc import rt
from pyvc import spec as S
from pyvc.core import ctx
from pyvc.spec import contract

P = "C21"
SN = "haiku._src.spectral_norm."
MA = "haiku._src.moving_averages."


def unit(x, eps):
  """x / sqrt(sum of squares + eps)."""
  return x * A.rsqrt(A.sum_(x * x, None, True) + eps)


def power_iteration(u, m, eps, n):
  for _ in range(n):
    v = unit(A.matmul(u, A.transpose(m)), eps)
    u = unit(A.matmul(v, m), eps)
  u, v = A.stop_gradient(u), A.stop_gradient(v)     # the vectors are not trained
  s = A.matmul(A.matmul(v, m), A.transpose(u))
  return u, A.reshape(s, ())


@contract(P, "_l2_normalize", [SN + "_l2_normalize"])
def l2(U):
  rank = S.pick("rank", [1, 2, 3])
  x, eps = A.new("x", L.dims(rank)), S.sreal("eps")
  axis = S.pick("axis", [None] + list(range(rank)) + [-1])
  kw = {} if axis is None and S.fork("default") else {"axis": axis}
  r = S.outcome(lambda: U("spectral_norm")._l2_normalize(x, eps=eps, **kw))
  if S.no_raise("_l2_normalize", r):
    A.prove_arr("x / sqrt(sum x^2 + eps)", r, x * A.rsqrt(A.sum_(x * x, axis, True) + eps))


@contract(P, "SpectralNorm", [SN + "SpectralNorm.__init__", SN + "SpectralNorm.__call__", SN + "_l2_normalize",
                              SN + "SpectralNorm.u0", SN + "SpectralNorm.sigma"], note="ranks 2-4, one to three steps; sizes symbolic")
def spectral(U):
  rank = S.pick("rank", [2, 3, 4])
  n = S.pick("n_steps", [1, 2, 3] if rank == 2 else [1])
  update, eps = S.fork("update_stats"), S.sreal("eps")
  w = A.new("w", L.dims(rank), S.sleaf("dtype"))
  M = U("spectral_norm")
  def f():
    return M.SpectralNorm(eps, n)(w, update_stats=update)
  r = L.init_apply("SpectralNorm", U, f)
  if r is None:
    return
  i, a = r
  m = "spectral_norm"
  if not L.same_names("state entries", i.state, [m + ":u0"] + [m + ":sigma"] * update):
    return
  A.prove_shape("u0 is [1, outputs]", i.state[m]["u0"], (1, w.shape[-1]))
  u = a.before[m]["u0"]
  flat = w if rank == 2 else A.reshape(w, (-1, w.shape[-1]))
  u2, sigma = power_iteration(u, flat, eps, n)
  want = A.Arr(w.shp, lambda *k: w.at(*k) / sigma.at())
  A.prove_arr("divided by the estimate of the largest singular value", a.out, want if rank == 2 else A.reshape(A.Arr(
      flat.shp, lambda *k: flat.at(*k) / sigma.at()), w.shp))
  after = a.after[m]
  A.prove_arr("u0 " + ("carried on" if update else "unchanged"), after["u0"], u2 if update else u)
  if update:
    A.prove_arr("sigma stored", after["sigma"], sigma)
    b = L.Apply(U, lambda: (lambda s: (s.u0, s.sigma))(M.SpectralNorm(eps, n)), {}, a.after)
    if S.no_raise("properties", b.r):
      A.prove_arr("u0 property", b.out[0], u2)
      A.prove_arr("sigma property", b.out[1], sigma)
  else:
    S.prove("no new state", z3.BoolVal(L.names(a.after) == L.names(a.before)))


@contract(P, "SpectralNorm rejects", [SN + "SpectralNorm.__call__"])
def spectral_rejects(U):
  M = U("spectral_norm")
  rank = S.pick("rank", [0, 1, 3, 4])
  i = L.Init(U, lambda: M.SpectralNorm()(A.new("w", L.dims(rank)), error_on_non_matrix=rank > 2))
  S.must_raise("rank", i.r, ValueError)


TREES = [
    [("linear", "w", 2), ("linear", "b", 2)],
    [("mlp/~/linear_0", "w", 2), ("mlp/~/linear_0", "b", 1), ("mlp/~/linear_1", "w", 3)],
    [("a", "b__c", 2), ("a__b", "c", 2), ("a/b", "c", 2)],
    [("x~y", "w", 2), ("x_tildey", "w", 2), ("x_tilde_y", "w", 2)],
    [("l_1", "w_2", 2), ("l_1", "w", 2), ("l", "w_2", 2)],
    [],
]
REGEX = {"": lambda k: False, ".*b$": lambda k: k.endswith("b"), "mlp": lambda k: k.startswith("mlp"), ".": lambda k: True,
         "w": lambda k: k.startswith("w"), "linear/w": lambda k: k.startswith("linear/w")}


class Recorder:
  """The wrapped module class, noting each instance's name and arguments."""

  def __init__(self, mod, name):
    self.mod, self.name, self.made = mod, name, []

  def __enter__(self):
    cls = self.old = getattr(self.mod, self.name)
    def make(*a, **k):
      m = cls(*a, **k)
      def call(v, *b, **c):
        self.made.append((m, v))
        return m(v, *b, **c)
      return call
    setattr(self.mod, self.name, make)
    return self

  def __exit__(self, *a):
    setattr(self.mod, self.name, self.old)


@contract(P, "EMAParamsTree, SNParamsTree", [MA + "EMAParamsTree.__init__", MA + "EMAParamsTree.__call__",
                                             SN + "SNParamsTree.__init__", SN + "SNParamsTree.__call__"],
          note="six trees of up to three entries, six patterns; values, sizes, decay and counters arbitrary")
def trees(U):
  which = S.pick("class", ["ema", "sn"])
  entries = S.pick("tree", TREES)
  if which == "sn":
    entries = [(m, n, 2) for m, n, _ in entries]
  rx = S.pick("ignore_regex", list(REGEX) if entries and not entries[0][0].startswith(("a", "x", "l_")) else ["", "a/"] [:1])
  update = S.fork("update_stats")
  frozen = S.fork("tree is immutable")
  tree = {}
  for m, n, r in entries:
    tree.setdefault(m, {})[n] = A.new(f"{m}:{n}", L.dims(r), S.sleaf("dtype"))
  arg = U("data_structures").to_immutable_dict(tree) if frozen else tree
  decay, eps = S.sreal("decay"), S.sreal("eps")
  mod = U("moving_averages") if which == "ema" else U("spectral_norm")
  opts = (S.pick("debias", [True, False]),) if which == "ema" else (1,)
  warm = 0 if which == "sn" or opts[0] else S.sint("warmup", 0)
  runs = []
  def f():
    with Recorder(mod, "ExponentialMovingAverage" if which == "ema" else "SpectralNorm") as rec:
      runs.append(rec)
      t = mod.EMAParamsTree(decay, *opts, warm, rx) if which == "ema" else mod.SNParamsTree(eps, 1, rx)
      return t(arg, update_stats=update) if not update or S.fork("explicit") else t(arg)
  r = L.init_apply(which, U, f)
  if r is None:
    return
  i, a = r
  out = a.out
  S.prove("immutable result", z3.BoolVal(rt.isinstance_(out, U("data_structures").FlatMapping)))
  if not L.same_names("the same entries", out, [f"{m}:{n}" for m, n, _ in entries]):
    return
  S.prove("no parameters of its own", z3.BoolVal(L.names(i.params) == []))
  mine = [(m, n) for m, n, _ in entries if not REGEX[rx](m + "/" + n)]
  made = runs[1].made
  names = [str(x[0].module_name) for x in made]
  S.prove("each averaged entry has a module of its own", z3.BoolVal(len(set(names)) == len(names) == len(mine)))
  if len(names) != len(mine):
    return
  S.prove("the state is that of those modules", z3.BoolVal({k.split(":")[0] for k in L.names(i.state)} == set(names)))
  for m, n, _ in entries:
    x, got = tree[m][n], out[m][n]
    if (m, n) not in mine:
      S.prove(f"{m}/{n} ignored: unchanged", S.same(got, x))
      continue
    owner = [k for k, (_, v) in zip(names, made) if v is x]
    if len(owner) != 1:
      ctx().prove_false(f"{m}/{n}: one module", str(owner))
      continue
    st, af = a.before[owner[0]], a.after[owner[0]]
    if which == "ema":
      c = st["counter"] + 1
      d = A.select(A.Arr((), lambda: z3.And(S.zint(warm) > 0, c.at() <= 0), "b"), 0.0, A.const(decay))
      h, avg = ema_ref(st["hidden"], x, d, opts[0], c)
      A.prove_arr(f"{m}/{n}: its average", got, avg)
      A.prove_arr(f"{m}/{n}: hidden", af["hidden"], h if update else st["hidden"])
    else:
      u2, sigma = power_iteration(st["u0"], x, eps, 1)
      A.prove_arr(f"{m}/{n}: normalised", got, A.Arr(x.shp, (lambda x, sigma: lambda *k: x.at(*k) / sigma.at())(x, sigma)))
      A.prove_arr(f"{m}/{n}: u0", af["u0"], u2 if update else st["u0"])


@contract(P, "EMA initialize", [MA + "ExponentialMovingAverage.initialize"])
def initialize(U):
  shape, dt = L.dims(S.pick("rank", [0, 1, 2])), S.sleaf("dtype")
  old = S.fork("by value")
  x = A.new("x", shape, dt)
  arg = (x,) if old else (list(shape) if S.fork("list") else shape, dt)
  E = U("moving_averages").ExponentialMovingAverage
  i = L.Init(U, lambda: E(S.sreal("decay")).initialize(*arg))
  if not S.no_raise("initialize", i.r):
    return
  m = "exponential_moving_average"
  if L.same_names("state entries", i.state, [m + ":hidden", m + ":average"]):
    for k in ("hidden", "average"):
      A.prove_arr(k + " starts at zero", i.state[m][k], A.const(0.0, shape))
      S.prove(k + " dtype", S.encode(i.state[m][k].dt) == S.encode(dt))
