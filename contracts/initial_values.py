"""C20: the initializers draw from the documented distributions, one fresh key each."""
import z3

from contracts import layers as L
from contracts.dense import same_dtype
from pyvc import arrays as A
from pyvc import containers as C
from pyvc import core
from pyvc import spec as S
from pyvc.core import ctx
from pyvc.spec import contract

P = "C20"
SRC = "haiku._src.initializers."


class Keys:
  """hk.next_rng_key (under contract in C04) hands out these keys."""

  def __init__(self, I):
    self.I, self.keys = I, []

  def __enter__(self):
    self.old = self.I.hk.next_rng_key
    def nxt():
      self.keys.append(L.key())
      return self.keys[-1]
    self.I.hk.next_rng_key = nxt
    return self

  def __exit__(self, *a):
    self.I.hk.next_rng_key = self.old


def run(U, make, shape, dt, draws=1):
  """(value or None, key used)."""
  I = U("initializers")
  with Keys(I) as k:
    r = S.outcome(lambda: make(I)(shape, dt))
  if not S.no_raise("initializer", r):
    return None, None
  S.prove(f"draws {draws} time(s)", z3.BoolVal(len(k.keys) == draws))
  if len(k.keys) != draws:
    return None, None
  return r, (k.keys[0] if draws else None)


def shapes(lo, hi, least=1):
  n = S.pick("rank", list(range(lo, hi + 1)))
  s = L.dims(n, least)
  return list(s) if S.fork("shape list") else s


def finish(name, got, want, dt):
  A.prove_arr(name, got, want)
  if got.dt is None:
    raise S.Unsupported("dtype not tracked")
  S.prove("dtype", S.encode(got.dt) == S.encode(dt))


@contract(P, "Constant", [SRC + "Constant.__init__", SRC + "Constant.__call__"])
def constant(U):
  dt, shape = S.sleaf("dtype"), shapes(0, 3, 0)
  c = S.sreal("c") if S.fork("scalar") or not len(shape) else A.new("c", (shape[-1],))
  if isinstance(c, A.Arr):
    c = A.new("c", tuple(shape)[-1:])
  r, _ = run(U, lambda I: I.Constant(c), shape, dt, 0)
  if r is not None:
    finish("the constant everywhere", r, A.broadcast_to(A.lift(c), tuple(shape)), dt)


@contract(P, "RandomNormal, TruncatedNormal, RandomUniform", [SRC + n + m for n in (
    "RandomNormal", "TruncatedNormal", "RandomUniform") for m in (".__init__", ".__call__")])
def simple(U):
  dt, shape = S.sleaf("dtype"), shapes(0, 3, 0)
  kind = S.pick("kind", ["normal", "truncated", "uniform"])
  default = S.fork("defaults")
  a, b = (None, None) if default else (S.sreal("a"), S.sreal("b"))
  cls = {"normal": "RandomNormal", "truncated": "TruncatedNormal", "uniform": "RandomUniform"}[kind]
  r, key = run(U, lambda I: getattr(I, cls)(*(() if default else (a, b))), shape, dt)
  if r is None:
    return
  if kind == "uniform":
    lo, hi = (0.0, 1.0) if default else (a, b)
    want = A.random_uniform(key, tuple(shape), dt, lo, hi)
  else:
    d = A.random_normal(key, tuple(shape), dt) if kind == "normal" else A.random_truncated_normal(key, -2.0, 2.0, tuple(shape), dt)
    want = d if default else A.lift(a) * d + A.lift(b)
  finish("stddev * draw + mean" if kind != "uniform" else "uniform in [minval, maxval)", r, want, dt)


def fans(shape):
  shape = tuple(shape)
  if len(shape) == 0:
    return 1, 1
  if len(shape) == 1:
    return shape[0], shape[0]
  field = A.product(shape[:-2]) if len(shape) > 2 else 1
  return shape[-2] * field, shape[-1] * field


@contract(P, "_compute_fans", [SRC + "_compute_fans"])
def compute_fans(U):
  shape = shapes(0, 5, 0)
  r = S.outcome(lambda: U("initializers")._compute_fans(shape))
  if not S.no_raise("_compute_fans", r):
    return
  a, b = C.concrete_tuple(r)
  fi, fo = fans(shape)
  S.prove("fan in: inputs times the receptive field", S.eq(a, fi))
  S.prove("fan out: outputs times the receptive field", S.eq(b, fo))


@contract(P, "VarianceScaling", [SRC + "VarianceScaling.__init__", SRC + "VarianceScaling.__call__"])
def variance(U):
  dt, shape = S.sleaf("dtype"), shapes(0, 4)
  mode = S.pick("mode", ["fan_in", "fan_out", "fan_avg"])
  dist = S.pick("distribution", ["truncated_normal", "normal", "uniform", "Uniform"])
  default = mode == "fan_in" and dist == "truncated_normal" and S.fork("defaults")
  scale = 1.0 if default else S.sreal("scale")
  if not default:
    ctx().assume(scale.t >= 0)
  r, key = run(U, lambda I: I.VarianceScaling(*(() if default else (scale, mode, dist))), shape, dt)
  if r is None:
    return
  fi, fo = fans(shape)
  n = {"fan_in": A.rv(S.zint(fi)), "fan_out": A.rv(S.zint(fo)), "fan_avg": (A.rv(S.zint(fi)) + A.rv(S.zint(fo))) / 2}[mode]
  # all dimensions are at least one, so that max(1, n) is n
  s = A.rv(scale if default else scale.t) / n
  if dist == "truncated_normal":
    std = A.sqrt_term(s) / A.rv(core.SReal.lift(.87962566103423978).t)
    want = A.random_truncated_normal(key, -2.0, 2.0, tuple(shape), dt) * A.Arr((), lambda: std)
  elif dist == "normal":
    std = A.sqrt_term(s)
    want = A.random_normal(key, tuple(shape), dt) * A.Arr((), lambda: std)
  else:
    lim = A.sqrt_term(3 * s)
    want = A.random_uniform(key, tuple(shape), dt, A.Arr((), lambda: -lim), A.Arr((), lambda: lim))
  finish("variance scale / n", r, want, dt)


@contract(P, "VarianceScaling of an empty fan", [SRC + "VarianceScaling.__call__"])
def empty_fan(U):
  """A fan of zero counts as one."""
  dt = S.sleaf("dtype")
  shape = (0, S.sint("d", 1)) if S.fork("first") else (S.sint("d", 1), 0)
  scale = S.sreal("scale")
  ctx().assume(scale.t >= 0)
  mode = "fan_in" if int_of(shape[0]) == 0 else "fan_out"
  r, key = run(U, lambda I: I.VarianceScaling(scale, mode, "normal"), shape, dt)
  if r is not None:  # an empty array: its shape and dtype are all there is
    A.prove_shape("variance scale: shape", r, shape)
    S.prove("variance scale: dtype", S.encode(r.dt) == S.encode(dt))


def int_of(x):
  return core.int_val(x)


@contract(P, "VarianceScaling rejects", [SRC + "VarianceScaling.__init__"])
def variance_rejects(U):
  V = U("initializers").VarianceScaling
  kind = S.pick("kind", ["scale", "mode", "distribution"])
  def go():
    if kind == "scale":
      s = S.sreal("scale")
      ctx().assume(s.t < 0)
      return V(s)
    return V(1.0, "fan") if kind == "mode" else V(1.0, "fan_in", "gaussian")
  S.must_raise(kind, S.outcome(go), ValueError)


@contract(P, "UniformScaling", [SRC + "UniformScaling.__init__", SRC + "UniformScaling.__call__"])
def uniform_scaling(U):
  dt, shape = S.sleaf("dtype"), shapes(1, 4)
  scale = S.sreal("scale")
  r, key = run(U, lambda I: I.UniformScaling(scale), shape, dt)
  if r is None:
    return
  n = A.rv(S.zint(A.product(tuple(shape)[:-1]) if len(shape) > 1 else 1))
  lim = A.sqrt_term(3 / n) * scale.t
  want = A.random_uniform(key, tuple(shape), dt, A.Arr((), lambda: -lim), A.Arr((), lambda: lim))
  finish("uniform within scale * sqrt(3 / inputs)", r, want, dt)


@contract(P, "Identity", [SRC + "Identity.__init__", SRC + "Identity.__call__"])
def identity(U):
  dt, shape = S.sleaf("dtype"), shapes(2, 4, 0)
  gain = S.sreal("gain")
  r, _ = run(U, lambda I: I.Identity(gain), shape, dt, 0)
  if r is None:
    return
  want = A.Arr(tuple(shape), lambda *i: z3.If(i[-1] == i[-2], gain.t, z3.RealVal(0)))
  finish("gain on the diagonal of the last two axes", r, want, dt)


@contract(P, "Orthogonal", [SRC + "Orthogonal.__init__", SRC + "Orthogonal.__call__"], note="jnp.linalg.qr assumed")
def orthogonal(U):
  dt = S.sleaf("dtype")
  rank = S.pick("rank", [2, 3])
  shape = L.dims(rank)
  axis = S.pick("axis", [-1, 0, 1, -2])
  scale = S.sreal("scale")
  r, key = run(U, lambda I: I.Orthogonal(scale, axis), shape, dt)
  if r is None:
    return
  rows = shape[axis]
  rest = tuple(d for k, d in enumerate(shape) if k != axis % rank)
  cols = A.product(rest)
  wide = ctx().branch(S.zint(rows) > S.zint(cols))
  m = (rows, cols) if wide else (cols, rows)
  q, rr = A.qr(A.random_normal(key, m, dt))
  q = q * A.sign(A.diag(rr))
  if ctx().branch(S.zint(rows) < S.zint(cols)):
    q = A.transpose(q)
  want = A.moveaxis(A.reshape(q, (rows,) + rest), 0, axis)
  finish("the orthogonal factor, its columns signed by the diagonal, along the axis", r, want * A.lift(scale), dt)


@contract(P, "rank", [SRC + "Orthogonal.__call__", SRC + "Identity.__call__"])
def rank_rejects(U):
  I = U("initializers")
  c = S.pick("kind", [I.Orthogonal, I.Identity])
  with Keys(I):
    r = S.outcome(lambda: c()(L.dims(S.pick("rank", [0, 1])), S.sleaf("dtype")))
  S.must_raise("below rank 2", r, ValueError)
