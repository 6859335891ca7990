"""C15: Linear, Bias, MLP, Embed, attention and dropout compute the documented functions."""
import z3

from contracts import layers as L
from pyvc import arrays as A
from pyvc import core
from pyvc import spec as S
from pyvc.core import ctx
from pyvc.spec import contract

P = "C15"


def same_dtype(name, got, x):
  if got.dt is None:
    raise S.Unsupported(name + ": dtype not tracked")
  S.prove(name, S.encode(got.dt) == S.encode(x.dtype))


def truncated(name, got, stddev):
  """A draw of a truncated normal, scaled: identifies the draw with whatever the module drew."""
  idx = [core.ctx().fresh("index", core.Int) for _ in got.shp]
  t = got.at(*idx)
  draws = [x for x in subterms(t) if x.decl().name().startswith("op_random_truncated_normal[")]
  if len(draws) != 1:
    return ctx().prove_false(name, f"not a scaled truncated normal draw: {t}")
  leg = A.LEGEND[draws[0].decl().name()]
  S.prove(name + ": truncated at two standard deviations", z3.BoolVal(leg.endswith(",(- 2.0),2.0)")))
  S.prove(name, t == draws[0] * stddev)


def subterms(t):
  todo, seen = [t], {}
  while todo:
    x = todo.pop()
    if x.get_id() in seen:
      continue
    seen[x.get_id()] = x
    todo += x.children()
  return list(seen.values())


def linear_ref(x, p, bias):
  y = A.dot(x, p["w"])
  return y + p["b"] if bias else y


@contract(P, "Linear", ["haiku._src.basic.Linear.__init__", "haiku._src.basic.Linear.__call__"], note="ranks 1-4; sizes symbolic")
def linear(U):
  rank = S.pick("rank", [1, 2, 3, 4])
  x = A.new("x", L.dims(rank), S.sleaf("dtype"))
  n = S.sint("output_size", 1)
  bias = S.fork("with_bias")
  custom = S.fork("own initializers")
  made = []
  def init(k):
    def f(shape, dtype):
      v = A.new(k, tuple(shape), dtype)
      made.append((k, shape, dtype, v))
      return v
    return f
  Lin = U("basic").Linear
  mods = []
  def f():
    m = Lin(n, bias, *((init("w"), init("b")) if custom else ()))
    mods.append(m)
    return m(x)
  r = L.init_apply("Linear", U, f)
  if r is None:
    return
  i, a = r
  if not L.same_names("parameter entries", i.params, ["linear:w"] + ["linear:b"] * bias):
    return
  p0, p = i.params["linear"], a.params["linear"]
  A.prove_shape("w is [input_size, output_size]", p0["w"], (x.shape[-1], n))
  same_dtype("w dtype", p0["w"], x)
  if bias:
    A.prove_shape("b is [output_size]", p0["b"], (n,))
    same_dtype("b dtype", p0["b"], x)
  if custom:
    if len(made) != 1 + bool(bias):
      S.prove("each own initializer is used once", z3.BoolVal(False))
      return
    S.prove("own w_init", S.same(p0["w"], made[0][3]))
    if bias:
      S.prove("own b_init", S.same(p0["b"], made[1][3]))
  else:
    truncated("w has stddev 1/sqrt(fan_in)", p0["w"], 1 / A.sqrt_term(A.rv(S.zint(x.shape[-1]))))
    if bias:
      A.prove_arr("b starts at zero", p0["b"], A.const(0.0, (n,)))
  A.prove_arr("x w + b", a.out, linear_ref(x, p, bias))
  S.prove("records its sizes", z3.And(S.eq(mods[-1].input_size, x.shape[-1]), S.eq(mods[-1].output_size, n)))


@contract(P, "Linear rejects", ["haiku._src.basic.Linear.__call__"])
def linear_rejects(U):
  i = L.Init(U, lambda: U("basic").Linear(S.sint("n", 1))(A.new("x", ())))
  S.must_raise("scalar input", i.r, ValueError)


BIAS_DIMS = {2: [None, [], [1], [-1], (1,)], 3: [None, [], [1], [2], [-1], [-2], [1, 2], [2, 1], [-1, 1]],
             4: [None, [], [1], [2], [3], [-1], [1, 3], [2, 3], (3, 1), [1, 2, 3], [-2]]}


@contract(P, "Bias", ["haiku._src.bias.Bias.__init__", "haiku._src.bias.Bias.__call__", "haiku._src.bias.calculate_bias_shape"],
          note="ranks 2-4; sizes symbolic")
def bias(U):
  rank = S.pick("rank", [2, 3, 4])
  x = A.new("x", L.dims(rank), S.sleaf("dtype"))
  dims = S.pick("bias_dims", BIAS_DIMS[rank])
  mult = S.pick("multiplier", ["none", "scalar", "array"])
  m = None if mult == "none" else S.sreal("m") if mult == "scalar" else A.new("m", x.shape)
  size = S.pick("output_size", [None, "tuple", "list"]) if dims is None else None
  osz = None if size is None else tuple(x.shape[1:]) if size == "tuple" else list(x.shape[1:])
  mods = []
  def f():
    b = U("bias").Bias(output_size=osz, bias_dims=dims)
    mods.append(b)
    return b(x, multiplier=m) if m is not None else b(x)
  r = L.init_apply("Bias", U, f)
  if r is None:
    return
  i, a = r
  if not L.same_names("parameter entries", i.params, ["bias:b"]):
    return
  b0, b = i.params["bias"]["b"], a.params["bias"]["b"]
  if dims is None:
    want = x.shape[1:]
  else:
    full = [d if k in [q % rank for q in dims] else 1 for k, d in enumerate(x.shape)]
    while full and A.is_one(full[0]):
      full.pop(0)
    want = tuple(full)
  A.prove_arr("starts at zero, one bias per element of bias_dims", b0, A.const(0.0, want))
  same_dtype("b dtype", b0, x)
  S.prove("bias_shape", S.eq(tuple(mods[-1].bias_shape), tuple(want)))
  A.prove_arr("x + b", a.out, x + (b if m is None else b * m))


@contract(P, "Bias rejects", ["haiku._src.bias.Bias.__call__", "haiku._src.bias.calculate_bias_shape"])
def bias_rejects(U):
  B = U("bias").Bias
  rank = S.pick("rank", [1, 2, 3, 4])
  x = A.new("x", L.dims(rank))
  if rank == 1:
    return S.must_raise("rank below two", L.Init(U, lambda: B()(x)).r, ValueError)
  k = S.pick("case", ["dims", "size"])
  if k == "size":
    o = L.dims(rank - 1, prefix="o")
    i = L.Init(U, lambda: B(output_size=o)(x))
    same = z3.And(*[S.eq(p, q) for p, q in zip(o, x.shape[1:])])
    if i.ok:
      S.prove("accepts only the given size", same)
    else:
      S.prove("rejects only other sizes", z3.Not(same))
      S.prove("ValueError", z3.BoolVal(isinstance(i.r.exc, ValueError)))
    return
  d = S.sint("dim", -rank, rank + 2)
  r = S.outcome(U("bias").calculate_bias_shape, x.shape, [d])
  bad = z3.Or(d.t == 0, d.t == -rank, d.t >= rank)
  if isinstance(r, S.Raised):
    S.prove("rejects only the batch and absent dimensions", bad)
    S.prove("ValueError", z3.BoolVal(isinstance(r.exc, ValueError)))
  else:
    S.prove("accepts only non-batch dimensions", z3.Not(bad))


@contract(P, "MLP", ["haiku._src.nets.mlp.MLP.__init__", "haiku._src.nets.mlp.MLP.__call__", "haiku._src.nets.mlp.MLP.reverse",
                     "haiku._src.basic.Linear.__call__"], budget=120, note="1-3 layers; sizes symbolic; any activation")
def mlp(U):
  n = S.pick("layers", [1, 2, 3])
  sizes = L.dims(n, prefix="size")
  x = A.new("x", (S.sint("batch", 1), S.sint("input", 1)))
  bias = S.fork("with_bias")
  final = S.fork("activate_final")
  act = A.unary("activation")
  own = S.fork("own activation")
  ref_act = act if own else A.relu
  rev = S.pick("then", ["nothing", "reverse", "reverse with activate_final"])
  M = U("nets.mlp").MLP
  def f():
    kw = {"activation": act} if own else {}
    m = M(iter(sizes) if n == 2 else list(sizes), with_bias=bias, activate_final=final, **kw)
    y = m(x)
    if rev == "nothing":
      return y, None
    r = m.reverse(name="back") if rev == "reverse" else m.reverse(activate_final=not final, name="back")
    return y, r(y)
  r = L.init_apply("MLP", U, f)
  if r is None:
    return
  i, a = r
  def ref(v, pre, ss, fin):
    want = []
    for k, s in enumerate(ss):
      m = f"{pre}/~/linear_{k}"
      want += [m + ":w"] + [m + ":b"] * bias
      v = linear_ref(v, a.params[m], bias)
      if k < len(ss) - 1 or fin:
        v = ref_act(v)
    return v, want
  names = [k for k in L.names(i.params)]
  if rev == "nothing":
    y, want = ref(x, "mlp", sizes, final)
    L.same_names("parameter entries", i.params, want)
    A.prove_arr("layers and activations alternate", a.out[0], y)
    return
  back = sorted({k.partition(":")[0].rpartition("/~/")[0] for k in names if "back" in k})
  if len(back) != 1:
    return ctx().prove_false("reversed module", f"parameters {names}")
  ins = (x.shape[-1],) + sizes[:-1]
  y, _ = ref(x, "mlp", sizes, final)
  z, _ = ref(y, back[0], tuple(reversed(ins)), final if rev == "reverse" else not final)
  A.prove_shape("reverse maps back to the input size", a.out[1], x.shape)
  A.prove_arr("layers in reverse", a.out[1], z)


@contract(P, "MLP dropout", ["haiku._src.nets.mlp.MLP.__call__", "haiku._src.basic.dropout"], note="1-3 layers; any rate")
def mlp_dropout(U):
  n = S.pick("layers", [1, 2, 3])
  sizes = L.dims(n, prefix="size")
  x = A.new("x", (S.sint("batch", 1), S.sint("input", 1)))
  rate = S.sreal("rate")
  final = S.fork("activate_final")
  k = S.pick("case", ["both", "rate only", "rng only"])
  act = A.unary("activation")
  rng = L.key("dropout_key")
  base = U("base")
  def f():
    m = U("nets.mlp").MLP(sizes, activate_final=final, activation=act)
    if k == "both":
      return m(x, rate, rng)
    return m(x, rate) if k == "rate only" else m(x, rng=rng)
  i = L.Init(U, f)
  if k != "both":
    S.must_raise("rate and rng go together", i.r, ValueError)
    return
  bad = z3.Or(rate.t < 0, rate.t >= 1)
  if not i.ok:
    S.prove("rejects only rates outside [0, 1)", bad)
    S.prove("ValueError", z3.BoolVal(isinstance(i.r.exc, ValueError)))
    return
  if n > 1 or final:
    S.prove("accepts only rates in [0, 1)", z3.Not(bad))
  a = L.Apply(U, f, L.fresh_like(i.params), rng=None)
  if not S.no_raise("apply", a.r):
    return
  keys = S.outcome(base.PRNGSequence, rng)
  v = x
  for j in range(n):
    v = linear_ref(v, a.params[f"mlp/~/linear_{j}"], True)
    if j < n - 1 or final:
      if not ctx().branch(rate.t == 0):
        kr = A.const(1.0 - rate)
        v = A.random_bernoulli(next(keys), kr, v.shape) * v / kr
      else:
        next(keys)
      v = act(v)
  A.prove_arr("dropout before every activation, each with its own key", a.out, v)


@contract(P, "dropout", ["haiku._src.basic.dropout"], note="ranks 0-3")
def dropout(U):
  x = A.new("x", L.dims(S.pick("rank", [0, 1, 2, 3])))
  rate = S.sreal("rate")
  k = L.key()
  r = S.outcome(U("basic").dropout, k, rate, x)
  bad = z3.Or(rate.t < 0, rate.t >= 1)
  if isinstance(r, S.Raised):
    S.prove("rejects only rates outside [0, 1)", bad)
    S.prove("ValueError", z3.BoolVal(isinstance(r.exc, ValueError)))
    return
  S.prove("accepts only rates in [0, 1)", z3.Not(bad))
  keep = A.random_bernoulli(k, 1.0 - rate, x.shape)
  A.prove_arr("kept elements are scaled by 1/(1-rate), others are zero", r,
              x if ctx().branch(rate.t == 0) else A.select(keep, x / A.const(1.0 - rate), 0.0))


@contract(P, "Embed", ["haiku._src.embed.Embed.__init__", "haiku._src.embed.Embed.embeddings", "haiku._src.embed.Embed.__call__"],
          note="ids of rank 0-5; sizes symbolic")
def embed(U):
  import numpy as np
  v, d = S.sint("vocab", 1), S.sint("embed_dim", 1)
  given = S.fork("matrix given")
  mat = A.new("matrix", (v, d))
  rank = S.pick("rank", [0, 1, 2, 3, 4, 5])
  base_ids = A.new("ids", L.dims(rank), np.int32, "i")
  def at(*i):
    t = base_ids.at(*i)
    ctx().fact(z3.And(t >= 0, t < v.t), key=("id", t.get_id()))
    return t
  ids = A.Arr(base_ids.shp, at, "i", np.int32)
  E = U("embed")
  st = E.hk.EmbedLookupStyle
  style = S.pick("style", [st.ARRAY_INDEX, st.ONE_HOT, "one_hot", "ARRAY_INDEX"])
  call = S.pick("call style", [None, "ONE_HOT", st.ARRAY_INDEX]) if rank == 1 else None
  sizes = S.fork("sizes given too") if given else True
  def f():
    kw = {"vocab_size": v, "embed_dim": d} if sizes else {}
    if given:
      kw["embedding_matrix"] = mat
    m = E.Embed(lookup_style=style, **kw)
    return m(ids) if call is None else m(ids, lookup_style=call)
  r = L.init_apply("Embed", U, f)
  if r is None:
    return
  i, a = r
  if not L.same_names("parameter entries", i.params, ["embed:embeddings"]):
    return
  e0, e = i.params["embed"]["embeddings"], a.params["embed"]["embeddings"]
  A.prove_shape("embeddings are [vocab, dim]", e0, (v, d))
  if given:
    A.prove_arr("starts at the matrix", e0, mat)
  else:
    truncated("starts at a truncated normal", e0, z3.RealVal(1))
  A.prove_arr("row of each id", a.out, A.Arr(ids.shp + (d,), lambda *i: e.at(ids.at(*i[:-1]), i[-1])))


@contract(P, "Embed rejects", ["haiku._src.embed.Embed.__init__", "haiku._src.embed.Embed.__call__"])
def embed_rejects(U):
  import numpy as np
  E = U("embed").Embed
  n, m, v, d = S.sint("n", 0), S.sint("m", 0), S.sint("vocab", 0), S.sint("dim", 0)
  k = S.pick("case", ["no sizes", "matrix", "float ids"])
  if k == "float ids":
    i = L.Init(U, lambda: E(3, 4)(A.new("ids", (2,), np.float32)))
    return S.must_raise("ids must be integers", i.r, ValueError)
  mat = A.new("matrix", (n, m))
  i = L.Init(U, lambda: E(v, d, embedding_matrix=mat if k == "matrix" else None))
  bad = z3.Or(z3.And(v.t != 0, v.t != n.t), z3.And(d.t != 0, d.t != m.t)) if k == "matrix" else z3.Or(v.t == 0, d.t == 0)
  if i.ok:
    S.prove("accepts only consistent sizes", z3.Not(bad))
  else:
    S.prove("rejects only missing or inconsistent sizes", bad)
    S.prove("ValueError", z3.BoolVal(isinstance(i.r.exc, ValueError)))


@contract(P, "MultiHeadAttention", ["haiku._src.attention.MultiHeadAttention.__init__", "haiku._src.attention.MultiHeadAttention.__call__",
                                    "haiku._src.attention.MultiHeadAttention._linear_projection"], budget=120,
          note="sizes symbolic; default and given value and model sizes")
def attention(U):
  b, t, s, h, k = (S.sint(n, 1) for n in ("batch", "queries", "keys", "heads", "key_size"))
  dt = S.sleaf("dtype")
  q = A.new("query", (b, t, S.sint("dq", 1)), dt)
  key = A.new("key", (b, s, S.sint("dk", 1)), dt)
  val = A.new("value", (b, s, S.sint("dv", 1)), dt)
  vs = S.sint("value_size", 1) if S.fork("value_size given") else None
  ms = S.sint("model_size", 1) if S.fork("model_size given") else None
  mk = S.pick("mask", [None, "one head", "all heads"])
  mask = None if mk is None else A.new("mask", (b, 1 if mk == "one head" else h, t, s))
  def f():
    return U("attention").MultiHeadAttention(h, k, 1.0, value_size=vs, model_size=ms)(q, key, val, mask)
  r = L.init_apply("attention", U, f)
  if r is None:
    return
  i, a = r
  m = "multi_head_attention/"
  if not L.same_names("parameter entries", i.params, [f"{m}{n}:{w}" for n in ("query", "key", "value", "linear") for w in "wb"]):
    return
  V, M = vs or k, ms or k * h
  for n, i_, o in (("query", q.shape[-1], h * k), ("key", key.shape[-1], h * k), ("value", val.shape[-1], h * V), ("linear", h * V, M)):
    A.prove_shape(n + " projection", i.params[m + n]["w"], (i_, o))
  def heads(x, n, size):
    return A.reshape(linear_ref(x, a.params[m + n], True), x.shape[:2] + (h, size))
  Q, K, W = heads(q, "query", k), heads(key, "key", k), heads(val, "value", V)
  lg = A.einsum("bthd,bshd->bhts", Q, K) / A.sqrt(A.const(k))
  if mask is not None:
    lg = lg - 1e10 * (1.0 - mask)
  o = A.einsum("bhts,bshd->bthd", A.softmax(lg), W)
  A.prove_arr("attention", a.out, linear_ref(A.reshape(o, (b, t, h * V)), a.params[m + "linear"], True))


@contract(P, "one_hot", ["haiku._src.basic.one_hot"])
def one_hot(U):
  import numpy as np
  x = A.new("x", L.dims(S.pick("rank", [0, 1, 2])), np.int32, "i")
  n = S.sint("classes", 1)
  r = S.outcome(U("basic").one_hot, x, n)
  if S.no_raise("one_hot", r):
    A.prove_arr("one at the class", r, A.Arr(x.shp + (n,), lambda *i: z3.If(x.at(*i[:-1]) == i[-1], z3.RealVal(1), z3.RealVal(0))))


@contract(P, "multinomial", ["haiku._src.basic.multinomial"], note="sizes symbolic")
def multinomial(U):
  rank = S.pick("rank", [0, 1, 2, 3])
  lg = A.new("logits", L.dims(rank))
  n = S.sint("samples", 1)
  k = L.key()
  r = S.outcome(U("basic").multinomial, k, lg, n)
  if rank in (0, 3):
    S.must_raise("rank", r, ValueError)
    return
  if S.no_raise("multinomial", r):
    A.prove_shape("samples per row", r, lg.shape[:-1] + (n,))
    idx = [ctx().fresh("index", core.Int) for _ in r.shp]
    t = r.at(*idx)
    S.prove("a category", z3.And(t >= 0, t < S.zint(lg.shape[-1])))
