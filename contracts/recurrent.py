"""C18: recurrent cores compute their gates; unrolling and wrapping thread the state."""
import z3

from contracts import layers as L
from contracts.conv_layers import numbers
from contracts.dense import same_dtype, truncated
from pyvc import arrays as A
from pyvc import containers as C
from pyvc import core
from pyvc import rt
from pyvc import spec as S
from pyvc.core import ctx
from pyvc.spec import contract

P = "C18"

sig, tanh = A.unary("sigmoid"), A.unary("tanh")


def cell(gates, c_prev):
  """The LSTM update from the four gates, in the order input, cell, forget, output."""
  i, g, f, o = A.split(gates, 4, -1)
  c = sig(f + 1) * c_prev + sig(i) * tanh(g)
  return sig(o) * tanh(c), c


def batch(rank):
  return () if rank == 1 else (S.sint("batch", 1),)


@contract(P, "VanillaRNN", ["haiku._src.recurrent.VanillaRNN.__init__", "haiku._src.recurrent.VanillaRNN.__call__",
                            "haiku._src.recurrent.VanillaRNN.initial_state", "haiku._src.recurrent.add_batch"])
def vanilla(U):
  rank = S.pick("rank", [1, 2])
  b, n, h = batch(rank), S.sint("input_size", 1), S.sint("hidden_size", 1)
  double = S.fork("double_bias")
  x, prev = A.new("x", b + (n,)), A.new("prev", b + (h,))
  rnn = U("recurrent").VanillaRNN
  def f():
    m = rnn(h, double)
    return m(x, prev), m.initial_state(None), m.initial_state(S.sint("B", 0))
  r = L.init_apply("VanillaRNN", U, f)
  if r is None:
    return
  i, a = r
  if not L.same_names("parameter entries", i.params, ["vanilla_rnn/linear:w", "vanilla_rnn/linear:b", "vanilla_rnn/linear_1:w"]
                      + ["vanilla_rnn/linear_1:b"] * double):
    return
  p, q = a.params["vanilla_rnn/linear"], a.params["vanilla_rnn/linear_1"]
  (out, nxt), s0, sB = a.out
  h2 = A.dot(prev, q["w"])
  if double:
    h2 = h2 + q["b"]
  want = A.relu(A.dot(x, p["w"]) + p["b"] + h2)
  A.prove_arr("relu(w_i x + b_i + w_h h + b_h)", out, want)
  A.prove_arr("the output is the new state", nxt, want)
  A.prove_arr("initial state", s0, A.const(0.0, (h,)))
  A.prove_arr("batched initial state", sB, A.const(0.0, sB.shp[:1] + (h,)))


@contract(P, "LSTM", ["haiku._src.recurrent.LSTM.__init__", "haiku._src.recurrent.LSTM.__call__",
                      "haiku._src.recurrent.LSTM.initial_state", "haiku._src.recurrent.add_batch"])
def lstm(U):
  rank = S.pick("rank", [1, 2])
  b, n, h = batch(rank), S.sint("input_size", 1), S.sint("hidden_size", 1)
  R = U("recurrent")
  B = S.sint("B", 0)
  x, hp, cp = A.new("x", b + (n,)), A.new("h", b + (h,)), A.new("c", b + (h,))
  def f():
    m = R.LSTM(h)
    return m(x, R.LSTMState(hp, cp)), m.initial_state(None), m.initial_state(B)
  r = L.init_apply("LSTM", U, f)
  if r is None:
    return
  i, a = r
  if not L.same_names("parameter entries", i.params, ["lstm/linear:w", "lstm/linear:b"]):
    return
  p = a.params["lstm/linear"]
  (out, nxt), s0, sB = a.out
  hn, cn = cell(A.dot(A.concatenate([x, hp], -1), p["w"]) + p["b"], cp)
  A.prove_arr("hidden", nxt.hidden, hn)
  A.prove_arr("cell", nxt.cell, cn)
  A.prove_arr("the output is the new hidden", out, hn)
  for s, shape in ((s0, (h,)), (sB, (B, h))):
    A.prove_arr("initial hidden", s.hidden, A.const(0.0, shape))
    A.prove_arr("initial cell", s.cell, A.const(0.0, shape))


@contract(P, "ConvNDLSTM", ["haiku._src.recurrent.ConvNDLSTM.__init__", "haiku._src.recurrent.ConvNDLSTM.__call__",
                            "haiku._src.recurrent.ConvNDLSTM.initial_state", "haiku._src.recurrent.Conv1DLSTM.__init__",
                            "haiku._src.recurrent.Conv2DLSTM.__init__", "haiku._src.recurrent.Conv3DLSTM.__init__"],
          note="1-3 spatial dimensions; the convolution is under contract in C13")
def conv_lstm(U):
  R = U("recurrent")
  n = S.pick("spatial dims", [1, 2, 3])
  batched = S.fork("batched")
  named = S.fork("ConvnDLSTM class")
  b = (S.sint("batch", 1),) if batched else ()
  space, cin, ch = L.dims(n, 1, "s"), S.sint("input_channels", 1), S.sint("output_channels", 1)
  one = S.fork("kernel is an int")
  karg = S.sint("k", 1) if one else L.dims(n, 1, "k")
  kernel = (karg,) * n if one else karg
  B = S.sint("B", 0)
  x, hp, cp = (A.new(k, b + space + (d,)) for k, d in (("x", cin), ("h", ch), ("c", ch)))
  ishape = list(space) if S.fork("input_shape list") else space
  def f():
    m = getattr(R, f"Conv{n}DLSTM")(ishape, ch, karg, name="m") if named else R.ConvNDLSTM(n, ishape, ch, karg, name="m")
    return m(x, R.LSTMState(hp, cp)), m.initial_state(None), m.initial_state(B)
  r = L.init_apply("ConvNDLSTM", U, f)
  if r is None:
    return
  i, a = r
  if not L.same_names("parameter entries", i.params, [f"m/{k}:{v}" for k in ("input_to_hidden", "hidden_to_hidden") for v in "wb"]):
    return
  p, q = a.params["m/input_to_hidden"], a.params["m/hidden_to_hidden"]
  A.prove_shape("input kernel", p["w"], kernel + (cin, 4 * ch))
  A.prove_shape("hidden kernel", q["w"], kernel + (ch, 4 * ch))
  lead = (lambda v: v) if batched else (lambda v: A.expand_dims(v, 0))
  tail = (lambda v: v) if batched else (lambda v: A.squeeze(v, 0))
  conv = lambda v, d: tail(A.conv_general_dilated(lead(v), d["w"], (1,) * n, "SAME", (1,) * n, (1,) * n, numbers(n, True)) + d["b"])
  (out, nxt), s0, sB = a.out
  hn, cn = cell(conv(x, p) + conv(hp, q), cp)
  A.prove_arr("hidden", nxt.hidden, hn)
  A.prove_arr("cell", nxt.cell, cn)
  A.prove_arr("the output is the new hidden", out, hn)
  for s, shape in ((s0, space + (ch,)), (sB, (B,) + space + (ch,))):
    A.prove_arr("initial hidden", s.hidden, A.const(0.0, shape))
    A.prove_arr("initial cell", s.cell, A.const(0.0, shape))


@contract(P, "GRU", ["haiku._src.recurrent.GRU.__init__", "haiku._src.recurrent.GRU.__call__", "haiku._src.recurrent.GRU.initial_state"])
def gru(U):
  rank = S.pick("rank", [1, 2])
  b, n, h = batch(rank), S.sint("input_size", 1), S.sint("hidden_size", 1)
  x, prev = A.new("x", b + (n,), S.sleaf("dtype")), A.new("prev", b + (h,))
  B = S.sint("B", 0)
  custom = S.fork("own initializers")
  made = {}
  def init(k):
    def f(s, d):
      made[k] = A.new(k, tuple(s), d)
      return made[k]
    return f
  kw = {f"{k}_init": init(k) for k in ("w_i", "w_h", "b")} if custom else {}
  def f():
    m = U("recurrent").GRU(h, **kw)
    return m(x, prev), m.initial_state(None), m.initial_state(B)
  r = L.init_apply("GRU", U, f)
  if r is None:
    return
  i, a = r
  if not L.same_names("parameter entries", i.params, ["gru:w_i", "gru:w_h", "gru:b"]):
    return
  p0, p = i.params["gru"], a.params["gru"]
  for k, s in (("w_i", (n, 3 * h)), ("w_h", (h, 3 * h)), ("b", (3 * h,))):
    A.prove_shape(k + " shape", p0[k], s)
    same_dtype(k + " dtype", p0[k], x)
  if not custom:
    A.prove_arr("b starts at zero", p0["b"], A.const(0.0, (3 * h,)))
  (out, nxt), s0, sB = a.out
  wz, wr, wa = A.split(p["w_i"], 3, 1)
  uz, ur, ua = A.split(p["w_h"], 3, 1)
  bz, br, ba = A.split(p["b"], 3, 0)
  z = sig(A.matmul(x, wz) + A.matmul(prev, uz) + bz)
  rr = sig(A.matmul(x, wr) + A.matmul(prev, ur) + br)
  cand = tanh(A.matmul(x, wa) + A.matmul(rr * prev, ua) + ba)
  want = (1 - z) * prev + z * cand
  A.prove_arr("(1-z) h + z tanh(w x + u (r h) + b)", out, want)
  A.prove_arr("the output is the new state", nxt, want)
  A.prove_arr("initial state", s0, A.const(0.0, (h,)))
  A.prove_arr("batched initial state", sB, A.const(0.0, (B, h)))


@contract(P, "rejects", ["haiku._src.recurrent.LSTM.__call__", "haiku._src.recurrent.GRU.__call__",
                         "haiku._src.recurrent._DeepRNN.__init__", "haiku._src.recurrent.deep_rnn_with_skip_connections"])
def rejects(U):
  R = U("recurrent")
  kind = S.pick("kind", ["lstm", "gru", "skip"])
  rank = S.pick("rank", [0, 3, 4])
  x, h = A.new("x", L.dims(rank)), S.sint("h", 1)
  class Core(R.IdentityCore):
    def __repr__(self):
      return "core"
  def f():
    if kind == "skip":
      return R.deep_rnn_with_skip_connections([Core(), lambda v: v])
    if kind == "gru":
      return R.GRU(h)(x, A.new("s", (h,)))
    return R.LSTM(h)(x, R.LSTMState(A.new("h", (h,)), A.new("c", (h,))))
  S.must_raise(kind, L.Init(U, f).r, ValueError)


# -------------------------------------------------------------------- unrolling


def is_dict(t):
  return rt.isinstance_(t, dict)


class Steps:
  """An arbitrary core: output and next state are functions of input and state, calls are recorded."""

  def __init__(self, R, nested, name="core", osize=None):
    self.R, self.nested, self.name, self.calls = R, nested, name, []
    self.osize = osize

  def step(self, x, s):
    """The (output, next state) for an input and a state."""
    xs = [x] if isinstance(x, A.Arr) else [v for _, v in sorted(L.items(x))] if is_dict(x) else list(x)
    ss = [s] if isinstance(s, A.Arr) else list(s)
    shape = xs[0].shp if self.osize is None else xs[0].shp[:-1] + (self.osize,)
    mk = lambda k, sh: A.keyed(f"{self.name}_{k}", tuple(xs) + tuple(ss), sh)
    out = (mk("out", shape), mk("out2", shape)) if self.nested else mk("out", shape)
    nxt = mk("next", s.shp) if isinstance(s, A.Arr) else type(s)(*[mk(f"next{k}", v.shp) for k, v in enumerate(ss)])
    return out, nxt

  def __call__(self, x, s):
    self.calls.append((x, s))
    return self.step(x, s)


def each(name, got, want):
  """prove_arr over matching structures."""
  if isinstance(want, A.Arr):
    return A.prove_arr(name, got, want)
  if isinstance(got, C.EList):
    got = C.concrete_tuple(got)
  if is_dict(want):
    if not is_dict(got) or sorted(dict(L.items(got))) != sorted(dict(L.items(want))):
      return ctx().prove_false(name, f"another structure: {type(got)}")
    return [each(name, got[k], v) for k, v in L.items(want)]
  if type(got) is not type(want) or len(got) != len(want):
    return ctx().prove_false(name, f"another structure: {type(got)}")
  return [each(name, g, w) for g, w in zip(got, want)]


def sequence(kind, time_major, T, rank=2):
  lead = (T, S.sint("batch", 1)) if time_major else (S.sint("batch", 1), T)
  if rank == 1:
    lead = (T,)
  mk = lambda k: A.new(k, lead + (S.sint("size_" + k, 1),))
  return mk("x") if kind == "array" else (mk("x"), mk("y")) if kind == "tuple" else {"b": mk("x"), "a": mk("y")}


def tmap(f, t):
  if isinstance(t, A.Arr):
    return f(t)
  if is_dict(t):
    return {k: tmap(f, v) for k, v in L.items(t)}
  r = [tmap(f, v) for v in t]
  return type(t)(*r) if hasattr(t, "_fields") else type(t)(r)


def start(R, b):
  h = S.sint("hidden", 1)
  return R.LSTMState(A.new("h0", b + (h,)), A.new("c0", b + (h,))) if S.fork("state is a structure") else A.new("s0", b + (h,))


@contract(P, "static_unroll", ["haiku._src.recurrent.static_unroll"], note="bounded: 1-4 steps; sizes, values and core arbitrary")
def static_unroll(U):
  R = U("recurrent")
  major = S.fork("time_major")
  T = S.pick("steps", [1, 2, 3, 4])
  xs = sequence(S.pick("inputs", ["array", "tuple", "dict"]), major, T)
  core_ = Steps(R, S.fork("nested outputs"))
  s0 = start(R, (S.sint("B", 1),))
  r = S.outcome(lambda: R.static_unroll(core_, xs, s0, time_major=major))
  if not S.no_raise("static_unroll", r):
    return
  got, last = r
  s, outs = s0, []
  for t in range(T):
    o, s = core_.step(tmap(lambda v: v[t] if major else v[:, t], xs), s)
    outs.append(o)
  S.prove("the core runs once per step", z3.BoolVal(len(core_.calls) == T))
  ax = 0 if major else 1
  want = A.stack(outs, ax) if isinstance(outs[0], A.Arr) else tuple(A.stack([o[k] for o in outs], ax) for k in range(2))
  each("outputs along the time axis", got, want)
  each("final state", last, s)


@contract(P, "dynamic_unroll", ["haiku._src.recurrent.dynamic_unroll", "haiku._src.recurrent._swap_batch_time"],
          note="hk.scan is under contract in C12, jax.lax.scan assumed")
def dynamic_unroll(U):
  R, base = U("recurrent"), U("base")
  major = S.fork("time_major")
  inside = S.fork("inside transform")
  T = S.sint("T", 0)
  xs = sequence(S.pick("inputs", ["array", "tuple", "dict"]), major, T)
  core_ = Steps(R, S.fork("nested outputs"))
  s0 = start(R, (S.sint("B", 1),))
  given, last, ys = [], tmap(lambda v: A.new("last", v.shp), s0), []
  def scan(f, init, xs, *more, **kw):
    x = tmap(lambda v: A.new("x_t", v.shp[1:]), xs)
    c = tmap(lambda v: A.new("s_t", v.shp), init)
    n2, o = f(c, x)
    given.append((init, xs, more, kw, c, x, n2, o))
    ys.append(tmap(lambda v: A.new("ys", (T,) + v.shp), o))
    return last, ys[0]
  def never(*a, **k):
    raise AssertionError("the other scan")
  lax, hkm = R.jax.lax, R.hk
  old = lax.__dict__.get("scan"), hkm.scan
  lax.__dict__["scan"], hkm.scan = (never, scan) if inside else (scan, never)
  try:
    def go():
      if not inside:
        return R.dynamic_unroll(core_, xs, s0, time_major=major)
      with base.new_context(rng=L.key()):
        return R.dynamic_unroll(core_, xs, s0, time_major=major)
    r = S.outcome(go)
  finally:
    hkm.scan = old[1]
    lax.__dict__.pop("scan") if old[0] is None else lax.__dict__.__setitem__("scan", old[0])
  if not S.no_raise("dynamic_unroll", r):
    return
  S.prove("one scan", z3.BoolVal(len(given) == 1))
  if len(given) != 1:
    return
  init, gx, more, kw, c, x, n2, o = given[0]
  each("starts from the initial state", init, s0)
  each("scans the time axis", gx, xs if major else tmap(lambda v: A.swapaxes(v, 0, 1), xs))
  S.prove("whole sequence, forwards", z3.BoolVal(not more and not kw))
  wo, wn = core_.step(x, c)
  each("step: next state", n2, wn)
  each("step: output", o, wo)
  got, fin = r
  each("final state", fin, last)
  each("outputs along the time axis", got, ys[0] if major else tmap(lambda v: A.swapaxes(v, 0, 1), ys[0]))


@contract(P, "IdentityCore", ["haiku._src.recurrent.IdentityCore.__call__", "haiku._src.recurrent.IdentityCore.initial_state"])
def identity(U):
  x, s = S.sleaf("x"), S.sleaf("s")
  def f():
    m = U("recurrent").IdentityCore()
    return m(x, s), m.initial_state(S.sint("B", 0)), m.initial_state(None)
  i = L.Init(U, f)
  if S.no_raise("IdentityCore", i.r):
    (o, n), a, b = i.out
    S.prove("forwards the inputs and the state", z3.And(S.same(o, x), S.same(n, s)))
    S.prove("empty initial state", z3.BoolVal(a == () and b == ()))


@contract(P, "ResetCore", ["haiku._src.recurrent.ResetCore.__init__", "haiku._src.recurrent.ResetCore.__call__",
                           "haiku._src.recurrent.ResetCore.initial_state", "haiku._src.recurrent.ResetCore._is_batched",
                           "haiku._src.recurrent._validate_and_conform"])
def reset(U):
  R = U("recurrent")
  kind = S.pick("state", ["array", "structure", "matrix", "empty", "with a scalar"])
  batched = S.fork("batched")
  B, h, d = S.sint("B", 1), S.sint("h", 1), S.sint("d", 1)
  b = (B,) if batched else ()
  shapes = {"array": [(h,)], "structure": [(h,), (d,)], "matrix": [(h, d)], "empty": [], "with a scalar": [(), (h,)]}[kind]
  inits = {}
  def initial(n):
    lead = () if n is None else (n,)
    vs = tuple(A.Arr(lead + sh, (lambda z: lambda *i: z.at(*i[len(lead):]))(inits.setdefault(k, A.new(f"init{k}", sh))))
               for k, sh in enumerate(shapes))
    return vs[0] if kind in ("array", "matrix") else vs
  inner = Steps(R, False)
  class Core(R.RNNCore):
    def __call__(self, x, s):
      inner.calls.append((x, s))
      return x, s
    def initial_state(self, n):
      return initial(n)
  vs = [A.new(f"s{k}", b + sh) for k, sh in enumerate(shapes)]
  state = vs[0] if kind in ("array", "matrix") else tuple(vs)
  prefix = S.pick("should_reset rank", [0, 1] if batched else [0]) if kind != "empty" else 0
  nested = len(shapes) == 2 and S.fork("should_reset nested")
  mk = lambda k: A.new(f"reset{k}", b[:prefix], kind="b")
  resets = [mk(k) for k in range(2)] if nested else [mk(0)] * max(len(vs), 1)
  x = A.new("x", b + (S.sint("n", 1),))
  def f():
    m = R.ResetCore(Core())
    return m((x, tuple(resets) if nested else resets[0]), state), m.initial_state(B), m.initial_state(None)
  i = L.Init(U, f)
  if not S.no_raise("ResetCore", i.r):
    return
  (out, nxt), sB, s0 = i.out
  S.prove("the core runs once", z3.BoolVal(len(inner.calls) == 1))
  gx, gs = inner.calls[0]
  A.prove_arr("the core gets the input", gx, x)
  full = initial(B if batched else None)
  full = [full] if isinstance(full, A.Arr) else list(full)
  want = []
  for v, z, q in zip(vs, full, resets):
    t = A.Arr(v.shp, (lambda v, z, q: lambda *k: z3.If(q.at(*k[:prefix]), z.at(*k), v.at(*k)))(v, z, q))
    want.append(t)
  each("the core gets the initial state where reset and the state elsewhere", gs, want[0] if kind in ("array", "matrix") else tuple(want))
  A.prove_arr("output of the core", out, x)
  each("next state of the core", nxt, want[0] if kind in ("array", "matrix") else tuple(want))
  each("initial state of the core", sB, initial(B))
  each("unbatched initial state of the core", s0, initial(None))


@contract(P, "ResetCore rejects", ["haiku._src.recurrent._validate_and_conform"])
def reset_rejects(U):
  R = U("recurrent")
  n, k = S.pick("ranks", [(1, 1), (2, 1), (2, 2), (1, 2), (3, 2)])
  s, r = A.new("s", L.dims(n, 1, "s")), A.new("r", L.dims(k, 1, "r"), kind="b")
  got = S.outcome(lambda: R._validate_and_conform(r, s))
  fits = z3.And(*[S.zint(a) == S.zint(b) for a, b in zip(s.shp, r.shp)]) if k <= n else z3.BoolVal(False)
  if isinstance(got, S.Raised):
    S.prove("refuses only shapes that are no prefix", z3.Not(fits))
    S.must_raise("ValueError", got, ValueError)
    return
  S.prove("accepts only prefixes", fits)
  A.prove_arr("padded on the right", got, A.Arr(r.shp + (1,) * (n - k), lambda *i: r.at(*i[:k]), "b"))


@contract(P, "DeepRNN", ["haiku._src.recurrent._DeepRNN.__init__", "haiku._src.recurrent._DeepRNN.__call__",
                         "haiku._src.recurrent._DeepRNN.initial_state", "haiku._src.recurrent.DeepRNN.__init__",
                         "haiku._src.recurrent.deep_rnn_with_skip_connections"], note="0-3 layers; the cores are arbitrary functions")
def deep(U):
  R = U("recurrent")
  skip = S.fork("skip connections")
  n = S.pick("layers", [1, 2, 3] if skip else [0, 1, 2, 3])
  plain = [not skip and S.fork(f"layer {k} is a function") for k in range(n)]
  b = (S.sint("batch", 1),)
  x = A.new("x", b + (S.sint("n", 1),))
  sizes = [S.sint(f"o{k}", 1) for k in range(n)]
  fs = [Steps(R, False, f"core{k}", sizes[k]) for k in range(n)]
  def mk(k):
    if plain[k]:
      return lambda v: A.keyed(f"layer{k}", (v,), b + (sizes[k],))
    class Core(R.RNNCore):
      def __call__(self, v, s):
        return fs[k](v, s)
      def initial_state(self, m):
        return A.new(f"init{k}", (m, sizes[k])) if m is not None else A.new(f"init{k}", (sizes[k],))
    return Core(name=f"core{k}")
  state = tuple(A.new(f"s{k}", b + (sizes[k],)) for k in range(n) if not plain[k])
  layers = []
  def f():
    layers[:] = [mk(k) for k in range(n)]
    m = R.deep_rnn_with_skip_connections(layers) if skip else R.DeepRNN(layers)
    return m(x, state), m.initial_state(None), m.initial_state(S.sint("B", 1))
  i = L.Init(U, f)
  if not S.no_raise("DeepRNN", i.r):
    return
  (out, nxt), s0, sB = i.out
  cur, outs, states, j = x, [], [], 0
  for k in range(n):
    if skip and k:
      cur = A.concatenate([x, cur], -1)
    if plain[k]:
      cur = A.keyed(f"layer{k}", (cur,), b + (sizes[k],))
    else:
      cur, s = fs[k].step(cur, state[j])
      j += 1
      outs.append(cur)
      states.append(s)
  if skip:
    cur = A.concatenate(outs, -1)
  A.prove_arr("layers in order" if not skip else "layers see the inputs; the outputs are joined", out, cur)
  each("one state per core", nxt, tuple(states))
  for nm, s, lead in (("unbatched", s0, 0), ("batched", sB, 1)):
    S.prove(nm + " initial state: one per core", z3.BoolVal(type(s) is tuple and len(s) == len(states)))
    for v, k in zip(s, [k for k in range(n) if not plain[k]]):
      A.prove_shape(nm + " initial state", v, sB[0].shp[:lead] + (sizes[k],))
