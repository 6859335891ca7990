"""C22: vector quantisation maps each vector to its nearest codebook entry."""
import z3

from contracts import layers as L
from contracts.norm import ema_ref
from pyvc import arrays as A
from pyvc import core
from pyvc import rt
from pyvc import spec as S
from pyvc.core import ctx
from pyvc.spec import contract

P = "C22"
SRC = "haiku._src.nets.vqvae."
KEYS = ["quantize", "loss", "perplexity", "encodings", "encoding_indices", "distances"]


def sizes():
  rank = S.pick("rank", [1, 2, 3])
  D, K = S.sint("embedding_dim", 1), S.sint("num_embeddings", 1)
  return A.new("inputs", L.dims(rank - 1) + (D,)), D, K


def check(got, x, D, K, emb, cost, both, cross):
  ks = sorted(dict(L.items(got)))
  S.prove("entries of the result", z3.BoolVal(ks == sorted(KEYS)))
  if ks != sorted(KEYS):
    return None
  flat = A.reshape(x, (-1, D))
  dist = A.sum_(A.square(flat), 1, True) - 2 * A.matmul(flat, emb) + A.sum_(A.square(emb), 0, True)
  A.prove_arr("squared distances to the codebook", got["distances"], dist)
  near = A.argmin(got["distances"], 1)
  enc = A.one_hot(near, K)
  A.prove_arr("one-hot encodings of the nearest entry", got["encodings"], enc)
  idx = A.reshape(near, x.shp[:-1])
  A.prove_arr("index of the nearest entry", got["encoding_indices"], idx)
  q = A.getitem(A.transpose(emb), (idx,))
  # the value is q; derivatives pass straight through to the inputs
  A.prove_arr("the nearest entry itself", got["quantize"], x + A.stop_gradient(q) - A.stop_gradient(x))
  # the commitment loss trains only the inputs, the codebook loss only the codebook
  loss = A.const(cost) * A.mean(A.square(A.stop_gradient(q) - x))
  A.prove_arr("loss", got["loss"], (A.mean(A.square(q - A.stop_gradient(x))) + loss) if both else loss)
  avg = A.mean(enc, 0)
  if cross:
    avg = A.collective("pmean")(avg, cross)
  A.prove_arr("perplexity", got["perplexity"], A.unary("exp")(-A.sum_(avg * A.unary("log")(avg + A.const(1e-10)))))
  return flat, enc


@contract(P, "VectorQuantizer", [SRC + "VectorQuantizer.__init__", SRC + "VectorQuantizer.__call__", SRC + "VectorQuantizer.quantize"])
def quantizer(U):
  x, D, K = sizes()
  cost = S.sreal("commitment_cost")
  train = S.fork("is_training")
  dt = S.sleaf("dtype")
  def f():
    return U("nets.vqvae").VectorQuantizer(D, K, cost, dt)(x, train)
  r = L.init_apply("VectorQuantizer", U, f)
  if r is None:
    return
  i, a = r
  if not L.same_names("parameter entries", i.params, ["vector_quantizer:embeddings"]):
    return
  emb = a.params["vector_quantizer"]["embeddings"]
  A.prove_shape("codebook", i.params["vector_quantizer"]["embeddings"], (D, K))
  S.prove("codebook dtype", S.encode(i.params["vector_quantizer"]["embeddings"].dt) == S.encode(dt))
  S.prove("no state", z3.BoolVal(L.names(i.state) == []))
  check(a.out, x, D, K, emb, cost, True, None)


@contract(P, "VectorQuantizerEMA", [SRC + "VectorQuantizerEMA." + n for n in ("__init__", "__call__", "quantize", "embeddings")]
          + ["haiku._src.moving_averages.ExponentialMovingAverage.__call__"])
def quantizer_ema(U):
  x, D, K = sizes()
  cost, decay, eps = S.sreal("commitment_cost"), S.sreal("decay"), S.sreal("epsilon")
  ctx().assume(z3.And(decay.t >= 0, decay.t <= 1))
  train = S.fork("is_training")
  cross = "i" if S.fork("cross_replica_axis") else None
  def f():
    return U("nets.vqvae").VectorQuantizerEMA(D, K, cost, decay, eps, cross_replica_axis=cross)(x, train)
  i = L.Init(U, f)
  if not S.no_raise("VectorQuantizerEMA at init", i.r):
    return
  m = "vector_quantizer_ema"
  mc, md = m + "/~/ema_cluster_size", m + "/~/ema_dw"
  st = L.fresh_like(i.state)
  if not S.no_raise("state", st):
    return
  have = L.names(i.state)
  want = [m + ":embeddings"] + [f"{k}:{n}" for k in (mc, md) for n in ("hidden", "average")] + [f"{k}:counter" for k in (mc, md)] * train
  if not L.same_names("state entries", i.state, want):
    return
  A.prove_shape("codebook", i.state[m]["embeddings"], (D, K))
  A.prove_shape("cluster sizes", i.state[mc]["hidden"], (K,))
  A.prove_shape("cluster sums", i.state[md]["hidden"], (D, K))
  a = L.Apply(U, f, {}, st)
  if not S.no_raise("VectorQuantizerEMA at apply", a.r):
    return
  got = check(a.out, x, D, K, st[m]["embeddings"], cost, False, cross)
  if got is None:
    return
  after = a.after
  if not train:
    for mm, n, v in L.entries(st):
      A.prove_arr(f"{mm}:{n} unchanged", after[mm][n], v)
    return
  flat, enc = got
  size, dw = A.sum_(enc, 0), A.matmul(A.transpose(flat), enc)
  if cross:
    size, dw = A.collective("psum")(size, cross), A.collective("psum")(dw, cross)
  d = A.const(decay)
  h1, a1 = ema_ref(st[mc]["hidden"], size, d, True, st[mc]["counter"] + 1)
  h2, a2 = ema_ref(st[md]["hidden"], dw, d, True, st[md]["counter"] + 1)
  A.prove_arr("cluster sizes averaged", after[mc]["hidden"], h1)
  A.prove_arr("cluster sums averaged", after[md]["hidden"], h2)
  A.prove_arr("cluster sizes debiased", after[mc]["average"], a1)
  A.prove_arr("cluster sums debiased", after[md]["average"], a2)
  a1, a2 = after[mc]["average"], after[md]["average"]
  n = A.sum_(a1)
  smooth = (a1 + A.const(eps)) / (n + A.lift(K) * A.const(eps)) * n
  w = A.Arr((D, K), lambda j, k: a2.at(j, k) / smooth.at(k))
  A.prove_arr("the codebook holds the smoothed means of the clusters", after[m]["embeddings"], w)


@contract(P, "rejects", [SRC + "VectorQuantizerEMA.__init__"])
def rejects(U):
  d = S.sreal("decay")
  i = L.Init(U, lambda: U("nets.vqvae").VectorQuantizerEMA(S.sint("D", 1), S.sint("K", 1), S.sreal("c"), d))
  if i.ok:
    S.prove("accepts decays in [0, 1]", z3.And(d.t >= 0, d.t <= 1))
  else:
    S.prove("refuses other decays", z3.Or(d.t < 0, d.t > 1))
    S.must_raise("ValueError", i.r, ValueError)
