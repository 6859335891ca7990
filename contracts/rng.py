"""C04: random keys are handed out in order, never twice."""
import z3

from pyvc import spec as S
from pyvc import containers as C
from pyvc import core
from pyvc import rt
from pyvc.core import V, Int, Bool, SLeaf, SInt, ctx
from pyvc.models import build as M
from pyvc.spec import contract

P = "C04"
PARENT = z3.Function("ghost_parent", V, V)
IDX = z3.Function("ghost_idx", V, Int)
WIDTH = z3.Function("ghost_width", V, Int)


class Ghost:
  """Ghost history: which keys were split, which were handed out."""

  def __init__(self, base, subkeys="symbolic"):
    c = ctx()
    self.S = z3.Function("was_split", V, Bool)
    self.H = z3.Function("was_handed_out", V, Bool)
    self.key = c.fresh("key", V)
    q = c.fresh_fun("pool", Int, V)
    pos = z3.Function("pool_pos", V, Int)
    self.n = c.fresh("pool.len", Int)
    c.assume(self.n >= 0)
    n = self.n
    def get(i):
      t = q(i)
      inr = z3.And(i >= 0, i < n)
      ctx().fact(z3.Implies(inr, z3.And(pos(t) == i, self.S(PARENT(t)), IDX(t) >= 1,
                                        z3.Not(self.S(t)), z3.Not(self.H(t)))),
                 key=("pool", t.get_id()))
      return M.prng_leaf(t)
    self.pool = C.SSeq(n, get)
    S.record("pool.len", SInt(n))
    self.root = c.fresh("root", V)
    c.assume(z3.Not(self.S(self.key)))
    c.assume(z3.Or(self.key == self.root, z3.And(self.S(PARENT(self.key)), IDX(self.key) == 0)))
    c.assume(z3.And(IDX(self.root) == -1, z3.Not(self.H(self.root)), z3.Not(self.S(PARENT(self.root)))))

  def at(self, x):
    """The history invariant, instantiated at x: handed-out keys are unsplit
    children; a split key other than the root came from a split."""
    c = ctx()
    c.fact(z3.Implies(self.H(x), z3.And(self.S(PARENT(x)), IDX(x) >= 1, z3.Not(self.S(x)))),
           key=("H", x.get_id()))
    c.fact(z3.Implies(z3.And(self.S(x), x != self.root), self.S(PARENT(x))), key=("S", x.get_id()))

  def fresh_seq(self, base):
    seq = object.__new__(base.PRNGSequence)
    object.__setattr__(seq, "_key", M.prng_leaf(self.key))
    object.__setattr__(seq, "_subkeys", C.EList(self.pool, "deque"))
    return seq


def split_axioms(t):
  """Freeness of jax.random.split, instantiated at the split terms in t (assumed)."""
  c = ctx()
  todo, seen = [t], set()
  while todo:
    x = todo.pop()
    if x.get_id() in seen:
      continue
    seen.add(x.get_id())
    todo += x.children()
    if x.decl().name() == "prng_split":
      k, n, i = x.children()
      c.fact(z3.And(PARENT(x) == k, IDX(x) == i, WIDTH(x) == n, x != k), key=("split", x.get_id()))


def pool_terms(seq, i):
  v = S.nth(seq._subkeys.st, i)
  split_axioms(v.t)
  return v.t


def check_inv(g, seq, handed, splits, tag):
  """The pool/key after the call, against the history extended with what happened.

  handed: [key terms handed out by this call]; splits: [keys split by this call]."""
  c = ctx()
  H2 = lambda x: z3.Or(g.H(x), *[x == h for h in handed])
  S2 = lambda x: z3.Or(g.S(x), *[x == s for s in splits])
  key = seq._key.t
  split_axioms(key)
  for x in [key] + list(handed) + list(splits):
    g.at(x)
  for h in handed:
    split_axioms(h)
    S.prove(tag + "handed-out key was never handed out before", z3.Not(g.H(h)))
    S.prove(tag + "handed-out key was never split", z3.Not(S2(h)))
    S.prove(tag + "handed-out key is not the key kept for splitting", h != key)
  S.prove(tag + "kept key was never split", z3.Not(S2(key)))
  S.prove(tag + "kept key was never handed out", z3.Not(H2(key)))
  n = S.length(seq._subkeys)
  if c.branch(S.zint(n) > 0):
    a = S.index("a", n)
    ta = pool_terms(seq, a)
    g.at(ta)
    S.prove(tag + "pooled key not handed out", z3.Not(H2(ta)))
    S.prove(tag + "pooled key not split", z3.Not(S2(ta)))
    S.prove(tag + "pooled key is not the kept key", ta != key)
    S.prove(tag + "pooled key comes from a split", z3.And(S2(PARENT(ta)), IDX(ta) >= 1))
    if c.branch(S.zint(n) > 1):
      b = S.index("b", n)
      c.assume(a.t != b.t)
      tb = pool_terms(seq, b)
      S.prove(tag + "pooled keys distinct", ta != tb)


def splits_between(g, seq):
  """Keys split by the call: the ancestors of the new key down to the old one."""
  out, k = [], seq._key.t
  while not k.eq(g.key):
    if k.decl().name() != "prng_split":
      return None
    k = k.children()[0]
    out.append(k)
  return out


@contract(P, "PRNGSequence.__next__", ["haiku._src.base.PRNGSequence.__next__", "haiku._src.base.PRNGSequence.reserve"])
def next_(U):
  base = U("base")
  g = Ghost(base)
  seq = g.fresh_seq(base)
  r = S.outcome(lambda: seq.__next__())
  if not S.no_raise("next", r):
    return
  sp = splits_between(g, seq)
  S.prove("key only advances by splitting", z3.BoolVal(sp is not None))
  if sp is None:
    return
  check_inv(g, seq, [r.t], sp, "")
  if ctx().branch(g.n > 0):
    S.prove("oldest reserved key first", r.t == S.nth(g.pool, 0).t)
    S.prove("no split when keys are reserved", seq._key.t == g.key)
    S.prove("pool shrinks by one", S.eq(S.length(seq._subkeys), SInt(g.n - 1)))
    i = S.index("i", S.length(seq._subkeys)) if ctx().branch(g.n > 1) else None
    if i is not None:
      S.prove("order kept", S.nth(seq._subkeys.st, i).t == S.nth(g.pool, i + 1).t)


@contract(P, "PRNGSequence.reserve", ["haiku._src.base.PRNGSequence.reserve"])
def reserve(U):
  base = U("base")
  g = Ghost(base)
  seq = g.fresh_seq(base)
  num = S.sint("num")
  r = S.outcome(lambda: seq.reserve(num))
  if not S.no_raise("reserve", r):
    return
  sp = splits_between(g, seq)
  S.prove("key only advances by splitting", z3.BoolVal(sp is not None))
  if sp is None:
    return
  check_inv(g, seq, [], sp, "")
  S.prove("exactly max(num, 0) more keys", S.eq(S.length(seq._subkeys), SInt(g.n + z3.If(num.t > 0, num.t, 0))))
  if ctx().branch(g.n > 0):
    i = S.index("i", SInt(g.n))
    S.prove("reserved keys stay in front, in order", S.nth(seq._subkeys.st, i).t == S.nth(g.pool, i).t)


@contract(P, "PRNGSequence.take", ["haiku._src.base.PRNGSequence.take"], budget=90)
def take(U):
  base = U("base")
  g = Ghost(base)
  seq = g.fresh_seq(base)
  num = S.sint("num", 0)
  r = S.outcome(lambda: seq.take(num))
  if not S.no_raise("take", r):
    return
  S.prove("returns num keys", S.eq(S.length(r), num))
  sp = splits_between(g, seq)
  S.prove("key only advances by splitting", z3.BoolVal(sp is not None))
  if sp is None:
    return
  if ctx().branch(num.t > 0):
    a = S.index("take_i", num)
    ta = S.nth(r, a).t
    check_inv(g, seq, [ta], sp, "")
    if ctx().branch(num.t > 1):
      b = S.index("take_j", num)
      ctx().assume(a.t != b.t)
      tb = S.nth(r, b).t
      split_axioms(tb)
      S.prove("taken keys are distinct", ta != tb)
    if ctx().branch(a.t < g.n):
      S.prove("reserved keys first, in order", ta == S.nth(g.pool, a).t)
  else:
    check_inv(g, seq, [], sp, "")


@contract(P, "PRNGSequence.reserve_up_to_full", ["haiku._src.base.PRNGSequence.reserve_up_to_full"])
def upto(U):
  base = U("base")
  g = Ghost(base)
  seq = g.fresh_seq(base)
  r = S.outcome(lambda: seq.reserve_up_to_full())
  if not S.no_raise("reserve_up_to_full", r):
    return
  sp = splits_between(g, seq)
  S.prove("key only advances by splitting", z3.BoolVal(sp is not None))
  if sp is None:
    return
  check_inv(g, seq, [], sp, "")


@contract(P, "PRNGSequence internal_state / replace_internal_state / constructor",
          ["haiku._src.base.PRNGSequence.internal_state", "haiku._src.base.PRNGSequence.replace_internal_state",
           "haiku._src.base.PRNGSequence.__init__"])
def roundtrip(U):
  base = U("base")
  g = Ghost(base)
  seq = g.fresh_seq(base)
  st = S.outcome(lambda: seq.internal_state)
  if not S.no_raise("internal_state", st):
    return
  if S.fork("constructor"):
    r = S.outcome(lambda: base.PRNGSequence(st))
    if not S.no_raise("constructor", r):
      return
    tgt = r
  else:
    tgt = base.PRNGSequence(7)
    if not S.no_raise("replace_internal_state", S.outcome(lambda: tgt.replace_internal_state(st))):
      return
  S.prove("same key", tgt._key.t == g.key)
  S.prove("same number of reserved keys", S.eq(S.length(tgt._subkeys), SInt(g.n)))
  if ctx().branch(g.n > 0):
    i = S.index("i", SInt(g.n))
    S.prove("same reserved keys, same order", S.nth(tgt._subkeys.st, i).t == S.nth(g.pool, i).t)


@contract(P, "PRNGSequence(seed or key)", ["haiku._src.base.PRNGSequence.__init__"])
def ctor(U):
  base = U("base")
  if S.fork("seed"):
    s = S.sint("seed")
    seq = base.PRNGSequence(s)
    S.prove("key of the seed", seq._key.t == M.SEED(s.t))
  else:
    k = M.prng_leaf(ctx().fresh("key", V))
    seq = base.PRNGSequence(k)
    S.prove("key kept", seq._key.t == k.t)
  S.prove("nothing reserved", S.eq(S.length(seq._subkeys), 0))
