"""C23: keys come from the innermost sequence only; with_rng and optimize_rng_use leave the others alone.

Modular: the operations of PRNGSequence themselves are proved in C04; here the public functions are shown
to be exactly one operation of the innermost sequence (compared with that operation on a copy)."""
import z3

from contracts.stateful import World, prng_state, same_rng, same_store, same_view
from pyvc import containers as C
from pyvc import core
from pyvc import spec as S
from pyvc.core import SInt, SLeaf, V, Bool, Int, Str, ctx
from pyvc.models import build as M
from pyvc.spec import contract

P = "C23"


def sequence(base, name):
  seq = object.__new__(base.PRNGSequence)
  key, subkeys = prng_state(name)
  object.__setattr__(seq, "_key", key)
  object.__setattr__(seq, "_subkeys", C.EList(subkeys, "deque"))
  return seq


def snap(seq):
  return seq._key, (seq._subkeys.st if isinstance(seq._subkeys.st, C.SSeq) else tuple(seq._subkeys.st))


def copy(base, seq):
  key, sub = snap(seq)
  new = object.__new__(base.PRNGSequence)
  object.__setattr__(new, "_key", key)
  object.__setattr__(new, "_subkeys", C.EList(sub, "deque"))
  return new


def same_keys(tag, got, want):
  S.prove(tag + ": as many keys", S.eq(S.length(got), S.length(want)))
  if ctx().branch(S.zint(S.length(want)) > 0):
    i = S.index("key_i", S.length(want))
    S.prove(tag + ": the same keys in order", S.same(S.nth(got, i), S.nth(want, i)))


OPS = ["next_rng_key", "maybe_next_rng_key", "next_rng_keys", "reserve_rng_keys"]
FNS = ["haiku._src.base." + o for o in OPS] + ["haiku._src.base.next_rng_key_internal", "haiku._src.base.rng_seq_or_fail"]


@contract(P, "key functions use the innermost sequence", FNS + ["haiku._src.data_structures.Stack.peek"], budget=120)
def innermost(U):
  base = U("base")
  seqs = [sequence(base, f"rng{k}") for k in range(1 + S.pick("enclosing sequences", [0, 1, 2]))]
  missing = S.fork("innermost is None")
  hctx = base.HaikuContext(S.two_level("params"), C.EDict2(()), seqs[0])
  with hctx:
    stack = base.current_frame().rng_stack
    for s in seqs[1:]:
      stack.push(s)
    if missing:
      stack.push(None)
    op = S.pick("operation", OPS)
    num = S.sint("num", 0)
    args = (num,) if op in ("next_rng_keys", "reserve_rng_keys") else ()
    before = [snap(s) for s in seqs]
    ref = copy(base, seqs[-1])
    r = S.outcome(lambda: getattr(base, op)(*args))
    if missing:
      if op == "maybe_next_rng_key":
        S.prove("maybe_next_rng_key is None without a sequence", z3.BoolVal(r is None))
      else:
        S.must_raise(op + " without a sequence", r, ValueError)
      k = S.pick("which", list(range(len(seqs))))
      same_rng("no sequence changes", snap(seqs[k]), before[k])
      return
    if not S.no_raise(op, r):
      return
    if op == "next_rng_keys":
      same_keys(op, r, ref.take(num))
    elif op == "reserve_rng_keys":
      ref.reserve(num)
    else:
      S.prove(op + ": the next key of the innermost sequence", S.same(r, next_of(ref)))
    k = S.pick("which", list(range(len(seqs))))
    if k == len(seqs) - 1:
      same_rng(op + ": the innermost sequence advances as its own operation does", snap(seqs[k]), snap(ref))
    else:
      same_rng(op + ": the other sequences are untouched", snap(seqs[k]), before[k])


def next_of(seq):
  return seq.__next__()


@contract(P, "key functions need a transform", FNS + ["haiku._src.base.with_rng", "haiku._src.base.assert_context"])
def outside(U):
  base = U("base")
  op = S.pick("operation", OPS + ["with_rng"])
  arg = {"next_rng_keys": (2,), "reserve_rng_keys": (2,), "with_rng": (M.prng_leaf(ctx().fresh("key", V)),)}.get(op, ())
  S.must_raise(op + " outside a transform", S.outcome(lambda: getattr(base, op)(*arg)), ValueError)


@contract(P, "with_rng", ["haiku._src.base.with_rng", "haiku._src.data_structures.Stack.__call__"], budget=120)
def with_rng(U):
  base = U("base")
  outer = sequence(base, "outer") if S.fork("rng given") else None
  depth = S.pick("nested", [1, 2])
  fails = S.fork("the body raises")
  keys = [M.prng_leaf(ctx().fresh(f"key{k}", V)) for k in range(depth)]
  with base.HaikuContext(S.two_level("params"), C.EDict2(()), outer):
    frame = base.current_frame()
    before = None if outer is None else snap(outer)
    n = S.pick("draws", [0, 1, 3])
    refs = [base.PRNGSequence(k) for k in keys]
    seen = []
    def body(level):
      with base.with_rng(keys[level]):
        for _ in range(n):
          seen.append((base.next_rng_key(), next_of(refs[level])))
        if level + 1 < depth:
          body(level + 1)
          seen.append((base.next_rng_key(), next_of(refs[level])))
        if fails:
          raise core.UserError("body")
    r = S.outcome(lambda: body(0))
    if fails:
      S.prove("the exception of the body goes through", z3.BoolVal(isinstance(r, S.Raised) and isinstance(r.exc, core.UserError)))
    elif not S.no_raise("with_rng", r):
      return
    for k, (got, want) in enumerate(seen):
      S.prove("keys inside come from the sequence of the given key", S.same(got, want))
    S.prove("afterwards the enclosing sequence is in force again", z3.BoolVal(frame.rng_stack.peek() is outer))
    if outer is not None:
      same_rng("the enclosing sequence is untouched", snap(outer), before)


def optimize(stores, U):
  base, rnd = U("base"), U("random")
  init, rng = S.pick("frame", [(True, True), (False, True), (True, False)] if stores else [(False, True), (True, False)])
  w = World(U, init, rng)
  n = S.pick("keys drawn", [1] if stores else [0, 1, 2]) if rng else 0
  keys = n == 2
  runs = []
  def f(*args, **kw):
    seen = w.view()
    drawn = [base.next_rng_key() for _ in range(n)]
    if not rng:
      drawn.append(base.maybe_next_rng_key())
    if keys:
      drawn += list(C.concrete_tuple(base.next_rng_keys(2)))
    if stores:
      rest("f")
    runs.append((base.current_frame(), seen, drawn, args, kw, base.next_rng_key_internal))
    return out
  out, x, y = S.sleaf("out"), S.sleaf("x"), S.sleaf("y")
  def rest(tag):
    r = base.current_frame().rng_stack.peek()
    keep = None if r is None else snap(r)
    w.arbitrary_step(tag + str(len(runs)))
    if r is not None:
      object.__setattr__(r, "_key", keep[0])
      object.__setattr__(r, "_subkeys", C.EList(keep[1], "deque"))
  orig = base.next_rng_key_internal
  with w.hctx:
    frame = base.current_frame()
    before = w.view()
    ref = None
    if rng:
      ref = copy(base, w.rng)
      ref.reserve(n)
    reserved = None if ref is None else snap(ref)
    r = S.outcome(lambda: rnd.optimize_rng_use(f)(x, y=y))
    if not S.no_raise("optimize_rng_use", r):
      return
    S.prove("the result is that of the function", S.same(r, out))
    S.prove("the key functions are as before", z3.BoolVal(base.next_rng_key_internal is orig))
    S.prove("back in the frame of the caller", z3.BoolVal(base.current_frame() is frame))
    real = [q for q in runs if q[0] is frame]
    S.prove("the function runs once in the frame of the caller", z3.BoolVal(len(real) == 1))
    if len(real) != 1:
      return
    _, seen, drawn, args, kw, _ = real[0]
    ok = len(args) == 1 and list(kw) == ["y"]
    S.prove("the arguments of the caller", z3.And(S.same(args[0], x), S.same(kw["y"], y)) if ok else z3.BoolVal(False))
    if stores:
      same_view("the function sees the caller's", (seen[0], seen[1], reserved), (before[0], before[1], reserved),
                S.pick("part", ["params", "state"]))
      return
    if ref is None:
      S.prove("still no sequence", z3.BoolVal(seen[2] is None))
      for v in drawn:
        S.prove("and no keys", z3.BoolVal(v is None))
      return
    same_rng("as many keys as it draws are reserved at once", seen[2], reserved)
    want = [next_of(ref) for _ in range(n)]
    if keys:
      want += list(C.concrete_tuple(ref.take(2)))
    for v, u in zip(drawn, want):
      S.prove("keys in order", S.same(v, u))
    same_rng("afterwards the sequence is where the function left it", snap(w.rng), snap(ref))


for _s, _w in ((True, "params and state"), (False, "keys")):
  contract(P, "optimize_rng_use: " + _w, ["haiku._src.random.optimize_rng_use", "haiku._src.random.count_hk_rngs_requested"],
           budget=200, note="functions that draw 0-4 keys; arbitrary params, state and sequence")((lambda s: lambda U: optimize(s, U))(_s))


@contract(P, "optimize_rng_use of a function that fails", ["haiku._src.random.count_hk_rngs_requested"], budget=120)
def optimize_fails(U):
  base, rnd = U("base"), U("random")
  seq = sequence(base, "rng")
  orig = base.next_rng_key_internal
  with base.HaikuContext(S.two_level("params"), C.EDict2(()), seq):
    before = snap(seq)
    frame = base.current_frame()
    n = S.pick("keys drawn", [0, 2])
    def f():
      for _ in range(n):
        base.next_rng_key()
      raise core.UserError("f")
    r = S.outcome(lambda: rnd.optimize_rng_use(f)())
    S.prove("its exception goes through", z3.BoolVal(isinstance(r, S.Raised) and isinstance(r.exc, core.UserError)))
    S.prove("the key functions are as before", z3.BoolVal(base.next_rng_key_internal is orig))
    S.prove("back in the frame of the caller", z3.BoolVal(base.current_frame() is frame))
    same_rng("a dry run that fails uses no keys", snap(seq), before)


@contract(P, "running_init", ["haiku._src.transform.running_init", "haiku._src.base.params_frozen"])
def running_init(U):
  base, tr = U("base"), U("transform")
  S.must_raise("outside a transform", S.outcome(lambda: tr.running_init()), ValueError)
  init = S.fork("init")
  w = World(U, init, True)
  with w.hctx:
    S.prove("true exactly while parameters can be created", z3.BoolVal(tr.running_init() is init))
