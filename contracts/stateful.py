"""C11: hk.jit, remat, named_call, grad, value_and_grad, vmap, eval_shape thread params, state and rng through.

Modular: `update_recursive` and `difference` are proved against their contracts on
arbitrary two-level stores; the wrappers are then verified against those contracts
(their bodies are not re-executed) with the user function replaced by an arbitrary
change of the frame it runs in."""
import z3

from contracts import harness as Hn
from contracts.store import frame_unchanged, state_store, unchanged
from pyvc import containers as C
from pyvc import core
from pyvc import rt
from pyvc import spec as S
from pyvc.containers import EDict2
from pyvc.core import SInt, SLeaf, Str, V, Bool, Int, ctx
from pyvc.models import build as M
from pyvc.spec import contract

P = "C11"


class Def2:
  """A two-level mapping defined by formulas; `none` tells which values are None."""

  def __init__(self, name, has1, has2, val, none=None, enum1=None):
    self.name, self.has1, self.has2, self.val, self.none, self.enum1 = name, has1, has2, val, none, enum1


def none_at(store, k1, k2):
  if len(store.st) == 1 and isinstance(store.st[0], C.L2B):
    n = getattr(store.st[0].b, "none", None)
    if n is not None:
      return n(k1, k2)
  return z3.BoolVal(False)


def look(store, a, b):
  return store.find2(core.mk_str(a), core.mk_str(b))


# contracts of the helpers, as specifications --------------------------------


def spec_update(dst, src):
  """dst afterwards has the rows and the non-None entries of src, and its own other entries."""
  old = EDict2(dst.st, dst.plain)
  src = EDict2(src.st, True)
  new2 = lambda a, b: z3.And(src.mem2(a, b), z3.Not(none_at(src, a, b)))
  def val(a, b):
    if ctx().branch(new2(a, b)):
      return look(src, a, b)[1]
    found, v = look(old, a, b)
    if not found:
      raise core.PathAbort()
    return v
  return Def2("updated", lambda a: z3.Or(old.mem1(a), src.mem1(a)),
              lambda a, b: z3.Or(old.mem2(a, b), new2(a, b)), val)


def spec_difference(before, after, is_new):
  """The keys of `after`; a value is None where `before` has the very same value."""
  before, after = EDict2(before.st, True), EDict2(after.st, True)
  def none(a, b):
    if not ctx().branch(before.mem2(a, b)):
      return z3.BoolVal(False)
    return z3.Not(is_new(look(before, a, b)[1], look(after, a, b)[1]))
  def val(a, b):
    if ctx().branch(none(a, b)):
      return None
    return look(after, a, b)[1]
  return Def2("difference", after.mem1, after.mem2, val, none)


def sparse_store(name, mk):
  """An arbitrary store some of whose values are None."""
  c = ctx()
  b = C.Base2(name, None)
  isnone = c.fresh_fun(name + ".none", Str, Str, Bool)
  b.none = isnone
  b.val = lambda a, k: None if ctx().branch(isnone(a, k)) else mk(a, k)
  return EDict2((C.L2B(b),))


def same_store(tag, got, want):
  """The two stores agree at an arbitrary key."""
  k1, k2 = S.sstr("k1"), S.sstr("k2")
  S.prove(tag + ": same rows", got.mem1(k1.t) == want.mem1(k1.t))
  S.prove(tag + ": same entries", got.mem2(k1.t, k2.t) == want.mem2(k1.t, k2.t))
  if ctx().branch(want.mem2(k1.t, k2.t)):
    f, v = got.find2(k1, k2)
    w = want.find2(k1, k2)[1]
    S.prove(tag + ": same values", z3.BoolVal(False) if not f else same_pair(v, w))


def same_pair(v, w):
  if v is None or w is None:
    return z3.BoolVal(v is w)
  if isinstance(w, tuple):
    if type(v) is not type(w):
      return z3.BoolVal(False)
    return z3.And(*[S.same(x, y) for x, y in zip(v, w)])
  return S.same(v, w)


def params_or_state(base):
  c = ctx()
  if S.fork("state"):
    def mk(name):
      vi, vc = c.fresh_fun(name + ".initial", Str, Str, V), c.fresh_fun(name + ".current", Str, Str, V)
      return lambda a, b: base.StatePair(SLeaf(vi(a, b)), SLeaf(vc(a, b)))
  else:
    def mk(name):
      vf = c.fresh_fun(name + ".val", Str, Str, V)
      return lambda a, b: SLeaf(vf(a, b))
  return mk


@contract(P, "update_recursive: a whole store", ["haiku._src.stateful.update_recursive"], budget=120)
def update(U):
  base, st = U("base"), U("stateful")
  mk = params_or_state(base)
  dst = S.two_level("dst", mk("dst"))
  src = sparse_store("src", mk("src"))
  want = EDict2((C.L2B(spec_update(dst, src)),))
  s0 = src.st
  r = S.outcome(lambda: st.update_recursive(dst, src))
  if S.no_raise("update", r):
    S.prove("source untouched", z3.BoolVal(src.st is s0))
    same_store("updated", dst, want)


def is_new_param(a, b):
  return z3.Not(S.same(a, b))


def is_new_state(a, b):
  return z3.Or(*[z3.Not(S.same(x, y)) for x, y in zip(a, b)])


def prng_state(name, n=None):
  """An arbitrary PRNGSequenceState: a key and a tuple of (n) keys."""
  c = ctx()
  key, q = c.fresh(name + ".key", V), c.fresh_fun(name + ".subkeys", Int, V)
  return M.prng_leaf(key), C.sym_seq(name + ".subkeys", lambda i: M.prng_leaf(q(i)), "tuple", None if n is None else core.zint(n))


@contract(P, "difference of two internal states", ["haiku._src.stateful.difference", "haiku._src.stateful.box_and_fill_missing"],
          budget=200)
def diff(U):
  base, st = U("base"), U("stateful")
  c = ctx()
  def pair(name):
    vi, vc = c.fresh_fun(name + ".initial", Str, Str, V), c.fresh_fun(name + ".current", Str, Str, V)
    return lambda a, b: base.StatePair(SLeaf(vi(a, b)), SLeaf(vc(a, b)))
  part = S.pick("compare", ["params", "state", "rng"])
  none = lambda: EDict2((), True)
  p0, p1, s0, s1, r0, r1 = none(), none(), none(), none(), None, None
  if part == "params":
    p0, p1 = S.two_level("params0"), S.two_level("params1")
  elif part == "state":
    s0, s1 = S.two_level("state0", pair("state0")), S.two_level("state1", pair("state1"))
  elif S.fork("rng before"):
    r0 = prng_state("rng0")
    r1 = r0 if S.fork("same rng") else prng_state("rng1")
  elif S.fork("rng after"):
    r1 = prng_state("rng1")
  before, after = st.InternalState(p0, s0, r0), st.InternalState(p1, s1, r1)
  r = S.outcome(lambda: st.difference(before, after))
  if not S.no_raise("difference", r):
    return
  if part == "params":
    same_store("params", r.params, EDict2((C.L2B(spec_difference(p0, p1, is_new_param)),)))
  elif part == "state":
    same_store("state", r.state, EDict2((C.L2B(spec_difference(s0, s1, is_new_state)),)))
  elif r1 is None:
    S.prove("no rng", z3.BoolVal(r.rng is None))
  elif r.rng is None:
    S.prove("rng dropped only when nothing of it changed", z3.BoolVal(r0 is not None and r1 is r0))
  else:
    S.prove("rng after", z3.BoolVal(r.rng is r1))
  for part, x in (("params", r.params), ("state", r.state)):
    S.prove(part + ": a store", z3.BoolVal(isinstance(x, (EDict2, C.EDict, dict))))


# --------------------------------------------------------------- the wrappers


class Modular:
  """Within the block the two helpers are used through their contracts, not their bodies."""

  def __init__(self, st):
    self.st = st

  def __enter__(self):
    st = self.st
    self.old = st.update_recursive, st.difference

    def update_recursive(dst, src):
      if not isinstance(dst, EDict2) or not isinstance(src, EDict2):
        raise core.Unsupported("update_recursive of something else")
      dst._set((C.L2B(spec_update(dst, src)),))

    def difference(before, after):
      def sub(a, b, is_new, what):
        if isinstance(a, EDict2) and isinstance(b, EDict2):
          return EDict2((C.L2B(spec_difference(a, b, is_new)),), True)
        return S.sleaf("difference." + what)
      return st.InternalState(sub(before.params, after.params, is_new_param, "params"),
                              sub(before.state, after.state, is_new_state, "state"),
                              None if after.rng is before.rng else after.rng)
    st.update_recursive, st.difference = update_recursive, difference

  def __exit__(self, *a):
    self.st.update_recursive, self.st.difference = self.old


class Inside:
  """The context of a World."""

  def __init__(self, w):
    self.w = w
    self.ctx = w.base.HaikuContext(w.params, w.state, w.outer or w.rng)

  def __enter__(self):
    r = self.ctx.__enter__()
    if self.w.outer is not None:
      self.w.base.current_frame().rng_stack.push(self.w.rng)
    return r

  def __exit__(self, *a):
    return self.ctx.__exit__(*a)


class World:
  """An arbitrary frame, at init or at apply, and arbitrary user functions running in it."""

  def __init__(self, U, init, rng):
    self.U, self.base, self.st = U, U("base"), U("stateful")
    c = ctx()
    self.state, _, _ = state_store(self.base)
    self.init = init
    self.params = S.two_level("params") if init else Hn.frozen_params(U)[0]
    self.rng = self.block = None
    if rng:
      self.rng = object.__new__(self.base.PRNGSequence)
      self.block = self.base.DEFAULT_PRNG_RESERVE_SIZE if rng == "full" else None
      key, subkeys = prng_state("rng", self.block)
      object.__setattr__(self.rng, "_key", key)
      object.__setattr__(self.rng, "_subkeys", C.EList(subkeys, "deque"))
    self.outer = None
    if rng == "inner":          # the sequence of a with_rng inside one that must not be touched
      self.outer = object.__new__(self.base.PRNGSequence)
      key, subkeys = prng_state("outer_rng")
      object.__setattr__(self.outer, "_key", key)
      object.__setattr__(self.outer, "_subkeys", C.EList(subkeys, "deque"))
      self.outer_before = key, subkeys
    self.hctx = Inside(self)
    self.calls = []
    self.loop = False           # inside a loop no new parameters may appear

  def view(self):
    """What code running now can observe: params, state, rng."""
    frame = self.base.current_frame()
    rng = frame.rng_stack.peek()
    snap = lambda s: EDict2(s.st, s.plain) if isinstance(s, EDict2) else s
    return snap(frame.params), snap(frame.state), None if rng is None else (rng._key, tuple_of(rng._subkeys))

  def arbitrary_step(self, tag):
    """Whatever haiku calls user code makes: entries may appear, state may change,
    new parameters may appear during init, keys may be drawn."""
    c, base = ctx(), self.base
    frame = base.current_frame()
    vi, vc, vp = [c.fresh_fun(tag + n, Str, Str, V) for n in (".initial", ".current", ".param")]
    def grown(old, val):
      old = EDict2(old.st, old.plain)
      h1, h2 = c.fresh_fun(tag + ".new1", Str, Bool), c.fresh_fun(tag + ".new2", Str, Str, Bool)
      has1 = lambda a: z3.Or(old.mem1(a), h1(a))
      return Def2(tag, has1, lambda a, b: z3.Or(old.mem2(a, b), z3.And(has1(a), h2(a, b))), val(old))
    frame.state._set((C.L2B(grown(frame.state, lambda old: lambda a, b: base.StatePair(
        SLeaf(vi(a, b)), SLeaf(vc(a, b))))),))
    if isinstance(frame.params, EDict2) and not self.loop:
      def keep(old):
        return lambda a, b: look(old, a, b)[1] if ctx().branch(old.mem2(a, b)) else SLeaf(vp(a, b))
      frame.params._set((C.L2B(grown(frame.params, keep)),))
    rng = frame.rng_stack.peek()
    if rng is not None:
      rng.replace_internal_state(prng_state(tag + ".rng", self.block))

  def fn(self, name, raises=False, step=True):
    def body(*args, **kw):
      before = self.view()
      if step:
        self.arbitrary_step(name)
      self.calls.append((name, before, self.view(), args, kw))
      if raises:
        raise core.UserError(name)
      return SLeaf(z3.Function("res_" + name + str(len(args)), *[V] * len(args), V)(*[C.encode(a) for a in args]))
    body.__name__ = name
    return body


def tuple_of(q):
  return q.st if isinstance(q.st, C.SSeq) else tuple(q.st)


def same_rng(tag, got, want):
  if got is None or want is None:
    S.prove(tag + ": rng", z3.BoolVal(got is None and want is None))
    return
  S.prove(tag + ": rng key", S.same(got[0], want[0]))
  n, m = S.zint(S.length(got[1])), S.zint(S.length(want[1]))
  S.prove(tag + ": as many reserved keys", n == m)
  if ctx().branch(m > 0):
    i = S.index("subkey", SInt(m))
    S.prove(tag + ": reserved keys", S.same(S.nth(got[1], i), S.nth(want[1], i)))


def same_view(tag, got, want, part=None):
  """Which aspect is compared is arbitrary, so every one is, without multiplying the cases."""
  part = part or S.pick("aspect", ["params", "state", "rng"])
  for what, g, w in (("params", got[0], want[0]), ("state", got[1], want[1])):
    if what != part:
      continue
    if isinstance(w, EDict2):
      if not isinstance(g, EDict2):
        S.prove(tag + ": " + what, z3.BoolVal(False))
        continue
      same_store(tag + ": " + what, g, w)
    elif g is not w:
      k1, k2 = S.sstr("k1"), S.sstr("k2")
      a = k1 in g and k2 in g[k1]
      b = k1 in w and k2 in w[k1]
      S.prove(tag + ": same " + what, z3.BoolVal(bool(a) == bool(b)) if not (a and b) else S.same(g[k1][k2], w[k1][k2]))
  if part == "rng":
    same_rng(tag, got[2], want[2])


def threaded(w, call, want, tag, x):
  """One call of the transformed function: the body runs once, in a frame that looks
  like the outer one; afterwards the outer frame looks like the body left its own."""
  base = w.base
  frame = base.current_frame()
  params, state = frame.params, frame.state
  before = w.view()
  r = S.outcome(call)
  if not S.no_raise(tag, r):
    return
  S.prove(tag + ": back in the frame of the caller", z3.BoolVal(base.current_frame() is frame))
  S.prove(tag + ": the caller's stores are updated in place", z3.BoolVal(frame.params is params and frame.state is state))
  S.prove(tag + ": the function runs once", z3.BoolVal(len(w.calls) == 1))
  if len(w.calls) != 1:
    return
  name, seen, left, args, kw = w.calls[0]
  ok = len(args) == 1 and not kw
  S.prove(tag + ": arguments", S.same(args[0], x) if ok else z3.BoolVal(False))
  if S.fork("before"):
    same_view(tag + ": the function sees", seen, before)
  else:
    same_view(tag + ": the caller sees", w.view(), left)
    if w.outer is not None:
      S.prove(tag + ": the sequence outside of with_rng is untouched", z3.BoolVal(
          w.outer._key is w.outer_before[0] and tuple_of(w.outer._subkeys) is w.outer_before[1]))
  want(r, SLeaf(z3.Function("res_f1", V, V)(x.t)))


CASES = [("init", True, True), ("apply inside with_rng", False, "inner"), ("init without rng", True, False)]


@contract(P, "jit, remat, named_call", ["haiku._src.stateful.thread_hk_state_in_kwargs", "haiku._src.stateful.named_call",
                                       "haiku._src.stateful.internal_state", "haiku._src.stateful.temporary_internal_state",
                                       "haiku._src.stateful.update_internal_state"], budget=200)
def threading(U):
  st = U("stateful")
  kind = S.pick("transform", ["jit", "remat", "named_call"])
  _, init, rng = S.pick("frame", CASES)
  w = World(U, init, rng)
  x = S.sleaf("x")
  with w.hctx, Modular(st):
    f = w.fn("f")
    threaded(w, lambda: getattr(st, kind)(f)(x), lambda r, out: S.prove("result", S.same(r, out)), kind, x)


def same_aux(got, want):
  return z3.BoolVal(got is want) if want is None or got is None else S.same(got, want)


@contract(P, "grad, value_and_grad", ["haiku._src.stateful.value_and_grad", "haiku._src.stateful.grad"], budget=200)
def gradients(U):
  st = U("stateful")
  kind = S.pick("transform", ["value_and_grad", "grad"])
  _, init, rng = S.pick("frame", CASES)
  aux = S.fork("has_aux")
  w = World(U, init, rng)
  x = S.sleaf("x")
  with w.hctx, Modular(st):
    f = w.fn("f")
    a = None if aux and S.fork("aux is None") else S.sleaf("aux")
    fun = (lambda *args, **kw: (f(*args, **kw), a)) if aux else f
    argnums = S.sleaf("argnums")
    def want(r, out):
      g = M.opaque("jax.grad", (out, x, S.sleaf("hk_state"), argnums))
      ok = isinstance(r, tuple) and len(r) == 2
      if kind == "value_and_grad":
        value = r[0] if ok else None
        if aux:
          ok = ok and isinstance(value, tuple) and len(value) == 2
          S.prove("aux", same_aux(value[1], a) if ok else z3.BoolVal(False))
          value = value[0] if ok else None
        S.prove("value", S.same(value, out) if ok else z3.BoolVal(False))
      elif aux:
        S.prove("aux", same_aux(r[1], a) if ok else z3.BoolVal(False))
      else:
        S.prove("the gradient alone", z3.BoolVal(isinstance(r, SLeaf)))
    threaded(w, lambda: getattr(st, kind)(fun, argnums=argnums, has_aux=aux)(x), want, kind, x)


@contract(P, "vmap", ["haiku._src.stateful.vmap"], budget=200)
def vmapped(U):
  st = U("stateful")
  _, init, rng = S.pick("frame", CASES)
  w = World(U, init, rng)
  x, ia, oa = S.sleaf("x"), S.sleaf("in_axes"), None if S.fork("out_axes is None") else S.sleaf("out_axes")
  with w.hctx, Modular(st):
    f = w.fn("f")
    lane = M.opaque("vmap.lane", (x, ia))
    def want(r, out):
      lanes = SLeaf(z3.Function("res_f1", V, V)(lane.t))
      S.prove("result", S.same(r, lanes if oa is None else M.opaque("vmap.stack", (lanes, oa))))
    threaded(w, lambda: st.vmap(f, in_axes=ia, out_axes=oa)(x), want, "vmap", lane)


@contract(P, "eval_shape leaves no trace", ["haiku._src.stateful.eval_shape"], budget=200)
def shapes(U):
  st, base = U("stateful"), U("base")
  _, init, rng = S.pick("frame", CASES)
  w = World(U, init, rng)
  x = S.sleaf("x")
  with w.hctx, Modular(st):
    frame = base.current_frame()
    before = w.view()
    r = S.outcome(lambda: st.eval_shape(w.fn("f"), x))
    if not S.no_raise("eval_shape", r):
      return
    S.prove("back in the frame of the caller", z3.BoolVal(base.current_frame() is frame))
    S.prove("the function runs once", z3.BoolVal(len(w.calls) == 1))
    if S.fork("before"):
      same_view("the function sees", w.calls[0][1], before)
    else:
      same_view("nothing changes for the caller", w.view(), before)


@contract(P, "a failing function leaves no trace", ["haiku._src.stateful.thread_hk_state_in_kwargs",
                                                    "haiku._src.stateful.value_and_grad", "haiku._src.stateful.vmap",
                                                    "haiku._src.stateful.eval_shape"], budget=200)
def failing(U):
  st, base = U("stateful"), U("base")
  kind = S.pick("transform", ["jit", "remat", "named_call", "value_and_grad", "grad", "vmap", "eval_shape"])
  _, init, rng = S.pick("frame", CASES)
  w = World(U, init, rng)
  x = S.sleaf("x")
  with w.hctx, Modular(st):
    frame = base.current_frame()
    before = w.view()
    f = w.fn("f", raises=True)
    r = S.outcome((lambda: st.eval_shape(f, x)) if kind == "eval_shape" else lambda: getattr(st, kind)(f)(x))
    S.prove("the error of the function comes out", z3.BoolVal(isinstance(r, S.Raised) and isinstance(r.exc, core.UserError)))
    S.prove("back in the frame of the caller", z3.BoolVal(base.current_frame() is frame))
    same_view("nothing changes for the caller", w.view(), before)


@contract(P, "outside of a transform", ["haiku._src.stateful.thread_hk_state_in_kwargs",
                                        "haiku._src.stateful.value_and_grad", "haiku._src.stateful.named_call"])
def outside(U):
  st = U("stateful")
  kind = S.pick("transform", ["jit", "remat", "named_call", "value_and_grad", "grad"])
  x, f = S.sleaf("x"), S.SFun("f")
  r = S.outcome(lambda: getattr(st, kind)(f)(x))
  if kind == "named_call":
    if S.no_raise("named_call", r):
      S.prove("just the function", z3.BoolVal(isinstance(r, SLeaf)))
  else:
    S.must_raise("an error", r, ValueError)
