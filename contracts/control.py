"""C12: hk.cond, switch, scan, fori_loop and while_loop thread params, state and rng through.

As for C11 (contracts/stateful.py).  jax.lax.cond and switch are modelled: all branches
are traced, the chosen one gives the result.  jax.lax.scan, fori_loop and while_loop are
assumed to be the loops they are documented to be; the functions handed to them are
verified at an arbitrary iteration, together with what goes in and what is done with
what comes out, so that the equivalence follows by induction over the iterations."""
import z3

from contracts import harness as Hn
from contracts.rng import PARENT, split_axioms
from contracts.stateful import (CASES, Def2, Modular, World, look, prng_state, same_pair, same_rng, same_store, same_view,
                                tuple_of)
from pyvc import containers as C
from pyvc import core
from pyvc import rt
from pyvc import spec as S
from pyvc.containers import EDict2
from pyvc.core import SInt, SLeaf, Str, V, Bool, Int, ctx
from pyvc.models import build as M
from pyvc.spec import contract

P = "C12"


def topped_up(w, view):
  """The view after reserve_up_to_full (its contract is under C04)."""
  if view[2] is None:
    return view
  seq = object.__new__(w.base.PRNGSequence)
  object.__setattr__(seq, "_key", view[2][0])
  object.__setattr__(seq, "_subkeys", C.EList(view[2][1], "deque"))
  seq.reserve_up_to_full()
  return view[0], view[1], (seq._key, tuple_of(seq._subkeys))


def frame_and_aspect():
  """(init?, rng, aspect to compare): the reserved keys are arbitrarily many where the keys
  are compared; where params or state are, there is a full block or no rng at all."""
  part = S.pick("aspect", ["params", "state", "rng"])
  init = S.fork("init")
  if part == "rng":
    return init, True, part
  return init, S.pick("rng", ["full", False]), part


def full_block(tag, w, rng):
  """The number of reserved keys is the same going in and coming out."""
  if rng is not None:
    S.prove(tag + ": a full block of keys", S.zint(S.length(rng[1])) == w.base.DEFAULT_PRNG_RESERVE_SIZE)


@contract(P, "cond, switch", ["haiku._src.stateful.cond", "haiku._src.stateful.switch", "haiku._src.stateful.stateful_branch",
                              "haiku._src.stateful.reserve_up_to_full_rng_block"], budget=300,
          note="switch: one to three branches")
def branches(U):
  st, base = U("stateful"), U("base")
  kind = S.pick("form", ["cond", "cond with two operands", "switch", "switch over one"])
  init, rng, part = frame_and_aspect()
  w = World(U, init, rng)
  x, y = S.sleaf("x"), S.sleaf("y")
  with w.hctx, Modular(st):
    frame = base.current_frame()
    before = w.view()
    fs = {"switch": ["f0", "f1", "f2"], "switch over one": ["f0"]}.get(kind, ["f0", "f1"])
    fns = [w.fn(n) for n in fs]
    op = x
    if kind == "cond":
      p = S.sbool("pred")
      r = S.outcome(lambda: st.cond(p, fns[0], fns[1], x))
      chosen = 0 if ctx().branch(p.t) else 1
    elif kind == "cond with two operands":
      p = S.sbool("pred")
      r = S.outcome(lambda: st.cond(p, x, fns[0], y, fns[1]))
      chosen = 0 if ctx().branch(p.t) else 1
      op = (x, y)[chosen]
    else:
      k = S.sint("index")
      r = S.outcome(lambda: st.switch(k, fns, x))
      n = len(fns)
      chosen = next((j for j in range(n - 1) if ctx().branch(k.t <= j)), n - 1)
    if not S.no_raise(kind, r):
      return
    S.prove("back in the frame of the caller", z3.BoolVal(base.current_frame() is frame))
    mine = [c for c in w.calls if c[0] == fs[chosen]]
    S.prove("the chosen branch runs once", z3.BoolVal(len(mine) == 1))
    if len(mine) != 1:
      return
    name, seen, left, args, kw = mine[0]
    S.prove("operand", S.same(args[0], op) if len(args) == 1 and not kw else z3.BoolVal(False))
    S.prove("the result is that of the chosen branch", S.same(r, SLeaf(z3.Function("res_" + name + "1", V, V)(op.t))))
    full_block("in", w, seen[2])
    full_block("out", w, w.view()[2])
    if S.fork("before"):
      same_view("the branch sees", seen, topped_up(w, before), part)
    else:
      same_view("the caller sees what the chosen branch left", w.view(), topped_up(w, left), part)


# ----------------------------------------------------------------------- loops


class Loop:
  """Stands in for jax.lax.scan / fori_loop / while_loop: notes what it is given, runs
  the functions at an arbitrary iteration, and comes out with arbitrary final values."""

  def __init__(self, w, st, kind):
    self.w, self.st, self.kind = w, st, kind
    self.given = self.step = self.final = None
    self.entry = self.conds = None

  def carried(self, tag, like):
    """An arbitrary internal state of the same structure."""
    w, c = self.w, ctx()
    vi, vc = c.fresh_fun(tag + ".initial", Str, Str, V), c.fresh_fun(tag + ".current", Str, Str, V)
    old = like.state
    state = EDict2((C.L2B(Def2(tag, old.mem1, old.mem2, lambda a, b: w.base.StatePair(
        SLeaf(vi(a, b)), SLeaf(vc(a, b))))),), old.plain)
    params = like.params
    if isinstance(params, EDict2):
      params = EDict2(params.st, params.plain)
    rng = like.rng
    if rng is not None:
      n = core.int_val(SInt(S.zint(S.length(rng[1]))))
      if n is None and self.kind == "while_loop":
        n = S.zint(S.length(rng[1]))
      elif n is None:
        n = w.base.DEFAULT_PRNG_RESERVE_SIZE
        S.prove("carried keys: a full block", S.zint(S.length(rng[1])) == n)
      rng = prng_state(tag + ".rng", n)
    return self.st.InternalState(params, state, rng)

  def enter(self, state):
    self.w.loop = True
    self.entry = self.w.view()
    self.ncalls = len(self.w.calls)
    return state

  def scan(self, f, init, xs, length=None, reverse=False, unroll=1):
    carry, state = init
    self.given = dict(carry=carry, state=self.enter(state), xs=xs, length=length, reverse=reverse, unroll=unroll)
    c, x, s = S.sleaf("carry"), S.sleaf("x_i"), self.carried("at", state)
    out = f((c, s), x)
    (c2, s2), y = out
    self.step = dict(args=(c, x), state=s, carry=c2, out=y, state_out=s2)
    self.final = dict(val=S.sleaf("last_carry"), state=self.carried("last", state), ys=S.sleaf("ys"))
    return (self.final["val"], self.final["state"]), self.final["ys"]

  def fori_loop(self, lower, upper, f, init):
    state, val = init
    self.given = dict(lower=lower, upper=upper, val=val, state=self.enter(state))
    i, v, s = S.sint("i"), S.sleaf("val"), self.carried("at", state)
    s2, v2 = f(i, (s, v))
    self.step = dict(args=(i, v), state=s, out=v2, state_out=s2)
    self.final = dict(val=S.sleaf("last_val"), state=self.carried("last", state))
    return self.final["state"], self.final["val"]

  def while_loop(self, cond, f, init):
    val, state = init
    self.given = dict(val=val, state=self.enter(state))
    v, s = S.sleaf("val"), self.carried("at", state)
    self.cond = cond((v, s))
    self.cond_arg = v
    v2, s2 = f((v, s))
    self.step = dict(args=(v,), state=s, out=v2, state_out=s2)
    self.final = dict(val=S.sleaf("last_val"), state=self.carried("last", state))
    return self.final["val"], self.final["state"]


class LaxLoops:
  """jax.lax with the loops replaced, and the two assertions used through their contracts."""

  def __init__(self, w, loop):
    self.w, self.loop = w, loop

  def __enter__(self):
    import contextlib
    self.lax = lax = self.w.st.jax.lax
    self.old = {k: lax.__dict__.get(k) for k in ("scan", "fori_loop", "while_loop")}
    lax.__dict__.update(scan=self.loop.scan, fori_loop=self.loop.fori_loop, while_loop=self.loop.while_loop)
    base = self.w.base
    self.asserts = base.assert_no_new_parameters, base.assert_state_unchanged

    @contextlib.contextmanager
    def no_new():
      before = base.current_frame().params
      b = before.st if isinstance(before, EDict2) else None
      yield
      if b is not None and not (base.current_frame().params is before and before.st is b):
        raise AssertionError("new parameters")

    @contextlib.contextmanager
    def same():
      before = self.w.view()
      yield
      after = self.w.view()
      if not (after[1].st is before[1].st and (after[2] is None or after[2][1] is before[2][1])):
        raise base.StateChangedError("changed")
    base.assert_no_new_parameters, base.assert_state_unchanged = no_new, same
    self.w.no_new_params = True

  def __exit__(self, *a):
    for k, v in self.old.items():
      if v is None:
        self.lax.__dict__.pop(k, None)
      else:
        self.lax.__dict__[k] = v
    self.w.base.assert_no_new_parameters, self.w.base.assert_state_unchanged = self.asserts


def as_view(w, state):
  """An InternalState as a view; without params those of the frame."""
  return (w.base.current_frame().params if state.params is None else state.params), state.state, state.rng


def check_loop(w, loop, where, part):
  """What went into the loop, one arbitrary iteration, and what came out of it."""
  st = w.st
  if where == "in":
    full_block("in", w, loop.given["state"].rng)
    same_view("the loop starts with what the caller sees", as_view(w, loop.given["state"]), loop.entry, part)
  elif where == "out":
    same_view("the caller sees what the last iteration left", w.view(), as_view(w, loop.final["state"]), part)
  else:
    mine = w.calls[loop.ncalls:]
    S.prove("the body runs once per iteration", z3.BoolVal(len(mine) == 1))
    if len(mine) != 1:
      return
    _, seen, left, args, kw = mine[0]
    ok = len(args) == len(loop.step["args"]) and not kw
    S.prove("the body gets the carried values", z3.And(*[S.same(a, b) for a, b in zip(args, loop.step["args"])])
            if ok else z3.BoolVal(False))
    if where == "sees":
      s = loop.step["state"]
      same_view("the body sees", seen, (s.params if s.params is not None else loop.entry[0], s.state, s.rng), part)
    else:
      s2 = loop.step["state_out"]
      want = topped_up(w, left) if loop.kind != "while_loop" else left
      if loop.kind != "while_loop":
        full_block("out of the body", w, s2.rng)
      same_view("the next iteration gets what the body left", (left[0] if s2.params is None else s2.params,) + tuple(s2[1:]),
                want, part)


WHERE = ["in", "sees", "left", "out"]


@contract(P, "scan", ["haiku._src.stateful.scan", "haiku._src.stateful.reserve_up_to_full_rng_block"], budget=300)
def scanning(U):
  st, base = U("stateful"), U("base")
  init, rng, part = frame_and_aspect()
  where = S.pick("where", WHERE)
  w = World(U, init, rng)
  x0 = S.sleaf("x0")
  n = S.sint("length", 0)
  given = S.fork("length given")
  reverse = S.fork("reverse")
  xs = SLeaf(ctx().fresh("xs", V), {"shape": (n, S.sint("dim", 0))})
  loop = Loop(w, st, "scan")
  with w.hctx, Modular(st), LaxLoops(w, loop):
    frame = base.current_frame()
    before = w.view()
    f0 = w.fn("f")
    f = lambda c, x: (f0(c, x), SLeaf(z3.Function("out_f", V, V, V)(c.t, x.t), {"shape": (S.sint("d", 0),)}))
    unroll = S.sint("unroll", 1)
    r = S.outcome(lambda: st.scan(f, x0, xs, n if given else None, reverse, unroll))
    if not S.no_raise("scan", r):
      return
    S.prove("back in the frame of the caller", z3.BoolVal(base.current_frame() is frame))
    res = lambda c, x: SLeaf(z3.Function("res_f2", V, V, V)(c.t, x.t))
    out = lambda c, x: SLeaf(z3.Function("out_f", V, V, V)(c.t, x.t))
    carry, ys = r
    first = xs[-1] if reverse else xs[0]
    if init and ctx().branch(n.t == 0):
      S.prove("empty: the carry is returned", S.same(carry, x0))
      S.prove("empty: no loop", z3.BoolVal(loop.given is None))
      return
    start, rest, m = x0, xs, n
    if init:
      S.prove("at init the first iteration runs directly", z3.And(
          z3.BoolVal(len(w.calls) >= 1), S.same(w.calls[0][3][0], x0), S.same(w.calls[0][3][1], first)))
      same_view("first iteration: sees the caller's frame", w.calls[0][1], before, part)
      start, rest, m = res(x0, first), (xs[:-1] if reverse else xs[1:]), n - 1
      if ctx().branch(n.t == 1):
        S.prove("one element: its carry is returned", S.same(carry, start))
        S.prove("one element: no loop", z3.BoolVal(loop.given is None))
        same_view("one element: the caller sees", w.view(), w.calls[0][2], part)
        return
    S.prove("the loop runs", z3.BoolVal(loop.given is not None))
    if loop.given is None:
      return
    g = loop.given
    S.prove("loop: initial carry", S.same(g["carry"], start))
    S.prove("loop: elements", S.same(g["xs"], rest))
    S.prove("loop: length", S.eq(g["length"], m))
    S.prove("loop: direction", z3.BoolVal(bool(g["reverse"]) == reverse))
    S.prove("loop: unroll", S.same(g["unroll"], unroll))
    S.prove("one iteration: carry", S.same(loop.step["carry"], res(*loop.step["args"])))
    S.prove("one iteration: output", S.same(loop.step["out"], out(*loop.step["args"])))
    S.prove("the last carry is returned", S.same(carry, loop.final["val"]))
    if not init:
      S.prove("the outputs are returned", S.same(ys, loop.final["ys"]))
    else:
      y0 = M.opaque("jax.numpy.expand_dims", (out(x0, first), 0))
      want = M.opaque("jax.numpy.concatenate", (C.EList((loop.final["ys"], y0) if reverse else (y0, loop.final["ys"])),))
      S.prove_op("the outputs, the first element's in its place", ys, want)
    check_loop(w, loop, where, part)


@contract(P, "fori_loop", ["haiku._src.stateful.fori_loop"], budget=300)
def fori(U):
  st, base = U("stateful"), U("base")
  init, rng, part = frame_and_aspect()
  where = S.pick("where", WHERE)
  w = World(U, init, rng)
  x0, lo, hi = S.sleaf("x0"), S.sint("lower"), S.sint("upper")
  ctx().assume(lo.t <= hi.t)
  if init:
    ctx().assume(lo.t < hi.t)     # at init the body always runs once
  loop = Loop(w, st, "fori_loop")
  with w.hctx, Modular(st), LaxLoops(w, loop):
    frame = base.current_frame()
    before = w.view()
    r = S.outcome(lambda: st.fori_loop(lo, hi, w.fn("f"), x0))
    if not S.no_raise("fori_loop", r):
      return
    res = lambda i, v: SLeaf(z3.Function("res_f2", V, V, V)(C.encode(i), v.t))
    S.prove("back in the frame of the caller", z3.BoolVal(base.current_frame() is frame))
    start, first = x0, lo
    if init:
      a = w.calls[0][3]
      S.prove("at init the first iteration runs directly", z3.And(S.eq(a[0], lo), S.same(a[1], x0)))
      start, first = res(lo, x0), lo + 1
      if ctx().branch(hi.t - lo.t == 1):
        S.prove("one iteration: its value is returned", S.same(r, start))
        S.prove("one iteration: no loop", z3.BoolVal(loop.given is None))
        same_view("one iteration: the caller sees", w.view(), w.calls[0][2], part)
        return
    S.prove("the loop runs", z3.BoolVal(loop.given is not None))
    if loop.given is None:
      return
    S.prove("loop: initial value", S.same(loop.given["val"], start))
    S.prove("loop: bounds", z3.And(S.eq(loop.given["lower"], first), S.eq(loop.given["upper"], hi)))
    S.prove("one iteration: value", S.same(loop.step["out"], res(*loop.step["args"])))
    S.prove("the last value is returned", S.same(r, loop.final["val"]))
    check_loop(w, loop, where, part)


@contract(P, "while_loop", ["haiku._src.stateful.while_loop"], budget=300)
def while_(U):
  st, base = U("stateful"), U("base")
  init, rng, part = frame_and_aspect()
  where = S.pick("where", WHERE)
  w = World(U, init, rng)
  if rng is True:
    w.block = base.DEFAULT_PRNG_RESERVE_SIZE   # jax.lax.while_loop rejects a body that changes the number of reserved keys
  x0 = S.sleaf("x0")
  loop = Loop(w, st, "while_loop")
  with w.hctx, Modular(st), LaxLoops(w, loop):
    frame = base.current_frame()
    before = w.view()
    changes = S.fork("the condition changes state")
    cond = w.fn("cond", step=changes)
    calls = []
    def c(*a):
      n = len(w.calls)
      r = cond(*a)
      calls.append(w.calls.pop())
      return r
    r = S.outcome(lambda: st.while_loop(c, w.fn("f"), x0))
    S.prove("back in the frame of the caller", z3.BoolVal(base.current_frame() is frame))
    if init:
      S.must_raise("not available at init", r, ValueError)
      same_view("nothing changes", w.view(), before, part)
      return
    if changes:
      S.must_raise("a condition that changes state is refused", r, ValueError)
      return
    if not S.no_raise("while_loop", r):
      return
    S.prove("the condition gets the value and its result counts", z3.And(
        S.same(calls[0][3][0], loop.cond_arg), S.same(loop.cond, SLeaf(z3.Function("res_cond1", V, V)(loop.cond_arg.t)))))
    S.prove("loop: initial value", S.same(loop.given["val"], x0))
    S.prove("one iteration: value", S.same(loop.step["out"], SLeaf(z3.Function("res_f1", V, V)(loop.step["args"][0].t))))
    S.prove("the last value is returned", S.same(r, loop.final["val"]))
    if where == "in":
      same_view("the loop starts with what the caller sees", as_view(w, loop.given["state"]), before, part)
    else:
      check_loop(w, loop, where, part)


@contract(P, "assert_state_unchanged, assert_no_new_parameters", [
    "haiku._src.base.assert_state_unchanged", "haiku._src.base.assert_no_new_parameters", "haiku._src.base.param_names"], budget=120,
          note="bounded: stores of at most three entries, 0-2 reserved keys, 1-2 operations")
def asserts(U):
  base, ds = U("base"), U("data_structures")
  which = S.pick("assertion", ["state", "parameters"])
  frozen = S.fork("apply")
  a, b, v = S.sleaf("a"), S.sleaf("b"), S.sleaf("v")
  ctx().fact(z3.Distinct(a.t, b.t, v.t))
  params, state = EDict2(()), EDict2(())
  with base.HaikuContext(params, state, None):
    if S.fork("params"):
      base.get_parameter("a", a.shape, init=lambda s, d: a)
    base.set_state("t", a)
    base.set_state("t", b)
    base.set_state("w", b)
  if frozen:
    params = ds.to_immutable_dict(params)
  rng = None
  if S.fork("rng"):
    rng = object.__new__(base.PRNGSequence)
    key, subkeys = prng_state("rng", S.pick("reserved", [0, 1, 2]))
    object.__setattr__(rng, "_key", key)
    object.__setattr__(rng, "_subkeys", C.EList(subkeys, "deque"))
    ctx().fact(z3.Distinct(key.t, *[k.t for k in C.concrete_tuple(subkeys)]))
    for k in C.concrete_tuple(subkeys):
      ctx().fact(PARENT(k.t) != key.t)
  ops = {"nothing": lambda: None, "read": lambda: base.get_state("t"),
         "set an entry": lambda: base.set_state("t", v), "a new entry": lambda: base.set_state("u", v)}
  if rng is not None:
    def draw(f):
      f()
      for x in [rng._key] + list(C.concrete_tuple(rng._subkeys)):
        split_axioms(x.t)       # a split key is not the key it comes from
    ops.update({"a key": lambda: draw(base.next_rng_key), "reserve": lambda: draw(lambda: base.reserve_rng_keys(3))})
  if not frozen:
    ops["a parameter"] = lambda: base.get_parameter("p", v.shape, init=lambda s, d: v)
  names = [S.pick("operation", list(ops))]
  fails = which == "state" and S.fork("the block fails")
  if S.fork("after a read"):
    names.insert(0, "read")
  with base.HaikuContext(params, state, rng):
    def block():
      with (base.assert_state_unchanged if which == "state" else base.assert_no_new_parameters)():
        for n in names:
          ops[n]()
        if fails:
          raise S.UserError("block")
    r = S.outcome(block)
  if fails:
    S.must_raise("a failure comes out", r, S.UserError)
  elif set(names) - {"nothing", "read"} if which == "state" else "a parameter" in names:
    S.must_raise("a change is refused", r, base.StateChangedError if which == "state" else AssertionError)
  else:
    S.no_raise("no change, no error", r)
