"""Loops over symbolic collections.

A loop is verified with an inductive invariant: the state at the start of
iteration i is described by a closed form V(i) with V(0) = the entry state;
running the (real, instrumented) body once from V(i) at an arbitrary i must lead
to V(i+1).  The closed forms are guessed from templates (linear integers,
appended lists, overwritten map entries, dropped prefixes, folds) and the
inductive step is checked; if no template is inductive the loop is Unsupported.
"""
import hashlib

import z3

from pyvc import core
from pyvc import containers as C
from pyvc.core import (Control, PathAbort, SBool, SInt, SLeaf, SReal, SStr, Sym, Unsupported,
                       Int, V, W, ctx, mk_int, zint)


class Outcome:
  __slots__ = ("kind", "value", "guard", "facts", "effects", "world")

  def full_guard(self):
    return z3.And(self.guard, *self.facts) if self.facts else self.guard


def z3and(xs):
  xs = list(xs)
  return z3.BoolVal(True) if not xs else (xs[0] if len(xs) == 1 else z3.And(*xs))


def with_binder(i, fn):
  c = ctx()
  c.binders.append(i)
  try:
    return fn()
  finally:
    c.binders.pop()


def sub_explore(fn, restore=None):
  """Explores all paths of fn from the current state; undoes every effect."""
  c = ctx()
  saved = (c.prefix, c.pos, c.decisions, c.alternatives)
  counters0 = dict(c.counters)
  npc, nas = len(c.pc), len(c.assumed)
  world0 = c.world
  outs = []
  work = [[]]
  c.sub += 1
  maxc = dict(counters0)
  try:
    while work:
      c.check_deadline()
      prefix = work.pop()
      c.prefix, c.pos, c.decisions, c.alternatives = list(prefix), 0, [], []
      c.counters = dict(counters0)
      c.solver.push()
      mark = len(c.trail)
      frame = {}
      c.effect_frames.append(frame)
      since = c.tick()
      try:
        o = Outcome()
        try:
          v = fn()
          o.kind = "normal"
        except PathAbort:
          o = None
        except Exception as e:  # raised by the verified code
          h = core.hidden(e)
          if h is not None:
            raise Unsupported(str(h)) if isinstance(h, RecursionError) else h
          o.kind, v = "exc", e
        if o is not None:
          memo = {}
          o.value = C.freeze(v, since, memo) if o.kind == "normal" else v
          assumed = set(c.assumed[nas:])
          o.guard = z3and(c.pc[k] for k in range(npc, len(c.pc))
                           if k not in assumed)
          o.facts = [c.pc[k] for k in sorted(assumed)]
          o.effects = []
          for (obj, attr, old) in frame.values():
            if attr != "st" and C.ctx_stamp(obj) > since:
              continue
            try:
              new = getattr(obj, attr)
            except AttributeError:     # created and undone in an inner exploration
              continue
            if attr == "st":
              if obj.born > since:
                continue
              if -obj.born > since:
                raise Unsupported("mutation of a nested container in a loop")
              if isinstance(obj, (C.EDict, C.EDict2, C.ESet)):
                new = tuple(l if k < len(old) and l is old[k] else l.freeze(since, memo)
                            for k, l in enumerate(new))
              else:
                new = C.freeze(new, since, memo)
            else:
              new = C.freeze(new, since, memo)
            o.effects.append((obj, attr, old, new))
          o.world = c.world
          outs.append(o)
        for k, n in c.counters.items():
          maxc[k] = max(maxc.get(k, 0), n)
        alts = c.alternatives
      finally:
        c.effect_frames.pop()
        c.undo_to(mark)
        c.solver.pop()
        del c.pc[npc:]
        del c.assumed[nas:]
        c.world = world0
        if restore is not None:
          restore()
      work.extend(alts)
      if len(outs) > 200:
        raise Unsupported("too many paths in a loop body")
  finally:
    c.prefix, c.pos, c.decisions, c.alternatives = saved
    c.counters = maxc
    c.sub -= 1
  return outs


# ------------------------------------------------------------ canonical forms


COMMUTATIVE = {z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_DISTINCT}


def term_hash(t):
  """Hash of a simplified term, insensitive to the order of commutative operands."""
  t = z3.simplify(t)
  if t.num_args() == 0 if z3.is_app(t) else False:
    return t.sexpr()
  memo = {}

  def go(x):
    k = x.get_id()
    if k in memo:
      return memo[k]
    if z3.is_app(x):
      ch = [go(y) for y in x.children()]
      if x.decl().kind() in COMMUTATIVE:
        ch.sort()
      if not ch:
        r = x.sexpr()
      else:
        d = x.decl()
        r = d.name() + str(d.params() or "") + "(" + ",".join(ch) + ")"
        if not DEBUG:
          r = hashlib.md5(r.encode()).hexdigest()
    else:
      r = hashlib.md5(x.sexpr().encode()).hexdigest()
    memo[k] = r
    return r
  return go(t)


def canon(v):
  if v is None or isinstance(v, (bool, int, float, str, bytes, type)):
    return repr(v)
  if z3.is_expr(v):
    return term_hash(v)
  if isinstance(v, (SInt, SBool, SReal, SStr, SLeaf)):
    return term_hash(v.t)
  if hasattr(type(v), "vc_canon"):
    return v.vc_canon(canon)
  if isinstance(v, C.Dropped):
    return f"drop({canon(v.base)},{canon(v.off)})"
  if isinstance(v, C.Cat):
    return f"cat({canon(v.a)},{canon(v.b)})"
  if isinstance(v, C.Bag):
    return f"bag({canon(v.layer)})"
  if isinstance(v, C.SSeq):
    global _DEPTH
    _DEPTH += 1
    try:
      i = z3.Int(f"canon_i{_DEPTH}")
      try:
        cs = C.cases_generic(v, i)
      except Unsupported:
        return f"seq({canon(v.n)},{id(v)})"
      return f"seq({canon(v.n)}," + ";".join(canon(g) + ":" + canon(x) for g, x in cs) + ")"
    finally:
      _DEPTH -= 1
  if isinstance(v, C.EList):
    return f"list({canon(v.st)})"
  if isinstance(v, (C.EDict, C.EDict2, C.ESet)):
    return f"{type(v).__name__}(" + ",".join(canon(l) for l in v.st) + ")"
  if isinstance(v, C.DView):
    return f"view({id(v.p)},{canon(v.k1)})"
  if isinstance(v, C.LC):
    _DEPTH += 1
    try:
      return canon_lc(v, z3.Int(f"canon_lc{_DEPTH}"))
    finally:
      _DEPTH -= 1
  if isinstance(v, C.LB):
    return canon_base(v.base)
  if isinstance(v, C.L2B):
    return f"L2B({id(v.b)})"
  if isinstance(v, (C.LW, C.LD, C.L2T, C.L2W, C.L2M, C.L2I)):
    return type(v).__name__ + "(" + ",".join(canon(getattr(v, s)) for s in type(v).__slots__) + ")"
  if isinstance(v, tuple):
    return type(v).__name__ + "(" + ",".join(canon(x) for x in v) + ")"
  if getattr(type(v), "__vc_instrumented__", False) and not callable(v):
    d = C.instance_dict(v)
    return type(v).__name__ + "{" + ",".join(f"{k}={canon(d[k])}" for k in sorted(d)) + "}"
  return f"obj{id(v)}"


_DEPTH = 0


def canon_lc(v, i):
  sub = [(v.i, i)]
  return (f"LC({canon(v.bound)}" + ";".join(
      canon(z3.substitute(g, *sub)) + ":" + ",".join(canon(l.subst(sub, {})) for l in ls)
      for g, ls, _ in v.cases) + ")")


def canon_base(b):
  global _DEPTH
  _DEPTH += 1
  k = z3.Const(f"canon_key{_DEPTH}", b.ksort)
  try:
    def one():                    # must not leave anything on the current path
      ctx().assume(b.has(k))
      return canon(b.val(k))
    outs = sub_explore(one)
    if any(o.kind != "normal" for o in outs):
      return f"LB({id(b)})"
    v = ";".join(canon(o.guard) + ":" + o.value for o in outs)
    h = canon(b.has(k))
  except (Unsupported, PathAbort):
    return f"LB({id(b)})"
  finally:
    _DEPTH -= 1
  return f"LB({b.name},{h},{v})"


# ------------------------------------------------------------------ templates


class Poison(Sym):
  """A loop-carried value without a closed form: any use is Unsupported."""

  def __init__(self, what):
    object.__setattr__(self, "what", what)

  def __getattribute__(self, name):
    if name in ("__class__", "__reduce_ex__", "__dict__"):
      return object.__getattribute__(self, name)
    raise Unsupported("loop-carried value without an invariant: "
                      + object.__getattribute__(self, "what"))

  def vc_freeze(self, since, memo):
    return self

  def _u(self, *a):
    raise Unsupported("loop-carried value without an invariant: "
                      + object.__getattribute__(self, "what"))
  __bool__ = __len__ = __iter__ = __getitem__ = __add__ = __radd__ = __eq__ = __hash__ = _u
  __sub__ = __mul__ = __call__ = __contains__ = __rsub__ = __rmul__ = _u


UNBOUND = object()


class Unchanged:
  def __init__(self, v0):
    self.v0 = v0

  def at(self, i, n=None):
    return self.v0

  def check(self, i, outs):
    return all(same(self.v0, x) for x, _ in outs)


class Linear:
  def __init__(self, v0, step):
    self.v0, self.step = v0, step

  def at(self, i):
    return mk_int(zint(self.v0) + self.step * i)

  def check(self, i, outs):
    c = ctx()
    return all(isinstance(x, (int, SInt)) and c_entails_under(o, zint(x) == zint(self.at(i + 1)))
               for x, o in outs)


class Fold:
  """V(i) = F(i): F(0) = v0 and F(i+1) = step(F(i), i) by definition."""

  def __init__(self, v0, name):
    c = ctx()
    self.v0 = v0
    self.sort = v0.t.sort() if not z3.is_expr(v0) else v0.sort()
    self.wrap = (lambda t: t) if z3.is_expr(v0) else type(v0)
    self.F = c.fresh_fun("fold_" + name, Int, self.sort)    # name carries the loop id
    self.step = None

  def term(self, v):
    return v if z3.is_expr(v) else (v.t if isinstance(v, Sym) and hasattr(v, "t") else None)

  def at(self, i):
    c = ctx()
    i = z3.simplify(i) if z3.is_expr(i) else z3.IntVal(i)
    if z3.is_int_value(i) and i.as_long() == 0:
      return self.v0
    return self.wrap(self.F(i))

  def check(self, i, outs):
    try:
      terms = [(o.full_guard(), self.term(x)) for x, o in outs]
    except Exception:
      return False
    if any(t is None or t.sort() != self.sort for _, t in terms):
      return False
    t = terms[-1][1]
    for g, x in reversed(terms[:-1]):
      t = z3.If(g, x, t)
    self.step, self.i = t, i
    return True

  def finish(self, n):
    """Axioms, and unification with an equal earlier fold (by induction)."""
    c = ctx()
    F, step, i = self.F, self.step, self.i
    v0 = self.term(self.v0)
    c.assume(F(z3.IntVal(0)) == v0)
    reg = c.folds.setdefault(str(self.sort), [])
    cur = F(i)
    for (F2, step2, i2, v02) in reg:
      # induction hypothesis F(i) == F2(i); step gives F(i+1) == F2(i+1)
      s2 = z3.substitute(step2, (i2, i))
      s = z3.Solver()
      s.set("timeout", 2000)
      s.add(*c.pc)
      s.add(i >= 0, i < n, F(i) == F2(i))
      s.add(z3.Not(z3.And(v0 == v02, step == s2)))
      if s.check() == z3.unsat:
        x = z3.Int(c.name("fold_x"))
        c.assume(z3.ForAll([x], z3.Implies(x >= 0, z3.Implies(x <= n, F(x) == F2(x))),
                           patterns=[F(x)]))
        break
    reg.append((F, step, i, v0))
    c.trail.append(lambda: reg.pop())
    # one-step unrolling at the end of the loop
    c.assume(z3.Implies(n >= 1, F(n) == z3.substitute(step, (i, n - 1))))


class Append:
  """list state = v0 ++ [elem(i') for i' < i]."""

  def __init__(self, v0, bag=False):
    self.v0, self.bag = v0, bag
    self.cases = None
    self.binder = None
    self.cache = {}

  def seq(self, i):
    b, cases = self.binder, self.cases
    if self.bag:
      lay = C.LC(b, i, [(g, list(ls), fs) for g, ls, fs in cases])
      return C.Bag(lay)
    return C.SSeq(i, case_getter(b, cases))

  def at(self, i):
    k = (i.get_id() if z3.is_expr(i) else i, id(self.cases))
    if k not in self.cache:
      self.cache[k] = (self.at_(i), i, self.cases)
    return self.cache[k][0]

  def at_(self, i):
    if self.cases is None:
      return C.Cat(self.v0, OpaqueSeq(i))
    iv = C.int_val(SInt(i)) if z3.is_expr(i) else i
    if iv == 0:
      return self.v0
    return C.concat_st(self.v0, self.seq(i if z3.is_expr(i) else z3.IntVal(i)))


class OpaqueSeq(C.SSeq):
  def __init__(self, i):
    def get(k):
      raise Unsupported("reading a list while it is being built")
    super().__init__(i, get)


def case_getter(b, cases):
  def get(j):
    c = ctx()
    live = []
    for k, (g, v, fs) in enumerate(cases):
      gj = z3.substitute(g, (b, j))
      if k == len(cases) - 1:
        if len(cases) > 1:
          c.assume(gj)
        ok = True
      else:
        ok = c.branch(gj)
      if ok:
        for f in fs:
          c.assume(z3.substitute(f, (b, j)))
        return C.subst(v, [(b, j)])
    raise PathAbort()
  return get


class Drop:
  def __init__(self, v0):
    self.v0 = v0

  def at(self, i):
    return C.drop(self.v0, i if z3.is_expr(i) else z3.IntVal(i))


class Layers:
  """dict/set state = v0 overlaid with the entries of iterations i' < i."""

  def __init__(self, v0):
    self.v0 = v0
    self.cases = None
    self.binder = None

  def at(self, i):
    i = i if z3.is_expr(i) else z3.IntVal(i)
    if self.cases is None:
      return self.v0
    return self.v0 + (C.LC(self.binder, i, self.cases),)


class Last:
  """Overwritten in every iteration before being read."""

  def __init__(self, v0, name):
    self.v0, self.name = v0, name

  def at(self, i):
    return Poison(self.name)


def same(a, b):
  if a is b:
    return True
  try:
    return canon(a) == canon(b)
  except Unsupported:
    return False


def c_entails_under(o, cond):
  c = ctx()
  s = z3.Solver()
  s.set("timeout", 3000)
  s.add(*c.pc)
  s.add(o.full_guard(), z3.Not(cond))
  return s.check() == z3.unsat


def list_suffix(old, new):
  """new = old ++ suffix ?  -> suffix state or None."""
  if new is old:
    return ()
  if isinstance(old, tuple) and isinstance(new, tuple):
    if len(new) >= len(old) and all(x is y for x, y in zip(old, new)):
      return new[len(old):]
    return None
  if isinstance(new, C.Cat):
    if new.a is old or (isinstance(old, tuple) and isinstance(new.a, tuple)
                        and len(old) == len(new.a) and all(x is y for x, y in zip(old, new.a))):
      return new.b
    s = list_suffix(old, new.a)
    if s is not None:
      return C.concat_st(s, new.b)
    # old itself a Cat: Cat(a, b) with same a and b extended
    if isinstance(old, C.Cat) and new.a is old.a:
      return list_suffix(old.b, new.b)
  if isinstance(old, tuple) and old == () and isinstance(new, C.SSeq):
    return new
  if isinstance(old, C.Cat) and isinstance(new, C.Cat) and same(old.a, new.a):
    return list_suffix(old.b, new.b)
  return None


def for_loop(seq, body, getv=None, setv=None, names=(), dead=()):
  """Executes `for x in seq: body(x)`; returns ('return', v) or None/'break'."""
  c = ctx()
  n, get, _ = C.seq_parts(seq)
  n = z3.simplify(n)
  getv = getv or (lambda nm: UNBOUND)
  setv = setv or (lambda nm, v: None)
  entry = {nm: getv(nm) for nm in names}
  entry_world = c.world

  def restore():
    for nm in names:
      setv(nm, entry[nm])

  i = z3.Const(c.name("it"), Int)
  # templates: location -> template
  temps = {}

  def install(at):
    for key, t in temps.items():
      if key[0] == "var":
        setv(key[1], t.at(at))
      elif key[0] == "world":
        c.world = t.at(at)
      else:
        obj, attr = key[2].o, key[1]
        val = t.at(at)
        if attr == "st":
          obj._set(val)
        else:
          set_attr(obj, attr, val)

  def run_generic():
    def fn():
      c.assume(z3.And(i >= 0, i < n))
      if temps:
        install(i)
      elem = get(i)
      sig = body(elem)
      return sig, tuple((nm, getv(nm)) for nm in names)
    return with_binder(i, lambda: sub_explore(fn, restore))

  # effects are reported relative to the *entry* state (old = state before install)
  prev = None
  counters0 = dict(c.counters)
  for _round in range(6):
    maxc = dict(c.counters)
    c.counters = dict(counters0)
    outs = run_generic()
    for k, nn in maxc.items():
      c.counters[k] = max(c.counters.get(k, 0), nn)
    if not outs:      # no iteration is possible: n == 0 on this path
      c.assume(n <= 0)
      restore()
      return None
    normal = [o for o in outs if o.kind == "normal" and not is_exit(o.value[0])]
    exits = [o for o in outs if o not in normal]
    fp = fingerprint(outs, dead)
    if DEBUG:
      debug_diff(str(i), _round, prev, fp)
    ok, new_temps = build_templates(i, n, names, entry, entry_world, normal, temps)
    if ok and prev is not None and fp == prev:
      break
    prev = fp
    temps.clear()
    temps.update(new_temps)
  else:
    restore()
    raise Unsupported("no inductive loop invariant found")

  # -------- the loop is summarised; apply it
  def finish(at):
    for key, t in list(temps.items()):
      if isinstance(t, Fold):
        t.finish(at)
    for key, t in temps.items():
      if isinstance(t, Last):
        continue
      val = t.at(at)
      if key[0] == "var":
        setv(key[1], val)
      elif key[0] == "world":
        c.world = val
      elif key[1] == "st":
        if isinstance(t, Layers) and isinstance(key[2].o, C.EDict) and at is n and t.cases:
          b = C.collapse(val[-1])
          if b is not None:
            val = val[:-1] + (b,)
        elif isinstance(t, Layers) and isinstance(key[2].o, C.EDict2) and at is n and t.cases:
          val = C.collapse2(val) or val
        key[2].o._set(val)
      else:
        set_attr(key[2].o, key[1], val)

  def apply_last(at):
    """Values that are only the last iteration's."""
    lasts = [(k, t) for k, t in temps.items() if isinstance(t, Last)
             and not (k[0] == "var" and k[1] in dead)]
    if not lasts:
      return
    if c.branch(at > 0):
      j = z3.simplify(at - 1)
      o = choose_outcome(normal, i, j)
      for key, t in lasts:
        v = C.subst(outcome_value(o, key), [(i, j)])
        put(key, v)

  def put(key, v):
    if key[0] == "var":
      setv(key[1], v)
    elif key[0] == "world":
      c.world = v
    elif key[1] == "st":
      key[2].o._set(v)
    else:
      set_attr(key[2].o, key[1], v)

  restore()
  if exits:
    ge = z3.Or(*[o.full_guard() for o in exits]) if len(exits) > 1 else exits[0].full_guard()
    if c.branch(c.fresh("loop_exits", core.Bool)):
      j = c.fresh("exit_at", Int)
      c.assume(z3.And(j >= 0, j < n))
      c.assume(z3.substitute(ge, (i, j)), check=True)
      x = z3.Const(c.name("before"), Int)
      c.assume(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < j), z3.Not(z3.substitute(ge, (i, x))))))
      finish(j)
      apply_last(j)
      o = choose_outcome(exits, i, j)
      for (obj, attr, old, new) in o.effects:
        if attr == "st" and isinstance(obj, (C.EDict, C.EDict2, C.ESet)):
          t = find_temp(temps, obj, attr)
          suf = new_suffix(t, old, new)
          obj._set(obj.st + tuple(l.subst([(i, j)], {}) for l in suf))
        elif attr == "st":
          t = find_temp(temps, obj, attr)
          obj._set(C.subst(new, [(i, j)]))
        else:
          set_attr(obj, attr, C.subst(new, [(i, j)]))
      if not o.world.eq(entry_world):
        c.world = z3.substitute(o.world, (i, j))
      if o.kind == "exc":
        raise o.value
      sig, vals = o.value
      for nm, v in vals:
        if v is not UNBOUND:
          setv(nm, C.subst(v, [(i, j)]))
      if sig is BREAK:
        return BREAK
      return ("return", C.subst(sig[1], [(i, j)]))
    c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Not(ge))))
  finish(n)
  apply_last(n)
  return None


class Ref:
  """Identity of a heap object as a dict key."""
  __slots__ = ("o",)

  def __init__(self, o):
    self.o = o

  def __eq__(self, x):
    return isinstance(x, Ref) and x.o is self.o

  def __hash__(self):
    return id(self.o)


def find_temp(temps, obj, attr):
  for k, t in temps.items():
    if k[0] == "obj" and k[1] == attr and k[2].o is obj:
      return t
  return None


def new_suffix(t, old, new):
  base = len(old) + (1 if isinstance(t, Layers) and t.cases is not None else 0)
  return new[base:]


def choose_outcome(outs, i, j):
  c = ctx()
  for k, o in enumerate(outs):
    g = z3.substitute(o.guard, (i, j))
    if k == len(outs) - 1:
      c.assume(g)
    elif not c.branch(g):
      continue
    for f in o.facts:
      c.assume(z3.substitute(f, (i, j)))
    return o
  raise PathAbort()


BREAK = object()


def is_exit(sig):
  return sig is BREAK or (isinstance(sig, tuple) and len(sig) == 2 and sig[0] == "return")


def set_attr(obj, name, v):
  from pyvc import rt
  rt.setattr_(obj, name, v)


def outcome_value(o, key):
  if key[0] == "var":
    return dict(o.value[1])[key[1]]
  if key[0] == "world":
    return o.world
  for (obj, attr, old, new) in o.effects:
    if obj is key[2].o and attr == key[1]:
      return new
  return None


DEBUG = False


def debug_diff(nm, rnd, a, b):
  print("LOOP", nm, "round", rnd, "paths", len(b))
  if a is None or a == b:
    return
  for x, y in zip(a, b):
    for p, q in zip(x, y):
      p, q = str(p), str(q)
      if p != q:
        k = next((j for j in range(min(len(p), len(q))) if p[j] != q[j]), 0)
        print("   was", p[max(0, k - 200):k + 200].replace("\n", " "))
        print("   now", q[max(0, k - 200):k + 200].replace("\n", " "))
        return


def fingerprint(outs, dead=()):
  res = []
  for o in outs:
    eff = sorted(f"{id(obj)}.{attr}={canon(new)}" for obj, attr, old, new in o.effects)
    if o.kind == "normal":
      val = canon(o.value[0]) if is_exit(o.value[0]) and o.value[0] is not BREAK else str(o.value[0] is BREAK)
      val += "|" + "|".join(f"{nm}={canon(v)}" for nm, v in o.value[1]
                            if nm not in dead and not isinstance(v, Poison))
    else:
      val = type(o.value).__name__
    res.append((canon(o.guard), o.kind, val, tuple(eff), canon(o.world)))
  return tuple(res)


def build_templates(i, n, names, entry, entry_world, normal, cur):
  """From one generic iteration, the next guess.  ok: current guess inductive."""
  ok = True
  temps = {}
  # ---- local variables
  for nm in names:
    vals = [(dict(o.value[1])[nm], o) for o in normal]
    key = ("var", nm)
    t = cur.get(key)
    v0 = entry[nm]
    if t is None:
      if all(v is v0 or (v is not UNBOUND and v0 is not UNBOUND and same(v, v0)) for v, _ in vals):
        continue
      temps[key] = guess_value(nm, v0, vals, i)
      ok = False
    elif isinstance(t, Last):
      temps[key] = t
    elif isinstance(t, (Linear, Fold, Unchanged)):
      if t.check(i, vals):
        temps[key] = t
      else:
        temps[key] = Last(v0, nm)
        ok = False
    elif isinstance(t, Append):
      r = update_append(t, i, [(v, o) for v, o in vals], t.at(i) if t.cases is not None else None)
      ok = False if r is None else (ok and r)
      temps[key] = t if r is not None else Last(v0, nm)
    else:
      temps[key] = t
  # ---- world
  key = ("world",)
  t = cur.get(key)
  if t is None:
    if any(not o.world.eq(entry_world) for o in normal):
      temps[key] = Fold(entry_world, f"{i}_world")
      ok = False
  else:
    if not t.check(i, [(o.world, o) for o in normal]):
      raise Unsupported("effects in a loop")
    temps[key] = t
  # ---- heap
  locs = {}
  for o in normal:
    for (obj, attr, old, new) in o.effects:
      locs.setdefault((id(obj), attr), (obj, attr, old))
  for key0, t in cur.items():
    if key0[0] == "obj":
      locs.setdefault((id(key0[2].o), key0[1]), (key0[2].o, key0[1], None))
  for (oid, attr), (obj, _, old) in locs.items():
    key = ("obj", attr, Ref(obj))
    t = find_temp(cur, obj, attr)
    key = next((k for k in cur if k[0] == "obj" and k[1] == attr and k[2].o is obj), key)
    if old is None:
      old = t.v0
    news = []
    for o in normal:
      nv = [x[3] for x in o.effects if x[0] is obj and x[1] == attr]
      news.append((nv[0] if nv else (old if t is None else t.at(i)), o))
    if attr == "st" and isinstance(obj, (C.EDict, C.EDict2, C.ESet)):
      if t is None:
        t2 = Layers(old)
        base = len(old)
      else:
        t2 = t
        base = len(t.v0) + (1 if t.cases is not None else 0)
      cases = []
      for nv, o in news:
        if len(nv) < base or any(x is not y for x, y in zip(nv, t2.v0)) or (
            base > len(t2.v0) and getattr(nv[len(t2.v0)], "cases", None) is not t2.cases):
          raise Unsupported("dict or set cleared in a loop")
        suf = tuple(nv[base:])
        if suf:
          cases.append((o.guard, list(suf), list(o.facts)))
      newt = Layers(t2.v0)
      newt.binder = i
      newt.cases = cases
      if t is None or canon_cases(t) != canon_cases(newt):
        ok = False
      temps[key] = newt
    elif attr == "st":
      if t is None:
        t = guess_list(old, news)
        ok = False
        if isinstance(t, Append):
          if update_append(t, i, news, old) is None:
            raise Unsupported("list built in a loop")
        temps[key] = t
      elif isinstance(t, Append):
        r = update_append(t, i, news, t.at(i))
        if r is None:
          raise Unsupported("list built in a loop")
        ok = ok and r
        temps[key] = t
      elif isinstance(t, Drop):
        want = C.drop(t.v0, z3.simplify(i + 1))
        for nv, o in news:
          if not (isinstance(nv, C.Dropped) and nv.base is (want.base)
                  and c_entails_under(o, nv.off == want.off)):
            raise Unsupported("deque consumed irregularly in a loop")
        temps[key] = t
    else:
      v0 = old
      if t is None:
        if all(same(v, v0) for v, _ in news):
          continue
        temps[key] = guess_value(attr, v0, news, i)
        ok = False
      elif isinstance(t, Last):
        temps[key] = t
      elif t.check(i, news):
        temps[key] = t
      else:
        temps[key] = Last(t.v0, attr)
        ok = False
  return ok, temps


def canon_cases(t):
  return canon(C.LC(t.binder, z3.IntVal(0), t.cases)) if t.cases is not None else None


def guess_value(nm, v0, vals, i):
  if v0 is UNBOUND:
    return Last(UNBOUND, nm)
  if isinstance(v0, (int, SInt)) and not isinstance(v0, bool):
    steps = set()
    for v, o in vals:
      if not isinstance(v, (int, SInt)):
        return Last(v0, nm)
      s = z3.simplify(zint(v) - zint(v0))
      if C.occurs(i, s):
        return Last(v0, nm)
      steps.add(s.sexpr())
      last = s
    if len(steps) == 1:
      return Linear(v0, last)
    return Last(v0, nm)
  if isinstance(v0, (SLeaf, SReal)) and all(type(v) is type(v0) for v, _ in vals):
    return Fold(v0, f"{i}_{nm}")
  return Last(v0, nm)


def guess_list(old, news):
  for nv, o in news:
    if nv is old:
      continue
    if isinstance(nv, C.Dropped) and not isinstance(old, tuple):
      return Drop(old)
    if list_suffix(old, nv) is not None:
      return Append(old)
  raise Unsupported("list modified irregularly in a loop")


def update_append(t, i, news, cur):
  """Refreshes the element cases; returns True if unchanged, None if unusable."""
  one, bag = [], []
  all_one = True
  for nv, o in news:
    suf = list_suffix(cur, nv) if cur is not None else None
    if suf is None and cur is not None:
      suf = list_suffix_by_canon(cur, nv)
    if suf is None:
      return None
    ct = C.concrete_tuple(suf)
    if ct is not None and len(ct) == 1:
      one.append((o.guard, ct[0], list(o.facts)))
      bag.append((o.guard, [C.LW(ct[0], True)], list(o.facts)))
    else:
      all_one = False
      if ct is not None:
        if ct:
          bag.append((o.guard, [C.LW(x, True) for x in ct], list(o.facts)))
      elif isinstance(suf, C.Bag):
        bag.append((o.guard, [suf.layer], list(o.facts)))
      elif isinstance(suf, C.SSeq) and type(suf) is C.SSeq:
        j = z3.Const(ctx().name("cat_j"), Int)
        cs = C.cases_generic(suf, j)
        bag.append((o.guard, [C.LC(j, suf.n, [(g, [C.LW(v, True)], []) for g, v in cs])],
                    list(o.facts)))
      else:
        return None
  old = (t.bag, repr(t.cases and [(canon(g), canon(tuple(x) if isinstance(x, list) else x)) for g, x, _ in t.cases]))
  t.bag = not all_one
  t.cases = one if all_one else bag
  t.binder = i
  new = (t.bag, repr([(canon(g), canon(tuple(x) if isinstance(x, list) else x)) for g, x, _ in t.cases]))
  return old == new


def list_suffix_by_canon(cur, nv):
  if isinstance(nv, C.Cat) and same(nv.a, cur):
    return nv.b
  if isinstance(cur, C.Cat) and isinstance(nv, C.Cat) and same(cur.a, nv.a):
    if isinstance(nv.b, C.Cat) and same(nv.b.a, cur.b):
      return nv.b.b
  return None
