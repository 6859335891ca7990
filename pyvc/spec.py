"""Vocabulary of the contracts: symbolic inputs, outcomes, user callbacks."""
import z3

from pyvc import containers as C
from pyvc import core
from pyvc import rt
from pyvc.containers import DView, EDict, EDict2, EList, ESet, SSeq
from pyvc.core import (SBool, SInt, SLeaf, SReal, SStr, UserError, Unsupported, Int, Bool, Str, V, W,
                       ctx, encode, mk_bool, mk_int, mk_str, zint, zstr)

REGISTRY = {}      # property -> [Contract]


class Contract:
  def __init__(self, prop, name, functions, fn, budget, mods, note):
    self.prop, self.name, self.functions, self.fn = prop, name, functions, fn
    self.budget, self.mods, self.note = budget, mods, note


def contract(prop, name, functions, budget=60, mods=(), note=""):
  def deco(fn):
    REGISTRY.setdefault(prop, []).append(Contract(prop, name, functions, fn, budget, mods, note))
    return fn
  return deco


def record(name, v):
  ctx().inputs[name] = v
  return v


def sint(name, lo=None, hi=None):
  c = ctx()
  v = SInt(c.fresh(name, Int))
  if lo is not None:
    c.assume(v.t >= lo)
  if hi is not None:
    c.assume(v.t <= hi)
  return record(name, v)


def sbool(name):
  return record(name, SBool(ctx().fresh(name, Bool)))


def fork(name):
  """A python bool, both values explored."""
  return ctx().branch(sbool(name).t)


def pick(name, options):
  """One of a list of concrete alternatives, all explored."""
  options = list(options)
  k = sint(name, 0, len(options) - 1)
  for j, o in enumerate(options[:-1]):
    if ctx().branch(k.t == j):
      return o
  return options[-1]


def sstr(name, nonempty=False, no=None):
  c = ctx()
  v = SStr(c.fresh(name, Str))
  if nonempty:
    c.assume(z3.Length(v.t) > 0)
  if no is not None:
    c.assume(z3.Not(z3.Contains(v.t, z3.StringVal(no))))
  return record(name, v)


def sreal(name):
  return record(name, SReal(ctx().fresh(name, core.Real)))


def sleaf(name, **attrs):
  return record(name, SLeaf(ctx().fresh(name, V), attrs))


def int_seq(name, lo=None, n=None, kind="tuple"):
  return record(name, wrap(C.sym_int_seq(name, lo, None if n is None else zint(n), "tuple"), kind))


def leaf_seq(name, n=None, kind="tuple"):
  c = ctx()
  f = c.fresh_fun(name, Int, V)
  s = C.sym_seq(name, lambda i: SLeaf(f(i)), "tuple", None if n is None else zint(n))
  return record(name, wrap(s, kind))


def wrap(s, kind):
  return EList(s) if kind == "list" else s


def index(name, n):
  """An arbitrary index of a sequence of length n (skolem constant)."""
  c = ctx()
  i = SInt(c.fresh(name, Int))
  c.assume(z3.And(i.t >= 0, i.t < zint(n)), check=True)
  return record(name, i)


def nth(s, i):
  n, g, _ = C.seq_parts(s)
  t = zint(i)
  iv = core.int_val(SInt(t))
  return g(z3.IntVal(iv) if iv is not None else t)


def length(s):
  return rt.len_(s)


def eq(a, b):
  return C.eq_term(a, b)


def same(a, b):
  """Identity of two values."""
  return core.to_bool(rt.is_(a, b))


def prove(name, cond):
  return ctx().prove(name, cond)


def op_symbols(t):
  """The uninterpreted array operations in a term."""
  seen, todo, out = set(), [t], set()
  while todo:
    x = todo.pop()
    if x.get_id() in seen:
      continue
    seen.add(x.get_id())
    if z3.is_app(x):
      n = x.decl().name()
      if n.startswith("op_"):
        out.add(n)
      todo += x.children()
  return out


def prove_op(name, got, want):
  """Two arrays are the same.  A difference counts as a refutation only when both are built
  from the same array operations; otherwise the uninterpreted operations decide nothing."""
  if not isinstance(got, SLeaf) or not isinstance(want, SLeaf):
    raise Unsupported(name + ": not an array expression")
  goal = same(got, want)
  if not ctx().entails(goal) and op_symbols(encode(got)) != op_symbols(encode(want)):
    raise Unsupported(name + ": computed with other array operations")
  return prove(name, goal)


def implies(a, b):
  return z3.Implies(core.to_bool(a), core.to_bool(b))


def cover(name):
  """Reachability witness: this point is feasible on some explored path."""
  ctx().run.covers.add(name)


class Raised:
  def __init__(self, exc):
    self.exc = exc

  def __repr__(self):
    return f"raised {type(self.exc).__name__}: {self.exc.args!r}"


def outcome(fn, *a, **k):
  """Result, or Raised(exception)."""
  try:
    return fn(*a, **k)
  except Exception as e:
    h = core.hidden(e)
    if h is not None:
      raise Unsupported(str(h)) if isinstance(h, RecursionError) else h
    return Raised(e)


def no_raise(name, r):
  """Obligation: the call returned."""
  if isinstance(r, Raised):
    import traceback
    fe = traceback.format_exception(r.exc); tb = "".join(fe if len(fe) < 16 else fe[:8] + ["...\n"] + fe[-6:])
    ctx().prove_false(name + ": no exception", f"raised {type(r.exc).__name__}: {r.exc}\n{tb}")
    return False
  return True


def must_raise(name, r, exc):
  if isinstance(r, Raised) and isinstance(r.exc, exc):
    ctx().prove(name, z3.BoolVal(True))
    return True
  got = repr(r) if isinstance(r, Raised) else type(r).__name__
  ctx().prove_false(name, f"expected {exc}, got {got}")
  return False


# --------------------------------------------------------------- user callbacks


class SFun:
  """An arbitrary user function: result and effects depend on the world, on the
  arguments and on nothing else; may raise UserError when `raises`."""

  def __init__(self, name, raises=False, effects=True, result=None, hook=None):
    self.name, self.raises, self.effects = name, raises, effects
    self.result = result
    self.hook = hook
    self.__name__ = name
    self.__qualname__ = name
    self.__module__ = "user"
    self.__doc__ = None
    self.t = None

  def vc_encode(self):
    return z3.Const("fun_" + self.name, V)

  def __call__(self, *args, **kw):
    c = ctx()
    al = [encode(a) for a in args]
    ks = sorted(kw)
    al += [encode(kw[k]) for k in ks]
    tag = f"{self.name}/{len(args)}" + "".join("," + k for k in ks)
    w = c.world
    if self.hook is not None:
      self.hook(args, kw)
    if self.raises:
      if c.branch(z3.Function("raises_" + tag, W, *[V] * len(al), Bool)(w, *al)):
        raise UserError(self.name)
    if self.effects:
      c.world = z3.Function("eff_" + tag, W, *[V] * len(al), W)(w, *al)
      r = z3.Function("res_" + tag, W, *[V] * len(al), V)(w, *al)
    else:
      r = z3.Function("res_" + tag, *[V] * len(al), V)(*al) if al else z3.Const("res_" + tag, V)
    if self.result is not None:
      return self.result(r)
    return SLeaf(r)


def one_level(name, val=None, ksort=Str):
  """An arbitrary dict with string keys; values are leaves unless `val`."""
  c = ctx()
  has = c.fresh_fun(name + ".has", ksort, Bool)
  vf = c.fresh_fun(name + ".val", ksort, V)
  v = val or (lambda k: SLeaf(vf(k)))
  return EDict((C.LB(C.Base(name, ksort, has, v)),))


def two_level(name, val=None):
  """An arbitrary two-level params/state dict (journaled defaultdict(dict))."""
  c = ctx()
  vf = c.fresh_fun(name + ".val", Str, Str, V)
  b = C.Base2(name, val or (lambda k1, k2: SLeaf(vf(k1, k2))))
  return EDict2((C.L2B(b),))
