"""Symbolic and journaled containers: sequences, lists, deques, dicts, sets."""
import collections
import sys

import z3

from pyvc import core
from pyvc.core import (SBool, SInt, SLeaf, SReal, SStr, Sym, Unsupported, V, Int, Bool, Str,
                       PathAbort, ctx, encode, int_val, mk_bool, mk_int, mk_str, zint, zstr)

# ------------------------------------------------------------ term utilities


def cases_of(fn):
  """All outcomes of `fn` as [(guard and facts, value)], without forking.

  Raises Unsupported if fn has side effects or can raise.
  """
  from pyvc import loops
  outs = loops.sub_explore(fn)
  res = []
  for o in outs:
    if o.kind != "normal":
      raise Unsupported("a lazily evaluated element can raise")
    if o.effects:
      raise Unsupported("a lazily evaluated element has side effects")
    res.append((o.full_guard(), o.value))
  return res


def choose(cases):
  """Pick the case that applies on this path (forks)."""
  c = ctx()
  for g, v in cases[:-1]:
    if c.branch(g):
      return v
  if not cases:
    raise PathAbort()
  g, v = cases[-1]
  if len(cases) > 1 and not z3.is_true(g):
    c.assume(g)
  return v


def eq_term(a, b):
  """z3 Bool for python equality of two values (structural)."""
  if isinstance(a, (SeqBase, tuple, list)) and isinstance(b, (SeqBase, tuple, list)):
    return seq_eq(a, b)
  if isinstance(a, SLeaf) and isinstance(b, SLeaf):
    return a.t == b.t
  if a is b:
    return z3.BoolVal(True)
  if (a is None) != (b is None):
    return z3.BoolVal(False)
  if isinstance(a, (EDict, EDict2, DView)) or isinstance(b, (EDict, EDict2, DView)):
    raise Unsupported("dict equality term")
  if isinstance(a, SLeaf) or isinstance(b, SLeaf):
    return encode(a) == encode(b)
  r = (a == b)
  return core.to_bool(r)


def key_term(k):
  """z3 term of a dict key."""
  if isinstance(k, (str, SStr)):
    return zstr(k)
  if isinstance(k, (int, SInt)) and not isinstance(k, bool):
    return zint(k)
  return encode(k)


def keq(a, b):
  ta, tb = key_term(a), key_term(b)
  if ta.sort() != tb.sort():
    if isinstance(a, SLeaf) or isinstance(b, SLeaf):
      return encode(a) == encode(b)
    return z3.BoolVal(False)
  return ta == tb


# --------------------------------------------------------------- substitution


def subst(v, pairs, memo=None):
  """Instantiates a loop summary value: replaces binder terms in `v`."""
  if memo is None:
    memo = {}
  if v is None or isinstance(v, (bool, int, float, str, bytes, type)):
    return v
  if isinstance(v, SInt):
    return mk_int(z3.substitute(v.t, *pairs))
  if isinstance(v, SBool):
    return mk_bool(z3.substitute(v.t, *pairs))
  if isinstance(v, SReal):
    return SReal(z3.substitute(v.t, *pairs))
  if isinstance(v, SStr):
    return mk_str(z3.substitute(v.t, *pairs))
  if isinstance(v, SLeaf):
    return SLeaf(z3.substitute(v.t, *pairs), v.attrs)
  if z3.is_expr(v):
    return z3.substitute(v, *pairs)
  if id(v) in memo:
    return memo[id(v)][0]
  if hasattr(type(v), "vc_subst"):
    return type(v).vc_subst(v, pairs, memo)
  if type(v) is tuple:
    return tuple(subst(x, pairs, memo) for x in v)
  if isinstance(v, tuple) and hasattr(v, "_fields"):
    return type(v)(*[subst(x, pairs, memo) for x in v])
  if callable(v):
    return v
  if getattr(type(v), "__vc_instrumented__", False):
    d = instance_dict(v)
    new = object.__new__(type(v))
    memo[id(v)] = (new, v)
    for k, x in d.items():
      object.__setattr__(new, k, subst(x, pairs, memo))
    return new
  return v


def eval_subst(f, k, pairs):
  """(f with `pairs` substituted)(k): side conditions are instantiated too."""
  c = ctx()
  if any(occurs(p[0], k) for p in pairs):      # avoid capturing what k mentions
    k0 = z3.Const(c.name("arg"), k.sort())
    return eval_subst1(lambda: eval_subst1(lambda: f(k0), pairs), [(k0, k)])
  return eval_subst1(lambda: f(k), pairs)


def eval_subst1(f, pairs):
  c = ctx()
  c.inst.append(pairs)
  try:
    r = f()
  finally:
    c.inst.pop()
  return subst(r, pairs)


def instance_dict(v):
  try:
    d = dict(object.__getattribute__(v, "__dict__"))
  except AttributeError:
    d = {}
  for k in type(v).__mro__:
    for s in getattr(k, "__slots__", ()) if not isinstance(getattr(k, "__slots__", ()), str) else ():
      nm = s
      if nm.startswith("__") and not nm.endswith("__"):
        nm = "_" + k.__name__.lstrip("_") + nm
      try:
        d[nm] = object.__getattribute__(v, nm)
      except AttributeError:
        pass
  return d


def freeze(v, since, memo=None):
  """Deep snapshot of objects created after clock `since` (end of a loop body)."""
  if memo is None:
    memo = {}
  if v is None or isinstance(v, (bool, int, float, str, bytes, type)) or z3.is_expr(v):
    return v
  if isinstance(v, (SInt, SBool, SReal, SStr, SLeaf)):
    return v
  if id(v) in memo:
    return memo[id(v)][0]
  if hasattr(type(v), "vc_freeze"):
    return type(v).vc_freeze(v, since, memo)
  if type(v) is tuple:
    return tuple(freeze(x, since, memo) for x in v)
  if isinstance(v, tuple) and hasattr(v, "_fields"):
    return type(v)(*[freeze(x, since, memo) for x in v])
  if getattr(type(v), "__vc_instrumented__", False) and not callable(v):
    if ctx_stamp(v) > since:
      new = object.__new__(type(v))
      memo[id(v)] = (new, v)
      for k, x in instance_dict(v).items():
        object.__setattr__(new, k, freeze(x, since, memo))
      return new
  return v


def ctx_stamp(v):
  return STAMPS.get(id(v), (0, None))[0]


STAMPS = {}     # id(instance) -> (clock of first journaled attribute write, obj)


# ------------------------------------------------------------------ sequences


class SeqBase(Sym):
  __slots__ = ()


class SSeq(SeqBase):
  """An immutable sequence of symbolic length."""
  __slots__ = ("n", "get", "kind", "term")
  __hash__ = None

  def __init__(self, n, get, kind="tuple", term=None):
    self.n = n if z3.is_expr(n) else z3.IntVal(n)
    self.get = get
    self.kind = kind
    self.term = term

  # structural -----------------------------------------------------------
  def vc_subst(self, pairs, memo):
    g = self.get
    return SSeq(z3.substitute(self.n, *pairs), lambda i: eval_subst(g, i, pairs), self.kind,
                None if self.term is None else z3.substitute(self.term, *pairs))

  def vc_freeze(self, since, memo):
    return self

  def vc_encode(self):
    if self.term is not None:
      return self.term
    n = int_val(SInt(self.n))
    if n is not None:
      return encode(tuple(self.at(i) for i in range(n)))
    i = z3.Const(ctx().name("enc_i"), Int)
    cs = cases_generic(self, i)
    t = encode(cs[-1][1])
    for g, v in reversed(cs[:-1]):
      t = z3.If(g, encode(v), t)
    return core.VSEQ(z3.Lambda([i], z3.If(z3.And(i >= 0, i < self.n), t, core.VNIL)), self.n)

  # python protocol --------------------------------------------------------
  def vc_len(self):
    return mk_int(self.n)

  def __len__(self):
    v = int_val(SInt(self.n))
    if v is None:
      raise Unsupported("native len() of a symbolic sequence")
    return v

  def __bool__(self):
    return ctx().branch(self.n > 0)

  def at(self, i):
    return self.get(z3.IntVal(i) if isinstance(i, int) else i)

  def __getitem__(self, k):
    if isinstance(k, slice):
      return seq_slice(self, k)
    i = zint(k)
    if i is None:
      raise TypeError("indices must be integers or slices")
    c = ctx()
    iv = int_val(SInt(i))
    if iv is not None:
      if iv >= 0:
        if c.branch(self.n <= iv):
          raise IndexError("index out of range")
        return self.get(z3.IntVal(iv))
      if c.branch(self.n < -iv):
        raise IndexError("index out of range")
      return self.get(z3.simplify(self.n + iv))
    if c.branch(i < 0):
      i = i + self.n
    if c.branch(z3.Or(i < 0, i >= self.n)):
      raise IndexError("index out of range")
    return self.get(z3.simplify(i))

  def __iter__(self):
    v = int_val(SInt(self.n))
    if v is None:
      # maybe the path condition fixes the length
      v = fixed_value(self.n)
      if v is None:
        raise Unsupported("native iteration over a symbolic sequence")
    return iter([self.at(i) for i in range(v)])

  def __add__(self, o):
    return concat(self, o)

  def __radd__(self, o):
    return concat(o, self)

  def __mul__(self, k):
    return repeat(self, k)
  __rmul__ = __mul__

  def __eq__(self, o):
    if not isinstance(o, (tuple, list, SeqBase)):
      return False
    return mk_bool(seq_eq(self, o))

  def __ne__(self, o):
    r = self.__eq__(o)
    return (not r) if isinstance(r, bool) else SBool(z3.Not(r.t))

  def __contains__(self, x):
    return ctx().branch(seq_contains(self, x))

  def index(self, x):
    raise Unsupported("index() on a symbolic sequence")

  def count(self, x):
    raise Unsupported("count() on a symbolic sequence")

  def __repr__(self):
    return f"<{self.kind} of length {self.n}>"

  def __format__(self, spec):
    return repr(self)

  def vc_describe(self, m):
    n = m.eval(self.n, model_completion=True).as_long()
    return [core.describe(self.at(i), m) for i in range(min(n, 8))] + (["..."] if n > 8 else [])


def fixed_value(t):
  """The unique value of an int term under the path condition, or None."""
  c = ctx()
  if c._check() != z3.sat:
    return None
  v = c.solver.model().eval(t, model_completion=True)
  if z3.is_int_value(v) and c.entails(t == v):
    return v.as_long()
  return None


def seq_parts(x):
  """(n term, getter, kind) of any sequence-like."""
  if isinstance(x, SSeq):
    return x.n, x.get, x.kind
  if isinstance(x, (EList,)):
    n, g, _ = seq_parts(x.st)
    return n, g, x.kind
  if isinstance(x, (tuple, list)):
    t = tuple(x)
    kind = "list" if isinstance(x, list) else "tuple"
    def get(i):
      iv = int_val(SInt(i))
      if iv is not None:
        return t[iv]
      for j, e in enumerate(t[:-1]):
        if ctx().branch(i == j):
          return e
      return t[-1]
    return z3.IntVal(len(t)), get, kind
  raise Unsupported(f"not a sequence: {type(x).__name__}")


def is_seq(x):
  return isinstance(x, (tuple, list, SeqBase))


def concrete_tuple(x):
  """Native tuple of the elements if the length is concrete, else None."""
  if isinstance(x, EList):
    x = x.st
  if isinstance(x, (tuple, list)):
    return tuple(x)
  if isinstance(x, SSeq):
    v = int_val(SInt(x.n))
    if v is not None and v <= 64:
      return tuple(x.at(i) for i in range(v))
  return None


def wrap_kind(t, kind):
  if kind == "list":
    return EList(t)
  return t


def retag(s, kind):
  """The same sequence with another python type."""
  if isinstance(s, Cat):
    r = Cat(s.a, s.b)
  elif isinstance(s, Bag):
    return s
  elif hasattr(s, "vc_retag"):
    r = s.vc_retag()
  elif type(s) is SSeq or s.kind != kind:
    r = SSeq(s.n, s.get, kind, s.term)
  else:
    r = s
  r.kind = kind
  return r


def two_level_snapshot(d):
  """Layers of a one-level dict with the (live) values of a two-level store."""
  st = d.st
  snap = EDict2(st)
  has = lambda kt: snap.mem1(kt)
  val = lambda kt: d.find1(mk_key(kt))[1]
  return (LB(Base("snap2", Str, has, val, enum=d.enum())),)


def concat(a, b):
  if not (is_seq(a) and is_seq(b)):
    return NotImplemented
  ka, kb = seq_parts(a)[2], seq_parts(b)[2]
  if ka != kb:
    raise TypeError(f"can only concatenate {ka} (not \"{kb}\") to {ka}")
  ca, cb = concrete_tuple(a), concrete_tuple(b)
  if ca is not None and cb is not None:
    return wrap_kind(ca + cb, ka)
  return wrap_kind(concat_st(a, b), ka)


def concat_st(a, b):
  """Concatenation of sequence states (kind ignored)."""
  ca, cb = concrete_tuple(a), concrete_tuple(b)
  if ca is not None and cb is not None:
    return ca + cb
  if ca == ():
    return b.st if isinstance(b, EList) else b
  if cb == ():
    return a.st if isinstance(a, EList) else a
  a = a.st if isinstance(a, EList) else (tuple(a) if isinstance(a, list) else a)
  b = b.st if isinstance(b, EList) else (tuple(b) if isinstance(b, list) else b)
  return Cat(a, b)


def repeat(x, k):
  kv = int_val(k)
  if isinstance(x, str):
    if kv is not None:
      return x * kv
    return SStr(ctx().fresh("rep", Str))
  n, g, kind = seq_parts(x)
  ct = concrete_tuple(x)
  if kv is not None and ct is not None:
    return wrap_kind(ct * kv, kind)
  kt = zint(k)
  if kt is None:
    raise TypeError("can't multiply sequence by non-int")
  if ct is not None and len(ct) == 0:
    return wrap_kind((), kind)
  kt = z3.If(kt < 0, z3.IntVal(0), kt)
  if ct is not None and len(ct) == 1:
    return wrap_kind(SSeq(z3.simplify(kt), lambda i: ct[0]), kind)
  if kv == 1:
    return wrap_kind(x.st if isinstance(x, EList) else x, kind)
  nf = fixed_value(n) if active_ctx() else None
  if nf == 1:
    return wrap_kind(SSeq(z3.simplify(kt), lambda i: g(z3.IntVal(0))), kind)
  return wrap_kind(SSeq(z3.simplify(kt * n), lambda i: g(z3.simplify(i % n))), kind)


def active_ctx():
  return core.active()


def norm_bound(b, n, default):
  if b is None:
    return default
  t = zint(b)
  if t is None:
    raise TypeError("slice indices must be integers or None")
  t = z3.If(t < 0, z3.If(t + n < 0, z3.IntVal(0), t + n), z3.If(t > n, n, t))
  return z3.simplify(t)


def seq_slice(x, k):
  n, g, kind = seq_parts(x)
  step = 1 if k.step is None else int_val(k.step)
  if step == -1 and k.start is None and k.stop is None:
    return wrap_kind(SSeq(n, lambda i: g(z3.simplify(n - 1 - i))), kind)
  if step != 1:
    ct = concrete_tuple(x)
    if ct is not None and step is not None and all(
        v is None or int_val(v) is not None for v in (k.start, k.stop)):
      f = lambda v: None if v is None else int_val(v)
      return wrap_kind(ct[f(k.start):f(k.stop):step], kind)
    raise Unsupported("slice step")
  ct = concrete_tuple(x)
  lo_v = 0 if k.start is None else int_val(k.start)
  hi_none = k.stop is None
  if ct is not None and lo_v is not None and (hi_none or int_val(k.stop) is not None):
    return wrap_kind(ct[lo_v:(None if hi_none else int_val(k.stop))], kind)
  lo = norm_bound(k.start, n, z3.IntVal(0))
  hi = norm_bound(k.stop, n, n)
  ln = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
  c = ctx()
  if c.entails(hi >= lo):
    ln = z3.simplify(hi - lo)
  fx = fixed_value(ln)
  if fx is not None and fx <= 4:
    return wrap_kind(tuple(g(z3.simplify(lo + j)) for j in range(fx)), kind)
  return wrap_kind(SSeq(ln, lambda i: g(z3.simplify(lo + i))), kind)


def cases_generic(x, i):
  """Cases of x[i] for a bound variable i (quantifier-friendly)."""
  n, g, _ = seq_parts(x)
  c = ctx()
  def fn():
    c.assume(z3.And(i >= 0, i < n))
    return g(i)
  from pyvc import loops
  return loops.with_binder(i, lambda: cases_of(fn))


def seq_eq(a, b):
  ca, cb = concrete_tuple(a), concrete_tuple(b)
  ka, kb = seq_parts(a)[2], seq_parts(b)[2]
  if ka != kb:
    return z3.BoolVal(False)
  if ca is not None and cb is not None:
    if len(ca) != len(cb):
      return z3.BoolVal(False)
    return z3.And(*[eq_term(x, y) for x, y in zip(ca, cb)]) if ca else z3.BoolVal(True)
  na, ga, _ = seq_parts(a)
  nb, gb, _ = seq_parts(b)
  if isinstance(a, SSeq) and isinstance(b, SSeq) and a.term is not None and b.term is not None:
    if a.term.eq(b.term):
      return z3.BoolVal(True)
  for (cc, other_n, other_g) in ((ca, nb, gb), (cb, na, ga)):
    if cc is not None and len(cc) <= 6:
      c = ctx()
      fx = None
      eqs = []
      for j, e in enumerate(cc):
        eqs.append(guarded(other_n > j, lambda j=j, e=e: eq_term(e, other_g(z3.IntVal(j)))))
      return z3.And(other_n == len(cc), *eqs)
  c = ctx()
  i = z3.Const(c.name("eq_i"), Int)
  def fn():
    c.assume(z3.And(i >= 0, i < na, i < nb))
    return eq_term(ga(i), gb(i))
  from pyvc import loops
  cs = loops.with_binder(i, lambda: cases_of(fn))
  body = z3.And(*[z3.Implies(g, v) for g, v in cs]) if cs else z3.BoolVal(True)
  return z3.And(na == nb, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < na), body)))


def guarded(cond, fn):
  """Implies(cond, fn()) with fn evaluated under cond, no forking."""
  c = ctx()
  def run():
    c.assume(cond, check=True)
    return fn()
  cs = cases_of(run)
  return z3.Implies(cond, z3.And(*[z3.Implies(g, v) for g, v in cs]) if cs else z3.BoolVal(True))


def seq_contains(a, x):
  ca = concrete_tuple(a)
  if ca is not None:
    return z3.Or(*[eq_term(e, x) for e in ca]) if ca else z3.BoolVal(False)
  n, g, _ = seq_parts(a)
  c = ctx()
  i = z3.Const(c.name("in_i"), Int)
  def fn():
    c.assume(z3.And(i >= 0, i < n))
    return eq_term(g(i), x)
  from pyvc import loops
  cs = loops.with_binder(i, lambda: cases_of(fn))
  return z3.Exists([i], z3.And(i >= 0, i < n, z3.Or(*[z3.And(g_, v) for g_, v in cs])))


def sym_seq(name, elem, kind="tuple", n=None):
  """A fresh sequence of unknown length; elem(i_term) -> value."""
  c = ctx()
  if n is None:
    n = c.fresh(name + ".len", Int)
    c.assume(n >= 0)
  return SSeq(n, elem, kind)


def sym_int_seq(name, lo=None, n=None, kind="tuple"):
  c = ctx()
  f = c.fresh_fun(name, Int, Int)
  def get(i):
    t = f(i)
    if lo is not None:
      c_ = ctx()
      c_.fact(t >= lo)
    return mk_int(t)
  return sym_seq(name, get, kind, n)


RANK = z3.Function("rank", V, Int)
DIM = z3.Function("dim", V, Int, Int)


def shape_of(leaf):
  c = ctx()
  t = leaf.t
  c.fact(RANK(t) >= 0)
  def get(i):
    c_ = ctx()
    c_.fact(DIM(t, i) >= 0)
    return mk_int(DIM(t, i))
  return SSeq(RANK(t), get, "tuple", term=z3.Function("shape_of", V, V)(t))


# ------------------------------------------------------------- mutable lists


class Mutable:
  """Journaled object: state is replaced, never mutated in place."""
  __slots__ = ()

  def _set(self, st):
    old = self.st
    if core.active():
      c = ctx()
      c.trail.append((lambda s=self, o=old: s._restore(o)))
      LOG_hook(c, self, old, st)
    self.st = st

  def _restore(self, o):
    self.st = o


def LOG_hook(c, obj, old, new):
  for fr in getattr(c, "effect_frames", ()):
    if id(obj) not in fr:
      fr[id(obj)] = (obj, "st", old)


def stamp():
  return ctx().tick() if core.active() else 0


class EList(SeqBase, Mutable):
  """A python list (kind 'list') or deque (kind 'deque')."""
  __slots__ = ("st", "kind", "born")
  __hash__ = None

  def __init__(self, st=(), kind="list"):
    self.st = tuple(st) if isinstance(st, list) else st
    self.kind = kind
    self.born = stamp()

  def vc_subst(self, pairs, memo):
    new = EList((), self.kind)
    memo[id(self)] = (new, self)
    new.st = subst(self.st, pairs, memo)
    return new

  def vc_freeze(self, since, memo):
    if abs(self.born) <= since:
      return self
    new = EList((), self.kind)
    memo[id(self)] = (new, self)
    new.st = freeze(self.st, since, memo)
    return new

  def vc_encode(self):
    ct = concrete_tuple(self)
    return encode(ct if ct is not None else self.st)

  def vc_len(self):
    return len(self.st) if isinstance(self.st, tuple) else self.st.vc_len()

  def __len__(self):
    return len(self.st)

  def __bool__(self):
    return bool(self.st)

  def __iter__(self):
    if isinstance(self.st, tuple):
      return _list_iter(self)
    return iter(self.st)

  def __reversed__(self):
    if isinstance(self.st, tuple):
      return reversed(self.st)
    raise Unsupported("native reversed of a symbolic list")

  def __getitem__(self, k):
    if isinstance(k, slice):
      if self.kind == "deque":
        raise TypeError("sequence index must be integer, not 'slice'")
      r = seq_slice(self, k)
      return r
    if isinstance(self.st, tuple):
      iv = int_val(k)
      if iv is not None:
        if not -len(self.st) <= iv < len(self.st):
          raise IndexError("index out of range")
        return self.st[iv]
      n, g, _ = seq_parts(self.st)
      return SSeq(n, g)[k]
    return self.st[k]

  def __setitem__(self, k, v):
    iv = int_val(k)
    if isinstance(self.st, tuple) and iv is not None:
      if not -len(self.st) <= iv < len(self.st):
        raise IndexError("assignment index out of range")
      l = list(self.st)
      l[iv] = v
      self._set(tuple(l))
      return
    n, g, _ = seq_parts(self.st)
    i = zint(k)
    c = ctx()
    if c.branch(i < 0):
      i = i + n
    if c.branch(z3.Or(i < 0, i >= n)):
      raise IndexError("assignment index out of range")
    def get(j, i=i):
      if ctx().branch(j == i):
        return v
      return g(j)
    self._set(SSeq(n, get))

  def __delitem__(self, k):
    ct = concrete_tuple(self)
    iv = int_val(k) if not isinstance(k, slice) else None
    if ct is None or iv is None:
      raise Unsupported("del on symbolic list")
    l = list(ct)
    del l[iv]
    self._set(tuple(l))

  def append(self, v):
    self._set(concat_st(self.st, (v,)))

  def appendleft(self, v):
    self._set(concat_st((v,), self.st))

  def extend(self, it):
    from pyvc import rt
    self._set(concat_st(self.st, rt.to_seq_state(it)))

  def __iadd__(self, it):
    self.extend(it)
    return self

  def insert(self, i, v):
    iv = int_val(i)
    if iv == 0:
      return self._set(concat_st((v,), self.st))
    ct = concrete_tuple(self)
    if ct is None or iv is None:
      raise Unsupported("insert on symbolic list")
    l = list(ct)
    l.insert(iv, v)
    self._set(tuple(l))

  def pop(self, i=-1):
    v = self[i]
    iv = int_val(i)
    if isinstance(self.st, tuple):
      l = list(self.st)
      l.pop(iv)
      self._set(tuple(l))
    elif iv == -1:
      s = self.st
      self._set(SSeq(z3.simplify(s.n - 1), s.get))
    elif iv == 0:
      s = self.st
      self._set(drop(s, z3.IntVal(1)))
    else:
      raise Unsupported("pop(i) on symbolic list")
    return v

  def popleft(self):
    try:
      v = self[0]
    except IndexError:
      raise IndexError("pop from an empty deque")
    if isinstance(self.st, tuple):
      self._set(self.st[1:])
    else:
      self._set(drop(self.st, z3.IntVal(1)))
    return v

  def clear(self):
    self._set(())

  def copy(self):
    return EList(self.st, self.kind)

  def reverse(self):
    ct = concrete_tuple(self)
    if ct is not None:
      self._set(tuple(reversed(ct)))
    else:
      n, g, _ = seq_parts(self.st)
      self._set(SSeq(n, lambda i: g(z3.simplify(n - 1 - i))))

  def sort(self, **k):
    ct = concrete_tuple(self)
    if ct is None:
      raise Unsupported("sort of symbolic list")
    self._set(tuple(sorted(ct, **k)))

  def index(self, x):
    ct = concrete_tuple(self)
    if ct is None:
      raise Unsupported("index on symbolic list")
    return ct.index(x)

  def remove(self, x):
    ct = concrete_tuple(self)
    if ct is None:
      raise Unsupported("remove on symbolic list")
    l = list(ct)
    l.remove(x)
    self._set(tuple(l))

  def count(self, x):
    ct = concrete_tuple(self)
    if ct is None:
      raise Unsupported("count on symbolic list")
    return ct.count(x)

  def __add__(self, o):
    return concat(self, o)

  def __radd__(self, o):
    return concat(o, self)

  def __mul__(self, k):
    return repeat(self, k)
  __rmul__ = __mul__

  def __eq__(self, o):
    if not isinstance(o, (list, EList)):
      return False
    return mk_bool(seq_eq(self, o))

  def __ne__(self, o):
    r = self.__eq__(o)
    return (not r) if isinstance(r, bool) else SBool(z3.Not(r.t))

  def __contains__(self, x):
    return ctx().branch(seq_contains(self, x))

  def __repr__(self):
    return f"<{self.kind} {self.st!r}>"

  def __format__(self, spec):
    return repr(self)


def _list_iter(l):
  i = 0
  while i < len(l.st):
    yield l.st[i]
    i += 1


def drop(s, k):
  """s[k:] for 0 <= k <= len(s), as a state; tracked for loop templates."""
  base, off = s, k
  if isinstance(s, Dropped):
    base, off = s.base, z3.simplify(s.off + k)
  return Dropped(base, off)


class Cat(SSeq):
  """a ++ b, remembered for loop templates."""
  __slots__ = ("a", "b")

  def __init__(self, a, b):
    na, ga, _ = seq_parts(a)
    nb, gb, _ = seq_parts(b)

    def get(i):
      if ctx().branch(i < na):
        return ga(i)
      return gb(z3.simplify(i - na))
    super().__init__(z3.simplify(na + nb), get)
    self.a, self.b = a, b

  def vc_subst(self, pairs, memo):
    r = Cat(subst(self.a, pairs, memo), subst(self.b, pairs, memo))
    r.kind = self.kind
    return r

  def vc_freeze(self, since, memo):
    r = Cat(freeze(self.a, since, memo), freeze(self.b, since, memo))
    r.kind = self.kind
    return r


class Bag(SSeq):
  """A sequence known only as a bag: for i < bound, if guard(i): elem(i) (in
  order).  Length and positions are unknown; usable to build dicts and sets."""
  __slots__ = ("layer",)

  def __init__(self, layer):
    c = ctx()
    n = c.fresh("bag.n", Int)
    c.assume(n >= 0)
    def get(i):
      raise Unsupported("indexing into a conditionally built list")
    super().__init__(n, get)
    self.layer = layer        # LC with LW(elem, True)

  def vc_subst(self, pairs, memo):
    return Bag(self.layer.subst(pairs, memo))


class Dropped(SSeq):
  __slots__ = ("base", "off")

  def __init__(self, base, off):
    n, g, _ = seq_parts(base)
    super().__init__(z3.simplify(n - off), lambda i: g(z3.simplify(i + off)))
    self.base, self.off = base, off

  def vc_subst(self, pairs, memo):
    return Dropped(subst(self.base, pairs, memo), z3.substitute(self.off, *pairs))


# --------------------------------------------------------------------- dicts


class Enum:
  """An enumeration of the keys of one dict version.

  keyat: Int -> Key (injective on [0,n)), idx its inverse.  The symbols are
  functions of the loop indices (binders) in scope at creation, so a summary
  that mentions them can be instantiated at other indices (`at`).
  """
  __slots__ = ("n", "keyat", "idx", "mem", "mk", "name", "bs", "nf", "kf", "xf", "args", "orig")

  def __init__(self, name, ksort, mem, mk=None):
    c = ctx()
    self.name = c.name(name + ".enum")
    self.bs = list(c.binders)
    self.orig = None
    srt = [b.sort() for b in self.bs]
    self.nf = z3.Function(self.name + ".n", *srt, Int) if srt else z3.Const(self.name + ".n", Int)
    self.kf = z3.Function(self.name + ".keyat", *srt, Int, ksort)
    self.xf = z3.Function(self.name + ".idx", *srt, ksort, Int)
    self.mem = mem          # key term -> z3 Bool
    self.mk = mk_key
    self._bind(self.bs)
    c.assume(self.n >= 0)
    ENUMS.setdefault(id(c), {})[self.kf.name()] = self

  def _bind(self, args):
    self.args = list(args)
    self.n = self.nf(*args) if args else self.nf
    self.keyat = lambda i: self.kf(*args, i)
    self.idx = lambda k: self.xf(*args, k)

  def at(self, args):
    if all(a.eq(b) for a, b in zip(args, self.bs)):
      return self
    if self.orig is not None:
      return self.orig.at(args)
    e = Enum.__new__(Enum)
    e.orig = self
    e.bs, e.nf, e.kf, e.xf, e.mk = self.bs, self.nf, self.kf, self.xf, self.mk
    e.name = self.name + "@" + ",".join(str(a.get_id()) for a in args)
    prs = list(zip(self.bs, args))
    mem = self.mem
    e.mem = lambda k: z3.substitute(mem(k), *prs)
    e._bind(args)
    return e

  def key(self, i):
    """Key at index i (i known to be in range on this path)."""
    c = ctx()
    k = self.keyat(i)
    c.fact(z3.Implies(z3.And(i >= 0, i < self.n), self.idx(k) == i))
    return k

  def link(self, k):
    """Instantiates: mem(k) <-> k is enumerated at idx(k)."""
    c = ctx()
    j = self.idx(k)
    c.fact(z3.And(self.mem(k) == z3.And(j >= 0, j < self.n, self.keyat(j) == k), self.n >= 0),
           key=("link", self.name, k.get_id()))
    return j


  def index_of(self, k):
    """The index of a key of this dict (present on this path)."""
    if z3.is_app(k) and k.decl().eq(self.kf) and all(
        a.eq(ctx().instantiate(b)) for a, b in zip(k.children()[:-1], self.args)):
      x = k.children()[-1]
      if ctx().entails(z3.And(x >= 0, x < self.n)):
        return x
    return self.link(k)


ENUMS = {}


def collapse(lc):
  """A full sweep over the keys of an enumerated dict, writing one entry per
  key under the key itself, as a map: has(k), val(k).  None if not of that form."""
  cases = lc.cases
  if not cases or not all(len(ls) == 1 and isinstance(ls[0], LW) for _, ls, _ in cases):
    return None
  kt = key_term(cases[0][1][0].key)
  if not all(key_term(ls[0].key).eq(kt) for _, ls, _ in cases):
    return None
  if not (z3.is_app(kt) and kt.num_args() >= 1 and kt.arg(kt.num_args() - 1).eq(lc.i)):
    return None
  e = enum_of(kt)
  if e is None or any(occurs(lc.i, a) for a in kt.children()[:-1]):
    return None
  if not z3.simplify(e.n - lc.bound).eq(z3.IntVal(0)):
    return None
  i = lc.i

  def at(t, k, j=None):
    t = z3.substitute(t, (kt, k))
    if occurs(i, t):
      t = z3.substitute(t, (i, j if j is not None else e.index_of(k)))
    return t

  gs = [z3.simplify(g) for g, _, _ in cases]
  total = z3.simplify(z3.Or(*gs)) if len(gs) > 1 else gs[0]
  c = ctx()
  if not z3.is_true(total):
    s = z3.Solver()
    s.set("timeout", 2000)
    s.add(*c.pc)
    s.add(i >= 0, i < e.n, e.mem(kt), e.idx(kt) == i, z3.Not(total))
    if s.check() == z3.unsat:
      total = z3.BoolVal(True)
  full = z3.is_true(total)

  def has(k):
    return e.mem(k) if full else z3.And(e.mem(k), at(total, k))

  def val(k):
    c = ctx()
    j = e.index_of(k)
    for n, (g, ls, fs) in enumerate(cases):
      gk = at(g, k, j)
      if n == len(cases) - 1:
        if not (full and n == 0):
          c.assume(gk)
      elif not c.branch(gk):
        continue
      for f in fs:
        c.assume(at(f, k, j))
      return subst(ls[0].val, [(kt, k), (i, j)])
    raise PathAbort()
  b = Base("comp", kt.sort(), has, val, e if full else None)
  b.lc = lc
  return LB(b)


def enum_of(kt):
  """The enumeration a term keyat(args.., i) belongs to."""
  e = ENUMS.get(id(ctx()), {}).get(kt.decl().name())
  if e is None:
    return None
  return e.at(kt.children()[:-1])


def exists_key(todo, cond):
  """Exists over enumeration indices, rewritten as an existential over the keys."""
  qs = []
  for b in todo:
    kt = None
    work, seen = [cond], set()
    while work and kt is None:
      x = work.pop()
      if x.get_id() in seen:
        continue
      seen.add(x.get_id())
      if z3.is_app(x) and x.num_args() and x.arg(x.num_args() - 1).eq(b) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        e = enum_of(x)
        if e is not None and not any(occurs(o, a) for a in x.children()[:-1] for o in todo):
          kt = x
          break
      work += x.children()
    if kt is None:
      qs.append(b)
      continue
    nm = "qk_" + e.kf.name()
    k = z3.Const(nm, kt.sort())
    while occurs(k, cond):
      nm += "'"
      k = z3.Const(nm, kt.sort())
    body = z3.substitute(cond, (kt, k))
    rng = [z3.simplify(z3.And(b >= 0, b < e.n))]
    cs, flat = [body], []
    while cs:
      x = cs.pop()
      if z3.is_and(x):
        cs += x.children()
      else:
        flat.append(x)
    keep = [x for x in flat if not (x.eq(b >= 0) or x.eq(b < e.n) or x.eq(z3.IntVal(0) <= b)
                                    or z3.simplify(x).eq(z3.simplify(b >= 0)) or z3.simplify(x).eq(z3.simplify(b < e.n)))]
    body = z3.And(e.mem(k), *keep)
    if occurs(b, body):
      body = z3.And(z3.substitute(body, (b, e.idx(k))), e.keyat(e.idx(k)) == k, e.idx(k) >= 0, e.idx(k) < e.n)
    cond = body
    qs.append(k)
  return z3.Exists(qs, cond)


def mk_key(t):
  if t.sort() == Str:
    return mk_str(t)
  if t.sort() == Int:
    return mk_int(t)
  return SLeaf(t)


class Base:
  """A symbolic one-level dict: has(k), val(k)."""

  def __init__(self, name, ksort, has, val, enum=None):
    self.name, self.ksort, self.has, self.val = name, ksort, has, val
    self.enum = enum
    self.memo = []              # (key, object) for mutable values

  def value(self, k):
    """Value at a key known to be present."""
    kt = key_term(k)
    c = ctx()
    if c.inst:
      return self.val(kt)
    for k0, v0 in list(self.memo):
      if k0.eq(kt) or c.branch(k0 == kt):
        return v0
    v = self.val(kt)
    if isinstance(v, (EDict, EDict2, EList, ESet)) or (
        getattr(type(v), "__vc_instrumented__", False) and not isinstance(v, (tuple, type))):
      if isinstance(v, Mutable):
        v.born = -c.tick()      # existed all along; materialised now
      self.memo.append((kt, v))
      c.trail.append(lambda m=self.memo: m.pop())
    return v

  def subst(self, pairs, memo):
    h, v = self.has, self.val
    e = None
    if self.enum is not None:
      e = self.enum.at([z3.substitute(a, *pairs) for a in self.enum.args])
    return Base(self.name, self.ksort, lambda k: eval_subst(h, k, pairs),
                lambda k: eval_subst(v, k, pairs), e)


class LW:       # write
  __slots__ = ("key", "val")

  def __init__(self, key, val):
    self.key, self.val = key, val

  def subst(self, pairs, memo):
    return LW(subst(self.key, pairs, memo), subst(self.val, pairs, memo))

  def freeze(self, since, memo):
    return LW(self.key, freeze(self.val, since, memo))


class LD:       # delete
  __slots__ = ("key",)

  def __init__(self, key):
    self.key = key

  def subst(self, pairs, memo):
    return LD(subst(self.key, pairs, memo))

  def freeze(self, since, memo):
    return self


class LB:       # symbolic base
  __slots__ = ("base",)

  def __init__(self, base):
    self.base = base

  def subst(self, pairs, memo):
    return LB(self.base.subst(pairs, memo))

  def freeze(self, since, memo):
    return self


class LC:
  """Summary of a loop: for i in [0,bound): the case whose guard(i) holds.

  cases: [(guard, [layers], [facts])] over binder var `i`.
  """
  __slots__ = ("i", "bound", "cases")

  def __init__(self, i, bound, cases):
    self.i, self.bound, self.cases = i, bound, cases

  def subst(self, pairs, memo):
    j = z3.Const(ctx().name("cj"), Int)
    p2 = [(self.i, j)] + [p for p in pairs]
    return LC(j, z3.substitute(self.bound, *pairs),
              [(z3.substitute(z3.substitute(g, (self.i, j)), *pairs),
                [l.subst([(self.i, j)], {}).subst(pairs, memo) for l in ls],
                [z3.substitute(z3.substitute(f, (self.i, j)), *pairs) for f in fs])
               for g, ls, fs in self.cases])

  def freeze(self, since, memo):
    return self


def occurs(x, t):
  if t.eq(x):
    return True
  return any(occurs(x, ch) for ch in t.children())


def invert(kt, i, guard, k):
  """Solve key(i) == k for i.  -> (j term, side condition) or None."""
  c = ctx()
  if z3.is_app(kt) and kt.num_args() >= 1 and kt.arg(kt.num_args() - 1).eq(i):
    e = enum_of(kt)
    if e is not None and not any(occurs(i, a) for a in kt.children()[:-1]):
      if k.sort() != kt.sort():
        return None
      j = e.index_of(k)
      return j, e.keyat(j) == k
  if z3.is_app(kt) and kt.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
    ch = flatten_concat(kt)
    if not any(occurs(i, x) for x in ch[:-1]) and occurs(i, ch[-1]):
      p = ch[0] if len(ch) == 2 else z3.Concat(*ch[:-1])
      k2 = z3.SubString(k, z3.Length(p), z3.Length(k) - z3.Length(p))
      # fresh name for the remainder keeps terms small
      r = invert(ch[-1], i, guard, z3.simplify(k2))
      if r is not None:
        return r[0], z3.And(z3.PrefixOf(p, k), r[1])
  if z3.is_app(kt) and kt.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
    src, off, ln = kt.children()
    for p in prefix_conjuncts(guard, src):
      if not occurs(i, p):
        full = z3.Concat(p, k)
        r = invert(src, i, guard, full)
        if r is not None:
          j, side = r
          # the cut must be exactly the prefix, at the solution
          cut = z3.substitute(kt, (i, j))
          return j, z3.And(side, cut == k)
  return None


def flatten_concat(t):
  if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
    out = []
    for ch in t.children():
      out += flatten_concat(ch)
    return out
  return [t]


def prefix_conjuncts(g, src):
  out = []
  todo = [g]
  while todo:
    t = todo.pop()
    if z3.is_and(t):
      todo += t.children()
    elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_PREFIX and t.arg(1).eq(src):
      out.append(t.arg(0))
  return out


class EDict(Sym, Mutable):
  """dict / OrderedDict / Counter with symbolic keys."""
  __slots__ = ("st", "kind", "born", "factory", "enums")
  __hash__ = None

  def __init__(self, layers=(), kind="dict", factory=None):
    self.st = tuple(layers)
    self.kind = kind
    self.factory = factory
    self.born = stamp()
    self.enums = None

  # -- summary support
  def vc_subst(self, pairs, memo):
    new = EDict((), self.kind, self.factory)
    memo[id(self)] = (new, self)
    new.st = tuple(l.subst(pairs, memo) for l in self.st)
    return new

  def vc_freeze(self, since, memo):
    if abs(self.born) <= since:
      return self
    new = EDict((), self.kind, self.factory)
    memo[id(self)] = (new, self)
    new.st = tuple(l.freeze(since, memo) for l in self.st)
    return new

  def vc_encode(self):
    ct = self.concrete_items()
    if ct is not None:
      return z3.Function("v_dict", V, V)(encode(tuple(ct)))
    raise Unsupported("symbolic dict passed to an opaque function")

  # -- lookup
  def mem_term(self, k):
    return layers_mem(self.st, key_term(k))

  def find(self, k):
    """(found, value); forks."""
    return layers_find(self, self.st, k)

  def concrete_items(self):
    out = {}
    order = []
    for l in self.st:
      if isinstance(l, LW):
        kc = concrete_key(l.key)
        if kc is NOKEY:
          return None
        if kc not in out:
          order.append(kc)
        out[kc] = (l.key, l.val)
      elif isinstance(l, LD):
        kc = concrete_key(l.key)
        if kc is NOKEY:
          return None
        if kc in out:
          order.remove(kc)
          del out[kc]
      else:
        return None
    return [out[k] for k in order]

  def enum(self):
    """Key enumeration of the current version."""
    if len(self.st) == 1 and isinstance(self.st[0], LB):
      b = self.st[0].base
      if b.enum is None:
        e = Enum(b.name, b.ksort, b.has)
        set_journaled(b, "enum", e)
      return b.enum
    c = ctx()
    reg = getattr(c, "enum_reg", None)
    if reg is None:
      reg = c.enum_reg = {}
    key = id(self.st)
    if key in reg:
      return reg[key][0]
    ks = layers_ksort(self.st)
    st = self.st
    e = Enum("d", ks, lambda t: layers_mem(st, t))
    reg[key] = (e, st)
    c.trail.append(lambda: reg.pop(key, None))
    return e

  # -- python protocol
  def __getitem__(self, k):
    found, v = self.find(k)
    if found:
      return v
    if self.kind == "Counter":
      return 0
    if self.factory is not None:
      v = self.factory()
      self[k] = v
      return v
    raise KeyError(k)

  def get(self, k, default=None):
    found, v = self.find(k)
    return v if found else default

  def __contains__(self, k):
    return ctx().branch(self.mem_term(k))

  def has(self, k):
    return mk_bool(self.mem_term(k))

  def __setitem__(self, k, v):
    self._set(self.st + (LW(k, v),))

  def __delitem__(self, k):
    if not (k in self):
      raise KeyError(k)
    self._set(self.st + (LD(k),))

  def setdefault(self, k, default=None):
    found, v = self.find(k)
    if found:
      return v
    self[k] = default
    return default

  NODEF = object()

  def pop(self, k, default=NODEF):
    found, v = self.find(k)
    if found:
      self._set(self.st + (LD(k),))
      return v
    if default is EDict.NODEF:
      raise KeyError(k)
    return default

  def update(self, *a, **kw):
    from pyvc import rt
    for other in a:
      rt.dict_update(self, other)
    for k, v in kw.items():
      self[k] = v

  def clear(self):
    self._set(())

  def copy(self):
    return EDict(self.st, self.kind, self.factory)

  def keys(self):
    return KeysView(self)

  def values(self):
    return ValuesView(self)

  def items(self):
    return ItemsView(self)

  def __iter__(self):
    ci = self.concrete_items()
    if ci is None:
      raise Unsupported("native iteration over a symbolic dict")
    return iter([k for k, _ in ci])

  def vc_iter(self):
    return self.keys().vc_iter()

  def __len__(self):
    ci = self.concrete_items()
    if ci is None:
      raise Unsupported("native len of a symbolic dict")
    return len(ci)

  def vc_len(self):
    ci = self.concrete_items()
    if ci is not None:
      return len(ci)
    return mk_int(self.enum().n)

  def __bool__(self):
    ci = self.concrete_items()
    if ci is not None:
      return bool(ci)
    return branch_nonempty(self.enum(), nonempty(self.enum(), self.st))

  def __eq__(self, o):
    if o is self:
      return True
    raise Unsupported("equality of dicts")

  def __ne__(self, o):
    if o is self:
      return False
    raise Unsupported("inequality of dicts")

  def __repr__(self):
    return f"<dict {len(self.st)} layers>"

  def __format__(self, spec):
    return repr(self)


def nonempty(e, st):
  c = ctx()
  for l in st:
    if isinstance(l, LW):
      c.fact(z3.Implies(e.mem(key_term(l.key)), e.n > 0))
  return e.n > 0


def branch_nonempty(e, cond):
  """Forks on emptiness; the empty side knows that no key is a member."""
  c = ctx()
  if c.branch(cond):
    return True
  k = z3.Const("k!empty", e.kf.range())
  m = z3.simplify(e.mem(k))
  if z3.is_app(m) and m.decl().kind() == z3.Z3_OP_UNINTERPRETED and m.num_args() and not z3.is_quantifier(m):
    c.fact(z3.ForAll([k], z3.Not(m), patterns=[m]))
  return False


def set_journaled(obj, name, v):
  old = getattr(obj, name)
  ctx().trail.append(lambda: setattr(obj, name, old))
  setattr(obj, name, v)


NOKEY = object()


def concrete_key(k):
  if isinstance(k, SStr):
    v = core.str_val(k)
    return NOKEY if v is None else v
  if isinstance(k, SInt):
    v = int_val(k)
    return NOKEY if v is None else v
  if isinstance(k, Sym):
    return NOKEY
  if isinstance(k, tuple):
    t = tuple(concrete_key(x) for x in k)
    return NOKEY if any(x is NOKEY for x in t) else t
  return k


def layers_ksort(st):
  for l in st:
    if isinstance(l, LB):
      return l.base.ksort
    if isinstance(l, LW):
      return key_term(l.key).sort()
    if isinstance(l, LC):
      for _, ls, _f in l.cases:
        for x in ls:
          return layers_ksort((x,))
  return Str


def layers_mem(st, kt):
  """Membership of key term kt, as a z3 Bool (no forking)."""
  r = z3.BoolVal(False)
  for l in st:
    if isinstance(l, LW):
      r = z3.Or(kterm_eq(key_term(l.key), kt), r)
    elif isinstance(l, LD):
      r = z3.And(z3.Not(kterm_eq(key_term(l.key), kt)), r)
    elif isinstance(l, LB):
      r = z3.Or(l.base.has(kt), r) if l.base.ksort == kt.sort() else r
    elif isinstance(l, LC):
      for g, ls, _ in l.cases:
        for x in ls:
          if isinstance(x, LW):
            r = z3.Or(comp_mem(l, g, key_term(x.key), kt), r)
          elif isinstance(x, LC):
            raise Unsupported("nested summary in a one-level dict")
          else:
            raise Unsupported("delete inside a summarised loop")
    else:
      raise Unsupported("layer")
  return z3.simplify(r)


def kterm_eq(a, b):
  if a.sort() != b.sort():
    return z3.BoolVal(False)
  return a == b


def comp_solution(l, g, keyt, kt):
  """-> (j, cond) with cond: entry for key kt written at iteration j."""
  r = invert(keyt, l.i, g, kt)
  if r is None:
    return None
  j, side = r
  return j, z3.And(j >= 0, j < l.bound, side, z3.substitute(g, (l.i, j)))


def comp_mem(l, g, keyt, kt):
  if keyt.sort() != kt.sort():
    return z3.BoolVal(False)
  r = comp_solution(l, g, keyt, kt)
  if r is not None:
    return r[1]
  return z3.Exists([l.i], z3.And(l.i >= 0, l.i < l.bound, g, keyt == kt))


def layers_find(d, st, k):
  c = ctx()
  kt = key_term(k)
  for pos in range(len(st) - 1, -1, -1):
    l = st[pos]
    if isinstance(l, LW):
      if c.branch(kterm_eq(key_term(l.key), kt)):
        return True, l.val
    elif isinstance(l, LD):
      if c.branch(kterm_eq(key_term(l.key), kt)):
        return False, None
    elif isinstance(l, LB):
      if l.base.ksort == kt.sort() and c.branch(l.base.has(kt)):
        return True, l.base.value(k)
    elif isinstance(l, LC):
      for g, ls, fs in l.cases:
        for x in reversed(ls):
          if not isinstance(x, LW):
            raise Unsupported("layer inside a summarised loop")
          keyt = key_term(x.key)
          if keyt.sort() != kt.sort():
            continue
          r = comp_solution(l, g, keyt, kt)
          if r is None:
            if c.branch(comp_mem(l, g, keyt, kt)):
              raise Unsupported("cannot invert the key of a summarised loop")
            continue
          j, cond = r
          if c.branch(cond):
            for f in fs:
              c.assume(z3.substitute(f, (l.i, j)))
            unique_writer(l, keyt, kt)
            v = subst(x.val, [(l.i, j)])
            if isinstance(v, (EDict, EDict2, EList, ESet)) or getattr(type(v), "__vc_instrumented__", False):
              # materialise so that identity is stable
              d._set(d.st + (LW(k, v),))
            return True, v
  return False, None


def unique_writer(l, keyt, kt):
  """Within one summarised loop at most one iteration writes key kt."""
  for g, ls, _ in l.cases:
    for x in ls:
      k2 = key_term(x.key)
      if not k2.eq(keyt) and k2.sort() == kt.sort() and not ctx().entails(z3.Not(comp_mem(l, g, k2, kt))):
        raise Unsupported("a loop may write the same key twice")


class DictView(Sym):
  __slots__ = ("d",)

  def __init__(self, d):
    self.d = d

  def vc_freeze(self, since, memo):
    return type(self)(freeze(self.d, since, memo))

  def vc_subst(self, pairs, memo):
    return type(self)(subst(self.d, pairs, memo))

  def vc_len(self):
    return self.d.vc_len()

  def __len__(self):
    return len(self.d)

  def __bool__(self):
    return bool(self.d)

  def __iter__(self):
    ci = self.d.concrete_items()
    if ci is None:
      raise Unsupported("native iteration over a symbolic dict view")
    return iter([self._of(k, v) for k, v in ci])

  def vc_iter(self):
    """Symbolic sequence of the elements (or a concrete tuple)."""
    ci = self.d.concrete_items()
    if ci is not None:
      return tuple(self._of(k, v) for k, v in ci)
    d = self.d
    e = d.enum()
    st = d.st
    def get(i):
      k = e.mk(e.key(i))
      kt = key_term(k)
      c = ctx()
      c.fact(z3.Implies(z3.And(i >= 0, i < e.n), e.mem(kt)))
      if type(self) is KeysView:
        return k
      found, v = d.find(k)
      if not found:
        raise PathAbort()
      return self._of(k, v)
    return SSeq(e.n, get)


def view_set(self, other, op):
  """Set operations on dict views: only over known entries (each membership is decided by a branch)."""
  if isinstance(self, SetExpr) or isinstance(other, SetExpr):
    raise Unsupported("set operation on a set expression")
  a = elements_of(self)
  b = elements_of(other)
  if a is None or b is None:
    raise Unsupported("set operation on a symbolic dict view")
  out = ESet(())
  isin = lambda x, xs: ctx().branch(z3.Or(*[core.to_bool(x == y) for y in xs]))
  if op == "-":
    keep = [x for x in a if not isin(x, b)]
  elif op == "&":
    keep = [x for x in a if isin(x, b)]
  elif op == "|":
    keep = a + b
  else:
    keep = [x for x in a if not isin(x, b)] + [x for x in b if not isin(x, a)]
  for x in keep:
    out.add(x)
  return out


def elements_of(v):
  if isinstance(v, DictView):
    ci = v.d.concrete_items()
    if ci is None and type(v) is KeysView:
      return elements_of(v.d)
    return None if ci is None else [v._of(k, x) for k, x in ci]
  if isinstance(v, (ESet, EDict)):
    ci = v.concrete_items()
    if ci is None and all(isinstance(l, LW) for l in v.st):
      return [l.key for l in v.st]       # perhaps with repetitions
    return None if ci is None else [k for k, _ in ci]
  if isinstance(v, EList):
    t = concrete_tuple(v)
    return None if t is None else list(t)
  if isinstance(v, Sym):
    return None
  return list(v)


class KeysView(DictView):
  __slots__ = ()

  def _of(self, k, v):
    return k

  def __contains__(self, k):
    return k in self.d

  def __sub__(self, other):
    return view_set(self, other, "-")

  def __rsub__(self, other):
    return view_set(other, self, "-")

  def __and__(self, other):
    return view_set(self, other, "&")

  __rand__ = __and__

  def __or__(self, other):
    return view_set(self, other, "|")

  __ror__ = __or__

  def __xor__(self, other):
    return view_set(self, other, "^")

  __rxor__ = __xor__


class ValuesView(DictView):
  __slots__ = ()

  def _of(self, k, v):
    return v


class ItemsView(DictView):
  __slots__ = ()

  def _of(self, k, v):
    return (k, v)


# --------------------------------------------- two level dicts: defaultdict(dict)


def as_two_level(d, since):
  """{k: {} for k in ...}: every row is a fresh empty dict of its own -> a two-level store, else d."""
  def rows(l):
    if isinstance(l, LW):
      v = l.val
      if not (isinstance(v, EDict) and not v.st and v.kind == "dict" and v.factory is None and v.born > since):
        return None
      return L2T(l.key)
    if isinstance(l, LB) and getattr(l.base, "lc", None) is not None:
      if rows(l.base.lc) is None:
        return None
      return L2B(Rows(l.base))
    if isinstance(l, LC):
      cases = []
      for g, ls, fs in l.cases:
        r = [rows(x) for x in ls]
        if any(x is None for x in r):
          return None
        cases.append((g, r, fs))
      return LC(l.i, l.bound, cases)
    return None
  if type(d) is not EDict or not d.st or not any(isinstance(l, (LC, LB)) for l in d.st):
    return d
  layers = [rows(l) for l in d.st]
  if any(x is None for x in layers):
    return d
  return EDict2(layers, plain=True)


class L2T:      # key1 exists
  __slots__ = ("k1",)

  def __init__(self, k1):
    self.k1 = k1

  def subst(self, p, m):
    return L2T(subst(self.k1, p, m))

  def freeze(self, s, m):
    return self


class L2W:      # [k1][k2] = v
  __slots__ = ("k1", "k2", "val")

  def __init__(self, k1, k2, val):
    self.k1, self.k2, self.val = k1, k2, val

  def subst(self, p, m):
    return L2W(subst(self.k1, p, m), subst(self.k2, p, m), subst(self.val, p, m))

  def freeze(self, s, m):
    return L2W(self.k1, self.k2, freeze(self.val, s, m))


class L2M:      # [k1] = obj
  __slots__ = ("k1", "obj")

  def __init__(self, k1, obj):
    self.k1, self.obj = k1, obj

  def subst(self, p, m):
    return L2M(subst(self.k1, p, m), subst(self.obj, p, m))

  def freeze(self, s, m):
    return L2M(self.k1, freeze(self.obj, s, m))


class L2B:      # symbolic two level base
  __slots__ = ("b",)

  def __init__(self, b):
    self.b = b

  def subst(self, p, m):
    return self

  def freeze(self, s, m):
    return self


class L2I:      # initial contents: another (one level) dict of dicts
  __slots__ = ("d",)

  def __init__(self, d):
    self.d = d

  def subst(self, p, m):
    return L2I(subst(self.d, p, m))

  def freeze(self, s, m):
    return L2I(freeze(self.d, s, m))


class Base2:
  """Symbolic two-level mapping with string keys."""

  def __init__(self, name, val):
    c = ctx()
    self.name = name
    self.has1 = c.fresh_fun(name + ".has1", Str, Bool)
    self.has2_ = c.fresh_fun(name + ".has2", Str, Str, Bool)
    self.val = val            # (k1 term, k2 term) -> value
    self.enum1 = None
    self.enum2 = EList(())

  def has2(self, k1, k2):
    return z3.And(self.has1(k1), self.has2_(k1, k2))


class Swept:
  """Result of a sweep over (a part of) the keys of a two-level mapping."""

  def __init__(self, name, has1, has2, val, enum1):
    self.name, self.has1, self.has2, self.val, self.enum1 = name, has1, has2, val, enum1


def entailed(facts, goal):
  c = ctx()
  s = z3.Solver()
  s.set("timeout", 2000)
  s.add(*c.pc)
  s.add(*facts)
  s.add(z3.Not(goal))
  return s.check() == z3.unsat


def collapse2(layers):
  """Layers whose last one sweeps the rows of an enumeration, and in each row the
  keys of that row, writing (k1, k2) -> value: as a map.  None if not of that form."""
  c = ctx()
  lc = layers[-1]
  if c.binders or not isinstance(lc, LC) or not lc.cases:
    return None
  i = lc.i
  kt1 = e1 = None
  rows = []                # (guard, facts, touched, (LC, kt2) or None)
  for g, ls, fs in lc.cases:
    touched, inner = False, None
    for l in ls:
      if isinstance(l, L2T):
        ks = [key_term(l.k1)]
        touched = True
      elif isinstance(l, LC):
        if inner is not None or not l.cases or any(len(x) != 1 or not isinstance(x[0], L2W) for _, x, _ in l.cases):
          return None
        ks = [key_term(x[0].k1) for _, x, _ in l.cases]
        k2s = [key_term(x[0].k2) for _, x, _ in l.cases]
        if not all(k.eq(k2s[0]) for k in k2s):
          return None
        inner = (l, k2s[0])
      else:
        return None
      for k in ks:
        if kt1 is None:
          kt1 = k
        if not k.eq(kt1):
          return None
    rows.append((g, fs, touched, inner))
  if not (z3.is_app(kt1) and kt1.num_args() == 1 and kt1.arg(0).eq(i)):
    return None
  e1 = enum_of(kt1)
  if e1 is None or not z3.simplify(e1.n - lc.bound).eq(z3.IntVal(0)):
    return None
  for _, _, _, inner in rows:
    if inner is None:
      continue
    l, kt2 = inner
    if not (z3.is_app(kt2) and kt2.num_args() >= 1 and kt2.arg(kt2.num_args() - 1).eq(l.i)):
      return None
    e2 = enum_of(kt2)
    if e2 is None or any(occurs(l.i, a) for a in kt2.children()[:-1]) or not z3.simplify(e2.n - l.bound).eq(z3.IntVal(0)):
      return None

  def at1(t, k1):
    j = e1.link(k1)
    t = z3.substitute(t, (kt1, k1), (i, j))
    return z3.substitute(t, (e1.keyat(j), k1))

  def enum2(inner, k1):
    """The enumeration of row k1."""
    return enum_of(z3.substitute(inner[1], (i, e1.link(k1))))

  def at2(t, inner, k1, k2):
    e2 = enum2(inner, k1)
    j1, j2 = e1.link(k1), e2.link(k2)
    l, kt2 = inner[:2]
    t = z3.substitute(t, (kt2, k2), (kt1, k1), (i, j1), (l.i, j2))
    return z3.substitute(t, (e2.keyat(j2), k2), (e1.keyat(j1), k1))

  def mem_row(inner, k1, k2):
    e2 = enum2(inner, k1)
    return z3.simplify(z3.substitute(e2.mem(k2), (e1.keyat(e1.link(k1)), k1)))

  # the guards that always hold are dropped
  x1, x2 = z3.Const(c.name("swept_k1"), Str), z3.Const(c.name("swept_k2"), Str)
  cases = []
  base1 = [e1.mem(x1)]
  for g, fs, touched, inner in rows:
    gt = z3.BoolVal(True) if entailed(base1 + [at1(f, x1) for f in fs], at1(g, x1)) else g
    row = allof = None
    if inner is not None:
      base2 = base1 + [at1(g, x1), mem_row(inner, x1, x2)] + [at1(f, x1) for f in fs]
      row = [(g2, ls[0].val, fs2) for g2, ls, fs2 in inner[0].cases]
      allof = entailed(base2, z3.Or(*[at2(g2, inner, x1, x2) for g2, _, _ in row]))
      inner = inner + (allof,)
    cases.append((gt, fs, touched, inner, row))
  n = len(layers) - 1
  prior = layers[:n]
  pre = EDict2(prior, True)
  all_touched = all(t for _, _, t, _, _ in cases) and entailed(base1, z3.Or(*[at1(g, x1) for g, *_ in cases]))
  old1 = lambda k: pre.mem1(k)
  merge = False
  if n == 1 and isinstance(prior[0], L2B) and isinstance(prior[0].b, Rows):
    if entailed([e1.mem(x1)], prior[0].b.has1(x1)):
      merge = True

  def in_row(inner, row, k1, k2):
    m = mem_row(inner, k1, k2)
    return m if inner[2] else z3.And(m, z3.Or(*[at2(g2, inner, k1, k2) for g2, _, _ in row]))

  # the same keys in every case, and some case always applies: the keys alone decide
  whole = None
  if all(inner is not None and inner[2] for _, _, _, inner, _ in cases):
    m = mem_row(cases[0][3], x1, x2)
    if all(mem_row(inner, x1, x2).eq(m) for _, _, _, inner, _ in cases[1:]) and entailed(
        base1, z3.Or(*[at1(g, x1) for g, *_ in cases])):
      whole = "mem" if entailed([m], e1.mem(x1)) else "both"

  def has2(k1, k2):
    if whole:
      m = mem_row(cases[0][3], k1, k2)
      return m if whole == "mem" else z3.And(e1.mem(k1), m)
    r = [z3.And(at1(g, k1), in_row(inner, row, k1, k2)) for g, fs, touched, inner, row in cases if inner is not None]
    return z3.simplify(z3.And(e1.mem(k1), z3.Or(*r)))

  def has1(k1):
    if all_touched:
      return e1.mem(k1)
    if merge:
      return prior[0].b.has1(k1)
    if covered:
      return z3.BoolVal(False)
    r = []
    for g, fs, touched, inner, row in cases:
      if touched:
        r.append(at1(g, k1))
      elif inner is not None:
        x = z3.Const("qk_swept", Str)
        r.append(z3.And(at1(g, k1), z3.Exists([x], in_row(inner, row, k1, x))))
    return z3.simplify(z3.And(e1.mem(k1), z3.Or(*r)))
  covered = not all_touched and not merge and entailed([e1.mem(x1)], pre.mem1(x1))

  def val(k1, k2):
    c = ctx()
    todo = [(g, inner, gv) for g, _, _, inner, row in cases if inner is not None for gv in row]
    for n, (g, inner, (g2, v, fs2)) in enumerate(todo):
      cond = z3.simplify(z3.And(at1(g, k1), mem_row(inner, k1, k2), at2(g2, inner, k1, k2)))
      if n == len(todo) - 1:
        c.assume(cond)
      elif not c.branch(cond):
        continue
      for f in fs2:
        c.assume(at2(f, inner, k1, k2))
      e2 = enum2(inner, k1)
      j1, j2 = e1.link(k1), e2.link(k2)
      l, kt2 = inner[:2]
      v = subst(v, [(kt2, k2), (kt1, k1), (i, j1), (l.i, j2)])
      return subst(v, [(e2.keyat(j2), k2), (e1.keyat(j1), k1)])
    raise PathAbort()
  enum1 = e1 if all_touched else prior[0].b.enum1 if merge else None
  b = L2B(Swept("swept", has1, has2, val, enum1))
  return (b,) if merge else tuple(prior) + (b,)


class Rows:
  """Empty rows for the keys of a one-level mapping."""

  def __init__(self, base):
    self.name = base.name
    self.has1 = base.has
    self.enum1 = base.enum
    self.val = None

  def has2(self, k1, k2):
    return z3.BoolVal(False)


def flat_entries(layers, binders=(), guard=(), facts=()):
  """Flattens nested summaries: yields (binders, guards, facts, entry)."""
  out = []
  for l in layers:
    if isinstance(l, LC):
      for g, ls, fs in l.cases:
        out += flat_entries(ls, binders + (l.i,), tuple(guard) + (z3.And(l.i >= 0, l.i < l.bound, g),),
                            tuple(facts) + tuple(fs))
    else:
      out.append((binders, guard, facts, l))
  return out


LITERAL_REFS = 3    # references to a literal argument: caller's stack, parameter, getrefcount


class EDict2(Sym, Mutable):
  """collections.defaultdict(dict): a two-level store with views."""
  __slots__ = ("st", "born", "kind", "factory")
  __hash__ = None

  def __init__(self, layers=(), plain=False):
    self.st = tuple(layers)
    self.born = stamp()
    self.kind = "dict" if plain else "defaultdict"
    self.factory = None if plain else "dict"

  @property
  def plain(self):
    return self.factory is None

  def vc_subst(self, pairs, memo):
    new = EDict2((), self.plain)
    memo[id(self)] = (new, self)
    new.st = tuple(l.subst(pairs, memo) for l in self.st)
    return new

  def vc_freeze(self, since, memo):
    if abs(self.born) <= since:
      return self
    new = EDict2((), self.plain)
    memo[id(self)] = (new, self)
    new.st = tuple(l.freeze(since, memo) for l in self.st)
    return new

  # membership terms ------------------------------------------------------
  def mem1(self, k1t, st=None):
    r = z3.BoolVal(False)
    for l in (self.st if st is None else st):
      if isinstance(l, (L2T, L2W, L2M)):
        r = z3.Or(r, kterm_eq(key_term(l.k1), k1t))
      elif isinstance(l, L2B):
        r = z3.Or(r, l.b.has1(k1t))
      elif isinstance(l, L2I):
        r = z3.Or(r, l.d.mem_term(mk_key(k1t)))
      elif isinstance(l, LC):
        for bs, gs, fs, e in flat_entries([l]):
          r = z3.Or(r, self._flat_mem(bs, gs, [(key_term(e.k1), k1t)]))
      else:
        raise Unsupported("layer2")
    return z3.simplify(r)

  def mem2(self, k1t, k2t, st=None):
    """Membership of (k1,k2) among entries reachable through views."""
    r = z3.BoolVal(False)
    for l in (self.st if st is None else st):
      if isinstance(l, L2W):
        r = z3.Or(r, z3.And(kterm_eq(key_term(l.k1), k1t), kterm_eq(key_term(l.k2), k2t)))
      elif isinstance(l, L2B):
        r = z3.Or(r, l.b.has2(k1t, k2t))
      elif isinstance(l, LC):
        for bs, gs, fs, e in flat_entries([l]):
          if isinstance(e, L2W):
            r = z3.Or(r, self._flat_mem(bs, gs, [(key_term(e.k2), k2t), (key_term(e.k1), k1t)]))
    return z3.simplify(r)

  def _solve(self, bs, gs, eqs):
    """Solve the binder tuple from key equations. -> (pairs, cond) or None."""
    todo = list(bs)
    pairs = []
    conds = []
    eqs = list(eqs)
    # outermost binder first: its key equation must mention only it
    for b in list(todo):
      done = False
      for (lhs, rhs) in list(eqs):
        l2 = z3.substitute(lhs, *pairs) if pairs else lhs
        if occurs(b, l2) and not any(occurs(o, l2) for o in todo if not o.eq(b)):
          g = z3.And(*[z3.substitute(x, *pairs) if pairs else x for x in gs])
          r = invert(l2, b, g, rhs)
          if r is not None:
            j, side = r
            pairs.append((b, j))
            conds.append(side)
            eqs.remove((lhs, rhs))
            todo.remove(b)
            done = True
            break
      if not done:
        continue
    rest = [z3.substitute(l, *pairs) == r if pairs else l == r for l, r in eqs]
    cond = z3.And(*conds, *rest, *[z3.substitute(x, *pairs) if pairs else x for x in gs])
    return pairs, todo, cond

  def _flat_mem(self, bs, gs, eqs):
    eqs = [(a, b) for a, b in eqs]
    for a, b in eqs:
      if a.sort() != b.sort():
        return z3.BoolVal(False)
    pairs, todo, cond = self._solve(bs, gs, eqs)
    if todo:
      return exists_key(list(todo), cond)
    return cond

  # lookup ------------------------------------------------------------------
  def find1(self, k):
    """(found, value) for the first level; value is a view or an object."""
    c = ctx()
    kt = key_term(k)
    for l in reversed(self.st):
      if isinstance(l, L2M):
        if c.branch(kterm_eq(key_term(l.k1), kt)):
          return True, l.obj
      elif isinstance(l, (L2T, L2W)):
        if c.branch(kterm_eq(key_term(l.k1), kt)):
          return True, DView(self, k)
      elif isinstance(l, L2B):
        if c.branch(l.b.has1(kt)):
          return True, DView(self, k)
      elif isinstance(l, L2I):
        found, v = l.d.find(k)
        if found:
          return True, v
      elif isinstance(l, LC):
        for bs, gs, fs, e in flat_entries([l]):
          cond = self._flat_mem(bs, gs, [(key_term(e.k1), kt)])
          if c.branch(cond):
            if isinstance(e, L2M):
              pairs, todo, _ = self._solve(bs, gs, [(key_term(e.k1), kt)])
              if todo:
                raise Unsupported("cannot invert summarised store")
              obj = subst(e.obj, pairs)
              self._set(self.st + (L2M(k, obj),))
              return True, obj
            return True, DView(self, k)
      else:
        raise Unsupported("layer2")
    return False, None

  def find2(self, k1, k2):
    c = ctx()
    k1t, k2t = key_term(k1), key_term(k2)
    for l in reversed(self.st):
      if isinstance(l, L2W):
        if c.branch(z3.And(kterm_eq(key_term(l.k1), k1t), kterm_eq(key_term(l.k2), k2t))):
          return True, l.val
      elif isinstance(l, L2B):
        if c.branch(l.b.has2(k1t, k2t)):
          return True, l.b.val(k1t, k2t)
      elif isinstance(l, LC):
        ents = flat_entries([l])
        for bs, gs, fs, e in reversed(ents):
          if isinstance(e, L2W):
            eqs = [(key_term(e.k1), k1t), (key_term(e.k2), k2t)]
            pairs, todo, cond = self._solve(bs, gs, eqs)
            if todo:
              if c.branch(z3.Exists(list(todo), cond)):
                raise Unsupported("cannot invert summarised two-level store")
              continue
            if c.branch(cond):
              for f in fs:
                c.assume(z3.substitute(f, *pairs))
              return True, subst(e.val, pairs)
      elif isinstance(l, L2M):
        if c.branch(kterm_eq(key_term(l.k1), k1t)):
          raise Unsupported("view below an explicit store")
    return False, None

  # protocol ------------------------------------------------------------------
  def __getitem__(self, k):
    if self.plain:
      found, v = self.find1(k)
      if not found:
        raise KeyError(k)
      return v
    if self.only_views():
      if not any(isinstance(l, (L2T, L2W)) and keq(l.k1, k) is True for l in self.st) and not (
          ctx().entails(self.mem1(key_term(k)))):
        self._set(self.st + (L2T(k),))
      return DView(self, k)
    found, v = self.find1(k)
    if found:
      return v
    self._set(self.st + (L2T(k),))
    return DView(self, k)

  def only_views(self):
    """Every first-level value is a dict of this store (no explicit object)."""
    for l in self.st:
      if isinstance(l, LC):
        if any(not isinstance(e, (L2T, L2W)) for _, _, _, e in flat_entries([l])):
          return False
      elif not isinstance(l, (L2T, L2W, L2B)):
        return False
    return True

  def find(self, k):
    return self.find1(k)

  def mem_term(self, k):
    return self.mem1(key_term(k))

  def has(self, k):
    return mk_bool(self.mem_term(k))

  def get(self, k, default=None):
    found, v = self.find1(k)
    return v if found else default

  def __contains__(self, k):
    return ctx().branch(self.mem1(key_term(k)))

  def __setitem__(self, k, v):
    self._set(self.st + (L2M(k, v),))

  def setdefault(self, k, default=None):
    found, v = self.find1(k)
    if found:
      return v
    # an empty dict that nobody else can see: the row of this key
    if isinstance(default, EDict) and not default.st and default.kind == "dict" and sys.getrefcount(default) <= LITERAL_REFS:
      self._set(self.st + (L2T(k),))
      return DView(self, k)
    self[k] = default
    return default

  def update(self, other):
    from pyvc import rt
    rt.dict_update(self, other)

  def copy(self):
    return EDict2(self.st)

  def concrete_items(self):
    keys = []
    for l in self.st:
      if isinstance(l, (L2T, L2W, L2M)):
        k = concrete_key(l.k1)
        if k is NOKEY:
          return None
        if k not in keys:
          keys.append(k)
      else:
        return None
    return [(k, self.find1(k)[1]) for k in keys]

  def enum(self):
    if len(self.st) == 1 and isinstance(self.st[0], L2B):
      b = self.st[0].b
      if b.enum1 is None:
        set_journaled(b, "enum1", Enum(b.name, Str, b.has1))
      return b.enum1
    c = ctx()
    reg = getattr(c, "enum_reg", None)
    if reg is None:
      reg = c.enum_reg = {}
    key = id(self.st)
    if key not in reg:
      st = self.st
      e = Enum("dd", Str, lambda t: self.mem1(t, st))
      reg[key] = (e, st)
      c.trail.append(lambda: reg.pop(key, None))
    return reg[key][0]

  keys = EDict.keys
  values = EDict.values
  items = EDict.items
  __iter__ = EDict.__iter__
  vc_iter = EDict.vc_iter
  __len__ = EDict.__len__
  vc_len = EDict.vc_len

  def __bool__(self):
    ci = self.concrete_items()
    if ci is not None:
      return bool(ci)
    e = self.enum()
    c = ctx()
    for l in self.st:
      if isinstance(l, (L2T, L2W, L2M)):
        c.fact(z3.Implies(e.mem(key_term(l.k1)), e.n > 0))
        e.link(key_term(l.k1))
    return branch_nonempty(e, e.n > 0)

  __eq__ = EDict.__eq__
  __ne__ = EDict.__ne__

  def __repr__(self):
    return "<defaultdict(dict)>"

  def __format__(self, spec):
    return repr(self)


class DView(Sym):
  """parent[k1] of a two-level store; a dict."""
  __slots__ = ("p", "k1")
  __hash__ = None

  def __init__(self, p, k1):
    self.p, self.k1 = p, k1

  kind = "dict"

  def vc_subst(self, pairs, memo):
    return DView(subst(self.p, pairs, memo), subst(self.k1, pairs, memo))

  def vc_freeze(self, since, memo):
    return DView(freeze(self.p, since, memo), self.k1)

  def find(self, k):
    return self.p.find2(self.k1, k)

  def mem_term(self, k):
    return self.p.mem2(key_term(self.k1), key_term(k))

  def has(self, k):
    return mk_bool(self.mem_term(k))

  def __getitem__(self, k):
    found, v = self.find(k)
    if not found:
      raise KeyError(k)
    return v

  def get(self, k, default=None):
    found, v = self.find(k)
    return v if found else default

  def __contains__(self, k):
    return ctx().branch(self.mem_term(k))

  def __setitem__(self, k, v):
    self.p._set(self.p.st + (L2W(self.k1, k, v),))

  def setdefault(self, k, default=None):
    found, v = self.find(k)
    if found:
      return v
    self[k] = default
    return default

  def update(self, *a, **kw):
    from pyvc import rt
    for o in a:
      rt.dict_update(self, o)
    for k, v in kw.items():
      self[k] = v

  def copy(self):
    """dict(view): a one-level snapshot."""
    p, k1t = self.p, key_term(self.k1)
    st = p.st
    snap = EDict2(st)
    has = lambda kt: snap.mem2(k1t, kt)
    val = lambda kt: snap.find2(mk_key(k1t), mk_key(kt))[1]
    return EDict((LB(Base("snap", Str, has, val, enum=self.enum())),))

  @property
  def st(self):
    return (("view", self.p.st),)

  def concrete_items(self):
    out = {}
    for l in self.p.st:
      if isinstance(l, L2W):
        k1, k2 = concrete_key(l.k1), concrete_key(l.k2)
        me = concrete_key(self.k1)
        if me is NOKEY or k1 is NOKEY or k2 is NOKEY:
          return None
        if k1 == me:
          out[k2] = l.val
      elif isinstance(l, L2T):
        pass
      else:
        return None
    return list(out.items())

  def enum(self):
    p = self.p
    k1t = key_term(self.k1)
    c = ctx()
    reg = getattr(c, "enum_reg2", None)
    if reg is None:
      reg = c.enum_reg2 = {}
    key = (id(p.st), k1t.get_id())
    if key not in reg:
      st = p.st
      snap = EDict2(st)
      reg[key] = (Enum("view", Str, lambda t: snap.mem2(k1t, t)), st, k1t)
      c.trail.append(lambda: reg.pop(key, None))
    return reg[key][0]

  keys = EDict.keys
  values = EDict.values
  items = EDict.items
  __iter__ = EDict.__iter__
  vc_iter = EDict.vc_iter
  __len__ = EDict.__len__
  vc_len = EDict.vc_len

  def __bool__(self):
    ci = self.concrete_items()
    if ci is not None:
      return bool(ci)
    return ctx().branch(self.enum().n > 0)

  def __eq__(self, o):
    if isinstance(o, DView) and o.p is self.p and key_term(o.k1).eq(key_term(self.k1)):
      return True
    raise Unsupported("equality of dicts")

  def __repr__(self):
    return "<dict view>"

  def __format__(self, spec):
    return repr(self)


# ---------------------------------------------------------------------- sets


class ESet(Sym, Mutable):
  """A set; layers of LW(key, True) / LD / LC / LB."""
  __slots__ = ("st", "born", "frozen")
  __hash__ = None

  def __init__(self, layers=(), frozen=False):
    self.st = tuple(layers)
    self.born = stamp()
    self.frozen = frozen

  def vc_subst(self, pairs, memo):
    new = ESet((), self.frozen)
    memo[id(self)] = (new, self)
    new.st = tuple(l.subst(pairs, memo) for l in self.st)
    return new

  def vc_freeze(self, since, memo):
    if abs(self.born) <= since:
      return self
    new = ESet((), self.frozen)
    memo[id(self)] = (new, self)
    new.st = tuple(l.freeze(since, memo) for l in self.st)
    return new

  def mem_term(self, k):
    return layers_mem(self.st, key_term(k))

  def __contains__(self, k):
    return ctx().branch(self.mem_term(k))

  def has(self, k):
    return mk_bool(self.mem_term(k))

  def add(self, k):
    self._set(self.st + (LW(k, True),))

  def discard(self, k):
    self._set(self.st + (LD(k),))

  def remove(self, k):
    if k not in self:
      raise KeyError(k)
    self.discard(k)

  def update(self, *its):
    from pyvc import rt
    for it in its:
      rt.set_update(self, it)

  def copy(self):
    return ESet(self.st, self.frozen)

  concrete_items = EDict.concrete_items

  def __iter__(self):
    ci = self.concrete_items()
    if ci is None:
      raise Unsupported("native iteration over a symbolic set")
    return iter([k for k, _ in ci])

  def vc_iter(self):
    ci = self.concrete_items()
    if ci is not None:
      return tuple(k for k, _ in ci)
    e = EDict.enum(self)
    def get(i):
      k = e.mk(e.key(i))
      ctx().fact(z3.Implies(z3.And(i >= 0, i < e.n), e.mem(key_term(k))))
      return k
    return SSeq(e.n, get)

  def vc_len(self):
    ci = self.concrete_items()
    if ci is not None:
      return len(ci)
    return mk_int(EDict.enum(self).n)

  def __len__(self):
    ci = self.concrete_items()
    if ci is None:
      raise Unsupported("len of symbolic set")
    return len(ci)

  def __bool__(self):
    ci = self.concrete_items()
    if ci is not None:
      return bool(ci)
    if isinstance(self.st[-1], LW):
      return True
    e = EDict.enum(self)
    return branch_nonempty(e, nonempty(e, self.st))

  def __sub__(self, o):
    return SetExpr("-", self, o)

  def __or__(self, o):
    return SetExpr("|", self, o)

  def __and__(self, o):
    return SetExpr("&", self, o)

  def __repr__(self):
    return "<set>"

  def __format__(self, spec):
    return repr(self)


class SetExpr(Sym):
  """Difference/union/intersection; only membership and emptiness."""
  __slots__ = ("op", "a", "b")

  def __init__(self, op, a, b):
    self.op, self.a, self.b = op, a, b

  def vc_freeze(self, since, memo):
    return SetExpr(self.op, freeze(self.a, since, memo), freeze(self.b, since, memo))

  def mem_term(self, k):
    a, b = self.a.mem_term(k), self.b.mem_term(k)
    return {"-": z3.And(a, z3.Not(b)), "|": z3.Or(a, b), "&": z3.And(a, b)}[self.op]

  def __contains__(self, k):
    return ctx().branch(self.mem_term(k))

  def __bool__(self):
    c = ctx()
    if elements_of(self.a) is not None and elements_of(self.b) is not None:
      return bool(view_set(self.a, self.b, self.op))
    ks = first_sort(set_ksort(self.a), set_ksort(self.b), V)
    # nonempty: some witness; empty: no member at all
    if c.branch(c.fresh("setnonempty", Bool)):
      w = c.fresh("setwit", ks)
      c.assume(self.mem_term(mk_key(w)))
      return True
    x = z3.Const(c.name("setx"), ks)
    try:
      c.assume(z3.ForAll([x], z3.Not(self.mem_term(mk_key(x)))))
    except Unsupported:
      raise
    return False

  def __iter__(self):
    if elements_of(self.a) is None or elements_of(self.b) is None:
      raise Unsupported("iteration over a symbolic set expression")
    return iter(elements_of(view_set(self.a, self.b, self.op)))


def first_sort(*sorts):
  return next((s for s in sorts if s is not None), None)


def set_ksort(s):
  if isinstance(s, ESet):
    return layers_ksort(s.st) if s.st else None
  if isinstance(s, SetExpr):
    return first_sort(set_ksort(s.a), set_ksort(s.b))
  return None
