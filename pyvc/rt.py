"""Runtime of the instrumented code (`_E`), and the replaced builtins."""
import builtins
import collections
import collections.abc
import operator

import z3

from pyvc import core
from pyvc import containers as C
from pyvc import loops
from pyvc.containers import (DView, DictView, EDict, EDict2, EList, ESet, SSeq, SeqBase, SetExpr)
from pyvc.core import (Control, PathAbort, SBool, SInt, SLeaf, SReal, SStr, Sym, UserError,
                       Unsupported, Int, Bool, Str, V, ctx, encode, int_val, mk_bool, mk_int,
                       mk_str, zint, zstr)

BREAK = loops.BREAK
UNBOUND = loops.UNBOUND


# ------------------------------------------------------------------ iteration


def is_return(r):
  return r is not None and r is not BREAK


def symbolic(it):
  return isinstance(it, SSeq)


class SIter(Sym):
  """iter() of a symbolic sequence."""
  __slots__ = ("seq", "pos", "born", "st")

  def __init__(self, seq):
    self.seq = seq
    self.st = z3.IntVal(0)
    self.born = C.stamp()

  _set = C.Mutable._set
  _restore = C.Mutable._restore

  def vc_next(self, *default):
    n, g, _ = C.seq_parts(self.seq)
    if ctx().branch(self.st >= n):
      if default:
        return default[0]
      raise StopIteration
    v = g(z3.simplify(self.st))
    self._set(z3.simplify(self.st + 1))
    return v

  def rest(self):
    n, g, _ = C.seq_parts(self.seq)
    p = self.st
    self._set(z3.simplify(n))
    return SSeq(z3.simplify(n - p), lambda i: g(z3.simplify(i + p)))

  def __iter__(self):
    return self

  def __next__(self):
    return self.vc_next()


def unwrap_abc_view(x):
  """keys()/items()/values() mixins of collections.abc over instrumented maps."""
  m = getattr(x, "_mapping", None)
  return m


def iter_(x):
  """A native iterable, or an SSeq when the length is symbolic."""
  if isinstance(x, SSeq):
    v = int_val(SInt(x.n))
    if v is not None and v <= 64:
      return tuple(x.at(i) for i in range(v))
    return x
  if isinstance(x, EList):
    if isinstance(x.st, tuple):
      return x
    return iter_(x.st)
  if isinstance(x, (EDict, EDict2, DView, ESet, DictView)):
    return iter_(x.vc_iter())
  if isinstance(x, SIter):
    return iter_(x.rest())
  if isinstance(x, collections.abc.KeysView) and hasattr(x, "_mapping"):
    return iter_(x._mapping)
  if isinstance(x, collections.abc.ItemsView) and hasattr(x, "_mapping"):
    m = x._mapping
    ks = iter_(m)
    if symbolic(ks):
      return SSeq(ks.n, lambda i: (lambda k: (k, m[k]))(ks.get(i)))
    return tuple((k, m[k]) for k in ks)
  if isinstance(x, collections.abc.ValuesView) and hasattr(x, "_mapping"):
    m = x._mapping
    ks = iter_(m)
    if symbolic(ks):
      return SSeq(ks.n, lambda i: m[ks.get(i)])
    return tuple(m[k] for k in ks)
  if isinstance(x, SLeaf):
    hook = x.attrs.get("iter")
    if hook is not None:
      return iter_(hook(x))
    n = C.shape_of(x)[0]
    return SSeq(zint(n), lambda i: x[mk_int(i)])
  if isinstance(x, Sym):
    return x
  it = getattr(type(x), "__iter__", None)
  if it is not None and getattr(type(x), "__vc_instrumented__", False):
    r = x.__iter__()
    return r if r is x else iter_(r)
  return x


def for_loop(it, body, getv, setv, names, dead=()):
  return loops.for_loop(it, body, getv, setv, names, dead)


def each(src, fn):
  it = iter_(src)
  if symbolic(it):
    loops.for_loop(it, lambda x: (fn(x), None)[1])
  else:
    for x in it:
      fn(x)
  return None


def comp(kind, fn, src):
  acc = {"list": EList, "gen": EList, "set": ESet, "dict": EDict}[kind]()
  since = acc.born
  fn(acc, src)
  if kind == "dict":
    return C.as_two_level(acc, since)
  if kind == "gen":
    return acc.st if isinstance(acc.st, SSeq) else iter(acc.st)
  return acc


def gen1(kind, fn, src, one):
  it = iter_(src)
  if symbolic(it):
    acc = EList()
    fn(acc, it)
    return acc.st if isinstance(acc.st, SSeq) else iter(acc.st)
  def g():
    for x in it:
      r = one(x)
      if r is not None:
        yield r[0]
  return g()


def to_seq_state(it):
  """Any iterable -> tuple or SSeq."""
  x = iter_(it)
  if isinstance(x, SSeq):
    return x
  if isinstance(x, EList):
    return x.st
  return tuple(x)


# ------------------------------------------------------------- containers


class StarPack(Sym):
  __slots__ = ("seq",)

  def __init__(self, seq):
    self.seq = seq

  def vc_encode(self):
    return z3.Function("v_starpack", V, V)(encode(self.seq))

  def vc_freeze(self, since, memo):
    return self

  def vc_subst(self, pairs, memo):
    return StarPack(C.subst(self.seq, pairs, memo))

  def __getattr__(self, n):
    raise Unsupported("unpacked symbolic arguments used as a value")


class KwPack(Sym):
  __slots__ = ("d",)

  def __init__(self, d):
    self.d = d

  def vc_freeze(self, since, memo):
    return KwPack(C.freeze(self.d, since, memo))

  def vc_subst(self, pairs, memo):
    return KwPack(C.subst(self.d, pairs, memo))

  def vc_encode(self):
    return encode(self.d)

  def __getattr__(self, n):
    raise Unsupported("unpacked symbolic keywords used as a value")


KWPACK = "__vc_kwpack__"


def star(x):
  it = iter_(x)
  if symbolic(it):
    v = C.fixed_value(it.n)
    if v is not None and v <= 32:
      return tuple(it.at(i) for i in range(v))
    return (StarPack(it),)
  return it


def dstar(x):
  if isinstance(x, (EDict, EDict2, DView)):
    ci = x.concrete_items()
    if ci is None:
      return {KWPACK: KwPack(x)}
    return {k: v for k, v in ci}
  if isinstance(x, dict):
    return x
  return {k: x[k] for k in iter_(x)}


def vararg(args):
  if any(isinstance(a, StarPack) for a in args):
    out = ()
    for a in args:
      out = C.concat_st(out, a.seq if isinstance(a, StarPack) else (a,))
    return out
  return args


def kwarg(kw):
  d = EDict()
  for k, v in kw.items():
    if isinstance(v, KwPack):
      dict_update(d, v.d)
    else:
      d[k] = v
  return d


def mklist(*elts):
  l = EList(())
  st = ()
  for e in elts:
    st = C.concat_st(st, e.seq if isinstance(e, StarPack) else (e,))
  l.st = st
  return l


def mktuple(*elts):
  st = ()
  for e in elts:
    st = C.concat_st(st, e.seq if isinstance(e, StarPack) else (e,))
  return st


def mkset(*elts):
  s = ESet()
  for e in elts:
    if isinstance(e, StarPack):
      set_update(s, e.seq)
    else:
      s.add(e)
  return s


def mkdict(*items):
  d = EDict()
  for it in items:
    if len(it) == 1:
      dict_update(d, it[0])
    else:
      d[it[0]] = it[1]
  return d


def dict_update(d, other):
  if isinstance(other, EDict) and isinstance(d, EDict) and not d.st and not any(
      isinstance(l, C.LD) for l in other.st):
    d._set(other.st)
    return
  if isinstance(other, DView) and isinstance(d, EDict) and not d.st:
    d._set(other.copy().st)
    return
  if isinstance(other, EDict2) and isinstance(d, EDict) and not d.st:
    d._set(C.two_level_snapshot(other))
    return
  if isinstance(other, C.Bag) and isinstance(d, EDict):
    d._set(d.st + (bag_to_layers(other.layer),))
    return
  if hasattr(other, "keys") and not isinstance(other, (SeqBase,)):
    if isinstance(other, (EDict, EDict2, DView, dict)):
      items = other.items()
    else:
      items = other.items()
    src = iter_(items)
  else:
    src = iter_(other)
  if isinstance(src, C.Bag):
    return dict_update(d, src)
  def put(kv):
    k, v = unpack(kv, 2, -1)
    d[k] = v
  each(src, put)


def bag_to_layers(l):
  def conv(x):
    if isinstance(x, C.LC):
      return bag_to_layers(x)
    k, v = unpack(x.key, 2, -1)
    return C.LW(k, v)
  return C.LC(l.i, l.bound, [(g, [conv(x) for x in ls], fs) for g, ls, fs in l.cases])


def set_update(s, it):
  x = iter_(it)
  if isinstance(x, C.Bag):
    s._set(s.st + (x.layer,))
    return
  each(x, s.add)


def unpack(v, n, star_at):
  if isinstance(v, tuple) or isinstance(v, list):
    t = v
  else:
    it = iter_(v)
    if symbolic(it):
      if star_at >= 0:
        if ctx().branch(it.n < n - 1):
          raise ValueError("not enough values to unpack")
        after = n - 1 - star_at
        head = [it.at(i) for i in range(star_at)]
        mid = EList(C.seq_parts(C.seq_slice(it, slice(star_at, mk_int(it.n - after))))
                    and C.seq_slice(it, slice(star_at, mk_int(it.n - after))))
        tail = [it.get(z3.simplify(it.n - after + i)) for i in range(after)]
        return tuple(head + [mid] + tail)
      if ctx().branch(it.n != n):
        raise ValueError(f"wrong number of values to unpack (expected {n})")
      return tuple(it.at(i) for i in range(n))
    t = tuple(it)
  if star_at < 0:
    if len(t) != n:
      raise ValueError(f"wrong number of values to unpack (expected {n}, got {len(t)})")
    return tuple(t)
  if len(t) < n - 1:
    raise ValueError("not enough values to unpack")
  after = n - 1 - star_at
  t = tuple(t)
  return t[:star_at] + (EList(t[star_at:len(t) - after]),) + t[len(t) - after:]


def getitem(o, k):
  if isinstance(o, (tuple, list)) and not isinstance(o, Sym):
    if isinstance(k, (SInt,)) or (isinstance(k, slice) and any(
        isinstance(x, SInt) for x in (k.start, k.stop, k.step))):
      n, g, kind = C.seq_parts(o)
      if isinstance(k, slice):
        return C.seq_slice(o, k)
      return SSeq(n, g, kind)[k]
    return o[k]
  if isinstance(o, str) and isinstance(k, (SInt, slice)) and not isinstance(k, int):
    if isinstance(k, SInt) or any(isinstance(x, SInt) for x in (k.start, k.stop, k.step)):
      return SStr(zstr(o))[k]
    return o[k]
  if isinstance(o, dict) and isinstance(k, Sym):
    return native_dict_get(o, k)
  return o[k]


NODEF = object()


def native_dict_get(o, k, default=NODEF):
  for kk, vv in list(o.items()):
    if ctx().branch(C.keq(kk, k)):
      return vv
  if default is not NODEF:
    return default
  raise KeyError(k)


def slice_(a, b, c):
  return slice(a, b, c)


def setitem(o, k, v):
  if type(o) is dict and core.active():
    c = ctx()
    if type(k) is not str or k not in o or c.binders or isinstance(v, Sym):
      raise Unsupported("store into a native dict")
    old = o[k]
    c.trail.append(lambda: o.__setitem__(k, old))
  if type(o) is list and core.active():
    raise Unsupported("store into a native list")
  o[k] = v


def delitem(o, k):
  if type(o) in (dict, list) and core.active():
    raise Unsupported("delete from a native container")
  del o[k]


_MISSING = object()


def setattr_(obj, name, v):
  if core.active():
    c = ctx()
    old = _MISSING
    try:
      old = object.__getattribute__(obj, name) if not isinstance(obj, type) else obj.__dict__.get(name, _MISSING)
      d = C.instance_dict(obj)
      if d is not None and not isinstance(obj, type) and name not in d and not has_slot(obj, name):
        old = _MISSING
    except AttributeError:
      old = _MISSING
    if old is v and not isinstance(obj, type) and not isinstance(getattr(type(obj), name, None), property):
      return                      # nothing changes
    if id(obj) not in C.STAMPS:
      C.STAMPS[id(obj)] = (c.tick() if old is _MISSING and is_newborn(obj) else 0, obj)
      c.trail.append(lambda i=id(obj): C.STAMPS.pop(i, None))
    def undo(o=obj, n=name, x=old):
      if x is _MISSING:
        try:
          delattr(o, n)
        except AttributeError:
          pass
      else:
        setattr(o, n, x)
    for fr in c.effect_frames:
      if (id(obj), name) not in fr:
        fr[(id(obj), name)] = (obj, name, old)
    setattr(obj, name, v)
    c.trail.append(undo)
    return
  setattr(obj, name, v)


def is_newborn(obj):
  return not C.instance_dict(obj)


def has_slot(obj, name):
  return any(name in getattr(k, "__slots__", ()) for k in type(obj).__mro__)


def delattr_(obj, name):
  if core.active():
    old = getattr(obj, name)
    ctx().trail.append(lambda: setattr(obj, name, old))
    if ctx().effect_frames:
      raise Unsupported("del attribute in a loop")
  delattr(obj, name)


def setglobal(g, name, v):
  if core.active():
    old = g.get(name, _MISSING)
    def undo():
      if old is _MISSING:
        g.pop(name, None)
      else:
        g[name] = old
    ctx().trail.append(undo)
  g[name] = v


_IOPS = {"Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul, "Div": operator.itruediv,
         "FloorDiv": operator.ifloordiv, "Pow": operator.ipow, "BitOr": operator.ior,
         "BitAnd": operator.iand, "BitXor": operator.ixor, "LShift": operator.ilshift,
         "RShift": operator.irshift, "MatMult": operator.imatmul}


def iop(op, a, b):
  if op == "Mod":
    return mod(a, b)
  return _IOPS[op](a, b)


def augattr(op, o, name, v):
  setattr_(o, name, iop(op, getattr(o, name), v))


def augitem(op, o, k, v):
  setitem(o, k, iop(op, getitem(o, k), v))


# ------------------------------------------------------------------ operators


def is_(a, b):
  if a is b:
    return True
  if isinstance(a, type) or isinstance(b, type):
    ra, rb = type_repr(a), type_repr(b)
    return ra is rb
  if isinstance(a, SBool) or isinstance(b, SBool):
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
      return mk_bool(core.to_bool(a) == core.to_bool(b))
    return False
  if isinstance(a, SLeaf) and isinstance(b, SLeaf):
    return mk_bool(a.t == b.t)
  if isinstance(a, SLeaf) or isinstance(b, SLeaf):
    l, o = (a, b) if isinstance(a, SLeaf) else (b, a)
    if l.attrs.get("maybe") and (o is None or isinstance(o, Sym) or not isinstance(o, (int, str, tuple))):
      return mk_bool(encode(l) == encode(o))
    if "fresh_from" in l.attrs:
      return False
    return False
  if isinstance(a, (SInt, SStr)) and isinstance(b, (SInt, SStr, int, str)) or isinstance(
      b, (SInt, SStr)) and isinstance(a, (int, str)):
    raise Unsupported("identity of symbolic scalars")
  if isinstance(a, DView) and isinstance(b, DView):
    return mk_bool(z3.And(z3.BoolVal(a.p is b.p), C.key_term(a.k1) == C.key_term(b.k1)))
  if isinstance(a, MaybeNone) or isinstance(b, MaybeNone):
    m, o = (a, b) if isinstance(a, MaybeNone) else (b, a)
    if o is None:
      return mk_bool(m.isnone)
  return False


class MaybeNone(Sym):
  """Placeholder kept for symmetry; contracts fork on None instead."""
  __slots__ = ("isnone",)


def type_repr(t):
  return MARKER_OF.get(t, t)


def is_not(a, b):
  return not_(is_(a, b))


def not_(r):
  return (not r) if isinstance(r, bool) else SBool(z3.Not(r.t))


def in_(x, c):
  if isinstance(c, str) and isinstance(x, SStr):
    return mk_bool(z3.Contains(z3.StringVal(c), x.t))
  if isinstance(c, SStr):
    return mk_bool(z3.Contains(c.t, zstr(x)))
  if isinstance(c, (EDict, EDict2, DView, ESet, SetExpr)):
    return mk_bool(c.mem_term(x))
  if isinstance(c, C.KeysView):
    return mk_bool(c.d.mem_term(x))
  if isinstance(c, dict) and isinstance(x, Sym):
    return mk_bool(z3.Or(*[C.keq(k, x) for k in c])) if c else False
  if isinstance(c, (SSeq, EList)):
    if isinstance(x, type):
      ct = C.concrete_tuple(c)
      if ct is not None:
        return any(type_repr(y) is type_repr(x) for y in ct)
    return mk_bool(C.seq_contains(c, x))
  if isinstance(c, (tuple, set, frozenset)) and isinstance(x, type):
    return any(type_repr(y) is type_repr(x) for y in c)
  if isinstance(c, (tuple, list, set, frozenset)):
    for y in c:
      scalar = isinstance(x, (SInt, core.SReal)) or isinstance(y, (SInt, core.SReal))   # identical scalars are equal
      if not scalar and is_sure(is_(x, y)) or eq(x, y):
        return True
    return False
  return x in c


def is_sure(r):
  return r is True


def not_in(x, c):
  return not_(in_(x, c))


def eq(a, b):
  if isinstance(a, type) and isinstance(b, type):
    return type_repr(a) is type_repr(b)
  if isinstance(a, tuple) and isinstance(b, tuple) and type(a) is tuple and type(b) is tuple:
    if len(a) != len(b):
      return False
    for x, y in zip(a, b):
      if not eq(x, y):
        return False
    return True
  if isinstance(a, DView) or isinstance(b, DView) or isinstance(a, (EDict, EDict2)) or isinstance(b, (EDict, EDict2)):
    return dict_eq(a, b)
  return a == b


def ne(a, b):
  if type(a).__ne__ is not object.__ne__ and not isinstance(a, (tuple, Sym)) and not isinstance(b, Sym):
    return a != b
  r = eq(a, b)
  return not_(r) if isinstance(r, (bool, SBool)) else (a != b)


def dict_eq(a, b):
  if a is b:
    return True
  maps = (EDict, EDict2, DView, dict)
  if not (isinstance(a, maps) and isinstance(b, maps)):
    if isinstance(a, maps) and not isinstance(b, Sym) and hasattr(type(b), "__eq__") and getattr(
        type(b), "__vc_instrumented__", False):
      return b == a
    if isinstance(b, maps) and getattr(type(a), "__vc_instrumented__", False):
      return a == b
    return False
  ca, cb = items_of(a), items_of(b)
  if ca is not None and cb is not None:
    if len(ca) != len(cb):
      return False
    for k, v in ca:
      ok = False
      for k2, v2 in cb:
        if eq(k, k2):
          if not eq(v, v2):
            return False
          ok = True
          break
      if not ok:
        return False
    return True
  # extensional equality as a decided proposition with a witness
  c = ctx()
  ks = Str
  if c.branch(c.fresh("dict_eq", Bool)):
    return True
  return False


def items_of(d):
  if isinstance(d, dict):
    return list(d.items())
  return d.concrete_items()


def mod(a, b):
  if isinstance(a, str) or isinstance(a, SStr):
    if isinstance(a, SStr):
      raise Unsupported("% on a symbolic format string")
    if not contains_sym(b):
      return a % b
    args = list(b) if isinstance(b, tuple) else [b]
    out, i = "", 0
    import re
    pos = 0
    for m in re.finditer(r"%([sdr])|%%", a):
      out = cat(out, a[pos:m.start()])
      if m.group(0) == "%%":
        out = cat(out, "%")
      else:
        out = cat(out, to_str(args[i], "r" if m.group(1) == "r" else None))
        i += 1
      pos = m.end()
    return cat(out, a[pos:])
  return a % b


def contains_sym(x):
  if isinstance(x, Sym):
    return True
  if isinstance(x, (tuple, list)):
    return any(contains_sym(y) for y in x)
  if isinstance(x, dict):
    return any(contains_sym(y) for y in x.values())
  return getattr(type(x), "__vc_instrumented__", False) and not isinstance(x, type) and not callable(x)


def cat(a, b):
  if isinstance(a, str) and isinstance(b, str):
    return a + b
  if a == "" and isinstance(a, str):
    return b
  if isinstance(b, str) and b == "":
    return a
  return mk_str(z3.Concat(zstr(a), zstr(b)))


INT2STR = z3.Function("py_str_int", Int, Str)
ANY2STR = z3.Function("py_str", V, Str)
ANY2REPR = z3.Function("py_repr", V, Str)


def int_to_str(t):
  c = ctx()
  c.fact(z3.Implies(t >= 0, z3.InRe(z3.IntToStr(t), z3.Plus(z3.Range("0", "9")))))
  if c.entails(t >= 0):
    return z3.IntToStr(t)
  return z3.If(t >= 0, z3.IntToStr(t), z3.Concat(z3.StringVal("-"), z3.IntToStr(-t)))


def to_str(x, conv=None, spec=None):
  if spec is not None and spec != "" and contains_sym(x):
    return SStr(ctx().fresh("formatted", Str))
  if isinstance(x, str) and conv != "r":
    return x
  if isinstance(x, SStr) and conv != "r":
    return x
  if isinstance(x, SInt):
    return mk_str(int_to_str(x.t))
  if isinstance(x, Sym) or contains_sym(x):
    try:
      return SStr((ANY2REPR if conv == "r" else ANY2STR)(encode(x)))
    except Unsupported:
      return SStr(ctx().fresh("text", Str))
  if conv == "r":
    return repr(x)
  if conv == "a":
    return ascii(x)
  return format(x, spec) if spec else (format(x) if conv is None else str(x))


def fstr(*parts):
  out = ""
  for p in parts:
    if isinstance(p, tuple):
      v, conv, spec = p
      conv = {-1: None, 115: "s", 114: "r", 97: "a"}[conv]
      out = cat(out, to_str(v, conv, spec))
    else:
      out = cat(out, p)
  return out


def strm(o, name, *args, **kw):
  if isinstance(o, str) and (contains_sym(args) or contains_sym(kw)):
    if name == "join":
      it = iter_(args[0])
      if symbolic(it):
        raise Unsupported("join of a symbolic sequence")
      out, first = "", True
      for x in it:
        if not isinstance(x, (str, SStr)):
          raise TypeError("sequence item: expected str instance")
        out = cat(cat(out, "" if first else o), x)
        first = False
      return out
    if name == "format":
      return str_format(o, args, kw)
    return getattr(SStr(z3.StringVal(o)), name)(*args, **kw)
  if isinstance(o, str) and name == "join":
    it = iter_(args[0])
    if symbolic(it):
      raise Unsupported("join of a symbolic sequence")
    it = tuple(it)
    if contains_sym(it):
      return strm(o, name, it)
    return o.join(it)
  if isinstance(o, str) and name == "format":
    return str_format(o, args, kw) if any(isinstance(a, Sym) for a in args) else o.format(*args, **kw)
  return getattr(o, name)(*args, **kw)


def str_format(fmt, args, kw):
  import string
  out, auto = "", 0
  for lit, field, spec, conv in string.Formatter().parse(fmt):
    out = cat(out, lit)
    if field is None:
      continue
    if field == "":
      v = args[auto]
      auto += 1
    elif field.isdigit():
      v = args[int(field)]
    elif field in kw:
      v = kw[field]
    else:
      raise Unsupported("format field")
    out = cat(out, to_str(v, conv, spec))
  return out


def trusted_text(name, f):
  """f only formats a message: on symbolic arguments its result is some text."""
  def g(*a, **k):
    if core.active() and contains_sym((a, tuple(k.values()))):
      core.USED_MODELS.add(name + " (trusted: returns text, no effect)")
      return SStr(ctx().fresh("text", Str))
    return f(*a, **k)
  g.__name__ = getattr(f, "__name__", name)
  return g


# ------------------------------------------------------------------- builtins


class Marker(type):
  """A builtin type whose instances include the engine's containers."""

  def __instancecheck__(cls, x):
    return cls.vc_check(x)

  def __subclasscheck__(cls, k):
    return k is cls or (isinstance(k, type) and type.__subclasscheck__(cls.vc_native, k) if not isinstance(
        k, Marker) else issubclass(k.vc_native, cls.vc_native))

  def __call__(cls, *a, **k):
    return cls.vc_make(*a, **k)

  def __repr__(cls):
    return f"<class {cls.__name__!r}>"

  def __getattr__(cls, n):
    return getattr(type.__getattribute__(cls, "vc_native"), n)

  def __getitem__(cls, k):
    return cls

  def __eq__(cls, o):
    return o is cls or o is cls.vc_native

  def __hash__(cls):
    return hash(cls.vc_native)

  def __or__(cls, o):
    return (cls, o)


def marker(native, check, make):
  m = Marker(native.__name__, (), {"vc_native": native, "vc_check": staticmethod(check),
                                    "vc_make": staticmethod(make)})
  return m


def mk_tuple_(x=()):
  if type(x) is tuple:
    return x
  st = to_seq_state(x)
  if isinstance(st, SSeq):
    if st.kind != "tuple":
      st = C.retag(st, "tuple")
    return st
  return st


def mk_list_(x=()):
  return EList(to_seq_state(x))


def mk_dict_(*a, **kw):
  d = EDict()
  for o in a:
    if isinstance(o, EDict):
      d._set(o.st)
    else:
      dict_update(d, o)
  for k, v in kw.items():
    if k == KWPACK:
      dict_update(d, v.d)
    else:
      d[k] = v
  return d


def mk_set_(x=()):
  s = ESet()
  set_update(s, x)
  return s


def mk_fset_(x=()):
  s = ESet((), True)
  set_update(s, x)
  return s


def mk_int_(x=0, *base):
  if isinstance(x, (SInt, SBool)):
    return x if isinstance(x, SInt) else x.as_int()
  if isinstance(x, SReal):
    return mk_int(z3.If(x.t >= 0, z3.ToInt(x.t), -z3.ToInt(-x.t)))
  if isinstance(x, SStr):
    if not ctx().entails(z3.InRe(x.t, z3.Plus(z3.Range("0", "9")))):
      raise Unsupported("int() of a symbolic string")
    n = z3.StrToInt(x.t)
    ctx().fact(n >= 0)
    return SInt(n)
  if isinstance(x, SLeaf):
    return SInt(z3.Function("int_of", V, Int)(x.t))
  return int(x, *base)


def mk_str_(x=""):
  return to_str(x, "s")


def mk_bool_(x=False):
  if isinstance(x, SBool):
    return x
  if isinstance(x, SInt):
    return mk_bool(x.t != 0)
  return bool(x)


def mk_float_(x=0.0):
  if isinstance(x, (SInt, SReal)):
    return SReal.lift(x)
  if isinstance(x, SLeaf):
    return SReal(z3.Function("float_of", V, core.Real)(x.t))
  return float(x)


dict_ = marker(dict, lambda x: isinstance(x, (dict, EDict, EDict2, DView)), mk_dict_)
list_ = marker(list, lambda x: isinstance(x, list) or (isinstance(x, EList) and x.kind == "list")
               or (isinstance(x, SSeq) and x.kind == "list"), mk_list_)
tuple_ = marker(tuple, lambda x: isinstance(x, tuple) or (isinstance(x, SSeq) and x.kind == "tuple"), mk_tuple_)
set_ = marker(set, lambda x: isinstance(x, set) or (isinstance(x, ESet) and not x.frozen), mk_set_)
fset_ = marker(frozenset, lambda x: isinstance(x, frozenset) or (isinstance(x, ESet) and x.frozen), mk_fset_)
int_ = marker(int, lambda x: isinstance(x, (int, SInt, SBool)), mk_int_)
str_ = marker(str, lambda x: isinstance(x, (str, SStr)), mk_str_)
bool_ = marker(bool, lambda x: isinstance(x, (bool, SBool)), mk_bool_)
float_ = marker(float, lambda x: isinstance(x, (float, SReal)), mk_float_)
MARKERS = [dict_, list_, tuple_, set_, fset_, int_, str_, bool_, float_]
MARKER_OF = {}
for _m in MARKERS:
  MARKER_OF[_m.vc_native] = _m
  MARKER_OF[_m] = _m
int_.vc_native = int


def type1(x):
  if isinstance(x, SInt):
    return int_
  if isinstance(x, SBool):
    return bool_
  if isinstance(x, SReal):
    return float_
  if isinstance(x, SStr):
    return str_
  if isinstance(x, (EDict, DView)):
    return {"dict": dict_}.get(x.kind) or KIND_TYPES[x.kind]
  if isinstance(x, EDict2):
    return KIND_TYPES["defaultdict"]
  if isinstance(x, EList):
    return list_ if x.kind == "list" else KIND_TYPES["deque"]
  if isinstance(x, SSeq):
    return tuple_ if x.kind == "tuple" else list_
  if isinstance(x, ESet):
    return fset_ if x.frozen else set_
  if isinstance(x, SLeaf):
    return x.attrs.get("type") or LEAF_TYPE
  t = type(x)
  return MARKER_OF.get(t, t)


class LeafType:
  """type(x) of an opaque value."""


LEAF_TYPE = LeafType


def _kt(nm):
  return type(nm, (), {})


KIND_TYPES = {"OrderedDict": _kt("OrderedDict"), "Counter": _kt("Counter"),
              "defaultdict": _kt("defaultdict"), "deque": _kt("deque")}


def len_(x):
  f = getattr(type(x), "vc_len", None)
  if f is not None:
    return x.vc_len()
  if isinstance(x, SLeaf):
    return C.shape_of(x)[0]
  f = getattr(type(x), "__len__", None)
  if f is not None and getattr(type(x), "__vc_instrumented__", False):
    return x.__len__()
  if isinstance(x, (collections.abc.KeysView, collections.abc.ItemsView, collections.abc.ValuesView)) and hasattr(
      x, "_mapping"):
    return len_(x._mapping)
  return len(x)


def bool_by_len(self):
  m = getattr(self, "_mapping", None)
  if isinstance(m, (EDict, EDict2, DView)):
    return bool(m)
  n = self.__len__()
  return ctx().branch(n.t != 0) if isinstance(n, SInt) else n != 0


def range_(*a):
  if all(int_val(x) is not None for x in a):
    return range(*[int_val(x) for x in a])
  lo, hi, st = 0, None, 1
  if len(a) == 1:
    hi = a[0]
  else:
    lo, hi = a[0], a[1]
    if len(a) == 3:
      st = int_val(a[2])
  l, h = zint(lo), zint(hi)
  if l is None or h is None:
    raise TypeError("range() arguments must be integers")
  if st == 1:
    n = z3.simplify(z3.If(h > l, h - l, z3.IntVal(0)))
    if ctx().entails(h >= l):
      n = z3.simplify(h - l)
    return SSeq(n, lambda i: mk_int(l + i), "range")
  if st == -1:
    n = z3.simplify(z3.If(l > h, l - h, z3.IntVal(0)))
    return SSeq(n, lambda i: mk_int(l - i), "range")
  raise Unsupported("range step")


def zip_(*xs, **kw):
  its = [iter_(x) for x in xs]
  if not any(symbolic(i) for i in its):
    return zip(*its)
  ps = []
  for i in its:
    if not symbolic(i) and not isinstance(i, (tuple, list, EList)):
      if isinstance(i, (range,)):
        i = tuple(i)
      elif hasattr(i, "__next__"):
        raise Unsupported("zip of an iterator with a symbolic sequence")
      else:
        i = tuple(i)
    ps.append(C.seq_parts(i))
  n = ps[0][0]
  for p in ps[1:]:
    if ctx().entails(n == p[0]):
      continue
    n = z3.If(n < p[0], n, p[0])
  return SSeq(z3.simplify(n), lambda i: tuple(p[1](i) for p in ps), "iter")


def enumerate_(x, start=0):
  it = iter_(x)
  if not symbolic(it):
    return enumerate(it, start)
  return SSeq(it.n, lambda i: (mk_int(i + zint(start)), it.get(i)), "iter")


def map_(f, *xs):
  its = [iter_(x) for x in xs]
  if not any(symbolic(i) for i in its):
    return map(f, *its)
  src = its[0] if len(its) == 1 else zip_(*its)
  acc = EList()
  if len(its) == 1:
    each(src, lambda x: acc.append(f(x)))
  else:
    each(src, lambda x: acc.append(f(*x)))
  return acc.st if isinstance(acc.st, SSeq) else iter(acc.st)


def filter_(f, x):
  it = iter_(x)
  if not symbolic(it):
    return filter(f, it)
  acc = EList()
  def one(v):
    if (v if f is None else f(v)):
      acc.append(v)
  each(it, one)
  return acc.st


def reversed_(x):
  if isinstance(x, (tuple, list, range)):
    return reversed(x)
  if isinstance(x, EList) and isinstance(x.st, tuple):
    return reversed(x.st)
  it = iter_(x)
  if symbolic(it):
    n, g = it.n, it.get
    return SSeq(n, lambda i: g(z3.simplify(n - 1 - i)), "iter")
  return reversed(tuple(it) if isinstance(x, Sym) else it)


def sum_(x, start=0):
  it = iter_(x)
  if not symbolic(it):
    r = start
    for v in it:
      r = r + v
    return r
  box = [start]
  loops.for_loop(it, lambda v: box.__setitem__(0, box[0] + v) or None,
                 lambda nm: box[0], lambda nm, v: box.__setitem__(0, v), ("sum",))
  return box[0]


def maxmin(name, pick):
  def f(*xs, key=None, default=NODEF):
    if len(xs) == 1:
      it = iter_(xs[0])
      if symbolic(it):
        raise Unsupported(name + " of a symbolic sequence")
      xs = tuple(it)
    if not contains_sym(xs) and key is None:
      return getattr(builtins, name)(xs, **({} if default is NODEF else {"default": default}))
    if not xs:
      if default is not NODEF:
        return default
      raise ValueError(name + "() arg is an empty sequence")
    if key is not None:
      raise Unsupported(name + " with key")
    r = xs[0]
    for x in xs[1:]:
      if all(isinstance(v, (int, SInt)) for v in (r, x)):
        a, b = zint(r), zint(x)
        r = mk_int(z3.If(pick(b, a), b, a))
      elif all(isinstance(v, (int, SInt, float, SReal)) for v in (r, x)):
        a, b = SReal.lift(r).t, SReal.lift(x).t
        r = SReal(z3.If(pick(b, a), b, a))
      else:
        if pick(x, r):
          r = x
    return r
  return f


max_ = maxmin("max", lambda a, b: a > b)
min_ = maxmin("min", lambda a, b: a < b)


def all_(x):
  it = iter_(x)
  if not symbolic(it):
    for v in it:
      if not v:
        return False
    return True
  r = loops.for_loop(it, lambda v: None if v else BREAK)
  return r is not BREAK


def any_(x):
  it = iter_(x)
  if not symbolic(it):
    for v in it:
      if v:
        return True
    return False
  r = loops.for_loop(it, lambda v: BREAK if v else None)
  return r is BREAK


def sorted_(x, key=None, reverse=False):
  it = iter_(x)
  if symbolic(it):
    return EList(sorted_seq(it, key, reverse))
  t = tuple(it)
  if contains_sym(t) or key is not None:
    if len(t) <= 1:
      return EList(t)
    if contains_sym(t):
      raise Unsupported("sorted of symbolic values")
  return EList(tuple(sorted(t, key=key, reverse=reverse)))


def sorted_seq(it, key, reverse):
  """A permutation of `it` (order beyond that is not modelled)."""
  c = ctx()
  tag = c.name("sorted")
  perm = c.fresh_fun(tag + ".perm", Int, Int)
  inv = c.fresh_fun(tag + ".inv", Int, Int)
  n = it.n
  def get(i):
    c_ = ctx()
    p = perm(i)
    c_.fact(z3.Implies(z3.And(i >= 0, i < n), z3.And(p >= 0, p < n, inv(p) == i)))
    return it.get(p)
  return SSeq(n, get)


def iter1(x, *sentinel):
  if sentinel:
    raise Unsupported("iter with sentinel")
  it = iter_(x)
  if symbolic(it):
    return SIter(it)
  return iter(it)


def next_(x, *d):
  if isinstance(x, SIter):
    return x.vc_next(*d)
  if isinstance(x, SSeq):        # a generator summarised eagerly, consumed once
    if ctx().branch(x.n > 0):
      return x.at(0)
    if d:
      return d[0]
    raise StopIteration
  return next(x, *d)


def isinstance_(x, k):
  if isinstance(k, tuple):
    for y in k:
      if isinstance_(x, y):
        return True
    return False
  if k in MARKER_OF:
    k = MARKER_OF[k]
  if isinstance(x, SLeaf) and not isinstance(k, Marker):
    f = x.attrs.get("isinstance")
    if f is not None:
      return f(k)
    if isinstance(k, type) and issubclass(k, SLeaf):
      return True
    r = LEAF_ISINSTANCE(x, k)
    if r is not None:
      return r
  if isinstance(x, SLeaf) and isinstance(k, Marker):
    f = x.attrs.get("isinstance")
    return f(k) if f is not None else False
  return isinstance(x, k)


def LEAF_ISINSTANCE(x, k):
  h = getattr(k, "vc_leaf", None)
  if h is not None:
    return h(x)
  return False


def issubclass_(a, b):
  if isinstance(b, tuple):
    return any(issubclass_(a, y) for y in b)
  a2, b2 = MARKER_OF.get(a, a), MARKER_OF.get(b, b)
  if isinstance(a2, Marker) and isinstance(b2, Marker):
    return issubclass(a2.vc_native, b2.vc_native)
  if isinstance(a2, Marker):
    a2 = a2.vc_native
  return issubclass(a2, b2)


def id_(x):
  if isinstance(x, SLeaf):
    i = z3.Function("py_id", V, Int)(x.t)
    ctx().fact(z3.Function("py_id_of", Int, V)(i) == x.t)      # objects that are alive have ids of their own
    return SInt(i)
  return id(x)


def repr_(x):
  return to_str(x, "r")


def hash_(x):
  if contains_sym(x):
    return SInt(z3.Function("py_hash", V, Int)(encode(x)))
  return hash(x)


def setattr_b(o, n, v):
  setattr_(o, n, v)


def callable_(x):
  if isinstance(x, SLeaf):
    return False
  return callable(x)


def hasattr_(o, n):
  try:
    getattr(o, n)
    return True
  except AttributeError:
    return False


def getattr_(o, n, *d):
  if isinstance(n, SStr):
    v = core.str_val(n)
    if v is None:
      raise Unsupported("getattr with a symbolic name")
    n = v
  return getattr(o, n, *d)


def print_(*a, **k):
  return None


def divmod_(a, b):
  return a // b, a % b


def abs_(x):
  return abs(x)


def make_builtins(universe):
  b = dict(vars(builtins))
  b.update(len=len_, range=range_, zip=zip_, enumerate=enumerate_, map=map_, filter=filter_,
           reversed=reversed_, sum=sum_, max=max_, min=min_, all=all_, any=any_, sorted=sorted_,
           iter=iter1, next=next_, isinstance=isinstance_, issubclass=issubclass_, id=id_,
           repr=repr_, hash=hash_, setattr=setattr_b, callable=callable_, hasattr=hasattr_,
           getattr=getattr_, print=print_, divmod=divmod_, dict=dict_, list=list_, tuple=tuple_,
           set=set_, frozenset=fset_, int=int_, str=str_, bool=bool_, float=float_)
  b["__import__"] = universe.import_
  return b


for _k in (EDict, EDict2, DView):
  collections.abc.MutableMapping.register(_k)
collections.abc.MutableSequence.register(EList)
collections.abc.Sequence.register(SSeq)
collections.abc.MutableSet.register(ESet)
