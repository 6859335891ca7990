"""Model modules."""
import collections as real_collections
import collections.abc
import functools
import re as real_re
import types

import numpy as real_np
import z3

from pyvc import arrays as A
from pyvc import containers as C
from pyvc import core
from pyvc import loops
from pyvc import rt
from pyvc.containers import DView, EDict, EDict2, EList, ESet, SSeq
from pyvc.core import (SBool, SInt, SLeaf, SReal, SStr, Sym, Unsupported, Int, Bool, Str, V, W, ctx,
                       encode, int_val, mk_bool, mk_int, mk_str, zint, zstr)


class Mod(types.ModuleType):
  """A model module; unmodelled attributes are uninterpreted operations."""

  def __init__(self, name, default=None, **kw):
    super().__init__(name)
    self.__dict__["_default"] = default
    self.__dict__.update(kw)

  def __getattribute__(self, n):
    v = super().__getattribute__(n)
    if n[0] != "_" and core.active() and callable(v):
      core.USED_MODELS.add(object.__getattribute__(self, "__name__") + "." + n)
    return v

  def __getattr__(self, n):
    if n.startswith("__") or n in NOATTR:
      raise AttributeError(n)
    d = self.__dict__["_default"]
    if d is None:
      raise Unsupported(f"{self.__name__}.{n} is not modelled")
    v = d(self.__name__ + "." + n)
    self.__dict__[n] = v
    return v


# ----------------------------------------------------------- opaque operations


class Op:
  """An uninterpreted pure function."""

  def __init__(self, name):
    self.name = name
    self.__name__ = name.rpartition(".")[2]

  def __call__(self, *args, **kw):
    f = A.dispatch(self.name, args, kw)
    if f is not None:
      return f(*args, **kw)
    return opaque(self.name, args, kw)

  def __repr__(self):
    return f"<op {self.name}>"


def opaque(name, args, kw=None, shape=None, dtype=None, sort=V):
  kw = kw or {}
  ks = sorted(kw)
  al = [encode(a) for a in args] + [encode(kw[k]) for k in ks]
  f = z3.Function("op_" + name + "/" + str(len(args)) + "".join("," + k for k in ks),
                  *[V] * len(al), sort)
  t = f(*al) if al else z3.Const("op_" + name, sort)
  if sort != V:
    return t
  return leaf(t, shape, dtype)


def leaf(t, shape=None, dtype=None):
  at = {}
  if shape is not None:
    at["shape"] = shape
    at["ndim"] = rt.len_(shape)
  if dtype is not None:
    at["dtype"] = dtype
  return SLeaf(t, at)


def array(name, shape=None, dtype=None):
  """A fresh symbolic array."""
  return leaf(ctx().fresh(name, V), shape, dtype)


class NdarrayMeta(type):
  def __instancecheck__(cls, x):
    return isinstance(x, SLeaf)

  def vc_leaf(cls, x):
    return True


class ndarray(metaclass=NdarrayMeta):
  pass


def shape_arg(s):
  if isinstance(s, (int, SInt)):
    return (s,)
  return rt.mk_tuple_(s)


# --------------------------------------------------------------------- pytrees

PYTREES = {}            # class -> (flatten, unflatten)


def register_pytree_node(cls, fl, un):
  PYTREES[cls] = (fl, un)


class TreeDef:
  """Structure of a pytree: a frozen snapshot of the tree it was taken from."""
  __slots__ = ("snap", "term")

  def __init__(self, snap):
    self.snap = snap
    self.term = None

  def vc_encode(self):
    if self.term is None:
      self.term = core.const_for(self)
    return self.term

  def vc_freeze(self, since, memo):
    s = C.freeze(self.snap, since, memo)
    return self if s is self.snap else TreeDef(s)

  def vc_canon(self, canon):
    return f"td({canon(self.snap)})"

  def vc_subst(self, pairs, memo):
    return TreeDef(C.subst(self.snap, pairs, memo))

  def __eq__(self, o):
    if not isinstance(o, TreeDef):
      return False
    return self is o or same_structure(self.snap, o.snap)

  def __ne__(self, o):
    return rt.not_(self.__eq__(o))

  def __hash__(self):
    return 0


class Leaves(SSeq):
  """The leaves of a tree, in order; contents only accessible through the tree."""
  __slots__ = ("of",)

  def __init__(self, of):
    c = ctx()
    def get(i):
      raise Unsupported("indexing the leaves of a symbolic tree")
    n = c.fresh("nleaves", Int)
    c.assume(n >= 0)
    SSeq.__init__(self, n, get, "list")
    self.of = of

  def vc_retag(self):
    r = object.__new__(Leaves)
    r.n, r.get, r.kind, r.term, r.of = self.n, self.get, self.kind, self.term, self.of
    return r

  def vc_canon(self, canon):
    return f"leaves({canon(self.of)})"

  def vc_subst(self, pairs, memo):
    r = self.vc_retag()
    r.n = z3.substitute(self.n, *pairs)
    r.of = C.subst(self.of, pairs, memo)
    return r

  def vc_freeze(self, since, memo):
    r = self.vc_retag()
    r.of = C.freeze(self.of, since, memo)
    return r


class MappedLeaves(SSeq):
  pass


def is_leaf_value(x):
  return not (x is None or isinstance(x, (tuple, list, dict, EDict, EDict2, DView, EList))
              or (isinstance(x, SSeq)) or type(x) in PYTREES
              )


def children_of(x):
  """(kind, sequence of children (native list) or None when symbolic)."""
  if type(x) in PYTREES:
    fl, un = PYTREES[type(x)]
    ch, aux = fl(x)
    return "node", ch, aux
  raise Unsupported("tree node")


def is_identity(f):
  """Does f return every leaf as it is, without any effect?"""
  got = []
  def one():
    p = SLeaf(ctx().fresh("any_leaf", V))
    r = f(p)
    got.append(r is p)
    return None
  try:
    w = ctx().world
    outs = loops.sub_explore(one)
  except Unsupported:
    return False
  return got == [True] and len(outs) == 1 and outs[0].kind == "normal" and not outs[0].effects and outs[0].world.eq(w)


def plain_tree(v):
  """A leaf or a tuple of leaves."""
  return isinstance(v, SLeaf) or (isinstance(v, tuple) and all(plain_tree(x) for x in v))


def plain_values(d):
  """Every value of the two-level store is a leaf or a tuple of leaves."""
  c = ctx()
  for bs, gs, fs, l in C.flat_entries(d.st):
    if isinstance(l, C.L2T):
      continue
    if isinstance(l, C.L2W):
      if not plain_tree(l.val):
        return False
    elif isinstance(l, C.L2B):
      if isinstance(l.b, C.Rows):
        continue
      k1, k2 = z3.Const(c.name("any_key"), core.Str), z3.Const(c.name("any_key"), core.Str)
      ok = []
      try:
        loops.sub_explore(lambda: ok.append(plain_tree(l.b.val(k1, k2))))
      except Unsupported:
        return False
      if not all(ok):
        return False
    else:
      return False
  return True


def tree_copy(x, f):
  """Rebuilds the tree with f on the leaves."""
  if x is None:
    return None
  if isinstance(x, EDict2):
    if plain_values(x) and is_identity(f):
      return EDict2(x.st, x.plain)
    d = EDict2((), x.plain)
    def row(kv):
      k, v = kv
      d._set(d.st + (C.L2T(k),))
      rt.each(v.items(), lambda e: C.DView(d, k).__setitem__(e[0], tree_copy(e[1], f)))
    rt.each(x.items(), row)
    return d
  if type(x) in PYTREES:
    t = getattr(x, "_to_mapping", None)
    if t is not None and immutable_value(x) and is_identity(f):
      new = object.__new__(type(x))
      for k, v in C.instance_dict(x).items():
        object.__setattr__(new, k, v)
      return new
    if t is not None:
      m = tree_copy(x._to_mapping(), f)
      return type(x)(m)
    fl, un = PYTREES[type(x)]
    ch, aux = fl(x)
    return un(aux, tuple(tree_copy(y, f) for y in rt.iter_(ch)))
  if isinstance(x, (EDict, EDict2, DView, dict)):
    ci = rt.items_of(x)
    if ci is not None:
      d = EDict(kind=getattr(x, "kind", "dict") if not isinstance(x, EDict2) else "dict")
      for k, v in ci:
        d[k] = tree_copy(v, f)
      return d
    d = EDict()
    def put(kv):
      k, v = kv
      d[k] = tree_copy(v, f)
    rt.each(x.items(), put)
    return d
  if isinstance(x, EList):
    l = EList(())
    rt.each(x, lambda e: l.append(tree_copy(e, f)))
    return l
  if isinstance(x, tuple):
    if hasattr(x, "_fields"):
      return type(x)(*[tree_copy(e, f) for e in x])
    return tuple(tree_copy(e, f) for e in x)
  if isinstance(x, SSeq):
    l = EList(())
    rt.each(x, lambda e: l.append(tree_copy(e, f)))
    return C.retag(l.st, x.kind) if isinstance(l.st, SSeq) else l.st
  h = None
  if h is not None:
    return h(f)
  return f(x)


def tree_map(f, tree, *rest, is_leaf=None):
  if is_leaf is not None:
    raise Unsupported("tree_map(is_leaf=)")
  if not rest:
    return tree_copy(tree, f)
  return tree_map_n(f, (tree,) + rest)


def tree_map_n(f, ts):
  x = ts[0]
  if x is None:
    if any(t is not None for t in ts):
      raise ValueError("tree structure mismatch")
    return None
  if type(x) in PYTREES and hasattr(x, "_to_mapping"):
    if any(type(t) is not type(x) for t in ts):
      raise ValueError("tree structure mismatch")
    return type(x)(tree_map_n(f, tuple(t._to_mapping() for t in ts)))
  if all(isinstance(t, EDict2) for t in ts):
    return tree_map_2(f, ts)
  if isinstance(x, (EDict, DView, EDict2, dict)):
    if any(not isinstance(t, (EDict, DView, EDict2, dict)) for t in ts):
      raise ValueError("tree structure mismatch")
    d = EDict()
    def put(kv):
      k, v = kv
      vs = []
      for t in ts[1:]:
        if not rt.in_(k, t):
          raise ValueError("tree structure mismatch")
        vs.append(rt.getitem(t, k))
      d[k] = tree_map_n(f, (v,) + tuple(vs))
    rt.each(x.items(), put)
    for t in ts[1:]:
      if rt.ne(rt.len_(t), rt.len_(x)):
        raise ValueError("tree structure mismatch")
    return d
  if isinstance(x, tuple):
    if any(not isinstance(t, tuple) or len(t) != len(x) for t in ts):
      raise ValueError("tree structure mismatch")
    r = [tree_map_n(f, e) for e in zip(*ts)]
    return type(x)(*r) if hasattr(x, "_fields") else tuple(r)
  if isinstance(x, (EList, SSeq)):
    src = rt.zip_(*ts)
    l = EList(())
    rt.each(src, lambda e: l.append(tree_map_n(f, e)))
    if isinstance(x, EList):
      return l
    return C.retag(l.st, x.kind) if isinstance(l.st, SSeq) else l.st
  return f(*ts)


def tree_map_2(f, ts):
  """tree_map over two-level stores: the same keys at both levels, f on corresponding values."""
  c = ctx()
  x = ts[0]
  for t in ts[1:]:
    k1, k2 = z3.Const(c.name("mismatch"), core.Str), z3.Const(c.name("mismatch"), core.Str)
    if c.branch(z3.Or(x.mem1(k1) != t.mem1(k1), x.mem2(k1, k2) != t.mem2(k1, k2))):
      raise ValueError("tree structure mismatch")
  d = EDict2((), x.plain)
  views = [EDict2(t.st, True) for t in ts]
  def row(kv):
    k, _ = kv
    d._set(d.st + (C.L2T(k),))
    def one(kv2):
      k2 = kv2[0]
      vs = []
      for t in views:
        found, v = t.find2(k, k2)
        if not found:
          raise Unsupported("tree_map: structures not known to agree")
        vs.append(v)
      C.DView(d, k)[k2] = tree_map_n(f, tuple(vs))
    rt.each(C.DView(views[0], k).items(), one)
  rt.each(x.items(), row)
  return d


def tree_flatten(t, is_leaf=None):
  snap = snapshot(t)
  out = concrete_leaves(t)
  td = TreeDef(snap)
  if out is not None:
    return EList(tuple(out)), td
  return EList(Leaves(snap)), td


def snapshot(t):
  """A copy of the tree that later mutation of t cannot reach."""
  if isinstance(t, EDict) and immutable_values(t):
    return EDict(t.st, t.kind)
  return tree_copy(t, lambda x: x)


def immutable_value(v):
  return (isinstance(v, (SLeaf, SInt, SBool, SReal, SStr, bool, int, float, str))
          or (type(v) in PYTREES and hasattr(v, "_to_mapping") and v._mapping is not None
              and isinstance(v._mapping, EDict) and immutable_values(v._mapping)))


def immutable_values(d):
  """Every value of the dict is a leaf (or an immutable mapping of leaves)."""
  for l in d.st:
    if isinstance(l, C.LW):
      if not immutable_value(l.val):
        return False
    elif isinstance(l, C.LB):
      b = l.base
      k = z3.Const(ctx().name("any_key"), b.ksort)
      ok = []
      try:
        def one():
          ctx().assume(b.has(k))
          ok.append(immutable_value(b.val(k)))
        loops.sub_explore(one)
      except Unsupported:
        return False
      if not all(ok):
        return False
    else:
      return False
  return True


def concrete_leaves(t):
  """Native list of leaves (dict keys sorted) or None when the shape is symbolic."""
  if t is None:
    return []
  if type(t) in PYTREES and hasattr(t, "_to_mapping"):
    return concrete_leaves(t._to_mapping())
  if isinstance(t, (EDict, EDict2, DView, dict)):
    ci = rt.items_of(t)
    if ci is None or any(not isinstance(k, (str, int)) for k, _ in ci):
      return None
    out = []
    for k, v in sorted(ci, key=lambda kv: kv[0]):
      r = concrete_leaves(v)
      if r is None:
        return None
      out += r
    return out
  if isinstance(t, (tuple, list, EList, SSeq)):
    ct = C.concrete_tuple(t)
    if ct is None:
      return None
    out = []
    for v in ct:
      r = concrete_leaves(v)
      if r is None:
        return None
      out += r
    return out
  if type(t) in PYTREES:
    return None
  return [t]


def tree_leaves(t, is_leaf=None):
  return tree_flatten(t)[0]


def tree_structure(t):
  if t is None:
    return TreeDef(None)
  return tree_flatten(t)[1]


def tree_unflatten(td, leaves):
  st = leaves.st if isinstance(leaves, EList) else leaves
  if isinstance(st, Leaves):
    if st.of is td.snap or loops.same(st.of, td.snap):
      return snapshot(td.snap)
    raise Unsupported("unflatten with leaves of another tree")
  ct = C.concrete_tuple(leaves) if isinstance(leaves, (tuple, list, EList, SSeq)) else tuple(rt.iter_(leaves))
  if ct is None:
    raise Unsupported("unflatten of symbolic leaves")
  it = iter(ct)
  base = concrete_leaves(td.snap)
  if base is None:
    raise Unsupported("unflatten into a symbolic structure")
  if len(base) != len(ct):
    raise ValueError("wrong number of leaves")
  return fill(td.snap, it)


def fill(t, it):
  if t is None:
    return None
  if type(t) in PYTREES and hasattr(t, "_to_mapping"):
    return type(t)(fill(t._to_mapping(), it))
  if isinstance(t, (EDict, dict)):
    ci = rt.items_of(t)
    vals = {}
    for k, v in sorted(ci, key=lambda kv: kv[0]):
      vals[k] = fill(v, it)
    d = EDict()
    for k, _ in ci:
      d[k] = vals[k]
    return d
  if isinstance(t, EList):
    return EList(tuple(fill(x, it) for x in C.concrete_tuple(t)))
  if isinstance(t, (tuple, SSeq)):
    ct = C.concrete_tuple(t)
    if hasattr(t, "_fields"):
      return type(t)(*[fill(x, it) for x in ct])
    return tuple(fill(x, it) for x in ct)
  return next(it)


def all_leaves(xs):
  st = xs.st if isinstance(xs, EList) else xs
  if isinstance(st, Leaves):
    return True
  for x in rt.iter_(xs):
    if not is_leaf_value(x):
      return False
  return True


def same_structure(a, b):
  la, lb = concrete_leaves(a), concrete_leaves(b)
  if la is not None and lb is not None:
    return shape_key(a) == shape_key(b)
  f = z3.Function("same_treedef", V, V, Bool)
  raise Unsupported("comparison of symbolic tree structures")


def shape_key(t):
  if t is None:
    return ("none",)
  if type(t) in PYTREES and hasattr(t, "_to_mapping"):
    return ("node", type(t), shape_key(t._to_mapping()))
  if isinstance(t, (EDict, EDict2, DView, dict)):
    return ("dict",) + tuple((k, shape_key(v)) for k, v in sorted(rt.items_of(t), key=lambda kv: kv[0]))
  if isinstance(t, (EList, list)):
    return ("list",) + tuple(shape_key(v) for v in C.concrete_tuple(t))
  if isinstance(t, (tuple, SSeq)):
    return ("tuple", type(t) if isinstance(t, tuple) else tuple) + tuple(shape_key(v) for v in C.concrete_tuple(t))
  return ("*",)


def treedef_is_leaf(td):
  return is_leaf_value(td.snap)


# ----------------------------------------------------------------- collections


def m_defaultdict(factory=None, *a, **kw):
  if factory in (dict, rt.dict_):
    if not a and not kw:
      return EDict2(())
    src = a[0]
    d = EDict2(())
    rt.dict_update(d, src)
    return d
  if factory is None:
    return EDict((), "defaultdict")
  d = EDict((), "defaultdict", factory)
  for o in a:
    rt.dict_update(d, o)
  return d


class _Kind(rt.Marker):
  pass


def kind_marker(name, native, check, make):
  m = rt.Marker(name, (), {"vc_native": native, "vc_check": staticmethod(check), "vc_make": staticmethod(make)})
  return m


def m_deque(it=(), maxlen=None):
  if maxlen is not None:
    raise Unsupported("deque(maxlen)")
  return EList(rt.to_seq_state(it), "deque")


def m_ordered(*a, **kw):
  d = EDict((), "OrderedDict")
  for o in a:
    rt.dict_update(d, o)
  d.update(**kw)
  return d


def m_counter(*a):
  d = EDict((), "Counter")
  if a:
    if len(a) != 1 or not isinstance(a[0], (EDict, dict)):
      raise Unsupported("Counter(iterable)")
    rt.dict_update(d, a[0])    # a mapping: its values are the counts
  return d


def collections_mod():
  m = Mod("collections")
  dd = kind_marker("defaultdict", real_collections.defaultdict,
                   lambda x: isinstance(x, EDict2) or (isinstance(x, EDict) and x.kind == "defaultdict"),
                   m_defaultdict)
  od = kind_marker("OrderedDict", real_collections.OrderedDict,
                   lambda x: isinstance(x, EDict) and x.kind == "OrderedDict", m_ordered)
  ct = kind_marker("Counter", real_collections.Counter,
                   lambda x: isinstance(x, EDict) and x.kind == "Counter", m_counter)
  dq = kind_marker("deque", real_collections.deque,
                   lambda x: isinstance(x, EList) and x.kind == "deque", m_deque)
  rt.KIND_TYPES.update(defaultdict=dd, OrderedDict=od, Counter=ct, deque=dq)
  m.__dict__.update(defaultdict=dd, OrderedDict=od, Counter=ct, deque=dq,
                    namedtuple=real_collections.namedtuple, abc=collections.abc)
  for n in ("Mapping", "Sequence", "Iterable", "MutableMapping"):
    pass
  return m


# -------------------------------------------------------------------------- re


IDENT = z3.Function("re_match", Str, Str, Bool)


class Pattern:
  def __init__(self, p, flags=0):
    self.pattern = p
    self.flags = flags
    self.real = real_re.compile(p, flags)

  def _do(self, which, s):
    if isinstance(s, SStr):
      t = regex_term(self.pattern, which)
      b = z3.InRe(s.t, t) if t is not None else z3.Function("re_" + which, Str, Str, Bool)(
          z3.StringVal(self.pattern), s.t)
      return SMatch(b, self, s)
    return getattr(self.real, which)(s)

  def match(self, s):
    return rt_match(self._do("match", s))

  def fullmatch(self, s):
    return rt_match(self._do("fullmatch", s))

  def search(self, s):
    return rt_match(self._do("search", s))

  def sub(self, rep, s):
    if isinstance(s, SStr):
      return SStr(z3.Function("re_sub", Str, Str, Str, Str)(z3.StringVal(self.pattern), zstr(rep), s.t))
    return self.real.sub(rep, s)


def rt_match(m):
  if isinstance(m, SMatch):
    return m if ctx().branch(m.b) else None
  return m


class SMatch:
  def __init__(self, b, pat, s):
    self.b, self.pat, self.s = b, pat, s

  def group(self, *a):
    raise Unsupported("match.group on a symbolic match")
  groups = group


def regex_term(p, which):
  """z3 regex for the simple patterns in use, or None."""
  try:
    import re._parser as sp
  except ImportError:
    return None
  try:
    tree = sp.parse(p)
    r, anchored = conv_regex(list(tree))
  except Unsupported:
    return None
  if which == "match" and not anchored:
    r = z3.Concat(r, z3.Full(z3.ReSort(Str)))
  if which == "search":
    return None
  return r


def conv_regex(items):
  import re._parser as sp
  import re._constants as sc
  parts = []
  anchored = False
  newline_end = False
  ascii_ = lambda lo, hi: z3.Range(chr(lo), chr(hi))
  def one(op, av):
    if op is sc.LITERAL:
      return z3.Re(chr(av))
    if op is sc.IN:
      rs = []
      for o, a in av:
        if o is sc.LITERAL:
          rs.append(z3.Re(chr(a)))
        elif o is sc.RANGE:
          rs.append(ascii_(*a))
        elif o is sc.CATEGORY:
          rs.append(category(a))
        else:
          raise Unsupported("regex")
      return rs[0] if len(rs) == 1 else z3.Union(*rs)
    if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
      lo, hi, sub = av
      r, _ = conv_regex(list(sub))
      if lo == 0 and hi is sc.MAXREPEAT:
        return z3.Star(r)
      if lo == 1 and hi is sc.MAXREPEAT:
        return z3.Plus(r)
      if lo == 0 and hi == 1:
        return z3.Option(r)
      raise Unsupported("regex repeat")
    if op is sc.SUBPATTERN:
      return conv_regex(list(av[-1]))[0]
    if op is sc.BRANCH:
      return z3.Union(*[conv_regex(list(b))[0] for b in av[1]])
    raise Unsupported("regex op")
  def category(a):
    if a is sc.CATEGORY_WORD:
      return z3.Union(ascii_(97, 122), ascii_(65, 90), ascii_(48, 57), z3.Re("_"))
    if a is sc.CATEGORY_DIGIT:
      return ascii_(48, 57)
    raise Unsupported("regex category")
  for i, (op, av) in enumerate(items):
    if op is sc.AT:
      if av is sc.AT_BEGINNING and i == 0:
        continue
      if av in (sc.AT_END, sc.AT_END_STRING) and i == len(items) - 1:
        anchored = True
        newline_end = av is sc.AT_END
        continue
      raise Unsupported("regex anchor")
    parts.append(one(op, av))
  if newline_end:
    parts.append(z3.Option(z3.Re("\n")))
  if not parts:
    return z3.Re(""), anchored
  return (parts[0] if len(parts) == 1 else z3.Concat(*parts)), anchored


def re_mod():
  m = Mod("re")
  def fn(which):
    return lambda p, s, *a: getattr(Pattern(p) if isinstance(p, str) else p, which)(s)
  m.__dict__.update(compile=Pattern, match=fn("match"), search=fn("search"), fullmatch=fn("fullmatch"),
                    sub=lambda p, r, s: Pattern(p).sub(r, s), split=m_re_split,
                    IGNORECASE=real_re.IGNORECASE, escape=real_re.escape)
  return m


def m_re_split(p, s, maxsplit=0, *a, **k):
  if not isinstance(s, SStr):
    return EList(tuple(real_re.split(p, s, *([maxsplit] if maxsplit else []), *a, **k)))
  r = suffix_pattern(p)
  if r is None:
    raise Unsupported("re.split of a symbolic string")
  lit, digits = r
  c = ctx()
  parts = C.flatten_concat(s.t)
  if len(parts) > 1 and z3.is_string_value(parts[-2]) and parts[-2].as_string().endswith(lit) and c.entails(
      z3.InRe(parts[-1], z3.Plus(digits))):     # the decomposition is unique: it is this one
    h = parts[:-2] + ([z3.StringVal(parts[-2].as_string()[:-len(lit)])] if len(parts[-2].as_string()) > len(lit) else [])
    return EList((SStr(z3.Concat(*h) if len(h) > 1 else h[0]) if h else "", SStr(parts[-1]), ""))
  if z3.is_string_value(parts[-1]):
    last = parts[-1].as_string()
    stem = last.rstrip("0123456789")
    if stem and not stem.endswith("\n"):           # decided inside the literal
      if stem == last or not stem.endswith(lit):
        return EList((s,))
      h = parts[:-1] + ([z3.StringVal(stem[:-len(lit)])] if len(stem) > len(lit) else [])
      return EList((SStr(z3.Concat(*h) if len(h) > 1 else h[0]), last[len(stem):], ""))
  front, tail = [], parts            # the suffix lies after the last literal character that cannot be part of it
  for n in range(len(parts) - 2, -1, -1):
    if z3.is_string_value(parts[n]):
      v = parts[n].as_string()
      stem = v.rstrip("0123456789" + lit)
      if stem:
        front = parts[:n] + [z3.StringVal(stem)]
        tail = ([z3.StringVal(v[len(stem):])] if len(v) > len(stem) else []) + parts[n + 1:]
        break
  cat = lambda ps: ps[0] if len(ps) == 1 else z3.Concat(*ps)
  tt = cat(tail)
  any_ = z3.Full(z3.ReSort(Str))
  suf = z3.Concat(z3.Re(lit), z3.Plus(digits))
  end = c.branch(z3.InRe(tt, z3.Concat(any_, suf, z3.Re("\n")))) if not c.entails(
      z3.Not(z3.SuffixOf(z3.StringVal("\n"), tt))) else False
  if not end and not c.branch(z3.InRe(tt, z3.Concat(any_, suf))):
    return EList((s,))
  head, num = c.fresh("split.head", Str), c.fresh("split.num", Str)
  nl = [z3.StringVal("\n")] if end else []
  c.assume(z3.And(tt == cat([head, z3.StringVal(lit), num] + nl), z3.InRe(num, z3.Plus(digits))))
  return EList((SStr(cat(front + [head])), SStr(num), "\n" if end else ""))


def suffix_pattern(p):
  """For LIT(CLASS+)$ with LIT not in CLASS: (LIT, regex of CLASS); else None.
  The match is then unique: the maximal run of CLASS at the end, preceded by LIT."""
  import re._parser as sp
  import re._constants as sc
  t = list(sp.parse(p))
  if len(t) != 3 or t[0][0] is not sc.LITERAL or t[1][0] is not sc.SUBPATTERN or t[2] != (sc.AT, sc.AT_END):
    return None
  sub = list(t[1][1][-1])
  if len(sub) != 1 or sub[0][0] is not sc.MAX_REPEAT or sub[0][1][:2] != (1, sc.MAXREPEAT):
    return None
  inner = list(sub[0][1][2])
  if inner != [(sc.IN, [(sc.CATEGORY, sc.CATEGORY_DIGIT)])] and inner != [(sc.IN, [(sc.RANGE, (48, 57))])]:
    return None
  if chr(t[0][1]).isdigit():
    return None
  return chr(t[0][1]), z3.Range("0", "9")


# ----------------------------------------------------------------------- numpy

PROD = z3.Function("np_prod", V, Int)


class IntVector:
  """np.array of ints, some symbolic."""

  def __init__(self, xs):
    self.xs = list(xs)

  def __iter__(self):
    return iter(list(self.xs))

  def vc_len(self):
    return len(self.xs)

  def __len__(self):
    return len(self.xs)

  def __getitem__(self, i):
    if isinstance(i, list) and len(i) == len(self.xs):
      return IntVector([x for x, m in zip(self.xs, i) if bool(m)])
    if isinstance(i, int):
      return self.xs[i]
    raise Unsupported("index of an integer vector")

  def __setitem__(self, i, v):
    if isinstance(i, list) and len(i) == len(self.xs):
      self.xs = [v if bool(m) else x for x, m in zip(self.xs, i)]
    elif isinstance(i, int):
      self.xs[i] = v
    else:
      raise Unsupported("index of an integer vector")

  def __eq__(self, o):
    return [x == o for x in self.xs]

  def __ne__(self, o):
    return [x != o for x in self.xs]

  def __lt__(self, o):
    return [x < o for x in self.xs]

  __hash__ = None

  def prod(self):
    return np_prod(tuple(self.xs))

  def tolist(self):
    return list(self.xs)

  def __getattr__(self, n):
    if n.startswith("__"):
      raise AttributeError(n)
    raise Unsupported(f"np.array(...).{n}")


def np_array(x, dtype=None, **k):
  ct = C.concrete_tuple(x) if isinstance(x, (tuple, list, EList, SSeq)) else None
  if ct and dtype is None and not k and all(isinstance(e, (int, SInt)) and not isinstance(e, bool) for e in ct):
    return IntVector(ct)
  return np_fallback("numpy.array")(x, **({} if dtype is None else {"dtype": dtype}), **k)


def np_prod(x, *a, **k):
  if isinstance(x, IntVector):
    x = tuple(x.xs)
  if not a and set(k) == {"dtype"}:
    k = {}
  if a or k:
    return opaque("np.prod", (x,) + a, k)
  ct = C.concrete_tuple(x) if isinstance(x, (tuple, list, EList, SSeq)) else None
  if ct is not None:
    r = 1
    for e in ct:
      r = r * e
    return r
  if isinstance(x, (EList, SSeq)):
    t = PROD(encode(x))
    return SInt(t)
  if isinstance(x, SLeaf):
    return opaque("np.prod", (x,))
  return real_np.prod(x)


def sqrt_(x):
  if isinstance(x, (SInt, SReal)):
    r = SReal.lift(x)
    t = core.SQRT(r.t)
    c = ctx()
    c.fact(z3.Implies(r.t >= 0, z3.And(t >= 0, t * t == r.t)))
    return SReal(t)
  if isinstance(x, A.Arr):
    return A.sqrt(x)
  if isinstance(x, SLeaf):
    return opaque("np.sqrt", (x,))
  if isinstance(x, (int, float)) and not isinstance(x, bool) and x >= 0:
    r = real_np.sqrt(x)
    return r if r * r == x and r == int(r) else SReal(A.sqrt_term(SReal.lift(x).t))
  return real_np.sqrt(x)


def np_delete(x, k, axis=None):
  ct = C.concrete_tuple(x) if not isinstance(x, (tuple, list)) else tuple(x)
  if ct is None or not isinstance(k, int) or not all(isinstance(v, (int, SInt)) for v in ct):
    return opaque("np.delete", (x, k))
  if not -len(ct) <= k < len(ct):
    raise IndexError("np.delete out of bounds")
  k %= len(ct)
  return IntVector([v for j, v in enumerate(ct) if j != k])


def np_fallback(name):
  short = name.split(".", 1)[1]
  real = getattr(real_np, short, None)
  if isinstance(real, type) or not callable(real):
    return real
  def f(*a, **k):
    g = A.dispatch(name, a, k)
    if g is not None:
      return g(*a, **k)
    if rt.contains_sym(a) or rt.contains_sym(k):
      return opaque(name, a, k)
    return real(*a, **k)
  f.__name__ = short
  return f


def numpy_mod():
  m = Mod("numpy", np_fallback, delete=np_delete, zeros=zeros_like_ctor("np.zeros", 0.0), ones=zeros_like_ctor("np.ones", 1.0), prod=np_prod, product=np_prod, sqrt=sqrt_, ndarray=ndarray, array=np_array,
          float32=real_np.float32, int32=real_np.int32, pi=real_np.pi, inf=real_np.inf)
  return m


# ------------------------------------------------------------------------- jax


def zeros_like_ctor(name, v):
  def f(shape, dtype=None):
    s = shape_arg(shape)
    ct = C.concrete_tuple(s)
    if ct is not None:
      t = opaque(name, (s,) + (() if dtype is None else (dtype,))).t
      return A.Arr(ct, lambda *i: z3.RealVal(int(v)), "r", dtype, t=t)
    return opaque(name, (s,) + (() if dtype is None else (dtype,)), shape=s, dtype=dtype)
  f.__name__ = name
  return f


def broadcast_to(x, shape):
  if isinstance(x, A.Arr):
    return A.broadcast_to(x, shape)
  s = shape_arg(shape)
  if isinstance(x, (int, float, SInt, SReal)) and C.concrete_tuple(s) is not None:
    return A.broadcast_to(x, s)
  return opaque("jnp.broadcast_to", (x, s), shape=s)


def reshape(x, shape):
  if isinstance(x, A.Arr):
    return A.reshape(x, shape)
  s = shape_arg(shape)
  return opaque("jnp.reshape", (x, s), shape=s)


SPLIT = z3.Function("prng_split", V, Int, Int, V)
SEED = z3.Function("prng_seed", Int, V)


def prng_leaf(t):
  return SLeaf(t, {"shape": (2,), "ndim": 1, "dtype": real_np.uint32})


def random_split(key, num=2):
  """n children of a key; `num` must be a (non-negative) int."""
  n = zint(num)
  if n is None:
    raise Unsupported("split(key, shape)")
  k = encode(key)
  keys = SSeq(n, lambda i: prng_leaf(SPLIT(k, n, i)))
  t = z3.Function("prng_splits", V, Int, V)(k, n)
  return SLeaf(t, {"shape": (num, 2), "ndim": 2, "dtype": real_np.uint32, "iter": lambda x: keys,
                   "getitem": lambda i: keys[i]})


def prng_key(seed):
  z = zint(seed)
  return prng_leaf(SEED(z) if z is not None else z3.Function("prng_seed_of", V, V)(encode(seed)))


class ShapeDtypeStruct:
  def __init__(self, shape, dtype):
    self.shape, self.dtype = shape, dtype


def identity_transform(name):
  """jit / remat / named_call ...: the same function, fresh identities out."""
  def tr(fun, *a, **k):
    def wrapped(*args, **kw):
      return fun(*args, **kw)
    return wrapped
  tr.__name__ = name
  return tr


def issubdtype(a, b):
  if isinstance(a, type) and isinstance(b, type):
    return bool(real_np.issubdtype(a, b))
  return opaque("jax.numpy.issubdtype", (a, b))


def value_and_grad(fun, argnums=0, has_aux=False, holomorphic=False):
  """The value (and aux) of the function; the gradients are opaque."""
  def wrapped(*args, **kw):
    out = fun(*args, **kw)
    v = out
    if has_aux:
      if not isinstance(out, tuple) or len(out) != 2:
        raise TypeError("expected function with aux output to return a two-element tuple")
      v = out[0]
    return out, opaque("jax.grad", (v,) + tuple(args) + (argnums,))
  return wrapped


def vmap(fun, in_axes=0, out_axes=0, axis_name=None):
  """One lane: mapped arguments are sliced, mapped outputs stacked, the rest passes through."""
  def sliced(x, ax):
    if ax is None:
      return x
    if isinstance(x, tuple):
      axs = ax if isinstance(ax, (tuple, list)) else (ax,) * len(x)
      if len(axs) != len(x):
        raise ValueError("vmap in_axes must match the arguments")
      return tuple(sliced(a, b) for a, b in zip(x, axs))
    return opaque("vmap.lane", (x, ax))
  def stacked(x, ax):
    if ax is None:
      return x
    if isinstance(x, tuple):
      axs = ax if isinstance(ax, (tuple, list)) else (ax,) * len(x)
      if len(axs) != len(x):
        raise ValueError("vmap out_axes must match the outputs")
      r = [stacked(a, b) for a, b in zip(x, axs)]
      return type(x)(*r) if hasattr(x, "_fields") else tuple(r)
    if isinstance(x, (EDict, EDict2, dict)):
      raise Unsupported("vmap: mapped mapping")
    return opaque("vmap.stack", (x, ax))
  def wrapped(*args):
    return stacked(fun(*sliced(args, in_axes)), out_axes)
  return wrapped


def eval_shape(fun, *a, **k):
  """Runs the function; only shapes and dtypes come out."""
  r = fun(*a, **k)
  return opaque("eval_shape", (r,)) if isinstance(r, SLeaf) else r


def lax_cond(pred, true_fun, false_fun, operand):
  """Both branches are traced; the result is that of the one chosen."""
  t, f = true_fun(operand), false_fun(operand)
  return t if bool(pred) else f


def lax_switch(index, branches, operand):
  """All branches are traced; the index is clamped."""
  bs = C.concrete_tuple(branches)
  if bs is None:
    raise Unsupported("switch over a symbolic number of branches")
  rs = [b(operand) for b in bs]
  for n in range(len(bs) - 1):
    if bool(index <= n):
      return rs[n]
  return rs[-1]


DTYPES = ("float32", "float16", "float64", "int32", "int64", "uint32", "uint8", "int8", "bfloat16")


def jax_mods():
  jnp = Mod("jax.numpy", Op, ndarray=ndarray, zeros=zeros_like_ctor("jnp.zeros", 0.0),
            ones=zeros_like_ctor("jnp.ones", 1.0), broadcast_to=broadcast_to, reshape=reshape,
            float32=real_np.float32, float16=real_np.float16, int32=real_np.int32, uint32=real_np.uint32,
            uint8=real_np.uint8, int8=real_np.int8, float64=real_np.float64, int64=real_np.int64,
            bfloat16="bfloat16", inf=float("inf"), dtype=lambda x: x, integer=real_np.integer, floating=real_np.floating, issubdtype=issubdtype,
            shape=lambda x: x.shape, pi=real_np.pi)
  lax = Mod("jax.lax", Op, ConvDimensionNumbers=ConvDimensionNumbers,
            stop_gradient=lambda x: A.stop_gradient(x) if isinstance(x, A.Arr) else opaque("lax.stop_gradient", (x,), shape=x.shape if isinstance(x, SLeaf) else None))
  jnp.__dict__["linalg"] = Mod("jax.numpy.linalg", Op)
  rnd = Mod("jax.random", Op, split=random_split, PRNGKey=prng_key)
  nn = Mod("jax.nn", Op)
  tree_util = Mod("jax.tree_util", None, register_pytree_node=register_pytree_node, tree_map=tree_map,
                  tree_leaves=tree_leaves, tree_flatten=tree_flatten, tree_unflatten=tree_unflatten,
                  tree_structure=tree_structure, all_leaves=all_leaves, treedef_is_leaf=treedef_is_leaf,
                  tree_multimap=tree_map, PyTreeDef=TreeDef, Partial=functools.partial)
  jcore = Mod("jax.core", None, Tracer=type("Tracer", (), {}), Trace=type("Trace", (), {}))
  jax = Mod("jax", Op, numpy=jnp, lax=lax, random=rnd, nn=nn, tree_util=tree_util, core=jcore,
            tree_map=tree_map, tree_leaves=tree_leaves, tree_flatten=tree_flatten,
            tree_unflatten=tree_unflatten, tree_structure=tree_structure,
            treedef_is_leaf=treedef_is_leaf, ShapeDtypeStruct=ShapeDtypeStruct,
            linear_util=Mod("jax.linear_util", Op, transformation=lambda f: f),
            api_util=Mod("jax.api_util", Op))
  jax.__dict__["jit"] = identity_transform("jit")
  jax.__dict__["remat"] = identity_transform("remat")
  jax.__dict__["checkpoint"] = jax.__dict__["remat"]
  jax.__dict__.update(value_and_grad=value_and_grad, vmap=vmap, eval_shape=eval_shape)
  lax.__dict__.update(cond=lax_cond, switch=lax_switch)
  jax.__dict__["named_call"] = identity_transform("named_call")
  return {"jax": jax, "jax.numpy": jnp, "jax.lax": lax, "jax.random": rnd, "jax.nn": nn,
          "jax.tree_util": tree_util, "jax.core": jcore}


NOATTR = {"tree_multimap"}


class ConvDimensionNumbers(tuple):
  _fields = ("lhs_spec", "rhs_spec", "out_spec")

  def __new__(cls, lhs_spec=None, rhs_spec=None, out_spec=None):
    return tuple.__new__(cls, (lhs_spec, rhs_spec, out_spec))

  lhs_spec = property(lambda s: s[0])
  rhs_spec = property(lambda s: s[1])
  out_spec = property(lambda s: s[2])


def modules():
  m = {"collections": collections_mod(), "collections.abc": collections.abc, "re": re_mod(),
       "numpy": numpy_mod()}
  m.update(jax_mods())
  return m
