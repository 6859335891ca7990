"""Arrays as functions from indices to reals.

An Arr has a concrete rank, possibly symbolic dimensions, and an element function; elementwise
operations, broadcasting, indexing, concatenation and transposition are interpreted, sums are
linear (normalised over monomials), and what is left (reshape, convolution, random draws,
transcendental functions) is uninterpreted but extensional.  Machine arithmetic is treated as
real arithmetic."""
import fractions
import hashlib

import numpy as real_np
import z3

from pyvc import containers as C
from pyvc import core
from pyvc import rt
from pyvc.core import Bool, Int, SBool, SInt, SLeaf, SReal, Unsupported, V, ctx, encode, int_val, mk_bool, mk_int, zint

Real = core.Real


def rv(x):
  """A real-sorted term."""
  if isinstance(x, z3.ExprRef):
    s = x.sort()
    if s == Real:
      return x
    if s == Int:
      return z3.RealVal(x.as_long()) if z3.is_int_value(x) else z3.ToReal(x)
    if s == Bool:
      return z3.If(x, z3.RealVal(1), z3.RealVal(0))
  return SReal.lift(x).t


LEAVES = set()    # the arrays and numbers a program may be differentiated by
TWINS = {}        # uninterpreted symbol -> its symbol with every leaf stopped


def canonical_index(n):
  return tuple(z3.Int(f"ix!{i}") for i in range(n))


class Arr(SLeaf):
  __slots__ = ("shp", "at", "kind", "dt", "src", "memo")

  def __init__(self, shp, at, kind="r", dt=None, src=None, t=None):
    SLeaf.__init__(self, ctx().fresh("array", V) if t is None else t)
    self.shp, self.kind, self.dt, self.src = tuple(shp), kind, dt, src
    raw = at
    cache = {}
    def at2(*idx):
      if len(idx) != len(self.shp):
        raise Unsupported("array rank")
      k = tuple(z.get_id() for z in idx)
      if k not in cache:
        cache[k] = (raw(*idx), idx)
      return cache[k][0]
    self.at = at2
    self.memo = None

  def __getattr__(self, name):
    if name == "shape":
      return self.shp
    if name == "ndim":
      return len(self.shp)
    if name == "dtype":
      if self.dt is None:
        self.dt = SLeaf(z3.Function("dtype_of", V, V)(self.t))
      return self.dt
    if name == "size":
      r = 1
      for d in self.shp:
        r = r * d
      return r
    if name == "T":
      return transpose(self)
    if name in METHODS:
      f = METHODS[name]
      return lambda *a, **k: f(self, *a, **k)
    return SLeaf.__getattr__(self, name)

  def scalar(self):
    if self.shp:
      raise Unsupported("truth value of an array")
    return self.at()

  def __bool__(self):
    t = self.scalar()
    return ctx().branch(t if self.kind == "b" else t != 0)

  def __index__(self):
    raise Unsupported("array used as an index")

  def __float__(self):
    raise Unsupported("float of an array")

  def vc_len(self):
    if not self.shp:
      raise TypeError("len() of unsized object")
    return self.shp[0]

  def __hash__(self):
    raise Unsupported("hash of a symbolic value")

  def canon(self):
    """A canonical form of the whole array (equal forms: equal arrays)."""
    if self.memo is None:
      e = self.at(*canonical_index(len(self.shp)))
      self.memo = (str([dim_key(d) for d in self.shp]) + ":" + key_of(e))
    return self.memo

  def __add__(self, o): return ew(lambda a, b: a + b, self, o)
  def __radd__(self, o): return ew(lambda a, b: a + b, o, self)
  def __sub__(self, o): return ew(lambda a, b: a - b, self, o)
  def __rsub__(self, o): return ew(lambda a, b: a - b, o, self)
  def __mul__(self, o): return ew(lambda a, b: a * b, self, o)
  def __rmul__(self, o): return ew(lambda a, b: a * b, o, self)
  def __truediv__(self, o): return ew(lambda a, b: rv(a) / rv(b), self, o, kind="r")
  def __rtruediv__(self, o): return ew(lambda a, b: rv(a) / rv(b), o, self, kind="r")
  def __pow__(self, o): return power(self, o)
  def __rpow__(self, o): return power(o, self)
  def __neg__(self): return ew(lambda a: -a, self)
  def __pos__(self): return self
  def __abs__(self): return ew(lambda a: z3.If(a >= 0, a, -a), self)
  def __lt__(self, o): return ew(lambda a, b: a < b, self, o, kind="b")
  def __le__(self, o): return ew(lambda a, b: a <= b, self, o, kind="b")
  def __gt__(self, o): return ew(lambda a, b: a > b, self, o, kind="b")
  def __ge__(self, o): return ew(lambda a, b: a >= b, self, o, kind="b")
  def __eq__(self, o): return False if o is None else ew(lambda a, b: a == b, self, o, kind="b")
  def __ne__(self, o): return True if o is None else ew(lambda a, b: a != b, self, o, kind="b")
  def __invert__(self): return ew(z3.Not, self, kind="b")
  def __and__(self, o): return ew(z3.And, self, o, kind="b")
  def __or__(self, o): return ew(z3.Or, self, o, kind="b")
  def __matmul__(self, o): return matmul(self, o)
  def __rmatmul__(self, o): return matmul(lift(o), self)
  def __getitem__(self, k): return getitem(self, k)

  def __iter__(self):
    n = int_val(self.vc_len())
    if n is None:
      raise Unsupported("iterating an array of symbolic length")
    return iter([getitem(self, i) for i in range(n)])

  def __repr__(self):
    return f"<array {self.shp}>"
  __str__ = __repr__


class Ix:
  """x.at[idx].set(v)."""


def new(name, shape, dt=None, kind="r"):
  """A fresh arbitrary array."""
  c = ctx()
  s = {"r": Real, "i": Int, "b": Bool}[kind]
  shape = tuple(shape)
  if not shape:
    x = c.fresh(name, s)
    LEAVES.add(x.decl().name())
    return Arr((), lambda: x, kind, dt)
  f = c.fresh_fun(name, *[Int] * len(shape), s)
  LEAVES.add(f(*canonical_index(len(shape))).decl().name())
  return Arr(shape, lambda *i: f(*i), kind, dt)


def const(v, shape=(), dt=None):
  if isinstance(v, (bool, SBool)):
    t, k = core.to_bool(v), "b"
  elif isinstance(v, (int, SInt, real_np.integer)):
    t, k = zint(int(v) if isinstance(v, real_np.integer) else v), "i"
  else:
    t, k = SReal.lift(float(v) if isinstance(v, real_np.floating) else v).t, "r"
  return Arr(shape, lambda *i: t, k, dt)


def lift(x):
  if isinstance(x, Arr):
    return x
  if isinstance(x, (bool, int, float, SBool, SInt, SReal, fractions.Fraction, real_np.integer, real_np.floating)):
    return const(x)
  if isinstance(x, real_np.ndarray):
    if x.ndim == 0:
      return const(x.item())
    if x.size <= 16:
      flat = [const(v.item()).at() for v in x.ravel()]
      def at(*idx):
        r = flat[-1]
        for n in range(len(flat) - 2, -1, -1):
          r = z3.If(z3.And(*[i == int(p) for i, p in zip(idx, real_np.unravel_index(n, x.shape))]), flat[n], r)
        return r
      return Arr(x.shape, at, "i" if x.dtype.kind in "iu" else "r", x.dtype)
  if isinstance(x, SLeaf):
    raise Unsupported("an array without elements")
  ct = C.concrete_tuple(x) if isinstance(x, (tuple, list, C.EList, C.SSeq)) else None
  if ct:
    return stack([lift(y) for y in ct])
  raise Unsupported(f"{type(x).__name__} as an array")


def is_arrayish(x):
  return isinstance(x, Arr)


# ------------------------------------------------------------------- dimensions


def dim_key(d):
  v = int_val(d)
  return str(v) if v is not None else z3.simplify(zint(d)).sexpr()


def known_eq(a, b):
  va, vb = int_val(a), int_val(b)
  if va is not None and vb is not None:
    return va == vb
  x, y = zint(a), zint(b)
  if x.eq(y) or z3.simplify(x).eq(z3.simplify(y)):
    return True
  return ctx().entails(x == y)


def dim_eq(a, b):
  va, vb = int_val(a), int_val(b)
  if va is not None and vb is not None:
    return va == vb
  if zint(a).eq(zint(b)):
    return True
  return ctx().branch(zint(a) == zint(b))


def is_one(d):
  v = int_val(d)
  if v is not None:
    return v == 1
  t, memo = zint(d), path_memo()
  if t.get_id() in memo:
    return False
  r = ctx().entails(t == 1)
  if not r:
    memo[t.get_id()] = t
  return r


def path_memo():
  """Dimensions not known to be one when asked on this path (being out of date is only imprecise)."""
  c = ctx()
  m = getattr(c, "unit_dims", None)
  if m is None:
    m = c.unit_dims = {}
  return m


def broadcast_shapes(*shapes):
  r = max(len(s) for s in shapes)
  out = []
  for p in range(r):
    ds = [s[p - r + len(s)] for s in shapes if p - r + len(s) >= 0]
    cur = ds[0]
    for d in ds[1:]:
      if is_one(d):
        continue
      if is_one(cur):
        cur = d
      elif not dim_eq(cur, d):
        if ctx().branch(zint(cur) == 1) if int_val(cur) is None else False:
          cur = d
        elif not (ctx().branch(zint(d) == 1) if int_val(d) is None else False):
          raise TypeError("incompatible shapes for broadcasting")
    out.append(cur)
  return tuple(out)


def project(idx, shape, full):
  """The element of an array of this shape that broadcasts to index idx."""
  k = len(idx) - len(shape)
  out = []
  for i, d, f in zip(idx[k:], shape, full[k:]):
    out.append(z3.IntVal(0) if is_one(d) else i)
  return tuple(out)


def result_dtype(args, kind):
  if kind == "b":
    return real_np.bool_
  ds = [a.dtype for a in args if isinstance(a, Arr) and a.dt is not None]
  if not ds:
    return None
  first = ds[0]
  for d in ds[1:]:
    if not (d is first or (isinstance(d, SLeaf) and isinstance(first, SLeaf) and d.t.eq(first.t)) or
            (not isinstance(d, SLeaf) and not isinstance(first, SLeaf) and d == first)):
      return SLeaf(z3.Function("promote", V, V, V)(encode(first), encode(d)))
  return first


def ew(f, *args, kind=None):
  """Elementwise, with broadcasting."""
  try:
    ls = [lift(a) for a in args]
  except Unsupported:
    for a in args:
      if isinstance(a, SLeaf) and not isinstance(a, Arr):
        raise
    raise
  shape = broadcast_shapes(*[a.shp for a in ls])
  k = kind or ("r" if any(a.kind == "r" for a in ls) else "i")
  real = any(a.kind == "r" for a in ls)
  def at(*idx):
    ts = []
    for a in ls:
      t = a.at(*project(idx, a.shp, shape))
      if real:
        t = rv(t) if t.sort() != Bool or kind != "b" else rv(t)
      elif t.sort() == Bool and kind != "b":
        t = z3.If(t, z3.IntVal(1), z3.IntVal(0))
      ts.append(t)
    return f(*ts)
  return Arr(shape, at, k, result_dtype(args, k))


def unary(name):
  F = z3.Function("fn_" + name, Real, Real)
  def f(x):
    if not isinstance(x, Arr):
      x = lift(x)
    return ew(lambda a: F(arg_canon(rv(a))), x, kind="r")
  return f


def sqrt_term(a):
  a = arg_canon(rv(a))
  t = core.SQRT(a)
  ctx().fact(z3.Implies(a >= 0, z3.And(t >= 0, t * t == a)))
  ctx().fact(z3.Implies(a > 0, t > 0))
  return t


def sqrt(x):
  return ew(sqrt_term, x, kind="r")


def rsqrt(x):
  return ew(lambda a: z3.RealVal(1) / sqrt_term(a), x, kind="r")


POW = z3.Function("fn_power", Real, Real, Real)


def power(x, y):
  yv = y if isinstance(y, (int, float)) and not isinstance(y, bool) else None
  if yv is not None and float(yv).is_integer() and 0 <= yv <= 4:
    def f(a):
      r = a if yv >= 1 else (z3.RealVal(1) if a.sort() == Real else z3.IntVal(1))
      for _ in range(int(yv) - 1):
        r = r * a
      return r
    return ew(f, x)
  if yv == 0.5:
    return sqrt(x)
  if yv == -0.5:
    return rsqrt(x)
  return ew(lambda a, b: POW(arg_canon(rv(a)), arg_canon(rv(b))), x, y, kind="r")


def select(p, a, b):
  p, a, b = lift(p), lift(a), lift(b)
  k = "r" if "r" in (a.kind, b.kind) else ("b" if a.kind == b.kind == "b" else "i")
  shape = broadcast_shapes(p.shp, a.shp, b.shp)
  def at(*idx):
    x, y, c = (v.at(*project(idx, v.shp, shape)) for v in (a, b, p))
    if c.sort() != Bool:
      c = c != 0
    if k == "r":
      x, y = rv(x), rv(y)
    return z3.If(c, x, y)
  return Arr(shape, at, k, result_dtype((a, b), k))


# ------------------------------------------------------------- canonical algebra


def poly(t):
  """Sum of monomials: {sorted tuple of (atom key, power): [coefficient, {key: atom}]}."""
  if z3.is_rational_value(t):
    return {(): (fractions.Fraction(t.numerator_as_long(), t.denominator_as_long()), {})} if t.numerator_as_long() else {}
  if z3.is_int_value(t):
    return {(): (fractions.Fraction(t.as_long()), {})} if t.as_long() else {}
  d = t.decl().kind() if z3.is_app(t) else None
  if d == z3.Z3_OP_ADD:
    r = {}
    for c in t.children():
      r = padd(r, poly(c))
    return r
  if d == z3.Z3_OP_SUB:
    cs = t.children()
    r = poly(cs[0])
    for c in cs[1:]:
      r = padd(r, pscale(poly(c), -1))
    return r
  if d == z3.Z3_OP_UMINUS:
    return pscale(poly(t.arg(0)), -1)
  if d == z3.Z3_OP_MUL:
    r = {(): (fractions.Fraction(1), {})}
    for c in t.children():
      r = pmul(r, poly(c))
    return r
  if d == z3.Z3_OP_TO_REAL:
    inner = t.arg(0)
    if z3.is_app(inner) and inner.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS) or z3.is_int_value(inner):
      return int_poly(inner)
    return atom(t)
  if d == z3.Z3_OP_DIV:
    den = poly(t.arg(1))
    return pmul(poly(t.arg(0)), pinv(den))
  return atom(t)


def int_poly(t):
  """poly of ToReal(t), with ToReal pushed to the atoms."""
  if z3.is_int_value(t):
    return poly(t)
  k = t.decl().kind()
  if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB):
    cs = [int_poly(c) for c in t.children()]
    r = cs[0]
    for c in cs[1:]:
      r = padd(r, c) if k == z3.Z3_OP_ADD else padd(r, pscale(c, -1)) if k == z3.Z3_OP_SUB else pmul(r, c)
    return r
  if k == z3.Z3_OP_UMINUS:
    return pscale(int_poly(t.arg(0)), -1)
  return atom(z3.ToReal(t))


_ATOMS = {}


def atom(t):
  a = rebuild(t)
  k = a.sexpr()
  return {((k, 1),): (fractions.Fraction(1), {k: a})}


def rebuild(t):
  """The same application with canonical arguments."""
  if not z3.is_app(t) or t.num_args() == 0:
    return t
  key = t.get_id()
  hit = _ATOMS.get(key)
  if hit is not None and hit[0].eq(t):
    return hit[1]
  args = []
  for c in t.children():
    if c.sort() == Real:
      args.append(term(poly(c)))
    elif c.sort() == Int:
      args.append(z3.simplify(c, som=True))
    else:
      args.append(rebuild(c))
  k = t.decl().kind()
  if k in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_TO_REAL):
    r = t.decl()(*args)
  elif k == z3.Z3_OP_ITE:
    c, x, y = args
    c = z3.simplify(c)
    r = x if z3.is_true(c) else y if z3.is_false(c) or x.eq(y) else z3.If(c, x, y)
  elif k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and args[0].sort() in (Real, Int):
    r = z3.simplify(t.decl()(*args), som=True)
  else:
    try:
      r = t.decl()(*args)
    except z3.Z3Exception:
      r = t
  _ATOMS[key] = (t, r)
  return r


def padd(a, b):
  r = dict(a)
  for m, (c, at) in b.items():
    if m in r:
      n = r[m][0] + c
      if n:
        r[m] = (n, r[m][1])
      else:
        del r[m]
    else:
      r[m] = (c, at)
  return r


def pscale(a, s):
  return {m: (c * s, at) for m, (c, at) in a.items()} if s else {}


def pmul(a, b):
  if len(a) * len(b) > 400:
    raise Unsupported("polynomial too large")
  r = {}
  for m1, (c1, a1) in a.items():
    for m2, (c2, a2) in b.items():
      p = {}
      for k, e in m1 + m2:
        p[k] = p.get(k, 0) + e
      at = dict(a1)
      at.update(a2)
      m = tuple(sorted((k, e) for k, e in p.items() if e))
      m, c, at = square_roots(m, c1 * c2, at)
      r = padd(r, {m: (c, at)})
  return r


def square_roots(m, c, at):
  return m, c, at


INV = z3.Function("fn_inverse", Real, Real)


def pinv(a):
  if len(a) == 1:
    (m, (c, at)), = a.items()
    return {tuple(sorted((k, -e) for k, e in m)): (1 / c, at)}
  if not a:
    return atom(INV(z3.RealVal(0)))
  lead = a[min(a)][0]      # 1/(2x+2y) = 1/2 * 1/(x+y)
  t = term(pscale(a, 1 / lead))
  k = t.sexpr()
  return {((k, -1),): (1 / lead, {k: t})}


def term(p):
  if not p:
    return z3.RealVal(0)
  out = []
  for m in sorted(p):
    c, at = p[m]
    num, den = [], []
    for k, e in m:
      (num if e > 0 else den).extend([at[k]] * abs(e))
    r = z3.RealVal(f"{c.numerator}/{c.denominator}")
    if num:
      x = num[0]
      for y in num[1:]:
        x = x * y
      r = x if c == 1 else r * x
    for y in den:
      r = r / y
    out.append(r)
  r = out[0]
  for y in out[1:]:
    r = r + y
  return r


def arg_canon(t):
  return term(poly(t))


def key_of(t):
  if t.sort() == Real:
    t = arg_canon(t)
  else:
    t = rebuild(t) if t.sort() != Int else z3.simplify(t, som=True)
  return t.sexpr()


# --------------------------------------------------------------------- reductions


def digest(s):
  return hashlib.sha256(s.encode()).hexdigest()[:16]


_DEPTH = [0]
LEGEND = {}


def bound_vars(n):
  return tuple(z3.Int(f"bv!{_DEPTH[0]}!{i}") for i in range(n))


def mentions(t, names):
  todo, seen = [t], set()
  while todo:
    x = todo.pop()
    if x.get_id() in seen:
      continue
    seen.add(x.get_id())
    if z3.is_const(x) and x.decl().name() in names:
      return True
    todo += x.children()
  return False


def total(extents, body):
  """Sum over all bound indices of body(bound), as a term (linear over monomials)."""
  ones = [z3.IntVal(0) if is_one(e) else None for e in extents]
  _DEPTH[0] += 1
  try:
    bv = bound_vars(len(extents))
    b = rv(body(*[o if o is not None else v for o, v in zip(ones, bv)]))
    p = poly(b)
  finally:
    _DEPTH[0] -= 1
  names = {v.decl().name() for v, o in zip(bv, ones) if o is None}
  if not names:
    return b
  out = z3.RealVal(0)
  groups = {}
  for m, (c, at) in p.items():
    dep = tuple((k, e) for k, e in m if mentions(at[k], names))
    ind = tuple((k, e) for k, e in m if not mentions(at[k], names))
    groups.setdefault(dep, []).append((ind, c, at))
  for dep, rest in groups.items():
    coef = term(padd_all([{ind: (c, at)} for ind, c, at in rest]))
    at = rest[0][2]
    used = [v for v, o in zip(bv, ones) if o is None and any(mentions(at[k], {v.decl().name()}) for k, _ in dep)]
    pick_ = kronecker(dep, at, used, {v.decl().name(): e for v, e in zip(bv, extents)})
    if pick_ is not None:
      v, t, rest_t = pick_
      left = [(w, o, e) for w, o, e in zip(bv, ones, extents) if not w.eq(v)]
      b2 = z3.substitute(rest_t, (v, t))
      if left:
        def again(*new):
          return z3.substitute(b2, *[(w, n) for (w, o, e), n in zip(left, new)])
        out = out + coef * total([e for _, _, e in left], again)
      else:
        out = out + coef * b2
      continue
    free = z3.RealVal(1)
    for v, o, e in zip(bv, ones, extents):
      if o is None and not any(v.eq(u) for u in used):
        free = free * rv(zint(e))
    if used:
      # a sum over one index range of a product of atoms; canonical up to the names of the bound variables
      body_t = term({dep: (fractions.Fraction(1), at)})
      ex = [extents[[k for k, w in enumerate(bv) if w.eq(u)][0]] for u in used]
      free = free * sum_symbol("sum", used, ex, body_t)
    out = out + coef * free
  return arg_canon(out)


def kronecker(dep, at, used, extents):
  """A factor [v == t] of a summand picks the term at t."""
  for k, _ in dep:
    a = at[k]
    if not (z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE and z3.is_eq(a.arg(0)) and z3.is_rational_value(a.arg(1)) and
            z3.is_rational_value(a.arg(2)) and a.arg(1).as_fraction() == 1 and a.arg(2).as_fraction() == 0):
      continue
    for v, t in ((a.arg(0).arg(0), a.arg(0).arg(1)), (a.arg(0).arg(1), a.arg(0).arg(0))):
      if any(v.eq(u) for u in used) and not mentions(t, {v.decl().name()}):
        e = zint(extents[v.decl().name()])
        if ctx().entails(z3.And(t >= 0, t < e)):
          return v, t, term({tuple(x for x in dep if x[0] != k): (fractions.Fraction(1), at)})
  return None


def padd_all(ps):
  r = {}
  for p in ps:
    r = padd(r, p)
  return r


def index_consts(t, skip=()):
  """The index variables free in a term (bound variables of enclosing sums, indices of elements)."""
  todo, seen, out = [t], set(), {}
  while todo:
    x = todo.pop()
    if x.get_id() in seen:
      continue
    seen.add(x.get_id())
    if z3.is_const(x) and x.sort() == Int:
      n = x.decl().name()
      if n.startswith(("bv!", "ix!", "index")) and not any(x.eq(u) for u in skip):
        out[n] = x
    todo += x.children()
  return [out[n] for n in sorted(out)]


def sum_symbol(op, used, ex, body_t):
  """Sums and maxima are uninterpreted functions of the free indices, named by their canonical body."""
  best = None
  import itertools
  free = index_consts(body_t, used)
  fs = [(f, z3.Int(f"free!{i}")) for i, f in enumerate(free)]
  for perm in itertools.permutations(range(len(used))):
    s = z3.substitute(body_t, *[(used[p], z3.Int(f"sum!{i}")) for i, p in enumerate(perm)], *fs)
    k = ",".join(dim_key(ex[p]) for p in perm) + ":" + s.sexpr()
    if best is None or k < best:
      best = k
  nm = f"{op}{len(used)}[{digest(best)}]"
  LEGEND[nm] = best
  marks = [m for _, m in fs]
  mine = [z3.Int(f"bv!{digest(best)}!{i}") for i in range(len(used))]
  body0 = z3.substitute(body_t, *zip(used, mine), *fs)
  def twin(args):
    b2 = stop_term(body0)
    if marks:
      b2 = z3.substitute(b2, *zip(marks, args))
    return sum_symbol(op, mine, ex, arg_canon(b2))
  TWINS.setdefault("red_" + nm, twin)
  if not free:
    return z3.Const("red_" + nm, Real)
  return z3.Function("red_" + nm, *[Int] * len(free), Real)(*free)


def extremum(op, extents, body):
  ones = [z3.IntVal(0) if is_one(e) else None for e in extents]
  _DEPTH[0] += 1
  try:
    bv = bound_vars(len(extents))
    b = arg_canon(rv(body(*[o if o is not None else v for o, v in zip(ones, bv)])))
  finally:
    _DEPTH[0] -= 1
  used = [v for v, o in zip(bv, ones) if o is None and mentions(b, {v.decl().name()})]
  if not used:
    return b
  return sum_symbol(op, used, [extents[[k for k, w in enumerate(bv) if w.eq(u)][0]] for u in used], b)


def norm_axes(axis, rank):
  if axis is None:
    return tuple(range(rank))
  ct = C.concrete_tuple(axis) if isinstance(axis, (tuple, list, C.EList, C.SSeq)) else (axis,)
  if ct is None:
    raise Unsupported("symbolic reduction axes")
  out = []
  for a in ct:
    v = int_val(a)
    if v is None:
      raise Unsupported("symbolic reduction axis")
    if not -rank <= v < rank:
      raise ValueError("axis out of bounds")
    out.append(v % rank)
  if len(set(out)) != len(out):
    raise ValueError("duplicate axis")
  return tuple(sorted(out))


def reduce_(x, axis, keepdims, f, kind="r"):
  x = lift(x)
  r = len(x.shp)
  ax = norm_axes(axis, r)
  shape = tuple(1 if i in ax else d for i, d in enumerate(x.shp)) if keepdims else tuple(
      d for i, d in enumerate(x.shp) if i not in ax)
  ext = [x.shp[i] for i in ax]
  def at(*idx):
    if keepdims:
      out = {i: idx[i] for i in range(r) if i not in ax}
    else:
      out = dict(zip([i for i in range(r) if i not in ax], idx))
    def body(*b):
      full = dict(out)
      full.update(zip(ax, b))
      return x.at(*[full[i] for i in range(r)])
    return f(ext, body)
  return Arr(shape, at, kind, x.dt)


def sum_(x, axis=None, keepdims=False, dtype=None):
  return reduce_(x, axis, keepdims, total)


def count(ext):
  n = z3.RealVal(1)
  for e in ext:
    n = n * rv(zint(e))
  return n


def mean(x, axis=None, keepdims=False, dtype=None):
  return reduce_(x, axis, keepdims, lambda e, b: total(e, b) / count(e))


def max_(x, axis=None, keepdims=False):
  return reduce_(x, axis, keepdims, lambda e, b: extremum("max", e, b))


def min_(x, axis=None, keepdims=False):
  return -max_(-lift(x), axis, keepdims)


def var(x, axis=None, keepdims=False):
  x = lift(x)
  m = mean(x, axis, True)
  return mean((x - m) * (x - m), axis, keepdims)


def std(x, axis=None, keepdims=False):
  return sqrt(var(x, axis, keepdims))


def softmax(x, axis=-1):
  x = lift(x)
  e = unary("exp")(x)
  return e / sum_(e, axis, True)


def square(x):
  return lift(x) * lift(x)


def contract_(spec_a, spec_b, spec_out, a, b):
  """einsum of two operands."""
  a, b = lift(a), lift(b)
  dims = {}
  for s, x in ((spec_a, a), (spec_b, b)):
    if len(s) != len(x.shp):
      raise ValueError("einsum rank mismatch")
    for ch, d in zip(s, x.shp):
      if ch in dims:
        if not dim_eq(dims[ch], d):
          raise TypeError("dimension mismatch in a contraction")
      else:
        dims[ch] = d
  bound = sorted(set(spec_a + spec_b) - set(spec_out))
  def at(*idx):
    out = dict(zip(spec_out, idx))
    def body(*bs):
      e = dict(out)
      e.update(zip(bound, bs))
      return rv(a.at(*[e[ch] for ch in spec_a])) * rv(b.at(*[e[ch] for ch in spec_b]))
    return total([dims[ch] for ch in bound], body)
  return Arr([dims[ch] for ch in spec_out], at, "r", result_dtype((a, b), "r"))


LET = "abcdefghijklmnopqrstuvwxyz"


def dot(a, b, precision=None):
  a, b = lift(a), lift(b)
  if not a.shp or not b.shp:
    return a * b
  ra, rb = len(a.shp), len(b.shp)
  sa = LET[:ra]
  k = sa[-1]
  sb = LET[ra:ra + rb - 1]
  sb = sb[:-1] + k + sb[-1:] if rb >= 2 else k
  return contract_(sa, sb, sa[:-1] + sb.replace(k, ""), a, b)


def matmul(a, b, precision=None):
  a, b = lift(a), lift(b)
  if len(a.shp) <= 2 and len(b.shp) <= 2 or len(b.shp) <= 2:
    return dot(a, b)
  if len(a.shp) == len(b.shp):
    n = len(a.shp) - 2
    return contract_(LET[:n] + "xy", LET[:n] + "yz", LET[:n] + "xz", a, b)
  raise Unsupported("matmul of batched operands")


def einsum(spec, *ops, precision=None):
  spec = spec.replace(" ", "")
  ins, _, out = spec.partition("->")
  ins = ins.split(",")
  if len(ins) != len(ops):
    raise ValueError("einsum operands")
  ops = [lift(o) for o in ops]
  if "..." in spec:
    n = max(len(o.shp) - len(i.replace("...", "")) for i, o in zip(ins, ops) if "..." in i)
    ell = "".join(ch for ch in "ZYXWVUTS"[:n])
    if any(len(o.shp) - len(i.replace("...", "")) != n for i, o in zip(ins, ops) if "..." in i):
      raise Unsupported("einsum with broadcast batch dimensions")
    ins = [i.replace("...", ell) for i in ins]
    out = out.replace("...", ell)
  if len(ops) == 1:
    one = const(1.0)
    return contract_(ins[0], "", out, ops[0], one)
  if len(ops) == 2:
    return contract_(ins[0], ins[1], out, *ops)
  raise Unsupported("einsum of more than two operands")


# ------------------------------------------------------------------------ indexing


def transpose(x, axes=None):
  x = lift(x)
  r = len(x.shp)
  ax = tuple(reversed(range(r))) if axes is None else tuple(int_val(a) % r for a in C.concrete_tuple(axes))
  def at(*idx):
    full = [None] * r
    for o, i in zip(ax, idx):
      full[o] = i
    return x.at(*full)
  return Arr([x.shp[a] for a in ax], at, x.kind, x.dt)


def swapaxes(x, a, b):
  r = len(lift(x).shp)
  p = list(range(r))
  p[a % r], p[b % r] = p[b % r], p[a % r]
  return transpose(x, tuple(p))


def moveaxis(x, s, d):
  r = len(lift(x).shp)
  p = [i for i in range(r) if i != s % r]
  p.insert(d % r, s % r)
  return transpose(x, tuple(p))


def expand_dims(x, axis):
  x = lift(x)
  axs = C.concrete_tuple(axis) if isinstance(axis, (tuple, list, C.EList)) else (axis,)
  r = len(x.shp) + len(axs)
  for a in axs:
    if not -r <= int_val(a) < r:
      raise ValueError("axis out of bounds")
  axs = sorted(int_val(a) % r for a in axs)
  shape = list(x.shp)
  for a in axs:
    shape.insert(a, 1)
  return Arr(shape, lambda *i: x.at(*[v for k, v in enumerate(i) if k not in axs]), x.kind, x.dt, x.src)


def squeeze(x, axis=None):
  x = lift(x)
  r = len(x.shp)
  if axis is None:
    raise Unsupported("squeeze of all axes")
  axs = norm_axes(axis, r)
  for a in axs:
    if not is_one(x.shp[a]) and (int_val(x.shp[a]) is not None or not ctx().branch(zint(x.shp[a]) == 1)):
      raise ValueError("cannot squeeze a dimension of size other than one")
  shape = [d for k, d in enumerate(x.shp) if k not in axs]
  def at(*i):
    it = iter(i)
    return x.at(*[z3.IntVal(0) if k in axs else next(it) for k in range(r)])
  return Arr(shape, at, x.kind, x.dt)


def getitem(x, k):
  ks = k if isinstance(k, tuple) else (k,)
  n = sum(1 for q in ks if q is not None and q is not Ellipsis)
  if any(isinstance(q, SLeaf) and not isinstance(q, Arr) for q in ks):
    raise Unsupported("indexing with an opaque array")
  r = len(x.shp)
  if n > r:
    raise IndexError("too many indices")
  if Ellipsis in [q for q in ks if q is Ellipsis]:
    p = [q is Ellipsis for q in ks].index(True)
    ks = ks[:p] + (slice(None),) * (r - n) + ks[p + 1:]
  else:
    ks = ks + (slice(None),) * (r - n)
  plan, shape, dim = [], [], 0
  arrs = [q for q in ks if isinstance(q, Arr)]
  if len(arrs) > 1:
    raise Unsupported("several index arrays")
  for q in ks:
    if q is None:
      shape.append(1)
      plan.append(("new",))
      continue
    d = x.shp[dim]
    if isinstance(q, Arr):
      if q.kind == "b":
        raise Unsupported("boolean mask")
      plan.append(("arr", q, d, len(q.shp)))
      shape.extend(q.shp)
    elif isinstance(q, slice):
      if q.step is not None and q.step != 1:
        if q.step == -1 and q.start is None and q.stop is None:
          plan.append(("rev", d))
          shape.append(d)
          dim += 1
          continue
        raise Unsupported("slice step")
      lo, hi = bound(q.start, d, 0), bound(q.stop, d, d)
      size = hi - lo if not (isinstance(hi, int) and isinstance(lo, int)) else max(hi - lo, 0)
      if isinstance(size, SInt) and not (isinstance(lo, int) and lo == 0 and q.stop is None):
        size = mk_int(z3.simplify(z3.If(zint(size) >= 0, zint(size), 0))) if not ctx().entails(zint(size) >= 0) else size
      plan.append(("slice", lo))
      shape.append(size)
    else:
      i = q
      iv = int_val(i) if isinstance(i, (int, SInt)) else None
      if not isinstance(i, (int, SInt)):
        raise Unsupported("index")
      dv = int_val(d)
      if iv is not None and dv is not None and not -dv <= iv < dv:
        raise IndexError("index out of bounds")
      if iv is not None and iv < 0:
        i = d + iv
      elif iv is None and ctx().branch(zint(i) < 0):
        i = d + i
      plan.append(("int", i))
    dim += 1
  def at(*idx):
    it = iter(idx)
    out = []
    for p in plan:
      if p[0] == "new":
        next(it)
      elif p[0] == "int":
        out.append(zint(p[1]))
      elif p[0] == "rev":
        out.append(zint(p[1]) - 1 - next(it))
      elif p[0] == "slice":
        i = next(it)
        out.append(i if p[1] == 0 and isinstance(p[1], int) else z3.simplify(i + zint(p[1])))
      else:
        t = p[1].at(*[next(it) for _ in range(p[3])])
        if t.sort() != Int:
          raise Unsupported("a real-valued index array")
        out.append(z3.If(t < 0, t + zint(p[2]), t))
    return x.at(*out)
  return Arr(shape, at, x.kind, x.dt)


def bound(v, d, default):
  """Python slice bound, clamped."""
  if v is None:
    return default
  iv, dv = int_val(v), int_val(d)
  if iv is not None and dv is not None:
    return max(0, min(dv, iv + dv if iv < 0 else iv))
  if iv == 0:
    return 0
  z, n = zint(v), zint(d)
  if iv is not None and iv < 0:
    z = n + iv
    return mk_int(z) if ctx().entails(z >= 0) else mk_int(z3.If(z < 0, 0, z))
  if ctx().entails(z3.And(z >= 0, z <= n)):
    return v
  return mk_int(z3.If(z < 0, z3.If(z + n < 0, 0, z + n), z3.If(z > n, n, z)))


def concatenate(xs, axis=0):
  ct = C.concrete_tuple(xs) if not isinstance(xs, (list, tuple)) else tuple(xs)
  if ct is None:
    raise Unsupported("concatenate of a symbolic number of arrays")
  ls = [lift(x) for x in ct]
  r = len(ls[0].shp)
  if any(len(l.shp) != r for l in ls):
    raise TypeError("concatenate: ranks differ")
  axis = norm_axes(axis, r)[0]
  for l in ls[1:]:
    for k in range(r):
      if k != axis and not dim_eq(ls[0].shp[k], l.shp[k]):
        raise TypeError("concatenate: shapes differ")
  size = ls[0].shp[axis]
  offs = [0]
  for l in ls[1:]:
    offs.append(size)
    size = size + l.shp[axis]
  kind = "r" if any(l.kind == "r" for l in ls) else ls[0].kind
  def at(*idx):
    i = idx[axis]
    r_ = None
    for l, o in reversed(list(zip(ls, offs))):
      j = list(idx)
      j[axis] = z3.simplify(i - zint(o))
      v = l.at(*j)
      v = rv(v) if kind == "r" else v
      r_ = v if r_ is None else z3.If(i < zint(o) + zint(l.shp[axis]), v, r_)
    return r_
  return Arr([size if k == axis else d for k, d in enumerate(ls[0].shp)], at, kind, result_dtype(ls, kind))


def stack(xs, axis=0):
  ct = tuple(xs) if isinstance(xs, (list, tuple)) else C.concrete_tuple(xs)
  return concatenate([expand_dims(x, axis) for x in ct], axis)


def split(x, indices_or_sections=None, axis=0, **k):
  x = lift(x)
  axis = norm_axes(axis, len(x.shp))[0]
  d = x.shp[axis]
  n = int_val(indices_or_sections) if isinstance(indices_or_sections, (int, SInt)) else None
  if n is None:
    ct = C.concrete_tuple(indices_or_sections) if not isinstance(indices_or_sections, (int, SInt)) else None
    if ct is None:
      raise Unsupported("split at symbolic positions")
    cuts = (0,) + tuple(ct) + (d,)
  else:
    dv = int_val(d)
    if dv is not None:
      if dv % n:
        raise ValueError("array split does not result in an equal division")
      size = dv // n
    else:
      size = exact_div(d, n)
      if size is None:
        if ctx().branch(zint(d) % n != 0):
          raise ValueError("array split does not result in an equal division")
        size = d // n
    cuts = tuple(size * j for j in range(n + 1))
  out = []
  for lo, hi in zip(cuts[:-1], cuts[1:]):
    ks = [slice(None)] * len(x.shp)
    def piece(lo=lo, hi=hi):
      def at(*idx):
        j = list(idx)
        j[axis] = z3.simplify(idx[axis] + zint(lo))
        return x.at(*j)
      size = hi - lo
      if isinstance(size, SInt):
        size = mk_int(z3.simplify(size.t, som=True))
      return Arr([size if k == axis else q for k, q in enumerate(x.shp)], at, x.kind, x.dt)
    out.append(piece())
  return C.EList(tuple(out))


def exact_div(d, n):
  """d/n for d of the form n*e, syntactically."""
  t = z3.simplify(zint(d))
  if z3.is_mul(t) and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() % n == 0:
    c = t.arg(0).as_long() // n
    rest = t.children()[1:]
    r = rest[0]
    for y in rest[1:]:
      r = r * y
    return mk_int(z3.simplify(r if c == 1 else c * r))
  return None


def shape_arg(s):
  if isinstance(s, (int, SInt)):
    return (s,)
  ct = C.concrete_tuple(s)
  if ct is None:
    raise Unsupported("symbolic rank")
  return ct


def broadcast_to(x, shape):
  x = lift(x)
  s = shape_arg(shape)
  if len(s) < len(x.shp):
    raise ValueError("cannot broadcast to fewer dimensions")
  k = len(s) - len(x.shp)
  one = []
  for a, d in zip(x.shp, s[k:]):
    if int_val(a) == 1 and int_val(d) != 1:
      one.append(True)
    elif known_eq(a, d):
      one.append(False)
    elif is_one(a):
      one.append(True)
    elif ctx().branch(zint(a) == zint(d)):
      one.append(False)
    elif ctx().branch(zint(a) == 1):
      one.append(True)
    else:
      raise ValueError("incompatible shapes for broadcasting")
  return Arr(s, lambda *i: x.at(*[z3.IntVal(0) if o else j for j, o in zip(i[k:], one)]), x.kind, x.dt)


def product(ds):
  r = 1
  for d in ds:
    r = r * d
  return r


def same_dims(a, b):
  return len(a) == len(b) and all(known_eq(x, y) for x, y in zip(a, b))


def reshape(x, shape, *more):
  x = lift(x)
  s = list(shape_arg(shape if not more else (shape,) + more))
  neg = [k for k, d in enumerate(s) if int_val(d) == -1]
  if len(neg) > 1:
    raise ValueError("can only specify one unknown dimension")
  size = product(x.shp)
  if neg:
    rest = product(d for k, d in enumerate(s) if k != neg[0])
    common = cancel(x.shp, [d for k, d in enumerate(s) if k != neg[0]])
    if common is not None:
      s[neg[0]] = common
    else:
      rv_ = int_val(rest)
      if rv_ == 0:
        raise TypeError("cannot divide evenly")
      s[neg[0]] = size // rest
      if ctx().branch(zint(size) % zint(rest) != 0):
        raise TypeError("cannot divide evenly")
  elif cancel(x.shp, s) != 1:
    if not ctx().branch(zint(size) == zint(product(s))):
      raise TypeError("cannot reshape: sizes differ")
  if same_dims(s, x.shp):
    return Arr(s, x.at, x.kind, x.dt, x.src)
  base = x.src if x.src is not None else x
  if same_dims(s, base.shp):
    return base
  # only unit dimensions come or go: plain re-indexing
  a = [k for k, d in enumerate(base.shp) if not is_one(d)]
  b = [k for k, d in enumerate(s) if not is_one(d)]
  if same_dims([base.shp[k] for k in a], [s[k] for k in b]):
    def at(*idx):
      full = [z3.IntVal(0)] * len(base.shp)
      for p, q in zip(a, b):
        full[p] = idx[q]
      return base.at(*full)
    return Arr(s, at, x.kind, x.dt, base)
  s = [representative(d) for d in s]
  ck = base.canon() + "->" + str([dim_key(d) for d in s])
  free = free_index_terms(base)
  nm = f"reshape{len(s)}[{digest(ck)}]"
  f = z3.Function(nm, *[Int] * len(s), {"r": Real, "i": Int, "b": Bool}[x.kind])
  def twin(args):
    k2 = stop_gradient(base).canon() + "->" + str([dim_key(d) for d in s])
    n2 = f"reshape{len(s)}[{digest(k2)}]"
    TWINS.setdefault(n2, lambda args: z3.Function(n2, *[Int] * len(s), Real)(*args))
    return z3.Function(n2, *[Int] * len(s), Real)(*args)
  if x.kind == "r":
    TWINS.setdefault(nm, twin)
  return Arr(s, lambda *i: f(*i), x.kind, x.dt, base)


def representative(d):
  """One name for dimensions known to be equal."""
  if int_val(d) is not None or z3.is_const(zint(d)):
    return d
  c = ctx()
  m = getattr(c, "dim_reps", None)
  if m is None:
    m = c.dim_reps = []
  t = z3.simplify(zint(d))
  for r in m:
    if r.eq(t):
      return mk_int(r)
  for r in m:
    if c.entails(r == t):
      return mk_int(r)
  m.append(t)
  return mk_int(t)


def free_index_terms(base):
  """An array whose elements mention a bound index of an enclosing sum cannot be reshaped by name."""
  e = base.at(*canonical_index(len(base.shp)))
  todo, seen = [e], set()
  while todo:
    q = todo.pop()
    if q.get_id() in seen:
      continue
    seen.add(q.get_id())
    if z3.is_const(q) and q.decl().name().startswith("bv!"):
      raise Unsupported("reshape inside a sum")
    todo += q.children()
  return None


def cancel(num, den):
  """prod(num)/prod(den) when the factors of den are factors of num; else None."""
  const_ = fractions.Fraction(1)
  left = []
  for d in num:
    c, fs = core.int_factors(z3.simplify(zint(d)))
    const_ *= c
    left += fs
  for d in den:
    c, fs = core.int_factors(z3.simplify(zint(d)))
    if c == 0:
      return None
    const_ /= c
    for f in fs:
      for k, e in enumerate(left):
        if e.eq(f):
          left.pop(k)
          break
      else:
        return None
  if const_.denominator != 1:
    return None
  if not left:
    return int(const_)
  r = left[0]
  for d in left[1:]:
    r = r * d
  return mk_int(r if const_ == 1 else int(const_) * r)


def keyed(name, args, shape, kind="r", dt=None, idx=True):
  """An uninterpreted but extensional array operation."""
  def k(a):
    if isinstance(a, Arr):
      return a.canon()
    if isinstance(a, (tuple, list)):
      return "(" + ",".join(k(y) for y in a) + ")"
    if isinstance(a, C.EList):
      ct = C.concrete_tuple(a)
      if ct is not None:
        return k(ct)
    if isinstance(a, dict):
      return "{" + ",".join(f"{q}:{k(a[q])}" for q in sorted(a)) + "}"
    if isinstance(a, (int, SInt)) and not isinstance(a, bool):
      return dim_key(a)
    if isinstance(a, (float, SReal)):
      return key_of(SReal.lift(a).t)
    if a is None or isinstance(a, (str, bool)):
      return repr(a)
    return encode(a).sexpr()
  for a in args:
    if isinstance(a, Arr):
      free_index_terms(a)
  key = name + k(tuple(args))
  s = tuple(shape)
  nm = f"op_{name}[{digest(key)}]"
  LEGEND[nm] = key
  sort = {"r": Real, "i": Int, "b": Bool}[kind]
  def twin(children):
    def stop(a):
      if isinstance(a, Arr):
        return stop_gradient(a)
      if isinstance(a, (tuple, list)):
        return tuple(stop(y) for y in a)
      if isinstance(a, C.EList):
        ct = C.concrete_tuple(a)
        return a if ct is None else tuple(stop(y) for y in ct)
      if isinstance(a, dict):
        return {q: stop(v) for q, v in a.items()}
      return a
    return keyed(name, [stop(a) for a in args], shape, kind, dt).at(*children)
  if kind == "r":
    TWINS.setdefault(nm, twin)
  if not s:
    return Arr((), lambda: z3.Const(nm, sort), kind, dt)
  f = z3.Function(nm, *[Int] * len(s), sort)
  return Arr(s, lambda *i: f(*i), kind, dt)


def astype(x, dt):
  x = lift(x)
  if x.kind == "b" and dt is not real_np.bool_ and dt is not bool:
    return ew(lambda a: a + z3.RealVal(0), x * const(1.0), kind="r") if False else Arr(
        x.shp, lambda *i: rv(x.at(*i)), "r", dt)
  if x.kind == "r" and isinstance(dt, type) and issubclass(dt, real_np.integer):
    raise Unsupported("conversion of reals to integers")
  if x.kind == "i" and isinstance(dt, type) and issubclass(dt, real_np.floating):
    return Arr(x.shp, lambda *i: rv(x.at(*i)), "r", dt)
  return Arr(x.shp, x.at, x.kind, dt, x.src)


def asarray(x, dtype=None):
  if isinstance(x, Arr):
    return x if dtype is None else astype(x, dtype)
  if isinstance(x, SLeaf):
    return x
  r = lift(x)
  return Arr(r.shp, r.at, r.kind, dtype)


def full(shape, v, dtype=None):
  s = shape_arg(shape)
  v = lift(v)
  return broadcast_to(Arr(v.shp, v.at, v.kind, dtype), s)


def clip(x, lo=None, hi=None):
  x = lift(x)
  if lo is not None:
    x = maximum(x, lo)
  if hi is not None:
    x = minimum(x, hi)
  return x


def maximum(a, b):
  return ew(lambda x, y: z3.If(x >= y, x, y), a, b)


def minimum(a, b):
  return ew(lambda x, y: z3.If(x <= y, x, y), a, b)


def _relu(a):
  zero = z3.RealVal(0) if a.sort() == Real else z3.IntVal(0)
  if z3.is_app_of(a, z3.Z3_OP_ITE) and a.arg(2).eq(zero) and a.arg(0).eq(a.arg(1) > 0):
    return a        # relu(relu(x)) = relu(x)
  return z3.If(a > 0, a, zero)


def relu(x):
  return ew(_relu, x)


def one_hot(x, n, dtype=None, axis=-1):
  x = lift(x)
  if axis != -1:
    raise Unsupported("one_hot(axis)")
  return Arr(x.shp + (n,), lambda *i: z3.If(x.at(*i[:-1]) == i[-1], z3.RealVal(1), z3.RealVal(0)), "r",
             real_np.float32 if dtype is None else dtype)


def arange(*a, dtype=None):
  if len(a) == 1:
    lo, hi = 0, a[0]
  elif len(a) == 2:
    lo, hi = a
  else:
    raise Unsupported("arange step")
  return Arr((hi - lo if lo != 0 else hi,), lambda i: i + zint(lo), "i", dtype)


def take(x, idx, axis=None, mode=None):
  if axis is None:
    raise Unsupported("take without axis")
  x = lift(x)
  a = norm_axes(axis, len(x.shp))[0]
  return getitem(x, (slice(None),) * a + (lift(idx),))


def stop_term(t):
  """The value t, as a function of stopped leaves: equal to t, but constant for derivatives.

  Two results that are equal as functions of the leaves and of the stopped leaves
  have the same value and the same derivatives."""
  memo = {}
  def go(t):
    k = t.get_id()
    if k not in memo:
      memo[k] = (one(t), t)
    return memo[k][0]
  def one(t):
    if not z3.is_app(t) or t.sort() != Real:
      return t                  # indices and conditions are locally constant
    n = t.decl().name()
    if n in LEAVES:
      d = t.decl()
      return z3.Function(n + "'", *[d.domain(i) for i in range(d.arity())], Real)(*t.children()) if d.arity() else z3.Const(n + "'", Real)
    if n in TWINS:
      return TWINS[n](t.children())
    if "[" in n:
      raise Unsupported("stop_gradient of " + n.partition("[")[0])
    ch = t.children()
    if not ch:
      return t
    new = [go(c) for c in ch]
    return t.decl()(*new) if any(not a.eq(b) for a, b in zip(ch, new)) else t
  return go(t)


def stop_gradient(x):
  x = lift(x)
  if x.kind != "r":
    return x
  return Arr(x.shp, lambda *i: stop_term(x.at(*i)), "r", x.dt)


def logical(f):
  def g(*xs):
    def one(*ts):
      return f(*[t if t.sort() == Bool else t != 0 for t in ts])
    return ew(one, *xs, kind="b")
  return g


def tri(n, m=None, k=0, dtype=None):
  m = n if m is None else m
  return Arr((n, m), lambda i, j: z3.If(j <= i + zint(k), z3.RealVal(1), z3.RealVal(0)), "r", dtype)


def tril(x, k=0):
  x = lift(x)
  return Arr(x.shp, lambda *i: z3.If(i[-1] <= i[-2] + zint(k), x.at(*i), z3.RealVal(0) if x.kind == "r" else z3.IntVal(0)), x.kind, x.dt)


def eye(n, m=None, k=0, dtype=None):
  m = n if m is None else m
  return Arr((n, m), lambda i, j: z3.If(j == i + zint(k), z3.RealVal(1), z3.RealVal(0)), "r", dtype)


def sign(x):
  return ew(lambda a: z3.If(a > 0, a - a + 1, z3.If(a < 0, a - a - 1, a - a)), x)


def diag(x, k=0):
  if len(x.shp) != 2 or k != 0:
    raise Unsupported("diag")
  return Arr((mk_int(z3.If(zint(x.shp[0]) <= zint(x.shp[1]), zint(x.shp[0]), zint(x.shp[1]))),), lambda i: x.at(i, i), x.kind, x.dt)


def qr(x, mode="reduced"):
  if len(x.shp) != 2 or mode != "reduced":
    raise Unsupported("qr")
  n, m = x.shp
  k = n if n is m else (m if ctx().entails(zint(n) >= zint(m)) else n if ctx().entails(zint(n) <= zint(m)) else
                                mk_int(z3.If(zint(n) <= zint(m), zint(n), zint(m))))
  return keyed("qr_q", (x,), (n, k), dt=x.dt), keyed("qr_r", (x,), (k, m), dt=x.dt)


def draw(dist, key, shape, dtype, *more):
  return keyed("random_" + dist, (key, shape) + more, shape, dt=dtype)


def random_normal(key, shape=(), dtype=None):
  return draw("normal", key, shape_arg(shape), dtype)


def random_truncated_normal(key, lower, upper, shape=None, dtype=None):
  if shape is None:
    raise Unsupported("truncated_normal without shape")
  return draw("truncated_normal", key, shape_arg(shape), dtype, lower, upper)


def unit_uniform(key, shape, dtype):
  """Draws in [0, 1)."""
  u = draw("uniform", key, shape, dtype)
  def at(*i):
    t = u.at(*i)
    ctx().fact(z3.And(t >= 0, t < 1), key=("unit", t.get_id()))
    return t
  return Arr(u.shp, at, "r", dtype)


def random_uniform(key, shape=(), dtype=None, minval=0.0, maxval=1.0):
  u = unit_uniform(key, shape_arg(shape), dtype)
  if not isinstance(minval, Arr) and minval == 0 and not isinstance(maxval, Arr) and maxval == 1:
    return u
  return lift(minval) + u * (lift(maxval) - lift(minval))


def random_bernoulli(key, p=0.5, shape=None):
  p = lift(p)
  s = p.shp if shape is None else shape_arg(shape)
  return unit_uniform(key, s, None) < p


def argreduce(name):
  def f(x, axis=None):
    x = lift(x)
    if axis is None:
      raise Unsupported(name + " without axis")
    a = norm_axes(axis, len(x.shp))[0]
    rest = tuple(d for k, d in enumerate(x.shp) if k != a)
    r = keyed(name, (x, a), rest, kind="i")
    def at(*i):
      t = r.at(*i)
      ctx().fact(z3.And(t >= 0, t < zint(x.shp[a])), key=("arg", t.get_id()))
      return t
    return Arr(rest, at, "i", real_np.int32)
  return f


def argmin(x, axis=None):
  return argreduce("argmax")(-lift(x), axis)


def cumsum(x, axis=None):
  x = lift(x)
  if axis is None:
    raise Unsupported("cumsum without axis")
  return keyed("cumsum", (x, norm_axes(axis, len(x.shp))[0]), x.shp, kind=x.kind, dt=x.dt)


def broadcast_to_rank(x, rank):
  x = lift(x)
  r = int_val(rank)
  if r is None:
    raise Unsupported("symbolic rank")
  return expand_dims(x, tuple(range(r - len(x.shp)))) if r > len(x.shp) else x


def collective(name):
  def f(x, axis_name=None, axis_index_groups=None):
    if isinstance(x, Arr):
      return keyed(name, (x, axis_name, axis_index_groups), x.shp, dt=x.dt)
    raise Unsupported(name)
  return f


def reduce_window(x, init, computation, window, strides, padding):
  """Uninterpreted in the window, but the same for the same arguments."""
  x = lift(x)
  n = getattr(computation, "name", None) or getattr(computation, "__name__", None)
  n = {"jax.lax.max": "max", "jax.lax.add": "add", "jax.lax.min": "min"}.get(n)
  if n is None:
    raise Unsupported("reduce_window with another computation")
  w, st = shape_arg(window), shape_arg(strides)
  if not isinstance(padding, str):
    padding = tuple(shape_arg(p) for p in C.concrete_tuple(padding))
  if len(w) != len(x.shp) or len(st) != len(x.shp):
    raise TypeError("reduce_window ranks differ")
  c = ctx()
  out = []
  for k, d in enumerate(x.shp):
    if int_val(w[k]) == 1 and int_val(st[k]) == 1 and isinstance(padding, str):
      out.append(d)
    else:
      e = SInt(z3.Const(f"window_dim[{dim_key(d)},{dim_key(w[k])},{dim_key(st[k])},{padding if isinstance(padding, str) else padding[k]}]", Int))
      c.assume(e.t >= 0)
      out.append(e)
  i = lift(init).at() if not isinstance(init, float) or abs(init) != float("inf") else None
  return keyed("reduce_window_" + n, (x, "inf" + str(init) if i is None else Arr((), lambda: i, "r"), w, st, padding), out, dt=x.dt)


def conv_dims(dn, rank):
  """lhs, rhs and out specs as dimension numbers: (batch, feature, ...), (out, in, ...), (batch, feature, ...)."""
  dn = C.concrete_tuple(dn) if not isinstance(dn, tuple) else dn
  if dn is None or len(dn) != 3:
    raise Unsupported("convolution dimension numbers")
  if not all(isinstance(x, str) for x in dn):
    out = tuple(tuple(int_val(k) for k in shape_arg(x)) for x in dn)
    if any(sorted(x) != list(range(rank)) for x in out):
      raise TypeError("convolution dimension numbers do not fit the operands")
    return out
  lhs, rhs, out = dn
  if any(len(x) != rank for x in dn):
    raise TypeError("convolution dimension numbers do not fit the operands")
  space = [k for k in rhs if k not in "OI"]
  return ((lhs.index("N"), lhs.index("C")) + tuple(lhs.index(k) for k in space),
          (rhs.index("O"), rhs.index("I")) + tuple(rhs.index(k) for k in space),
          (out.index("N"), out.index("C")) + tuple(out.index(k) for k in space))


def conv_padding(padding, n):
  if isinstance(padding, str):
    if padding.upper() not in ("SAME", "VALID"):
      raise Unsupported("padding " + padding)
    return padding.upper()
  ct = C.concrete_tuple(padding)
  if ct is None or len(ct) != n:
    raise Unsupported("convolution padding")
  return tuple(tuple(shape_arg(p)) for p in ct)


def convolution(name, lhs, rhs, strides, padding, ldil, rdil, dn, groups):
  """Uninterpreted in the window, but the same for the same operands and geometry."""
  lhs, rhs = lift(lhs), lift(rhs)
  rank = len(lhs.shp)
  if len(rhs.shp) != rank:
    raise TypeError("convolution operands of different rank")
  l, r, o = conv_dims(dn, rank)
  n = rank - 2
  geo = []
  for v in (strides, ldil, rdil):
    v = (1,) * n if v is None else shape_arg(v)
    if len(v) != n:
      raise TypeError("convolution geometry does not fit the operands")
    geo.append(v)
  strides, ldil, rdil = geo
  padding = conv_padding(padding, n)
  if not known_eq(lhs.shp[l[1]], rhs.shp[r[1]] * groups):
    if ctx().branch(zint(lhs.shp[l[1]]) != zint(rhs.shp[r[1]] * groups)):
      raise TypeError("convolution: input features do not fit the kernel")
  if int_val(groups) != 1 and not ctx().entails(zint(rhs.shp[r[0]]) % zint(groups) == 0):
    if ctx().branch(zint(rhs.shp[r[0]]) % zint(groups) != 0):
      raise ValueError("convolution: output features do not fit the groups")
  shape = [None] * rank
  shape[o[0]], shape[o[1]] = lhs.shp[l[0]], rhs.shp[r[0]]
  for k in range(n):
    d, w = lhs.shp[l[k + 2]], rhs.shp[r[k + 2]]
    simple = int_val(strides[k]) == 1 and int_val(ldil[k]) == 1
    if padding == "SAME" and simple and name == "conv":
      e = d
    else:
      key = (name, d, w, strides[k], ldil[k], rdil[k]) + ((padding,) if isinstance(padding, str) else padding[k])
      e = SInt(z3.Const("window_dim[" + ",".join(x if isinstance(x, str) else dim_key(x) for x in key) + "]", Int))
      ctx().assume(e.t >= 0)
    shape[o[k + 2]] = e
  perm = lambda x, s: transpose(x, s)
  out = keyed(name, (perm(lhs, l), perm(rhs, r), strides, padding, ldil, rdil, groups), [shape[k] for k in o], dt=lhs.dt)
  back = [o.index(k) for k in range(rank)]
  return transpose(out, tuple(back))


def conv_general_dilated(lhs, rhs, window_strides, padding, lhs_dilation=None, rhs_dilation=None, dimension_numbers=None,
                         feature_group_count=1, batch_group_count=1, precision=None, preferred_element_type=None):
  if dimension_numbers is None or int_val(batch_group_count) != 1:
    raise Unsupported("convolution with default dimension numbers or batch groups")
  return convolution("conv", lhs, rhs, window_strides, padding, lhs_dilation, rhs_dilation, dimension_numbers, feature_group_count)


def conv_transpose(lhs, rhs, strides, padding, rhs_dilation=None, dimension_numbers=None, transpose_kernel=False, precision=None,
                   preferred_element_type=None):
  if dimension_numbers is None or transpose_kernel:
    raise Unsupported("transposed convolution with default dimension numbers or a transposed kernel")
  return convolution("conv_transpose", lhs, rhs, strides, padding, None, rhs_dilation, dimension_numbers, 1)


METHODS = {
    "astype": astype, "reshape": lambda x, *s: reshape(x, s[0] if len(s) == 1 else s), "sum": sum_, "mean": mean,
    "max": max_, "min": min_, "var": var, "std": std, "transpose": lambda x, *a: transpose(x, a[0] if len(a) == 1 and not isinstance(a[0], int) else (a or None)),
    "copy": lambda x: x, "squeeze": squeeze, "swapaxes": swapaxes, "dot": dot, "flatten": lambda x: reshape(x, (-1,)),
    "ravel": lambda x: reshape(x, (-1,)), "clip": clip, "block_until_ready": lambda x: x,
}

OPS = {}
for _m in ("jax.numpy", "numpy"):
  for _n, _f in dict(
      add=lambda a, b: lift(a) + b, subtract=lambda a, b: lift(a) - b, multiply=lambda a, b: lift(a) * b,
      divide=lambda a, b: lift(a) / b, true_divide=lambda a, b: lift(a) / b, negative=lambda a: -lift(a),
      square=square, sqrt=sqrt, power=power, exp=unary("exp"), log=unary("log"), tanh=unary("tanh"), sin=unary("sin"),
      cos=unary("cos"), abs=lambda x: abs(lift(x)), absolute=lambda x: abs(lift(x)), sum=sum_, mean=mean, var=var, std=std,
      max=max_, amax=max_, min=min_, amin=min_, dot=dot, matmul=matmul, einsum=einsum, transpose=transpose,
      swapaxes=swapaxes, moveaxis=moveaxis, expand_dims=expand_dims, squeeze=squeeze, concatenate=concatenate,
      stack=stack, split=split, broadcast_to=broadcast_to, reshape=reshape, where=select, maximum=maximum,
      minimum=minimum, clip=clip, asarray=asarray, array=asarray, arange=arange, take=take, full=full, tril=tril,
      ones_like=lambda x, dtype=None: full(x.shape, 1.0, dtype or x.dt), zeros_like=lambda x, dtype=None: full(x.shape, 0.0, dtype or x.dt),
      full_like=lambda x, v, dtype=None: full(x.shape, v, dtype or x.dt),
      logical_and=logical(z3.And), logical_or=logical(z3.Or), logical_not=logical(z3.Not),
      less=lambda a, b: lift(a) < b, less_equal=lambda a, b: lift(a) <= b, greater=lambda a, b: lift(a) > b,
      greater_equal=lambda a, b: lift(a) >= b, equal=lambda a, b: lift(a) == b, not_equal=lambda a, b: lift(a) != b,
      ravel=lambda x: reshape(x, (-1,)), reciprocal=lambda x: 1.0 / lift(x), eye=eye, sign=sign, diag=diag,
      argmax=argreduce("argmax"), argmin=argmin, cumsum=cumsum,
  ).items():
    OPS[f"{_m}.{_n}"] = _f
for _n, _f in dict(
    rsqrt=rsqrt, sqrt=sqrt, exp=unary("exp"), log=unary("log"), tanh=unary("tanh"), select=select,
    convert_element_type=astype, stop_gradient=stop_gradient, add=lambda a, b: lift(a) + b, sub=lambda a, b: lift(a) - b,
    mul=lambda a, b: lift(a) * b, div=lambda a, b: lift(a) / b, pow=power, max=maximum, min=minimum, neg=lambda a: -lift(a),
    square=square, reciprocal=lambda x: 1.0 / lift(x), abs=lambda x: abs(lift(x)), transpose=transpose,
    reshape=reshape, dot=dot, integer_pow=power, broadcast_to_rank=broadcast_to_rank, pmean=collective("pmean"),
    psum=collective("psum"), reduce_window=reduce_window,
    conv_general_dilated=conv_general_dilated, conv_transpose=conv_transpose,
).items():
  OPS["jax.lax." + _n] = _f
for _n, _f in dict(relu=relu, softmax=softmax, sigmoid=unary("sigmoid"), tanh=unary("tanh"), one_hot=one_hot,
                   softplus=unary("softplus"), elu=unary("elu"), gelu=unary("gelu"), silu=unary("silu"), swish=unary("silu")).items():
  OPS["jax.nn." + _n] = _f


OPS["jax.numpy.linalg.qr"] = qr
OPS["jax.device_put"] = lambda x, *a: x
for _n, _f in dict(normal=random_normal, truncated_normal=random_truncated_normal, uniform=random_uniform,
                   bernoulli=random_bernoulli).items():
  OPS["jax.random." + _n] = _f

SCALARS = {"jax.lax.convert_element_type", "jax.lax.rsqrt", "jax.lax.sqrt", "jax.numpy.power", "jax.numpy.exp", "jax.numpy.log",
           "jax.numpy.full", "jax.numpy.arange", "jax.numpy.eye", "numpy.asarray", "numpy.array", "jax.numpy.asarray", "jax.numpy.array"}


def has_arr(args, kw):
  def one(a, depth=2):
    if isinstance(a, Arr):
      return True
    if depth and isinstance(a, (tuple, list)):
      return any(one(b, depth - 1) for b in a)
    if depth and isinstance(a, C.EList):
      ct = C.concrete_tuple(a)
      return ct is not None and any(one(b, depth - 1) for b in ct)
    return False
  return any(one(a) for a in args) or any(one(v) for v in kw.values())


def dispatch(name, args, kw):
  """The interpreted operation, or None."""
  f = OPS.get(name)
  if f is not None and name.startswith("jax.random."):
    return f
  if f is None or not (has_arr(args, kw) or name in SCALARS and any(isinstance(a, (SReal, SInt, int, float)) for a in args)):
    return None
  return f


# --------------------------------------------------------------------- obligations


def op_counts(t):
  """How many distinct uninterpreted array symbols of each kind a term uses."""
  seen, todo, out = set(), [t], {}
  while todo:
    x = todo.pop()
    if x.get_id() in seen:
      continue
    seen.add(x.get_id())
    if z3.is_app(x):
      n = x.decl().name()
      if "[" in n or n.startswith("fn_") or n.startswith("op_"):
        out.setdefault(n.partition("[")[0], set()).add(x.sexpr() if "[" in n else n)
      todo += x.children()
  return {k: len(v) for k, v in out.items()}


def op_symbols(t):
  seen, todo, out = set(), [t], set()
  while todo:
    x = todo.pop()
    if x.get_id() in seen:
      continue
    seen.add(x.get_id())
    if z3.is_app(x):
      n = x.decl().name()
      if "[" in n or n.startswith("fn_") or n.startswith("op_"):
        out.add(n)
      todo += x.children()
  return out


def divisors(t):
  todo, seen, out = [t], set(), []
  while todo:
    x = todo.pop()
    if x.get_id() in seen:
      continue
    seen.add(x.get_id())
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_DIV:
      out.append(x.arg(1))
    todo += x.children()
  return out


def prove_shape(name, got, shape):
  from pyvc import spec as S
  g = got.shape if isinstance(got, Arr) else None
  if g is None:
    raise Unsupported(name + ": not an array expression")
  if len(g) != len(shape):
    return ctx().prove_false(name, f"rank {len(g)}, expected {len(shape)}")
  return S.prove(name, z3.And(*[zint(a) == zint(b) for a, b in zip(g, shape)]) if g else z3.BoolVal(True))


def prove_arr(name, got, want):
  """Same shape, same element at an arbitrary index."""
  from pyvc import spec as S
  c = ctx()
  if not isinstance(got, Arr):
    if isinstance(got, (int, float, SInt, SReal, real_np.ndarray)):
      got = lift(got)
    else:
      raise Unsupported(name + ": not an array expression")
  prove_shape(name + ": shape", got, want.shp)
  if len(got.shp) != len(want.shp):
    return
  idx = []
  for k, d in enumerate(want.shp):
    if is_one(d):
      idx.append(z3.IntVal(0))
    else:
      i = c.fresh("index", Int)
      c.assume(z3.And(i >= 0, i < zint(d)))
      idx.append(i)
  a, b = got.at(*idx), want.at(*idx)
  if a.sort() != b.sort():
    a, b = rv(a), rv(b)
  if a.sort() == Real:
    a, b = arg_canon(a), arg_canon(b)
  if a.eq(b):
    return S.prove(name, a == b)
  dens = divisors(a) + divisors(b)
  if dens:       # divisors are taken to be non-zero
    c.assume(z3.And(*[d != 0 for d in dens]))
  oa, ob = op_symbols(a), op_symbols(b)
  if op_counts(a) != op_counts(b) and not oa <= ob and ob and not c.entails(a == b):
    # another way to compute it may well be equal, by facts about operations that are uninterpreted here;
    # leaving operations out, or changing what is to stay as it was, is a difference
    raise Unsupported(name + ": computed with other array operations")
  return S.prove(name, a == b)
