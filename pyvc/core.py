"""Core of the verifier: path exploration, symbolic scalars, obligations.

The verified text is the source of /repo itself: pyvc.instrument re-parses it on
every run and routes the operations that can meet a symbolic value through this
engine.  Control flow is explored path by path (complete: every feasible branch
is taken), unbounded loops and collections are summarised with inductive
invariants found from templates and then *checked* (pyvc.loops), and every
postcondition is an obligation discharged by z3 (cvc5 on `unknown`).
"""
import itertools
import time

import z3

# ---------------------------------------------------------------- exceptions


class Control(BaseException):
  """Engine control flow; never caught by verified code."""


class Unsupported(Control):
  """The code left the subset the engine can decide."""


class PathAbort(Control):
  """The current path is infeasible (or assumption contradicted)."""


class Budget(Control):
  pass


class UserError(Exception):
  """An exception raised by an arbitrary user callback."""


# --------------------------------------------------------------------- sorts

V = z3.DeclareSort("V")        # opaque python values; term equality == identity
W = z3.DeclareSort("World")    # ghost effect trace of user callbacks
Int, Bool, Real, Str = z3.IntSort(), z3.BoolSort(), z3.RealSort(), z3.StringSort()


class Stats:
  def __init__(self):
    self.solver_s = 0.0
    self.queries = 0
    self.by = {"z3": 0, "cvc5": 0}


STATS = Stats()
USED_MODELS = set()      # dependency operations executed through a model


class Obligation:
  __slots__ = ("name", "status", "detail", "model", "path", "smt")

  def __init__(self, name, status, detail="", model=None, path=(), smt=""):
    self.name, self.status, self.detail = name, status, detail
    self.model, self.path, self.smt = model, path, smt


_CTX = None


def ctx():
  if _CTX is None:
    raise RuntimeError("no active verification context")
  return _CTX


def active():
  return _CTX is not None


class Ctx:
  """State of one execution path."""

  TIMEOUT_MS = 8000
  FEAS_MS = 1500

  def __init__(self, prefix, run):
    self.run = run                      # Run (collects obligations)
    self.prefix = list(prefix)
    self.pos = 0
    self.decisions = []
    self.alternatives = []
    self.solver = z3.Solver()
    self.solver.set("timeout", self.FEAS_MS)
    self.pc = []
    self.counters = {}
    self.trail = []                     # undo closures
    self.binders = []                   # generic loop indices in scope
    self.sub = 0                        # depth of sub-exploration
    self.world = z3.Const("world0", W)
    self.clock = 0
    self.aborted = False
    self.inputs = {}                    # name -> value, for counterexamples
    self.notes = []
    self.facts_seen = set()
    self.effect_frames = []
    self.assumed = []                   # positions of self.pc that are assumptions
    self.folds = {}
    self.simplified = {}
    self.inst = []                      # instantiations in progress (see containers.subst)

  def instantiate(self, t):
    for prs in reversed(self.inst):
      t = z3.substitute(t, *prs)
    return t

  # -- symbols

  def name(self, base):
    n = self.counters.get(base, 0)
    self.counters[base] = n + 1
    return f"{base}!{n}" if n else base

  def fresh(self, base, sort):
    """A fresh symbol; inside a generic iteration, a function of the indices."""
    nm = self.name(base)
    if self.binders:
      f = z3.Function(nm, *[b.sort() for b in self.binders], sort)
      return f(*self.binders)
    return z3.Const(nm, sort)

  def fresh_fun(self, base, *sorts):
    """A fresh uninterpreted function, also parameterised by the binders."""
    nm = self.name(base)
    if self.binders:
      f = z3.Function(nm, *[b.sort() for b in self.binders], *sorts)
      bs = list(self.binders)
      return lambda *a: f(*bs, *a)
    f = z3.Function(nm, *sorts)
    return lambda *a: f(*a)

  def tick(self):
    self.clock += 1
    return self.clock

  # -- solver

  def check_deadline(self):
    if time.time() > self.run.deadline:
      raise Budget("time budget exhausted")

  def _check(self, *extra):
    self.check_deadline()
    t = time.time()
    r = self.solver.check(*extra)
    STATS.solver_s += time.time() - t
    STATS.queries += 1
    return r

  def assume(self, cond, check=False):
    cond = to_bool(cond)
    if z3.is_true(cond):
      return
    if self.inst:
      cond = self.instantiate(cond)
    self.assumed.append(len(self.pc))
    self.pc.append(cond)
    self.solver.add(cond)
    if z3.is_false(z3.simplify(cond)):
      raise PathAbort()
    if check and self._check() == z3.unsat:
      raise PathAbort()

  def fact(self, cond, key=None):
    """Assume a (valid) axiom instance at most once per path."""
    if self.inst:
      cond = self.instantiate(cond)
      inst, self.inst = self.inst, []
      try:
        return self.fact(cond)
      finally:
        self.inst = inst
    k = key if key is not None else cond.get_id()
    if k in self.facts_seen:
      return
    self.facts_seen.add(k)
    self.trail.append(lambda: self.facts_seen.discard(k))
    self.assume(cond)

  def branch(self, cond):
    """Decides a symbolic condition, forking when both sides are feasible."""
    if isinstance(cond, bool):
      return cond
    if self.inst:
      cond = self.instantiate(cond)
    c = z3.simplify(cond)
    if z3.is_true(c):
      return True
    if z3.is_false(c):
      return False
    if self.aborted:
      raise PathAbort()
    if self.pos < len(self.prefix):
      d = self.prefix[self.pos]
      self.pos += 1
      self.decisions.append(d)
      val, forced = d
      self.pc.append(cond if val else z3.Not(cond))
      self.solver.add(self.pc[-1])
      return val
    known = self.known(c)
    rt = self._check(c) if known is None else (z3.sat if known else z3.unsat)
    rf = self._check(z3.Not(c)) if rt != z3.unsat and known is None else (z3.unsat if known else z3.sat)
    t_ok, f_ok = rt != z3.unsat, rf != z3.unsat
    if t_ok and f_ok:
      self.alternatives.append(self.decisions + [(False, False)])
      self.decisions.append((True, False))
      val = True
      self.run.npaths_guard(len(self.alternatives))
    elif t_ok:
      self.decisions.append((True, True))
      val = True
    else:
      self.decisions.append((False, True))
      val = False
    self.pos += 1
    self.prefix.append(self.decisions[-1])
    self.pc.append(cond if val else z3.Not(cond))
    self.solver.add(self.pc[-1])
    return val

  def known(self, c):
    """Value of a (simplified) condition that is literally part of the path condition."""
    neg = c.arg(0).get_id() if z3.is_not(c) else None
    cid = c.get_id()
    memo = self.simplified
    for p in self.pc:
      s = memo.get(p.get_id())
      if s is None:
        q = z3.simplify(p)
        s = memo[p.get_id()] = (q.get_id(), q.arg(0).get_id() if z3.is_not(q) else None, q, p)
      if s[0] == cid:
        return True
      if s[1] == cid or (neg is not None and s[0] == neg):
        return False
    return None

  def entails(self, cond):
    """True iff the path condition proves cond (quietly, no obligation)."""
    c = z3.simplify(self.instantiate(to_bool(cond)))
    if z3.is_true(c) or self.known(c):
      return True
    if z3.is_false(c):
      return self._check() == z3.unsat
    return self._check(z3.Not(c)) == z3.unsat

  # -- obligations

  def prove(self, name, cond):
    """Records and discharges an obligation."""
    cond = to_bool(cond)
    status, detail, model, smt = discharge(self, cond)
    self.run.record(Obligation(name, status, detail, model, tuple(self.decisions), smt))
    return status == "proved"

  def fail(self, name, why):
    """An obligation that is false on this (feasible) path."""
    return self.prove_false(name, why)

  def prove_false(self, name, why):
    status, detail, model, smt = discharge(self, z3.BoolVal(False))
    self.run.record(Obligation(name, status, (why + " " + detail).strip(), model,
                               tuple(self.decisions), smt))

  # -- undo

  def undo_to(self, mark):
    while len(self.trail) > mark:
      self.trail.pop()()


def discharge(c, cond):
  """Is `cond` valid under the path condition?  -> status, detail, model, smt."""
  s = z3.simplify(cond)
  if z3.is_true(s):
    STATS.by["z3"] += 1
    return "proved", "", None, ""
  c.check_deadline()
  sol = z3.Solver()
  sol.set("timeout", c.TIMEOUT_MS)
  sol.add(*c.pc)
  sol.add(z3.Not(cond))
  t = time.time()
  r = sol.check()
  STATS.solver_s += time.time() - t
  STATS.queries += 1
  if r == z3.unsat:
    STATS.by["z3"] += 1
    return "proved", "", None, ""
  if r == z3.sat:
    m = sol.model()
    return "refuted", "z3: sat", model_dict(c, m), sol.to_smt2()
  r2, dt = cvc5_check(sol)
  STATS.solver_s += dt
  STATS.queries += 1
  if r2 == "unsat":
    STATS.by["cvc5"] += 1
    return "proved", "", None, ""
  if r2 == "sat":
    return "refuted", "cvc5: sat", {}, sol.to_smt2()
  return "unknown", f"z3: unknown ({sol.reason_unknown()}), cvc5: {r2}", None, sol.to_smt2()


def cvc5_check(sol, tlimit=8000):
  t = time.time()
  try:
    import cvc5
    txt = sol.to_smt2()
    tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
    slv = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
    slv.setOption("tlimit-per", str(tlimit))
    slv.setOption("strings-exp", "true")
    slv.setLogic("ALL")
    p = cvc5.InputParser(slv)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
    sm = p.getSymbolManager()
    out = ""
    while True:
      cmd = p.nextCommand()
      if cmd.isNull():
        break
      out += cmd.invoke(slv, sm)
    o = out.strip().split()
    return (o[-1] if o else "none"), time.time() - t
  except Exception as e:  # parser differences etc.
    return f"error {type(e).__name__}", time.time() - t


def model_dict(c, m):
  out = {}
  for k, v in c.inputs.items():
    try:
      out[k] = describe(v, m)
    except Control:
      out[k] = "?"
    except Exception as e:
      out[k] = f"? {type(e).__name__}"
  return out


def describe(v, m):
  t = getattr(v, "t", None)
  if t is not None and z3.is_expr(t):
    r = m.eval(t, model_completion=True)
    if z3.is_int_value(r):
      return r.as_long()
    if z3.is_string_value(r):
      return r.as_string()
    if z3.is_true(r):
      return True
    if z3.is_false(r):
      return False
    return str(r)
  if hasattr(type(v), "vc_describe"):
    return v.vc_describe(m)
  if isinstance(v, (tuple, list)):
    return [describe(x, m) for x in v]
  return str(v)


class Run:
  """Explores all paths of one contract."""

  def __init__(self, name, budget_s=60.0, max_paths=4000):
    self.name = name
    self.deadline = time.time() + budget_s
    self.max_paths = max_paths
    self.obligations = []
    self.paths = 0
    self.feasible_paths = 0
    self.unsupported = []
    self.errors = []
    self.tb = []
    self.covers = set()

  def npaths_guard(self, n):
    if self.paths + n > self.max_paths:
      raise Budget("path budget exhausted")

  def record(self, ob):
    self.obligations.append(ob)

  def explore(self, fn):
    global _CTX
    work = [[]]
    while work:
      prefix = work.pop()
      if time.time() > self.deadline:
        self.unsupported.append("time budget exhausted")
        return
      if self.paths >= self.max_paths:
        self.unsupported.append("path budget exhausted")
        return
      c = Ctx(prefix, self)
      _CTX = c
      self.paths += 1
      try:
        fn(c)
        if c._check() != z3.unsat:
          self.feasible_paths += 1
      except PathAbort:
        pass
      except Unsupported as e:
        self.unsupported.append(str(e))
        self.tb.append(short_tb(e))
      except Budget as e:
        self.unsupported.append(str(e))
        c.aborted = True
        c.undo_to(0)
        return
      except Exception as e:  # python error in the harness or unmodelled raise
        import traceback
        h = hidden(e)
        if h is not None:
          self.unsupported.append(str(h))
          self.tb.append(short_tb(h))
        else:
          self.errors.append(f"{type(e).__name__}: {e}\n{traceback.format_exc(limit=-6)}")
      finally:
        c.aborted = True
        try:
          c.undo_to(0)
        finally:
          _CTX = None
      work.extend(c.alternatives)


def hidden(e):
  """The engine limitation behind an exception raised while it propagated."""
  seen = set()
  while e is not None and id(e) not in seen:
    seen.add(id(e))
    if isinstance(e, (Unsupported, Budget, PathAbort, RecursionError)):
      return e
    if isinstance(e, z3.Z3Exception) or isinstance(e, (AttributeError, NameError)) and own_error(e):
      return Unsupported(f"engine: {type(e).__name__}: {e}")
    e = e.__context__
  return None


OWN = __file__.rsplit("/", 1)[0] + "/"


def own_error(e):
  """Raised by the engine or a model rather than by the code under verification."""
  tb = e.__traceback__
  if tb is None:
    return False
  while tb.tb_next is not None:
    tb = tb.tb_next
  return tb.tb_frame.f_code.co_filename.startswith(OWN)


def short_tb(e):
  import traceback
  return "".join(traceback.format_exception(e)[-9:])


# ------------------------------------------------------------------- scalars


def is_sym(x):
  return isinstance(x, Sym)


class Sym:
  """Base of every symbolic value."""
  __slots__ = ()


def to_bool(x):
  if isinstance(x, bool):
    return z3.BoolVal(x)
  if isinstance(x, SBool):
    return x.t
  if z3.is_expr(x):
    return x
  import numpy as np
  if isinstance(x, np.bool_):
    return z3.BoolVal(bool(x))
  raise Unsupported(f"not a boolean: {type(x).__name__}")


class SBool(Sym):
  __slots__ = ("t",)
  __hash__ = None

  def __init__(self, t):
    self.t = t

  def __bool__(self):
    return ctx().branch(self.t)

  def __eq__(self, o):
    return SBool(self.t == to_bool(o))

  def __ne__(self, o):
    return SBool(self.t != to_bool(o))

  def __and__(self, o):
    return SBool(z3.And(self.t, to_bool(o)))
  __rand__ = __and__

  def __or__(self, o):
    return SBool(z3.Or(self.t, to_bool(o)))
  __ror__ = __or__

  def __invert__(self):
    return SBool(z3.Not(self.t))

  def __repr__(self):
    return "<sym bool>"

  def __int__(self):
    return SInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

  def as_int(self):
    return SInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

  def __add__(self, o):
    return self.as_int() + o
  __radd__ = __add__


def mk_bool(t):
  """A python bool when the term is already decided syntactically."""
  s = z3.simplify(t)
  if z3.is_true(s):
    return True
  if z3.is_false(s):
    return False
  return SBool(t)


def zint(x):
  if isinstance(x, bool):
    return z3.IntVal(int(x))
  if isinstance(x, int):
    return z3.IntVal(x)
  if isinstance(x, SInt):
    return x.t
  if isinstance(x, SBool):
    return x.as_int().t
  if hasattr(x, "__index__"):
    return z3.IntVal(x.__index__())
  return None


def int_val(x):
  """Concrete value of an int-like if syntactically known, else None."""
  if isinstance(x, bool) or isinstance(x, int):
    return int(x)
  if isinstance(x, SInt):
    s = z3.simplify(x.t)
    if z3.is_int_value(s):
      return s.as_long()
    return None
  return None


def mk_int(t):
  s = z3.simplify(t)
  if z3.is_int_value(s):
    return s.as_long()
  return SInt(s)


def int_factors(t):
  """(constant, [factors]) of a product."""
  if z3.is_int_value(t):
    return t.as_long(), []
  if z3.is_mul(t):
    c, fs = 1, []
    for x in t.children():
      d, gs = int_factors(x)
      c *= d
      fs += gs
    return c, fs
  return 1, [t]


def exact_quotient(a, b):
  """a/b when b's factors are syntactically among a's, else None."""
  ca, fa = int_factors(z3.simplify(a))
  cb, fb = int_factors(z3.simplify(b))
  if cb == 0 or ca % cb or (not fb and not fa):
    return None
  fa = list(fa)
  for y in fb:
    for k, x in enumerate(fa):
      if x.eq(y):
        fa.pop(k)
        break
    else:
      return None
  r = z3.IntVal(ca // cb)
  for k, x in enumerate(fa):
    r = x if k == 0 and ca == cb else r * x
  return r


def floordiv(a, b):
  """Python // on z3 ints (z3 div is euclidean)."""
  q = a / b
  return z3.If(b > 0, q, z3.If(a % b == 0, q, q - 1))


def pymod(a, b):
  return z3.If(b > 0, a % b, z3.If(a % b == 0, z3.IntVal(0), a % b + b))


class SInt(Sym):
  __slots__ = ("t",)
  __hash__ = None

  def __init__(self, t):
    self.t = t

  def _bin(self, o, f):
    if isinstance(o, (float, SReal)):
      return NotImplemented
    z = zint(o)
    if z is None:
      return NotImplemented
    return mk_int(f(self.t, z))

  def _rbin(self, o, f):
    if isinstance(o, (float, SReal)):
      return NotImplemented
    z = zint(o)
    if z is None:
      return NotImplemented
    return mk_int(f(z, self.t))

  def real(self):
    return SReal(z3.ToReal(self.t))

  def __add__(self, o):
    if isinstance(o, (float, SReal)):
      return self.real() + o
    return self._bin(o, lambda a, b: a + b)

  def __radd__(self, o):
    if isinstance(o, (float, SReal)):
      return o + self.real()
    return self._rbin(o, lambda a, b: a + b)

  def __sub__(self, o):
    if isinstance(o, (float, SReal)):
      return self.real() - o
    return self._bin(o, lambda a, b: a - b)

  def __rsub__(self, o):
    if isinstance(o, (float, SReal)):
      return SReal.lift(o) - self.real()
    return self._rbin(o, lambda a, b: a - b)

  def __mul__(self, o):
    if isinstance(o, (float, SReal)):
      return self.real() * o
    if isinstance(o, (tuple, list, str)) or hasattr(o, "vc_repeat"):
      from pyvc import containers
      return containers.repeat(o, self)
    return self._bin(o, lambda a, b: a * b)

  def __rmul__(self, o):
    return self.__mul__(o)

  def __floordiv__(self, o):
    z = zint(o)
    if z is None:
      return NotImplemented
    if ctx().branch(z == 0):
      raise ZeroDivisionError("integer division or modulo by zero")
    q = exact_quotient(self.t, z)
    return mk_int(floordiv(self.t, z) if q is None else q)

  def __rfloordiv__(self, o):
    z = zint(o)
    if z is None:
      return NotImplemented
    if ctx().branch(self.t == 0):
      raise ZeroDivisionError("integer division or modulo by zero")
    return mk_int(floordiv(z, self.t))

  def __mod__(self, o):
    z = zint(o)
    if z is None:
      return NotImplemented
    if ctx().branch(z == 0):
      raise ZeroDivisionError("integer division or modulo by zero")
    return mk_int(pymod(self.t, z) if exact_quotient(self.t, z) is None else z3.IntVal(0))

  def __rmod__(self, o):
    if isinstance(o, str):
      return NotImplemented
    z = zint(o)
    if z is None:
      return NotImplemented
    if ctx().branch(self.t == 0):
      raise ZeroDivisionError("integer division or modulo by zero")
    return mk_int(pymod(z, self.t))

  def __truediv__(self, o):
    return self.real() / o

  def __rtruediv__(self, o):
    return SReal.lift(o) / self.real()

  def __pow__(self, o):
    n = int_val(o)
    if n is not None and 0 <= n <= 8:
      r = 1
      for _ in range(n):
        r = self * r
      return r
    if isinstance(o, (float, SReal)):
      return self.real() ** o
    raise Unsupported("symbolic power")

  def __rpow__(self, o):
    return SReal.lift(o) ** self.real()

  def __neg__(self):
    return mk_int(-self.t)

  def __pos__(self):
    return self

  def __abs__(self):
    if ctx().entails(self.t >= 0):
      return self
    if ctx().entails(self.t <= 0):
      return mk_int(z3.simplify(-self.t))
    return mk_int(z3.If(self.t < 0, -self.t, self.t))

  def _cmp(self, o, f):
    if isinstance(o, (float, SReal)):
      return mk_bool(f(z3.ToReal(self.t), SReal.lift(o).t))
    z = zint(o)
    if z is None:
      return NotImplemented
    return mk_bool(f(self.t, z))

  def __lt__(self, o):
    return self._cmp(o, lambda a, b: a < b)

  def __le__(self, o):
    return self._cmp(o, lambda a, b: a <= b)

  def __gt__(self, o):
    return self._cmp(o, lambda a, b: a > b)

  def __ge__(self, o):
    return self._cmp(o, lambda a, b: a >= b)

  def __eq__(self, o):
    r = self._cmp(o, lambda a, b: a == b)
    return False if r is NotImplemented else r

  def __ne__(self, o):
    r = self._cmp(o, lambda a, b: a != b)
    return True if r is NotImplemented else r

  def __bool__(self):
    return ctx().branch(self.t != 0)

  def __index__(self):
    v = int_val(self)
    if v is None:
      raise Unsupported("symbolic int used as a machine index")
    return v

  def __int__(self):
    return self.__index__()

  def __repr__(self):
    return f"<int {self.t}>"
  __str__ = __repr__

  def __format__(self, spec):
    return repr(self)


class SReal(Sym):
  __slots__ = ("t",)
  __hash__ = None

  def astype(self, dtype):
    return self

  def __init__(self, t):
    self.t = t

  @staticmethod
  def lift(x):
    if isinstance(x, SReal):
      return x
    if isinstance(x, SInt):
      return x.real()
    if isinstance(x, bool):
      return SReal(z3.RealVal(int(x)))
    if isinstance(x, int):
      return SReal(z3.RealVal(x))
    if isinstance(x, float):
      from fractions import Fraction
      f = Fraction(repr(x)) if x == x and abs(x) != float("inf") else None
      if f is None:
        raise Unsupported("non-finite float")
      return SReal(z3.RealVal(f"{f.numerator}/{f.denominator}"))
    if hasattr(x, "item") and not isinstance(x, Sym):
      return SReal.lift(x.item())
    raise Unsupported(f"not a real: {type(x).__name__}")

  def _b(self, o, f):
    if isinstance(o, (SReal, SInt, int, float)):
      return SReal(f(self.t, SReal.lift(o).t))
    return NotImplemented

  def __add__(self, o):
    return self._b(o, lambda a, b: a + b)

  def __radd__(self, o):
    return self._b(o, lambda a, b: b + a)

  def __sub__(self, o):
    return self._b(o, lambda a, b: a - b)

  def __rsub__(self, o):
    return self._b(o, lambda a, b: b - a)

  def __mul__(self, o):
    return self._b(o, lambda a, b: a * b)

  def __rmul__(self, o):
    return self._b(o, lambda a, b: b * a)

  def __truediv__(self, o):
    if not isinstance(o, (SReal, SInt, int, float)):
      return NotImplemented
    z = SReal.lift(o)
    if ctx().branch(z.t == 0):
      raise ZeroDivisionError("division by zero")
    return SReal(self.t / z.t)

  def __rtruediv__(self, o):
    if not isinstance(o, (SReal, SInt, int, float)):
      return NotImplemented
    return SReal.lift(o) / self

  def __pow__(self, o):
    n = int_val(o) if not isinstance(o, float) else (int(o) if o == int(o) else None)
    if n is not None and 0 <= n <= 8:
      r = SReal(z3.RealVal(1))
      for _ in range(n):
        r = r * self
      return r
    return SReal(POW(self.t, SReal.lift(o).t))

  def __rpow__(self, o):
    return SReal(POW(SReal.lift(o).t, self.t))

  def __neg__(self):
    return SReal(-self.t)

  def __abs__(self):
    return SReal(z3.If(self.t < 0, -self.t, self.t))

  def _c(self, o, f):
    if not isinstance(o, (SReal, SInt, int, float)):
      return NotImplemented
    return mk_bool(f(self.t, SReal.lift(o).t))

  def __lt__(self, o):
    return self._c(o, lambda a, b: a < b)

  def __le__(self, o):
    return self._c(o, lambda a, b: a <= b)

  def __gt__(self, o):
    return self._c(o, lambda a, b: a > b)

  def __ge__(self, o):
    return self._c(o, lambda a, b: a >= b)

  def __eq__(self, o):
    r = self._c(o, lambda a, b: a == b)
    return False if r is NotImplemented else r

  def __ne__(self, o):
    r = self._c(o, lambda a, b: a != b)
    return True if r is NotImplemented else r

  def __bool__(self):
    return ctx().branch(self.t != 0)

  def __float__(self):
    raise Unsupported("float() of a symbolic real")

  def __repr__(self):
    return f"<real {self.t}>"

  def __format__(self, spec):
    return repr(self)


POW = z3.Function("pow", Real, Real, Real)
SQRT = z3.Function("sqrt", Real, Real)


def zstr(x):
  if isinstance(x, str):
    return z3.StringVal(x)
  if isinstance(x, SStr):
    return x.t
  return None


def str_val(x):
  if isinstance(x, str):
    return x
  if isinstance(x, SStr):
    s = z3.simplify(x.t)
    if z3.is_string_value(s):
      return s.as_string()
  return None


def mk_str(t):
  s = z3.simplify(t)
  if z3.is_string_value(s):
    return s.as_string()
  return SStr(t)


class SStr(Sym):
  """A string of unknown content (z3 String)."""
  __slots__ = ("t",)

  def __init__(self, t):
    self.t = t

  def __hash__(self):
    raise Unsupported("hash of a symbolic string (native dict/set key)")

  def __add__(self, o):
    z = zstr(o)
    return NotImplemented if z is None else mk_str(z3.Concat(self.t, z))

  def __radd__(self, o):
    z = zstr(o)
    return NotImplemented if z is None else mk_str(z3.Concat(z, self.t))

  def __eq__(self, o):
    z = zstr(o)
    return False if z is None else mk_bool(self.t == z)

  def __ne__(self, o):
    z = zstr(o)
    return True if z is None else mk_bool(self.t != z)

  def __len__(self):
    raise Unsupported("native len of symbolic string")

  def vc_len(self):
    return mk_int(z3.Length(self.t))

  def __bool__(self):
    return ctx().branch(z3.Length(self.t) != 0)

  def __contains__(self, o):
    return ctx().branch(z3.Contains(self.t, zstr(o)))

  def startswith(self, p):
    if isinstance(p, tuple):
      return mk_bool(z3.Or(*[z3.PrefixOf(zstr(q), self.t) for q in p]))
    return mk_bool(z3.PrefixOf(zstr(p), self.t))

  def endswith(self, p):
    return mk_bool(z3.SuffixOf(zstr(p), self.t))

  def __getitem__(self, k):
    n = z3.Length(self.t)
    if isinstance(k, slice):
      if k.step is not None and int_val(k.step) != 1:
        raise Unsupported("string slice step")
      lo = z3.IntVal(0) if k.start is None else zint(k.start)
      hi = n if k.stop is None else zint(k.stop)
      lo = z3.If(lo < 0, z3.If(n + lo < 0, z3.IntVal(0), n + lo), lo)
      hi = z3.If(hi < 0, n + hi, hi)
      hi = z3.If(hi > n, n, hi)
      ln = z3.If(hi > lo, hi - lo, z3.IntVal(0))
      return mk_str(z3.SubString(self.t, z3.simplify(lo), z3.simplify(ln)))
    i = zint(k)
    i = z3.If(i < 0, n + i, i)
    if ctx().branch(z3.Or(i < 0, i >= n)):
      raise IndexError("string index out of range")
    return mk_str(z3.SubString(self.t, z3.simplify(i), z3.IntVal(1)))

  def __getattr__(self, name):
    if name.startswith("__"):
      raise AttributeError(name)
    def meth(*a, **k):
      if name in ("split", "rsplit") and a and isinstance(a[0], str):
        return str_split(self, name, *a)
      f = z3.Function(f"str_{name}_{len(a)}", *([Str] + [V] * len(a)), Str)
      if name in ("upper", "lower", "strip", "lstrip", "rstrip", "title"):
        return SStr(f(self.t, *[encode(x) for x in a]))
      raise Unsupported(f"str.{name} on a symbolic string")
    return meth

  def __repr__(self):
    return f"<str {self.t}>"
  __str__ = __repr__

  def __format__(self, spec):
    return repr(self)


class StrParts(Sym):
  """Result of split: only [-1] / [0] / 2-unpacking of rsplit(sep, 1)."""
  __slots__ = ("s", "sep")

  def __init__(self, s, sep):
    self.s, self.sep = s, sep

  def __getitem__(self, i):
    c = ctx()
    if i == -1:
      last = z3.LastIndexOf(self.s.t, z3.StringVal(self.sep))
      # last component: no separator inside, and s == last or s endswith sep+last
      r = c.fresh("lastpart", Str)
      f = z3.Function("last_component_" + str(ord(self.sep[0])), Str, Str)
      r = f(self.s.t)
      c.assume(z3.Not(z3.Contains(r, z3.StringVal(self.sep))))
      c.assume(z3.Or(r == self.s.t, z3.SuffixOf(z3.Concat(z3.StringVal(self.sep), r), self.s.t)))
      c.assume(z3.Implies(z3.Not(z3.Contains(self.s.t, z3.StringVal(self.sep))), r == self.s.t))
      return mk_str(r)
    raise Unsupported("split()[...]")

  def __iter__(self):
    raise Unsupported("iteration over split()")


def str_split(s, name, sep, n=None):
  c = ctx()
  if name == "rsplit" and int_val(n) == 1:
    if c.branch(z3.Contains(s.t, z3.StringVal(sep))):
      last = StrParts(s, sep)[-1]
      head = SStr(z3.SubString(s.t, 0, z3.Length(s.t) - z3.Length(zstr(last)) - len(sep)))
      return (head, last)
    return (s,)
  if n is None and name in ("split", "rsplit") and sep is not None:
    parts = known_parts(s, sep)
    if parts is not None:
      from pyvc.containers import EList
      return EList(tuple(parts))
  return StrParts(s, sep)


def known_parts(s, sep):
  """s.split(sep) when s is a concatenation of literals and separator-free terms."""
  from pyvc.containers import flatten_concat
  c = ctx()
  out = [[]]
  for t in flatten_concat(z3.simplify(s.t)):
    v = str_val(SStr(t))
    if v is not None:
      ps = v.split(sep)
      out[-1].append(z3.StringVal(ps[0]))
      out += [[z3.StringVal(p)] for p in ps[1:]]
    elif len(sep) == 1 and c.entails(z3.Not(z3.Contains(t, z3.StringVal(sep)))):
      out[-1].append(t)
    else:
      return None
  return [mk_str(z3.simplify(z3.Concat(*p)) if len(p) > 1 else p[0]) for p in out]


# -------------------------------------------------------------------- leaves

VI = z3.Function("v_int", Int, V)
VB = z3.Function("v_bool", Bool, V)
VS = z3.Function("v_str", Str, V)
VR = z3.Function("v_real", Real, V)
VNONE = z3.Const("v_none", V)
VNIL = z3.Const("v_nil", V)
VCONS = z3.Function("v_cons", V, V, V)
VSEQ = z3.Function("v_seq", z3.ArraySort(Int, V), Int, V)


def encode(x):
  """A term of sort V standing for any python value (for uninterpreted calls)."""
  if x is None:
    return VNONE
  e = getattr(type(x), "vc_encode", None)
  if e is not None:
    return e(x)
  if isinstance(x, bool):
    return VB(z3.BoolVal(x))
  if isinstance(x, SBool):
    return VB(x.t)
  if isinstance(x, (int, SInt)):
    return VI(zint(x))
  if isinstance(x, (float, SReal)):
    return VR(SReal.lift(x).t)
  if isinstance(x, (str, SStr)):
    return VS(zstr(x))
  if isinstance(x, SLeaf):
    return x.t
  if isinstance(x, tuple):
    r = VNIL
    for e in reversed(x):
      r = VCONS(encode(e), r)
    return r
  if isinstance(x, slice):
    return z3.Function("v_slice", V, V, V, V)(encode(x.start), encode(x.stop), encode(x.step))
  return const_for(x)


_CONSTS = {}


def const_for(x):
  """A constant per concrete python object (functions, classes, ...)."""
  k = id(x)
  if k not in _CONSTS:
    nm = getattr(x, "__name__", type(x).__name__)
    _CONSTS[k] = (z3.Const(f"obj_{nm}_{len(_CONSTS)}", V), x)
  return _CONSTS[k][0]


class SLeaf(Sym):
  """An opaque value (array, user object).  Identity is the term."""
  __slots__ = ("t", "attrs")

  def __init__(self, t, attrs=None):
    self.t = t
    self.attrs = attrs or {}

  def vc_encode(self):
    return self.t

  def __hash__(self):
    raise Unsupported("hash of a symbolic value")

  def __eq__(self, o):
    # `==` between opaque values: identity implies equality, otherwise unknown.
    if o is None:
      return False
    e = encode(o)
    if self.t.eq(e):
      return True
    f = z3.Function("py_eq", V, V, Bool)
    ctx().fact(f(self.t, self.t))
    ctx().assume(z3.Implies(self.t == e, f(self.t, e)))
    return SBool(f(self.t, e))

  def __ne__(self, o):
    r = self.__eq__(o)
    return (not r) if isinstance(r, bool) else SBool(z3.Not(r.t))

  def __getattr__(self, name):
    if name.startswith("__"):
      raise AttributeError(name)
    a = object.__getattribute__(self, "attrs")
    if name in a:
      v = a[name]
      return v(self) if callable(v) and getattr(v, "vc_lazy", False) else v
    from pyvc import containers
    if name == "shape":
      return containers.shape_of(self)
    if name == "ndim":
      return containers.shape_of(self).vc_len()
    if name == "dtype":
      return SLeaf(z3.Function("dtype_of", V, V)(self.t))
    if name == "size":
      return SInt(z3.Function("size_of", V, Int)(self.t))
    if name == "itemsize":
      return SInt(z3.Function("itemsize_of", V, Int)(self.t))
    if name in ("astype", "reshape", "copy", "sum", "mean"):
      return lambda *a: SLeaf(z3.Function(f"m_{name}_{len(a)}", *[V] * (len(a) + 1), V)(
          self.t, *[encode(x) for x in a]))
    raise Unsupported(f"attribute {name!r} of an opaque value")

  def __bool__(self):
    raise Unsupported("truth value of an opaque value")

  def _op(self, name, *a):
    return SLeaf(z3.Function("op_" + name, *[V] * (len(a) + 1), V)(self.t, *[encode(x) for x in a]))

  def __add__(self, o):
    return self._op("add", o)

  def __radd__(self, o):
    return SLeaf(z3.Function("op_add", V, V, V)(encode(o), self.t))

  def __sub__(self, o):
    return self._op("sub", o)

  def __rsub__(self, o):
    return SLeaf(z3.Function("op_sub", V, V, V)(encode(o), self.t))

  def __mul__(self, o):
    return self._op("mul", o)

  def __rmul__(self, o):
    return SLeaf(z3.Function("op_mul", V, V, V)(encode(o), self.t))

  def __truediv__(self, o):
    return self._op("div", o)

  def __rtruediv__(self, o):
    return SLeaf(z3.Function("op_div", V, V, V)(encode(o), self.t))

  def __getitem__(self, k):
    h = self.attrs.get("getitem")
    if h is not None:
      return h(k)
    return self._op("getitem", k)

  def __repr__(self):
    return f"<leaf {self.t}>"
  __str__ = __repr__

  def __format__(self, spec):
    return repr(self)
