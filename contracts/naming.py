"""C05: module names are canonical and unique."""
import z3

from contracts import harness as Hn
from pyvc import containers as C
from pyvc import core
from pyvc import rt
from pyvc import spec as S
from pyvc.core import SInt, SStr, Str, Bool, Int, ctx, mk_int
from pyvc.spec import contract

P = "C05"
IDENT = z3.Concat(z3.Union(z3.Range("a", "z"), z3.Range("A", "Z"), z3.Re("_")),
                  z3.Star(z3.Union(z3.Range("a", "z"), z3.Range("A", "Z"), z3.Range("0", "9"), z3.Re("_"))))
DIGITS = z3.Plus(z3.Range("0", "9"))
NUMBERED = z3.Concat(z3.Full(z3.ReSort(Str)), z3.Re("_"), DIGITS)


def cat(*ts):
  ts = [z3.StringVal(t) if isinstance(t, str) else t for t in ts]
  return z3.Concat(*ts) if len(ts) > 1 else ts[0]


def decomposition(h1, x, h2, y):
  """h1_x == h2_y with numerals x, y: the parts agree (lemma below)."""
  return z3.Implies(z3.And(cat(h1, "_", x) == cat(h2, "_", y), z3.InRe(x, DIGITS), z3.InRe(y, DIGITS)),
                    z3.And(h1 == h2, x == y))


def numeral(n, m):
  """str(n) of a natural number is a numeral, and injective (lemma below)."""
  return z3.And(z3.Implies(n >= 0, z3.InRe(z3.IntToStr(n), DIGITS)), z3.Implies(m >= 0, z3.InRe(z3.IntToStr(m), DIGITS)),
                z3.Implies(z3.And(n >= 0, m >= 0, z3.IntToStr(n) == z3.IntToStr(m)), n == m))


@contract(P, "lemma: a numbered name has one decomposition", [], budget=60)
def lemma(U):
  h1, h2, x, y = [S.sstr(k).t for k in ("h1", "h2", "x", "y")]
  S.prove("decomposition", decomposition(h1, x, h2, y))
  n, m = S.sint("n", 0).t, S.sint("m", 0).t
  S.prove("numerals are injective", z3.Implies(z3.IntToStr(n) == z3.IntToStr(m), n == m))
  a, b = S.sstr("a").t, S.sstr("b").t
  S.prove("appending a numeral makes a numbered name", z3.Implies(z3.InRe(x, DIGITS), z3.InRe(cat(a, "_", x), NUMBERED)))


class Scope:
  """An arbitrary naming scope: counters and used names with the invariant
     used(b) -> count(b) > 0   and   used(b_n) -> count(b) > n."""

  def __init__(self):
    c = ctx()
    self.has = c.fresh_fun("counters.has", Str, Bool)
    self.cnt = c.fresh_fun("counters.val", Str, Int)
    self.used0 = c.fresh_fun("used", Str, Bool)
    self.counters = C.EDict((C.LB(C.Base("counters", Str, self.has, lambda k: SInt(self.cnt(k)))),), "Counter")
    self.used = C.ESet((C.LB(C.Base("used", Str, self.used0, lambda k: True)),))

  def count0(self, b):
    return z3.If(self.has(b), self.cnt(b), 0)

  def inv(self, b, n):
    """Invariant of the scope as given, at base name b and number n."""
    return z3.And(self.count0(b) >= 0, z3.Implies(self.used0(b), self.count0(b) > 0),
                  z3.Implies(z3.And(n >= 0, self.used0(cat(b, "_", z3.IntToStr(n)))), self.count0(b) > n))


def enter(U, scope, where):
  """Frame whose innermost scope is `scope`; returns (frame, name prefix)."""
  base = U("base")
  frame = base.current_frame()
  if where == "top level":
    frame.counter_stack.pop()
    frame.used_names_stack.pop()
    frame.counter_stack.push(scope.counters)
    frame.used_names_stack.push(scope.used)
    return frame, ""
  parent = S.sstr("parent")
  m = Hn.FakeModule(parent)
  if where == "method":
    meth = S.sstr("method", nonempty=True)
    ctx().assume(z3.And(meth.t != "__call__", meth.t != "__init__"))
    prefix = cat(parent.t, "/~", meth.t, "/")
  else:
    meth = where
    prefix = cat(parent.t, {"__call__": "/", "__init__": "/~/"}[where])
  frame.module_stack.push(base.ModuleState(module=m, method_name=meth))
  frame.counter_stack.push(scope.counters)
  frame.used_names_stack.push(scope.used)
  m._submodules = C.ESet()
  return frame, prefix


def naming(where, numbered):
  def run(U):
    base, M = U("base"), U("module")
    c = ctx()
    sc = Scope()
    with base.new_context():
      if numbered:
        head, num = S.sstr("head").t, S.sstr("num").t
        name = SStr(cat(head, "_", num))
        c.assume(z3.InRe(num, DIGITS))
      else:
        name = S.sstr("name")
      c.assume(z3.InRe(name.t, IDENT))
      frame, prefix = enter(U, sc, where)
      full = cat(prefix, name.t) if not isinstance(prefix, str) else name.t
      if numbered:
        b = cat(prefix, head) if not isinstance(prefix, str) else head
        n = z3.StrToInt(num)
        want = cat(b, "_", z3.IntToStr(n))
        # (head, num) is the unique decomposition
        c.assume(z3.And(n >= 0))
      else:
        c.assume(z3.Not(z3.InRe(name.t, NUMBERED)))
        b = full
        n = sc.count0(b)
        want = z3.If(n == 0, b, cat(b, "_", z3.IntToStr(n)))
      c.assume(sc.inv(b, n))
      depth = [rt.len_(getattr(frame, s)) for s in ("module_stack", "counter_stack", "used_names_stack")]
      r = S.outcome(lambda: M.Module(name=name))
      for s, d in zip(("module_stack", "counter_stack", "used_names_stack"), depth):
        S.prove(f"{s} as before", S.eq(rt.len_(getattr(frame, s)), d))
      clash = sc.used0(want)
      if isinstance(r, S.Raised):
        S.prove("only a taken explicit name is rejected", z3.And(z3.BoolVal(numbered and isinstance(r.exc, ValueError)), clash))
        return
      q = S.zstr(r.module_name)
      S.prove("canonical name", q == want)
      S.prove("a name never handed out before", z3.Not(sc.used0(q)))
      S.prove("recorded as used", sc.used.mem_term(SStr(q)))
      other = S.sstr("other_name")
      S.prove("nothing else recorded", z3.Implies(other.t != q, sc.used.mem_term(other) == sc.used0(other.t)))
      cn = sc.counters[SStr(b)]
      S.prove("counter moves past the number", z3.And(core.zint(cn) > n, core.zint(cn) >= sc.count0(b)))
      if c.branch(other.t != b):
        co = sc.counters[other]
        S.prove("other counters unchanged", core.zint(co) == sc.count0(other.t))
  return run


WHERE = ["top level", "__call__", "__init__", "method"]
FN = ["haiku._src.module.unique_and_canonical_name", "haiku._src.module.Module.__init__",
      "haiku._src.module.ModuleMetaclass.__call__", "haiku._src.module.wrap_method", "haiku._src.base.Frame.module"]
for w in WHERE:
  for nb in (False, True):
    contract(P, f"name of a new module ({w}, {'numbered' if nb else 'unnumbered'})", FN, budget=150)(naming(w, nb))


def preserved(where, numbered, other):
  """The scope invariant the contracts above assume holds again afterwards."""
  def run(U):
    base, M = U("base"), U("module")
    c = ctx()
    sc = Scope()
    with base.new_context():
      if numbered:
        head, num = S.sstr("head").t, S.sstr("num").t
        name = SStr(cat(head, "_", num))
        c.assume(z3.InRe(num, DIGITS))
      else:
        name = S.sstr("name")
        c.assume(z3.Not(z3.InRe(name.t, NUMBERED)))
      c.assume(z3.InRe(name.t, IDENT))
      frame, prefix = enter(U, sc, where)
      pre = lambda t: cat(prefix, t) if not isinstance(prefix, str) else t
      b = pre(head) if numbered else pre(name.t)
      n = z3.StrToInt(num) if numbered else sc.count0(b)
      c.assume(sc.inv(b, n))
      b2 = S.sstr("any_base").t
      n2 = S.sint("any_number", 0).t
      c.assume(sc.inv(b2, n2))
      r = S.outcome(lambda: M.Module(name=name))
      if isinstance(r, S.Raised):
        return
      q = S.zstr(r.module_name)
      plain = other == "plain"
      name2 = b2 if plain else cat(b2, "_", z3.IntToStr(n2))
      if plain:
        c.assume(z3.Not(z3.InRe(b2, NUMBERED)))
      if c.branch(sc.used0(name2)):
        cn = core.zint(sc.counters[SStr(b2)])
        S.prove("old names stay below their counter", cn > (0 if plain else n2))
      else:
        k, k2 = z3.IntToStr(n), z3.IntToStr(n2)
        bare = not numbered and c.branch(n == 0)
        S.prove("canonical name", q == (b if bare else cat(b, "_", k)))
        c.assume(numeral(n, n2))
        if bare and plain:
          if c.branch(b == b2):
            S.prove("the new name is below its counter", core.zint(sc.counters[SStr(b2)]) > 0)
        elif bare:
          c.assume(z3.InRe(name2, NUMBERED))                 # lemma: appending a numeral
          S.prove("a bare name is not a numbered name", b != name2)
        elif plain:
          c.assume(z3.InRe(cat(b, "_", k), NUMBERED))        # lemma: appending a numeral
          S.prove("a numbered name is not a bare name", cat(b, "_", k) != name2)
        else:
          c.assume(decomposition(b, k, b2, k2))              # lemma
          if c.branch(z3.And(b == b2, k == k2)):
            S.prove("the new name is below its counter", core.zint(sc.counters[SStr(b2)]) > n2)
          else:
            S.prove("another name", z3.Not(cat(b, "_", k) == cat(b2, "_", k2)))
  return run


for nb in (False, True):
  for o in ("plain", "numbered"):
    contract(P, f"scope invariant preserved ({'numbered' if nb else 'unnumbered'} name, {o} names)", FN, budget=150)(
        preserved("top level", nb, o))


@contract(P, "invalid names are rejected", FN, budget=100)
def invalid(U):
  base, M = U("base"), U("module")
  c = ctx()
  with base.new_context():
    name = S.sstr("name")
    c.assume(z3.Not(z3.InRe(name.t, IDENT)))
    sc = Scope()
    frame, _ = enter(U, sc, S.pick("where", WHERE))
    r = S.outcome(lambda: M.Module(name=name))
    S.must_raise("not an identifier: rejected", r, ValueError)
    S.prove("nothing recorded", z3.BoolVal(len(sc.used.st) == 1 and len(sc.counters.st) == 1))


@contract(P, "constructor without super().__init__", FN, budget=60)
def no_super(U):
  base, M = U("base"), U("module")
  with base.new_context():
    class Bad(M.Module):
      def __init__(self):
        pass
    r = S.outcome(Bad)
    S.must_raise("rejected", r, ValueError)
    class Bad2(M.Module):
      def __init__(self):
        M.Module(name="early")
        super().__init__()
    r = S.outcome(Bad2)
    S.must_raise("submodule before super().__init__: rejected", r, ValueError)
    S.prove("no scope left open", S.eq(rt.len_(base.current_frame().module_stack), 0))
  r = S.outcome(lambda: M.Module(name="m"))
  S.must_raise("outside a transformation: rejected", r, ValueError)


@contract(P, "repeated calls of a method reuse its names", FN + ["haiku._src.module.run_interceptors"], budget=120)
def repeated(U):
  base, M = U("base"), U("module")
  c = ctx()
  name = S.sstr("name")
  c.assume(z3.InRe(name.t, IDENT))
  c.assume(z3.Not(z3.InRe(name.t, NUMBERED)))
  class Parent(M.Module):
    def __init__(self, name):
      super().__init__(name=name)
      self.early = M.Module(name="inner")
    def make(self):
      return M.Module(name="inner"), M.Module(name="inner"), M.Module(name="inner_7"), M.Module(name="inner")
    def __call__(self):
      return self.make()[0], M.Module(name="inner"), M.Module(name="inner")
  with base.new_context():
    a = Parent(name)
    b = Parent(name)
    for m, q in ((a, name.t), (b, cat(name.t, "_1"))):
      S.prove("instances of one class in one scope are numbered", S.zstr(m.module_name) == q)
      S.prove("in the constructor", S.zstr(m.early.module_name) == cat(q, "/~/inner"))
      for k in range(2):
        made = m.make()
        for x, s in zip(made, ("inner", "inner_1", "inner_7", "inner_8")):
          S.prove("in a method, each time it is called", S.zstr(x.module_name) == cat(q, "/~make/", s))
        called = m()
        S.prove("in a method called by another", S.zstr(called[0].module_name) == cat(q, "/~make/inner"))
        S.prove("in __call__", z3.And(S.zstr(called[1].module_name) == cat(q, "/inner"),
                                      S.zstr(called[2].module_name) == cat(q, "/inner_1")))


@contract(P, "a lifted transformation starts with the names of its caller", ["haiku._src.base.Frame.evolve",
                                                                          "haiku._src.data_structures.Stack.map",
                                                                          "haiku._src.data_structures.Stack.clone"], budget=60)
def evolve(U):
  base = U("base")
  c = ctx()
  sc = Scope()
  with base.new_context(), base.new_context():
    frame, _ = enter(U, sc, S.pick("where", ["top level", "method", "__init__"]))
    old = [list(frame.counter_stack), list(frame.used_names_stack)]
    modules = list(frame.module_stack)
    p, s, rng = C.EDict2(()), C.EDict2(()), object()
    new = frame.evolve(p, s, rng)
    S.prove("params, state and rng are the given ones", z3.BoolVal(
        new.params is p and new.state is s and new.rng_stack.peek() is rng and frame.rng_stack.peek() is None
        and frame.params is not p and frame.state is not s))
    S.prove("the same modules", z3.BoolVal([id(m) for m in new.module_stack] == [id(m) for m in modules]))
    counters, used = list(new.counter_stack), list(new.used_names_stack)
    if not S.prove("as many scopes", z3.BoolVal(len(counters) == len(old[0]) and len(used) == len(old[1]))):
      return
    q = S.sstr("any_name")
    def member(x):
      return x.mem_term(q) if isinstance(x, C.ESet) else z3.Or(*[q.t == S.zstr(y) for y in x])
    def count(x):
      return SInt(z3.If(x.mem_term(q), core.zint(rt.getitem(x, q)), 0)) if isinstance(x, C.EDict) and x.st else SInt(z3.IntVal(0))
    for a, b in zip(old[1], used):
      S.prove("a name is taken inside exactly when it is taken outside", member(a) == member(b))
    for a, b in zip(old[0], counters):
      S.prove("numbering goes on from where it was", S.eq(count(a), count(b)))


@contract(P, "the name of a module: given, or of the dataclass field, or of the class", [
    "haiku._src.module.Module.__init__", "haiku._src.module.valid_identifier"], budget=60)
def which_name(U):
  base, M = U("base"), U("module")
  name = S.pick("argument", [None, "given", ""])
  field = S.pick("field", ["absent", None, "field", "", "1x"])
  class MyLayer(M.Module):
    def __init__(self):
      if field != "absent":
        self.name = field
      M.Module.__init__(self, name) if name is not None else self.__post_init__()
  with base.new_context():
    r = S.outcome(MyLayer)
  want = name if name is not None else field if field not in ("absent", None) else "my_layer"
  if want in ("", "1x"):
    S.must_raise("not an identifier", r, ValueError)
  elif S.no_raise("accepted", r):
    S.prove("name", z3.BoolVal(r.name == want and r.module_name == want))
