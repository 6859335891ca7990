"""C06: variables belong to the module whose method is running; scopes are balanced."""
import z3

from contracts import harness as Hn
from contracts.naming import IDENT, NUMBERED, cat
from contracts.store import frame_unchanged
from pyvc import containers as C
from pyvc import core
from pyvc import rt
from pyvc import spec as S
from pyvc.containers import EDict2, ESet
from pyvc.core import SLeaf, SStr, Str, V, Bool, ctx
from pyvc.spec import contract

P = "C06"
FN = ["haiku._src.module.wrap_method", "haiku._src.base.Frame.module", "haiku._src.base.current_bundle_name",
      "haiku._src.module._module_method_call", "haiku._src.module.run_interceptors"]
STACKS = ("module_stack", "counter_stack", "used_names_stack")


def depths(frame):
  return [rt.len_(getattr(frame, s)) for s in STACKS]


def balanced(tag, frame, before):
  for s, d in zip(STACKS, before):
    S.prove(f"{tag}: {s} as before", S.eq(rt.len_(getattr(frame, s)), d))


def put(base, kind, name, v):
  if kind == "param":
    base.get_parameter(name, v.shape, init=lambda sh, dt: v)
  else:
    base.set_state(name, v)


def value(kind, v):
  return v if kind == "param" else v.current


def method_call(meth, kind):
  def run(U):
    base, M = U("base"), U("module")
    params, state = S.two_level("params"), EDict2(())
    store = params if kind == "param" else state
    q = S.sstr("module_name", nonempty=True)
    pn = S.sstr("name")
    v = S.sleaf("value")
    fails = S.fork("the method fails")
    x, y = S.sleaf("x"), S.sleaf("y")
    seen = []
    class Mod(M.Module):
      def go(self, a, *, k):
        seen.append((a, k, rt.len_(base.current_frame().module_stack)))
        put(base, kind, pn, v)
        if fails:
          raise S.UserError("method")
        return SLeaf(z3.Function("result", V, V, V)(a.t, k.t))
    setattr(Mod, meth, M.wrap_method(meth, Mod.go.__wrapped__))
    with base.HaikuContext(params, state, None):
      frame = base.current_frame()
      m = Mod(name="m")
      m.module_name = q
      outer, _ = Hn.bundle(U, frame)
      if _ is not None:
        _._submodules = ESet()
      before, d = store.st, depths(frame)
      ctx().assume(z3.Not(Hn.mem2(store, q, pn)))
      r = S.outcome(lambda: getattr(m, meth)(x, k=y))
      balanced("after the call", frame, d)
      S.prove("the method runs once, with its arguments",
              z3.And(z3.BoolVal(len(seen) == 1), S.same(seen[0][0], x), S.same(seen[0][1], y)))
      f, w = store.find2(q, pn)
      S.prove("the variable belongs to the module", z3.BoolVal(False) if not f else S.same(value(kind, w), v))
      frame_unchanged("the variable", store, before, q, pn)
      if fails:
        S.must_raise("failure propagates", r, S.UserError)
      elif S.no_raise("call", r):
        S.prove("the result is the method's", S.same(r, SLeaf(z3.Function("result", V, V, V)(x.t, y.t))))
        if _ is not None:
          S.prove("the caller knows its submodule", _._submodules.mem_term(q))
          o = S.sstr("other")
          S.prove("and nothing else", z3.Implies(o.t != q.t, z3.Not(_._submodules.mem_term(o))))
      # back in the caller's scope
      n2 = S.sstr("name2")
      v2 = S.sleaf("value2")
      c = ctx()
      if c.branch(Hn.mem2(store, outer, n2)):
        return
      before = store.st
      put(base, kind, n2, v2)
      f, w = store.find2(outer, n2)
      S.prove("afterwards variables belong to the caller again",
              z3.BoolVal(False) if not f else S.same(value(kind, w), v2))
      frame_unchanged("afterwards", store, before, outer, n2)
  return run


for meth in ("__call__", "any_method"):
  for kind in ("param", "state"):
    contract(P, f"{kind} created in {meth}", FN, budget=120)(method_call(meth, kind))


@contract(P, "every module on the call stack knows the modules that ran inside it", FN + [
    "haiku._src.module.ModuleMetaclass.__call__"], budget=120, note="bounded: 0-4 modules on the stack")
def callers(U):
  base, M = U("base"), U("module")
  n = S.pick("modules on the stack", [0, 1, 2, 3, 4])
  how = S.pick("entry", ["method", "constructor", "property", "setter", "deleter"])
  own = n and S.fork("called from itself too")
  q = S.sstr("module_name", nonempty=True)
  ran = []
  class Mod(M.Module):
    def __init__(self):
      super().__init__(name="m")
      if how == "constructor":
        self.module_name = q
    def go(self):
      ran.append(base.current_bundle_name())
    x = property(lambda self: ran.append(base.current_bundle_name()),
                 lambda self, v: ran.append(base.current_bundle_name()),
                 lambda self: ran.append(base.current_bundle_name()))
  with base.HaikuContext(EDict2(()), EDict2(()), None):
    frame = base.current_frame()
    m = Mod()
    m.module_name = q
    stack = [Hn.FakeModule(S.sstr(f"caller{i}")) for i in range(n)]
    for f in stack:
      f._submodules = ESet(())
    at = S.pick("place of the module itself", list(range(n + 1))) if own else None
    if own:
      stack.insert(at, m)
    for f in stack:
      frame.module_stack.push(base.ModuleState(module=f, method_name="__call__"))
      frame.counter_stack.push(C.EDict((), "Counter"))
      frame.used_names_stack.push(ESet(()))
    d = depths(frame)
    def run():
      if how == "constructor":
        return Mod()
      if how == "method":
        return m.go()
      if how == "property":
        return m.x
      if how == "setter":
        m.x = 1
      else:
        del m.x
    r = S.outcome(run)
    balanced("afterwards", frame, d)
    if not S.no_raise("call", r):
      return
    if how != "constructor":
      S.prove("it runs once, in the scope of the module", z3.BoolVal(False) if len(ran) != 1 else S.eq(ran[0], q))
    o = S.sstr("other")
    for i, f in enumerate(stack):
      if f is m:
        if how != "constructor":
          S.prove("a module is not its own submodule", z3.BoolVal(not C.elements_of(m._submodules)))
        continue
      S.prove("the caller knows the module", f._submodules.mem_term(q))
      S.prove("and nothing else", z3.Implies(o.t != q.t, z3.Not(f._submodules.mem_term(o))))


@contract(P, "variables created in the constructor", FN + ["haiku._src.module.ModuleMetaclass.__call__"], budget=120)
def constructor(U):
  base, M = U("base"), U("module")
  params, state = EDict2(()), EDict2(())
  name, pn, p2 = S.sstr("name"), S.sstr("p1"), S.sstr("p2")
  c = ctx()
  c.assume(z3.InRe(name.t, IDENT))
  c.assume(z3.Not(z3.InRe(name.t, NUMBERED)))
  v, v2 = S.sleaf("v"), S.sleaf("v2")
  fails = S.fork("the constructor fails")
  class Mod(M.Module):
    def __init__(self, name):
      super().__init__(name=name)
      base.get_parameter(pn, v.shape, init=lambda sh, dt: v)
      if fails:
        raise S.UserError("ctor")
  with base.HaikuContext(params, state, None):
    frame = base.current_frame()
    d = depths(frame)
    r = S.outcome(lambda: Mod(name))
    balanced("after the constructor", frame, d)
    if fails:
      S.must_raise("failure propagates", r, S.UserError)
    else:
      S.no_raise("constructor", r)
    f, w = params.find2(name, pn)
    S.prove("the parameter belongs to the new module", z3.BoolVal(False) if not f else S.same(w, v))
    frame_unchanged("the parameter", params, (), name, pn)
    before = params.st
    if c.branch(name.t == z3.StringVal("~")):
      return
    base.get_parameter(p2, v2.shape, init=lambda sh, dt: v2)
    f, w = params.find2("~", p2)
    S.prove("afterwards: top level", z3.BoolVal(False) if not f else S.same(w, v2))


@contract(P, "transparent methods use the scope of their caller", FN + ["haiku._src.module.transparent"], budget=120)
def transparent(U):
  base, M = U("base"), U("module")
  params, state = EDict2(()), EDict2(())
  q, pn = S.sstr("module_name", nonempty=True), S.sstr("name")
  v = S.sleaf("v")
  class Mod(M.Module):
    @M.transparent
    def go(self):
      base.get_parameter(pn, v.shape, init=lambda sh, dt: v)
      return M.Module(name="inner")
  with base.HaikuContext(params, state, None):
    frame = base.current_frame()
    m = Mod(name="m")
    m.module_name = q
    outer, fm = Hn.bundle(U, frame)
    if fm is not None:
      frame.counter_stack.push(C.EDict((), "Counter"))
      frame.used_names_stack.push(ESet(()))
      fm._submodules = ESet(())
    d = depths(frame)
    r = S.outcome(m.go)
    balanced("after the call", frame, d)
    if S.no_raise("call", r):
      f, w = params.find2(outer, pn)
      S.prove("the variable belongs to the caller", z3.BoolVal(False) if not f else S.same(w, v))
      frame_unchanged("the variable", params, (), outer, pn)
      want = z3.StringVal("inner") if fm is None else cat(S.zstr(outer), "/inner")
      S.prove("a new module belongs to the caller", S.zstr(r.module_name) == want)


def dicts(which):
  def run(U):
    base, M = U("base"), U("module")
    if which == "params":
      params, state = S.two_level("params"), EDict2(())
      store = params
    else:
      c = ctx()
      iv, cv = c.fresh_fun("initial", Str, Str, V), c.fresh_fun("current", Str, Str, V)
      state = S.two_level("state", lambda a, b: base.StatePair(SLeaf(iv(a, b)), SLeaf(cv(a, b))))
      params, store = EDict2(()), state
    q = S.sstr("module_name", nonempty=True)
    c = ctx()
    sub = c.fresh_fun("submodule", Str, Bool)
    before = store.st
    with base.HaikuContext(params, state, None):
      m = M.Module(name="m")
      m.module_name = q
      m._submodules = ESet((C.LB(C.Base("submodules", Str, sub, lambda k: True)),))
      r = S.outcome(m.params_dict if which == "params" else m.state_dict)
      if not S.no_raise("call", r):
        return
      S.prove("the store is only read", z3.BoolVal(store.st is before or len(store.st) == len(before)))
      k1, k2 = S.sstr("any_module"), S.sstr("any_name")
      inside = z3.And(C.EDict2(before).mem2(k1.t, k2.t),
                      z3.Or(k1.t == q.t, z3.PrefixOf(cat(q.t, "/"), k1.t), sub(k1.t)))
      routes = entries_of(r, k1.t, k2.t)
      S.prove("an entry module/name exactly for the variables of the module and its submodules",
              z3.Or(*[g for g, _ in routes]) == inside)
      for g, val in routes:
        if c.branch(g):
          w = C.EDict2(before).find2(k1, k2)[1]
          S.prove("its value is the current value", S.same(val(), w if which == "params" else w.current))
  return run


def entries_of(r, k1, k2):
  """The writes r[k1 + "/" + k2] = v performed by the loops that built r: [(condition, value)]."""
  out = []
  c = ctx()
  if not isinstance(r, C.EDict):
    raise core.Unsupported("result of params_dict")
  for binders, guards, facts, l in C.flat_entries(r.st):
    if not isinstance(l, C.LW):
      raise core.Unsupported("layer in params_dict")
    parts = C.flatten_concat(C.key_term(l.key))
    if len(parts) != 3 or core.str_val(SStr(parts[1])) != "/" or len(binders) != 2:
      raise core.Unsupported("keys of params_dict not of the form module/name")
    i, j = binders
    one = C.invert(parts[0], i, z3.And(*guards), k1)
    if one is None:
      raise core.Unsupported("keys of params_dict")
    p1 = [(i, one[0])]
    two = C.invert(z3.substitute(parts[2], *p1), j, z3.And(*[z3.substitute(g, *p1) for g in guards]), k2)
    if two is None:
      raise core.Unsupported("keys of params_dict")
    pr = [(i, one[0]), (j, two[0])]
    cond = z3.And(one[1], two[1], *[z3.substitute(g, *pr) for g in guards])
    out.append((cond, lambda l=l, pr=pr: C.subst(l.val, pr)))
  return out


for w in ("params", "state"):
  contract(P, f"{w}_dict", ["haiku._src.module.params_or_state_dict", f"haiku._src.module.Module.{w}_dict"],
           budget=120)(dicts(w))


# identifiers that do not end in a number
PLAIN = z3.Intersect(IDENT, z3.Complement(NUMBERED))


def plain_facts(t):
  return [z3.InRe(t, IDENT), z3.Not(z3.InRe(t, NUMBERED)), z3.Not(z3.Contains(t, z3.StringVal("/"))),
          z3.Not(z3.SuffixOf(z3.StringVal("\n"), t)), z3.Length(t) > 0,
          z3.SubString(t, 0, 1) != z3.StringVal("/"),
          z3.Not(z3.InRe(t, z3.Concat(NUMBERED, z3.Re("\n"))))]


@contract(P, "lemma: plain identifiers", [], budget=60)
def plain(U):
  t = S.sstr("t").t
  ctx().assume(z3.InRe(t, PLAIN))
  for k, f in enumerate(plain_facts(t)):
    S.prove(f"fact {k}", f)


def scope(levels, nested):
  def run(U):
    base, M = U("base"), U("module")
    params, state = EDict2(()), EDict2(())
    c = ctx()
    parts = [S.sstr(f"part{i}") for i in range(levels)]
    for p in parts:
      for f in plain_facts(p.t):        # lemma below
        c.assume(f)
    full = parts[0].t if levels == 1 else cat(parts[0].t, *[x for p in parts[1:] for x in ("/", p.t)])
    pn, v = S.sstr("name"), S.sleaf("v")
    fails = S.fork("the body fails")
    with base.HaikuContext(params, state, None):
      frame = base.current_frame()
      outer, fm = "~", None
      if nested:
        outer = S.sstr("module_name")
        fm = Hn.FakeModule(outer)
        frame.module_stack.push(base.ModuleState(module=fm, method_name="__call__"))
        frame.counter_stack.push(C.EDict((), "Counter"))
        frame.used_names_stack.push(ESet(()))
        fm._submodules = ESet(())
      q = full if fm is None else cat(S.zstr(outer), "/", full)
      d = depths(frame)
      sc = S.outcome(lambda: M.name_scope(SStr(full)))
      if not S.no_raise("name_scope", sc):
        return
      balanced("created, not entered", frame, d)
      inner = []
      def body():
        with sc:
          S.must_raise("not reentrant", S.outcome(sc.__enter__), ValueError)
          base.get_parameter(pn, v.shape, init=lambda sh, dt: v)
          inner.append(M.Module(name="inner"))
          if fails:
            raise S.UserError("body")
      r = S.outcome(body)
      balanced("after the scope", frame, d)
      S.must_raise("failure propagates", r, S.UserError) if fails else S.no_raise("body", r)
      f, w = params.find2(SStr(q), pn)
      S.prove("variables belong to the scope", z3.BoolVal(False) if not f else S.same(w, v))
      frame_unchanged("the variable", params, (), SStr(q), pn)
      S.prove("modules belong to the scope", S.zstr(inner[0].module_name) == cat(q, "/inner"))
      S.must_raise("single use", S.outcome(sc.__enter__), ValueError)
      balanced("after rejected reuse", frame, d)
      r = S.outcome(lambda: M.Module(name=parts[0]))
      if S.no_raise("a module of the same name", r):
        first = parts[0].t if fm is None else cat(S.zstr(outer), "/", parts[0].t)
        S.prove("a scope takes its name like a module", S.zstr(r.module_name) == cat(first, "_1"))
  return run


for lv, ne in ((1, False), (1, True), (2, False), (3, False)):
  contract(P, f"name_scope of {lv} level{'s' if lv > 1 else ''}{' inside a module' if ne else ''}",
           ["haiku._src.module.name_scope", "haiku._src.module.NameScope", "haiku._src.module.simulate_module_call"],
           budget=150, note="the number of levels is fixed; the names are arbitrary")(scope(lv, ne))
