"""Mechanical instrumentation of the real source.

Every run re-parses /repo's files.  The AST is rewritten so that operations that
can meet a symbolic value go through pyvc.rt (`_E`); nothing else is changed:
  * annotations are dropped;
  * `for` over a symbolic iterable runs the same body through the loop rule;
  * comprehensions, displays, subscripts, `is`, `in`, `%`, f-strings, str methods,
    attribute stores and star-arguments call the runtime, which behaves like
    CPython when every operand is concrete;
  * a bare `except:` becomes `except Exception:`.
"""
import ast
import copy
import os
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")

STR_METHODS = {"join", "format", "startswith", "endswith", "replace", "split", "rsplit",
               "count", "strip", "lstrip", "rstrip", "find", "index", "lower", "upper"}


def E(name):
  return ast.Attribute(ast.Name("_E", ast.Load()), name, ast.Load())


def call(name, *args):
  return ast.Call(E(name), list(args), [])


def const(v):
  return ast.Constant(v)


def load(name):
  return ast.Name(name, ast.Load())


class Scope(ast.NodeVisitor):
  """Names assigned in a statement list (not descending into functions)."""

  def __init__(self):
    self.names = set()
    self.globals = set()
    self.nonlocals = set()
    self.has_yield = False

  def visit_FunctionDef(self, n):
    self.names.add(n.name)
  visit_AsyncFunctionDef = visit_FunctionDef

  def visit_ClassDef(self, n):
    self.names.add(n.name)

  def visit_Lambda(self, n):
    pass

  def _comp(self, n):
    pass
  visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

  def visit_Name(self, n):
    if isinstance(n.ctx, (ast.Store, ast.Del)):
      self.names.add(n.id)

  def visit_ExceptHandler(self, n):
    if n.name:
      self.names.add(n.name)
    self.generic_visit(n)

  def visit_Import(self, n):
    for a in n.names:
      self.names.add((a.asname or a.name).split(".")[0])
  visit_ImportFrom = visit_Import

  def visit_Global(self, n):
    self.globals.update(n.names)

  def visit_Nonlocal(self, n):
    self.nonlocals.update(n.names)

  def visit_Yield(self, n):
    self.has_yield = True
    self.generic_visit(n)
  visit_YieldFrom = visit_Yield


def scan(stmts):
  s = Scope()
  for x in stmts:
    s.visit(x)
  return s


class LoopExits(ast.NodeTransformer):
  """break/continue/return of a loop body turned closure."""

  def __init__(self):
    self.depth = 0

  def visit_FunctionDef(self, n):
    return n
  visit_AsyncFunctionDef = visit_ClassDef = visit_Lambda = visit_FunctionDef

  def visit_For(self, n):
    self.depth += 1
    n.body = [self.visit(s) for s in n.body]
    self.depth -= 1
    n.orelse = [self.visit(s) for s in n.orelse]
    return n

  def visit_While(self, n):
    return self.visit_For(n)

  def visit_Break(self, n):
    if self.depth:
      return n
    return ast.Return(E("BREAK"))

  def visit_Continue(self, n):
    if self.depth:
      return n
    return ast.Return(const(None))

  def visit_Return(self, n):
    return ast.Return(ast.Tuple([const("return"), n.value or const(None)], ast.Load()))


def loads(stmts):
  """How often each name is read."""
  d = {}
  for s in stmts:
    for x in ast.walk(s):
      if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store):
        d[x.id] = d.get(x.id, 0) + 1
      elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
        d[x.target.id] = d.get(x.target.id, 0) + 1
  return d


class Tx(ast.NodeTransformer):

  def __init__(self):
    self.k = 0
    self.cls = []
    self.fn = []          # stack of dict(globals=set, gen=bool)

  def tmp(self, base="t"):
    self.k += 1
    return f"_vc_{base}{self.k}"

  def mangle(self, name):
    if self.cls and name.startswith("__") and not name.endswith("__"):
      return "_" + self.cls[-1].lstrip("_") + name
    return name

  # ------------------------------------------------------------ definitions
  def visit_Module(self, n):
    n.body = self.block(n.body)
    return n

  def block(self, stmts):
    out = []
    for s in stmts:
      r = self.visit(s)
      if r is None:
        continue
      if isinstance(r, list):
        out += r
      else:
        out.append(r)
    return out or [ast.Pass()]

  def visit_FunctionDef(self, n):
    n.returns = None
    n.decorator_list = [self.visit(d) for d in n.decorator_list]
    a = n.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
      x.annotation = None
    a.defaults = [self.visit(d) for d in a.defaults]
    a.kw_defaults = [None if d is None else self.visit(d) for d in a.kw_defaults]
    sc = scan(n.body)
    self.fn.append({"globals": sc.globals, "gen": sc.has_yield, "loads": loads(n.body)})
    pre = []
    if (n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant)
        and isinstance(n.body[0].value.value, str)):
      pre = [n.body[0]]
      n.body = n.body[1:] or [ast.Pass()]
    body = self.block(n.body)
    if a.vararg:
      v = a.vararg.arg
      pre.append(ast.Assign([ast.Name(v, ast.Store())], call("vararg", load(v))))
    if a.kwarg:
      v = a.kwarg.arg
      pre.append(ast.Assign([ast.Name(v, ast.Store())], call("kwarg", load(v))))
    n.body = pre + body
    self.fn.pop()
    return n

  visit_AsyncFunctionDef = visit_FunctionDef

  def visit_Lambda(self, n):
    a = n.args
    a.defaults = [self.visit(d) for d in a.defaults]
    n.body = self.visit(n.body)
    if a.vararg or a.kwarg:
      # rebind through an inner lambda
      names = [x.arg for x in (a.vararg, a.kwarg) if x]
      inner = ast.Lambda(ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, []), n.body)
      conv = [call("vararg" if a.vararg and x == a.vararg.arg else "kwarg", load(x)) for x in names]
      n.body = ast.Call(inner, conv, [])
    return n

  def visit_ClassDef(self, n):
    n.bases = [self.visit(b) for b in n.bases]
    n.keywords = [ast.keyword(k.arg, self.visit(k.value)) for k in n.keywords]
    n.decorator_list = [self.visit(d) for d in n.decorator_list]
    self.cls.append(n.name)
    self.fn.append(None)
    body = []
    for s in n.body:
      if isinstance(s, ast.AnnAssign):
        s.annotation = load("object")
        if s.value is not None:
          s.value = self.visit(s.value)
        body.append(s)
      else:
        r = self.visit(s)
        if r is not None:
          body += r if isinstance(r, list) else [r]
    self.fn.pop()
    self.cls.pop()
    names = {ast.unparse(b) for b in n.bases}
    if not any("NamedTuple" in b or "Protocol" in b for b in names):
      body.append(ast.Assign([ast.Name("__vc_instrumented__", ast.Store())], const(True)))
      defs = {s.name for s in body if isinstance(s, ast.FunctionDef)}
      if "__len__" in defs and "__bool__" not in defs:      # truth of a symbolic length
        body.append(ast.Assign([ast.Name("__bool__", ast.Store())], E("bool_by_len")))
    n.body = body or [ast.Pass()]
    return n

  # --------------------------------------------------------------- statements
  def visit_AnnAssign(self, n):
    if n.value is None:
      return None
    return self.visit(ast.Assign([n.target], n.value))

  def store(self, target, value):
    """Statements assigning the expression `value` to `target`."""
    if isinstance(target, ast.Name):
      if self.fn and self.fn[-1] and target.id in self.fn[-1]["globals"]:
        return [ast.Expr(call("setglobal", ast.Call(load("globals"), [], []), const(target.id), value))]
      return [ast.Assign([ast.Name(target.id, ast.Store())], value)]
    if isinstance(target, ast.Attribute):
      return [ast.Expr(call("setattr_", self.visit(target.value), const(self.mangle(target.attr)), value))]
    if isinstance(target, ast.Subscript):
      return [ast.Expr(call("setitem", self.visit(target.value), self.index(target.slice), value))]
    if isinstance(target, (ast.Tuple, ast.List)):
      elts = target.elts
      star = next((i for i, e in enumerate(elts) if isinstance(e, ast.Starred)), -1)
      names = [self.tmp() for _ in elts]
      out = [ast.Assign([ast.Tuple([ast.Name(x, ast.Store()) for x in names], ast.Store())],
                        call("unpack", value, const(len(elts)), const(star)))]
      for e, x in zip(elts, names):
        out += self.store(e.value if isinstance(e, ast.Starred) else e, load(x))
      return out
    raise NotImplementedError(ast.dump(target))

  def visit_Assign(self, n):
    v = self.visit(n.value)
    if len(n.targets) == 1:
      return self.store(n.targets[0], v)
    t = self.tmp()
    out = [ast.Assign([ast.Name(t, ast.Store())], v)]
    for tg in n.targets:
      out += self.store(tg, load(t))
    return out

  def visit_AugAssign(self, n):
    op = type(n.op).__name__
    v = self.visit(n.value)
    t = n.target
    if isinstance(t, ast.Name):
      return self.store(t, call("iop", const(op), load(t.id), v))
    if isinstance(t, ast.Attribute):
      return ast.Expr(call("augattr", const(op), self.visit(t.value), const(self.mangle(t.attr)), v))
    return ast.Expr(call("augitem", const(op), self.visit(t.value), self.index(t.slice), v))

  def visit_Delete(self, n):
    out = []
    for t in n.targets:
      if isinstance(t, ast.Name):
        out.append(ast.Delete([t]))
      elif isinstance(t, ast.Attribute):
        out.append(ast.Expr(call("delattr_", self.visit(t.value), const(self.mangle(t.attr)))))
      else:
        out.append(ast.Expr(call("delitem", self.visit(t.value), self.index(t.slice))))
    return out

  def visit_Expr(self, n):
    if isinstance(n.value, ast.Constant):
      return n
    n.value = self.visit(n.value)
    return n

  def visit_If(self, n):
    n.test = self.visit(n.test)
    n.body = self.block(n.body)
    n.orelse = self.block(n.orelse) if n.orelse else []
    return n

  def visit_While(self, n):
    n.test = self.visit(n.test)
    n.body = self.block(n.body)
    n.orelse = self.block(n.orelse) if n.orelse else []
    return n

  def visit_With(self, n):
    pre = []
    for i in n.items:
      i.context_expr = self.visit(i.context_expr)
      if i.optional_vars is not None and not isinstance(i.optional_vars, ast.Name):
        t = self.tmp()
        pre += self.store(i.optional_vars, load(t))
        i.optional_vars = ast.Name(t, ast.Store())
    n.body = pre + self.block(n.body)
    return n

  def visit_Try(self, n):
    n.body = self.block(n.body)
    for h in n.handlers:
      if h.type is None or (isinstance(h.type, ast.Name) and h.type.id == "BaseException"):
        h.type = load("Exception")
      else:
        h.type = self.visit(h.type)
      h.body = self.block(h.body)
    n.orelse = self.block(n.orelse) if n.orelse else []
    n.finalbody = self.block(n.finalbody) if n.finalbody else []
    return n

  def visit_For(self, n):
    it = self.tmp("it")
    x = self.tmp("x")
    assign_it = ast.Assign([ast.Name(it, ast.Store())], call("iter_", self.visit(n.iter)))
    infn = bool(self.fn) and self.fn[-1] is not None
    sc = scan(n.body)
    tgt = scan([ast.Assign([n.target], const(None))])
    gen = sc.has_yield
    native_body = self.store(copy.deepcopy(n.target), load(x)) + self.block(copy.deepcopy(n.body))
    native = ast.For(ast.Name(x, ast.Store()), load(it), native_body,
                     self.block(copy.deepcopy(n.orelse)) if n.orelse else [])
    if not infn or gen:
      return [assign_it, native]
    bx = self.tmp("bx")
    stmts = self.store(copy.deepcopy(n.target), load(bx)) + self.block(copy.deepcopy(n.body))
    le = LoopExits()
    stmts = [le.visit(s) for s in stmts]
    sc2 = scan(stmts)
    glob = self.fn[-1]["globals"]
    names = sorted((sc2.names | tgt.names | sc.names) - glob - sc2.globals)
    # nested loops define helper functions: keep those local to the closure
    keep = [m for m in names if not m.startswith("_vc_")]
    decl = [ast.Nonlocal(keep)] if keep else []
    body_fn, get_fn, set_fn, r = (self.tmp(b) for b in ("body", "get", "set", "r"))
    onearg = lambda a: ast.arguments([], [ast.arg(y) for y in a], None, [], [], None, [])
    defs = [ast.FunctionDef(body_fn, onearg([bx]), decl + stmts, [], None, None, type_params=[])]
    unb = E("UNBOUND")
    gbody = []
    for m in keep:
      gbody.append(ast.If(ast.Compare(load("_n"), [ast.Eq()], [const(m)]), [
          ast.Try([ast.Return(load(m))],
                  [ast.ExceptHandler(load("NameError"), None, [ast.Return(unb)])], [], [])], []))
    gbody.append(ast.Return(unb))
    sbody = []
    for m in keep:
      sbody.append(ast.If(ast.Compare(load("_n"), [ast.Eq()], [const(m)]), [
          ast.If(ast.Compare(load("_v"), [ast.Is()], [unb]),
                 [ast.Try([ast.Delete([ast.Name(m, ast.Del())])],
                          [ast.ExceptHandler(load("NameError"), None, [ast.Pass()])], [], [])],
                 [ast.Assign([ast.Name(m, ast.Store())], load("_v"))])], []))
    defs.append(ast.FunctionDef(get_fn, onearg(["_n"]), gbody, [], None, None, type_params=[]))
    defs.append(ast.FunctionDef(set_fn, onearg(["_n", "_v"]), decl + (sbody or [ast.Pass()]), [], None, None,
                                type_params=[]))
    run = ast.Assign([ast.Name(r, ast.Store())],
                     call("for_loop", load(it), load(body_fn), load(get_fn), load(set_fn),
                          ast.Tuple([const(m) for m in keep], ast.Load())))
    ret = ast.If(call("is_return", load(r)),
                 [ast.Return(ast.Subscript(load(r), const(1), ast.Load()))], [])
    after = []
    if n.orelse:
      after = [ast.If(ast.Compare(load(r), [ast.IsNot()], [E("BREAK")]), self.block(n.orelse), [])]
    # make sure every name is a local of the enclosing function
    inside = loads(n.body)
    total = self.fn[-1].get("loads")
    dead = [m for m in keep if total is not None and total.get(m, 0) == inside.get(m, 0)]
    run.value.args.append(ast.Tuple([const(m) for m in dead], ast.Load()))
    bind = []
    for m in keep:
      bind.append(ast.If(const(False), [ast.Assign([ast.Name(m, ast.Store())], const(None))], []))
    sym = bind + defs + [run, ret] + after
    return [assign_it, ast.If(call("symbolic", load(it)), sym, [native])]

  # -------------------------------------------------------------- expressions
  def index(self, s):
    if isinstance(s, ast.Slice):
      f = lambda e: const(None) if e is None else self.visit(e)
      return ast.Call(E("slice_"), [f(s.lower), f(s.upper), f(s.step)], [])
    if isinstance(s, ast.Tuple):
      if any(isinstance(e, ast.Starred) for e in s.elts):
        return self.visit(s)
      return ast.Tuple([self.index(e) for e in s.elts], ast.Load())
    return self.visit(s)

  def visit_Subscript(self, n):
    if not isinstance(n.ctx, ast.Load):
      return n
    return call("getitem", self.visit(n.value), self.index(n.slice))

  def visit_List(self, n):
    if not isinstance(n.ctx, ast.Load):
      return n
    return ast.Call(E("mklist"), [self.elt(e) for e in n.elts], [])

  def elt(self, e):
    if isinstance(e, ast.Starred):
      return ast.Starred(call("star", self.visit(e.value)), ast.Load())
    return self.visit(e)

  def visit_Set(self, n):
    return ast.Call(E("mkset"), [self.elt(e) for e in n.elts], [])

  def visit_Tuple(self, n):
    if not isinstance(n.ctx, ast.Load):
      return n
    if any(isinstance(e, ast.Starred) for e in n.elts):
      return ast.Call(E("mktuple"), [self.elt(e) for e in n.elts], [])
    n.elts = [self.visit(e) for e in n.elts]
    return n

  def visit_Dict(self, n):
    items = []
    for k, v in zip(n.keys, n.values):
      if k is None:
        items.append(ast.Tuple([self.visit(v)], ast.Load()))
      else:
        items.append(ast.Tuple([self.visit(k), self.visit(v)], ast.Load()))
    return ast.Call(E("mkdict"), items, [])

  def visit_Compare(self, n):
    if len(n.ops) == 1:
      a, b = self.visit(n.left), self.visit(n.comparators[0])
      nm = {ast.Is: "is_", ast.IsNot: "is_not", ast.In: "in_", ast.NotIn: "not_in",
            ast.Eq: "eq", ast.NotEq: "ne"}.get(type(n.ops[0]))
      if nm:
        return call(nm, a, b)
      return ast.Compare(a, n.ops, [b])
    n.left = self.visit(n.left)
    n.comparators = [self.visit(c) for c in n.comparators]
    return n

  def visit_BinOp(self, n):
    a, b = self.visit(n.left), self.visit(n.right)
    if isinstance(n.op, ast.Mod):
      return call("mod", a, b)
    return ast.BinOp(a, n.op, b)

  def visit_JoinedStr(self, n):
    parts = []
    for v in n.values:
      if isinstance(v, ast.Constant):
        parts.append(const(v.value))
      else:
        spec = const(None)
        if v.format_spec is not None:
          spec = self.visit_JoinedStr(v.format_spec)
        parts.append(ast.Tuple([self.visit(v.value), const(v.conversion), spec], ast.Load()))
    return ast.Call(E("fstr"), parts, [])

  def visit_Call(self, n):
    if (isinstance(n.func, ast.Name) and n.func.id == "super"):
      return n
    args = [ast.Starred(call("star", self.visit(a.value)), ast.Load()) if isinstance(a, ast.Starred)
            else self.visit(a) for a in n.args]
    kws = [ast.keyword(k.arg, self.visit(k.value)) if k.arg is not None
           else ast.keyword(None, call("dstar", self.visit(k.value))) for k in n.keywords]
    if isinstance(n.func, ast.Name) and n.func.id == "type" and len(args) == 1 and not kws:
      return call("type1", args[0])
    if isinstance(n.func, ast.Attribute) and n.func.attr in STR_METHODS:
      return ast.Call(E("strm"), [self.visit(n.func.value), const(n.func.attr)] + args, kws)
    return ast.Call(self.visit(n.func), args, kws)

  # comprehensions
  def visit_NamedExpr(self, n):
    n.value = self.visit(n.value)
    return n

  def bind_target(self, target, var, body):
    """(lambda names: body)(*unpack(var))."""
    arg = lambda names: ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, [])
    if isinstance(target, ast.Name):
      return ast.Call(ast.Lambda(arg([target.id]), body), [load(var)], [])
    elts = target.elts
    if any(isinstance(e, ast.Starred) for e in elts):
      raise NotImplementedError("starred comprehension target")
    names, inner = [], body
    for e in reversed(elts):
      if isinstance(e, ast.Name):
        names.insert(0, e.id)
      else:
        t = self.tmp()
        names.insert(0, t)
        inner = self.bind_target(e, t, inner)
    return ast.Call(ast.Lambda(arg(names), inner),
                    [ast.Starred(call("unpack", load(var), const(len(elts)), const(-1)), ast.Load())], [])

  def comp(self, n, kind, emit):
    """emit: function(acc) -> expression adding the element."""
    acc = self.tmp("acc")
    arg1 = lambda x: ast.arguments([], [ast.arg(x)], None, [], [], None, [])

    def clauses(gens):
      if not gens:
        return emit(acc)
      g = gens[0]
      inner = clauses(gens[1:])
      for cond in reversed(g.ifs):
        inner = ast.IfExp(self.visit(cond), inner, const(None))
      x = self.tmp("x")
      body = self.bind_target(g.target, x, inner)
      src = load(first) if g is n.generators[0] else self.visit(g.iter)
      return call("each", src, ast.Lambda(arg1(x), body))
    first = self.tmp("src")
    e = clauses(n.generators)
    a2 = ast.arguments([], [ast.arg(acc), ast.arg(first)], None, [], [], None, [])
    return call("comp", const(kind), ast.Lambda(a2, e), self.visit(n.generators[0].iter))

  def visit_ListComp(self, n):
    return self.comp(n, "list", lambda acc: ast.Call(ast.Attribute(load(acc), "append", ast.Load()),
                                                     [self.visit(n.elt)], []))

  def visit_SetComp(self, n):
    return self.comp(n, "set", lambda acc: ast.Call(ast.Attribute(load(acc), "add", ast.Load()),
                                                    [self.visit(n.elt)], []))

  def visit_DictComp(self, n):
    return self.comp(n, "dict", lambda acc: call("setitem", load(acc), self.visit(n.key), self.visit(n.value)))

  def visit_GeneratorExp(self, n):
    n2 = copy.deepcopy(n)
    eager = self.comp(n, "gen", lambda acc: ast.Call(ast.Attribute(load(acc), "append", ast.Load()),
                                                     [self.visit(n.elt)], []))
    if len(n2.generators) == 1:
      g = n2.generators[0]
      x = self.tmp("x")
      body = ast.Tuple([self.visit(n2.elt)], ast.Load())
      for cond in reversed(g.ifs):
        body = ast.IfExp(self.visit(cond), body, const(None))
      fn = ast.Lambda(ast.arguments([], [ast.arg(x)], None, [], [], None, []),
                      self.bind_target(g.target, x, body))
      eager.func = E("gen1")
      eager.args.append(fn)
    return eager


def instrument_source(src, filename):
  tree = ast.parse(src, filename)
  tree = Tx().visit(tree)
  ast.fix_missing_locations(tree)
  return compile(tree, filename, "exec")


class Universe:
  """The instrumented modules of one verification process."""

  def __init__(self, repo=None):
    self.repo = repo or REPO
    self.mods = {}
    from pyvc import rt
    self.rt = rt
    self.builtins = rt.make_builtins(self)
    self.sources = {}

  def load(self, name):
    if name in self.mods:
      return self.mods[name]
    path = os.path.join(self.repo, *name.split("."))
    pkg = os.path.isdir(path)
    if pkg:
      f = os.path.join(path, "__init__.py")
    else:
      f = path + ".py"
    m = types.ModuleType(name)
    m.__file__ = f
    m.__dict__["__builtins__"] = self.builtins
    m.__dict__["_E"] = self.rt
    m.__package__ = name if pkg else name.rpartition(".")[0]
    if pkg:
      m.__path__ = [path]
    self.mods[name] = m
    if pkg and name in ("haiku", "haiku._src"):
      return m               # package __init__ bodies are not needed
    with open(f) as fh:
      src = fh.read()
    self.sources[name] = src
    from pyvc import core
    saved, core._CTX = core._CTX, None     # module bodies run outside any path
    try:
      exec(instrument_source(src, f), m.__dict__)
    except BaseException:
      del self.mods[name]
      raise
    finally:
      core._CTX = saved
    if name == "haiku._src.utils" and hasattr(m, "auto_repr"):
      m.auto_repr = self.rt.trusted_text("haiku._src.utils.auto_repr", m.auto_repr)
    parent, _, leaf = name.rpartition(".")
    if parent:
      setattr(self.load(parent), leaf, m)
    return m

  def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
    from pyvc import models
    if name == "haiku" or name.startswith("haiku."):
      if not fromlist:
        self.load(name)
        return self.load("haiku")
      base = self.load(name)
      for x in fromlist:
        if not hasattr(base, x):
          try:
            self.load(name + "." + x)
          except FileNotFoundError:
            pass
      return base
    m = models.lookup(name, bool(fromlist))
    if m is not None:
      return m
    return __import__(name, globals, locals, fromlist or (), level)
