"""Module names (C05) and method scopes (C06) against an independent naming oracle."""
import dataclasses
import re
from typing import Optional

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from concrete.laws import Skip, law, raises

NAMES = ["a", "b", "a_1", "a_2", "b_0", "linear", "conv2_d", "x_1_1", "w1", "a_01", "_p", "A"]
CLASSES = ["Node", "MyNode", "Conv2DNode", "HTTPNode", "nodeB"]
SNAKE = {"Node": "node", "MyNode": "my_node", "Conv2DNode": "conv2_d_node", "HTTPNode": "http_node", "nodeB": "node_b"}


class Node(hk.Module):
  """Runs op lists; one per method."""

  def __init__(self, body, run, name=None):
    super().__init__(name=name)
    self.body, self.run = body, run
    run(body["__init__"], self)

  def __call__(self):
    return self.run(self.body["__call__"], self)

  def other(self):
    return self.run(self.body["other"], self)

  def _private(self):
    return self.run(self.body["_private"], self)

  @property
  def prop(self):
    self.run(self.body["prop"], self)
    return 1

  @hk.transparent
  def clear(self):
    return self.run(self.body["clear"], self)


for _c in CLASSES[1:]:
  globals()[_c] = type(_c, (Node,), {})
METHODS = ["__call__", "other", "_private", "prop", "clear"]


def draw(g, depth=0, init=False):
  """A list of ops."""
  ops = []
  for _ in range(g.r.randint(0, 4 if depth < 2 else 3)):
    k = g.r.choice(["new", "new", "call", "param", "state", "scope"] if depth < 3 else ["param", "state"])
    if k == "new":
      name = None if g.r.rand() < 0.4 else str(g.r.choice(NAMES))
      body = {m: draw(g, depth + 1) for m in METHODS}
      body["__init__"] = draw(g, depth + 1)
      ops.append(("new", str(g.r.choice(CLASSES)), name, body))
    elif k == "call":
      ops.append(("call", int(g.r.randint(0, 4)), str(g.r.choice(METHODS))))
    elif k == "scope":
      ops.append(("scope", str(g.r.choice(["s", "s/t", "a", "a_1"])), draw(g, depth + 1)))
    else:
      ops.append((k, str(g.r.choice(["w", "b"]))))
  return ops


class Taken(Exception):
  pass


class Sim:
  """The naming rules, restated."""

  def __init__(self):
    self.stack = [(None, "__call__", {}, set())]      # (module name, method, counters, used)
    self.params, self.state = {}, {}
    self.subs = {}                                   # module -> modules that ran inside one of its methods

  def new_name(self, name):
    mod, meth, counters, used = self.stack[-1]
    if mod is not None:
      pre = {"__init__": "~/", "__call__": ""}.get(meth, "~" + meth + "/")
      name = mod + "/" + pre + name
    m = re.fullmatch(r"(.*)_([0-9]+)", name)
    if m:
      stem, n = m.group(1), int(m.group(2))
      counters[stem] = max(counters.get(stem, 0), n + 1)
      q = f"{stem}_{n}"
    else:
      stem, n = name, counters.get(name, 0)
      counters[stem] = n + 1
      q = stem if n == 0 else f"{stem}_{n}"
    if q in used:
      raise Taken(q)
    used.add(q)
    return q

  def enter(self, mod, meth):
    self.stack.append((mod, meth, {}, set()))

  def leave(self):
    mod = self.stack.pop()[0]
    for m, *_ in self.stack:
      if m is not None and m != mod:
        self.subs.setdefault(m, set()).add(mod)

  def bundle(self):
    return self.stack[-1][0] or "~"


def runner(sim, log):
  def run(ops, self_):
    made = []
    for op in ops:
      if op[0] == "new":
        _, cls, name, body = op
        try:
          want = sim.new_name(name if name is not None else SNAKE[cls])
        except Taken as e:
          raises(ValueError, globals()[cls], body, run, name)
          raise
        sim.enter(want, "__init__")
        m = globals()[cls](body, run, name=name)
        sim.leave()
        assert m.module_name == want, f"{m.module_name} != {want}"
        assert m.name == want.split("/")[-1], f"{m.name} != {want}"
        made.append(m)
      elif op[0] == "call":
        if not made:
          continue
        m = made[op[1] % len(made)]
        if op[2] == "clear":
          m.clear()
          continue
        sim.enter(m.module_name, op[2])
        if op[2] == "prop":
          assert m.prop == 1
        else:
          getattr(m, op[2])()
        sim.leave()
      elif op[0] == "scope":
        names = []
        for part in op[1].split("/"):
          try:
            q = sim.new_name(part)
          except Taken:
            raises(ValueError, hk.experimental.name_scope, op[1])
            raise
          names.append(q)
          sim.enter(q, "__call__")
        for _ in names:
          sim.stack.pop()
        if g_depth(sim):
          pass
        with hk.experimental.name_scope(op[1]):
          sim.enter(names[-1], "__call__")
          run(op[2], self_)
          sim.stack.pop()
      else:
        d = sim.params if op[0] == "param" else sim.state
        b = d.setdefault(sim.bundle(), {})
        f = hk.get_parameter if op[0] == "param" else hk.get_state
        b.setdefault(op[1], len(log))
        v = f(op[1], (), jnp.int32, lambda s, t, n=len(log): np.asarray(n, np.int32))
        log.append(op[1])
        assert int(v) == b[op[1]], f"{sim.bundle()}/{op[1]}"
  return run


def g_depth(sim):
  return len(sim.stack)


def compare(got, want, what):
  got = {m: {k: int(v) for k, v in b.items()} for m, b in got.items() if len(b)}
  want = {m: b for m, b in want.items() if b}
  assert got == want, f"{what}: {got} != {want}"


def tree_program(g, prop):
  ops = draw(g)
  g.note(ops)
  sim = Sim()
  t = hk.transform_with_state(lambda: runner(sim, [])(ops, None))
  try:
    p, s = t.init(None)
  except Taken:
    return
  compare(p, sim.params, "params")
  compare(s, sim.state, "state")
  sim2 = Sim()
  t2 = hk.transform_with_state(lambda: runner(sim2, [])(ops, None))
  t2.apply(p, s, None)
  if prop == "C05":
    # the same function names its modules the same way every time
    sim3 = Sim()
    p3, s3 = hk.transform_with_state(lambda: runner(sim3, [])(ops, None)).init(None)
    compare(p3, sim.params, "params of a second init")


@law("C05", quick=400, bound="module trees of depth <= 4, at most 4 operations per method, 12 names, 5 classes")
def names_program(g):
  tree_program(g, "C05")


@law("C06", quick=400, bound="module trees of depth <= 4, at most 4 operations per method, 12 names, 5 classes")
def scopes_program(g):
  tree_program(g, "C06")


@law("C05", quick=60, bound="sequences of at most 12 names from 3 stems and 0..12")
def flat_sequence(g):
  """many modules in one scope: unique, and automatic naming never fails"""
  stem = ["a", "b_x", "c_1_d"]
  seq = []
  for _ in range(g.int(2, 12)):
    s = g.r.choice(stem)
    seq.append(str(s) if g.r.rand() < 0.6 else f"{s}_{g.r.randint(0, 13)}")
  g.note(seq)
  def f():
    used, sim = [], Sim()
    for n in seq:
      try:
        want = sim.new_name(n)
      except Taken:
        assert re.fullmatch(r".*_[0-9]+", n)
        raises(ValueError, hk.Module, name=n)
        continue
      m = hk.Module(name=n)
      assert m.module_name == want and m.module_name not in used, (n, m.module_name, want)
      used.append(m.module_name)
  hk.transform(f).init(None)


@law("C05", quick=60, bound="identifiers and near-identifiers")
def identifiers(g):
  """a name is accepted exactly when it is an (ascii) identifier"""
  chars = list("aZ_09 -./~\n\t$é")
  n = "".join(g.r.choice(chars, g.int(0, 4)))
  if g.bool(0.4):
    n = "ok" + n
  g.note(n)
  good = re.fullmatch(r"[a-zA-Z_][a-zA-Z0-9_]*", n) is not None
  class M(hk.Module):
    def __call__(self):
      return hk.Module(name=n).module_name
  for where in (lambda: hk.Module(name=n), lambda: M(name="m")()):
    t = hk.transform(where)
    if good:
      t.init(None)
    else:
      raises(ValueError, t.init, None)


@law("C05", quick=20, bound="class names converted to snake case")
def class_names(g):
  table = {"Linear": "linear", "MyLinear": "my_linear", "MLP": "mlp", "MyMLP": "my_mlp", "Conv2D": "conv2_d",
           "ResNet50V2": "res_net50_v2", "HTTPServer": "http_server", "VQVAE": "vqvae", "A": "a", "Block1": "block1",
           "lower": "lower", "Already_Snake": "already__snake"}
  n = g.pick(sorted(table))
  if n == "Already_Snake":
    raise Skip()
  k = g.int(1, 4)
  cls = type(n, (hk.Module,), {})
  got = []
  hk.transform(lambda: got.extend(cls().module_name for _ in range(k))).init(None)
  assert got == [table[n]] + [f"{table[n]}_{i}" for i in range(1, k)], got
  # explicit name wins; @dataclass attribute wins over the class name
  got = []
  hk.transform(lambda: got.append(cls(name="other").name)).init(None)
  assert got == ["other"]


@law("C05", quick=15, bound="dataclass modules with one of seven names")
def dataclass_names(g):
  """the name field of a dataclass module is its name; None stands for the class name; it must be an identifier"""
  @dataclasses.dataclass
  class MyLayer(hk.Module):
    size: int
    name: Optional[str] = None
    def __call__(self):
      return hk.get_parameter("w", [self.size], init=jnp.zeros)
  @dataclasses.dataclass
  class Unnamed(hk.Module):
    size: int
  n = g.pick([None, "x", "my_layer", "_a1", "", "1a", "a b"])
  t = hk.transform(lambda: (MyLayer(1, name=n)(), MyLayer(2)(), Unnamed(3).module_name)[-1])
  if n in ("", "1a", "a b"):
    raises(ValueError, t.init, None)
    return
  p = t.init(None)
  want = {"my_layer" if n is None else n: 1}
  want["my_layer_1" if "my_layer" in want else "my_layer"] = 2
  assert {m: b["w"].shape[0] for m, b in p.items()} == want, p
  assert t.apply(p, None) == "unnamed"


@law("C05", quick=20, bound="at most five names inside and outside one lifted call")
def names_inside_lifted(g):
  """inside a lifted transformation names are numbered as if it were not there"""
  lifts = {"jit": hk.jit, "remat": hk.remat, "cond": lambda f: lambda x: hk.cond(True, f, f, x),
           "switch": lambda f: lambda x: hk.switch(0, [f], x), "grad": hk.grad, "none": lambda f: f}
  pool = ["a", "a_1", "b", "a_3", "b_2", "a_01"]
  outer, inner = [[g.pick(pool) for _ in range(g.int(0, 5))] for _ in range(2)]
  in_module = g.bool()
  def make(ns, got):
    for n in ns:
      try:
        got.append(hk.Module(name=n).module_name)
      except ValueError:
        got.append("refused")
  def run(lift):
    got, before = [], []
    def f(x):
      make(outer, before)
      def inside(x):
        got.clear()
        make(inner, got)
        return x
      return lifts[lift](inside)(x)
    class Top(hk.Module):
      def __call__(self, x):
        return f(x)
    t = hk.transform(lambda x: Top()(x) if in_module else f(x))
    p = t.init(None, 1.)
    r = list(got)
    t.apply(p, None, 1.)
    assert got == r, f"{lift}: names at init {r}, at apply {got}"
    return r
  want = run("none")
  lift = g.pick(["jit", "remat", "cond", "switch", "grad"])
  if lift in ("cond", "switch"):
    inner = list(dict.fromkeys(inner))
    want = run("none")
  got = run(lift)
  assert got == want, f"{lift} after {outer}: {inner} are named {got}, not {want}"


@law("C05", quick=15, bound="failing constructors")
def failing_constructor(g):
  """a constructor that fails leaves the scope usable; the failed name stays taken or is reused consistently"""
  class Bad(hk.Module):
    def __init__(self, late):
      if late:
        super().__init__(name="bad")
        hk.Module(name="inner")
      raise KeyError("x")
  late = g.bool()
  class Lazy(hk.Module):
    def __init__(self):
      pass
  def f():
    raises(KeyError, Bad, late)
    raises(ValueError, Lazy)
    m = hk.Module(name="m")
    assert m.module_name == "m"
    hk.get_parameter("w", [], init=jnp.zeros)
    return m
  p = hk.transform(f).init(None)
  assert list(p) == ["~"]
  raises(ValueError, hk.Module, name="outside")


@law("C06", quick=200, bound="module trees of depth <= 4")
def dicts(g):
  """params_dict / state_dict: exactly the entries of the module and of everything that ran inside it"""
  ops = draw(g)
  g.note(ops)
  sim = Sim()
  checked = []
  def f():
    mods = []
    base_run = runner(sim, [])
    def spy(nx, a, k, c):
      if c.module not in mods:
        mods.append(c.module)
      return nx(*a, **k)
    with hk.experimental.intercept_methods(spy):
      base_run(ops, None)
    for m in mods:
      if not hasattr(m, "module_name"):
        continue
      q = m.module_name
      inside = lambda x: x == q or x.startswith(q + "/") or x in sim.subs.get(q, ())
      for got, store in ((m.params_dict(), sim.params), (m.state_dict(), sim.state)):
        want = {f"{mm}/{k}": v for mm, b in store.items() if inside(mm) for k, v in b.items()}
        assert {k: int(v) for k, v in got.items()} == want, f"{q}: {got} != {want}"
      checked.append(q)
  try:
    hk.transform_with_state(f).init(None)
  except Taken:
    return


@law("C06", quick=80, bound="five modules calling each other, at most twelve calls deep four")
def calls_between(g):
  """modules built elsewhere: the variables of everything that runs inside a module are in its params_dict / state_dict"""
  n = g.int(2, 5)
  body = [[(g.pick(["call", "get", "set", "del", "new"]), g.int(0, n - 1)) for _ in range(g.int(0, 2))] for _ in range(n)]
  start = [g.int(0, n - 1) for _ in range(g.int(1, 3))]
  counter = [0]
  stack, inside, owner = [], {}, {}
  mods = []
  class Leaf(hk.Module):
    def __init__(self, name):
      super().__init__(name=name)
      note(self)
      mine("c", self)
    def __call__(self):
      pass
  def note(m):
    for s in stack:
      if s is not m:
        inside[s.module_name].add(m.module_name)
    inside.setdefault(m.module_name, set())
  def mine(kind, m):
    k = f"{kind}{counter[0]}"
    counter[0] += 1
    hk.get_parameter(k, [], init=jnp.zeros)
    hk.set_state(k, jnp.zeros([]))
    owner[k] = m.module_name
  def work(self, kind):
    note(self)
    mine(kind, self)
    if len(stack) < 4:
      stack.append(self)
      for op, j in body[self.i]:
        if counter[0] > 12:
          break
        do(op, j)
      stack.pop()
  class Node(hk.Module):
    def __init__(self, i):
      super().__init__(name=f"n{'abcde'[i]}")
      inside[self.module_name] = set()
      self.i = i
    def __call__(self):
      work(self, "m")
    @property
    def p(self):
      work(self, "g")
    @p.setter
    def p(self, v):
      work(self, "s")
    @p.deleter
    def p(self):
      work(self, "d")
  def do(op, j):
    if op == "call":
      mods[j]()
    elif op == "get":
      mods[j].p
    elif op == "set":
      mods[j].p = 1
    elif op == "del":
      del mods[j].p
    else:
      name = f"leaf{'abcdefghijklmnopqrstuvwxyz'[counter[0]]}"
      Leaf(name)
  def f():
    mods.extend(Node(i) for i in range(n))
    for j in start:
      do("call", j)
    for m in mods:
      q = m.module_name
      want = {f"{o}/{k}" for k, o in owner.items() if o == q or o.startswith(q + "/") or o in inside[q]}
      assert set(m.params_dict()) == want, f"{q}: {sorted(m.params_dict())} != {sorted(want)}"
      assert set(m.state_dict()) == want, f"{q}: {sorted(m.state_dict())} != {sorted(want)}"
    hk.get_parameter("top", [], init=jnp.zeros)
  g.note((body, start))
  p, _ = hk.transform_with_state(f).init(None)
  assert set(p.get("~", {})) == {"top"}
  for k, o in owner.items():
    assert k in p[o], (k, o)


@law("C06", quick=25, bound="name scopes up to three levels")
def name_scopes(g):
  """a name scope is equivalent to a module of that name; single use; balanced on failure"""
  n = g.pick(["foo", "foo/bar", "foo/bar/baz"])
  inside = g.bool()
  boom = g.bool()
  def body():
    hk.get_parameter("w", [], init=jnp.zeros)
    hk.set_state("s", jnp.zeros([]))
    hk.Linear(1, name="lin")(jnp.ones((1, 1)))
  class Boom(Exception):
    pass
  def go():
    sc = hk.experimental.name_scope(n)
    def use():
      with sc:
        raises(ValueError, sc.__enter__) if g.r.rand() < 0.5 else None
        body()
        if boom:
          raise Boom()
    raises(Boom, use) if boom else use()
    raises(ValueError, sc.__enter__)
    hk.get_parameter("after", [], init=jnp.zeros)
  class M(hk.Module):
    def __call__(self):
      go()
  p, s = hk.transform_with_state((lambda: M(name="m")()) if inside else go).init(jax.random.PRNGKey(0))
  pre = "m/" if inside else ""
  want = {pre + n: {"w"}, pre + n + "/lin": {"w", "b"}, ("m" if inside else "~"): {"after"}}
  assert {m: set(b) for m, b in p.items() if len(b)} == want, (p, want)
  assert {m: set(b) for m, b in s.items() if len(b)} == {pre + n: {"s"}}
  def bad():
    for x in ("", "/foo", "foo//bar", "foo bar"):
      raises(ValueError, hk.experimental.name_scope, x)
  hk.transform(bad).init(None)
  raises(ValueError, hk.experimental.name_scope, "foo")


@law("C06", quick=25, bound="one module")
def failing_method(g):
  """a method that fails closes its scope"""
  class Boom(Exception):
    pass
  depth = g.int(1, 3)
  class M(hk.Module):
    def __call__(self, k):
      hk.get_parameter("w", [], init=jnp.zeros)
      if k == 0:
        raise Boom()
      M(name="inner")(k - 1)
  def f():
    raises(Boom, M(name="m"), depth)
    hk.get_parameter("top", [], init=jnp.zeros)
    assert hk.Module(name="m").module_name == "m_1"
    class N(hk.Module):
      def __call__(self):
        try:
          M(name="k")(depth)
        except Boom:
          pass
        hk.get_parameter("own", [], init=jnp.zeros)
    N(name="n")()
  p = hk.transform(f).init(None)
  assert set(p["~"]) == {"top"} and set(p["n"]) == {"own"}, p
  assert set(p) == {"~", "n"} | {"m" + "/inner" * i for i in range(depth + 1)} | {"n/k" + "/inner" * i for i in range(depth + 1)}
