"""C11 (jit, remat, grad, value_and_grad, vmap, named_call, eval_shape) and C12 (cond, switch, scan, fori_loop,
while_loop): stateful transforms against running the function directly."""
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from concrete.laws import close, law, raises, same_tree


def body_ops(g, rng=True, new=True):
  kinds = ["param", "get", "set", "set", "mod", "bump"] + (["rng"] if rng else [])
  return [(str(g.r.choice(kinds)), str(g.r.choice(["a", "b", "c"])), int(g.r.randint(1, 4)))
          for _ in range(g.r.randint(1, 7))]


class Sub(hk.Module):
  def __call__(self, x):
    w = hk.get_parameter("w", [], init=lambda s, d: jnp.full(s, 0.3, d))
    n = hk.get_state("calls", [], init=jnp.zeros)
    hk.set_state("calls", n + 1)
    return w * x + 0.1 * n


def run_ops(ops, mods, x):
  for k, name, n in ops:
    if k == "param":
      x = x * hk.get_parameter(name, [], init=lambda s, d: jnp.full(s, 0.5 + 0.1 * n, d)) + 0.25
    elif k == "get":
      x = x + hk.get_state(name, [], init=lambda s, d: jnp.full(s, 0.1 * n, d))
    elif k == "set":
      hk.set_state(name, 0.5 * x + 0.1 * n)
    elif k == "bump":
      hk.set_state(name, hk.get_state(name, [], init=jnp.zeros) + n)
    elif k == "mod":
      x = x + mods[n % 2](x)
    else:
      x = x + 0.1 * jax.random.uniform(hk.next_rng_key())
  return x


def observed(f):
  """The result and the current state of `f` as parameters, so that they can be seen during init as well."""
  def g(x):
    y = f(x)
    seen = list(jax.tree_util.tree_leaves(y)) + [hk.get_state(v, [], init=jnp.zeros) for v in "abc"]
    for i, v in enumerate(seen):
      v = jnp.asarray(v)
      hk.get_parameter(f"probe{i}", v.shape, v.dtype, init=lambda s, d, v=v: v)
    return y
  return g


WRAP = ["jit", "remat", "named_call", "vag", "grad", "nested", "jit_kw"]


def wrapped(kind, f):
  if kind == "jit":
    return lambda x: hk.jit(f)(x)
  if kind == "jit_kw":
    return lambda x: hk.jit(lambda a, *, b: f(b) + a - a)(1., b=x)
  if kind == "remat":
    return lambda x: hk.remat(f)(x)
  if kind == "named_call":
    return lambda x: hk.experimental.named_call(f, name="foo")(x)
  if kind == "vag":
    return lambda x: hk.value_and_grad(f)(x)[0]
  if kind == "grad":
    return lambda x: hk.grad(lambda x: (jnp.square(x), f(x)), has_aux=True)(x)[1]
  return lambda x: hk.jit(lambda y: hk.remat(lambda z: hk.value_and_grad(f)(z)[0])(y))(x)


@law("C11", quick=40, bound="bodies of at most 6 operations, 7 wrappers, 5 variables, with and without rng")
def wrapped_equals_direct(g):
  """the wrapped function has the same result and the same effect on params, state and rng as the function"""
  rng = g.bool(0.6)
  pre, ops, post = body_ops(g, rng), body_ops(g, rng), body_ops(g, rng)
  kind = g.pick(WRAP)
  g.note((pre, ops, post))
  def program(wrap):
    def f(x):
      mods = [Sub(name="m0"), Sub(name="m1")]
      x = run_ops(pre, mods, x)
      inner = lambda y: run_ops(ops, mods, y)
      x = (wrapped(kind, inner) if wrap else inner)(x)
      return run_ops(post, mods, x)
    return hk.transform_with_state(observed(f))
  key = jax.random.PRNGKey(g.int(0, 9)) if rng else None
  a, b = program(False), program(True)
  pa, sa = a.init(key, 1.5)
  pb, sb = b.init(key, 1.5)
  assert set(pa) == set(pb) and set(sa) == set(sb), (set(pa), set(pb), set(sa), set(sb))
  for m in pa:
    assert set(pa[m]) == set(pb[m]), (m, set(pa[m]), set(pb[m]))
    for k in pa[m]:
      close(pb[m][k], pa[m][k], f"init params {m}/{k}", 1e-5)
  for m in sa:
    assert set(sa[m]) == set(sb[m]), (m, set(sa[m]), set(sb[m]))
    for k in sa[m]:
      close(sb[m][k], sa[m][k], f"init state {m}/{k}", 1e-5)
  ya, ta = a.apply(pa, sa, key, 0.7)
  yb, tb = b.apply(pa, sa, key, 0.7)
  close(yb, ya, "output", 1e-5)
  assert {(m, k) for m in ta for k in ta[m]} == {(m, k) for m in tb for k in tb[m]}
  for m in ta:
    for k in ta[m]:
      close(tb[m][k], ta[m][k], f"state {m}/{k}", 1e-5)


@law("C11", quick=20, bound="2-3 arguments, all argnums, aux, scalars")
def gradients(g):
  """value and gradients (w.r.t. the arguments selected) are those of the function with the variables fixed"""
  n = g.int(2, 3)
  argnums = g.pick([0, 1, n - 1, (0, 1), (1, 0), (n - 1,)])
  aux = g.bool()
  ops = body_ops(g, True)
  g.note(ops)
  xs = [jnp.asarray(float(v)) for v in g.array((n,))]
  def fn(mods):
    def f(*a):
      y = run_ops(ops, mods, sum((i + 1) * jnp.sin(v) for i, v in enumerate(a)))
      return (y, {"twice": 2 * y}) if aux else y
    return f
  def inner(*a):
    mods = [Sub(name="m0"), Sub(name="m1")]
    return hk.value_and_grad(fn(mods), argnums=argnums, has_aux=aux)(*a), None
  def inner2(*a):
    mods = [Sub(name="m0"), Sub(name="m1")]
    return hk.grad(fn(mods), argnums=argnums, has_aux=aux)(*a)
  def plain(*a):
    return fn([Sub(name="m0"), Sub(name="m1")])(*a)
  key = jax.random.PRNGKey(1)
  t, t2, p = [hk.transform_with_state(f) for f in (inner, inner2, plain)]
  params, state = p.init(key, *xs)
  (out, grads), _ = t.apply(params, state, key, *xs)[0]
  g2, _ = t2.apply(params, state, key, *xs)
  def pure(*a):
    y, _ = p.apply(params, state, key, *a)
    return y
  wout, wgrads = jax.value_and_grad(pure, argnums=argnums, has_aux=aux)(*xs)
  same = lambda a, b: jax.tree_map(lambda u, v: close(u, v, "value or gradient", 1e-4), a, b)
  assert jax.tree_util.tree_structure(grads) == jax.tree_util.tree_structure(wgrads)
  same(out, wout)
  same(grads, wgrads)
  same(g2, (wgrads, wout[1]) if aux else wgrads)


@law("C11", quick=20, bound="batches of 1-4, in_axes over nested tuples")
def vmapped(g):
  """hk.vmap maps the arguments, not params or state"""
  n = g.int(1, 4)
  ax = g.pick([0, 1])
  oax = g.pick([0, 1])
  x = jnp.asarray(g.array((n, 3) if ax == 0 else (3, n)))
  y = jnp.asarray(g.array((3,)))
  def f(x, y, wrap):
    m = Sub(name="m")
    w = hk.get_parameter("w", [3], init=jnp.ones)
    def one(a, b):
      s = hk.get_state("s", [], init=jnp.zeros)
      v = hk.get_parameter("v", [3], init=lambda s, d: 2 * jnp.ones(s, d))
      return a * w * v + b + s
    hk.set_state("other", jnp.ones([]))
    if wrap:
      return hk.vmap(one, in_axes=(ax, None), out_axes=oax)(x, y)
    return jnp.stack([one(a, y) for a in jnp.moveaxis(x, ax, 0)], oax)
  t = hk.transform_with_state(f)
  (p, s), (p2, s2) = t.init(None, x, y, True), t.init(None, x, y, False)
  same_tree(p, p2, "params")
  same_tree(s, s2, "state")
  s = jax.tree_map(lambda v: v + 0.5, s)
  a, b = t.apply(p, s, None, x, y, True), t.apply(p, s, None, x, y, False)
  close(a[0], b[0], "output", 1e-5)
  same_tree(a[1], b[1], "state")


@law("C11", quick=10, bound="scalar functions, 1-3 keys in each of 3 places")
def inside_with_rng(g):
  """inside hk.with_rng keys come from, and return to, its sequence alone; aux may be None"""
  kind = g.pick(["jit", "remat", "named_call", "grad", "value_and_grad", "vmap"])
  n = g.ints(3, 1, 3)
  own = g.bool()
  draw = lambda k: sum(jax.random.uniform(hk.next_rng_key()) for _ in range(k))
  def program(wrap):
    def f(x):
      body = lambda y: (y * draw(n[0]), None)
      if kind in ("grad", "value_and_grad"):
        call = lambda y: getattr(hk, kind)(body, has_aux=True)(y)
        plain = lambda y: (lambda r: ((r[0] / y, None) if kind == "grad" else ((r[0], None), r[0] / y)))(body(y))
      elif kind == "vmap":
        call = lambda y: hk.vmap(lambda v, u: body(u), in_axes=(0, None), out_axes=None)(jnp.ones(2), y)
        plain = body
      else:
        call = lambda y: (hk.experimental.named_call if kind == "named_call" else getattr(hk, kind))(body)(y)
        plain = body
      run = lambda: ((call if wrap else plain)(x), draw(n[1]))
      if own:
        with hk.with_rng(jax.random.PRNGKey(9)):
          r = run()
      else:
        r = run()
      return r, draw(n[2])
    return hk.transform(f)
  key = jax.random.PRNGKey(1)
  a, b = [program(w).apply({}, key, jnp.asarray(2.)) for w in (True, False)]
  assert jax.tree_util.tree_structure(a) == jax.tree_util.tree_structure(b), "structure of the result"
  jax.tree_map(lambda u, v: close(u, v, "values and keys", 1e-5), a, b)


@law("C11", quick=4, bound="batches of 2-4")
def vmap_options(g):
  """axis_name and out_axes=None are those of jax.vmap"""
  n = g.int(2, 4)
  x = jnp.asarray(g.array((n,)))
  def f(x):
    w = hk.get_parameter("w", [], init=jnp.ones)
    one = lambda a: (a * w, jax.lax.psum(a, "lanes"))
    return hk.vmap(one, in_axes=0, out_axes=(0, None), axis_name="lanes")(x)
  a, b = hk.transform(f).apply({"~": {"w": jnp.asarray(2.)}}, None, x)
  close(a, 2 * x, "mapped")
  close(b, x.sum(), "not mapped")


@law("C11", quick=20, bound="bodies of at most 6 operations")
def eval_shape_no_effect(g):
  """hk.eval_shape returns the shapes and leaves params, state and rng as they were"""
  ops, post = body_ops(g), body_ops(g)
  g.note((ops, post))
  def program(look):
    def f(x):
      mods = [Sub(name="m0"), Sub(name="m1")]
      run_ops(ops, mods, x)
      if look:
        r = hk.eval_shape(lambda y: {"o": run_ops(ops, mods, y * jnp.ones((2, 3)))}, x)
        assert r["o"].shape == (2, 3) and r["o"].dtype == jnp.float32
      return run_ops(post, mods, x)
    return hk.transform_with_state(f)
  key = jax.random.PRNGKey(3)
  a, b = program(False), program(True)
  same_tree(b.init(key, 1.), a.init(key, 1.), "init")
  p, s = a.init(key, 1.)
  same_tree(b.apply(p, s, key, 2.), a.apply(p, s, key, 2.), "apply")


@law("C11", quick=12, bound="failures at 3 points")
def failures(g):
  """a failing function leaves no trace of the wrapper: context, params, state and rng as before"""
  class Boom(Exception):
    pass
  kind = g.pick(WRAP)
  def f(x):
    hk.get_parameter("w", [], init=jnp.zeros)
    hk.set_state("s", jnp.ones([]))
    def bad(y):
      hk.get_parameter("w", [], init=jnp.zeros)
      hk.set_state("s", y)
      if hk.running_init():
        hk.get_parameter("extra", [], init=jnp.zeros)
      hk.set_state("t", y)
      hk.next_rng_key()
      raise Boom()
    k0 = hk.next_rng_keys(1) if False else None
    try:
      wrapped(kind, bad)(x)
    except Boom:
      pass
    else:
      raise AssertionError("did not raise")
    return hk.next_rng_key(), hk.get_state("s")
  t = hk.transform_with_state(f)
  p, s = t.init(jax.random.PRNGKey(1), 2.)
  assert set(p["~"]) == {"w"} and set(s["~"]) == {"s"}, (p, s)
  (k, v), s2 = t.apply(p, s, jax.random.PRNGKey(1), 2.)
  assert float(v) == 1. and set(s2["~"]) == {"s"}
  k2 = hk.transform(lambda: hk.next_rng_key()).apply({}, jax.random.PRNGKey(1))
  assert np.array_equal(k, k2)


@law("C11", quick=5, bound="")
def outside(g):
  f = lambda x: x
  for h in (hk.jit, hk.remat, hk.grad, hk.value_and_grad):
    raises(ValueError, h, f)
  for h in (lambda: hk.cond(True, f, f, 1.), lambda: hk.switch(0, [f], 1.), lambda: hk.scan(lambda c, x: (c, x), 1., jnp.ones(2)),
            lambda: hk.fori_loop(0, 1, lambda i, x: x, 1.)):
    raises(ValueError, h)
  assert hk.experimental.named_call(f)(3.) == 3.


# ------------------------------------------------------------------------ C12


def compare(a, b, key, x, tol=1e-4):
  """Same params, initial state, outputs and state."""
  (pa, sa), (pb, sb) = a.init(key, x), b.init(key, x)
  names = lambda t: {(m, k) for m in t for k in t[m]}
  assert names(pa) == names(pb), (names(pa), names(pb))
  assert names(sa) == names(sb), (names(sa), names(sb))
  for t, u, w in ((pa, pb, "init params"), (sa, sb, "init state")):
    for m, k in names(t):
      close(u[m][k], t[m][k], f"{w} {m}/{k}", tol)
  (ya, ta), (yb, tb) = a.apply(pa, sa, key, x), b.apply(pa, sa, key, x)
  jax.tree_map(lambda u, v: close(u, v, "output", tol), yb, ya)
  assert names(ta) == names(tb)
  for m, k in names(ta):
    close(tb[m][k], ta[m][k], f"state {m}/{k}", tol)


@law("C12", quick=25, bound="bodies of at most 6 operations, both predicates, up to 4 branches")
def branches(g):
  """hk.cond / hk.switch: result and state of the selected branch alone"""
  n = g.int(1, 4)
  mode = g.pick(["cond", "cond_old", "switch", "switch"])
  if mode != "switch":
    n = 2
  k = g.int(-1, n) if mode == "switch" else g.int(0, 1)
  opss = [body_ops(g, False) for _ in range(n)]
  post = body_ops(g, False)
  g.note((opss, post))
  def setup(mods):
    for v in "abc":
      hk.get_parameter(v, [], init=lambda s, d: jnp.full(s, 0.7, d))
      hk.get_state(v, [], init=lambda s, d: jnp.full(s, 0.2, d))
    for m in mods:
      m(0.5)
  def program(wrap):
    def f(x):
      mods = [Sub(name="m0"), Sub(name="m1")]
      setup(mods)
      fs = [lambda y, o=o: run_ops(o, mods, y) for o in opss]
      if not wrap:
        sel = min(max(k, 0), n - 1) if mode == "switch" else (0 if k else 1)
        y = fs[sel](x + 1. if mode == "cond_old" and not k else x)
      elif mode == "cond":
        y = hk.cond(jnp.asarray(bool(k)), fs[0], fs[1], x)
      elif mode == "cond_old":
        y = hk.cond(jnp.asarray(bool(k)), x, fs[0], x + 1., fs[1])
      else:
        y = hk.switch(jnp.asarray(k), fs, x)
      return run_ops(post, mods, y)
    return hk.transform_with_state(observed(f))
  compare(program(False), program(True), None, jnp.asarray(1.25))


@law("C12", quick=25, bound="0-5 steps, bodies of at most 6 operations, nested carries, reverse, unroll 1-3")
def scans(g):
  """hk.scan: the python loop, in both directions, with the state threaded through"""
  n = g.int(0, 5)
  rev = g.bool()
  unroll = g.int(1, 3)
  ops, post = body_ops(g, False), body_ops(g, False)
  no_xs = n > 0 and g.bool(0.2)
  g.note((ops, post))
  xs = jnp.asarray(g.array((n, 2)))
  def program(wrap):
    def f(x):
      mods = [Sub(name="m0"), Sub(name="m1")]
      for v in "abc":
        hk.get_state(v, [], init=lambda s, d: jnp.full(s, 0.2, d))
        if hk.running_init():
          hk.get_parameter(v, [], init=lambda s, d: jnp.full(s, 0.5, d))
      if n == 0:
        for m in mods:
          m(0.5)
      def step(c, z):
        y = run_ops(ops, mods, c["x"] + (0. if z is None else z[0]))
        return {"x": jnp.tanh(y), "n": c["n"] + 1}, (y, {"i": c["n"]})
      c = {"x": x, "n": jnp.zeros([], jnp.int32)}
      if wrap:
        c, ys = hk.scan(step, c, None if no_xs else xs, length=n if no_xs or g.r.rand() < .3 else None, reverse=rev,
                        unroll=unroll)
      elif n == 0:
        ys = (jnp.zeros((0,)), {"i": jnp.zeros((0,), jnp.int32)})
      else:
        out = []
        for i in (range(n)[::-1] if rev else range(n)):
          c, y = step(c, None if no_xs else xs[i])
          out.append(y)
        if rev:
          out = out[::-1]
        ys = jax.tree_map(lambda *v: jnp.stack(v), *out)
      return run_ops(post, mods, c["x"]), c, ys
    return hk.transform_with_state(observed(f))
  if n == 0:
    # with no steps the function is still run once during init, so that its parameters exist
    a, b = program(False), program(True)
    p, s = b.init(None, jnp.asarray(0.5))
    (ya, ta), (yb, tb) = a.apply(p, s, None, jnp.asarray(0.5)), b.apply(p, s, None, jnp.asarray(0.5))
    jax.tree_map(lambda u, v: close(u, v, "output"), yb, ya)
    same_tree(tb, ta, "state")
    return
  compare(program(False), program(True), None, jnp.asarray(0.5))


@law("C12", quick=20, bound="0-5 trips, lower bound 0-3, bodies of at most 6 operations")
def fori(g):
  """hk.fori_loop: the python loop with the state threaded through"""
  lo = g.int(0, 3)
  n = g.int(1, 5)
  ops, post = body_ops(g, False), body_ops(g, False)
  g.note((ops, post))
  def program(wrap):
    def f(x):
      mods = [Sub(name="m0"), Sub(name="m1")]
      step = lambda i, c: (jnp.tanh(run_ops(ops, mods, c[0] + i)), c[1] + i)
      for v in "abc":
        hk.get_state(v, [], init=lambda s, d: jnp.full(s, 0.2, d))
      c = (x, jnp.asarray(0))
      if wrap:
        c = hk.fori_loop(lo, lo + n, step, c)
      else:
        for i in range(lo, lo + n):
          c = step(i, c)
      return run_ops(post, mods, c[0]), c
    return hk.transform_with_state(observed(f))
  compare(program(False), program(True), None, jnp.asarray(0.5))


@law("C12", quick=15, bound="0-5 trips, bodies of at most 6 operations")
def whiles(g):
  """hk.while_loop: the python loop with the state threaded through; not during init; cond has no effect"""
  n = g.int(0, 5)
  ops, post = body_ops(g, False), body_ops(g, False)
  g.note((ops, post))
  def program(wrap):
    def f(x):
      mods = [Sub(name="m0"), Sub(name="m1")]
      for v in "abc":
        hk.get_state(v, [], init=lambda s, d: jnp.full(s, 0.2, d))
      step = lambda c: (jnp.tanh(run_ops(ops, mods, c[0])), c[1] + 1)
      test = lambda c: c[1] < n + 0 * hk.get_state("a")
      c = (x, jnp.asarray(0))
      if hk.running_init():
        step(c)
        run_ops(post, mods, x)
        return x, c
      if wrap:
        c = hk.while_loop(test, step, c)
      else:
        while test(c):
          c = step(c)
      return run_ops(post, mods, c[0]), c
    return hk.transform_with_state(f)
  compare(program(False), program(True), None, jnp.asarray(0.5))


@law("C12", quick=8, bound="one loop")
def while_restrictions(g):
  """hk.while_loop rejects init and effects in cond"""
  bad = g.pick(["set", "rng", "init"])
  def f():
    hk.get_state("s", [], init=jnp.zeros)
    if hk.running_init() and bad != "init":
      return 0.
    def cond(v):
      if bad == "set":
        hk.set_state("s", v)
      if bad == "rng":
        hk.next_rng_key()
      return v < 3
    return hk.while_loop(cond, lambda v: v + 1, 0.)
  t = hk.transform_with_state(f)
  if bad == "init":
    raises(ValueError, t.init, jax.random.PRNGKey(0))
    return
  p, s = t.init(jax.random.PRNGKey(0))
  raises(ValueError, t.apply, p, s, jax.random.PRNGKey(0))


@law("C12", quick=12, bound="at most 6 keys per step, 1-5 steps, 0-3 keys before and after")
def keys(g):
  """no key is handed out twice across steps, branches and the code around them"""
  kind = g.pick(["scan", "fori", "cond", "switch"])
  n, per = g.int(1, 5), g.int(1, 6)
  pre, post = g.int(0, 3), g.int(1, 12)
  reserve = g.int(0, 12)
  init = g.bool()
  def f():
    hk.reserve_rng_keys(reserve)
    out = [hk.next_rng_key() for _ in range(pre)]
    draw = lambda: jnp.stack([hk.next_rng_key() for _ in range(per)])
    if kind == "scan":
      _, ks = hk.scan(lambda c, x: (c, draw()), 0., jnp.zeros(n))
    elif kind == "fori":
      ks = hk.fori_loop(0, n, lambda i, b: b.at[i].set(draw()), jnp.zeros((n, per, 2), jnp.uint32))
    elif kind == "cond":
      ks = hk.cond(jnp.asarray(n > 2), lambda _: draw(), lambda _: draw(), 0.)
    else:
      ks = hk.switch(jnp.asarray(n % 3), [lambda _: draw()] * 3, 0.)
    out += list(ks.reshape(-1, 2))
    out += [hk.next_rng_key() for _ in range(post)]
    return jnp.stack(out)
  got = []
  t = hk.transform_with_state(lambda: got.append(f()))
  p, s = t.init(jax.random.PRNGKey(5))
  if not init:
    got.clear()
    t.apply(p, s, jax.random.PRNGKey(5))
  ks = [tuple(int(v) for v in k) for k in np.asarray(got[0])]
  assert len(set(ks)) == len(ks), f"{kind}: key used twice"


@law("C12", quick=30, bound="at most six operations in a condition, one to three reserved keys")
def while_condition(g):
  """a condition that writes state, draws or reserves keys is refused; one that reads is not"""
  ops = [g.pick(["read", "read", "set", "new", "key", "reserve"]) for _ in range(g.int(0, 6))]
  if g.bool(0.3):
    ops = [g.pick(["set", "key", "new"])] * g.int(1, 6)
  if g.bool(0.3):
    ops = [o for o in ops if o == "read"]
  reserved = g.int(0, 3)
  g.note((ops, reserved))
  with_rng = g.bool(0.8)
  if not with_rng:
    ops = [o for o in ops if o not in ("key", "reserve")]
  def f(x):
    hk.get_state("s", [], init=jnp.zeros)
    hk.get_parameter("w", [], init=jnp.ones)
    if with_rng:
      hk.reserve_rng_keys(reserved)
    def cond(v):
      for i, o in enumerate(ops):
        if o == "read":
          v = v + hk.get_state("s") * 0 + hk.get_parameter("w", [], init=jnp.ones) * 0
        elif o == "set":
          hk.set_state("s", v + i)
        elif o == "new":
          hk.set_state(f"n{i}", v + i)
        elif o == "key":
          hk.next_rng_key()
        else:
          hk.reserve_rng_keys(1)
      return v < 3
    if hk.running_init():
      return x
    return hk.while_loop(cond, lambda v: v + 1, x)
  t = hk.transform_with_state(f)
  p, s = t.init(jax.random.PRNGKey(0) if with_rng else None, 0.)
  run = lambda: t.apply(p, s, jax.random.PRNGKey(1) if with_rng else None, 0.)
  if set(ops) - {"read"}:
    raises(ValueError, run)
  else:
    out, s2 = run()
    assert out == 3. and set(s2["~"]) == {"s"}
