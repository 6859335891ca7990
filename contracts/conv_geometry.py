"""C13: window geometry of convolutions (padding, replication, dimension numbers)."""
from pyvc import spec as S
from pyvc.spec import contract
import z3

P = "C13"


@contract(P, "pad.same", ["haiku._src.pad.same"])
def same(U):
  k = S.sint("k", 1)
  r = S.outcome(U("pad").same, k)
  if not S.no_raise("same", r):
    return
  lo, hi = r
  S.prove("total padding is k-1", S.eq(lo + hi, k - 1))
  S.prove("nonnegative", z3.And((S.zint(lo) >= 0), S.zint(hi) >= 0))
  S.prove("balanced, extra element after", z3.Or(S.eq(hi, lo), S.eq(hi, lo + 1)))


@contract(P, "pad.valid/full/causal/reverse_causal", ["haiku._src.pad.valid", "haiku._src.pad.full",
                                                      "haiku._src.pad.causal", "haiku._src.pad.reverse_causal"])
def others(U):
  k = S.sint("k", 1)
  pad = U("pad")
  for f, (lo, hi) in (("valid", (0, 0)), ("full", (k - 1, k - 1)), ("causal", (k - 1, 0)),
                      ("reverse_causal", (0, k - 1))):
    r = S.outcome(getattr(pad, f), k)
    if S.no_raise(f, r):
      S.prove(f + " before", S.eq(r[0], lo))
      S.prove(f + " after", S.eq(r[1], hi))


@contract(P, "utils.replicate", ["haiku._src.utils.replicate"])
def replicate(U):
  n = S.sint("n", 1)
  kind = S.pick("kind", ["int", "tuple", "list", "str", "fn"])
  if kind in ("tuple", "list"):
    e = S.int_seq("element", kind=kind)
    m = S.length(e)
  elif kind == "int":
    e = S.sint("element")
  elif kind == "str":
    e = S.sstr("element")
  else:
    e = S.SFun("element")
  r = S.outcome(U("utils").replicate, e, n, "arg")
  if kind in ("tuple", "list"):
    ok = z3.Or(S.zint(m) == 1, S.zint(m) == n.t)
    if isinstance(r, S.Raised):
      S.prove("rejects only bad lengths", z3.Not(ok))
      S.prove("TypeError", z3.BoolVal(isinstance(r.exc, TypeError)))
      return
    S.prove("accepts only length 1 or n", ok)
  elif not S.no_raise("replicate", r):
    return
  S.prove("is a tuple", z3.BoolVal(S.rt.isinstance_(r, tuple)))
  S.prove("length n", S.eq(S.length(r), n))
  i = S.index("i", n)
  if kind in ("tuple", "list"):
    S.prove("elements", S.eq(S.nth(r, i), S.nth(e, S.mk_int(z3.If(S.zint(m) == 1, 0, i.t)))))
  else:
    S.prove("elements", S.same(S.nth(r, i), e) if kind != "int" and kind != "str" else S.eq(S.nth(r, i), e))


@contract(P, "pad.create", ["haiku._src.pad.create"])
def create(U):
  n = S.sint("n", 1)
  pad = U("pad")
  kernel = S.int_seq("kernel", 1, n) if S.fork("kernel is a sequence") else S.sint("kernel", 1)
  rate = S.int_seq("rate", 1, n) if S.fork("rate is a sequence") else S.sint("rate", 1)
  padf = S.pick("padding", [pad.same, pad.valid, pad.full, pad.causal, pad.reverse_causal])
  r = S.outcome(pad.create, padf, kernel, rate, n)
  if not S.no_raise("create", r):
    return
  S.prove("length n", S.eq(S.length(r), n))
  i = S.index("i", n)
  k = kernel if isinstance(kernel, S.SInt) else S.nth(kernel, i)
  d = rate if isinstance(rate, S.SInt) else S.nth(rate, i)
  eff = (k - 1) * d + 1
  lo, hi = S.nth(r, i)
  e1, e2 = padf(eff)
  S.prove("padding of dimension i before", S.eq(lo, e1))
  S.prove("padding of dimension i after", S.eq(hi, e2))


@contract(P, "conv.to_dimension_numbers", ["haiku._src.conv.to_dimension_numbers"])
def dimnums(U):
  n = S.sint("n", 1)
  last = S.fork("channels_last")
  tr = S.fork("transpose")
  r = S.outcome(U("conv").to_dimension_numbers, n, channels_last=last, transpose=tr)
  if not S.no_raise("dims", r):
    return
  lhs, rhs, out = r.lhs_spec, r.rhs_spec, r.out_spec
  for nm, s in (("lhs", lhs), ("out", out)):
    S.prove(nm + " rank", S.eq(S.length(s), n + 2))
    S.prove(nm + " batch", S.eq(S.nth(s, 0), 0))
    S.prove(nm + " channel", S.eq(S.nth(s, 1), n + 1 if last else 1))
  S.prove("rhs rank", S.eq(S.length(rhs), n + 2))
  S.prove("rhs out channel", S.eq(S.nth(rhs, 0), n if tr else n + 1))
  S.prove("rhs in channel", S.eq(S.nth(rhs, 1), n + 1 if tr else n))
  i = S.index("i", n)
  for nm, s in (("lhs", lhs), ("out", out)):
    S.prove(nm + " spatial", S.eq(S.nth(s, i + 2), i + (1 if last else 2)))
  S.prove("rhs spatial", S.eq(S.nth(rhs, i + 2), i))
