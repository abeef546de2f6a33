"""Translation of terms to SMT (z3 / cvc5).  Binder terms are lambda-lifted to constants
(or functions of the loose bound variables) and constrained by instantiated axioms."""
import z3
from fractions import Fraction as Fr
from .terms import *
from . import terms as tm

OS = z3.DeclareSort("O")
SORT = {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort(), "O": OS}

LIFT = {"sum", "mat", "seq", "rec", "lam", "ext", "extarg", "extrel", "fold", "first", "bmat", "tri", "llt", "perm",
        "closure", "ref", "str", "nullptr", "unit", "dist", "ev", "foldv", "vwise", "comma", "fmt", "exc", "tie"}


def cname(t):
    return "%s@%d" % (t.op, t.id)


class Smt:
    def __init__(self):
        self.cache = {}
        self.side = {}        # term id -> list of side axioms (z3)
        self.funs = {}
        self.busy = set()

    def fun(self, name, doms, rng):
        key = (name, tuple(str(d) for d in doms), str(rng))
        f = self.funs.get(key)
        if f is None:
            f = z3.Function(name + "/" + "".join(str(d)[0] for d in doms) + str(rng)[0], *doms, rng) if doms else z3.Const(name, rng)
            self.funs[key] = f
        return f

    def tr(self, t, env=(), ax=None):
        """z3 expression of t; env: tuple of z3 vars for loose bvs (index 0 = last)"""
        if t.mb == 0:
            r = self.cache.get(t.id)
            if r is not None:
                if ax is not None:
                    self.collect(t, ax)
                return r
        r = self._tr(t, env, ax)
        if t.mb == 0:
            self.cache[t.id] = r
            if ax is not None:
                self.collect(t, ax)
        return r

    def collect(self, t, ax):
        pass

    def _tr(self, t, env, ax):
        o = t.op
        g = lambda x: self.tr(x, env, ax)
        if o == "num":
            if t.sort == "I":
                return z3.IntVal(int(t.data))
            return z3.RealVal("%d/%d" % (t.data.numerator, t.data.denominator))
        if o == "var":
            n = t.data if isinstance(t.data, str) else t.data[0]
            return z3.Const("%s:%s" % (n, t.sort), SORT[t.sort])
        if o == "bv":
            return env[-1 - t.data]
        if o == "true":
            return z3.BoolVal(True)
        if o == "false":
            return z3.BoolVal(False)
        if o == "poly":
            terms = []
            for mono, c in t.data:
                fs = []
                for i, e in mono:
                    a = t.args[i]
                    if e > 0:
                        z = g(a)
                        fs += [z] * e
                    else:
                        z = self.invc(a, env, ax)
                        fs += [z] * (-e)
                cz = z3.IntVal(int(c)) if t.sort == "I" else z3.RealVal("%d/%d" % (c.numerator, c.denominator))
                if not fs:
                    terms.append(cz)
                else:
                    p = fs[0]
                    for f in fs[1:]:
                        p = p * f
                    terms.append(p if c == 1 else cz * p)
            r = terms[0]
            for x in terms[1:]:
                r = r + x
            return r
        if o == "and":
            return z3.And(*[g(a) for a in t.args])
        if o == "or":
            return z3.Or(*[g(a) for a in t.args])
        if o == "not":
            return z3.Not(g(t.args[0]))
        if o == "ge0":
            return g(t.args[0]) >= 0
        if o == "gt0":
            return g(t.args[0]) > 0
        if o == "eq0":
            return g(t.args[0]) == 0
        if o in ("eqo", "iff"):
            return g(t.args[0]) == g(t.args[1])
        if o == "ite":
            return z3.If(g(t.args[0]), g(t.args[1]), g(t.args[2]))
        if o == "i2r":
            return z3.ToReal(g(t.args[0]))
        if o == "r2i":
            x = g(t.args[0])
            return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
        if o == "idiv":
            a, b = g(t.args[0]), g(t.args[1])
            return z3.If(b > 0, z3.If(a >= 0, a / b, -((-a) / b)), self.fun("idiv", [SORT["I"]] * 2, SORT["I"])(a, b))
        if o == "imod":
            a, b = g(t.args[0]), g(t.args[1])
            return z3.If(b > 0, z3.If(a >= 0, a % b, -((-a) % b)), self.fun("imod", [SORT["I"]] * 2, SORT["I"])(a, b))
        if o in ("forall", "exists"):
            l = t.args[0]
            vs = [z3.FreshConst(SORT[s], "q") for s in l.data]
            b = self.tr(l.args[0], tuple(env) + tuple(vs), ax)
            return z3.ForAll(vs, b) if o == "forall" else z3.Exists(vs, b)
        if o == "uf" and t.data == "floor":
            return z3.ToInt(g(t.args[0]))
        if o == "uf" and t.data == "floorR":
            return z3.ToReal(z3.ToInt(g(t.args[0])))
        if o == "rec":
            return self.opaque(t, env, ax)
        if o in LIFT:
            return self.opaque(t, env, ax)
        # uninterpreted application
        name = o if t.data is None else "%s:%s" % (o, t.data)
        if o in ("at", "rows", "cols", "len"):
            name = o
        zs = [g(a) for a in t.args]
        f = self.fun(name, [z.sort() for z in zs], SORT[t.sort])
        return f(*zs) if zs else f

    def invc(self, a, env, ax):
        z = self.tr(a, env, ax)
        if z.sort() == SORT["I"]:
            z = z3.ToReal(z)
        f = self.fun("inv", [SORT["R"]], SORT["R"])
        return f(z)

    def opaque(self, t, env, ax):
        if t.mb == 0:
            return z3.Const(cname(t), SORT[t.sort])
        # abstract over the loose variables: canonical closed skeleton
        used = sorted(loose(t))
        f = self.fun(cname(t), [env[-1 - u].sort() for u in used], SORT[t.sort])
        return f(*[env[-1 - u] for u in used])


def loose(t, depth=0, memo=None):
    if memo is None:
        memo = {}
    if t.mb <= depth:
        return set()
    key = (t.id, depth)
    if key in memo:
        return memo[key]
    if t.op == "bv":
        r = {t.data - depth} if t.data >= depth else set()
    else:
        d = depth + (len(t.data) if t.op == "lam" else 0)
        r = set()
        for a in t.args:
            r |= loose(a, d, memo)
    memo[key] = r
    return r
