"""Symbolic execution of SCENARIO contracts (contracts/*.cpp)."""
import re
from .terms import *
from . import terms as tm
from . import linalg
from .exec import Ex, NeedStatic, Unsupported, Obl, UNIT, Loc, R_
from .prog import Program
from .prove import Prover


def lit(ex, a):
    v = ex.rv(a)
    return v.data if v.op == "str" else show(v)


CON = {}


def contract(*names):
    def d(f):
        for n in names:
            CON["verif::" + n] = f
        return f
    return d


def uniq(ex, name):
    n = ex.names.get(name, 0)
    ex.names[name] = n + 1
    return name if n == 0 else "%s'%d" % (name, n)


@contract("any_real")
def _(ex, e, f, a):
    return var(uniq(ex, lit(ex, a[0])), "R")


@contract("any_unit")
def _(ex, e, f, a):
    return var(uniq(ex, lit(ex, a[0])), "R")


@contract("any_int")
def _(ex, e, f, a):
    return var(uniq(ex, lit(ex, a[0])), "I")


@contract("any_size")
def _(ex, e, f, a):
    v = var(uniq(ex, lit(ex, a[0])), "I")
    ex.assume(ge0(v))
    ex.assumed.append(ge0(v))
    return v


@contract("any_bool")
def _(ex, e, f, a):
    return var(uniq(ex, lit(ex, a[0])), "B")


def symvec(name, n):
    v = mk("var", (), (name, "vec"), "O")
    return mat_f(n, I1, lambda i, j: at(v, i, I0))


@contract("any_vec", "any_fvec")
def _(ex, e, f, a):
    name = uniq(ex, lit(ex, a[0]))
    n = ex.rv(a[1])
    return symvec(name, n)


@contract("finite")
def _(ex, e, f, a):
    v = as_mat(ex.rv(a[0]))
    return mat_f(rows_(v), I1, lambda i, j: uf("finite", (at(v, i, I0),), "R"))


@contract("any_mat")
def _(ex, e, f, a):
    name = uniq(ex, lit(ex, a[0]))
    v = var(name, "O")
    r, c = ex.rv(a[1]), ex.rv(a[2])
    return mat_f(r, c, lambda i, j: at(v, i, j))


@contract("any_vecs")
def _(ex, e, f, a):
    name = uniq(ex, lit(ex, a[0]))
    n, d = ex.rv(a[1]), ex.rv(a[2])
    v = var(name, "O")
    return seq_f(n, lambda i: mat_f(d, I1, lambda r, c: at(get(v, i, "O", ("vec",)), r, I0)), "O", ("vec",))


@contract("generalise")
def _(ex, e, f, a):
    """forget the value of a matrix member (keep its dimensions): what follows is proved for any value"""
    from .exec import UNIT
    loc = ex.lv(a[0])
    v = ex.read(loc)
    u = fresh("any", "O")
    ex.write(loc, mat_f(rows_(v), cols_(v), lambda i, j: at(u, i, j)))
    return UNIT


@contract("requires_")
def _(ex, e, f, a):
    c = ex.cond(a[0])
    if not ex.dry:
        ex.required.append((tuple(ex.pc), c))
    ex.assume(c)
    ex.assumed.append(c)
    return UNIT


@contract("apart")
def _(ex, e, f, a):
    return UNIT


@contract("ensures")
def _(ex, e, f, a):
    label = lit(ex, a[0])
    where = ex.curloc
    c = ex.cond(a[1])
    if not ex.dry:
        o = Obl("post", label, list(ex.axioms) + list(ex.pc), c, where)
        # a contract checked inside a callback of the code may be out of reach in some configurations
        o.callback = any("/contracts/" not in str(fr["fn"].get("l", "")) for fr in ex.frames)
        ex.obls.append(o)
    return UNIT


def as_mat(v):
    if v.op == "mat":
        return v
    return mat_f(rows_(v), cols_(v), lambda i, j: at(v, i, j))


@contract("eq")
def _(ex, e, f, a):
    x, y = ex.rv(a[0]), ex.rv(a[1])
    if x.sort != "O":
        return eq(x, y)
    return eq(as_mat(x), as_mat(y))


CON["verif::eqn"] = CON["verif::eq"]


def seq_eq(x, y):
    return eq(x, y)


@contract("same")
def _(ex, e, f, a):
    x, y = ex.rv(a[0]), ex.rv(a[1])
    if ex.p.tname(a[0]["t"]) == "std::vector":
        return vecs_eq(x, y)
    if x.sort != "O":
        return eq(x, y)
    return eq(as_mat(x), as_mat(y))


def vecs_eq(x, y):
    n = len_(x)
    tag = ("vec",)

    def el(i):
        return eq(as_mat(get(x, i, "O", tag)), as_mat(get(y, i, "O", tag)))
    return and_(eq(n, len_(y)), forall("I", lambda i: implies(and_(ge0(i), lt(i, n)), el(i))))


@contract("eqvs")
def _(ex, e, f, a):
    return vecs_eq(ex.rv(a[0]), ex.rv(a[1]))


def call_lambda(ex, fe, vals, pcs):
    """value of a specification lambda; its effects are discarded"""
    loc = ex.lv(fe)
    st0 = dict(ex.st)
    n = len(ex.pc)
    ex.pc.extend(pcs)
    v = ex.call_value(loc, vals, {"rid": None})
    v = ex.models.deref_val(ex, v)
    del ex.pc[n:]
    ex.st = st0
    return v


@contract("inverse")
def _(ex, e, f, a):
    k = as_mat(ex.rv(a[0]))
    ex.oblige("safety", "specification: symmetric matrix", forall(["I", "I"], lambda i, j: implies(and_(ge0(j), ge0(i), lt(i, rows_(k)), lt(j, rows_(k))), eq(at(k, i, j), at(k, j, i)))))
    return linalg.kinv_mat(ex, k)


@contract("logdet")
def _(ex, e, f, a):
    k = linalg.canon(ex, as_mat(ex.rv(a[0])))
    return mul(R(2), sum_(rows_(k), lam_f(["I"], lambda i: log_(linalg.cholat(k, i, i)))))


@contract("is_chol")
def _(ex, e, f, a):
    l, k = as_mat(ex.rv(a[0])), as_mat(ex.rv(a[1]))
    ex.oblige("safety", "specification: symmetric matrix", forall(["I", "I"], lambda i, j: implies(and_(ge0(j), ge0(i), lt(i, rows_(k)), lt(j, rows_(k))), eq(at(k, i, j), at(k, j, i)))))
    k = linalg.canon(ex, k)
    return eq(l, mat_f(rows_(k), rows_(k), lambda i, j: ite(ge(i, j), linalg.cholat(k, i, j), R0)))


@contract("equiv")
def _(ex, e, f, a):
    x, y = ex.rv(a[0]), ex.rv(a[1])
    exc = set(lit(ex, a[2]).split())
    return rec_eq(x, y, exc)


def rec_eq(x, y, exc):
    if x.op == "rec" and y.op == "rec" and x.data == y.data:
        names = x.data[1]
        return and_(*[rec_eq(u, v, exc) for n, u, v in zip(names, x.args, y.args) if n not in exc])
    return eq(x, y)


@contract("recursive")
def _(ex, e, f, a):
    """recursive calls of the named function are checked against the contract given as a closure"""
    from .exec import UNIT
    ex.recursion[ex.rv(a[0]).data] = (ex.rv(a[1]), False)
    return UNIT


@contract("calls")
def _(ex, e, f, a):
    from .exec import UNIT
    ex.recursion[ex.rv(a[0]).data] = (ex.rv(a[1]), True)
    return UNIT


@contract("calls_on")
def _(ex, e, f, a):
    from .exec import UNIT
    ex.recursion[ex.rv(a[0]).data] = (ex.rv(a[1]), True, True)
    return UNIT


@contract("forall")
def _(ex, e, f, a):
    n = ex.rv(a[0])
    i = fresh("i", "I")
    v = call_lambda(ex, a[1], [i], [ge0(i), lt(i, n)])
    return forall_l(lam([i], implies(and_(ge0(i), lt(i, n)), v)))


@contract("exists")
def _(ex, e, f, a):
    n = ex.rv(a[0])
    i = fresh("i", "I")
    v = call_lambda(ex, a[1], [i], [ge0(i), lt(i, n)])
    return exists_l(lam([i], and_(ge0(i), lt(i, n), v)))


@contract("sum")
def _(ex, e, f, a):
    n = ex.rv(a[0])
    i = fresh("i", "I")
    v = to_real(call_lambda(ex, a[1], [i], [ge0(i), lt(i, n)]))
    return sum_(n, lam([i], v))


@contract("max_of")
def _(ex, e, f, a):
    """the largest of the n values (n >= 1)"""
    n = ex.rv(a[0])
    i = fresh("i", "I")
    l = lam([i], to_real(call_lambda(ex, a[1], [i], [ge0(i), lt(i, n)])))
    return app(l, mk("extarg", (n, l), "max", "I"))


@contract("build_vec")
def _(ex, e, f, a):
    n = ex.rv(a[0])
    i = fresh("i", "I")
    v = to_real(call_lambda(ex, a[1], [i], [ge0(i), lt(i, n)]))
    return mat(n, I1, lam([i, fresh("j", "I")], v))


@contract("build_mat")
def _(ex, e, f, a):
    n, m = ex.rv(a[0]), ex.rv(a[1])
    i, j = fresh("i", "I"), fresh("j", "I")
    v = to_real(call_lambda(ex, a[2], [i, j], [ge0(i), lt(i, n), ge0(j), lt(j, m)]))
    return mat(n, m, lam([i, j], v))


@contract("build_vecs")
def _(ex, e, f, a):
    n = ex.rv(a[0])
    i = fresh("i", "I")
    v = call_lambda(ex, a[1], [i], [ge0(i), lt(i, n)])
    return seq(n, lam([i], v), "O", ("vec",))


def autoseed(ex, e, f, a):
    """randutils::auto_seed_128: a seed nothing is known about (each use is a new one)"""
    return fresh("autoseed", "O")


for _n in ("auto_seeded", "base"):
    CON["randutils::auto_seeded::" + _n] = autoseed


@contract("deriv")
def _(ex, e, f, a):
    p = ex.rv(a[1])
    i = ex.rv(a[2])
    n = rows_(p)
    q = mk("var", (), (fresh("q", "O").data, "vec"), "O")
    qv = mat_f(n, I1, lambda x, y: at(q, x, I0))
    v = call_lambda(ex, a[0], [ex.temp(qv)], [])
    d = diff_term(v, q, i)
    return subst(d, {q: p})


def diff_term(t, q, i):
    """d t / d q(i)"""
    if q not in freevars(t):
        return R0 if t.sort == "R" else t
    if t.op == "at" and t.args[0] is q:
        return ite(eq(t.args[1], i), R1, R0)
    if t.op == "poly":
        r = R0
        for mono, c in t.data:
            for k, (x, e) in enumerate(mono):
                a = t.args[x]
                if q not in freevars(a):
                    continue
                rest = R(c)
                for y, (x2, e2) in enumerate(mono):
                    e3 = e2 - 1 if y == k else e2
                    rest = mul(rest, power(t.args[x2], e3))
                r = add(r, mul(rest, R(e), diff_term(a, q, i)))
        return r
    if t.op == "ite":
        if q in freevars(t.args[0]):
            raise Unsupported("derivative of a condition")
        return ite(t.args[0], diff_term(t.args[1], q, i), diff_term(t.args[2], q, i))
    if t.op == "sum":
        (k,), b = open_fresh(t.args[1], "s")
        return sum_(t.args[0], lam([k], diff_term(b, q, i)))
    if t.op == "uf" and t.data in ("exp", "log", "sqrt"):
        x = t.args[0]
        d = diff_term(x, q, i)
        if t.data == "exp":
            return mul(t, d)
        if t.data == "log":
            return mul(inv(x), d)
        return mul(R(1), d, inv(mul(R(2), t)))
    raise Unsupported("derivative of %s" % show(t)[:80])


def run_scenario(prog, name, prover, contracts=None, setup=None):
    statics = []
    while True:
        try:
            return run_scenario1(prog, name, prover, contracts, setup, statics)
        except NeedStatic as x:
            statics.append(x)


def run_scenario1(prog, name, prover, contracts, setup, statics):
    ex = Ex(prog, contracts=dict(CON, **(contracts or {})), prover=prover)
    ex.names = {}
    ex.assumed = []
    if setup:
        setup(ex)
    fn = prog.find("verif::" + name)[0]
    ex.pending = []
    ex.statics = []
    for x in statics:
        ex.st[x.root] = x.val
        ex.fr_globals().add(x.root)
        ex.statics += x.kept
    ex.call_fn(fn, None, [])
    for loc, v in ex.statics:
        ex.obls.append(Obl("frame", "distribution of a static generator is unchanged", list(ex.axioms) + list(ex.assumed), eq(ex.read(loc), v), ex.curloc))
    for o in ex.pending:
        if o.kind == "throw":
            ex.obls.append(Obl("safety", "no exception escapes (%s)" % (show(o.val) if o.val is not None else "?"), list(ex.axioms) + list(ex.assumed), not_(o.cond), ex.curloc))
    ex.pending = []
    return ex
