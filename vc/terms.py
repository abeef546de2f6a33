"""Hash-consed terms with a canonical form for linear/polynomial arithmetic, finite sums,
matrices (rows, cols, entry function), sequences and records.  Locally nameless binders.

Sorts: 'I' integers, 'R' reals (IEEE doubles are treated as mathematical reals),
'B' booleans, 'O' everything else (matrices, sequences, records, opaque objects)."""
from fractions import Fraction as Fr
import itertools

_tab = {}
_ctr = itertools.count(1)


class T:
    __slots__ = ("op", "args", "data", "sort", "id", "mb", "_poly", "_fv")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id

    def __hash__(self):
        return self.id      # sets of terms iterate in the same order on every run


def mk(op, args=(), data=None, sort="O"):
    key = (op, tuple(a.id for a in args), data, sort)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.data, t.sort = op, tuple(args), data, sort
        t.id = next(_ctr)
        t._poly = None
        t._fv = None
        # mb: number of loose bound variables (max index + 1)
        if op == "bv":
            t.mb = data + 1
        elif op == "lam":
            t.mb = max(0, args[0].mb - len(data))
        else:
            t.mb = max([a.mb for a in args], default=0)
        _tab[key] = t
    return t


# ---------------------------------------------------------------- basic
def num(v, sort):
    return mk("num", (), Fr(v), sort)


def I(v):
    return mk("num", (), Fr(v), "I")


def R(v):
    return mk("num", (), Fr(v), "R")


TRUE = mk("true", (), None, "B")
FALSE = mk("false", (), None, "B")
I0, I1, R0, R1 = I(0), I(1), R(0), R(1)


def B(v):
    return TRUE if v else FALSE


_fresh = itertools.count(1)


def var(name, sort):
    return mk("var", (), name, sort)


def fresh(name, sort):
    return mk("var", (), "%s!%d" % (name, next(_fresh)), sort)


def uf(name, args, sort):
    args = tuple(args)
    # distribute over a conditional object argument only when reading structure (see at/rows/...)
    return mk("uf", args, name, sort)


def is_num(t):
    return t.op == "num"


# ---------------------------------------------------------------- polynomials
def to_poly(t):
    """dict: monomial (tuple of (atom, exp)) -> Fraction"""
    if t._poly is not None:
        return t._poly
    if t.op == "num":
        p = {(): t.data} if t.data != 0 else {}
    elif t.op == "poly":
        p = {}
        for mono, c in t.data:
            p[tuple((t.args[i], e) for i, e in mono)] = c
    else:
        p = {((t, 1),): Fr(1)}
    t._poly = p
    return p


def mono_sort(d):
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: x[0].id))


def from_poly(p, sort):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return num(0, sort)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return num(c, sort)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    atoms = sorted({a for m in p for a, e in m}, key=lambda a: a.id)
    idx = {a: i for i, a in enumerate(atoms)}
    data = tuple(sorted(((tuple((idx[a], e) for a, e in m), c) for m, c in p.items()), key=lambda x: x[0]))
    return mk("poly", tuple(atoms), data, sort)


def padd(p, q, k=Fr(1)):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


ASSUMED = {}      # side assumptions used by the normaliser: kind -> set of terms


def note(kind, t):
    ASSUMED.setdefault(kind, set()).add(t)


def mono_mul(m1, m2):
    """product of two monomials as a polynomial (special atoms may expand)"""
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return _mono_norm(d)


def _mono_norm(d):
    extra = None
    coeff = Fr(1)
    exps = [(a, e) for a, e in d.items() if a.op == "uf" and a.data == "exp" and e != 0]
    if len(exps) > 1 or (len(exps) == 1 and exps[0][1] != 1):
        s = R0
        for a, e in exps:
            del d[a]
            s = add(s, mul(R(e), a.args[0]))
        extra = exp_(s)
    for a in [a for a in d if a.op == "uf" and a.data == "sqrt" and abs(d[a]) >= 2]:
        e = d.pop(a)
        q, r = divmod(abs(e), 2)
        sg = 1 if e > 0 else -1
        x = power(a.args[0], q * sg)
        note("nonneg", a.args[0])
        extra = x if extra is None else mul(extra, x)
        if r:
            d[a] = d.get(a, 0) + sg
    # a sum used as an atom of positive power (only arises from cancelled inverses)
    for a in [a for a in d if a.op == "poly" and d[a] > 0]:
        e = d.pop(a)
        x = power(a, e)
        extra = x if extra is None else mul(extra, x)
    base = {mono_sort(d): coeff}
    if extra is None:
        return base
    return pmul(base, to_poly(extra))


def pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            if not m1:
                r = padd(r, {m2: c1 * c2})
            elif not m2:
                r = padd(r, {m1: c1 * c2})
            else:
                r = padd(r, mono_mul(m1, m2), c1 * c2)
    return r


def _sort2(a, b):
    if a.sort == b.sort:
        return a, b, a.sort
    return to_real(a), to_real(b), "R"


def add(*ts):
    ts = list(ts)
    sort = "R" if any(t.sort == "R" for t in ts) else "I"
    p = {}
    for t in ts:
        if t.sort != sort:
            t = to_real(t)
        p = padd(p, to_poly(t))
    return from_poly(p, sort)


def sub(a, b):
    a, b, s = _sort2(a, b)
    return from_poly(padd(to_poly(a), to_poly(b), Fr(-1)), s)


def neg(a):
    return from_poly({m: -c for m, c in to_poly(a).items()}, a.sort)


def mul(*ts):
    ts = list(ts)
    sort = "R" if any(t.sort == "R" for t in ts) else "I"
    p = {(): Fr(1)}
    for t in ts:
        if t.sort != sort:
            t = to_real(t)
        p = pmul(p, to_poly(t))
    return from_poly(p, sort)


def inv(a):
    if a.sort == "I":
        a = to_real(a)
    p = to_poly(a)
    if not p:
        return uf("div0", (), "R")
    if len(p) == 1:
        (m, c), = p.items()
        d = {}
        for at_, e in m:
            note("nonzero", at_)
            d[at_] = -e
        return from_poly({k: v / c for k, v in _mono_norm(d).items()}, "R")
    # a sum: make the leading coefficient 1
    lead = from_poly(p, "R").data[0][1]
    t = from_poly({m: c / lead for m, c in p.items()}, "R")
    note("nonzero", t)
    return from_poly({((t, -1),): 1 / lead}, "R")


def div(a, b):
    return mul(to_real(a), inv(b))


def power(a, n):
    if n == 0:
        return num(1, a.sort)
    if n < 0:
        return inv(power(a, -n))
    r = a
    for _ in range(n - 1):
        r = mul(r, a)
    return r


def to_real(t):
    if t.sort == "R":
        return t
    if t.sort == "B":
        return ite(t, R1, R0)
    if t.op == "num":
        return R(t.data)
    if t.op == "poly":
        p = {(): Fr(0)}
        for m, c in to_poly(t).items():
            q = {(): c}
            for a, e in m:
                for _ in range(e):
                    q = pmul(q, to_poly(to_real(a)))
            p = padd(p, q)
        return from_poly(p, "R")
    if t.op == "ite":
        return ite(t.args[0], to_real(t.args[1]), to_real(t.args[2]))
    if t.op == "r2i" and t.args[0].op == "uf" and t.args[0].data == "floorR":
        return t.args[0]
    return mk("i2r", (t,), None, "R")


def b2i(t):
    return ite(t, I1, I0)


# ---------------------------------------------------------------- booleans
def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "ge0":
        p = a.args[0]
        if p.sort == "I":
            return ge0(sub(neg(p), I1))
        return gt0(neg(p))
    if a.op == "gt0":
        return ge0(neg(a.args[0]))
    if a.op == "and":
        return or_(*[not_(x) for x in a.args])
    if a.op == "or":
        return and_(*[not_(x) for x in a.args])
    if a.op == "forall":
        return mk("exists", (mk("lam", (not_(a.args[0].args[0]),), a.args[0].data),), None, "B")
    if a.op == "exists":
        return mk("forall", (mk("lam", (not_(a.args[0].args[0]),), a.args[0].data),), None, "B")
    return mk("not", (a,), None, "B")


def and_(*ts):
    out = []
    seen = set()
    for t in ts:
        for x in (t.args if t.op == "and" else (t,)):
            if x is TRUE or x.id in seen:
                continue
            if x is FALSE or not_(x).id in seen:
                return FALSE
            seen.add(x.id)
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    # integer bound subsumption: a-c1>=0 and a-c2>=0
    n0 = len(out)
    out = _bounds(out)
    if FALSE in out:
        return FALSE
    if len(out) == 1:
        return out[0]
    if len(out) < n0 and any(t.op == "eq0" for t in out):
        seen = set(t.id for t in out)
        if any(not_(t).id in seen for t in out):
            return FALSE
    return mk("and", tuple(sorted(out, key=lambda t: t.id)), None, "B")


def _bounds(out):
    best = {}
    rest = []
    for t in out:
        if t.op == "ge0" and t.args[0].sort == "I":
            p = dict(to_poly(t.args[0]))
            c = p.pop((), Fr(0))
            key = from_poly(p, "I")
            if key.id in best:
                k, c0, t0 = best[key.id]
                if c < c0:
                    best[key.id] = (key, c, t)
            else:
                best[key.id] = (key, c, t)
        else:
            rest.append(t)
    # a >= 0 and -a >= 0
    done = set()
    res = []
    for k, (p, c, t) in best.items():
        if k in done:
            continue
        n = neg(p)
        o = best.get(n.id)
        if o is not None and n is not p:
            if o[1] == -c:
                done |= {k, n.id}
                res.append(eq(t.args[0], I0))
                continue
            if o[1] < -c:
                return [FALSE]
        res.append(t)
    return rest + res


def or_(*ts):
    out = []
    seen = set()
    for t in ts:
        for x in (t.args if t.op == "or" else (t,)):
            if x is FALSE or x.id in seen:
                continue
            if x is TRUE or not_(x).id in seen:
                return TRUE
            seen.add(x.id)
            out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", tuple(sorted(out, key=lambda t: t.id)), None, "B")


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    return eq(a, b)


def _gcd(p):
    from math import gcd
    l = 1
    for c in p.values():
        l = l * c.denominator // gcd(l, c.denominator)
    g = 0
    for m, c in p.items():
        if m != ():
            g = gcd(g, int(c * l))
    return l, g


def ge0(p):
    if p.op == "num":
        return B(p.data >= 0)
    if p.op == "ite" and (is_num(p.args[1]) or is_num(p.args[2])):
        return or_(and_(p.args[0], ge0(p.args[1])), and_(not_(p.args[0]), ge0(p.args[2])))
    if p.sort == "I":
        d = to_poly(p)
        l, g = _gcd(d)
        if (l, g) != (1, 1):
            q = {m: c * l / g for m, c in d.items()}
            if () in q:
                q[()] = Fr(q[()].numerator // q[()].denominator)
            p = from_poly(q, "I")
    else:
        s = infsign(p) if p.op == "poly" else 0
        if s:
            return B(s > 0)
        d = to_poly(p)
        c = abs(p.data[0][1]) if p.op == "poly" else 1
        if c != 1:
            p = from_poly({m: v / c for m, v in d.items()}, "R")
    return mk("ge0", (p,), None, "B")


_has_inf = {}


def finite_atom(t):
    """a term whose value is a finite number (not the constant -infinity)"""
    if t.op in ("ext", "sum"):
        r = _has_inf.get(t.id)
        if r is None:
            r = _has_inf[t.id] = any(x.op == "uf" and x.data == "neginf" for x in subterms(t))
        return not r
    return t.op == "uf" and t.data != "neginf"


def infsign(p):
    """sign of c*(-infinity) + finite terms, 0 otherwise"""
    s = 0
    if not any(a.op == "uf" and a.data == "neginf" for a in p.args):
        return 0
    for mono, c in p.data:
        if len(mono) == 1 and mono[0][1] == 1 and p.args[mono[0][0]].op == "uf" and p.args[mono[0][0]].data == "neginf":
            s = -1 if c > 0 else 1
        elif not all(finite_atom(p.args[i]) and not (p.args[i].op == "uf" and p.args[i].data == "neginf") for i, e in mono):
            return 0
    return s


def gt0(p):
    if p.op == "num":
        return B(p.data > 0)
    if p.sort == "I":
        return ge0(sub(p, I1))
    if p.op == "poly":
        s = infsign(p)
        if s:
            return B(s > 0)
    if p.op == "ite" and (is_num(p.args[1]) or is_num(p.args[2])):
        return or_(and_(p.args[0], gt0(p.args[1])), and_(not_(p.args[0]), gt0(p.args[2])))
    c = abs(p.data[0][1]) if p.op == "poly" else 1
    if c != 1:
        p = from_poly({m: v / c for m, v in to_poly(p).items()}, "R")
    return mk("gt0", (p,), None, "B")


def ge(a, b):
    return ge0(sub(a, b))


def gt(a, b):
    return gt0(sub(a, b))


def le(a, b):
    return ge(b, a)


def lt(a, b):
    return gt(b, a)


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == "B" or b.sort == "B":
        if a.sort != "B":
            a = ne(a, num(0, a.sort))
        if b.sort != "B":
            b = ne(b, num(0, b.sort))
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        if a.id > b.id:
            a, b = b, a
        return mk("iff", (a, b), None, "B")
    if a.sort == "O":
        if a.id > b.id:
            a, b = b, a
        return mk("eqo", (a, b), None, "B")
    a, b, s = _sort2(a, b)
    p = sub(a, b)
    if p.op == "num":
        return B(p.data == 0)
    if p.op == "ite" and is_num(p.args[1]) and is_num(p.args[2]):
        x, y = p.args[1].data == 0, p.args[2].data == 0
        c = p.args[0]
        return TRUE if x and y else c if x else not_(c) if y else FALSE
    d = to_poly(p)
    l, g = _gcd(d)
    sgn = 1
    if p.op == "poly":
        # canonical sign / scale
        lead = [c for m, c in p.data if m != ()][0]
        q = {m: c / lead for m, c in d.items()}
        if s == "I":
            l, g = _gcd(q)
            q = {m: c * l / g for m, c in q.items()}
            if () in q and q[()].denominator != 1:
                return FALSE
        p = from_poly(q, s)
        # the leading coefficient must be positive
        lead = [c for m, c in p.data if m != ()][0] if p.op == "poly" else 1
        if lead < 0:
            p = neg(p)
    return mk("eq0", (p,), None, "B")


def ne(a, b):
    return not_(eq(a, b))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort != b.sort:
        if "B" in (a.sort, b.sort) and "O" not in (a.sort, b.sort):
            a = b2i(a) if a.sort == "B" else a
            b = b2i(b) if b.sort == "B" else b
            if a.sort != b.sort:
                a, b = to_real(a), to_real(b)
        elif "O" in (a.sort, b.sort):
            raise ValueError("ite sorts %s %s" % (a.sort, b.sort))
        else:
            a, b = to_real(a), to_real(b)
        if a is b:
            return a
    if a.sort == "B":
        return or_(and_(c, a), and_(not_(c), b))
    # canonical polarity
    n = not_(c)
    if c.op == "not" or (c.op in ("ge0", "gt0", "and", "or", "exists") and n.op in ("ge0", "gt0", "and", "or", "forall") and n.id < c.id):
        c, a, b = n, b, a
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    # ite(c, ite(d,x,y), y) = ite(c&d, x, y)
    if a.op == "ite" and a.args[2] is b:
        return ite(and_(c, a.args[0]), a.args[1], b)
    if a.op == "ite" and a.args[1] is b:
        return ite(and_(c, not_(a.args[0])), a.args[2], b)
    if b.op == "ite" and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    if b.op == "ite" and b.args[2] is a:
        return ite(or_(c, not_(b.args[0])), a, b.args[1])
    if a.op == "mat" and b.op == "mat":
        r, cc, l1, l2 = ite(c, a.args[0], b.args[0]), ite(c, a.args[1], b.args[1]), a.args[2], b.args[2]
        return mat_f(r, cc, lambda i, j: ite(c, app(l1, i, j), app(l2, i, j)))
    if a.op == "rec" and b.op == "rec" and a.data == b.data:
        return mk("rec", tuple(ite(c, x, y) for x, y in zip(a.args, b.args)), a.data, "O")
    return mk("ite", (c, a, b), None, a.sort)


# ---------------------------------------------------------------- binders
def lam(vs, body):
    n = len(vs)
    m = {v: n - 1 - i for i, v in enumerate(vs)}
    return mk("lam", (_close(body, m, 0, {}),), tuple(v.sort for v in vs), "O")


def _close(t, m, depth, memo):
    fv = freevars(t)
    if t.mb <= depth and not any(v in fv for v in m):
        return t
    key = (t.id, depth)
    if key in memo:
        return memo[key]
    if t.op == "var":
        r = mk("bv", (), m[t] + depth, t.sort) if t in m else t
    elif t.op == "bv":
        r = mk("bv", (), t.data + len(m), t.sort) if t.data >= depth else t
    elif t.op == "lam":
        r = mk("lam", (_close(t.args[0], m, depth + len(t.data), memo),), t.data, "O")
    else:
        r = rebuild(t, [_close(a, m, depth, memo) for a in t.args])
    memo[key] = r
    return r


def app(l, *args):
    assert l.op == "lam", l.op
    n = len(l.data)
    assert n == len(args), (n, len(args))
    return _open(l.args[0], {n - 1 - i: a for i, a in enumerate(args)}, n, 0, {})


def _open(t, m, n, depth, memo):
    if t.mb <= depth:
        return t
    key = (t.id, depth)
    if key in memo:
        return memo[key]
    if t.op == "bv":
        i = t.data - depth
        if i < 0:
            r = t
        elif i < n:
            r = m[i]
            if r.mb and depth:
                r = _shift(r, depth, 0, {})
        else:
            r = mk("bv", (), t.data - n, t.sort)
    elif t.op == "lam":
        r = mk("lam", (_open(t.args[0], m, n, depth + len(t.data), memo),), t.data, "O")
    else:
        r = rebuild(t, [_open(a, m, n, depth, memo) for a in t.args])
    memo[key] = r
    return r


def _shift(t, k, depth, memo):
    if t.mb <= depth:
        return t
    key = (t.id, depth)
    if key in memo:
        return memo[key]
    if t.op == "bv":
        r = mk("bv", (), t.data + k, t.sort) if t.data >= depth else t
    elif t.op == "lam":
        r = mk("lam", (_shift(t.args[0], k, depth + len(t.data), memo),), t.data, "O")
    else:
        r = rebuild(t, [_shift(a, k, depth, memo) for a in t.args])
    memo[key] = r
    return r


def open_fresh(l, *hints):
    vs = [fresh(hints[i] if i < len(hints) else "b", s) for i, s in enumerate(l.data)]
    return vs, app(l, *vs)


def lam_f(sorts, f, hint="b"):
    vs = [fresh(hint, s) for s in sorts]
    return lam(vs, f(*vs))


def freevars(t):
    if t._fv is None:
        if t.op == "var":
            t._fv = frozenset([t])
        else:
            s = frozenset()
            for a in t.args:
                f = freevars(a)
                if f:
                    s = s | f if s else f
            t._fv = s
    return t._fv


def occurs(v, t):
    return v in freevars(t)


def subst(t, m):
    """simultaneous substitution of variables (dict var -> term)"""
    m = {k: v for k, v in m.items() if k is not v}
    if not m:
        return t
    return _subst(t, m, {}, 0)


def _subst(t, m, memo, depth):
    fv = freevars(t)
    if not any(v in fv for v in m):
        return t
    key = (t.id, depth)
    if key in memo:
        return memo[key]
    if t.op == "var":
        r = m[t]
        if r.mb and depth:
            r = _shift(r, depth, 0, {})
    elif t.op == "lam":
        r = mk("lam", (_subst(t.args[0], m, memo, depth + len(t.data)),), t.data, "O")
    else:
        r = rebuild(t, [_subst(a, m, memo, depth) for a in t.args])
    memo[key] = r
    return r


def replace(t, f):
    """bottom-up rewriting: f(node, newargs) -> term or None"""
    memo = {}

    def go(t):
        if t.id in memo:
            return memo[t.id]
        if t.op == "lam":
            r = mk("lam", (go(t.args[0]),), t.data, "O")
        else:
            args = [go(a) for a in t.args]
            r = None
            if f is not None:
                r = f(t, args)
            if r is None:
                r = rebuild(t, args)
        memo[t.id] = r
        return r

    return go(t)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(x.args)


def rebuild(t, args):
    op = t.op
    if all(x is y for x, y in zip(args, t.args)):
        return t
    if op == "poly":
        p = {}
        for mono, c in t.data:
            q = {(): c}
            for i, e in mono:
                a = args[i]
                if e < 0:
                    a, e2 = inv(a), -e
                else:
                    e2 = e
                if a is t.args[i] and e > 0:
                    q = pmul(q, {((a, e),): Fr(1)})
                else:
                    pa = to_poly(a)
                    for _ in range(e2):
                        q = pmul(q, pa)
            p = padd(p, q)
        return from_poly(p, t.sort)
    f = REB.get(op)
    if f:
        return f(t, args)
    if op == "uf":
        g = UFN.get(t.data)
        if g:
            return g(*args)
        return mk("uf", tuple(args), t.data, t.sort)
    return mk(op, tuple(args), t.data, t.sort)


# ---------------------------------------------------------------- matrices
def mat(rows, cols, l):
    # eta
    b = l.args[0]
    if b.op == "at" and b.args[1].op == "bv" and b.args[2].op == "bv" and b.args[1].data == 1 and b.args[2].data == 0 and b.args[0].mb == 0:
        m = b.args[0]
        if rows_(m) is rows and cols_(m) is cols:
            return m
    if cols is I1 and b.op == "at" and b.args[1].op == "bv" and b.args[1].data == 1 and b.args[2] is I0 and b.args[0].mb == 0:
        m = b.args[0]
        if rows_(m) is rows and cols_(m) is cols:
            return m
    return mk("mat", (rows, cols, l), None, "O")


def mat_f(rows, cols, f):
    i, j = fresh("i", "I"), fresh("j", "I")
    jj = I0 if cols is I1 else j
    ii = I0 if rows is I1 else i
    return mat(rows, cols, lam([i, j], f(ii, jj)))


def vec_f(n, f):
    return mat_f(n, I1, lambda i, j: f(i))


def rows_(m):
    if m.op == "mat":
        return m.args[0]
    if m.op == "ite":
        return ite(m.args[0], rows_(m.args[1]), rows_(m.args[2]))
    return mk("rows", (m,), None, "I")


VECS = set()   # ids of opaque terms known to be column vectors


def mark_vec(t):
    VECS.add(t.id)
    return t


VEC_UF = set()   # names of functions returning column vectors
NAT_UF = set()      # abstract functions of an unsigned type


def cols_(m):
    if m.op == "mat":
        return m.args[1]
    if m.op == "ite":
        return ite(m.args[0], cols_(m.args[1]), cols_(m.args[2]))
    if is_vec(m):
        return I1
    return mk("cols", (m,), None, "I")


def is_vec(m):
    if m.id in VECS:
        return True
    if m.op == "uf" and m.data in VEC_UF:
        return True
    if m.op in ("get", "fld", "fold", "appl", "bv", "var") and isinstance(m.data, tuple) and "vec" in m.data:
        return True
    return False


def at(m, i, j):
    if m.op == "mat":
        return app(m.args[2], i, j)
    if m.op == "ite":
        return ite(m.args[0], at(m.args[1], i, j), at(m.args[2], i, j))
    if is_vec(m):
        j = I0
    return mk("at", (m, i, j), None, "R")


def vat(m, i):
    return at(m, i, I0)


# ---------------------------------------------------------------- sequences
def seq(n, l, es, tag=None):
    """sequence; es: element sort, tag: ('vec',) when elements are column vectors"""
    b = l.args[0]
    if b.op == "get" and b.args[1].op == "bv" and b.args[1].data == 0 and b.args[0].mb == 0 and len_(b.args[0]) is n:
        return b.args[0]
    return mk("seq", (n, l), (es, tag), "O")


def seq_f(n, f, es, tag=None):
    i = fresh("i", "I")
    return seq(n, lam([i], f(i)), es, tag)


def len_(s):
    if s.op == "seq":
        return s.args[0]
    if s.op == "ite":
        return ite(s.args[0], len_(s.args[1]), len_(s.args[2]))
    return mk("len", (s,), None, "I")


def get(s, i, es, tag=None):
    if s.op == "seq":
        return app(s.args[1], i)
    if s.op == "ite":
        return ite(s.args[0], get(s.args[1], i, es, tag), get(s.args[2], i, es, tag))
    return mk("get", (s, i), (es, tag), es)


# ---------------------------------------------------------------- records
def rec(name, fields):
    return mk("rec", tuple(fields[k] for k in fields), (name, tuple(fields)), "O")


def fld(r, name, sort, tag=None):
    if r.op == "rec":
        return r.args[r.data[1].index(name)]
    if r.op == "ite":
        return ite(r.args[0], fld(r.args[1], name, sort, tag), fld(r.args[2], name, sort, tag))
    return mk("fld", (r,), (name, sort, tag), sort)


# ---------------------------------------------------------------- sums
_summemo = {}
SQSUMS = {}       # expanded sums whose summand is a square (hence non-negative): found by the normaliser


def _mono_sqrt(m):
    """square root of a monomial, or None"""
    r = R1
    for a, e in m:
        if a.op == "uf" and a.data == "exp" and e == 1:
            r = mul(r, exp_(mul(R(Fr(1, 2)), a.args[0])))
        elif e % 2 == 0:
            r = mul(r, power(a, e // 2))
        else:
            return None
    return r


def square_root(t):
    """q with q*q = t (checked by multiplication), or None"""
    from math import isqrt
    d = to_poly(t)
    if len(d) > 30:
        return None
    sq = []
    for m, c in d.items():
        if c > 0:
            a, b = c.numerator, c.denominator
            if isqrt(a) ** 2 == a and isqrt(b) ** 2 == b:
                s = _mono_sqrt(m)
                if s is not None:
                    sq.append(mul(R(Fr(isqrt(a), isqrt(b))), s))
    if not sq or len(sq) > 6:
        return None
    for k in range(len(sq), 0, -1):
        if k * (k + 1) // 2 < len(d):
            break
        for sub_ in itertools.combinations(sq, k):
            # signs relative to the first
            q = sub_[0]
            for x in sub_[1:]:
                cr = to_poly(mul(sub_[0], x))
                (m1, c1), = list(cr.items())[:1] or [((), 0)]
                v = d.get(m1, 0)
                q = add(q, x) if v * c1 >= 0 else sub(q, x)
            if mul(q, q) is t:
                return q
    return None




def sum_(n, l):
    """sum_{i=0}^{n-1} l(i); empty when n<=0.  Canonical: every sum node is a connected
    component (no factor or index can be pulled out), index order chosen by structural key."""
    key = (n.id, l.id)
    r = _summemo.get(key)
    if r is None:
        (i,), body = open_fresh(l, "s")
        r = msum([(i, n)], body)
        _summemo[key] = r
        if r.op == "poly" and body.op == "poly" and body.sort == "R" and square_root(body) is not None:
            SQSUMS[r.id] = r
    return r


def lam_sort(l):
    return l.args[0].sort


def msum(vs, body):
    srt = body.sort
    # bodies with a conditional at the top: handled per monomial below
    for k, (v, n) in enumerate(vs):
        if n.op == "num":
            m = int(n.data)
            if m <= 0:
                return num(0, srt)
            if m <= 4:
                rest = vs[:k] + vs[k + 1:]
                out = num(0, srt)
                for q in range(m):
                    b = subst(body, {v: I(q)})
                    vv = [(x, subst(nn, {v: I(q)})) for x, nn in rest]
                    out = add(out, msum(vv, b) if vv else b)
                return out
    p = to_poly(body)
    res = num(0, srt)
    plain = {}
    for m, c in p.items():
        r = _msum1(vs, m, srt)
        res = add(res, mul(num(c, srt), r))
    return res


SUMRULES = []


def _msum1(vs, m, srt):
    names = [v for v, n in vs]
    dep = [(a, e) for a, e in m if any(v in freevars(a) for v in names)]
    ind = from_poly({tuple((a, e) for a, e in m if (a, e) not in dep): Fr(1)}, srt)
    # expand sum factors
    for a, e in dep:
        if a.op == "sum" and e >= 1:
            nv, body = [], R1 if srt == "R" else I1
            for _ in range(e):
                x = a
                while x.op == "sum":
                    (j,), b = open_fresh(x.args[1], "s")
                    nv.append((j, x.args[0]))
                    x = b
                body = mul(body, x)
            rest = from_poly({tuple((b, k) for b, k in dep if b is not a): Fr(1)}, srt)
            return mul(ind, msum(vs + nv, mul(rest, body)))
    # conditional elimination
    for a, e in dep:
        if a.op == "ite" and e >= 1:
            c = a.args[0]
            rest = from_poly({tuple((b, k if b is not a else k - 1) for b, k in dep if b is not a or k > 1): Fr(1)}, srt)
            if c.op == "and":
                for l in c.args:
                    if any(solve_eq(l, v) is not None or solve_lt(l, v) is not None for v, n in vs):
                        r_ = and_(*[y for y in c.args if y is not l])
                        a2 = mk("ite", (l, ite(r_, a.args[1], a.args[2]), a.args[2]), None, a.sort)
                        if a2 is not a:
                            q = tuple((b if b is not a else a2, k) for b, k in dep)
                            return mul(ind, _msum1(vs, q, srt))
            for k, (v, n) in enumerate(vs):
                others = vs[:k] + vs[k + 1:]
                if any(occurs(v, nn) for x, nn in others):
                    # v bounds another index: only safe for equalities resolved by substitution
                    pass
                x_, y_ = mul(rest, a.args[1]), mul(rest, a.args[2])
                e1 = solve_eq(c, v)
                if e1 is not None:
                    hit = ite(and_(ge(e1, I0), lt(e1, n)), subst(sub(x_, y_), {v: e1}), num(0, srt))
                    oth = [(w, subst(nn, {v: e1})) for w, nn in others]
                    if any(occurs(w, e1) or occurs(w, n) for w, nn in vs[k + 1:]):
                        continue
                    t1 = msum(oth, hit) if oth else hit
                    return mul(ind, add(msum(vs, y_), t1))
                e2 = solve_lt(c, v)
                if e2 is not None and not any(occurs(w, e2) for w, nn in vs[k + 1:]):
                    mn = min_(max_(e2, I0), n)
                    vs2 = vs[:k] + [(v, mn)] + vs[k + 1:]
                    return mul(ind, add(msum(vs, y_), msum(vs2, sub(x_, y_))))
    # conditional bounds  n = ite(c, a, b) with c independent of the index variables: lift
    for k, (v, n) in enumerate(vs):
        if n.op == "ite" and not any(occurs(w, n.args[0]) for w in names):
            b = from_poly({tuple(dep): Fr(1)}, srt)
            r1 = msum(vs[:k] + [(v, n.args[1])] + vs[k + 1:], b)
            r2 = msum(vs[:k] + [(v, n.args[2])] + vs[k + 1:], b)
            return mul(ind, ite(n.args[0], r1, r2))
    for rule in SUMRULES:
        r = rule(vs, dep, srt)
        if r is not None:
            return mul(ind, msum(r[0], r[1]))
    # connected components
    par = {v: v for v in names}

    def find(x):
        while par[x] is not x:
            x = par[x]
        return x

    def union(ws):
        for w in ws[1:]:
            ra, rb = find(ws[0]), find(w)
            if ra is not rb:
                par[rb] = ra
    for a, e in dep:
        union([v for v in names if occurs(v, a)])
    for v, n in vs:
        union([v] + [w for w in names if occurs(w, n)])
    comps = {}
    for v, n in vs:
        comps.setdefault(find(v), []).append((v, n))
    res = ind
    for root, cv in comps.items():
        cn = [v for v, n in cv]
        fac = from_poly({tuple((a, e) for a, e in dep if any(occurs(v, a) for v in cn)): Fr(1)}, srt)
        res = mul(res, _csum(cv, fac, srt))
    return res


def _csum(cv, fac, srt):
    best = None
    for perm in itertools.permutations(cv):
        seen = set()
        ok = True
        names = [v for v, n in cv]
        for v, n in perm:
            if any(occurs(w, n) and w not in seen for w in names):
                ok = False
                break
            seen.add(v)
        if not ok:
            continue
        t = fac
        for v, n in reversed(perm):
            t = mk("sum", (n, raw_lam(v, t)), None, srt)
        if best is None or skey(t) < skey(best):
            best = t
        if len(cv) > 5:
            break
    return best


def raw_lam(v, body):
    return mk("lam", (_close_raw(body, v, 0, {}),), (v.sort,), "O")


def _close_raw(t, v, depth, memo):
    """close without re-normalising sum nodes"""
    fv = freevars(t)
    if t.mb <= depth and v not in fv:
        return t
    key = (t.id, depth)
    if key in memo:
        return memo[key]
    if t is v:
        r = mk("bv", (), depth, t.sort)
    elif t.op == "bv":
        r = mk("bv", (), t.data + 1, t.sort) if t.data >= depth else t
    elif t.op == "lam":
        r = mk("lam", (_close_raw(t.args[0], v, depth + len(t.data), memo),), t.data, "O")
    else:
        args = [_close_raw(a, v, depth, memo) for a in t.args]
        r = mk("sum", tuple(args), None, t.sort) if t.op == "sum" else rebuild(t, args)
    memo[key] = r
    return r


def ite_replace(mono, a):
    """mono with factor a (an ite) replaced by its two branches"""
    if mono is a:
        return a.args[1], a.args[2]
    p = to_poly(mono)
    (m, c), = p.items()
    rest = from_poly({tuple((x, e) for x, e in m if x is not a): c}, mono.sort)
    return mul(rest, a.args[1]), mul(rest, a.args[2])


def min_(a, b):
    return ite(le(a, b), a, b)


def max_(a, b):
    return ite(ge(a, b), a, b)


def solve_eq(c, i):
    """c is  i == e  with e free of i: return e"""
    if c.op != "eq0":
        return None
    p = c.args[0]
    if p.sort != "I":
        return None
    d = to_poly(p)
    k = d.get(((i, 1),))
    if k is None or abs(k) != 1:
        return None
    rest = {m: -cc / k for m, cc in d.items() if m != ((i, 1),)}
    e = from_poly(rest, "I")
    if occurs(i, e):
        return None
    return e


def solve_lt(c, i):
    """c is  i < e  with e free of i: return e (None otherwise)"""
    if c.op != "ge0" or c.args[0].sort != "I":
        return None
    d = to_poly(c.args[0])
    k = d.get(((i, 1),))
    if k is None or k != -1:
        return None
    rest = {m: cc for m, cc in d.items() if m != ((i, 1),)}
    e = from_poly(rest, "I")
    if occurs(i, e):
        return None
    return add(e, I1)


_skey = {}


def skey(t):
    """structural key (total order independent of creation order, up to fresh names)"""
    k = _skey.get(t.id)
    if k is None:
        d = t.data
        k = (t.op, str(d), tuple(skey(a) for a in t.args))
        import hashlib
        k = hashlib.md5(repr(k).encode()).hexdigest()
        _skey[t.id] = k
    return k


# ---------------------------------------------------------------- scalar functions
def exp_(x):
    x = to_real(x)
    if x.op == "num" and x.data == 0:
        return R1
    # exp(c*log y + rest) = y^c * exp(rest) for integer / half-integer c
    p = to_poly(x)
    fac = None
    rest = {}
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "uf" and m[0][0].data == "log" and (2 * c).denominator == 1:
            y = m[0][0].args[0]
            note("positive", y)
            k2 = int(2 * c)
            q, r = divmod(k2, 2)
            f = power(y, q)
            if r:
                f = mul(f, sqrt_(y))
            fac = f if fac is None else mul(fac, f)
        else:
            rest[m] = c
    if fac is not None:
        return mul(fac, exp_(from_poly(rest, "R")))
    return mk("uf", (x,), "exp", "R")


def log_(x):
    x = to_real(x)
    if x.op == "num" and x.data == 1:
        return R0
    if x.op == "uf" and x.data == "exp":
        return x.args[0]
    if x.op == "uf" and x.data == "sqrt":
        return mul(R(Fr(1, 2)), log_(x.args[0]))
    return mk("uf", (x,), "log", "R")


def sqrt_(x):
    x = to_real(x)
    if x.op == "num":
        from math import isqrt
        a, b = x.data.numerator, x.data.denominator
        if a >= 0 and isqrt(a) ** 2 == a and isqrt(b) ** 2 == b:
            return R(Fr(isqrt(a), isqrt(b)))
    if x.op == "uf" and x.data == "exp":
        return exp_(mul(R(Fr(1, 2)), x.args[0]))
    return mk("uf", (x,), "sqrt", "R")


def abs_(x):
    if is_num(x):
        return num(abs(x.data), x.sort)
    return ite(ge(x, num(0, x.sort)), x, neg(x))


UFN = {"exp": exp_, "log": log_, "sqrt": sqrt_}

REB = {
    "ite": lambda t, a: ite(*a),
    "and": lambda t, a: and_(*a),
    "or": lambda t, a: or_(*a),
    "not": lambda t, a: not_(a[0]),
    "ge0": lambda t, a: ge0(a[0]),
    "gt0": lambda t, a: gt0(a[0]),
    "eq0": lambda t, a: eq(a[0], num(0, a[0].sort)),
    "eqo": lambda t, a: eq(a[0], a[1]),
    "iff": lambda t, a: eq(a[0], a[1]),
    "i2r": lambda t, a: to_real(a[0]),
    "mat": lambda t, a: mat(*a),
    "rows": lambda t, a: rows_(a[0]),
    "cols": lambda t, a: cols_(a[0]),
    "at": lambda t, a: at(*a),
    "seq": lambda t, a: seq(a[0], a[1], *t.data),
    "len": lambda t, a: len_(a[0]),
    "get": lambda t, a: get(a[0], a[1], *t.data),
    "fld": lambda t, a: fld(a[0], *t.data),
    "sum": lambda t, a: sum_(*a),
    "forall": lambda t, a: forall_l(a[0]),
    "exists": lambda t, a: exists_l(a[0]),
    "r2i": lambda t, a: r2i(a[0]),
    "idiv": lambda t, a: idiv(*a),
    "imod": lambda t, a: imod(*a),
}


def forall_l(l):
    b = l.args[0]
    if b in (TRUE, FALSE):
        return b
    return mk("forall", (l,), None, "B")


def exists_l(l):
    b = l.args[0]
    if b in (TRUE, FALSE):
        return b
    return mk("exists", (l,), None, "B")


def forall(sorts, f, hint="q"):
    return forall_l(lam_f(sorts, f, hint))


def exists(sorts, f, hint="q"):
    return exists_l(lam_f(sorts, f, hint))


def forall_range(n, f, lo=I0):
    return forall("I", lambda i: implies(and_(le(lo, i), lt(i, n)), f(i)))


def r2i(x):
    if x.op == "num":
        return I(int(x.data))
    if x.op == "i2r":
        return x.args[0]
    p = to_poly(x)
    if all(all(a.op == "i2r" for a, e in m) and c.denominator == 1 for m, c in p.items()):
        q = {}
        for m, c in p.items():
            t = {(): c}
            for a, e in m:
                for _ in range(e):
                    t = pmul(t, to_poly(a.args[0]))
            q = padd(q, t)
        return from_poly(q, "I")
    return mk("r2i", (x,), None, "I")


def idiv(a, b):
    if is_num(a) and is_num(b) and b.data != 0:
        q = abs(int(a.data)) // abs(int(b.data))
        return I(q if (a.data >= 0) == (b.data > 0) else -q)
    return mk("idiv", (a, b), None, "I")


def imod(a, b):
    if is_num(a) and is_num(b) and b.data != 0:
        q = abs(int(a.data)) % abs(int(b.data))
        return I(q if a.data >= 0 else -q)
    return mk("imod", (a, b), None, "I")


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if d > 14:
        return "..."
    o = t.op
    s = lambda x: show(x, d + 1)
    if o == "num":
        return str(t.data)
    if o == "var":
        return str(t.data)
    if o == "bv":
        return "#%d" % t.data
    if o in ("true", "false"):
        return o
    if o == "poly":
        parts = []
        for mono, c in t.data:
            fs = []
            for i, e in mono:
                x = s(t.args[i])
                if t.args[i].op == "poly":
                    x = "(" + x + ")"
                fs.append(x if e == 1 else "%s^%d" % (x, e))
            if c != 1 or not fs:
                fs.insert(0, str(c))
            parts.append("*".join(fs))
        return "(" + " + ".join(parts) + ")"
    if o == "uf":
        return "%s(%s)" % (t.data, ", ".join(s(a) for a in t.args)) if t.args else t.data
    if o == "ge0":
        return s(t.args[0]) + ">=0"
    if o == "gt0":
        return s(t.args[0]) + ">0"
    if o == "eq0":
        return s(t.args[0]) + "=0"
    if o == "at":
        return "%s[%s,%s]" % tuple(map(s, t.args))
    if o == "get":
        return "%s<%s>" % tuple(map(s, t.args))
    if o == "ite":
        return "ite(%s, %s, %s)" % tuple(map(s, t.args))
    if o == "lam":
        return "\\" + s(t.args[0])
    if o == "fld":
        return s(t.args[0]) + "." + t.data[0]
    return "%s(%s)" % (o if t.data is None or o in ("seq",) else o + ":" + str(t.data), ", ".join(s(a) for a in t.args))
