"""Obligation discharge: canonical forms, contextual simplification, extensionality, case splits,
sum / fold reasoning, and SMT (z3, then cvc5)."""
import time, subprocess, os
import z3
from .terms import *
from . import terms as tm
from . import linalg
from .smt import Smt, loose, SORT

z3.set_param("smt.random_seed", 1)
z3.set_param("smt.arith.nl.grobner", False)
z3.set_param("smt.arith.nl.horner", False)
z3.set_param("smt.arith.nl.rounds", 32)


def conj(t):
    return list(t.args) if t.op == "and" else [t]


def rng(i, n, lo=I0):
    return and_(le(lo, i), lt(i, n))


FACTS = {}


def facts_of(t):
    r = FACTS.get(t.id)
    if r is None:
        r = facts_of_(t)
        if t.op != "uf" or t.data != "sort":
            FACTS[t.id] = r
    return r


RANGE = {}      # uninterpreted stand-ins of loop results -> range of their elements


def interval(t):
    """bounds that hold by the shape of a term (clamping conditionals)"""
    if t.op == "num":
        return t.data, t.data
    if t.op == "at" and t.args[0].op == "fold" and nonneg(t.args[0].args[0]):
        return unguarded(fold_range(t.args[0]))
    if t.op == "at" and t.args[0].op == "uf" and t.args[0].data in RANGE and nonneg(t.args[0].args[0]):
        return unguarded(RANGE[t.args[0].data])
    if t.op == "poly":
        lo = hi = Fr(0)
        for m, c in to_poly(t).items():
            u = (Fr(1), Fr(1)) if not m else interval(m[0][0]) if len(m) == 1 and m[0][1] == 1 else (None, None)
            if c < 0:
                u = u[1], u[0]
            lo = None if lo is None or u[0] is None else lo + c * u[0]
            hi = None if hi is None or u[1] is None else hi + c * u[1]
            if lo is None and hi is None:
                break
        return lo, hi
    if t.op == "ite":
        c, a, b = t.args
        u = list(interval(a))
        v = list(interval(b))
        if c.op in ("gt0", "ge0"):
            for br, w, sg in ((b, v, 1), (a, u, -1)):
                # br is taken when  sg * p <= 0
                pp, pb = to_poly(c.args[0]), to_poly(br)
                k = next((pp[m] / x for m, x in pb.items() if m and m in pp), None)
                if k is None:
                    continue
                if br.sort != "R" and abs(k) != 1:
                    continue
                d = sub(c.args[0], mul(num(k, br.sort), br))
                if d.op == "num":      # p = k br + d
                    lim(w, 1 if (sg > 0) == (k > 0) else 0, -d.data / k)
        return (None if u[0] is None or v[0] is None else min(u[0], v[0])), (None if u[1] is None or v[1] is None else max(u[1], v[1]))
    return None, None


def nonneg(n):
    return n.op in ("first", "len") or (n.op == "num" and n.data >= 0) or (n.op == "ite" and n.args[0] is ge0(n.args[1]) and n.args[2] is I0)


def by_interval(g):
    if g.op not in ("ge0", "gt0") or g.args[0].sort != "R":
        return False
    lo = interval(g.args[0])[0]
    return lo is not None and (lo > 0 or (lo == 0 and g.op == "ge0"))


def lim(w, k, x):
    if w[k] is None or (x > w[k] if k == 0 else x < w[k]):
        w[k] = x


FOLDRANGE = {}


def fold_range(f):
    """range of the elements of a vector that a loop computes, whatever its number of iterations"""
    key = (f.data,) + tuple(a.id for a in f.args[1:])
    r = FOLDRANGE.get(key)
    if r is None:
        from .loops import fold_parts
        n, inits, lams = fold_parts(f)
        q = f.data[0] if isinstance(f.data, tuple) else f.data
        i = fresh("i", "I")
        vs, b = open_fresh(lams[q], *["s"] * len(lams[q].data))
        join = lambda a, b: tuple(None if x is None or y is None else m(x, y) for x, y, m in ((a[0], b[0], min), (a[1], b[1], max)))
        r, guard = (None, None), None
        if f.sort == "R":
            r = join(interval(inits[q]), interval(b))
        elif is_vec(f):
            x, y = vat(inits[q], i), vat(b, i)
            r = join(interval(x), interval(y))
            if r == (None, None):
                # the elements that exist initially
                n = rows_(inits[q])
                z = [assume(t, lt(i, n), True) for t in (x, y)]
                if z[0] is not x or z[1] is not y:
                    r, guard = join(interval(z[0]), interval(z[1])), n
        r += (guard if r != (None, None) else None,)
        FOLDRANGE[key] = r
    return r


def unguarded(r):
    return r[:2] if r[2] is None else (None, None)


def range_facts(t, n, r):
    fs = []
    g = ge0(n) if r[2] is None else and_(ge0(n), ge0(t.args[1]), lt(t.args[1], r[2]))
    if r[0] is not None:
        fs.append(implies(g, ge(t, R(r[0]))))
    if r[1] is not None:
        fs.append(implies(g, le(t, R(r[1]))))
    return fs


def facts_of_(t):
    """instances of the theory axioms for a closed term (trusted; listed in DESIGN.md)"""
    o = t.op
    if o in ("rows", "cols", "len"):
        return [ge0(t)]
    if o == "at":
        m = t.args[0]
        if m.op == "fold":
            return range_facts(t, m.args[0], fold_range(m))
        if m.op == "uf" and m.data in RANGE:
            return range_facts(t, m.args[0], RANGE[m.data])
        return []
    if o == "fold" and t.sort == "R":
        return range_facts(t, t.args[0], fold_range(t))
    if o == "imod":
        a, b = t.args
        return [implies(gt0(b), and_(lt(t, b), gt(t, neg(b)), implies(ge0(a), ge0(t)), implies(and_(ge0(a), lt(a, b)), eq(t, a))))]
    if o == "uf":
        if t.data in tm.NAT_UF and t.sort == "I":
            return [ge0(t)]
        if t.data == "exp":
            x = t.args[0]
            return [gt0(t), ge(t, add(R1, x)), implies(ge0(x), ge(t, add(R1, x, mul(R(Fr(1, 2)), x, x)))), implies(ge0(neg(x)), le(t, R1))]
        if t.data == "sqrt":
            x = t.args[0]
            return [implies(ge0(x), and_(ge0(t), mk("eq0", (sub(mk("poly", (t,), ((((0, 2),), Fr(1)),), "R"), x),), None, "B") if False else sqrt_fact(t, x)))]
        if t.data == "sort":
            return sort_facts(t)
        if t.data in RANGE and t.sort == "R":
            return range_facts(t, t.args[0], RANGE[t.data])
        if t.data in ("shuffled", "unshuffled"):
            i, n = t.args[2], t.args[1]
            return [implies(rng(i, n), rng(t, n))]
        if t.data == "pi":
            return [gt(t, R(3)), lt(t, R(4))]
        if t.data.startswith("eps<") or t.data.startswith("max<") or t.data.startswith("min<"):
            return [gt0(t)]
        if t.data == "draw" and t.args[0].op == "dist":
            a = t.args[0]
            if a.data.startswith("uniform_real") and len(a.args) == 2:
                return [implies(lt(a.args[0], a.args[1]), and_(ge(t, a.args[0]), lt(t, a.args[1])))]
            if a.data.startswith("uniform_int") and len(a.args) == 2:
                return [implies(le(a.args[0], a.args[1]), and_(ge(t, a.args[0]), le(t, a.args[1])))]
        return []
    if o in ("ext", "extarg"):
        n, l = t.args
        a = mk("extarg", (n, l), t.data, "I")
        last = t.data.endswith("last")
        kind = t.data[:3]
        e = mk("ext", (n, l), kind, "R")
        le_ = le if kind == "max" else ge
        lt_ = lt if kind == "max" else gt
        pos = gt(n, I0)
        return [implies(pos, and_(rng(a, n), eq(app(l, a), e))),
                forall("I", lambda i: implies(rng(i, n), le_(app(l, i), e))),
                forall("I", lambda i: implies(and_(rng(i, n), gt(i, a) if last else lt(i, a)), lt_(app(l, i), e)))]
    if o == "extrel":
        n, l = t.args
        # comparator assumed to be a strict weak order (trusted: std::max_element contract)
        if t.data == "max":
            return [implies(gt(n, I0), rng(t, n)),
                    forall("I", lambda i: implies(rng(i, n), not_(app(l, t, i)))),
                    forall("I", lambda i: implies(rng(i, t), app(l, i, t)))]
        return [implies(gt(n, I0), rng(t, n)),
                forall("I", lambda i: implies(rng(i, n), not_(app(l, i, t)))),
                forall("I", lambda i: implies(rng(i, t), app(l, t, i)))]
    if o == "first":
        l = t.args[-1]
        fs = [ge0(t), forall("I", lambda j: implies(rng(j, t), not_(app(l, j))))]
        if len(t.args) == 2:
            n = t.args[0]
            fs += [le(t, max_(n, I0)), implies(lt(t, n), app(l, t))]
        else:
            fs += [app(l, t)]
        return fs
    return []


def sort_facts(t):
    """contract of std::sort on [lo,hi): the range is a permutation of the old one, no element is less than its
    predecessor (comparator assumed a strict weak order)"""
    s, lo, hi, c = t.args
    es, tag = SORTS.get(c.id, (None, None))
    if es is None:
        return []

    def el(q, i):
        return get(q, i, es, tag)

    def p(i):
        return uf("sortperm", (t, i), "I")

    def q(i):
        return uf("sortpos", (t, i), "I")

    def in_(i):
        return and_(le(lo, i), lt(i, hi))
    less = SORTLESS.get(c.id)
    fs = [forall("I", lambda i: implies(in_(i), and_(in_(p(i)), eq(el(t, i), el(s, p(i))), eq(q(p(i)), i)))),
          forall("I", lambda i: implies(in_(i), and_(in_(q(i)), eq(el(t, q(i)), el(s, i)), eq(p(q(i)), i))))]
    if less is not None:
        fs.append(forall(["I", "I"], lambda i, j: implies(and_(in_(i), in_(j), lt(i, j)), not_(less(el(t, j), el(t, i))))))
    return fs


SORTS, SORTLESS = {}, {}


def sqrt_fact(t, x):
    z = mk("sqr", (t,), None, "R")
    return eq(z, x)


class Result:
    def __init__(self, ok, how="", secs=0.0, note=""):
        self.ok, self.how, self.secs, self.note = ok, how, secs, note

    def __bool__(self):
        return self.ok


import os
DBG = os.environ.get("PRDBG")


class Prover:
    def __init__(self, timeout=4000, verbose=False):
        self.work, self.rlast, self.hard = 0., 0, None
        self.smt = Smt()
        self.timeout = timeout
        self.simped = set()
        self.qcache = {}
        self.normed = {}
        self.stats = {}
        self.solver_time = 0.0
        self.verbose = verbose
        self.unfolded = set()
        self.lemmas = []          # rewriting hooks: f(prover, hyps, term) -> term or None
        self.depthlimit = 7
        self.instdone = set()
        self.inducting = False
        self.induct_failed = set()
        self.deadline = None
        self.model = None

    # ------------------------------------------------------------------ SMT
    def encode(self, fs):
        """z3 formulas for the list of closed T formulas plus theory facts"""
        seen = set()
        out = []
        work = list(fs)
        rounds = 0
        extra = []
        zs = [self.smt.tr(f) for f in fs]
        frontier = list(fs)
        allf = set(f.id for f in fs)
        invs = set()
        reals = []
        given = frozenset().union(*[all_quants(f) for f in fs]) if fs else frozenset()
        while frontier and rounds < 3:
            new = []
            for f in frontier:
                for t in open_terms(f, seen):
                    if t.sort == "R" and finite_atom(t):
                        reals.append(t)
                    for a in facts_of(t):
                        for c in conj(a):
                            if c is not TRUE and c.id not in allf:
                                allf.add(c.id)
                                new.append(c)
                    if t.op == "poly":
                        for mono, c in t.data:
                            for i, e in mono:
                                if e < 0 and t.args[i].id not in invs and t.args[i].mb == 0:
                                    invs.add(t.args[i].id)
                                    z = self.smt.tr(t.args[i])
                                    w = self.smt.invc(t.args[i], (), None)
                                    extra.append(z3.Or(z == 0, z * w == 1))
                                    extra.append(z3.Or(z <= 0, w > 0))
                    if t.op == "sqr":
                        z = self.smt.tr(t.args[0])
                        extra.append(self.smt.tr(t) == z * z)
            # quantified facts over terms that are opaque to the solver: explicit instances
            cand = None
            for f in list(frontier) + new:
                if f.op == "forall" and f.id not in self.instdone and len(f.args[0].data) == 1 and f.args[0].data[0] == "I" and has_open_lift(f.args[0].args[0]):
                    if cand is None:
                        cand = inst_candidates(fs)
                    for c in cand + matching(f.args[0], fs, cand):
                        for q in conj(app(f.args[0], c)):
                            if q is not TRUE and q.id not in allf and (not has_quant(q) or quants(q) <= given):
                                allf.add(q.id)
                                new.append(q)
            zs += [self.smt.tr(f) for f in new]
            frontier = new
            rounds += 1
        inf = uf("neginf", (), "R")
        if inf.id in seen:
            z = self.smt.tr(inf)
            for t in reals:
                if t is not inf:
                    extra += [self.smt.tr(t) > z, self.smt.tr(t) < -z]
        return zs + extra

    def check(self, hyps, goal, ms, model=False):
        s = z3.Solver()
        s.set("rlimit", ms * 8000)      # resources rather than seconds decide, so that a run can be repeated
        s.set("timeout", 4 * ms + 500)
        fs = list(hyps) + [not_(goal)]
        t0 = time.time()
        try:
            for z in self.encode(fs):
                s.add(z)
            r = s.check()
            for k, v in s.statistics():
                if k == "rlimit count":
                    self.work += max(0, v - self.rlast) / 8e6
                    self.rlast = v
        except z3.Z3Exception as x:
            r = z3.unknown
            if self.verbose:
                print("z3 exception", x)
        self.solver_time += time.time() - t0
        if r == z3.sat and model:
            self.model = s.model()
        return r, s

    def now(self):
        """seconds of work, measured in solver resources, proof steps and terms built: the same on every run"""
        return self.work + len(tm._tab) / 8000.

    def relevant(self, hyps, goal):
        """hypotheses connected to the goal by shared non-trivial subterms"""
        return hyps

    def quick(self, hyps, f):
        if f is TRUE:
            return True
        if f is FALSE:
            return False
        hs = flat(hyps)
        ids = set(h.id for h in hs)
        if all(c.id in ids for c in conj(f)):
            return True
        if f.mb:
            return False
        if not simple(f):
            return False
        syms = keysyms(f)
        rel, syms = [], set(syms)
        pool = [h for h in hs if simple(h)]
        changed = True
        while changed:
            changed = False
            for h in pool:
                if h not in rel:
                    k = keysyms(h)
                    if k & syms:
                        rel.append(h)
                        syms |= k
                        changed = True
        key = (frozenset(h.id for h in rel), f.id)
        r = self.qcache.get(key)
        if r is None:
            zr, _ = self.check(rel, f, 250)
            r = zr == z3.unsat
            self.qcache[key] = r
        return r

    def smt_prove(self, hyps, goal, ms=None):
        ms = ms or self.timeout
        hs = flat(hyps)
        # canonical, quantifier-free part first
        qf = [h for h in hs if simple(h)]
        r, s = self.check(qf, goal, min(ms, 1500))
        self.last_sat = r == z3.sat and len(qf) == len(hs)
        if r == z3.unsat:
            return "z3"
        if r == z3.sat and len(qf) == len(hs) and not has_quant(goal):
            return None
        if len(qf) != len(hs):
            r, s = self.check(hs, goal, ms)
            if r == z3.unsat:
                return "z3"
            if r == z3.sat:
                self.last_sat = True
                return None
        if self.cvc5(s, ms):
            return "cvc5"
        return None

    def cvc5(self, s, ms):
        try:
            txt = s.to_smt2()
            if len(txt) > 400000:
                return False
            t0 = time.time()
            p = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=%d" % ms, "-q"], input="(set-logic ALL)\n" + txt, capture_output=True, text=True, timeout=ms / 1000 + 3)
            self.solver_time += time.time() - t0
            return p.stdout.strip().startswith("unsat")
        except Exception:
            return False

    # ------------------------------------------------------------------ simplification under hypotheses
    def simp(self, t, hyps, depth=0, memo=None):
        if memo is None:
            memo = {}
        key = t.id
        if key in memo:
            return memo[key]
        r = self._simp(t, hyps, depth, memo)
        memo[key] = r
        return r

    def decide(self, c, hyps):
        if c.op in ("true", "false"):
            return c
        if self.quick(hyps, c):
            return TRUE
        if self.quick(hyps, not_(c)):
            return FALSE
        return c

    def simp_cond(self, c, hyps):
        if c.op in ("and", "or"):
            a = [self.simp_cond(x, hyps) for x in c.args]
            return and_(*a) if c.op == "and" else or_(*a)
        if c.op == "not":
            return not_(self.simp_cond(c.args[0], hyps))
        c = self.decide(c, hyps)
        if c.op == "eq0" and c.args[0].op == "imod":
            A, b = c.args[0].args
            u, w = self.divide(A, b)
            if self.quick(hyps, lt(w, b)) and self.quick(hyps, lt(neg(w), b)):
                return self.decide(eq(w, I0), hyps)
        if c.op == "eq0" and c.args[0].sort == "I":
            r = self.radix(c.args[0], hyps)
            if r is not None:
                s, u, w = r
                if self.quick(hyps, lt(neg(w), s)):
                    return and_(self.decide(eq(u, I0), hyps), self.decide(eq(w, I0), hyps))
        if c.op == "eq0" and c.args[0].sort == "R":
            d = to_poly(c.args[0])
            if len(d) > 1 and () not in d:
                # a common factor that is not zero
                com = set.intersection(*[set(m) for m in d])
                com = [(a, e) for a, e in com if a.op == "i2r" and self.quick(hyps, or_(gt0(a.args[0]), gt0(neg(a.args[0]))))]
                if com:
                    d = {tuple(x for x in m if x not in com): v for m, v in d.items()}
                    c = eq(from_poly(d, "R"), num(0, "R"))
            if c.op == "eq0" and d and all(len(m) <= 1 and all(a.op == "i2r" and e == 1 for a, e in m) and v.denominator == 1 for m, v in d.items()):
                return self.decide(eq(from_poly({tuple((a.args[0], 1) for a, e in m): v for m, v in d.items()}, "I"), I0), hyps)
        if c.op == "ge0" and c.args[0].sort == "I":
            r = self.radix(c.args[0], hyps)
            if r is not None:
                s, u, w = r
                if self.quick(hyps, ge0(w)):
                    return self.decide(ge0(u), hyps)
                if self.quick(hyps, lt(w, I0)) and self.quick(hyps, ge0(add(w, s))):
                    return self.decide(ge(u, I1), hyps)
        return c

    def radix(self, p, hyps):
        """p = s*u + w for a symbolic s that multiplies another symbol"""
        d = to_poly(p)
        cand = set()
        for m, c in d.items():
            if len(m) >= 2 and all(e == 1 for a, e in m):
                cand |= set(a for a, e in m)
        for s in sorted(cand, key=lambda t: t.id):
            u = {tuple((a, e) for a, e in m if a is not s): c for m, c in d.items() if any(a is s for a, e in m)}
            if any(a is s and e != 1 for m in d for a, e in m):
                continue
            u = from_poly(u, "I")
            if u.op == "num":
                continue
            w = from_poly({m: c for m, c in d.items() if not any(a is s for a, e in m)}, "I")
            if self.quick(hyps, lt(w, s)):
                return s, u, w
        return None

    def _simp(self, t, hyps, depth, memo):
        if not interesting(t):
            return t
        o = t.op
        if o in ("idiv", "imod"):
            a, b = self.simp(t.args[0], hyps, depth, memo), self.simp(t.args[1], hyps, depth, memo)
            if b.op != "num" or True:
                u, w = self.divide(a, b)
                if u is not None and self.quick(hyps, ge0(w)) and self.quick(hyps, lt(w, b)) and (w is a or self.quick(hyps, ge0(u))):
                    return u if o == "idiv" else w
            return rebuild(t, [a, b])
        if o == "ite":
            c = self.simp(t.args[0], hyps, depth, memo)
            c = self.simp_cond(c, hyps)
            c = self.decide(c, hyps)
            if c is TRUE:
                return self.simp(t.args[1], hyps, depth, memo)
            if c is FALSE:
                return self.simp(t.args[2], hyps, depth, memo)
            a = self.simp(t.args[1], hyps + [c], depth + 1) if interesting(t.args[1]) else t.args[1]
            b = self.simp(t.args[2], hyps + [not_(c)], depth + 1) if interesting(t.args[2]) else t.args[2]
            # equality conditions: branch values may coincide after substitution
            r = ite(c, a, b)
            if r.op == "ite":
                v = eq_var(c)
                if v is not None:
                    x, e = v
                    if subst(b, {x: e}) is subst(a, {x: e}):
                        return b
            return r
        if o in ("sum",):
            n = self.simp(t.args[0], hyps, depth, memo)
            (i,), b = open_fresh(t.args[1], "s")
            b2 = self.simp(b, hyps + [ge0(i), lt(i, n)], depth + 1)
            if self.decide(gt(n, I0), hyps) is FALSE:
                return num(0, t.sort)
            return sum_(n, lam([i], b2))
        if o == "mat":
            r = self.simp(t.args[0], hyps, depth, memo)
            c = self.simp(t.args[1], hyps, depth, memo)
            (i, j), b = open_fresh(t.args[2], "i", "j")
            b2 = self.simp(b, hyps + [ge0(i), lt(i, r), ge0(j), lt(j, c)], depth + 1)
            return mat(r, c, lam([i, j], b2))
        if o == "seq":
            n = self.simp(t.args[0], hyps, depth, memo)
            (i,), b = open_fresh(t.args[1], "i")
            b2 = self.simp(b, hyps + [ge0(i), lt(i, n)], depth + 1)
            return seq(n, lam([i], b2), *t.data)
        if o in ("ext", "extarg"):
            n = self.simp(t.args[0], hyps, depth, memo)
            (i,), b = open_fresh(t.args[1], "i")
            b2 = self.simp(b, hyps + [ge0(i), lt(i, n)], depth + 1)
            return mk(o, (n, lam([i], b2)), t.data, t.sort)
        if o == "first":
            (i,), b = open_fresh(t.args[-1], "i")
            h = hyps + [ge0(i)]
            pre = ()
            if len(t.args) == 2:
                n = self.simp(t.args[0], hyps, depth, memo)
                h = h + [lt(i, n)]
                pre = (n,)
            b2 = self.simp(b, h, depth + 1)
            from .loops import first_
            return first_(*pre, lam([i], b2))
        if o == "fold":
            n = self.simp(t.args[0], hyps, depth, memo)
            m = (len(t.args) - 1) // 2
            key = tuple(l.id for l in t.args[1 + m:])
            if key in self.simped:
                inits = [self.simp(a, hyps, depth, memo) for a in t.args[1:1 + m]]
                if n.op == "num":
                    return rebuild(t, [n] + inits + list(t.args[1 + m:]))
                return mk("fold", (n,) + tuple(inits) + tuple(t.args[1 + m:]), t.data, t.sort)
            inits = [self.simp(a, hyps, depth, memo) for a in t.args[1:1 + m]]
            lams = []
            for l in t.args[1 + m:]:
                vs, b = open_fresh(l, "k")
                b2 = self.simp(b, hyps + [ge0(vs[0]), lt(vs[0], n)], depth + 1)
                lams.append(lam(vs, b2))
            from .loops import fold_
            r = fold_(n, inits, lams, t.data[0], t.sort, t.data[1])
            if r.op == "fold":
                self.simped.add(tuple(l.id for l in r.args[1 + (len(r.args) - 1) // 2:]))
            return r
        if o in ("forall", "exists"):
            vs, b = open_fresh(t.args[0], "q")
            b2 = self.simp(b, hyps, depth + 1)
            l = lam(vs, b2)
            return forall_l(l) if o == "forall" else exists_l(l)
        if o == "or":
            # each disjunct under the negation of the others' literals
            out = []
            for a in t.args:
                oth = [not_(x) for x in t.args if x is not a and is_lit(x)]
                out.append(self.simp(a, hyps + oth, depth + 1) if interesting(a) else a)
            return or_(*out)
        if o == "and":
            out = []
            for a in t.args:
                oth = [x for x in t.args if x is not a and is_lit(x)]
                out.append(self.simp(a, hyps + oth, depth + 1) if interesting(a) else a)
            return and_(*out)
        if o == "lam":
            vs, b = open_fresh(t, "l")
            return lam(vs, self.simp(b, hyps, depth + 1))
        args = [self.simp(a, hyps, depth, memo) for a in t.args]
        r = rebuild(t, args)
        return r

    def divide(self, a, b):
        """a = b*u + w (polynomial division by an atom or a constant)"""
        d = to_poly(a)
        if b.op == "num":
            n = b.data
            u = from_poly({m: c / n for m, c in d.items() if m != () and (c / n).denominator == 1}, "I")
            w = sub(a, mul(b, u))
            return u, w
        if b.op == "poly":
            db = to_poly(b)
            lead = [m for m, c in db.items() if m != () and abs(c) == 1]
            if not lead:
                return I0, a
            lead = max(lead, key=lambda m: sum(e for _, e in m))
            lc = db[lead]
            u, rest = I0, dict(d)
            for _ in range(6):
                q = {}
                for m, c in rest.items():
                    mm = dict(m)
                    if all(mm.get(x, 0) >= e for x, e in lead):
                        for x, e in lead:
                            mm[x] -= e
                        q[tuple((x, e) for x, e in m if False) or tuple((x, mm[x]) for x, _ in m if mm[x])] = c / lc
                if not q:
                    break
                u = add(u, from_poly(q, "I"))
                rest = to_poly(sub(a, mul(b, u)))
            return u, sub(a, mul(b, u))
        u = from_poly({tuple((x, e) for x, e in m if x is not b): c for m, c in d.items() if (b, 1) in m}, "I")
        return u, sub(a, mul(b, u))

    def decompose(self, hyps, g):
        """an integer division A / s of the goal with A >= 0, s > 0 and a fresh variable x of A: x = ... s*q + r"""
        for t in subterms(g):
            if t.op not in ("idiv", "imod") or t.mb:
                continue
            A, s = t.args
            if not (self.quick(hyps, ge0(A)) and self.quick(hyps, gt(s, I0))):
                continue
            for m, c in to_poly(A).items():
                if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].op == "var" and "!" in str(m[0][0].data):
                    x = m[0][0]
                    if occurs(x, s) or sum(1 for mm in to_poly(A) if any(a is x for a, e in mm)) != 1:
                        continue
                    q, r = fresh("q", "I"), fresh("r", "I")
                    val = mul(I(c), sub(add(mul(s, q), r), from_poly({mm: cc for mm, cc in to_poly(A).items() if mm != m}, "I")))
                    mp = {x: val}
                    hs = flat([ge0(q), ge0(r), lt(r, s)] + [subst(h, mp) for h in hyps])
                    return hs, subst(g, mp)
        return None

    # ------------------------------------------------------------------ proof search
    def prove(self, hyps, goal, depth=0):
        t0 = time.time()
        self.how = set()
        self.fail = None
        if depth == 0:
            self.budget = self.now() + getattr(self, "obl_budget", 60)
            self.hard = time.time() + 2 * getattr(self, "obl_budget", 60)
        hyps = flat(hyps)
        ok = False
        if depth == 0:
            ab = self.abstract_folds(hyps, goal)
            if ab is not None:
                ind, self.inducting, budget = self.inducting, True, self.budget
                self.budget = min(budget, self.now() + 6)
                try:
                    ok = self._prove(ab[0], ab[1], depth)
                finally:
                    self.inducting, self.budget = ind, budget
                self.fail = None
                self.last_sat = False
                if not ok:
                    self.how = set()
        ok = ok or self._prove(hyps, goal, depth)
        dt = time.time() - t0
        how = "+".join(sorted(self.how)) or "normal form"
        return Result(bool(ok), how if ok else "", dt, "" if ok else "not discharged: %s" % (show(self.fail)[:1500] if self.fail is not None else ""))

    def abstract_folds(self, hyps, goal):
        """the same claim with loop results (fold terms) as arbitrary functions of the number of iterations and
        the exit conditions of searches as arbitrary predicates"""
        m = {}

        def go(t, args):
            if t.op == "fold" and all(a.mb == 0 for a in t.args[1:]):
                k = ("fold", t.data) + tuple(a.id for a in t.args[1:])
                if k not in m:
                    m[k] = fresh("A", "I").data
                    if is_vec(t):
                        VEC_UF.add(m[k])
                    r = fold_range(t)
                    if r[:2] != (None, None):
                        RANGE[m[k]] = r
                return uf(m[k], (args[0],), t.sort)
            if t.op == "first" and t.args[-1].mb == 0 and sum(1 for _ in subterms(t.args[-1])) > 12:
                k = ("first", t.args[-1].id)
                if k not in m:
                    m[k] = fresh("Q", "I").data
                i = fresh("i", "I")
                return mk("first", tuple(args[:-1]) + (lam([i], uf(m[k], (i,), "B")),), t.data, t.sort)
            return None
        g = replace(goal, go)
        if not m:
            return None
        return flat([replace(h, go) for h in hyps]), g

    def _prove(self, hyps, goal, depth):
        if goal is TRUE:
            return True
        if any(h is FALSE for h in hyps):
            self.how.add("contradiction")
            return True
        self.work += 0.005
        if depth > 40 or self.now() > self.budget or (self.hard and time.time() > self.hard):
            self.fail = self.fail or goal
            return False
        if any(h.op in ("forall", "exists") for h in hyps):
            hyps, goal = known_quants(hyps, goal)
            if goal is TRUE or any(h is FALSE for h in hyps):
                self.how.add("contradiction")
                return True
        o = goal.op
        if o in ("and", "forall", "or", "exists", "ge0", "gt0", "iff", "not") and self.fold_induct(hyps, goal, depth):
            return True
        if o == "and":
            for a in goal.args:
                if not self._prove(hyps, a, depth + 1):
                    return False
            return True
        if o == "forall":
            # to prove a claim its negation may be assumed, also where it decides a value under a binder
            if goal.mb == 0:
                e = not_(goal)
                hyps = [h for h in known_quants(list(hyps) + [e], TRUE)[0] if h is not e]
            vs, b = open_fresh(goal.args[0], "x")
            return self._prove(hyps, b, depth + 1)
        if o == "or":
            return self.prove_or(hyps, goal, depth)
        if o == "eqo":
            return self.prove_eqo(hyps, goal, depth)
        if o == "exists" and self.witness(hyps, goal, depth):
            return True
        return self.prove_atom(hyps, goal, depth)

    def witness(self, hyps, goal, depth):
        l = goal.args[0]
        if len(l.data) != 1 or l.data[0] != "I" or depth > 30:
            return False
        cs = witnesses(goal)
        if not cs:
            return False
        c = self.pick_cond(goal)
        if c is not None and self.nsplit(depth):
            return self.split(hyps, goal, c, depth)
        for c in cs[:4]:
            if self.quiet(hyps, app(l, c), depth + 2):
                self.how.add("witness")
                return True
        return False

    def prove_or(self, hyps, goal, depth):
        # choose the disjunct to prove; the negations of the others become hypotheses
        cand = list(goal.args)
        complex_ = [a for a in cand if not is_lit(a) or a.op in ("eqo", "eq0", "and", "forall", "exists", "iff")]
        pick = None
        for kind in ("forall", "eqo", "and", "exists", "eq0", "iff", "gt0", "ge0"):
            if kind == "exists" and not any(a.op == "exists" and witnesses(a) for a in cand):
                continue
            if kind == "gt0":
                rel = [a for a in cand if a.op in ("gt0", "ge0") and self.pick_cond(a) is not None]
                if rel and not any(a.op == "gt0" and self.pick_cond(a) is None for a in cand):
                    pick = max(rel, key=lambda a: sum(1 for _ in subterms(a)))
                    break
            for a in cand:
                if a.op == kind:
                    pick = a
                    break
            if pick:
                break
        if pick is None:
            pick = cand[-1]
        rest = [not_(x) for x in cand if x is not pick]
        hs = flat(hyps + rest)
        hs, goal2 = self.subst_eqs(hs, pick)
        return self._prove(hs, goal2, depth + 1)

    def subst_eqs(self, hyps, goal):
        """eliminate fresh variables fixed by equations"""
        for h in list(hyps):
            v = eq_var(h)
            if v is not None and "!" in str(v[0].data):
                x, e = v
                m = {x: e}
                hyps = flat([subst(a, m) for a in hyps if a is not h])
                return self.subst_eqs(hyps, subst(goal, m))
        ids = set(h.id for h in hyps)
        for h in hyps:
            if h.op == "ge0" and h.args[0].sort == "I" and ge0(neg(h.args[0])).id in ids:
                v = eq_var(eq(h.args[0], I0))
                if v is not None and "!" in str(v[0].data):
                    m = {v[0]: v[1]}
                    hyps = flat([subst(a, m) for a in hyps])
                    return self.subst_eqs(hyps, subst(goal, m))
        return hyps, goal

    def kind(self, t):
        while t.op == "ite":
            t = t.args[1] if t.args[1].op in ("mat", "seq", "rec", "ite") else t.args[2]
        return t.op

    def prove_eqo(self, hyps, goal, depth):
        a, b = goal.args
        if a is b:
            return True
        a2, b2 = self.simp(a, hyps), self.simp(b, hyps)
        a2, b2 = self.rewrite(hyps, a2), self.rewrite(hyps, b2)
        if a2 is b2:
            return True
        a, b = a2, b2
        ka, kb = self.kind(a), self.kind(b)
        if "mat" in (ka, kb) or ((is_vec(a) or is_vec(b)) and not (a.op == "uf" and b.op == "uf" and a.data == b.data)):
            if not self._prove(hyps, eq(rows_(a), rows_(b)), depth + 1):
                return False
            if not self._prove(hyps, eq(cols_(a), cols_(b)), depth + 1):
                return False
            i, j = fresh("i", "I"), fresh("j", "I")
            hs = hyps + [ge0(i), lt(i, rows_(a))]
            if cols_(a) is I1 or cols_(b) is I1:
                j = I0
            else:
                hs = hs + [ge0(j), lt(j, cols_(a))]
            if rows_(a) is I1 or rows_(b) is I1:
                i = I0
            return self._prove(hs, eq(at(a, i, j), at(b, i, j)), depth + 1)
        if "seq" in (ka, kb):
            s = find_seq(a) or find_seq(b)
            es, tag = s.data
            if not self._prove(hyps, eq(len_(a), len_(b)), depth + 1):
                return False
            i = fresh("i", "I")
            hs = hyps + [ge0(i), lt(i, len_(a))]
            x, y = get(a, i, es, tag), get(b, i, es, tag)
            return self._prove(hs, eq(x, y), depth + 1)
        if "rec" in (ka, kb):
            r = find_op(a, "rec") or find_op(b, "rec")
            for f, arg in zip(r.data[1], r.args):
                x, y = fld(a, f, arg.sort), fld(b, f, arg.sort)
                if not self._prove(hyps, eq(x, y), depth + 1):
                    return False
            return True
        for t in (a, b):
            if t.op == "ite":
                return self.split(hyps, eq(a, b), t.args[0], depth)
        if a.op == b.op and a.data == b.data and len(a.args) == len(b.args) and a.op in ("uf", "fld", "get", "ev", "closure", "dist", "put", "tri", "llt", "fmt", "exc"):
            r = all(self._prove(hyps, eq(x, y), depth + 1) for x, y in zip(a.args, b.args))
            if r:
                self.how.add("congruence")
                return True
        if a.op == "fold" and b.op == "fold":
            r = self.fold_eq(hyps, a, b, depth)
            if r:
                return True
        return self.prove_atom(hyps, eq(a, b), depth, nosimp=True)

    def split(self, hyps, goal, c, depth):
        self.how.add("case split")
        for h in (c, not_(c)):
            if DBG:
                print("  " * depth + "SPLIT %.1f" % (self.budget - self.now()), show(h, -int(DBG))[:400], flush=True)
            hs = flat([assume(x, c, h is c) for x in hyps] + [h])
            hs2, g2 = self.subst_eqs(hs, goal)
            g2 = self.simp(g2, hs2)
            if not self._prove(hs2, g2, depth + 1):
                return False
        return True

    def norm_hyps(self, hyps):
        """conditionals of the hypotheses whose condition the hypotheses decide"""
        key = frozenset(h.id for h in hyps)
        r = self.normed.get(key)
        if r is not None:
            return r
        done = set()
        for _ in range(6):
            c = None
            for h in hyps:
                if h.op in ("forall", "eqo") or not ite_conds(h):
                    continue
                x = self.closed_cond(h, done)
                if x is not None:
                    c = x
                    break
            if c is None:
                break
            done.add(c.id)
            v = TRUE if self.quick(hyps, c) else FALSE if self.quick(hyps, not_(c)) else None
            if v is not None:
                hyps = flat([assume(x, c, v is TRUE) for x in hyps] + [c if v is TRUE else not_(c)])
        self.normed[key] = hyps
        self.normed[frozenset(h.id for h in hyps)] = hyps
        return hyps

    def closed_cond(self, h, done):
        st, seen = [h], set()
        while st:
            t = st.pop(0)
            if t.id in seen or t.op == "lam":
                continue
            seen.add(t.id)
            if t.op == "ite" and t.mb == 0 and is_lit(t.args[0]) and t.args[0].id not in done:
                return t.args[0]
            st.extend(t.args)
        return None

    def rewrite(self, hyps, t):
        for l in self.lemmas:
            t2 = l(self, hyps, t)
            if t2 is not None and t2 is not t:
                t = t2
        return t

    def prove_atom(self, hyps, goal, depth, nosimp=False):
        g = goal
        if by_interval(g):
            self.how.add("interval")
            return True
        hyps = self.norm_hyps(hyps)
        ids = {h.id for h in hyps}
        for h in hyps:
            if h.op == "ge0" and h.args[0].op == "var" and h.args[0].sort == "I" and ge0(neg(h.args[0])).id in ids:
                z = {h.args[0]: I0}
                return self._prove(flat([subst(y, z) for y in hyps]), subst(goal, z), depth + 1)
        if not nosimp:
            g = self.simp(goal, hyps)
            g = self.rewrite(hyps, g)
            if g is TRUE or by_interval(g):
                return True
            if g is not goal and g.op in ("and", "or", "eqo", "forall"):
                return self._prove(hyps, g, depth + 1)
            dc = self.decompose(hyps, g)
            if dc is not None:
                self.how.add("Euclidean division")
                return self._prove(dc[0], dc[1], depth + 1)
        ids = set(h.id for h in hyps)
        if g.id in ids:
            return True
        if g.op == "eq0":
            r = self.prove_eq0(hyps, g, depth)
            if r:
                return True
            if self.pick_cond(g) is None and self.fold_induct(hyps, g, depth):
                return True
        if g.op in ("ge0", "gt0"):
            hy2, g2 = self.unify_terms(hyps, g, depth)
            if g2 is not g:
                g = g2
                if g is TRUE:
                    return True
        # remaining conditionals: split
        how = self.smt_prove(hyps, g, 800 if depth < 30 else 400)
        if how:
            self.how.add(how)
            return True
        if self.last_sat and pure(g):
            self.fail = self.fail or g
            return False
        c = self.pick_cond(g)
        if c is not None and self.nsplit(depth) and g.op != "eqo":
            if self.split(hyps, g, c, depth + 4):
                return True
            return g.op == "eq0" and self.fold_induct(hyps, g, depth)
        hs2 = self.enrich(hyps, g)
        how = None
        if not self.last_sat or len(hs2) != len(hyps):
            how = self.smt_prove(hs2, g)
        if not how and g.op in ("ge0", "gt0") and g.args[0].sort == "R":
            how = self.exp_scale(hyps, g)
        if how:
            self.how.add(how)
            return True
        if g.op in ("ge0", "gt0") and g.args[0].sort == "R" and depth < 30:
            c = self.index_split(hyps, g)
            if c is not None and self.split(hyps, g, c, depth + 4):
                return True
        self.fail = self.fail or g
        return False

    def index_split(self, hyps, g):
        """a fresh index that may coincide with the exit of a search: x = first(...)"""
        xs = [t for t in subterms(g) if t.op == "var" and t.sort == "I" and "!" in str(t.data)]
        fs = [t for t in subterms(g) if t.op == "first" and t.mb == 0]
        for x in xs[:2]:
            for f in fs[:2]:
                c = eq(x, f)
                if not self.quick(hyps, c) and not self.quick(hyps, not_(c)):
                    return c
        return None

    def nsplit(self, depth):
        return depth < 36

    def pick_cond(self, g):
        """an ite condition (closed, atomic) occurring in the goal, outermost first"""
        st = [g]
        seen = set()
        while st:
            t = st.pop(0)
            if t.id in seen or t.op == "lam":
                continue
            seen.add(t.id)
            if t.op == "ite" and t.mb == 0:
                c = t.args[0]
                x = c
                while x.op in ("and", "or", "not"):
                    x = x.args[0]
                # negative conditions are split on their positive atom
                return x
            st.extend(t.args)
        # conditions inside binders that do not depend on the bound variables
        for t in subterms(g):
            if t.op == "ite" and t.args[0].mb == 0:
                x = t.args[0]
                while x.op in ("and", "or", "not"):
                    x = x.args[0]
                return x
        return None

    def fold_induct(self, hyps, goal, depth):
        """goal about the state after n iterations: induction on the number of iterations (the goal itself is the
        invariant; inside loop bodies n is kept)"""
        if self.inducting or depth > 20:
            return False
        bounds = []
        for t in subterms(goal):
            if t.op == "fold" and t.mb == 0 and t.args[0].op != "num" and t.args[0] not in bounds:
                bounds.append(t.args[0])
        for n in bounds[:2]:
            if n.op == "poly" and not any(a.op == "var" for a in n.args):
                continue
            k = fresh("k", "I")
            gk = abstract_bound(goal, n, k)
            if gk is None or not self.quick(hyps, ge0(n)):
                continue
            key = (goal.id, n.id, frozenset(h.id for h in hyps))
            if key in self.induct_failed:
                continue
            save, budget = self.fail, self.budget
            self.budget = min(budget, self.now() + 25)
            self.inducting = True
            try:
                g0 = subst(gk, {k: I0})
                ok = self._prove(hyps, g0, depth + 1)
                if ok:
                    from .loops import unfold_folds
                    g1 = unfold_folds(subst(gk, {k: add(k, I1)}), k)
                    hs = flat(hyps + [ge0(k), lt(k, n), gk])
                    ok = self._prove(hs, g1, depth + 1)
            finally:
                self.inducting = False
                self.budget = budget
            if ok:
                self.how.add("induction on iterations")
                self.fail = save
                return True
            self.induct_failed.add(key)
            self.fail = save
        return False

    # --- numeric equalities
    def prove_eq0(self, hyps, g, depth):
        p = g.args[0]
        g2 = self.triangles(hyps, g, True)
        if g2 is not g:
            save = self.fail
            if self._prove(hyps, g2, depth + 1):
                self.how.add("triangular sums")
                return True
            self.fail = save
        # unify binder terms / uninterpreted applications that are provably equal
        hy2, g2 = self.unify_terms(hyps, g, depth)
        if g2 is TRUE:
            return True
        if g2 is not g:
            return self.prove_atom(hyps, g2, depth + 1, nosimp=True)
        if depth < 34 and not self.unfolded and self.pick_cond(g) is None:
            for t, v in linalg.unfold(self, hyps, g):
                if (t.id, "u") in self.unfolded:
                    continue
                self.unfolded.add((t.id, "u"))
                try:
                    save = self.fail
                    if self._prove(hyps, replace(g, lambda x, args: v if x is t else None), min(depth, 12)):
                        self.how.add("Cholesky theory")
                        return True
                    self.fail = save
                finally:
                    self.unfolded.discard((t.id, "u"))
        g2 = self.triangles(hyps, g)
        if g2 is not g:
            save = self.fail
            if self._prove(hyps, g2, depth + 1):
                self.how.add("triangular sums")
                return True
            self.fail = save
        # multiply through by inverses
        if p.sort == "R" and p.op == "poly":
            q = p
            for _ in range(6):
                negs = [(q.args[i], -e) for mono, c in q.data for i, e in mono if e < 0] if q.op == "poly" else []
                if not negs:
                    break
                a = negs[0][0]
                e = max(e for x, e in negs if x is a)
                if not self.nonzero(hyps, a, depth):
                    break
                q = clear_inverse(q, a, e)
            if q is not p:
                r = self._prove(hyps, eq(q, R0), depth + 1)
                if r:
                    self.how.add("field")
                    return True
        return False

    def triangles(self, hyps, g, structural=False):
        """sum_{i<n} sum_{j<i+c} f(i,j), c in {0,1}: with F the mirrored summand,
        T(f) = sum_i sum_j f -+ sum_i f(i,i) - T(F)   (- for c = 0, + for c = 1)"""
        d = to_poly(g.args[0])
        tri = {}
        for m, c in d.items():
            for a, e in m:
                if a.op == "sum" and e == 1:
                    t = triangle(a)
                    if t:
                        tri[a] = t
        if not tri:
            return g
        sub_ = {}
        used = set()
        for a, (full, diag, mirror) in tri.items():
            if a in used:
                continue
            if mirror is a:
                sub_[a] = mul(R("1/2"), add(full, diag))
                used.add(a)
                continue
            for b in tri:
                if b is not a and b not in used and (mirror is b or (not structural and skey_like(mirror, b) and self.atoms_equal(hyps, mirror, b, 10))):
                    sub_[a] = add(full, diag, neg(b))
                    used |= {a, b}
                    break
            else:
                if not structural and skey_like(mirror, a) and self.atoms_equal(hyps, mirror, a, 10):
                    sub_[a] = mul(R("1/2"), add(full, diag))
                    used.add(a)
        if not sub_:
            return g
        return eq(from_poly_subst(d, sub_), R0)

    def nonzero(self, hyps, a, depth):
        if self.quick(hyps, ne(a, num(0, a.sort))):
            return True
        save = self.fail
        r = self.smt_prove(hyps, ne(a, num(0, a.sort)), 1000)
        self.fail = save
        return bool(r)

    def unify_terms(self, hyps, g, depth):
        """replace sum/fold/ext/at/uf atoms of the goal that are provably equal to one another"""
        if depth > 24:
            return hyps, g
        atoms = [t for t in goal_atoms(g)]
        done = False
        # align sum bounds: bounds differing by a positive constant are split
        g2 = self.align(hyps, g)
        if g2 is not g:
            g2 = self.simp(g2, hyps)
            if g2 is TRUE:
                return hyps, g2
            g = g2
            atoms = [t for t in goal_atoms(g)]
        groups = {}
        for t in atoms:
            groups.setdefault(atom_key(t), []).append(t)
        m = {}
        for k, ts in groups.items():
            for x in range(len(ts)):
                for y in range(x):
                    a, b = ts[x], ts[y]
                    if a.id in m or b.id in m or a is b:
                        continue
                    if self.atoms_equal(hyps, a, b, depth):
                        m[a.id] = b
        if m:
            g = replace(g, lambda t, args: m.get(t.id))
            g = self.simp(g, hyps)
        return hyps, g

    def plausible(self, hyps, a, b):
        """two terms that depend on different index variables, not known to be equal, are not worth an attempt"""
        va = [v for v in freevars(a) if v.sort == "I" and "!" in str(v.data)]
        vb = [v for v in freevars(b) if v.sort == "I" and "!" in str(v.data)]
        xa, xb = [v for v in va if v not in vb], [v for v in vb if v not in va]
        if not xa or not xb:
            return True
        return any(self.quick(hyps, eq(x, y)) for x in xa for y in xb)

    def atoms_equal(self, hyps, a, b, depth):
        key = (frozenset(h.id for h in hyps), a.id, b.id)
        c = getattr(self, "aecache", None)
        if c is None:
            c = self.aecache = {}
        if key in c:
            return c[key]
        save, budget = self.fail, self.budget
        self.budget = min(budget, self.now() + 8)
        self.fail = None
        r = self._atoms_equal(hyps, a, b, depth)
        self.fail, self.budget = save, budget
        c[key] = r
        return r

    def _atoms_equal(self, hyps, a, b, depth):
        if not self.plausible(hyps, a, b):
            return False
        r = linalg.atoms_equal(self, hyps, a, b, depth)
        if r is not None:
            if r:
                self.how.add("Cholesky theory")
            return r
        if a.op == "sum":
            if not (a.args[0] is b.args[0] or self._prove(hyps, eq(a.args[0], b.args[0]), depth + 4)):
                return False
            i = fresh("s", "I")
            x, y = app(a.args[1], i), app(b.args[1], i)
            r = self._prove(hyps + [ge0(i), lt(i, a.args[0])], eq(x, y), depth + 4)
            if r:
                self.how.add("sum congruence")
            return r
        if a.op in ("ext", "extarg"):
            if not self._prove(hyps, eq(a.args[0], b.args[0]), depth + 4):
                return False
            i = fresh("s", "I")
            return self._prove(hyps + [ge0(i), lt(i, a.args[0])], eq(app(a.args[1], i), app(b.args[1], i)), depth + 4)
        if a.op == "extrel":
            if not self._prove(hyps, eq(a.args[0], b.args[0]), depth + 4):
                return False
            i, j = fresh("s", "I"), fresh("s", "I")
            return self._prove(hyps + [ge0(i), lt(i, a.args[0]), ge0(j), lt(j, a.args[0])], eq(app(a.args[1], i, j), app(b.args[1], i, j)), depth + 4)
        if a.op == "first":
            if len(a.args) != len(b.args):
                return False
            h = []
            if len(a.args) == 2:
                if not self._prove(hyps, eq(a.args[0], b.args[0]), depth + 4):
                    return False
            i = fresh("s", "I")
            h = [ge0(i)] + ([lt(i, a.args[0])] if len(a.args) == 2 else [])
            return self._prove(hyps + h, eq(app(a.args[-1], i), app(b.args[-1], i)), depth + 4)
        if a.op == "fold":
            return self.fold_eq(hyps, a, b, depth)
        return all(self._prove(hyps, eq(x, y), depth + 4) for x, y in zip(a.args, b.args))

    def align(self, hyps, g):
        """sum bounds (also of nested sums) that differ by a small constant are split"""
        bounds = []
        for t in subterms(g):
            if t.op == "sum" and t.args[0].mb == 0 and t.args[0] not in bounds:
                bounds.append(t.args[0])
        base = {}
        for a in bounds:
            best = None
            for b in bounds:
                d = sub(a, b)
                if d.op == "num" and 0 < d.data <= 3 and (best is None or d.data > best[1]) and self.quick(hyps, ge0(b)):
                    best = (b, int(d.data))
            if best:
                base[a] = best
        if not base:
            return g
        memo = {}

        def go(t):
            if t.id in memo:
                return memo[t.id]
            if t.op == "sum":
                (i,), bd = open_fresh(t.args[1], "s")
                l = lam([i], go(bd))
                n = go(t.args[0])
                if t.args[0] in base:
                    b, k = base[t.args[0]]
                    r = sum_(b, l)
                    for q in range(k):
                        r = add(r, app(l, add(b, I(q))))
                else:
                    r = sum_(n, l)
            elif not any(x.op == "sum" for x in subterms(t)):
                r = t
            elif t.op == "lam":
                vs, bd = open_fresh(t, "l")
                r = lam(vs, go(bd))
            else:
                r = rebuild(t, [go(x) for x in t.args])
            memo[t.id] = r
            return r
        return go(g)

    # --- folds
    def fold_eq(self, hyps, a, b, depth):
        """relational induction with an inferred (Houdini) matching of components"""
        n, m = a.args[0], b.args[0]
        if not (n is m or self._prove(hyps, eq(n, m), depth + 4)):
            return False
        na, nb = (len(a.args) - 1) // 2, (len(b.args) - 1) // 2
        ia, la = a.args[1:1 + na], a.args[1 + na:]
        ib, lb = b.args[1:1 + nb], b.args[1 + nb:]
        pairs = set()
        for x in range(na):
            for y in range(nb):
                if ia[x].sort != ib[y].sort:
                    continue
                if ia[x] is ib[y] or self.quiet(hyps, eq(ia[x], ib[y]), depth + 6):
                    pairs.add((x, y))
        want = (a.data[0], b.data[0])
        if want not in pairs:
            return False
        pairs = self.functional(pairs, want, a, b)
        while True:
            k = fresh("k", "I")
            sa = [fresh_state(ia[x], "sa") for x in range(na)]
            sb = [None] * nb
            for x, y in sorted(pairs):
                if sb[y] is None:
                    sb[y] = sa[x]
            extra = []
            for x, y in sorted(pairs):
                if sb[y] is not sa[x]:
                    extra.append(eq(sa[x], sb[y]))
            for y in range(nb):
                if sb[y] is None:
                    sb[y] = fresh_state(ib[y], "sb")
            hs = hyps + [ge0(k), lt(k, n)] + extra
            bad = set()
            for x, y in sorted(pairs, key=lambda p: p != want):
                u, v = app(la[x], k, *sa), app(lb[y], k, *sb)
                if u is v:
                    continue
                if not self.quiet(hs, eq(u, v), depth + 6):
                    bad.add((x, y))
                    if (x, y) == want:
                        break
            if want in bad:
                return False
            if not bad:
                self.how.add("relational induction")
                return True
            pairs -= bad

    def functional(self, pairs, want, a, b):
        return pairs

    def quiet(self, hyps, goal, depth):
        save, budget = self.fail, self.budget
        self.fail = None
        self.budget = min(budget, self.now() + 10)
        r = self._prove(hyps, goal, depth)
        self.fail, self.budget = save, budget
        return r

    # --- auxiliary facts
    def exp_scale(self, hyps, g):
        """multiply an inequality by exp(-A) > 0 for each exponential exp(A) it contains"""
        es = set()
        for m in to_poly(g.args[0]):
            for a, e in m:
                if a.op == "uf" and a.data == "exp":
                    es.add(a)
        for a in sorted(es, key=lambda t: t.id):
            p = mul(g.args[0], exp_(neg(a.args[0])))
            g2 = ge0(p) if g.op == "ge0" else gt0(p)
            h = self.smt_prove(self.enrich(hyps, g2), g2, 2000)
            if h:
                return h
        return None

    def enrich(self, hyps, g):
        """sign facts of sums, unfolding of `first`/`ext` axioms (through facts_of)"""
        out = list(hyps)
        seen = set()
        at_ = set(t.id for t in subterms(g) if t.op == "sum")
        for r in list(tm.SQSUMS.values()):
            ss = [a for a in r.args if a.op == "sum"]
            if r.mb == 0 and ss and all(a.id in at_ for a in ss):
                out.append(ge0(r))
        for h in [g] + list(hyps):
            for t in subterms(h):
                if t.op == "sum" and t.mb == 0 and t.id not in seen:
                    seen.add(t.id)
                    i = fresh("s", "I")
                    b = app(t.args[1], i)
                    hs = list(hyps) + [ge0(i), lt(i, t.args[0])]
                    if self.smt_prove(hs, ge0(b), 300):
                        out.append(ge0(t))
        return out


OPENLIFT = {}


ITECOND = {}


def ite_conds(t):
    r = ITECOND.get(t.id)
    if r is None:
        r = ITECOND[t.id] = frozenset(a.id for x in subterms(t) if x.op == "ite" for c in [x.args[0]] for a in ((c,) + c.args if c.op in ("and", "or", "not") else (c,)))
    return r


def assume(t, c, val):
    """t where the closed condition c is decided in conditionals"""
    n = not_(c)
    ids = ite_conds(t)
    if c.id not in ids and n.id not in ids:
        return t

    def go(x, args):
        if x.op == "ite":
            a = args[0]
            m = {c.id: TRUE if val else FALSE, n.id: FALSE if val else TRUE}
            if a.op in ("and", "or"):
                q = [m.get(y.id, y) for y in a.args]
                a = and_(*q) if a.op == "and" else or_(*q)
            else:
                a = m.get(a.id, a)
            return ite(a, args[1], args[2])
        return None
    return replace(t, go)


def clear_inverse(q, a, e):
    """q * a^e, where no power of a in q is below -e"""
    r = num(0, q.sort)
    groups = {}
    for m, c in to_poly(q).items():
        k = sum(x for b, x in m if b is a)
        groups.setdefault(k, {})[tuple((b, x) for b, x in m if b is not a)] = c
    for k, d in groups.items():
        r = add(r, mul(from_poly(d, q.sort), power(a, e + k)))
    return r


def witnesses(goal):
    cs = eq_witnesses(goal) if goal.op == "exists" else []
    for t in subterms(goal):
        if t.mb == 0 and t.op in ("extarg", "extrel", "first") and t not in cs:
            cs.append(t)
    return cs


def eq_witnesses(goal):
    """values the bound variable must take for an equation of the body to hold: c*i2r(k)*m - c*i2r(t)*m = 0"""
    l = goal.args[0]
    if len(l.data) != 1 or l.data[0] != "I":
        return []
    k = tm.fresh("w", "I")
    b = app(l, k)
    out = []
    from .models import shuf
    for t in subterms(b):
        if t.op == "uf" and t.data == "unshuffled" and t.args[2] is k and not t.mb:
            out += [shuf(t.args[0], t.args[1], x) for x in tm.freevars(b) if x.sort == "I" and "!" in str(x.data) and x is not k]
    for t in subterms(b):
        if t.op != "eq0" or t.mb or not occurs(k, t):
            continue
        d = to_poly(t.args[0])
        for m, c in d.items():
            f = [a for a, e in m if e == 1 and (a is k or (a.op == "i2r" and a.args[0] is k))]
            if len(f) != 1:
                continue
            rest = frozenset((a, e) for a, e in m if a is not f[0])
            if any(occurs(k, a) for a, e in rest):
                continue
            for m2, c2 in d.items():
                if c2 != -c:
                    continue
                for a, e in m2:
                    if e == 1 and frozenset((x, y) for x, y in m2 if x is not a) == rest and a.sort == f[0].sort:
                        w = a if a.sort == "I" else a.args[0] if a.op == "i2r" else None
                        if w is not None and not occurs(k, w) and w not in out:
                            out.append(w)
    return out


def has_open_lift(b):
    """a term opaque to the SMT encoding under the binder"""
    from .smt import LIFT
    r = OPENLIFT.get(b.id)
    if r is None:
        r = any(t.op in LIFT and t.op != "lam" and t.mb > 0 for t in subterms(b))
        OPENLIFT[b.id] = r
    return r


def inst_candidates(fs):
    out, seen = [], set()
    for f in fs:
        for t in open_terms(f, seen):
            if t.sort == "I" and t.mb == 0 and (t.op in ("extarg", "extrel", "first") or (t.op == "var" and "!" in str(t.data))):
                if t not in out:
                    out.append(t)
    return out[:8]


def matching(l, fs, have):
    """instances for which a term of the quantified body occurs in the formulas"""
    k = tm.fresh("m", "I")
    b = app(l, k)
    pats = {}
    for t in subterms(b):
        if t.op == "uf" and t.sort == "R" and t.mb == 0 and occurs(k, t) and not any(occurs_term(t, x) for q in pats.values() for x in q):
            pats.setdefault(t.data, []).append(t)
    if not pats:
        return []
    out, seen = [], set()
    for f in fs:
        for t in open_terms(f, seen):
            if t.op == "uf" and t.data in pats and t.mb == 0:
                for q in pats[t.data]:
                    e = find_binding(q, t, k, {})
                    if e is not None and e.mb == 0 and e not in have and e not in out and subst(q, {k: e}) is t:
                        out.append(e)
    return out[:6]


def occurs_term(t, x):
    return any(y is t for y in subterms(x))


def find_binding(p, t, k, memo):
    """what k stands for when p becomes t (the first difference that shows it)"""
    if p is k:
        return t if t.sort == k.sort else None
    if p is t or not occurs(k, p) or p.op != t.op or p.sort != t.sort:
        return None
    key = (p.id, t.id)
    if key in memo:
        return memo[key]
    memo[key] = r = None
    if p.op in ("poly", "and", "or"):
        a = [x for x in p.args if all(x is not y for y in t.args)]
        b = [x for x in t.args if all(x is not y for y in p.args)]
        pairs = [(x, y) for x in a for y in b][:16]
    elif len(p.args) == len(t.args):
        pairs = list(zip(p.args, t.args))
    else:
        pairs = []
    for x, y in pairs:
        r = find_binding(x, y, k, memo)
        if r is not None:
            break
    memo[key] = r
    return r


def abstract_bound(goal, n, k):
    """occurrences of n outside the bodies of folds replaced by k"""
    memo = {}

    def go(t):
        r = memo.get(t.id)
        if r is None:
            if t is n:
                r = k
            elif t.op == "fold":
                m = (len(t.args) - 1) // 2
                r = rebuild(t, [go(t.args[0])] + list(t.args[1:]))
            elif not t.args:
                r = t
            else:
                r = rebuild(t, [go(a) for a in t.args])
            memo[t.id] = r
        return r
    if n.op == "poly":
        # solve for a variable of n occurring linearly with coefficient 1:  n = v + rest
        for mono, c in n.data:
            pass
        vs = [a for a in n.args if a.op == "var"]
        for v in vs:
            rest = sub(n, v)
            if not occurs(v, rest):
                new = sub(k, rest)

                def go2(t):
                    r = memo.get(t.id)
                    if r is None:
                        if t is n:
                            r = k
                        elif t is v:
                            r = new
                        elif t.op == "fold":
                            r = rebuild(t, [go2(t.args[0])] + list(t.args[1:]))
                        elif not t.args:
                            r = t
                        else:
                            r = rebuild(t, [go2(a) for a in t.args])
                        memo[t.id] = r
                    return r
                return go2(goal)
        return None
    return go(goal)


def triangle(a):
    """(full square sum, +-diagonal, mirrored triangle) of a nested sum whose inner bound is an outer index"""
    vs, x = [], a
    for _ in range(8):
        d = to_poly(x)
        if len(d) != 1:
            break
        (mono, co), = d.items()
        ss = [y for y, e in mono if y.op == "sum" and e == 1]
        if not ss:
            break
        (j,), b = open_fresh(ss[0].args[1], "s")
        vs.append((j, ss[0].args[0]))
        x = mul(from_poly({tuple((y, e) for y, e in mono if y is not ss[0]): co}, x.sort), b)
    for k, (w, nw) in enumerate(vs):
        for v, n in vs[:k]:
            c = sub(nw, v)
            if c.op == "num" and c.data in (0, 1):
                rest = [(u, m) for u, m in vs if u is not v and u is not w]
                if any(occurs(v, m) or occurs(w, m) for u, m in rest) or any(occurs(u, n) for u, m in rest):
                    continue
                full = tm.msum([(v, n), (w, n)] + rest, x)
                diag = tm.msum([(v, n)] + rest, subst(x, {w: v}))
                mirror = tm.msum([(v, n), (w, nw)] + rest, subst(x, {w: v, v: w}))
                return full, (neg(diag) if c.data == 0 else diag), mirror
    return None


def skey_like(a, b):
    return a.op == "sum" and b.op == "sum"


def from_poly_subst(d, m):
    out = R0
    for mono, c in d.items():
        t = R(c)
        for a, e in mono:
            t = mul(t, power(m.get(a, a), e))
        out = add(out, t)
    return out


def fresh_state(init, name):
    if is_vec(init) or (init.op == "mat" and init.args[1] is I1):
        return mk("var", (), (fresh(name, "O").data, "vec"), "O")
    return fresh(name, init.sort)


def find_seq(t):
    return find_op(t, "seq")


def find_op(t, op):
    st = [t]
    while st:
        x = st.pop()
        if x.op == op:
            return x
        if x.op == "ite":
            st += x.args[1:]
    return None


ATOM = {"sum", "ext", "extarg", "extrel", "first", "fold"}


def goal_atoms(g):
    """binder terms and uninterpreted applications occurring in the goal outside binders"""
    out, seen = [], set()
    st = [g]
    while st:
        t = st.pop()
        if t.id in seen or t.op == "lam":
            continue
        seen.add(t.id)
        if t.mb == 0 and (t.op in ATOM or (t.op in ("uf", "at", "get", "fld") and t.args)):
            out.append(t)
        if t.op in ATOM or t.op in ("mat", "seq"):
            continue
        st.extend(t.args)
    return sorted(out, key=lambda t: t.id)


def atom_key(t):
    if t.op == "fold":
        return ("fold", t.sort)
    return (t.op, t.data if t.op != "seq" else None, t.sort, len(t.args))


_int = {}


def interesting(t):
    """does t contain conditionals (ite) that simplification could decide?"""
    r = _int.get(t.id)
    if r is None:
        if t.op in ("ite", "first", "idiv", "imod"):
            r = True
        elif t.op == "sum":
            r = True
        else:
            r = any(interesting(a) for a in t.args)
        _int[t.id] = r
    return r


def flat(hs):
    out, seen = [], set()
    for h in hs:
        for c in conj(h):
            if c is TRUE or c.id in seen:
                continue
            seen.add(c.id)
            out.append(c)
    return out


def is_lit(t):
    return t.op in ("ge0", "gt0", "eq0", "eqo", "not", "uf", "var", "fld", "get")


_pure = {}


def pure(t):
    """built from integer variables and linear arithmetic only: an SMT countermodel is conclusive"""
    r = _pure.get(t.id)
    if r is None:
        r = t.op in ("var", "poly", "num", "eq0", "ge0", "gt0", "not", "and", "or", "i2r", "true", "false") and all(pure(a) for a in t.args)
        if t.op in ("at", "get", "uf", "fld") and t.sort in ("I", "R", "B"):
            r = all(pure(a) or (a.sort == "O" and a.op == "var") for a in t.args)
        _pure[t.id] = r
    return r


_simple = {}


def simple(t):
    """quantifier-free"""
    r = _simple.get(t.id)
    if r is None:
        r = t.op not in ("forall", "exists") and all(simple(a) for a in t.args if a.op != "lam")
        _simple[t.id] = r
    return r


_quants = {}


def quants(t):
    """the closed quantified formulas in t (None for a quantifier below a binder)"""
    r = _quants.get(t.id)
    if r is None:
        if t.op in ("forall", "exists"):
            r = frozenset([t.id if t.mb == 0 else None])
        else:
            r = frozenset().union(*[quants(a) for a in t.args if a.op != "lam"]) if t.args else frozenset()
        _quants[t.id] = r
    return r


_allquants = {}


def all_quants(t):
    """the closed quantified formulas anywhere in t"""
    r = _allquants.get(t.id)
    if r is None:
        r = frozenset().union(*[all_quants(a) for a in t.args]) if t.args else frozenset()
        if t.op in ("forall", "exists") and t.mb == 0:
            r |= frozenset([t.id])
        _allquants[t.id] = r
    return r


def known_quants(hyps, goal):
    """quantified hypotheses decide the same formulas elsewhere, also below binders"""
    for h in hyps:
        if h.op in ("forall", "exists") and h.mb == 0:
            n = not_(h)
            ids = {h.id, n.id}
            if ids & all_quants(goal) or any(x is not h and ids & all_quants(x) for x in hyps):
                f = lambda t, a: TRUE if t is h else FALSE if t is n else None
                hyps = flat([x if x is h or not ids & all_quants(x) else replace(x, f) for x in hyps])
                goal = replace(goal, f)
    return hyps, goal


def has_quant(t):
    return not simple(t)


_ks = {}


def keysyms(t):
    """atoms that connect formulas: variables, and maximal opaque applications"""
    r = _ks.get(t.id)
    if r is None:
        if t.op == "var":
            r = frozenset([t.id])
        elif t.op in ("rows", "cols", "len", "sum", "uf", "at", "get", "fld", "ext", "extarg", "first", "fold", "extrel", "mat", "seq"):
            r = frozenset([t.id])
            if t.op in ("at", "get"):
                for a in t.args[1:]:
                    r = r | keysyms(a)
        elif t.op == "lam":
            r = frozenset()
        else:
            r = frozenset()
            for a in t.args:
                r = r | keysyms(a)
        _ks[t.id] = r
    return r


def eq_var(h):
    """h is  x = e  for an integer/real variable x not in e"""
    if h.op == "eq0":
        p = h.args[0]
        d = to_poly(p)
        for mono, c in d.items():
            if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op == "var":
                x = mono[0][0]
                if p.sort == "I" and abs(c) != 1:
                    continue
                rest = from_poly({mm: -cc / c for mm, cc in d.items() if mm != mono}, p.sort)
                if x not in freevars(rest) and "!" in str(x.data):
                    return x, rest
    if h.op == "eqo":
        a, b = h.args
        for x, e in ((a, b), (b, a)):
            if x.op == "var" and x not in freevars(e) and "!" in str(x.data):
                return x, e
    return None


def open_terms(f, seen):
    """closed subterms (quantifier bodies included only for closed parts)"""
    for t in subterms(f, seen):
        if t.mb == 0 and t.op != "lam":
            yield t
