"""Theory of Cholesky factors and inverses of symmetric positive definite matrices.

  cholat(M,i,j)    entry of the Cholesky factor of M (lower triangle; function of M's lower triangle)
  fsolat(M,B,i,j)  entry of chol(M)^-1 B
  kinvat(M,i,j)    entry of M^-1

Facts used (proved in lean/Chol.lean for real symmetric positive definite matrices):
  C1 recurrence      L(i,j) L(j,j) = M(i,j) - sum_{k<j} L(i,k) L(j,k)    (j < i)
  C2 diagonal        L(i,i) = sqrt(M(i,i) - sum_{k<i} L(i,k)^2),  L(i,i) > 0
  C3 leading blocks  L(i,j) depends only on M(a,b), b <= a <= i
  C4 back solve      chol(M)^-T chol(M)^-1 B = M^-1 B
  C5 quadratic form  (chol(M)^-1 a).(chol(M)^-1 b) = a^T M^-1 b
  C6 symmetry        M^-1(i,j) = M^-1(j,i)
"""
from .terms import *
from . import terms as tm

SPD = "kernel matrices handed to the Cholesky factorisation are symmetric positive definite (facts C1-C6 of vc/linalg.py)"


def one(M):
    """a 1 x 1 matrix: the indices can only be 0 (C2)"""
    return M.op == "mat" and rows_(M) is I1


def cholat(M, i, j):
    d = sub(i, j)
    if d.op == "num" and d.data < 0:
        return R0
    if one(M):
        return sqrt_(at(M, I0, I0))
    return mk("uf", (M, i, j), "cholat", "R")


def kinvat(M, i, j):
    if one(M):
        return inv(at(M, I0, I0))
    if skey(j) < skey(i):  # C6
        i, j = j, i
    return mk("uf", (M, i, j), "kinvat", "R")


def fsolat(M, B, i, j):
    if one(M) and B.op == "mat":
        return div(at(B, I0, j), sqrt_(at(M, I0, I0)))
    return mk("uf", (M, B, i, j), "fsolat", "R")


tm.UFN["cholat"] = cholat
tm.UFN["kinvat"] = kinvat
tm.UFN["fsolat"] = fsolat


def base(ex):
    return list(ex.axioms) + list(ex.pc)


def canon(ex, M):
    """the lower triangle in normal form"""
    n = rows_(M)
    i, j = fresh("i", "I"), fresh("j", "I")
    b = at(M, i, j)
    pr = ex.prover
    if pr is not None:
        b = pr.simp(b, base(ex) + [ge0(j), ge(i, j), lt(i, n)])
    ex.trusted.add(SPD)
    return mat(n, n, lam([i, j], b))


def canon_rhs(ex, B):
    n, c = rows_(B), cols_(B)
    i, j = fresh("i", "I"), fresh("j", "I")
    if c is I1:
        j = I0
    b = at(B, i, j)
    pr = ex.prover
    if pr is not None:
        b = pr.simp(b, base(ex) + [ge0(i), lt(i, n)] + ([ge0(j), lt(j, c)] if j is not I0 else []))
    jj = j if j is not I0 else fresh("j", "I")
    return mat(n, c, lam([i, jj], b))


def chol_mat(ex, M):
    M = canon(ex, M)
    return mat_f(rows_(M), rows_(M), lambda i, j: cholat(M, i, j))


def kinv_mat(ex, M):
    M = canon(ex, M)
    return mat_f(rows_(M), rows_(M), lambda i, j: kinvat(M, i, j))


def matrices(ex):
    """matrix values held in the current state, most recent first"""
    out, seen = [], set()

    def walk(v, d):
        if not isinstance(v, T) or v.id in seen or d > 6:
            return
        seen.add(v.id)
        if v.op == "mat":
            out.append(v)
        elif v.op == "rec":
            for a in v.args:
                walk(a, d + 1)
        elif v.op == "ite":
            walk(v.args[1], d + 1)
            walk(v.args[2], d + 1)
    for k in reversed(list(ex.st)):
        walk(ex.st[k], 0)
    return out


def attempt(ex, hyps, goal, secs=10):
    pr = ex.prover
    ob = getattr(pr, "obl_budget", 60)
    pr.obl_budget = secs
    try:
        return pr.prove(hyps, goal).ok
    finally:
        pr.obl_budget = ob


def recognise(ex, m):
    """M such that the lower triangle of m is the Cholesky factor of M, or None"""
    pr = ex.prover
    n = rows_(m)
    i, j = fresh("i", "I"), fresh("j", "I")
    hy = base(ex) + [ge0(j), ge(i, j), lt(i, n)]
    b = at(m, i, j)
    if pr is not None:
        b = pr.simp(b, hy)
    if b.op == "uf" and b.data == "cholat" and b.args[1] is i and b.args[2] is j and not occurs(i, b.args[0]) and not occurs(j, b.args[0]):
        return b.args[0]
    if pr is None:
        return None
    cache = ex.__dict__.setdefault("chol_cache", {})
    key = m.id
    if key in cache:
        return cache[key]
    for c in matrices(ex):
        if c is m or c.op != "mat":
            continue
        if not (rows_(c) is n or pr.quick(base(ex), eq(rows_(c), n))) or not (cols_(c) is n or pr.quick(base(ex), eq(cols_(c), n))):
            continue
        if any(t.op == "uf" and t.data in ("cholat", "fsolat", "kinvat") for t in subterms(c)):
            continue
        M = canon(ex, c)
        if attempt(ex, hy, eq(b, cholat(M, i, j))):
            cache[key] = M
            return M
    cache[key] = None
    return None


def solve(ex, tri, b):
    """value of a triangular solve, or None"""
    m = tri.args[0]
    n = rows_(b)
    if n is I1:
        return mat_f(n, cols_(b), lambda i, j: div(at(b, I0, j), at(m, I0, I0)))
    if tri.data == "L":
        M = recognise(ex, m)
        if M is None:
            return None
        B = canon_rhs(ex, b)
        return mat_f(n, cols_(b), lambda i, j: fsolat(M, B, i, j))
    if tri.data == "LT":
        M = recognise(ex, m)
        if M is None:
            return None
        i, j = fresh("i", "I"), fresh("j", "I")
        if cols_(b) is I1:
            j = I0
        x = at(b, i, j)
        if ex.prover is not None:
            x = ex.prover.simp(x, base(ex) + [ge0(i), lt(i, n)] + ([ge0(j), lt(j, cols_(b))] if j is not I0 else []))
        if x.op == "uf" and x.data == "fsolat" and x.args[2] is i and x.args[3] is j:
            M2, B = x.args[0], x.args[1]
            if M2 is M or (ex.prover and attempt(ex, base(ex), same_lower(M, M2))):
                return mat_f(n, cols_(b), lambda r, c: sum_(n, lam_f(["I"], lambda k: mul(kinvat(M2, r, k), at(B, k, c)))))
    return None


def same_lower(a, b):
    return and_(eq(rows_(a), rows_(b)), forall(["I", "I"], lambda i, j: implies(and_(ge0(j), ge(i, j), lt(i, rows_(a))), eq(at(a, i, j), at(b, i, j)))))


# ------------------------------------------------------------------ sum rule (C5)
def fsol_sum(vs, dep, srt):
    """sum_v fsolat(M,a,v,c) fsolat(M,b,v,d) -> sum sum a(p,c) kinvat(M,p,q) b(q,d); returns (vs', body) or None"""
    for v, n in vs:
        fs, others = [], []
        for a, e in dep:
            if not occurs(v, a):
                others.append((a, e))
            elif a.op == "uf" and a.data == "fsolat" and a.args[2] is v and not any(occurs(v, x) for x in (a.args[0], a.args[1], a.args[3])) and e > 0:
                fs += [a] * e
            else:
                fs = None
                break
        if not fs or len(fs) != 2 or fs[0].args[0] is not fs[1].args[0] or any(occurs(v, nn) for w, nn in vs if w is not v):
            continue
        M = fs[0].args[0]
        if rows_(M) is not n:
            continue
        p, q = fresh("s", "I"), fresh("s", "I")
        body = mul(from_poly({tuple(others): Fr(1)}, srt), at(fs[0].args[1], p, fs[0].args[3]), kinvat(M, p, q), at(fs[1].args[1], q, fs[1].args[3]))
        return [x for x in vs if x[0] is not v] + [(p, n), (q, n)], body
    return None


tm.SUMRULES.append(fsol_sum)


# ------------------------------------------------------------------ prover rules
def atoms_equal(pr, hyps, a, b, depth):
    """congruence of the theory's atoms; None when not applicable"""
    if a.op != "uf" or a.data not in ("cholat", "kinvat", "fsolat") or a.data != b.data:
        return None
    M, N = a.args[0], b.args[0]
    P = lambda g, h=(): g is TRUE or pr._prove(hyps + list(h), g, depth + 4)
    if a.data == "cholat":
        if not (P(eq(a.args[1], b.args[1])) and P(eq(a.args[2], b.args[2]))):
            return False
        if M is N:
            return True
        x, y = fresh("a", "I"), fresh("b", "I")
        return P(eq(at(M, x, y), at(N, x, y)), [ge0(y), ge(x, y), le(x, a.args[1])])
    if M is not N:
        if not P(eq(rows_(M), rows_(N))):
            return False
        x, y = fresh("a", "I"), fresh("b", "I")
        if not P(eq(at(M, x, y), at(N, x, y)), [ge0(y), ge(x, y), lt(x, rows_(M))]):
            return False
    if a.data == "kinvat":
        i, j = a.args[1:]
        k, l = b.args[1:]
        return (P(eq(i, k)) and P(eq(j, l))) or (P(eq(i, l)) and P(eq(j, k)))
    if not (P(eq(a.args[2], b.args[2])) and P(eq(a.args[3], b.args[3]))):
        return False
    if a.args[1] is b.args[1]:
        return True
    x = fresh("a", "I")
    return P(eq(at(a.args[1], x, a.args[3]), at(b.args[1], x, a.args[3])), [ge0(x), lt(x, rows_(M))])


def unfold(pr, hyps, g):
    """definitional unfolding (C1, C2) of one Cholesky entry occurring at the top of the goal"""
    if pr.unfolded or g.op != "eq0":
        return
    d = to_poly(g.args[0])
    out = [m[0][0] for m, c in d.items() if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "uf" and m[0][0].data == "cholat"]
    if len(out) > 2:
        return
    # the entry farthest down-right
    for t in out:
        M, i, j = t.args
        if pr.quick(hyps, eq(i, j)):
            v = sqrt_(sub(at(M, i, i), sum_(i, lam_f(["I"], lambda k: power(cholat(M, i, k), 2)))))
        elif pr.quick(hyps, gt(i, j)):
            v = div(sub(at(M, i, j), sum_(j, lam_f(["I"], lambda k: mul(cholat(M, i, k), cholat(M, j, k))))), cholat(M, j, j))
        else:
            continue
        yield t, v


def guesses(loop, cell, r, ix, pcs):
    """closed-form candidates for a matrix filled row by row with Cholesky entries"""
    if cell.kind != "M" or r.op != "ite" or len(ix) != 2:
        return
    ex = loop.ex
    i, j = ix
    seen = set()
    for c in matrices(ex):
        if c.op != "mat" or c.id in seen or occurs(loop.K, c) or loop.syms_in(c):
            continue
        seen.add(c.id)
        if any(t.op == "uf" and t.data in ("cholat", "fsolat", "kinvat") for t in subterms(c)):
            continue
        if not ex.prover.quick(base(ex), eq(rows_(c), cols_(c))):
            continue
        if not ex.prover.quick(base(ex), eq(rows_(c), rows_(cell.init))):
            continue
        yield ite(r.args[0], cholat(canon(ex, c), i, j), r.args[2])
