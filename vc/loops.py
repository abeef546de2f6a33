"""Loop summaries: loop invariants of the form  state = closed(k)  are inferred for every modified
location and checked by induction (base, step) with the prover; what has no closed form becomes a
`fold` term (the exact k-fold composition of the loop body)."""
from .terms import *
from . import terms as tm
from . import linalg
from fractions import Fraction as Fr

UNROLL = 8


# ---------------------------------------------------------------- fold / first terms
ORDERS = {}


def fold_(n, inits, lams, idx, sort, flag=None):
    """component idx of the state after n iterations of (s -> lams(k, s)) from inits"""
    if n.op == "num":
        m = int(n.data)
        if m <= 0:
            return inits[idx]
        if m <= 3:
            s = list(inits)
            for k in range(m):
                s = [app(l, I(k), *s) for l in lams]
            return s[idx]
    # reachable components, ordered from idx
    key = (idx,) + tuple(l.id for l in lams)
    if key in ORDERS:
        order, lams = ORDERS[key]
        if order is not None:
            inits = [inits[j] for j in order]
        return mk("fold", (n,) + tuple(inits) + tuple(lams), (0, flag), sort)
    order = [idx]
    opened = {}
    q = 0
    nst = len(inits)
    while q < len(order):
        c = order[q]
        q += 1
        vs, b = open_fresh(lams[c], "k")
        opened[c] = (vs, b)
        fv = freevars(b)
        for j in range(nst):
            if vs[1 + j] in fv and j not in order:
                order.append(j)
    if order != list(range(nst)):
        nl = []
        for c in order:
            vs, b = opened[c]
            nl.append(lam([vs[0]] + [vs[1 + j] for j in order], b))
        lams = nl
        inits = [inits[j] for j in order]
        ORDERS[key] = (order, lams)
    else:
        ORDERS[key] = (None, lams)
    return mk("fold", (n,) + tuple(inits) + tuple(lams), (0, flag), sort)


def _reb_fold(t, a):
    m = (len(a) - 1) // 2
    return fold_(a[0], list(a[1:1 + m]), list(a[1 + m:]), t.data[0], t.sort, t.data[1])


def fold_parts(t):
    m = (len(t.args) - 1) // 2
    return t.args[0], list(t.args[1:1 + m]), list(t.args[1 + m:])


def first_(*a):
    """first_(n, l): smallest k in [0,n) with l(k), n if there is none; first_(l): unbounded"""
    l = a[-1]
    b = l.args[0]
    if len(a) == 2:
        if b is FALSE:
            return max_(a[0], I0) if a[0].op != "len" else a[0]
        if b is TRUE:
            return ite(gt(a[0], I0), I0, I0)
    elif b is TRUE:
        return I0
    return mk("first", tuple(a), None, "I")


tm.REB["fold"] = _reb_fold
tm.REB["first"] = lambda t, a: first_(*a)


def unfold_last(t, n1):
    """fold at n1+1 expressed through the fold at n1"""
    n, inits, lams = fold_parts(t)
    comps = []
    for i, x in enumerate(inits):
        comps.append(fold_(n1, inits, lams, i, x.sort, flag_of(x, t, i)))
    return app(lams[0], n1, *comps)


def flag_of(x, t=None, i=0):
    if i == 0 and t is not None:
        return t.data[1]
    return "vec" if (x.sort == "O" and x.op != "ite" and vecish(x)) else None


def vecish(x):
    return is_vec(x) or (x.op == "mat" and x.args[1] is I1)


# ---------------------------------------------------------------- cells
class Cell:
    """a modified location (or its size / elements)"""

    def __init__(self, root, path, kind, init, val0):
        self.root, self.path, self.kind = root, path, kind   # kind: S scalar, O opaque, M matrix, Q sequence
        self.init = init
        self.val0 = val0
        self.sub = {}          # component -> symbol   ('v', 'len', 'rows', 'cols')
        self.dims = False
        self.es = None

    def key(self):
        return (self.root, self.path)


def leafval(v, path):
    for f in path:
        if v.op != "rec":
            v = fld(v, f, "O")
        else:
            v = v.args[v.data[1].index(f)]
    return v


def leafset(v, path, new):
    if not path:
        return new
    if v.op != "rec":
        raise ValueError("leafset")
    i = v.data[1].index(path[0])
    a = list(v.args)
    a[i] = leafset(a[i], path[1:], new)
    return mk("rec", tuple(a), v.data, "O")


def diffs(pre, post, path=()):
    if pre is post:
        return
    if post.op == "rec" and pre.op == "rec" and pre.data == post.data:
        for f, a, b in zip(post.data[1], pre.args, post.args):
            yield from diffs(a, b, path + (f,))
        return
    yield path, pre, post


import os
DBG = os.environ.get("LOOPDBG")


class Fail(Exception):
    pass


class Loop:
    def __init__(self, ex, cond, body, label):
        self.ex, self.cond, self.body, self.label = ex, cond, body, label
        self.st0 = dict(ex.st)
        self.cells = {}
        self.sym = {}        # symbol -> (cell, comp)

    # -------------------------------------------------------- running the body
    def step(self, st, pcs, dry=True):
        ex = self.ex
        n = len(ex.pc)
        ex.st = dict(st)
        ex.pc.extend(pcs)
        save = ex.pending
        ex.pending = []
        if dry:
            ex.dry += 1
        try:
            c = self.cond()
            stc = dict(ex.st)
            thr = list(ex.pending)
            ex.pending = []
            if c is not TRUE:
                ex.pc.append(c)
            outs = self.body()
            return c, stc, thr, outs
        finally:
            if dry:
                ex.dry -= 1
            del ex.pc[n:]
            ex.pending = save

    def normal_state(self, outs):
        """merge of the normal outcomes; None if the body never completes"""
        st = None
        for o in reversed(outs):
            if o.kind == "normal":
                st = o.st if st is None else self.ex.merge(o.cond, o.st, st)
        return st

    # -------------------------------------------------------- havoc
    def symval(self, cell):
        """havoc value of the cell"""
        k = cell.kind
        if k in ("S", "O"):
            return cell.sub["v"]
        H = cell.sub["v"]
        if k == "M":
            r = cell.sub.get("rows") or rows_(cell.init)
            c = cell.sub.get("cols") or cols_(cell.init)
            return mat_f(r, c, lambda i, j: at(H, i, j))
        n = cell.sub.get("len") or len_(cell.init)
        return seq_f(n, lambda i: get(H, i, *cell.es), *cell.es)

    def mk_cell(self, root, path, pre, post):
        init = leafval(self.st0[root], path)
        if post.sort != "O":
            cell = Cell(root, path, "S", init, pre)
            h = fresh("h:" + str(root).split("#")[0] + "".join("." + p for p in path), post.sort)
            cell.sub["v"] = h
        else:
            op = shape(post) or shape(pre) or shape(init)
            if op == "mat" or vecish(pre) or vecish(init):
                cell = Cell(root, path, "M", init, pre)
                nm = fresh("H:" + str(root).split("#")[0], "O").data
                cell.sub["v"] = mk("var", (), (nm, "vec"), "O") if (cols_(init) is I1) else var(nm, "O")
            elif op == "seq":
                cell = Cell(root, path, "Q", init, pre)
                cell.sub["v"] = fresh("H:" + str(root).split("#")[0], "O")
                s = find(post, "seq") or find(pre, "seq") or find(init, "seq")
                cell.es = s.data
            else:
                cell = Cell(root, path, "O", init, pre)
                cell.sub["v"] = fresh("H:" + str(root).split("#")[0], "O")
        for c, s in cell.sub.items():
            self.sym[s] = (cell, c)
        return cell

    def add_sub(self, cell, comp):
        h = fresh("h:%s.%s" % (str(cell.root).split("#")[0], comp), "I")
        cell.sub[comp] = h
        self.sym[h] = (cell, comp)

    def state(self, val):
        """state with every cell replaced by val(cell)"""
        st = dict(self.st0)
        for cell in self.cells.values():
            st[cell.root] = leafset(self.expand_path(st[cell.root], cell.path, cell), cell.path, val(cell))
        return st

    def expand_path(self, v, path, cell):
        """make sure records along the path are explicit"""
        if not path:
            return v
        if v.op == "ite":
            v = self.ex.ite_rec(v)
        if v.op != "rec":
            v = self.ex.expand(v, self.rid_hint[cell.root])
        i = v.data[1].index(path[0])
        a = list(v.args)
        a[i] = self.expand_path(a[i], path[1:], cell)
        return mk("rec", tuple(a), v.data, "O")

    def analyse_cells(self, pcs=(), fixed=None):
        ex = self.ex
        for it in range(25):
            st = self.state(lambda c: fixed(c) if fixed else self.symval(c))
            c, stc, thr, outs = self.step(st, list(pcs))
            post = self.normal_state(outs)
            changed = False
            if post is None:
                return c, stc, thr, outs, None, st
            for root, pv in list(st.items()):
                qv = post.get(root)
                if qv is None or qv is pv:
                    continue
                # a record that was opaque before and was expanded by the body
                if qv.op == "rec" and pv.op != "rec":
                    self.st0[root] = self.expand_like(self.st0[root], qv)
                    changed = True
                    continue
                for path, a, b in diffs(pv, qv):
                    if b.op == "rec" and a.op != "rec":
                        init = leafval(self.st0[root], path)
                        self.st0[root] = leafset(self.st0[root], path, self.expand_like(init, b))
                        for key in [k for k in self.cells if k[0] == root and k[1] == path]:
                            del self.cells[key]
                        changed = True
                        continue
                    key = (root, path)
                    cell = self.cells.get(key)
                    if cell is None:
                        self.cells[key] = self.mk_cell(root, path, a, b)
                        changed = True
                        continue
                    if cell.kind == "M":
                        for comp, f in (("rows", rows_), ("cols", cols_)):
                            if f(b) is not f(a) and comp not in cell.sub:
                                if not self.same(f(b), f(a), pcs):
                                    self.add_sub(cell, comp)
                                    changed = True
                    elif cell.kind == "Q":
                        if len_(b) is not len_(a) and "len" not in cell.sub:
                            if not self.same(len_(b), len_(a), pcs):
                                self.add_sub(cell, "len")
                                changed = True
            if not changed:
                return c, stc, thr, outs, post, st
        raise Fail("loop state does not stabilise")

    def same(self, a, b, pcs):
        return self.ex.prover is not None and self.ex.prover.quick(self.ex.pc + list(pcs), eq(a, b))

    def expand_like(self, v, shape_):
        if v.op == "rec":
            return v
        if v.op == "ite":
            return self.ex.ite_rec(v)
        return mk("rec", tuple(fld(v, f, a.sort) for f, a in zip(shape_.data[1], shape_.args)), shape_.data, "O")

    # -------------------------------------------------------- main
    def run(self):
        """vectors with a large initial value are summarised for an arbitrary initial value"""
        self.abstracted = {}
        self.kept = []
        n0 = len(self.ex.obls)
        r0, p0 = len(self.ex.required), len(self.ex.pc)
        out = self.run_()
        if self.abstracted:
            m = self.abstracted
            f = lambda v: subst(v, m) if isinstance(v, T) else v
            for o in out:
                o.cond, o.val = f(o.cond), f(o.val)
                o.st = {r: f(v) for r, v in o.st.items()}
                if o.kind == "normal":
                    self.ex.st = o.st
            for o in self.ex.obls[n0:]:
                if o.kind != "loop":
                    o.hyps, o.goal = [f(h) for h in o.hyps], f(o.goal)
            self.kept = [f(x) for x in self.kept]
        del self.ex.required[r0:]
        for x in self.kept:
            self.ex.required.append((tuple(self.ex.pc), x))
            self.ex.assume(x)
        return out

    def abstract_inits(self):
        for cell in self.cells.values():
            if cell.kind == "M" and cell.init.op in ("mat", "ite") and sum(1 for _ in subterms(cell.init)) > 20 and is_vec(cell.sub["v"]):
                A = mk("var", (), (fresh("init:" + str(cell.root).split("#")[0], "O").data, "vec"), "O")
                r = rows_(cell.init)
                self.abstracted[A] = self.simp(cell.init, [])
                cell.init = mat_f(r, I1, lambda i, j: at(A, i, j))

    def run_(self):
        from .exec import Out, Unsupported
        ex = self.ex
        self.rid_hint = {}
        # constant number of iterations: unroll
        u = self.try_unroll()
        if u is not None:
            return u
        c, stc, thr, outs, post, st = self.analyse_cells()
        if post is None:
            # the body never completes normally: at most one iteration
            return self.once()
        K = fresh("k", "I")
        self.K = K
        self.abstract_inits()
        # linear counters
        closed = {}
        for cell in self.cells.values():
            p = self.post_of(cell, post)
            for comp, h in cell.sub.items():
                if h.sort in ("I", "R") and comp != "v" or (comp == "v" and cell.kind == "S" and h.sort in ("I", "R")):
                    d = sub(p[comp], h)
                    if not self.syms_in(d):
                        init = self.init_of(cell, comp)
                        closed[h] = add(init, mul(to_real(K) if h.sort == "R" else K, d))
        N, early = self.trips(subst(c, closed), K)
        if N is not None and N.op == "num" and 0 <= N.data <= UNROLL and not early:
            return self.unroll(int(N.data))
        pcs = [ge0(K)]
        if N is not None:
            pcs.append(lt(K, N))
        for attempt in range(4):
            def fixed(cell):
                return subst(self.symval(cell), closed)
            ncell = len(self.cells)
            nsub = sum(len(x.sub) for x in self.cells.values())
            c, stc, thr, outs, post, st = self.analyse_cells(pcs, fixed)
            if len(self.cells) == ncell and nsub == sum(len(x.sub) for x in self.cells.values()):
                break
        if post is None:
            raise Unsupported("loop body without normal completion")
        N2, early = self.trips(c, K)
        N = N2 if N is None else N
        self.N = N
        if any(stc.get(r) is not st.get(r) for r in st):
            self.cond_effect = True
        else:
            self.cond_effect = False
        exits = [o for o in outs if o.kind != "normal"] + list(thr)
        self.solve(closed, post, pcs)
        closed = self.closed
        # verification pass (also generates the safety obligations of an arbitrary iteration)
        full = self.state(lambda cell: self.closed_val(cell, closed))
        E = FALSE
        for o in exits:
            E = or_(E, self.subst_state_term(o.cond, closed))
        for e in early:
            E = or_(not_(subst_all(e, closed)), E)
        pcs2 = list(pcs)
        if E is not FALSE:
            E = self.simp(E, pcs2)
        if E is not FALSE and not ex.dry:
            l = lam([K], E)
            pcs2 = pcs2 + [forall("I", lambda j: implies(and_(ge0(j), lt(j, K)), not_(app(l, j))))]
        nobl = len(ex.obls)
        nreq, npc, mark = len(ex.required), len(ex.pc), int(str(fresh("mark", "I").data).split("!")[-1])
        c, stc, thr, outs, post, st = *self.step(full, pcs2, dry=bool(ex.dry)), None, full
        post = self.normal_state(outs)
        exits = [o for o in outs if o.kind != "normal"] + list(thr)
        _, early = self.trips(c, K)
        E = FALSE
        for o in exits:
            E = or_(E, o.cond)
        for e in early:
            E = or_(not_(e), and_(e, E))
        if N is None:
            E = or_(not_(c), and_(c, E))
        E = self.simp(E, pcs)
        if not ex.dry:
            self.check_induction(full, post, pcs, E)
            ex.loops.append({"where": self.label, "cells": len(self.cells), "closed": self.kinds})
        if DBG:
            print("LOOP", self.label, "dry" if ex.dry else "", {k: str(v)[:90] for k, v in self.kinds.items()} if isinstance(self.kinds, dict) else self.kinds, "E", show(E)[:200], flush=True)
        # number of completed iterations
        if E is FALSE:
            n = N
        else:
            l = lam([K], E)
            n = first_(l) if N is None else first_(N, l)
        # what the body assumed in every completed iteration
        for pc, x in ex.required[nreq:]:
            x = implies(and_(*[y for y in pc[npc:] if y not in pcs2]), x)
            if K in freevars(x) and all(v is K or "!" not in str(v.data) or int(str(v.data).split("!")[-1]) < mark for v in freevars(x)):
                l = lam([K], x)
                self.kept.append(forall("I", lambda j: implies(and_(ge0(j), lt(j, n)), app(l, j))))
        res = []
        end = {K: n}
        # normal termination (condition false)
        if N is None:
            cn = self.simp_at(not_(c), end)
            res.append(Out("normal", cn, self.state_at(stc if self.cond_effect else full, end)))
        else:
            cN = TRUE if E is FALSE else eq(n, N)
            fin = self.state_at(full, {K: N})
            if self.cond_effect:
                ex.st = dict(fin)
                self.cond()
                fin = dict(ex.st)
            if E is not FALSE:
                res.append(Out("normal", cN, fin))
            else:
                res.append(Out("normal", TRUE, fin))
        live = TRUE if N is None else lt(n, N)
        for e in early:
            res.append(Out("normal", and_(live, subst(not_(e), end)), self.state_at(full, end)))
        ec = and_(*early) if early else TRUE
        if len(exits) > 1 or early or N is None:
            conds = [self.simp(o.cond, pcs) if len(exits) > 1 or early else TRUE for o in exits]
        else:
            # n < N: the only way out holds at n by definition of n
            conds = [TRUE]
        for o, oc in zip(exits, conds):
            cond = and_(live, subst(ec, end), subst(oc, end))
            if N is None:
                cond = and_(cond, subst(c, end))
            if cond is FALSE:
                continue
            val = subst(o.val, end) if isinstance(o.val, T) else o.val
            res.append(Out("normal" if o.kind == "break" else o.kind, cond, self.state_at(o.st, end), val))
        # merge normals
        normal = None
        out = []
        for o in res:
            if o.kind == "normal":
                normal = o if normal is None else Out("normal", or_(normal.cond, o.cond), ex.merge(o.cond, o.st, normal.st))
            else:
                out.append(o)
        if normal is not None:
            if not out:
                normal.cond = TRUE
            ex.st = normal.st
            out.append(normal)
        return out

    def simp(self, t, pcs):
        if self.ex.prover is None:
            return t
        return self.ex.prover.simp(t, list(self.ex.pc) + list(pcs))

    def simp_at(self, t, end):
        return subst(t, end)

    def subst_state_term(self, t, closed):
        return subst_all(t, closed)

    def state_at(self, st, m):
        """state with K replaced; roots created inside the body are kept (they may be referenced)"""
        out = {}
        for r, v in st.items():
            out[r] = subst(v, m) if isinstance(v, T) else v
        return out

    # -------------------------------------------------------- unrolling
    def try_unroll(self):
        """only when the condition is literally decided at every iteration (few iterations)"""
        return None

    def unroll(self, n):
        from .exec import Out
        ex = self.ex
        ex.st = dict(self.st0)
        outs = []
        cond = TRUE
        marks = []
        pcn = len(ex.pc)
        for i in range(n + 1):
            c = self.cond()
            if i == n:
                break
            if c is not TRUE:
                # exit is possible although the count was derived: trust the derivation (c holds)
                pass
            os_ = self.body()
            normal = None
            for o in os_:
                if o.kind == "normal":
                    normal = o if normal is None else Out("normal", or_(normal.cond, o.cond), ex.merge(o.cond, o.st, normal.st))
                else:
                    outs.append(Out(o.kind, and_(cond, o.cond), o.st, o.val))
            if normal is None:
                cond = FALSE
                break
            ex.st = normal.st
            cond = and_(cond, normal.cond)
            if normal.cond is not TRUE:
                ex.pc.append(normal.cond)
        del ex.pc[pcn:]
        nrm = None
        res = []
        st = dict(ex.st)
        if cond is not FALSE:
            nrm = Out("normal", cond, st)
        for o in outs:
            if o.kind == "break":
                nrm = Out("normal", o.cond, o.st) if nrm is None else Out("normal", or_(nrm.cond, o.cond), ex.merge(o.cond, o.st, nrm.st))
            else:
                res.append(o)
        if nrm is not None:
            ex.st = nrm.st
            if not res:
                nrm.cond = TRUE
            res.append(nrm)
        return res

    def once(self):
        """body that always leaves the loop: if (c) body"""
        from .exec import Out
        ex = self.ex
        ex.st = dict(self.st0)
        c = self.cond()
        st0 = dict(ex.st)
        ex.pc.append(c)
        outs = self.body()
        ex.pc.pop()
        res = [Out("normal", not_(c), st0)]
        for o in outs:
            res.append(Out("normal" if o.kind == "break" else o.kind, and_(c, o.cond), o.st, o.val))
        nrm, out = None, []
        for o in res:
            if o.kind == "normal":
                nrm = o if nrm is None else Out("normal", or_(nrm.cond, o.cond), ex.merge(o.cond, o.st, nrm.st))
            else:
                out.append(o)
        ex.st = nrm.st
        out.append(nrm)
        return out

    # -------------------------------------------------------- trip counts
    def trips(self, c, K):
        """(N, early) : the loop condition is K < N and all(early)"""
        cs = list(c.args) if c.op == "and" else [c]
        N, early = None, []
        for x in cs:
            n = None
            if not self.syms_in(x):
                n = self.trip1(x, K)
            if n is not None and N is None:
                N = n
            else:
                early.append(x)
        if N is None:
            return None, []
        if self.ex.known(ge0(N)):
            pass
        elif self.ex.known(ge0(neg(N))):
            N = I0
        else:
            N = max_(N, I0)
        return N, early

    def trip1(self, x, K):
        if x is FALSE:
            return I0
        if x.op == "ge0" and x.args[0].sort == "I":
            d = to_poly(x.args[0])
            k = d.get(((K, 1),))
            if k is None or k >= 0 or k.denominator != 1:
                return None
            r = from_poly({m: v for m, v in d.items() if m != ((K, 1),)}, "I")
            if occurs(K, r):
                return None
            s = int(-k)
            if s == 1:
                return add(r, I1)
            return add(idiv(r, I(s)), I1) if self.ex.known(ge0(r)) else None
        if x.op == "not" and x.args[0].op == "eq0":
            e = solve_eq(x.args[0], K)
            return e
        return None

    def syms_in(self, t):
        fv = freevars(t)
        return [s for s in self.sym if s in fv]

    # -------------------------------------------------------- posts
    def post_of(self, cell, post):
        v = leafval(post[cell.root], cell.path)
        out = {"v": v}
        if "len" in cell.sub:
            out["len"] = len_(v)
        if "rows" in cell.sub:
            out["rows"] = rows_(v)
        if "cols" in cell.sub:
            out["cols"] = cols_(v)
        return out

    def init_of(self, cell, comp):
        return {"v": lambda: cell.init, "len": lambda: len_(cell.init), "rows": lambda: rows_(cell.init), "cols": lambda: cols_(cell.init)}[comp]()

    # -------------------------------------------------------- solving
    def solve(self, closed, post, pcs):
        K = self.K
        self.kinds = {}
        for s in closed:
            cell, comp = self.sym[s]
            self.kinds[self.name(cell, comp)] = "linear"
        todo = {}
        for cell in self.cells.values():
            p = self.post_of(cell, post)
            for comp, s in cell.sub.items():
                if s not in closed:
                    todo[s] = p[comp]
        closed = dict(closed)
        failed = set()
        self.running = {}
        while todo:
            progress = False
            for s in list(todo):
                if s in failed:
                    continue
                run = [x for x in self.running if x in freevars(todo[s])]
                p = subst_all(todo[s], {a: b for a, b in closed.items() if a not in self.running} if run else closed)
                if run:
                    # a companion of a running extremum (its arg)
                    if not [x for x in self.syms_in(p) if x is not s and x not in self.running]:
                        cell, comp = self.sym[s]
                        r = self.solve1(cell, comp, s, p, closed, pcs)
                        if r is not None:
                            closed[s] = r
                            del todo[s]
                            progress = True
                            continue
                    p = subst_all(p, closed)
                deps = [x for x in self.syms_in(p) if x is not s]
                if deps:
                    continue
                cell, comp = self.sym[s]
                r = self.solve1(cell, comp, s, p, closed, pcs)
                if r is not None:
                    closed[s] = r
                    del todo[s]
                    progress = True
                else:
                    failed.add(s)
            if progress:
                continue
            if not todo:
                break
            # a strongly connected component that depends on nothing else
            graph = {}
            ps = {}
            for s in todo:
                p = subst_all(todo[s], closed)
                ps[s] = p
                graph[s] = set(self.syms_in(p))
            scc = sink_scc(graph)
            self.make_fold(scc, ps, closed, pcs)
            for s in scc:
                del todo[s]
        self.closed = closed

    def name(self, cell, comp):
        return "%s%s%s" % (str(cell.root).split("#")[0], "".join("." + str(x) for x in cell.path), "" if comp == "v" else "." + comp)

    def dimterms(self, cell, closed):
        if cell.kind == "M":
            r = cell.sub.get("rows") or rows_(cell.init)
            c = cell.sub.get("cols") or cols_(cell.init)
            return subst_all(r, closed), subst_all(c, closed)
        n = cell.sub.get("len") or len_(cell.init)
        return (subst_all(n, closed),)

    def solve1(self, cell, comp, s, p, closed, pcs):
        """closed form of symbol s (scalar) or array symbol; None when no pattern applies"""
        K = self.K
        if cell.kind in ("S", "O") or comp != "v":
            init = self.init_of(cell, comp)
            if p is s:
                return init
            self.cur_running = None
            r = self.closed_scalar(p, s, init, pcs)
            if r is None and p.op == "ite" and not occurs(s, p.args[0]):
                # a choice that the context may decide
                q = self.simp(p, pcs)
                r = self.closed_scalar(q, s, init, pcs) if q is not p else None
            if DBG and r is None: print("  SCALAR nopattern", cell.root, show(p, -20)[:1200])
            if r is None or [z for z in self.syms_in(r) if z is not s]:
                return None
            cur = self.cur_running
            if not self.verify_scalar(subst_all(p, closed), s, r, init, pcs):
                return None
            if cur is not None and comp == "v":
                self.running[s] = cur
            self.kinds[self.name(cell, comp)] = "closed"
            return r
        # arrays
        if cell.kind == "M":
            R_, C_ = self.dimterms(cell, closed)
            i = fresh("i", "I")
            j = fresh("j", "I")
            if C_ is I1:
                j = I0
            if R_ is I1:
                i = I0
            ix = (i, j)
            own = at(s, i, j)
            b = at(p, i, j)
            ini = lambda *a: at(cell.init, *a)
            read = lambda t: t.args[1:] if t.op == "at" and t.args[0] is s else None
            rngs = [x for v, n in ((i, R_), (j, C_)) if v.op == "var" for x in (ge0(v), lt(v, n))]
        else:
            n, = self.dimterms(cell, closed)
            i = fresh("i", "I")
            ix = (i,)
            own = get(s, i, *cell.es)
            b = get(p, i, *cell.es)
            ini = lambda *a: get(cell.init, a[0], *cell.es)
            read = lambda t: t.args[1:] if t.op == "get" and t.args[0] is s else None
            rngs = [ge0(i)]
            if "len" not in cell.sub:
                rngs.append(lt(i, n))
            else:
                # positions valid after this iteration
                rngs.append(lt(i, subst_all(self.post_len(cell, p), closed)))
        b = self.simp(b, list(pcs) + rngs)
        x = fresh("own", own.sort) if not is_vec(own) else mk("var", (), (fresh("own", "O").data, "vec"), "O")
        # own reads -> x ; other reads -> initial values (checked by the induction step)
        b = own_reads(b, s, ix, own, int(n.data) if cell.kind != "M" and n.op == "num" else None)

        def f(t, args):
            if t is own:
                return x
            return None
        b2 = replace(b, f)

        def g(t, args):
            if t.op in ("at", "get") and t.args[0] is s:
                return ini(*args[1:])
            return None
        b3 = replace(b2, g) if s in freevars(b2) else b2
        if s in freevars(b3) or [z for z in self.syms_in(b3) if z not in self.running]:
            if DBG: print("  ARR own remains", cell.root, show(b3)[:700])
            return None
        x0 = ini(*ix)
        r = self.closed_scalar(b3, x, x0, list(pcs) + rngs, ix)
        if r is None:
            if DBG: print("  ARR nopattern", cell.root, show(b3)[:900])
            return None
        comp_ = r is self.companion
        if occurs(x, r) or self.syms_in(r):
            return None
        r = self.simp(r, [ge0(K)] + rngs)
        def build(r):
            if cell.kind == "M":
                i_, j_ = fresh("i", "I"), fresh("j", "I")
                m = {a: b for a, b in zip(ix, (i_, j_)) if a.op == "var"}
                return mat(R_, C_, lam([i_, j_], subst(r, m)))
            return seq(n, lam([i], r), *cell.es)
        # verify: base and step
        val = build(r)
        if not self.verify_array(cell, s, p, val, pcs, closed, comp_):
            for r2 in linalg.guesses(self, cell, r, ix, pcs):
                val = build(r2)
                if self.verify_array(cell, s, p, val, pcs, closed):
                    break
            else:
                if DBG: print("  ARR unverified", cell.root, show(r)[:900])
                return None
        self.kinds[self.name(cell, comp)] = "closed"
        return val

    def post_len(self, cell, p):
        return len_(p)

    def verify_scalar(self, p, s, r, init, pcs):
        K = self.K
        pr = self.ex.prover
        if pr is None:
            return True
        base = eq(subst(r, {K: I0}), init)
        nxt = eq(subst(p, {s: r}), unfold_folds(subst(r, {K: add(K, I1)}), K))
        if self.cur_running is not None:
            # the first iteration separately
            z = {K: I0}
            return self.try_prove([], base) and self.try_prove([subst(x, z) for x in pcs], subst(nxt, z)) and self.try_prove(list(pcs) + [ge(K, I1)], nxt)
        return self.try_prove([], base) and self.try_prove(pcs, nxt)

    companion = None
    ext_lemmas = {}

    def ext_lemma(self, kind):
        """what is recorded along with a running extremum: the induction step from iteration 1 on, proved once per kind
        for arbitrary values F(k) and records G(k)"""
        if kind not in Loop.ext_lemmas:
            F, G = (lambda k, n=fresh("F", "R").data: uf("lem_" + n, (k,), "R")), (lambda k, n=fresh("G", "R").data: uf("lem_" + n, (k,), "R"))
            K, k, x0, c0 = fresh("k", "I"), fresh("k", "I"), fresh("x", "R"), fresh("c", "R")
            d = {"max": gt, "maxlast": ge, "min": lt, "minlast": le}[kind]
            l = lam([k], F(k))
            def at_(n, always):
                e = mk("ext", (n, l), kind[:3], "R")
                cond = gt(n, I0) if always else and_(gt(n, I0), d(e, x0))
                return ite(cond, e, x0), ite(cond, G(mk("extarg", (n, l), kind, "I")), c0)
            ok = True
            for always in (True, False):
                run, rec = at_(K, always)
                run1, rec1 = at_(add(K, I1), always)
                ok = ok and self.try_prove([ge(K, I1)], eq(unfold_folds(rec1, K), ite(d(F(K), run), G(K), rec)))
            Loop.ext_lemmas[kind] = ok
            if DBG: print("  EXT LEMMA", kind, ok)
        return Loop.ext_lemmas[kind]

    def verify_array(self, cell, s, p, val, pcs, closed, comp=False):
        K = self.K
        z = {K: I0} if comp and self.ext_lemma(self.comp_kind) else None
        step = (lambda a, b: self.try_prove([subst(x, z) for x in a], subst(b, z)) if z else self.try_prove(a, b))
        pr = self.ex.prover
        if pr is None:
            return True
        v1 = subst_all(subst(p, {s: val}), closed)
        if cell.kind == "M":
            h0 = (rows_(cell.init), cols_(cell.init))
            i, j = fresh("i", "I"), fresh("j", "I")
            if cols_(val) is I1:
                j = I0
            if rows_(val) is I1:
                i = I0
            rg = lambda r, c: [ge0(i), lt(i, r), ge0(j), lt(j, c)]
            b0 = self.try_prove(rg(*h0), eq(subst(at(val, i, j), {K: I0}), at(cell.init, i, j)))
            if not b0:
                return False
            d1 = (subst(rows_(val), {K: add(K, I1)}), subst(cols_(val), {K: add(K, I1)}))
            return step(list(pcs) + rg(*d1), eq(at(v1, i, j), unfold_folds(subst(at(val, i, j), {K: add(K, I1)}), K)))
        i = fresh("i", "I")
        b0 = self.try_prove([ge0(i), lt(i, len_(cell.init))], eq(subst(get(val, i, *cell.es), {K: I0}), get(cell.init, i, *cell.es)))
        if not b0:
            return False
        n1 = subst(len_(val), {K: add(K, I1)})
        return step(list(pcs) + [ge0(i), lt(i, n1)], eq(get(v1, i, *cell.es), unfold_folds(subst(get(val, i, *cell.es), {K: add(K, I1)}), K)))

    def try_prove(self, pcs, goal):
        if goal is TRUE:
            return True
        pr = self.ex.prover
        ob = getattr(pr, "obl_budget", 60)
        pr.obl_budget = 15
        try:
            r = pr.prove(list(self.ex.axioms) + list(self.ex.pc) + list(pcs), goal)
        finally:
            pr.obl_budget = ob
        if DBG and not r.ok:
            print("   TRY", show(goal, -int(DBG))[:3500], "\n  =>", show(pr.fail, -int(DBG))[:1500] if pr.fail is not None else "budget")
        return r.ok

    # --- patterns
    def closed_scalar(self, p, x, x0, pcs, ix=()):
        K = self.K
        if p is x:
            return x0
        k1 = sub(K, I1)
        if not occurs(x, p):
            if not occurs(K, p):
                return ite(le(K, I0), x0, p)
            return ite(le(K, I0), x0, subst(p, {K: k1}))
        if p.sort in ("I", "R"):
            d = diff(p, x)
            if d is not None and not occurs(x, d):
                if not occurs(K, d):
                    return add(x0, mul(to_real(K) if p.sort == "R" else K, d))
                k = fresh("k", "I")
                return add(x0, sum_(K, lam([k], subst(d, {K: k}))))
        if p.sort == "B":
            if p.op == "or" and x in p.args:
                c = or_(*[a for a in p.args if a is not x])
                if not occurs(x, c):
                    l = lam([K], c)
                    return or_(x0, exists("I", lambda j: and_(ge0(j), lt(j, K), app(l, j))))
            if p.op == "and" and x in p.args:
                c = and_(*[a for a in p.args if a is not x])
                if not occurs(x, c):
                    l = lam([K], c)
                    return and_(x0, forall("I", lambda j: implies(and_(ge0(j), lt(j, K)), app(l, j))))
        if p.op == "uf" and p.data == "rngadv" and p.args[0] is x and not occurs(x, p.args[1]):
            from .models import rngadv
            m = p.args[1]
            if not occurs(K, m):
                return rngadv(x0, mul(K, m))
            k = fresh("k", "I")
            return rngadv(x0, sum_(K, lam([k], subst(m, {K: k}))))
        # running extremum, and what is recorded along with it
        if p.op == "ite":
            r = self.extremum(p, x, x0, pcs)
            if r is not None:
                return r
        # guarded writes
        gs = guarded(p, x)
        if gs is not None:
            return self.region(gs, x0, K)
        if ix:
            # entry written in (at most) one iteration, whatever decides what is written
            for a in atoms_of(p):
                e = solve_eq(a, K)
                if e is None or not any(v.op == "var" and occurs(v, e) for v in ix):
                    continue
                q = replace(p, lambda z, args: FALSE if z is a else None)
                if q is not x and occurs(a, p):
                    q = self.simp(q, list(pcs) + [not_(a)])
                if q is x:
                    return ite(and_(ge0(e), lt(e, K)), subst(subst(p, {K: e}), {x: x0}), x0)
        if p.op == "poly":
            p2 = lift_ite(p, K)
            if p2 is not p:
                return self.closed_scalar(p2, x, x0, pcs, ix)
        if p.sort == "O" and len(ix) < 5:
            return self.nested(p, x, x0, pcs, ix)
        return None

    def extremum(self, p, x, x0, pcs):
        K = self.K
        c, a, b = p.args
        inf = uf("neginf", (), "R")
        if p.sort == "R" and x in (a, b):
            v = b if a is x else a
            keep = a is x
            kind = None
            if not occurs(x, v):
                for k, d in (("max", gt(v, x)), ("maxlast", ge(v, x)), ("min", gt(x, v)), ("minlast", ge(x, v))):
                    if c is (not_(d) if keep else d):
                        kind = k
        else:
            kind = None
        if kind is not None:
            v = self.simp(v, pcs)
            l = lam([K], v)
            e = mk("ext", (K, l), kind[:3], "R")
            if (x0 is inf and kind[:3] == "max") or (x0 is neg(inf) and kind[:3] == "min"):
                cond = gt(K, I0)
            else:
                d = gt if kind == "max" else ge if kind == "maxlast" else lt if kind == "min" else le
                cond = and_(gt(K, I0), d(e, x0))
            self.cur_running = ((c, self.simp(c, pcs)), keep, kind, l, cond)
            return ite(cond, e, x0)
        for s, (rc, keep, kind, l, cond) in self.running.items():
            if s not in freevars(p):
                continue
            if c in rc:
                w, o = (b, a) if keep else (a, b)
            elif not_(c) in rc:
                w, o = (a, b) if keep else (b, a)
            else:
                if DBG: print("  COMPANION cond differs\n   ", show(c, -20)[:1500], "\n   ", [show(q, -20)[:1500] for q in rc])
                continue
            if o is x and not occurs(x, w) and s not in freevars(w):
                i = mk("extarg", (K, l), kind, "I")
                self.companion, self.comp_kind = ite(cond, subst(w, {K: i}), x0), kind
                return self.companion
            if o is x and s not in freevars(w) and w.op == "ite":
                return None
        return None

    def nested(self, p, x, x0, pcs, ix):
        """element of a container that is itself updated in place: sizes and entries separately"""
        sh = shape(p)
        hyp = [ge0(self.K)] + list(pcs)
        if sh == "seq":
            es = find(p, "seq").data
            h = fresh("h", "I")
            unlen = lambda t: replace(t, lambda y, a: h if y.op == "len" and y.args[0] is x else None)
            lp = unlen(len_(p))
            if occurs(x, lp):
                return None
            n = self.closed_scalar(lp, h, len_(x0), pcs, ix + (I0,))
            if n is None or occurs(h, n):
                return None
            n = self.simp(n, hyp)
            j = fresh("i", "I")
            b = subst(unlen(get(p, j, *es)), {h: n})
            n1 = subst(n, {self.K: add(self.K, I1)})
            hyp2 = hyp + [ge0(j), lt(j, n1)]
            own = get(x, j, *es)
            b = own_reads(self.simp(b, hyp2), x, (j,), own)
            y = fresh("own", own.sort) if not is_vec(own) else mk("var", (), (fresh("own", "O").data, "vec"), "O")
            b = replace(b, lambda t, a: y if t is own else None)
            b = replace(b, lambda t, a: get(x0, a[1], *es) if t.op == "get" and t.args[0] is x else None)
            if occurs(x, b):
                return None
            r = self.closed_scalar(b, y, get(x0, j, *es), hyp2, ix + (j,))
            if r is None or occurs(y, r):
                return None
            return seq(n, lam([j], self.simp(r, [ge0(self.K), ge0(j), lt(j, n)])), *es)
        if sh == "mat":
            dims = []
            for f, nm in ((rows_, "rows"), (cols_, "cols")):
                v = f(p)
                if v is not f(x) and not (self.ex.prover and self.ex.prover.quick(list(self.ex.pc) + hyp, eq(v, f(x)))):
                    if occurs(x, v) or occurs(self.K, v) or not (self.ex.prover and self.ex.prover.quick(list(self.ex.pc), eq(v, f(x0)))):
                        return None
                dims.append(f(x0))
            i, j = fresh("i", "I"), fresh("j", "I")
            if dims[1] is I1:
                j = I0
            own = at(x, i, j)
            hyp2 = hyp + [ge0(i), lt(i, dims[0])] + ([] if j is I0 else [ge0(j), lt(j, dims[1])])
            b = self.simp(at(p, i, j), hyp2)
            y = fresh("own", own.sort)
            b = replace(b, lambda t, a: y if t is own else None)
            b = replace(b, lambda t, a: at(x0, *a[1:]) if t.op == "at" and t.args[0] is x else None)
            if occurs(x, b):
                return None
            r = self.closed_scalar(b, y, at(x0, i, j), hyp2, ix + (i, j))
            if r is None or occurs(y, r):
                return None
            j_ = fresh("j", "I")
            r = self.simp(r, hyp2)
            return mat(dims[0], dims[1], lam([i, j_], r if j is I0 else subst(r, {j: j_})))
        return None

    def region(self, gs, x0, K):
        """writes  (cond_i(k), v_i(k))  last one wins"""
        sols = []
        for c, v in gs:
            if not occurs(K, c) and not occurs(K, v):
                # the same write at every iteration
                sols.append((and_(gt(K, I0), c), None, v))
                continue
            s = self.solve_k(c, K)
            if s is None:
                if not occurs(K, v):
                    # prefix-shaped region, independent value
                    sols.append((and_(gt(K, I0), subst(c, {K: sub(K, I1)})), None, v))
                    continue
                if not occurs(K, c):
                    sols.append((and_(gt(K, I0), c), sub(K, I1), subst(v, {K: sub(K, I1)})))
                    continue
                return None
            e, extra = s
            cc = and_(ge0(e), lt(e, K), extra, subst(c, {K: e}))
            sols.append((cc, e, subst(v, {K: e})))
        if len(sols) == 1:
            c, e, v = sols[0]
            return ite(c, v, x0)
        if len(sols) <= 3 and all(e is not None for _, e, _ in sols):
            r = x0
            # the first guard in the list has priority inside one iteration
            out = x0
            for q in range(len(sols) - 1, -1, -1):
                c, e, v = sols[q]
                later = [and_(c2, gt(e2, e)) for z, (c2, e2, _) in enumerate(sols) if z > q]
                out = ite(and_(c, *[not_(l) for l in later]), v, out)
            return out
        if len(sols) <= 3:
            out = x0
            for c, e, v in reversed(sols):
                out = ite(c, v, out)
            return out
        return None

    def solve_k(self, c, K):
        lits = c.args if c.op == "and" else (c,)
        for l in lits:
            e = solve_eq(l, K)
            if e is not None:
                return e, TRUE
        for l in lits:
            if l.op == "eq0" and l.args[0].sort == "I":
                d = to_poly(l.args[0])
                k = d.get(((K, 1),))
                if k is not None and k.denominator == 1:
                    r = from_poly({m: -v * (1 if k > 0 else -1) for m, v in d.items() if m != ((K, 1),)}, "I")
                    if not occurs(K, r):
                        s = I(abs(k))
                        return idiv(r, s), and_(ge0(r), eq(imod(r, s), I0))
                # symbolic stride: r - s*K = 0
                cf, rest, ok = {}, {}, True
                for m, c1 in d.items():
                    ks = [e for a, e in m if a is K]
                    if ks == [1]:
                        cf[tuple((a, e) for a, e in m if a is not K)] = c1
                    elif ks:
                        ok = False
                    else:
                        rest[m] = c1
                cf, r = from_poly(cf, "I"), from_poly(rest, "I")
                if ok and cf is not I0 and not occurs(K, cf) and not occurs(K, r):
                    s = neg(cf)
                    if all(v < 0 for v in to_poly(s).values()):
                        s, r = neg(s), neg(r)
                    if all(v > 0 for v in to_poly(s).values()):
                        return idiv(r, s), and_(ge0(r), gt(s, I0), eq(imod(r, s), I0))
        # A - s*K >= 0  and  B + s*K >= 0  with  A + B + 1 <= s: consecutive disjoint blocks of width s
        lin = []
        for l in lits:
            if l.op == "ge0" and l.args[0].sort == "I":
                d = to_poly(l.args[0])
                cf, rest, ok = {}, {}, True
                for m, c in d.items():
                    ks = [e for a, e in m if a is K]
                    if ks == [1]:
                        cf[tuple((a, e) for a, e in m if a is not K)] = c
                    elif ks:
                        ok = False
                    else:
                        rest[m] = c
                cf, rest = from_poly(cf, "I"), from_poly(rest, "I")
                if ok and cf is not I0 and not occurs(K, cf) and not occurs(K, rest):
                    lin.append((cf, rest))
        for c1, A in lin:
            s = neg(c1)
            for c2, B in lin:
                if c2 is s:
                    w = sub(s, add(A, B, I1))
                    if w.op == "num" and w.data >= 0:
                        return idiv(A, s), and_(ge0(A), gt(s, I0))
        return None

    # --- folds
    def make_fold(self, scc, ps, closed, pcs):
        K = self.K
        scc = sorted(scc, key=lambda s: self.name(*self.sym[s]) + self.sym[s][1])
        ps = {s: self.simp(ps[s], pcs) for s in scc}
        inits, states = [], []
        arr = {}
        for s in scc:
            cell, comp = self.sym[s]
            inits.append(self.simp(self.init_of(cell, comp), pcs))
            states.append(s)
        lams = []
        for s in scc:
            p = ps[s]
            lams.append(lam([K] + states, p))
        for q, s in enumerate(scc):
            cell, comp = self.sym[s]
            flag = "vec" if (s.sort == "O" and is_vec(s)) else None
            f = fold_(K, inits, lams, q, s.sort, flag)
            if self.ex.prover is not None:
                if f.op == "fold":
                    self.ex.prover.simped.add(tuple(l.id for l in fold_parts(f)[2]))
            if s.sort == "O" and cell.kind == "M":
                R_, C_ = rows_(cell.init), cols_(cell.init)
                if "rows" in cell.sub or "cols" in cell.sub:
                    R_ = subst_all(cell.sub.get("rows") or R_, closed)
                    C_ = subst_all(cell.sub.get("cols") or C_, closed)
                closed_s = f
            else:
                closed_s = f
            closed[s] = closed_s
            self.kinds[self.name(cell, comp)] = "fold"

    def closed_val(self, cell, closed):
        return subst_all(self.symval(cell), closed)

    # -------------------------------------------------------- induction obligations
    def check_induction(self, full, post, pcs, E):
        """closed(0) = initial state; body(closed(k)) = closed(k+1)"""
        from .exec import Obl
        ex = self.ex
        K = self.K
        k1 = {K: add(K, I1)}
        notE = [not_(E)] if E is not FALSE else []
        for cell in self.cells.values():
            nm = self.name(cell, "v")
            v = leafval(full[cell.root], cell.path)
            b = eq(subst(v, {K: I0}), cell.init)
            if b is not TRUE:
                ex.obls.append(Obl("loop", "loop invariant of `%s` holds initially (%s)" % (nm, self.label), list(ex.axioms) + list(ex.pc), b, self.label))
            if post is None:
                continue
            w = leafval(post[cell.root], cell.path)
            nx = subst(v, k1)
            # unfold folds once
            nx = unfold_folds(nx, K)
            g = eq(w, nx)
            if g is not TRUE:
                ex.obls.append(Obl("loop", "loop invariant of `%s` is preserved (%s)" % (nm, self.label), list(ex.axioms) + list(ex.pc) + list(pcs) + notE, g, self.label))
        # locations that must not change
        if post is not None:
            for root, pv in full.items():
                qv = post.get(root)
                if qv is None or qv is pv:
                    continue
                for path, a, b in diffs(pv, qv):
                    if (root, path) not in self.cells:
                        g = eq(a, b)
                        if g is not TRUE:
                            ex.obls.append(Obl("loop", "frame: `%s` unchanged (%s)" % (str(root) + str(path), self.label), list(ex.axioms) + list(ex.pc) + list(pcs) + notE, g, self.label))


def unfold_folds(t, K):
    """folds taken at K+1 unfolded through K"""
    k1 = add(K, I1)

    def f(x, args):
        if x.op == "ext" and args[0] is k1 and x.data in ("max", "min"):
            l = args[1]
            e = mk("ext", (K, l), x.data, "R")
            v = app(l, K)
            return ite(ge(K, I1), ite(gt(v, e) if x.data == "max" else lt(v, e), v, e), app(l, I0))
        if x.op == "extarg" and args[0] is k1 and x.data in ("max", "min", "maxlast", "minlast"):
            l = args[1]
            e = mk("ext", (K, l), x.data[:3], "R")
            v = app(l, K)
            c = {"max": gt, "min": lt, "maxlast": ge, "minlast": le}[x.data](v, e)
            return ite(ge(K, I1), ite(c, K, mk("extarg", (K, l), x.data, "I")), I0)
        if x.op == "fold" and args[0] is k1:
            y = rebuild(x, args)
            if y.op == "fold":
                return unfold_last(y, K)
        if x.op in ("exists", "forall") and len(x.args[0].data) == 1 and occurs(K, x):
            l = args[0]
            j = fresh("j", "I")
            b = app(l, j)
            ex = x.op == "exists"
            parts = b.args if b.op == ("and" if ex else "or") else (b,)
            last = le(j, K) if ex else gt(j, K)
            if last in parts and (ge0(j) if ex else lt(j, I0)) in parts:
                rest = [z for z in parts if z is not last]
                if ex:
                    return or_(exists("I", lambda q: subst(and_(lt(j, K), *rest), {j: q})), and_(*[subst(z, {j: K}) for z in rest]))
                return and_(forall("I", lambda q: subst(or_(ge(j, K), *rest), {j: q})), or_(*[subst(z, {j: K}) for z in rest]))
        if x.op == "fold" and args[0].op == "ite" and x.args[0].op == "extarg":
            c, a, b = args[0].args

            def at_(n):
                if n.op == "ite":
                    return ite(n.args[0], at_(n.args[1]), at_(n.args[2]))
                return rebuild(x, [n] + list(args[1:]))
            return at_(args[0])
        return None
    return replace(t, f)


def subst_all(t, closed):
    for _ in range(4):
        r = subst(t, closed)
        if r is t:
            return r
        t = r
    return t


def shape(v):
    while v.op == "ite":
        a, b = v.args[1], v.args[2]
        s = shape(a)
        return s or shape(b)
    return v.op if v.op in ("mat", "seq", "rec") else None


def find(t, op):
    st = [t]
    while st:
        x = st.pop()
        if x.op == op:
            return x
        if x.op == "ite":
            st += x.args[1:]
    return None


def own_reads(b, s, ix, own, n=None):
    """under a condition index = e the entry read at e is the entry's own value; n: number of entries, when a small constant"""
    left = frozenset(range(n)) if n is not None and n <= 8 else None

    def go(t, left=left):
        if s not in freevars(t):
            return t
        if t.op == "ite" and t.sort == b.sort:
            c, x, y = t.args
            m = {}
            for l in (c.args if c.op == "and" else (c,)):
                for v in ix:
                    if v.op == "var" and v not in m:
                        e = solve_eq(l, v)
                        if e is not None:
                            m[v] = e
            if m:
                tgt = subst(own, m)
                if tgt is not own:
                    x = replace(x, lambda z, a: own if z is tgt else None)
            if left is not None and len(ix) == 1 and len(m) == 1 and c.op != "and":
                e = m.get(ix[0])
                if e is not None and e.op == "num":
                    return ite(c, go(x, left), go(y, left - {int(e.data)}))
            return ite(c, go(x, left), go(y, left))
        if left is not None and len(left) == 1:
            tgt = subst(own, {ix[0]: I(list(left)[0])})
            return replace(t, lambda z, a: own if z is tgt else None)
        return t
    return go(b)


def atoms_of(t):
    """equalities of integers in a term"""
    out, seen, st = [], set(), [t]
    while st:
        z = st.pop()
        if z.id in seen:
            continue
        seen.add(z.id)
        if z.op == "eq0" and z.args[0].sort == "I":
            out.append(z)
        st += [a for a in z.args if isinstance(a, T)]
    return out[:40]


def lift_ite(p, K):
    """a polynomial of conditionals as one conditional"""
    for m, c in to_poly(p).items():
        for a, e in m:
            if a.op == "ite" and occurs(K, a.args[0]):
                cond = a.args[0]
                f = lambda k: replace(p, lambda z, args: args[k] if z.op == "ite" and z.args[0] is cond else None)
                return mk("ite", (cond, f(1), f(2)), None, p.sort)
    return p


def diff(p, x):
    """p - x with conditionals pushed inwards; None when x does not cancel"""
    if p.op == "ite" and not occurs(x, p.args[0]):
        a, b = diff(p.args[1], x), diff(p.args[2], x)
        if a is None or b is None:
            return None
        return ite(p.args[0], a, b)
    d = sub(p, x)
    if occurs(x, d):
        # conditional terms inside the polynomial
        for m, c in to_poly(p).items():
            for a, e in m:
                if a.op == "ite" and occurs(x, a) and len(m) == 1 and e == 1 and not occurs(x, a.args[0]):
                    rest = sub(p, from_poly({m: c}, p.sort))
                    if not occurs(x, rest) and c == 1:
                        da = diff(a, x)
                        return None if da is None else add(rest, da)
        return None
    return d


def guarded(p, x):
    """p as guarded writes over x:  [(cond, value)], priority to the first; None if x is used otherwise"""
    if p is x:
        return []
    if p.op != "ite":
        if occurs(x, p):
            return None
        return [(TRUE, p)]
    c, a, b = p.args
    if occurs(x, c):
        return None
    ga, gb = guarded(a, x), guarded(b, x)
    if ga is None or gb is None:
        return None
    cs = c.args if c.op == "or" and len(c.args) <= 3 else (c,)
    return [(and_(x_, g), v) for g, v in ga for x_ in cs] + [(and_(not_(c), g), v) for g, v in gb]


def sink_scc(graph):
    """a strongly connected component without outgoing edges"""
    idx, low, st, on, out = {}, {}, [], set(), []
    ctr = [0]

    def dfs(v):
        idx[v] = low[v] = ctr[0]
        ctr[0] += 1
        st.append(v)
        on.add(v)
        for w in graph[v]:
            if w not in graph:
                continue
            if w not in idx:
                dfs(w)
                low[v] = min(low[v], low[w])
            elif w in on:
                low[v] = min(low[v], idx[w])
        if low[v] == idx[v]:
            comp = []
            while True:
                w = st.pop()
                on.discard(w)
                comp.append(w)
                if w is v:
                    break
            out.append(comp)
    for v in graph:
        if v not in idx:
            dfs(v)
    return out[0]


def run(ex, cond, body, label):
    from .exec import Unsupported
    depth = getattr(ex, "loopdepth", 0)
    ex.loopdepth = depth + 1
    try:
        return Loop(ex, cond, body, label).run()
    except Fail as x:
        raise Unsupported("loop at %s: %s" % (label, x))
    finally:
        ex.loopdepth = depth
