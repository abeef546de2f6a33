"""Trusted contracts of external libraries (Eigen, std, boost) as term transformers.

Every entry is an assumption listed in the evidence (trusted_base).  Eigen expressions are given
their mathematical meaning over the reals, std containers their abstract sequence meaning."""
from .terms import *
from . import terms as tm
from . import linalg
from fractions import Fraction as Fr


# ------------------------------------------------------------------ matrix helpers
def transpose(v):
    return mat_f(cols_(v), rows_(v), lambda i, j: at(v, j, i))


def velem(v, i):
    """linear access of a vector"""
    if rows_(v) is I1 and cols_(v) is not I1:
        return at(v, I0, i)
    return at(v, i, I0)


def vsize(v):
    r, c = rows_(v), cols_(v)
    return c if r is I1 else mul(r, c)


def flex(v):
    return lambda i, j: at(v, i, j)


def flexget(v, r, c):
    """entry accessor of v when stored into an r x c destination (Eigen transposes vectors)"""
    if c is I1 and cols_(v) is not I1 and rows_(v) is I1:
        return lambda i, j: at(v, j, i)
    if r is I1 and rows_(v) is not I1 and cols_(v) is I1:
        return lambda i, j: at(v, j, i)
    return lambda i, j: at(v, i, j)


def matmul(a, b):
    n = cols_(a)
    if n is I1:
        return mat_f(rows_(a), cols_(b), lambda i, j: mul(at(a, i, I0), at(b, I0, j)))
    return mat_f(rows_(a), cols_(b), lambda i, j: sum_(n, lam_f(["I"], lambda k: mul(at(a, i, k), at(b, k, j)))))


def msum_all(v):
    r, c = rows_(v), cols_(v)
    if c is I1:
        return sum_(r, lam_f(["I"], lambda i: at(v, i, I0)))
    if r is I1:
        return sum_(c, lam_f(["I"], lambda j: at(v, I0, j)))
    return sum_(r, lam_f(["I"], lambda i: sum_(c, lam_f(["I"], lambda j: at(v, i, j)))))


def emap(v, f):
    return mat_f(rows_(v), cols_(v), lambda i, j: f(at(v, i, j)))


def emap2(a, b, f):
    return mat_f(rows_(a), cols_(a), lambda i, j: f(at(a, i, j), at(b, i, j)))


def sqnorm(v):
    return msum_all(emap(v, lambda x: mul(x, x)))


def norm(v):
    s = sqnorm(v)
    return sqrt_(s)


def ismat(v):
    return v.sort == "O"


def resize_keep(v, r, c, fill=None):
    """conservativeResize: new entries unspecified (fill None) or given"""
    u = fresh("uninit", "O")
    orr, oc = rows_(v), cols_(v)

    def f(i, j):
        new = at(u, i, j) if fill is None else fill(i, j)
        return ite(and_(lt(i, orr), lt(j, oc)), at(v, i, j), new)
    return mat_f(r, c, f)


def uninit_mat(r, c):
    u = fresh("uninit", "O")
    return mat_f(r, c, lambda i, j: at(u, i, j))


def resize(v, r, c):
    """resize: keeps entries only when the dimensions are unchanged; otherwise, or when that is not
    evident, the entries are unspecified (an arbitrary matrix: over-approximation)"""
    u = fresh("uninit", "O")
    same = and_(eq(rows_(v), r), eq(cols_(v), c))
    if same is not TRUE:
        return mat_f(r, c, lambda i, j: at(u, i, j))
    return mat_f(r, c, lambda i, j: ite(same, at(v, i, j), at(u, i, j)))


EIG_TRANSPARENT = {"array", "matrix", "noalias", "eval", "derived", "const_cast_derived", "nestedExpression", "cast", "selfadjointView"}


def mkshape(name, r, c):
    return None


# ------------------------------------------------------------------ dispatch
def call(ex, e, f, args):
    name = ex.p.sname(f["name"])
    parts = name.split("::")
    m = parts[-1]
    cls = "::".join(parts[:-1])
    k = e["k"]
    if name.startswith("Eigen::") or cls.startswith("Eigen::"):
        return eigen(ex, e, f, args, cls, m)
    if cls in ("std::vector", "std::_Vector_base", "std::deque") or "concurrent_vector" in cls:
        return stdvector(ex, e, f, args, m)
    if cls.startswith("__gnu_cxx::__normal_iterator") or cls.endswith("vector_iterator"):
        return iterator(ex, e, f, args, m)
    if m.startswith("operator") and name.startswith("__gnu_cxx::operator"):
        return iterator(ex, e, f, args, m)
    if m.startswith("operator") and "vector_iterator" in str([ex.p.tname(t) for t in f["ptypes"]]):
        return iterator(ex, e, f, args, m)
    if cls.startswith("boost::optional") or cls.startswith("boost::optional_detail"):
        return optional(ex, e, f, args, m)
    if cls in ("std::pair", "std::tuple") and m == "operator=":
        v = ex.rv(args[1])
        loc = ex.lv(args[0])
        return tuple_assign(ex, loc, v, args)
    if cls == "std::numeric_limits":
        t = ex.p.ty(f["ret"])
        tn = t["s"]
        s = {"real": "R", "int": "I", "bool": "B"}[t["k"]]
        if m == "epsilon":
            return uf("eps<%s>" % tn, (), s)
        if m in ("max", "lowest") and tn == "double":
            # no value computed from doubles lies outside this range, or on its ends
            tm.note("computed values lie strictly between lowest<double> and max<double>", uf("neginf", (), s))
            return uf("neginf", (), s) if m == "lowest" else neg(uf("neginf", (), s))
        if m == "max":
            return uf("max<%s>" % tn, (), s)
        if m == "lowest":
            return neg(uf("max<%s>" % tn, (), s))
        if m == "min":
            return uf("min<%s>" % tn, (), s)
        if m == "infinity":
            return neg(uf("neginf", (), s))
        return None
    fn = FREE.get(name)
    if fn is None and (cls in ("std", "") or cls.startswith("std::") or cls.startswith("boost")):
        fn = STD.get(m)
    if fn is not None:
        return fn(ex, e, f, args)
    for pref, h in EXTRA.items():
        if name.startswith(pref):
            r = h(ex, e, f, args, cls, m)
            if r is not None:
                return r
    return None


EXTRA = {}


# ------------------------------------------------------------------ Eigen
def split(ex, e, args):
    """(object expression, remaining args, is arrow)"""
    if e["k"] == "mcall":
        return e["obj"], args
    return args[0], args[1:]


def obj_loc(ex, e, args):
    if e["k"] == "mcall":
        return ex.obj_loc(e)
    return ex.lv(args[0])


def obj_val(ex, e, args):
    if e["k"] == "mcall":
        if e.get("arrow"):
            return ex.read(ex.ptr(e["obj"]))
        return ex.rv(e["obj"])
    return ex.rv(args[0])


def targ_int(f, i):
    try:
        return int(f["targs"][i]["int"])
    except Exception:
        return None


VIEWS = {"row", "col", "block", "head", "tail", "segment", "topRows", "bottomRows", "leftCols", "rightCols", "diagonal",
         "array", "matrix", "noalias", "transpose", "operator()", "operator[]", "coeffRef", "coeff", "middleRows", "middleCols",
         "topLeftCorner", "bottomRightCorner", "x", "y"}


def view(ex, e, f, base, m, a):
    """Loc of an Eigen view.  base: Loc of the object, a: evaluated arguments"""
    v = ex.read(base)
    R_, C_ = rows_(v), cols_(v)
    if m in ("array", "matrix", "noalias"):
        return base
    if m in ("operator()", "operator[]", "coeffRef", "coeff", "x", "y"):
        if m == "x":
            a = [I0]
        if m == "y":
            a = [I1]
        if len(a) == 2:
            ex.bound(a[0], R_, "row index in range")
            ex.bound(a[1], C_, "column index in range")
            return base + ("at", a[0], a[1])
        ex.bound(a[0], vsize(v), "coefficient index in range")
        return base + ("vat", a[0])
    if m == "row":
        ex.bound(a[0], R_, "row index in range")
        return base + ("row", a[0])
    if m == "col":
        ex.bound(a[0], C_, "column index in range")
        return base + ("col", a[0])
    if m == "diagonal":
        return base + ("diag",)
    if m == "transpose":
        return base + ("T",)
    if m == "block":
        if len(a) == 2:
            a = a + [I(targ_int(f, 0)), I(targ_int(f, 1))]
        i, j, r, c = a
        ex.oblige("safety", "block inside the matrix", and_(ge0(i), ge0(j), ge0(r), ge0(c), le(add(i, r), R_), le(add(j, c), C_)))
        return base + ("blk", i, j, r, c)
    n = a[0] if a else I(targ_int(f, 0))
    isrow = R_ is I1 and C_ is not I1
    if m in ("head", "tail", "segment"):
        size = vsize(v)
        st = I0
        if m == "segment":
            st, n = (a[0], a[1]) if len(a) > 1 else (a[0], I(targ_int(f, 0)))
        elif m == "tail":
            st = sub(size, n)
        ex.oblige("safety", "segment inside the vector", and_(ge0(st), ge0(n), le(add(st, n), size)))
        return base + (("blk", I0, st, I1, n) if isrow else ("blk", st, I0, n, I1))
    if m in ("topRows", "bottomRows"):
        ex.oblige("safety", "rows inside the matrix", and_(ge0(n), le(n, R_)))
        return base + ("blk", I0 if m == "topRows" else sub(R_, n), I0, n, C_)
    if m in ("leftCols", "rightCols"):
        ex.oblige("safety", "columns inside the matrix", and_(ge0(n), le(n, C_)))
        return base + ("blk", I0, I0 if m == "leftCols" else sub(C_, n), R_, n)
    if m == "middleRows":
        return base + ("blk", a[0], I0, a[1], C_)
    if m == "middleCols":
        return base + ("blk", I0, a[0], R_, a[1])
    return None


def same_dims(ex, a, b, what):
    ex.oblige("safety", "matching dimensions (%s)" % what, and_(eq(rows_(a), rows_(b)), eq(cols_(a), cols_(b))))


def conv_scalar(ex, e, v):
    """1x1 product converted to a scalar"""
    return at(v, I0, I0)


def assign_eigen(ex, e, loc, v, t):
    """v assigned to the Eigen object at loc; owning dynamic objects resize"""
    old = ex.read(loc)
    owning = loc.path == () or loc.path[-1][0] in ("f", "i")
    if not ismat(v):
        raise Exception("scalar assigned to matrix")
    if v.op == "tri":
        v = tri_dense(v)
    tn = ex.p.tname(t)
    sg, tag = ex.stag(t)
    if owning and tn in ("Eigen::Matrix", "Eigen::Array", "Eigen::PlainObjectBase", "Eigen::MatrixBase", "Eigen::DenseBase"):
        if tn in ("Eigen::Matrix", "Eigen::Array"):
            v = fit(ex, v, t)
        ex.write(loc, v)
        return loc
    # view: sizes must agree (a vector may be transposed)
    r, c = rows_(old), cols_(old)
    if not ((c is I1 and rows_(v) is I1 and cols_(v) is not I1) or (r is I1 and cols_(v) is I1 and rows_(v) is not I1)):
        same_dims(ex, old, v, "assignment")
    else:
        ex.oblige("safety", "matching dimensions (assignment)", eq(mul(r, c), mul(rows_(v), cols_(v))))
    ex.write(loc, v)
    return loc


def fit(ex, v, t):
    """value stored into an Eigen::Matrix of static type t (vector transposition, fixed sizes)"""
    ty = ex.p.ty(ex.p.noref(t))
    tag = ex.eig_tag(ty)
    if v.op == "tri":
        v = tri_dense(v)
    if tag == ("vec",) and cols_(v) is not I1:
        if rows_(v) is I1:
            return transpose(v)
        ex.oblige("safety", "assigned to a column vector: one column", eq(cols_(v), I1))
        return vec_f(rows_(v), lambda i: at(v, i, I0))
    if tag == ("rvec",) and rows_(v) is not I1:
        if cols_(v) is I1:
            return transpose(v)
        return mat_f(I1, cols_(v), lambda i, j: at(v, I0, j))
    return v


def tri_dense(v):
    m = v.args[0]
    lower = "L" in v.data
    if lower:
        return mat_f(rows_(m), cols_(m), lambda i, j: ite(ge(i, j), at(m, i, j), R0))
    return mat_f(rows_(m), cols_(m), lambda i, j: ite(le(i, j), at(m, i, j), R0))


SCALAR_UN = {
    "square": lambda x: mul(x, x), "sqrt": lambda x: sqrt_(x), "exp": lambda x: exp_(x), "log": lambda x: log_(x),
    "inverse": lambda x: inv(x), "cwiseInverse": lambda x: inv(x), "abs": lambda x: abs_(x), "cwiseAbs": lambda x: abs_(x),
    "abs2": lambda x: mul(x, x), "cwiseAbs2": lambda x: mul(x, x), "cwiseSqrt": lambda x: sqrt_(x),
}


def eigen(ex, e, f, args, cls, m):
    k = e["k"]
    ccls = cls.split("::")[1] if "::" in cls else ""
    # ---- static constructors
    if f.get("static") or m in ("Map",):
        a = [ex.rv(x) for x in args]
        tag = ex.eig_tag(find_matrix(ex, f)) if find_matrix(ex, f) else ("mat",)
        shape = dims(tag, a)
        if m in ("Zero", "Ones", "Identity", "Random", "Constant", "LinSpaced"):
            if m == "Zero":
                r, c = shape
                return mat_f(r, c, lambda i, j: R0)
            if m == "Ones":
                r, c = shape
                return mat_f(r, c, lambda i, j: R1)
            if m == "Identity":
                r, c = shape
                return mat_f(r, c, lambda i, j: ite(eq(i, j), R1, R0))
            if m == "Constant":
                r, c = dims(tag, a[:-1])
                x = to_real(a[-1])
                return mat_f(r, c, lambda i, j: x)
            if m == "LinSpaced":
                n, lo, hi = a[-3], to_real(a[-2]), to_real(a[-1])
                step = div(sub(hi, lo), to_real(sub(n, I1)))
                return vec_f(n, lambda i: ite(eq(n, I1), hi, add(lo, mul(to_real(i), step))))
        if m == "Map":
            p, n = a[0], a[1]
            d = {nm: p.args[i] for i, nm in enumerate(p.data[1])} if p.op == "rec" else None
            if d is None:
                return None
            loc = ex.deref(d["seq"])
            ex.oblige("safety", "mapped range inside the container", and_(ge0(d["idx"]), ge0(n), le(add(d["idx"], n), len_(ex.read(loc)))))
            return loc + ("map", d["idx"], n)
        return None
    # ---- comma initialiser
    if ccls == "CommaInitializer" or (m == "operator<<" and ccls in ("DenseBase", "MatrixBase", "Matrix")):
        return comma(ex, e, f, args, m)
    if ccls == "IOFormat" or ccls == "WithFormat":
        return None
    # ---- LLT
    if ccls == "LLT":
        o = obj_val(ex, e, args)
        a = [ex.rv(x) for x in (args if k == "mcall" else args[1:])]
        if m == "matrixL":
            return mk("tri", (linalg.chol_mat(ex, o.args[0]),), "L", "O")
        if m == "solve":
            return matmul(linalg.kinv_mat(ex, o.args[0]), a[0])
        return None
    if ccls in ("TriangularView", "TriangularViewImpl", "TriangularBase", "Transpose") and m in ("solve", "solveInPlace", "transpose", "adjoint", "toDenseMatrix"):
        o = obj_val(ex, e, args)
        if o.op != "tri":
            if m in ("transpose", "adjoint"):
                return transpose(o)
            return None
        al = args if k == "mcall" else args[1:]
        if m in ("transpose", "adjoint"):
            return mk("tri", o.args, {"L": "LT", "U": "UT", "LT": "L", "UT": "U"}[o.data], "O")
        if m == "solve":
            b = ex.rv(al[0])
            ex.oblige("safety", "matching dimensions (triangular solve)", eq(rows_(o.args[0]), rows_(b)))
            return solve_val(ex, o, b)
        if m == "solveInPlace":
            loc = ex.lv(al[0])
            b = ex.read(loc)
            ex.oblige("safety", "matching dimensions (triangular solve)", eq(rows_(o.args[0]), rows_(b)))
            ex.write(loc, solve_val(ex, o, b))
            from .exec import UNIT
            return UNIT
        if m == "toDenseMatrix":
            return tri_dense(o)
    # ---- views
    if m in VIEWS and (k == "mcall" or m in ("operator()", "operator[]")):
        al = args if k == "mcall" else args[1:]
        o = obj_val_peek(ex, e, args)
        if o is not None and o.op == "vwise":
            return None
        loc = obj_loc(ex, e, args)
        v0 = ex.read(loc)
        if v0.op == "tri":
            if m == "transpose":
                return mk("tri", v0.args, {"L": "LT", "U": "UT", "LT": "L", "UT": "U"}[v0.data], "O")
            return None
        if v0.op == "vwise":
            return None
        a = [ex.rv(x) for x in al]
        return view(ex, e, f, loc, m, a)
    if m in ("operator=", "operator+=", "operator-=", "operator*=", "operator/="):
        o, al = split(ex, e, args)
        v = ex.rv(al[0])
        loc = obj_loc(ex, e, args)
        if m == "operator=":
            if f.get("ptypes") and not ismat(v):
                # scalar assigned to an array view
                old = ex.read(loc)
                ex.write(loc, mat_f(rows_(old), cols_(old), lambda i, j: to_real(v)))
                return loc
            return assign_eigen(ex, e, loc, v, o["t"])
        old = ex.read(loc)
        if old.op == "vwise":
            base = old.args[0]
            return None
        if m in ("operator+=", "operator-="):
            sg = 1 if m == "operator+=" else -1
            if not ismat(v):
                x = to_real(v)
                new = emap(old, lambda a: add(a, mul(R(sg), x)))
            else:
                g = flexget(v, rows_(old), cols_(old))
                if not is_flex(old, v):
                    same_dims(ex, old, v, m)
                new = mat_f(rows_(old), cols_(old), lambda i, j: add(at(old, i, j), mul(R(sg), g(i, j))))
        else:
            if not ismat(v):
                x = to_real(v)
                new = emap(old, lambda a: mul(a, x) if m == "operator*=" else div(a, x))
            elif is_array(ex, o["t"]):
                new = emap2(old, v, mul if m == "operator*=" else div)
            else:
                new = matmul(old, v)
        ex.write(loc, new)
        return loc
    # ---- sizes / mutation of owning objects
    if m in ("resize", "conservativeResize", "conservativeResizeLike", "setZero", "setOnes", "setConstant", "setIdentity", "swap", "resizeLike", "fill", "setRandom"):
        from .exec import UNIT
        loc = obj_loc(ex, e, args)
        v = ex.read(loc)
        a = [ex.rv(x) for x in (args if k == "mcall" else args[1:])]
        if m == "resize":
            if len(a) == 1:
                ex.write(loc, resize(v, a[0], I1) if not (rows_(v) is I1 and cols_(v) is not I1) else resize(v, I1, a[0]))
            else:
                ex.write(loc, resize(v, a[0], a[1]))
            for x in a:
                ex.oblige("safety", "non-negative size", ge0(x))
        elif m == "conservativeResize":
            nr, nc = (a[0], a[1]) if len(a) == 2 else (a[0], cols_(v)) if cols_(v) is I1 else (I1, a[0])
            ex.write(loc, resize_keep(v, nr, nc))
        elif m == "conservativeResizeLike":
            o = a[0]
            ex.write(loc, resize_keep(v, rows_(o), cols_(o), lambda i, j: at(o, i, j)))
        elif m == "setZero":
            if a:
                r, c = (a[0], a[1]) if len(a) == 2 else (a[0], I1)
                ex.write(loc, mat_f(r, c, lambda i, j: R0))
            else:
                ex.write(loc, emap(v, lambda x: R0))
        elif m == "setOnes":
            ex.write(loc, emap(v, lambda x: R1))
        elif m in ("setConstant", "fill"):
            x = to_real(a[-1])
            ex.write(loc, emap(v, lambda _: x))
        elif m == "setIdentity":
            if "Permutation" in ccls:
                ex.write(loc, seq_f(len_(v), lambda i: i, "I"))
            else:
                ex.write(loc, mat_f(rows_(v), cols_(v), lambda i, j: ite(eq(i, j), R1, R0)))
        else:
            return None
        return UNIT
    # ---- free binary operators and member functions on values
    if m.startswith("operator"):
        op = m[8:]
        vals = [ex.rv(x) for x in args] if k != "mcall" else [obj_val(ex, e, args)] + [ex.rv(x) for x in args]
        return eig_op(ex, e, f, op, vals, [x["t"] for x in args])
    o = obj_val(ex, e, args)
    al = args if k == "mcall" else args[1:]
    return eig_method(ex, e, f, ccls, m, o, al)


def obj_val_peek(ex, e, args):
    return None


def is_flex(a, b):
    return (cols_(a) is I1 and rows_(b) is I1 and cols_(b) is not I1) or (rows_(a) is I1 and cols_(b) is I1 and rows_(b) is not I1)


def solve_val(ex, tri, b):
    r = linalg.solve(ex, tri, b)
    if r is not None:
        return r
    m = tri.args[0]
    n = rows_(b)
    name = {"L": "trisolve", "LT": "trisolveT", "U": "utrisolve", "UT": "utrisolveT"}[tri.data]
    x = uf(name, (m, b), "O")
    return mat_f(n, cols_(b), lambda i, j: mk("at", (x, i, j), None, "R"))


def find_matrix(ex, f):
    """type entry of the plain Eigen::Matrix a static/DenseBase member belongs to"""
    ty = ex.p.ty(f["cls"])
    for _ in range(6):
        n = ex.p.sname(ty["name"]) if ty["k"] == "rec" else ""
        if n in ("Eigen::Matrix", "Eigen::Array"):
            return ty
        ta = ty.get("targs", [])
        if not ta or isinstance(ta[0], dict):
            return None
        ty = ex.p.ty(ta[0])
    return None


def dims(tag, a):
    if len(a) == 2:
        return a[0], a[1]
    if len(a) == 1:
        return (I1, a[0]) if tag == ("rvec",) else (a[0], I1)
    return None, None


def is_array(ex, t):
    ty = ex.p.ty(ex.p.noref(t))
    return kind_array(ex, ty)


def kind_array(ex, ty, d=0):
    """does the Eigen expression type denote an array (coefficient-wise) expression?"""
    if ty["k"] == "ref":
        return kind_array(ex, ex.p.ty(ty["to"]), d)
    if ty["k"] != "rec":
        return False
    n = ex.p.sname(ty["name"])
    if n in ("Eigen::ArrayWrapper", "Eigen::Array", "Eigen::ArrayBase"):
        return True
    if n in ("Eigen::MatrixWrapper", "Eigen::Matrix", "Eigen::Product", "Eigen::MatrixBase", "Eigen::Diagonal", "Eigen::TriangularView"):
        return False
    for x in ty.get("targs", []):
        if not isinstance(x, dict):
            y = ex.p.ty(x)
            if y["k"] in ("rec", "ref"):
                yy = y if y["k"] == "rec" else ex.p.ty(y["to"])
                if yy["k"] == "rec" and ex.p.sname(yy["name"]).startswith("Eigen::") and not ex.p.sname(yy["name"]).startswith("Eigen::internal"):
                    return kind_array(ex, yy, d + 1)
    return False


def eig_op(ex, e, f, op, vals, ts):
    if op in ("==", "!=") and len(vals) == 2 and ismat(vals[0]) and ismat(vals[1]) and not is_array(ex, ts[0]):
        a, b = vals
        q = forall(["I", "I"], lambda i, j: implies(and_(ge0(i), lt(i, rows_(a)), ge0(j), lt(j, cols_(a))), eq(at(a, i, j), at(b, i, j))))
        r = and_(q)
        return r if op == "==" else not_(r)
    if len(vals) == 1:
        if op == "-":
            return emap(vals[0], neg)
        if op in ("()", "[]"):
            return None
        # conversion to scalar (inner product)
        if op.startswith(" ") or op == "":
            return conv_scalar(ex, e, vals[0])
        return None
    a, b = vals
    if a.op == "vwise" or b.op == "vwise":
        return vwise_op(ex, op, a, b)
    if a.op == "tri" or b.op == "tri":
        a = tri_dense(a) if a.op == "tri" else a
        b = tri_dense(b) if b.op == "tri" else b
    if "Permutation" in ex.p.tname(ts[0]):
        if op == "*":
            # (P b)(i) = b(idx^-1(i)); row i of b goes to row indices(i)
            p = a
            ex.oblige("safety", "matching dimensions (permutation)", eq(len_(p), rows_(b)))
            k = fresh("k", "I")
            x = get(p, k, "I")
            if x.op == "uf" and x.data == "shuffled" and x.args[2] is k:
                return mat_f(rows_(b), cols_(b), lambda i, j: at(b, shuf_inv(x.args[0], x.args[1], i), j))
            return mat_f(rows_(b), cols_(b), lambda i, j: at(b, uf("permInv", (p, i), "I"), j))
        return None
    arr = (ismat(a) and is_array(ex, ts[0])) or (ismat(b) and len(ts) > 1 and is_array(ex, ts[1]))
    if ismat(a) and ismat(b):
        if op in ("+", "-"):
            if not is_flex(a, b):
                same_dims(ex, a, b, "operator" + op)
            g = add if op == "+" else sub
            return mat_f(rows_(a), cols_(a), lambda i, j: g(at(a, i, j), at(b, i, j)))
        if op == "*":
            if arr:
                same_dims(ex, a, b, "operator*")
                return emap2(a, b, mul)
            ex.oblige("safety", "matching dimensions (product)", eq(cols_(a), rows_(b)))
            return matmul(a, b)
        if op == "/" and arr:
            same_dims(ex, a, b, "operator/")
            return emap2(a, b, div)
        if op in ("<", "<=", ">", ">=", "==", "!=") and arr:
            return mk("bmat", (rows_(a), cols_(a), lam_f(["I", "I"], lambda i, j: ex.cmp(op, at(a, i, j), at(b, i, j)))), None, "O")
        return None
    if ismat(a):
        s = to_real(b)
        if op == "*":
            return emap(a, lambda x: mul(x, s))
        if op == "/":
            iv = inv(s)
            return emap(a, lambda x: mul(x, iv))
        if op == "+" and arr:
            return emap(a, lambda x: add(x, s))
        if op == "-" and arr:
            return emap(a, lambda x: sub(x, s))
        if op in ("<", "<=", ">", ">=", "==", "!=") and arr:
            return mk("bmat", (rows_(a), cols_(a), lam_f(["I", "I"], lambda i, j: ex.cmp(op, at(a, i, j), s))), None, "O")
        return None
    s = to_real(a)
    if op == "*":
        return emap(b, lambda x: mul(s, x))
    if op == "+" and arr:
        return emap(b, lambda x: add(s, x))
    if op == "-" and arr:
        return emap(b, lambda x: sub(s, x))
    if op == "/" and arr:
        return emap(b, lambda x: div(s, x))
    return None


def vwise_op(ex, op, a, b):
    """colwise()/rowwise() broadcasting"""
    fs = {"+": add, "-": sub, "*": mul, "/": div}
    if a.op != "vwise" or op not in fs:
        return None
    m, colw = a.args[0], a.data == "col"
    g = fs[op]
    if colw:
        ex.oblige("safety", "matching dimensions (colwise)", eq(rows_(m), vsize(b)))
        return mat_f(rows_(m), cols_(m), lambda i, j: g(at(m, i, j), velem(b, i)))
    return mat_f(rows_(m), cols_(m), lambda i, j: g(at(m, i, j), velem(b, j)))


def eig_method(ex, e, f, ccls, m, o, al):
    from .exec import Unsupported
    if o.op == "vwise":
        mm, colw = o.args[0], o.data == "col"
        n = rows_(mm) if colw else cols_(mm)

        def red(g):
            if colw:
                return mat_f(I1, cols_(mm), lambda i, j: g(lambda k: at(mm, k, j)))
            return mat_f(rows_(mm), I1, lambda i, j: g(lambda k: at(mm, i, k)))
        if m == "sum":
            return red(lambda h: sum_(n, lam_f(["I"], h)))
        if m == "mean":
            return red(lambda h: div(sum_(n, lam_f(["I"], h)), to_real(n)))
        if m in ("squaredNorm", "norm"):
            r = red(lambda h: sum_(n, lam_f(["I"], lambda k: mul(h(k), h(k)))))
            return r if m == "squaredNorm" else emap(r, sqrt_)
        if m in ("maxCoeff", "minCoeff"):
            return red(lambda h: mk("ext", (n, lam_f(["I"], h)), m[:3], "R"))
        return None
    if o.op == "bmat":
        r, c, l = o.args
        rng = lambda i, j: and_(ge0(i), lt(i, r), ge0(j), lt(j, c))
        if m == "all":
            return forall(["I", "I"], lambda i, j: implies(rng(i, j), app(l, i, j)))
        if m == "any":
            return exists(["I", "I"], lambda i, j: and_(rng(i, j), app(l, i, j)))
        return None
    if "Permutation" in ccls:
        if m == "indices" and e["k"] == "mcall":
            return mk("permidx", (ex.mkiter(obj_loc(ex, e, al), I0, ("perm",)), len_(o)), None, "O")
        return {"size": len_(o), "rows": len_(o), "cols": len_(o)}.get(m)
    if o.op == "permidx":
        return {"data": o.args[0], "size": o.args[1], "rows": o.args[1]}.get(m)
    if m in EIG_TRANSPARENT:
        return o
    if m == "rows":
        return rows_(o)
    if m == "cols":
        return cols_(o)
    if m == "size":
        return vsize(o)
    if m == "colwise":
        return mk("vwise", (o,), "col", "O")
    if m == "rowwise":
        return mk("vwise", (o,), "row", "O")
    if m == "triangularView":
        md = targ_int(f, 0)
        return mk("tri", (o,), "L" if md in (1, None) else "U", "O")
    if m in ("adjoint", "transpose"):
        return transpose(o)
    if m in SCALAR_UN and not (m == "inverse" and not is_array(ex, (e["obj"]["t"] if e["k"] == "mcall" else al[0]["t"]))):
        return emap(o, SCALAR_UN[m])
    if m == "inverse":
        return mat_f(rows_(o), cols_(o), lambda i, j: mk("at", (uf("minv", (o,), "O"), i, j), None, "R"))
    if m == "sum":
        return msum_all(o)
    if m == "mean":
        return div(msum_all(o), to_real(vsize(o)))
    if m == "prod":
        return uf("prod", (o,), "R")
    if m == "trace":
        return sum_(rows_(o), lam_f(["I"], lambda i: at(o, i, i)))
    if m == "squaredNorm":
        return sqnorm(o)
    if m == "norm":
        return norm(o)
    if m in ("maxCoeff", "minCoeff"):
        v = mk("ext", (vsize(o), lam_f(["I"], lambda k: velem(o, k))), m[:3], "R") if (cols_(o) is I1 or rows_(o) is I1) else uf(m, (o,), "R")
        if al:
            loc = ex.deref(ex.rv(al[0]))
            ex.write(loc, mk("extarg", (vsize(o), lam_f(["I"], lambda k: velem(o, k))), m[:3], "I"))
        return v
    vals = [ex.rv(x) for x in al]
    if m == "dot":
        b = vals[0]
        same_size(ex, o, b)
        return sum_(vsize(o), lam_f(["I"], lambda i: mul(velem(o, i), velem(b, i))))
    if m in ("cwiseProduct", "cwiseQuotient", "cwiseMin", "cwiseMax"):
        b = vals[0]
        if ismat(b):
            same_dims(ex, o, b, m)
            g = {"cwiseProduct": mul, "cwiseQuotient": div, "cwiseMin": min_, "cwiseMax": max_}[m]
            return emap2(o, b, g)
        if m in ("cwiseMin", "cwiseMax") and b.sort in ("R", "I"):
            h = min_ if m == "cwiseMin" else max_
            return emap(o, lambda x: h(x, to_real(b)))
        return None
    if m in ("min", "max") and vals:
        b = vals[0]
        g = min_ if m == "min" else max_
        if ismat(b):
            return emap2(o, b, g)
        return emap(o, lambda x: g(x, to_real(b)))
    if m == "pow":
        return emap(o, lambda x: pow_(x, vals[0]))
    if m == "replicate":
        return None
    if m == "determinant":
        return uf("det", (o,), "R")
    if m == "isApprox":
        return None
    if m == "llt":
        return mk("llt", (o,), None, "O")
    if m == "data":
        return ex.mkiter(obj_loc(ex, e, al), I0, ("v",)) if e["k"] == "mcall" else None
    if m == "format":
        return mk("fmt", (o, vals[0]), None, "O")
    if m == "value":
        return at(o, I0, I0)
    if m.startswith("operator"):
        return None
    return None


def same_size(ex, a, b):
    ex.oblige("safety", "matching sizes", eq(vsize(a), vsize(b)))


def comma(ex, e, f, args, m):
    """m << a, b, c : coefficients of a vector / matrix in row-major order"""
    if m == "operator<<":
        loc = obj_loc(ex, e, args)
        al = args if e["k"] == "mcall" else args[1:]
        pos = I0
    else:
        c = ex.rv(e["obj"] if e["k"] == "mcall" else args[0])
        from .exec import unref
        al = args if e["k"] == "mcall" else args[1:]
        if m == "finished" or not al:
            return ex.read(unref(c.args[0]))
        loc, pos = unref(c.args[0]), c.args[1]
    v = ex.rv(al[0])
    old = ex.read(loc)
    from .exec import mkref
    if not ismat(v):
        x = to_real(v)
        if cols_(old) is I1 or rows_(old) is I1:
            ex.bound(pos, vsize(old), "comma initialiser in range")
            ex.write(loc + ("vat", pos), x)
        else:
            w = cols_(old)
            ex.write(loc + ("at", idiv(pos, w), imod(pos, w)), x)
        return mk("comma", (mkref(loc), add(pos, I1)), None, "O")
    # blocks: only vectors stacked in a vector are modelled
    if cols_(old) is I1 and cols_(v) is I1:
        ex.oblige("safety", "comma initialiser in range", le(add(pos, rows_(v)), rows_(old)))
        ex.write(loc + ("blk", pos, I0, rows_(v), I1), v)
        return mk("comma", (mkref(loc), add(pos, rows_(v))), None, "O")
    return None


# ------------------------------------------------------------------ constructors
def construct(ex, e, tn, args):
    from .exec import Unsupported, UNIT, string
    t = e["t"]
    if tn in ("Eigen::Matrix", "Eigen::Array"):
        ty = ex.p.ty(ex.p.noref(t))
        tag = ex.eig_tag(ty)
        if not args:
            return ex.default(t)
        vals = [ex.rv(a) for a in args]
        if len(vals) == 1:
            v = vals[0]
            if v.sort == "O":
                if v.op == "comma":
                    v = ex.read(__import__("vc.exec", fromlist=["unref"]).unref(v.args[0]))
                return fit(ex, v, t)
            if ex.fixed(ty) == 1 and tag == ("vec",):
                return vec_f(I1, lambda i: to_real(v))
            ex.oblige("safety", "non-negative size", ge0(v) if v.sort == "I" else TRUE)
            r, c = (I1, v) if tag == ("rvec",) else (v, I1)
            return uninit_mat(r, c)
        if len(vals) == 2:
            if ex.fixed(ty) == 2:
                return vec_f(I(2), lambda i: ite(eq(i, I0), to_real(vals[0]), to_real(vals[1])))
            for v in vals:
                ex.oblige("safety", "non-negative size", ge0(v))
            return uninit_mat(*vals)
        return None
    if tn == "Eigen::LLT":
        v = ex.rv(args[0])
        return mk("llt", (v,), None, "O")
    if tn == "Eigen::PermutationMatrix":
        n = ex.rv(args[0])
        u = fresh("uninit", "O")
        return seq_f(n, lambda i: get(u, i, "I"), "I")
    if tn.startswith("Eigen::") and len(args) == 1:
        return ex.rv(args[0])
    if tn in ("std::vector", "std::deque") or "concurrent_vector" in tn:
        tag = ex.stag(t)[1]
        es, et = tag[1], tag[2]
        ty = ex.p.ty(ex.p.noref(t))
        args = [a for a in args if "allocator" not in ex.p.tname(a["t"])]
        if not args:
            return ex.default(t)
        pt = ex.p.ty(ex.p.noref(args[0]["t"]))
        v = ex.rv(args[0])
        if pt["k"] == "int":
            n = v
            ex.oblige("safety", "non-negative size", ge0(n))
            if len(args) > 1 and args[1]["t"] is not None:
                x = ex.rv(args[1])
                if es == "R":
                    x = to_real(x)
                return seq_f(n, lambda i: x, es, et)
            eltt = ex.targ_types(ty)[0]
            x = ex.default(eltt) if ex.p.rid(eltt) not in ex.p.recs or not ex.p.recs[ex.p.rid(eltt)].get("root") else uf("default:" + ex.p.ty(eltt)["s"], (), "O")
            return seq_f(n, lambda i: x, es, et)
        if v.op == "rec" and v.data[0] == "iter" and len(args) == 2:
            w = ex.rv(args[1])
            return slice_iter(ex, v, w, es, et)
        return v
    if tn in ("std::pair", "std::tuple"):
        tag = ex.stag(t)[1]
        if not args:
            return ex.default(t)
        if len(args) == 1 and len(tag) > 2:
            v = ex.rv(args[0])
            if v.op == "rec" and v.data[0] == "tuple":
                return rec("tuple", {str(i): ex.coerce_s(a, tag[1 + i][0]) for i, a in enumerate(v.args)})
            return v
        vals = [ex.rv(a) for a in args]
        return rec("tuple", {str(i): fit_elem(ex, v, t, i, tag) for i, v in enumerate(vals)})
    if tn == "boost::optional":
        if not args:
            return ex.default(t)
        if ex.p.tname(args[0]["t"]) in ("boost::none_t",) or "none" in ex.p.ty(ex.p.noref(args[0]["t"]))["s"]:
            return ex.default(t)
        v = ex.rv(args[0])
        if v.op == "rec" and v.data[0] == "opt":
            return v
        if v.op == "none":
            return ex.default(t)
        targ = ex.targ_types(ex.p.ty(ex.p.noref(t)))[0]
        if ex.is_eigen(targ):
            v = fit(ex, v, targ)
        return rec("opt", {"has": TRUE, "val": v})
    if tn == "std::basic_string":
        args = [a for a in args if "allocator" not in ex.p.tname(a["t"])]
        if not args:
            return string("")
        v = ex.rv(args[0])
        return v
    if tn in ("std::integral_constant",):
        return UNIT
    if tn in ("std::uniform_real_distribution", "std::uniform_int_distribution", "std::normal_distribution"):
        vals = [ex.rv(a) for a in args]
        return mk("dist", tuple(vals), tn[5:], "O")
    if tn in ("std::mersenne_twister_engine",):
        if args:
            return uf("rngseed", (ex.rv(args[0]),), "O")
        return uf("rngseed", (I(5489),), "O")
    if tn.startswith("__gnu_cxx::__normal_iterator") and len(args) == 1:
        return ex.rv(args[0])
    if tn == "boost::fusion::vector":
        if not args:
            return ex.default(t)
    if len(args) == 1 and tn in ("std::reference_wrapper",):
        return ex.rv(args[0])
    h = CTORS.get(tn)
    if h:
        return h(ex, e, tn, args)
    return None


CTORS = {}


def fit_elem(ex, v, t, i, tag):
    ty = ex.p.ty(ex.p.noref(t))
    v = ex.coerce_s(v, tag[1 + i][0])
    tt = ex.targ_types(ty)
    if i < len(tt) and ex.is_eigen(tt[i]):
        v = fit(ex, v, tt[i])
    elif i < len(tt) and ex.p.tname(tt[i]) == "boost::optional" and not (v.op == "ite" or v.op == "rec" and v.data[0] == "opt"):
        if v.op == "none":
            return ex.default(tt[i])
        targ = ex.targ_types(ex.p.ty(ex.p.noref(tt[i])))[0]
        v = rec("opt", {"has": TRUE, "val": fit(ex, v, targ) if ex.is_eigen(targ) else v})
    return v


def slice_iter(ex, a, b, es, et):
    d = dict(zip(a.data[1], a.args))
    d2 = dict(zip(b.data[1], b.args))
    s = ex.read(ex.deref(d["seq"]))
    lo, hi = d["idx"], d2["idx"]
    ex.oblige("safety", "valid iterator range", and_(ge0(lo), le(lo, hi), le(hi, slen(s))))
    return seq_f(sub(hi, lo), lambda i: selem(s, add(lo, i), es, et), es, et)


def slen(s):
    return len_(s) if s.op in ("seq", "len", "get", "fld", "var", "ite", "uf", "bv") and not s.op == "mat" else vsize(s)


def selem(s, i, es, et):
    if s.op == "mat":
        return velem(s, i)
    return get(s, i, es, et)


# ------------------------------------------------------------------ std::vector
def vec_loc(ex, e, args):
    if e["k"] == "mcall":
        return ex.obj_loc(e)
    return ex.lv(args[0])


def elem_type(ex, e, args):
    t = e["obj"]["t"] if e["k"] == "mcall" else args[0]["t"]
    ty = ex.p.ty(ex.p.noref(t))
    if ty["k"] == "ptr":
        t = ty["to"]
    return ex.stag(t)[1], t


def stdvector(ex, e, f, args, m):
    from .exec import UNIT
    tag, t = elem_type(ex, e, args)
    if not tag or tag[0] != "seq":
        # _Vector_base etc.
        return None
    es, et = tag[1], tag[2]
    loc = vec_loc(ex, e, args)
    al = args if e["k"] == "mcall" else args[1:]
    s = ex.read(loc)
    n = len_(s)
    kind = ("i", es, et)
    if m == "size":
        return n
    if m == "empty":
        return eq(n, I0)
    if m in ("operator[]", "at"):
        i = ex.rv(al[0])
        ex.bound(i, n, "vector index in range")
        return loc + ("i", i, es, et)
    if m == "back":
        ex.oblige("safety", "back() of a non-empty vector", gt(n, I0))
        return loc + ("i", sub(n, I1), es, et)
    if m == "front":
        ex.oblige("safety", "front() of a non-empty vector", gt(n, I0))
        return loc + ("i", I0, es, et)
    if m in ("push_back", "emplace_back"):
        eltt = ex.targ_types(ex.p.ty(ex.p.noref(t)))[0]
        if m == "emplace_back" and len(al) != 1:
            if tag[2] and tag[2][0] == "tuple":
                v = rec("tuple", {str(i): ex.coerce_s(ex.rv(a), tag[2][1 + i][0]) for i, a in enumerate(al)})
            elif not al:
                v = ex.default(eltt)
            else:
                return None
        else:
            v = ex.rv(al[0])
        if ex.is_eigen(eltt):
            v = fit(ex, v, eltt)
        v = ex.coerce(v, eltt)
        s = ex.read(loc)
        n = len_(s)
        ex.write(loc, seq_f(add(n, I1), lambda i: ite(eq(i, n), v, get(s, i, es, et)), es, et))
        return UNIT
    if m == "pop_back":
        ex.oblige("safety", "pop_back() of a non-empty vector", gt(n, I0))
        ex.write(loc, seq_f(sub(n, I1), lambda i: get(s, i, es, et), es, et))
        return UNIT
    if m == "clear":
        ex.write(loc, seq_f(I0, lambda i: get(s, i, es, et), es, et))
        return UNIT
    if m in ("reserve", "shrink_to_fit"):
        for a in al:
            ex.rv(a)
        return UNIT
    if m == "resize":
        k = ex.rv(al[0])
        eltt = ex.targ_types(ex.p.ty(ex.p.noref(t)))[0]
        x = ex.rv(al[1]) if len(al) > 1 else ex.default(eltt)
        ex.write(loc, seq_f(k, lambda i: ite(lt(i, n), get(s, i, es, et), x), es, et))
        return UNIT
    if m in ("begin", "cbegin", "data"):
        return ex.mkiter(loc, I0, kind)
    if m in ("end", "cend"):
        return ex.mkiter(loc, n, kind)
    if m == "operator=":
        v = ex.rv(al[0])
        ex.write(loc, v)
        return loc
    if m == "swap":
        l2 = ex.lv(al[0])
        v2 = ex.read(l2)
        ex.write(l2, s)
        ex.write(loc, v2)
        return UNIT
    if m == "erase":
        it = ex.rv(al[0])
        d = dict(zip(it.data[1], it.args))
        lo = d["idx"]
        hi = add(lo, I1)
        if len(al) > 1:
            it2 = ex.rv(al[1])
            hi = dict(zip(it2.data[1], it2.args))["idx"]
        ex.oblige("safety", "erased range valid", and_(ge0(lo), le(lo, hi), le(hi, n)))
        w = sub(hi, lo)
        ex.write(loc, seq_f(sub(n, w), lambda i: ite(lt(i, lo), get(s, i, es, et), get(s, add(i, w), es, et)), es, et))
        return ex.mkiter(loc, lo, kind)
    if m == "insert":
        it = ex.rv(al[0])
        pos = dict(zip(it.data[1], it.args))["idx"]
        if len(al) == 3:
            a, b = ex.rv(al[1]), ex.rv(al[2])
            if a.op == "rec" and a.data[0] == "iter":
                ins = slice_iter(ex, a, b, es, et)
                w = len_(ins)
                ex.write(loc, seq_f(add(n, w), lambda i: ite(lt(i, pos), get(s, i, es, et), ite(lt(i, add(pos, w)), get(ins, sub(i, pos), es, et), get(s, sub(i, w), es, et))), es, et))
                return ex.mkiter(loc, pos, kind)
            return None
        v = ex.rv(al[1])
        if v.op == "seq":
            return None
        ex.write(loc, seq_f(add(n, I1), lambda i: ite(lt(i, pos), get(s, i, es, et), ite(eq(i, pos), v, get(s, sub(i, I1), es, et))), es, et))
        return ex.mkiter(loc, pos, kind)
    return None


def iterator(ex, e, f, args, m):
    from .exec import Loc
    if e["k"] == "mcall":
        o = e["obj"]
        al = args
    else:
        o, al = args[0], args[1:]
    if m == "base":
        return ex.rv(o)
    if m in ("operator++", "operator--"):
        loc = ex.lv(o)
        v = ex.read(loc)
        ex.write(loc, ex.bump(v, 1 if m == "operator++" else -1))
        return v if al else loc
    if m in ("operator+=", "operator-="):
        loc = ex.lv(o)
        v = ex.read(loc)
        n = ex.rv(al[0])
        ex.write(loc, shift_iter(v, n if m == "operator+=" else neg(n)))
        return loc
    v = ex.rv(o)
    if m in ("operator*", "operator->") and not al:
        loc = ex.iter_loc(v)
        if m == "operator->":
            from .exec import mkref
            return mkref(loc)
        return loc
    w = ex.rv(al[0])
    if m == "operator[]":
        return ex.iter_loc(shift_iter(v, w))
    iv = dict(zip(v.data[1], v.args))["idx"] if v.op == "rec" else None
    if m in ("operator==", "operator!=", "operator<", "operator<=", "operator>", "operator>="):
        iw = dict(zip(w.data[1], w.args))["idx"]
        return ex.cmp(m[8:], iv, iw)
    if m == "operator-" and w.sort == "O":
        iw = dict(zip(w.data[1], w.args))["idx"]
        return sub(iv, iw)
    if m == "operator+":
        return shift_iter(v, w)
    if m == "operator-":
        return shift_iter(v, neg(w))
    return None


def shift_iter(v, n):
    d = dict(zip(v.data[1], v.args))
    d["idx"] = add(d["idx"], n)
    return rec("iter", d)


def optional(ex, e, f, args, m):
    from .exec import UNIT
    tag, _ = None, None
    loc = ex.obj_loc(e) if e["k"] == "mcall" else ex.lv(args[0])
    o = ex.read(loc)
    al = args if e["k"] == "mcall" else args[1:]
    ot = e["obj"]["t"] if e["k"] == "mcall" else args[0]["t"]
    st = ex.stag(ot)[1]
    et = st[1] if st and st[0] == "opt" else None
    has = fld(o, "has", "B") if o.op != "rec" else o.args[0]
    if m in ("is_initialized", "has_value") or m.startswith("operator bool") or m == "operator":
        return has
    if m == "operator!":
        return not_(has)
    if m in ("get", "value", "operator*", "operator->"):
        ex.oblige("safety", "optional value present", has)
        return loc + ("f", "val", et)
    if m == "get_ptr":
        from .exec import mkref
        return mkref(loc + ("f", "val", et))
    if m == "operator=":
        v = ex.rv(al[0])
        if v.op == "none":
            v = ex.default(ot)
        elif not (v.op == "rec" and v.data[0] == "opt"):
            v = rec("opt", {"has": TRUE, "val": v})
        ex.write(loc, v)
        return loc
    return None


def tuple_assign(ex, loc, v, args):
    """std::tie(a, b) = tuple"""
    t = ex.read(loc)
    if t.op == "rec" and t.data[0] == "tie":
        for i, r in enumerate(t.args):
            l = ex.deref(r)
            x = v.args[i] if v.op == "rec" else None
            if x is None:
                old = ex.read(l)
                x = fld(v, str(i), old.sort)
            old = ex.read(l)
            if old.sort == "R":
                x = to_real(x)
            ex.write(l, x)
        return loc
    ex.write(loc, v)
    return loc


# ------------------------------------------------------------------ free functions
FREE = {}
STD = {}


def free(*names):
    def d(fn):
        for n in names:
            if "::" in n:
                FREE[n] = fn
            else:
                STD[n] = fn
                FREE[n] = fn
        return fn
    return d


def pow_(x, y):
    x, y = to_real(x), to_real(y)
    if y.op == "num" and y.data.denominator == 1 and abs(y.data) <= 8:
        return power(x, int(y.data))
    if y.op == "num" and y.data == Fr(1, 2):
        return sqrt_(x)
    return mk("uf", (x, y), "pow", "R")


def rargs(ex, args):
    return [to_real(ex.rv(a)) for a in args]


@free("sqrt")
def _sqrt(ex, e, f, args):
    return sqrt_(*rargs(ex, args))


@free("exp")
def _exp(ex, e, f, args):
    return exp_(*rargs(ex, args))


@free("log")
def _log(ex, e, f, args):
    x, = rargs(ex, args)
    if x.op == "num" and x.data == 0:
        return uf("neginf", (), "R")
    return log_(x)


@free("__builtin_huge_val")
def _huge(ex, e, f, args):
    return uf("HUGE_VAL", (), "R")


@free("pow")
def _pow(ex, e, f, args):
    a, b = ex.rv(args[0]), ex.rv(args[1])
    return pow_(a, b)


@free("erf", "erfc", "cos", "sin", "tan", "atan", "atan2", "tanh", "cbrt", "lgamma", "tgamma", "log10", "log2", "log1p", "expm1", "asin", "acos")
def _uf(ex, e, f, args):
    n = ex.p.sname(f["name"]).split("::")[-1]
    return uf(n, rargs(ex, args), "R")


@free("isnan", "isinf", "isfinite")
def _isnan(ex, e, f, args):
    n = ex.p.sname(f["name"]).split("::")[-1]
    x, = rargs(ex, args)
    if x.op == "num" or (x.op == "uf" and x.data == "finite"):
        return TRUE if n == "isfinite" else FALSE
    if n == "isfinite":
        return and_(not_(uf("isnan", (x,), "B")), not_(uf("isinf", (x,), "B")))
    return uf(n, (x,), "B")


@free("abs", "fabs")
def _abs(ex, e, f, args):
    v = ex.rv(args[0])
    return abs_(v)


@free("floor", "ceil", "round", "trunc")
def _floor(ex, e, f, args):
    n = ex.p.sname(f["name"]).split("::")[-1]
    x, = rargs(ex, args)
    if x.op == "i2r":
        return x
    if n == "floor":
        return to_real(uf("floor", (x,), "I"))
    if n == "ceil":
        return to_real(neg(uf("floor", (neg(x),), "I")))
    return uf(n, (x,), "R")


@free("std::max", "std::min")
def _max(ex, e, f, args):
    vals = [ex.rv(a) for a in args]
    n = f["name"].split("<")[0].split("::")[-1]
    n = ex.p.sname(f["name"]).split("::")[-1]
    if len(vals) == 2:
        a, b = vals
        if a.sort != b.sort:
            a, b = to_real(a), to_real(b)
        # std::max returns the first on ties
        return ite(lt(a, b), b, a) if n == "max" else ite(lt(b, a), b, a)
    return None


@free("std::make_pair", "std::make_tuple", "std::forward_as_tuple")
def _mkpair(ex, e, f, args):
    vals = []
    rt = ex.targ_types(ex.p.ty(f["ret"]))
    for i, a in enumerate(args):
        v = ex.rv(a)
        if i < len(rt):
            if ex.is_eigen(rt[i]):
                if ex.p.tname(rt[i]) in ("Eigen::Matrix", "Eigen::Array"):
                    v = fit(ex, v, rt[i])
            else:
                v = ex.coerce(v, rt[i])
        vals.append(v)
    return rec("tuple", {str(i): v for i, v in enumerate(vals)})


@free("std::tie")
def _tie(ex, e, f, args):
    from .exec import mkref
    return rec("tie", {str(i): mkref(ex.lv(a)) for i, a in enumerate(args)})


@free("std::get")
def _get(ex, e, f, args):
    i = targ_int(f, 0)
    loc = ex.lv(args[0])
    tag = ex.stag(args[0]["t"])[1]
    return loc + ("f", str(i), tag[1 + i])


@free("std::move", "std::forward", "std::ref", "std::cref", "std::as_const", "boost::ref", "boost::cref")
def _move(ex, e, f, args):
    if len(args) == 1:
        return ex.lv(args[0])
    return None


@free("std::begin", "std::cbegin", "std::end", "std::cend")
def _begin(ex, e, f, args):
    loc = ex.lv(args[0])
    n = ex.p.sname(f["name"]).split("::")[-1]
    return ex.mkiter(loc, I0 if "begin" in n else len_(ex.read(loc)), ex.elemkind(args[0]["t"]))


@free("std::swap")
def _swap(ex, e, f, args):
    from .exec import UNIT
    a, b = ex.lv(args[0]), ex.lv(args[1])
    x, y = ex.read(a), ex.read(b)
    ex.write(a, y)
    ex.write(b, x)
    return UNIT


def iter_parts(ex, it):
    d = dict(zip(it.data[1], it.args))
    return ex.deref(d["seq"]), d["idx"], d["kind"].data


@free("std::distance")
def _distance(ex, e, f, args):
    a, b = [ex.rv(x) for x in args]
    return sub(iter_parts(ex, b)[1], iter_parts(ex, a)[1])


@free("std::next", "std::prev")
def _next(ex, e, f, args):
    v = ex.rv(args[0])
    n = ex.rv(args[1]) if len(args) > 1 else I1
    if "prev" in f["name"]:
        n = neg(n)
    return shift_iter(v, n)


def read_elem(ex, seqv, kind, i):
    if kind[0] == "i":
        return get(seqv, i, kind[1], kind[2])
    return velem(seqv, i)


@free("std::max_element", "std::min_element")
def _maxel(ex, e, f, args):
    a, b = ex.rv(args[0]), ex.rv(args[1])
    loc, lo, kind = iter_parts(ex, a)
    _, hi, _ = iter_parts(ex, b)
    s = ex.read(loc)
    n = sub(hi, lo)
    mx = "max" in ex.p.sname(f["name"]).split("::")[-1]
    if len(args) == 2:
        if mx:
            l = lam_f(["I"], lambda i: read_elem(ex, s, kind, add(lo, i)))
            i = mk("extarg", (n, l), "max", "I")
        else:
            l = lam_f(["I"], lambda i: read_elem(ex, s, kind, add(lo, i)))
            i = mk("extarg", (n, l), "min", "I")
        return ex.mkiter(loc, add(lo, i), kind)
    # comparator: index of the first element such that no element compares greater
    from .exec import Loc
    cmp_ = ex.lv(args[2])
    st0 = dict(ex.st)

    def c(x, y):
        r = ex.call_value(cmp_, [ex.temp(x), ex.temp(y)], None)
        return r
    i = fresh("i", "I")
    j = fresh("j", "I")
    x, y = read_elem(ex, s, kind, add(lo, i)), read_elem(ex, s, kind, add(lo, j))
    body = c(x, y) if mx else c(x, y)
    ex.st = dict(ex.st)
    idx = mk("extrel", (n, lam([i, j], body)), "max" if mx else "min", "I")
    return ex.mkiter(loc, add(lo, idx), kind)


@free("std::transform")
def _transform(ex, e, f, args):
    a, b, o = ex.rv(args[0]), ex.rv(args[1]), ex.rv(args[2])
    loc, lo, kind = iter_parts(ex, a)
    _, hi, _ = iter_parts(ex, b)
    ol, oi, okind = iter_parts(ex, o)
    n = sub(hi, lo)
    s = ex.read(loc)
    fn = ex.lv(args[3])
    i = fresh("i", "I")
    ex.pc.append(and_(ge0(i), lt(i, n)))
    v = ex.call_value(fn, [ex.temp(read_elem(ex, s, kind, add(lo, i)))], None)
    v = deref_val(ex, v)
    ex.pc.pop()
    if okind[1] == "R":
        v = to_real(v)
    l = lam([i], v)
    d = ex.read(ol)
    ex.oblige("safety", "output range large enough", le(add(oi, n), len_(d)))
    ex.write(ol, seq_f(len_(d), lambda k: ite(and_(le(oi, k), lt(k, add(oi, n))), app(l, sub(k, oi)), get(d, k, okind[1], okind[2])), okind[1], okind[2]))
    return ex.mkiter(ol, add(oi, n), okind)


def deref_val(ex, v):
    from .exec import Loc
    if isinstance(v, Loc):
        return ex.read(v)
    if v.op == "ref":
        return ex.read(ex.deref(v))
    return v


@free("std::copy")
def _copy(ex, e, f, args):
    a, b, o = [ex.rv(x) for x in args]
    loc, lo, kind = iter_parts(ex, a)
    _, hi, _ = iter_parts(ex, b)
    ol, oi, okind = iter_parts(ex, o)
    n = sub(hi, lo)
    s = ex.read(loc)
    d = ex.read(ol)
    ex.oblige("safety", "output range large enough", le(add(oi, n), len_(d)))
    ex.write(ol, seq_f(len_(d), lambda k: ite(and_(le(oi, k), lt(k, add(oi, n))), read_elem(ex, s, kind, add(lo, sub(k, oi))), get(d, k, okind[1], okind[2])), okind[1], okind[2]))
    return ex.mkiter(ol, add(oi, n), okind)


@free("std::accumulate")
def _accumulate(ex, e, f, args):
    a, b, init = [ex.rv(x) for x in args[:3]]
    if len(args) > 3:
        return None
    loc, lo, kind = iter_parts(ex, a)
    _, hi, _ = iter_parts(ex, b)
    s = ex.read(loc)
    if init.sort == "I" and kind[0] == "i" and kind[1] == "R":
        return None
    if init.sort not in ("I", "R"):
        return None
    return add(init, sum_(sub(hi, lo), lam_f(["I"], lambda i: read_elem(ex, s, kind, add(lo, i)))))


@free("std::operator==", "std::operator!=")
def _streq(ex, e, f, args):
    a, b = ex.rv(args[0]), ex.rv(args[1])
    if a.op != "str" or b.op != "str":
        raise Unsupported("comparison of strings")
    r = TRUE if a.data == b.data else FALSE
    return r if f["name"].split("<")[0].endswith("==") else not_(r)


@free("std::sort", "std::stable_sort")
def _sort(ex, e, f, args):
    from .exec import UNIT
    a, b = ex.rv(args[0]), ex.rv(args[1])
    loc, lo, kind = iter_parts(ex, a)
    _, hi, _ = iter_parts(ex, b)
    s = ex.read(loc)
    c = mk("str", (), "less:%s%s" % (kind[1], kind[2]), "O")
    if len(args) > 2:
        c = ex.close_refs(ex.rv(args[2]))
    srt = uf("sort", (s, lo, hi, c), "O")
    from . import prove
    prove.SORTS[c.id] = (kind[1], kind[2])
    i, j = fresh("i", kind[1]), fresh("j", kind[1])
    if c.op == "str":
        prove.SORTLESS[c.id] = lambda x, y: lt(x, y)
    else:
        st0 = dict(ex.st)
        try:
            b = lam([i, j], deref_val(ex, ex.call_value(ex.temp(c), [i, j], {"rid": None})))
            prove.SORTLESS[c.id] = lambda x, y: app(b, x, y)
        finally:
            ex.st = st0
    ex.write(loc, seq_f(len_(s), lambda k: ite(and_(le(lo, k), lt(k, hi)), get(srt, k, kind[1], kind[2]), get(s, k, kind[1], kind[2])), kind[1], kind[2]))
    return UNIT


def shuf(g, n, i):
    """the permutation of [0,n) a shuffle with generator state g applies (the identity outside), and its inverse"""
    if i.op == "uf" and i.data == "unshuffled" and i.args[0] is g and i.args[1] is n:
        return i.args[2]
    return uf("shuffled", (g, n, i), "I")


def shuf_inv(g, n, i):
    if i.op == "uf" and i.data == "shuffled" and i.args[0] is g and i.args[1] is n:
        return i.args[2]
    return uf("unshuffled", (g, n, i), "I")


tm.UFN["shuffled"] = shuf
tm.UFN["unshuffled"] = shuf_inv


@free("std::shuffle")
def _shuffle(ex, e, f, args):
    from .exec import UNIT
    a, b = ex.rv(args[0]), ex.rv(args[1])
    loc, lo, kind = iter_parts(ex, a)
    _, hi, _ = iter_parts(ex, b)
    g = ex.lv(args[2])
    st = ex.read(g)
    v = ex.read(loc)
    if kind[0] != "perm" or lo is not I0 or hi is not len_(v):
        return None
    ex.write(loc, seq_f(hi, lambda i: get(v, shuf(st, hi, i), "I"), "I"))
    ex.write(g, uf("rngshuffle", (st, hi), "O"))
    return UNIT


@free("__assert_fail")
def _af(ex, e, f, args):
    from .exec import UNIT
    ex.oblige("assert", "unreachable assertion", FALSE)
    return UNIT


@free("operator<<")
def _shl(ex, e, f, args):
    loc = ex.lv(args[0])
    v = ex.rv(args[1])
    tn = ex.p.tname(args[0]["t"])
    s = ex.read(loc)
    ex.write(loc, uf("put", (s, v), "O"))
    return loc


# boost::fusion over small fixed vectors
@free("boost::fusion::accumulate")
def _facc(ex, e, f, args):
    loc = ex.lv(args[0])
    acc = ex.rv(args[1])
    fun = ex.lv(args[2])
    tys = fusion_types(ex, args[0]["t"])
    for i, t in enumerate(tys):
        el = loc + ("f", str(i), ex.stag(t))
        acc = fusion_call(ex, fun, [ex.temp(acc), el], args[2]["t"], t)
    return acc


@free("boost::fusion::for_each")
def _ffe(ex, e, f, args):
    from .exec import UNIT
    loc = ex.lv(args[0])
    fun = ex.lv(args[1])
    for i, t in enumerate(fusion_types(ex, args[0]["t"])):
        el = loc + ("f", str(i), ex.stag(t))
        fusion_call(ex, fun, [el], args[1]["t"], t)
    return UNIT


def fusion_types(ex, t):
    ty = ex.p.ty(ex.p.noref(t))
    return [x for x in ex.targ_types(ty) if ex.p.tname(x) != "boost::fusion::void_"]


def fusion_call(ex, fun, args, ft, elt):
    """call the operator() instance of functor type ft whose last parameter has type elt"""
    from .exec import Unsupported, UNIT
    rid = ex.p.rid(ft)
    want = ex.p.ty(elt)["s"]
    for fid, fn in ex.p.fns.items():
        r = fn["ref"]
        if "cls" in r and ex.p.rid(r["cls"]) == rid and ex.p.sname(r["name"]).endswith("operator()"):
            pt = ex.p.ty(ex.p.noref(fn["params"][-1]["t"]))["s"]
            if pt.replace("const ", "") == want.replace("const ", ""):
                v = ex.call_fn(fn, fun, args, None)
                return deref_val(ex, v)
    raise Unsupported("fusion functor instance for " + want)


# random numbers
def rng_call(ex, e, f, args, cls, m):
    from .exec import UNIT
    if m == "operator()":
        # dist(rgen)
        d = ex.rv(args[0])
        loc = ex.lv(args[1])
        s = ex.read(loc)
        ex.write(loc, rngadv(s, I1))
        sort = "I" if "int" in cls else "R"
        return draw(d, s, sort)
    if m == "seed":
        loc = ex.obj_loc(e)
        ex.write(loc, uf("rngseed", tuple(ex.rv(a) for a in args), "O"))
        return UNIT
    if m in ("reset", "param"):
        loc = ex.obj_loc(e)
        if m == "param":
            v = ex.rv(args[0])
            ex.write(loc, uf("distparam", (v,), "O"))
        return UNIT
    return None


def draw(d, s, sort):
    return uf("draw", (d, s), sort)


def rngadv(s, n):
    if s.op == "uf" and s.data == "rngadv":
        return rngadv(s.args[0], add(s.args[1], n))
    if n is I0:
        return s
    return mk("uf", (s, n), "rngadv", "O")


tm.UFN["rngadv"] = lambda s, n: rngadv(s, n)
tm.UFN["isnan"] = tm.UFN["isinf"] = None
del tm.UFN["isnan"], tm.UFN["isinf"]
tm.UFN["pow"] = lambda x, y: pow_(x, y)
EXTRA["std::uniform_real_distribution"] = rng_call
EXTRA["std::uniform_int_distribution"] = rng_call
EXTRA["std::normal_distribution"] = rng_call
EXTRA["std::mersenne_twister_engine"] = rng_call
