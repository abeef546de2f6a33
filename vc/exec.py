"""Symbolic execution of exported function bodies (strongest postconditions), with inferred and
verified loop summaries.  Values are terms (vc.terms)."""
import re
from fractions import Fraction as Fr
from .terms import *
from . import terms as tm
from .prog import Program


VIEW_TYPES = {"Eigen::Block", "Eigen::VectorBlock", "Eigen::Transpose", "Eigen::Diagonal", "Eigen::Map", "Eigen::Ref",
              "Eigen::ArrayWrapper", "Eigen::MatrixWrapper", "Eigen::NoAlias"}


class Unsupported(Exception):
    pass


class NeedStatic(Exception):
    """a function-local static is met: the scenario is restarted with it in the initial state"""
    def __init__(self, root, val, kept):
        self.root, self.val, self.kept = root, val, kept


class Loc:
    __slots__ = ("root", "path")

    def __init__(self, root, path=()):
        self.root, self.path = root, tuple(path)

    def __add__(self, step):
        return Loc(self.root, self.path + (step,))

    def __repr__(self):
        return "%s%r" % (self.root, self.path)


class Out:
    __slots__ = ("kind", "cond", "st", "val")

    def __init__(self, kind, cond, st, val=None):
        self.kind, self.cond, self.st, self.val = kind, cond, st, val


class Obl:
    callback = False

    def __init__(self, kind, label, hyps, goal, loc=""):
        self.kind, self.label, self.hyps, self.goal, self.loc = kind, label, hyps, goal, loc


def R_(name, **kw):
    return rec(name, kw)


def mat_is(v):
    return v.op == "mat"


def mkref(loc):
    args, shape = [], []
    for step in loc.path:
        s = []
        for x in step:
            if isinstance(x, T):
                s.append("#")
                args.append(x)
            else:
                s.append(x)
        shape.append(tuple(s))
    return mk("ref", tuple(args), (loc.root, tuple(shape)), "O")


def unref(t):
    args = iter(t.args)
    path = []
    for s in t.data[1]:
        path.append(tuple(next(args) if x == "#" else x for x in s))
    return Loc(t.data[0], path)


NULLPTR = mk("nullptr", (), None, "O")
UNIT = mk("unit", (), None, "O")


def string(s):
    return mk("str", (), s, "O")


class Ex:
    def __init__(self, prog, contracts=None, prover=None):
        self.p = prog
        self.st = {}
        self.pc = []
        self.obls = []
        self.dry = 0
        self.required = []        # assumptions made so far, with their path conditions
        self.frames = []
        self.nframe = 0
        self.ntmp = 0
        self.contracts = dict(contracts or {})
        self.prover = prover
        self.recursion = {}       # name -> closure standing for recursive calls
        self.used = {}            # fid -> name of functions executed (inlined)
        self.trusted = set()      # names of external functions used through trusted contracts
        self.abstract = set()     # abstract (declared-only) functions
        self.pending = []         # exceptional outcomes raised inside the current statement
        self.loops = []           # loop summaries (for evidence)
        self.logged = {}          # abstract function name -> log kind
        self.curloc = ""
        self.safety = True
        self.depth = 0
        self.axioms = []          # facts about fresh symbols (always hypotheses)
        self.fold_ok = True
        self.invariants = {}      # optional: function name -> callable giving loop invariants
        from . import models
        self.models = models

    # ------------------------------------------------------------ types
    def stag(self, t):
        ty = self.p.ty(self.p.noref(t))
        k = ty["k"]
        if k == "bool":
            return "B", None
        if k == "int":
            return "I", None
        if k == "real":
            return "R", None
        if k == "rec":
            n = self.p.sname(ty["name"])
            ta = ty.get("targs", [])
            if n in ("Eigen::Matrix", "Eigen::Array"):
                return "O", self.eig_tag(ty)
            if n in ("std::vector", "tbb::detail::d1::concurrent_vector", "oneapi::tbb::concurrent_vector", "std::deque", "std::list"):
                es, et = self.stag(ta[0])
                return "O", ("seq", es, et)
            if n == "std::array":
                es, et = self.stag(ta[0])
                return "O", ("seq", es, et)
            if n in ("std::pair", "std::tuple"):
                a = ta
                if len(ta) == 1 and isinstance(ta[0], dict) and "pack" in ta[0]:
                    a = ta[0]["pack"]
                return "O", ("tuple",) + tuple(self.stag(x) for x in a)
            if n == "boost::optional":
                return "O", ("opt", self.stag(ta[0]))
            return "O", ("rec", ty["rid"])
        if k == "ptr":
            return "O", ("ptr",)
        if k == "array":
            es, et = self.stag(ty["to"])
            return "O", ("seq", es, et)
        return "O", None

    def eig_tag(self, ty):
        ta = ty.get("targs", [])
        try:
            r, c = int(ta[1]["int"]), int(ta[2]["int"])
        except Exception:
            return ("mat",)
        if c == 1:
            return ("vec",)
        if r == 1:
            return ("rvec",)
        return ("mat",)

    def is_eigen(self, t):
        return self.p.tname(t).startswith("Eigen::")

    def sym(self, t, name):
        """symbolic value of a type"""
        t = self.p.noref(t)
        ty = self.p.ty(t)
        s, tag = self.stag(t)
        if s != "O":
            return var(name, s)
        return self.sym_tag(tag, name)

    def sym_tag(self, tag, name):
        if tag is None:
            return var(name, "O")
        if tag[0] == "vec":
            return mk("var", (), (name, "vec"), "O")
        if tag[0] == "tuple":
            return rec("tuple", {str(i): (self.sym_tag(tg, "%s.%d" % (name, i)) if s == "O" else var("%s.%d" % (name, i), s)) for i, (s, tg) in enumerate(tag[1:])})
        if tag[0] == "opt":
            s, tg = tag[1]
            return R_("opt", has=var(name + ".has", "B"), val=self.sym_tag(tg, name + ".val") if s == "O" else var(name + ".val", s))
        if tag[0] == "rec":
            fs = self.p.fields(tag[1])
            if fs:
                d = {}
                for fn, ft, _ in fs:
                    if self.p.ty(ft)["k"] in ("ref", "ptr"):
                        r = "obj:%s.%s" % (name, fn)
                        if r not in self.st:
                            self.st[r] = self.sym(self.p.ty(ft)["to"], "%s.%s" % (name, fn))
                        d[fn] = mkref(Loc(r))
                    else:
                        d[fn] = self.sym(ft, "%s.%s" % (name, fn))
                return rec(("R", tag[1]), d)
        return var(name, "O")

    def fresh_like(self, s, tag, name):
        n = fresh(name, "O").data
        if s != "O":
            return var(n, s)
        return self.sym_tag(tag, n)

    def default(self, t):
        """value-initialised / default-constructed object of an external or scalar type"""
        ty = self.p.ty(self.p.noref(t))
        k = ty["k"]
        if k == "bool":
            return FALSE
        if k == "int":
            return I0
        if k == "real":
            return R0
        if k in ("ptr", "nullptr"):
            return NULLPTR
        s, tag = self.stag(t)
        if tag:
            if tag[0] == "vec":
                r = self.fixed(ty)
                if r is not None:
                    m = fresh("uninit", "O")
                    return mat_f(I(r), I1, lambda i, j: at(m, i, j))
                return mat_f(I0, I1, lambda i, j: R0)
            if tag[0] == "rvec":
                return mat_f(I1, I0, lambda i, j: R0)
            if tag[0] == "mat":
                return mat_f(I0, I0, lambda i, j: R0)
            if tag[0] == "seq":
                n = I0
                if k == "array" and ty.get("n") is not None:
                    n = I(ty["n"])
                u = fresh("uninit", "O")
                return seq_f(n, lambda i: get(u, i, tag[1], tag[2]), tag[1], tag[2])
            if tag[0] == "opt":
                s2, tg = tag[1]
                return R_("opt", has=FALSE, val=self.fresh_like(s2, tg, "noval"))
            if tag[0] == "tuple":
                ta = ty["targs"]
                a = ta
                if len(ta) == 1 and isinstance(ta[0], dict) and "pack" in ta[0]:
                    a = ta[0]["pack"]
                return rec("tuple", {str(i): self.default(x) for i, x in enumerate(a)})
            if tag[0] == "rec":
                if self.p.sname(ty["name"]) == "std::basic_string":
                    return string("")
                fs = self.p.fields(tag[1])
                if fs is not None:
                    return rec(("R", tag[1]), {fn: self.default(ft) if init is None else self.rv(init) for fn, ft, init in fs})
                if self.p.sname(ty["name"]) == "boost::fusion::vector":
                    a = [x for x in self.targ_types(ty) if self.p.tname(x) != "boost::fusion::void_"]
                    return rec("tuple", {str(i): self.default(x) for i, x in enumerate(a)})
        return uf("default:" + self.p.tname(t), (), "O")

    def targ_types(self, ty):
        ta = ty.get("targs", [])
        out = []
        for x in ta:
            if isinstance(x, dict):
                if "pack" in x:
                    out += [y for y in x["pack"] if not isinstance(y, dict)]
            else:
                out.append(x)
        return out

    def fixed(self, ty):
        try:
            r = int(ty["targs"][1]["int"])
            return r if r >= 0 else None
        except Exception:
            return None

    def uninit(self, t, name):
        ty = self.p.ty(self.p.noref(t))
        if ty["k"] in ("int", "real", "bool", "ptr"):
            s, tag = self.stag(t)
            return fresh("uninit:" + name, s)
        return self.default(t)

    # ------------------------------------------------------------ obligations
    def oblige(self, kind, label, goal):
        if self.dry or goal is TRUE:
            return
        if kind == "safety" and not self.safety:
            return
        self.obls.append(Obl(kind, label, list(self.axioms) + list(self.pc), goal, self.curloc))

    def assume(self, f):
        if f is not TRUE:
            self.pc.append(f)

    def known(self, f):
        """cheap check: is f implied by the current path condition?"""
        if f is TRUE:
            return True
        if f is FALSE:
            return False
        if self.prover is None:
            return f in self.pc
        return self.prover.quick(self.axioms + self.pc, f)

    # ------------------------------------------------------------ store
    def newroot(self, name, val):
        self.ntmp += 1
        r = "%s#%d" % (name, self.ntmp)
        self.st[r] = val
        return Loc(r)

    def temp(self, val):
        return self.newroot("tmp", val)

    def read(self, loc):
        v = self.st[loc.root]
        for step in loc.path:
            v = self.step_read(v, step)
        return v

    def step_read(self, v, step):
        k = step[0]
        if v.op == "ite" and v.sort == "O":
            a, b = self.step_read(v.args[1], step), self.step_read(v.args[2], step)
            return ite(v.args[0], a, b)
        if k == "f":
            if v.op == "rec":
                fs = v.data[1]
                if step[1] in fs:
                    return v.args[fs.index(step[1])]
                raise Unsupported("field %s" % step[1])
            s, tag = self.field_stag(step)
            return fld(v, step[1], s, tag)
        if k == "i":      # sequence element
            return get(v, step[1], step[2], step[3])
        if k == "at":
            return at(v, step[1], step[2])
        if k == "vat":
            return self.models.velem(v, step[1])
        if k == "blk":
            _, i, j, r, c = step
            return mat_f(r, c, lambda a, b: at(v, add(a, i), add(b, j)))
        if k == "row":
            return mat_f(I1, cols_(v), lambda a, b: at(v, step[1], b))
        if k == "col":
            return mat_f(rows_(v), I1, lambda a, b: at(v, a, step[1]))
        if k == "diag":
            return mat_f(rows_(v), I1, lambda a, b: at(v, a, a))
        if k == "T":
            return self.models.transpose(v)
        if k == "map":    # view of a std::vector<double> starting at offset, n elements
            return mat_f(step[2], I1, lambda a, b: get(v, add(a, step[1]), "R"))
        raise Unsupported("step " + k)

    def field_stag(self, step):
        rid = step[2]
        if isinstance(rid, tuple):
            return rid
        for fn, ft, _ in self.p.fields(rid) or []:
            if fn == step[1]:
                return self.stag(ft)
        return "O", None

    def write(self, loc, val):
        self.st[loc.root] = self.upd(self.st[loc.root], loc.path, val)

    def expand(self, v, rid):
        fs = self.p.fields(rid)
        if not fs:
            raise Unsupported("cannot expand object")
        d = {}
        for fn, ft, _ in fs:
            s, tag = self.stag(ft)
            d[fn] = fld(v, fn, s, tag)
        return rec(("R", rid), d)

    def upd(self, v, path, val):
        if not path:
            return val
        step, rest = path[0], path[1:]
        k = step[0]
        if k == "f":
            if v.op == "ite":
                v = self.ite_rec(v)
            if v.op != "rec":
                if isinstance(step[2], tuple):
                    raise Unsupported("write into opaque tuple")
                v = self.expand(v, step[2])
            fs = v.data[1]
            i = fs.index(step[1])
            a = list(v.args)
            a[i] = self.upd(a[i], rest, val)
            return mk("rec", tuple(a), v.data, "O")
        old = self.step_read(v, step)
        new = self.upd(old, rest, val)
        if new is old:
            return v
        if k == "i":
            es, tag = step[2], step[3]
            return seq_f(len_(v), lambda a: ite(eq(a, step[1]), new, get(v, a, es, tag)), es, tag)
        if k == "at":
            return mat_f(rows_(v), cols_(v), lambda a, b: ite(and_(eq(a, step[1]), eq(b, step[2])), new, at(v, a, b)))
        if k == "vat":
            if cols_(v) is I1:
                return mat_f(rows_(v), I1, lambda a, b: ite(eq(a, step[1]), new, at(v, a, b)))
            if rows_(v) is I1:
                return mat_f(I1, cols_(v), lambda a, b: ite(eq(b, step[1]), new, at(v, a, b)))
            raise Unsupported("vat on matrix")
        mget = self.models.flex(new)
        if k == "blk":
            _, i, j, r, c = step
            g = self.models.flexget(new, r, c)
            return mat_f(rows_(v), cols_(v), lambda a, b: ite(and_(le(i, a), lt(a, add(i, r)), le(j, b), lt(b, add(j, c))), g(sub(a, i), sub(b, j)), at(v, a, b)))
        if k == "row":
            g = self.models.flexget(new, I1, cols_(v))
            return mat_f(rows_(v), cols_(v), lambda a, b: ite(eq(a, step[1]), g(I0, b), at(v, a, b)))
        if k == "col":
            g = self.models.flexget(new, rows_(v), I1)
            return mat_f(rows_(v), cols_(v), lambda a, b: ite(eq(b, step[1]), g(a, I0), at(v, a, b)))
        if k == "diag":
            g = self.models.flexget(new, rows_(v), I1)
            return mat_f(rows_(v), cols_(v), lambda a, b: ite(eq(a, b), g(a, I0), at(v, a, b)))
        if k == "T":
            return self.models.transpose(new)
        if k == "map":
            g = self.models.flexget(new, step[2], I1)
            return seq_f(len_(v), lambda a: ite(and_(le(step[1], a), lt(a, add(step[1], step[2]))), g(sub(a, step[1]), I0), get(v, a, "R")), "R")
        raise Unsupported("write step " + k)

    def ite_rec(self, v):
        a, b = v.args[1], v.args[2]
        if a.op == "ite":
            a = self.ite_rec(a)
        if b.op == "ite":
            b = self.ite_rec(b)
        return ite(v.args[0], a, b)

    # ------------------------------------------------------------ environment
    @property
    def fr(self):
        return self.frames[-1]

    def deref(self, t):
        """reference/pointer term -> Loc"""
        if t.op == "ref":
            return unref(t)
        if t.op == "rec" and t.data[0] == "iter":
            return self.iter_loc(t)
        if t.op == "ite":
            if t is t:
                a, b = self.deref(t.args[1]), self.deref(t.args[2])
                return self.temp(ite(t.args[0], self.read(a), self.read(b)))
        if t.op == "closure":
            return self.temp(t)
        raise Unsupported("deref of %s" % show(t)[:80])

    def iter_loc(self, it):
        base = it.args[it.data[1].index("seq")]
        idx = it.args[it.data[1].index("idx")]
        kind = it.args[it.data[1].index("kind")].data
        loc = self.deref(base)
        if kind[0] == "i":
            return loc + ("i", idx, kind[1], kind[2])
        return loc + ("vat", idx)

    def mkiter(self, loc, idx, kind):
        return R_("iter", seq=mkref(loc), idx=idx, kind=mk("str", (), kind, "O"))

    def elemkind(self, t):
        """iterator kind of a container type"""
        s, tag = self.stag(t)
        if tag and tag[0] == "seq":
            return ("i", tag[1], tag[2])
        return ("v",)

    # ------------------------------------------------------------ lvalues
    def lv(self, e):
        k = e["k"]
        f = getattr(self, "lv_" + k, None)
        if f:
            return f(e)
        return self.temp(self.rv(e))

    def lv_var(self, e):
        env = self.fr["env"]
        i = e["id"]
        if i in env:
            return env[i]
        if e.get("staticlocal") or e.get("global"):
            if e.get("global") and "init" in e:
                return self.temp(self.rv(e["init"]))
            r = "static:%s" % (e.get("global") or e["name"])
            if r not in self.st:
                self.st[r] = self.sym(e["t"], r)
                self.fr_globals().add(r)
            return Loc(r)
        raise Unsupported("unbound variable %s" % e.get("name"))

    def fr_globals(self):
        if not hasattr(self, "globals"):
            self.globals = set()
        return self.globals

    def lv_this(self, e):
        raise Unsupported("this as lvalue")

    def lv_mem(self, e):
        if e.get("arrow"):
            base = self.ptr(e["base"])
            bt = self.p.ty(e["base"]["t"])["to"]
        else:
            base = self.lv(e["base"])
            bt = e["base"]["t"]
        name = e["name"]
        tn = self.p.tname(bt)
        if tn == "std::pair":
            s, tag = self.stag(bt)
            i = 0 if name == "first" else 1
            return base + ("f", str(i), tag[1 + i])
        rid = self.p.rid(bt)
        loc = base + ("f", name, rid)
        # reference members are transparent
        ft = self.field_type(rid, name)
        if ft is not None and self.p.ty(ft)["k"] == "ref":
            return self.deref(self.read(loc))
        return loc

    def field_type(self, rid, name):
        for fn, ft, _ in self.p.fields(rid) or []:
            if fn == name:
                return ft
        return None

    def ptr(self, e):
        """pointer-valued expression -> Loc of the pointee"""
        if e["k"] == "this":
            return self.fr["this"]
        if e["k"] == "cast":
            return self.ptr(e["e"])
        if e["k"] == "opcall" or True:
            return self.deref(self.rv(e))

    def lv_temp(self, e):
        if e["e"].get("lv") or self.is_view_type(e["e"]["t"]):
            return self.lv(e["e"])
        return self.temp(self.rv(e["e"]))

    def is_view_type(self, t):
        return self.p.tname(t) in VIEW_TYPES

    def lv_rval(self, e):
        return self.lv(e["e"])

    def lv_cast(self, e):
        ck = e["ck"]
        if ck in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "NoOp"):
            return self.lv(e["e"])
        return self.temp(self.rv(e))

    def lv_un(self, e):
        if e["op"] == "*":
            if e["a"]["k"] == "this":
                return self.fr["this"]
            return self.deref(self.rv(e["a"]))
        if e["op"] in ("++", "--") and not e["post"]:
            loc = self.lv(e["a"])
            v = self.read(loc)
            d = 1 if e["op"] == "++" else -1
            self.write(loc, self.bump(v, d))
            return loc
        return self.temp(self.rv(e))

    def bump(self, v, d):
        if v.op == "rec" and v.data[0] == "iter":
            return R_("iter", seq=v.args[v.data[1].index("seq")], idx=add(v.args[v.data[1].index("idx")], I(d)), kind=v.args[v.data[1].index("kind")])
        if v.sort == "R":
            return add(v, R(d))
        return add(v, I(d))

    def lv_assign(self, e):
        # right operand first (C++17) - operands here have no interfering side effects
        val = self.rv(e["b"])
        loc = self.lv(e["a"])
        val = self.coerce(val, e["t"])
        self.write(loc, val)
        return loc

    def lv_cassign(self, e):
        b = self.rv(e["b"])
        loc = self.lv(e["a"])
        a = self.read(loc)
        if a.op == "rec" and a.data[0] == "iter":
            d = b if e["op"] == "+" else neg(b)
            v = R_("iter", seq=a.args[a.data[1].index("seq")], idx=add(a.args[a.data[1].index("idx")], d), kind=a.args[a.data[1].index("kind")])
        else:
            ct = self.p.ty(e.get("ct", e["t"]))
            if ct["k"] == "real":
                a, b = to_real(a), to_real(b)
            v = self.binop(e["op"], a, b, e)
            v = self.coerce(v, e["t"])
        self.write(loc, v)
        return loc

    def lv_bin(self, e):
        if e["op"] == ",":
            self.ev(e["a"])
            return self.lv(e["b"])
        return self.temp(self.rv(e))

    def lv_cond(self, e):
        c = self.cond(e["c"])
        if c is TRUE:
            return self.lv(e["a"])
        if c is FALSE:
            return self.lv(e["b"])
        return self.temp(self.rv(e))

    def lv_index(self, e):
        i = self.rv(e["i"])
        at_ = self.p.ty(e["a"]["t"])
        if e["a"]["k"] == "cast" and e["a"].get("ck") == "ArrayToPointerDecay":
            base = self.lv(e["a"]["e"])
            s, tag = self.stag(e["a"]["e"]["t"])
            self.bound(i, len_(self.read(base)))
            return base + ("i", i, tag[1], tag[2])
        p = self.rv(e["a"])
        if p.op == "rec" and p.data[0] == "iter":
            it = R_("iter", seq=p.args[p.data[1].index("seq")], idx=add(p.args[p.data[1].index("idx")], i), kind=p.args[p.data[1].index("kind")])
            return self.iter_loc(it)
        if p.op == "ref":
            loc = unref(p)
            s, tag = self.stag(at_["to"]) if at_["k"] == "ptr" else ("R", None)
            return loc + ("i", i, s, tag)
        raise Unsupported("subscript")

    def lv_mcall(self, e):
        return self.call_lv(e)

    lv_opcall = lv_mcall
    lv_call = lv_mcall

    def call_lv(self, e):
        r = self.ev_call(e)
        if isinstance(r, Loc):
            return r
        return self.as_loc(r, e)

    def as_loc(self, r, e):
        if e.get("lv") and r.op in ("ref",):
            return unref(r)
        if e.get("lv") and r.op == "ite" and self.all_refs(r):
            return self.deref(r)
        return self.temp(r)

    def all_refs(self, t):
        if t.op == "ref":
            return True
        if t.op == "ite":
            return self.all_refs(t.args[1]) and self.all_refs(t.args[2])
        return False

    # ------------------------------------------------------------ rvalues
    def ev(self, e):
        """evaluate for side effects"""
        if e["k"] in ("mcall", "opcall", "call"):
            return self.ev_call(e)
        if e["k"] in ("assign", "cassign") or (e["k"] == "un" and e["op"] in ("++", "--")) or (e["k"] == "bin" and e["op"] == ","):
            if e["k"] == "un" and e["post"]:
                return self.rv(e)
            return self.lv(e)
        return self.rv(e)

    def rv(self, e):
        k = e["k"]
        if e.get("l"):
            self.curloc = e["l"]
        f = getattr(self, "rv_" + k, None)
        if f is None:
            if k in ("var", "mem", "index", "assign", "cassign"):
                return self.read(self.lv(e))
            raise Unsupported("expression %s %s" % (k, e.get("cls", "")))
        return f(e)

    def rv_int(self, e):
        ty = self.p.ty(e["t"])
        v = int(e["v"])
        return I(v)

    def rv_real(self, e):
        src = e.get("src", "").strip()
        m = re.match(r"^[0-9.]+([eE][-+]?[0-9]+)?[fFlL]?$", src)
        if m:
            s = src.rstrip("fFlL")
            if s.endswith("."):
                s += "0"
            s = re.sub(r"\.([eE])", r".0\1", s)
            return R(Fr(s))
        if src in ("M_PI", "boost::math::constants::pi<double>()"):
            return uf("pi", (), "R")
        v = Fr(e["v"])
        import math
        if abs(float(v) - math.pi) < 1e-12:
            return uf("pi", (), "R")
        return R(v)

    def rv_bool(self, e):
        return TRUE if e["v"] else FALSE

    def rv_str(self, e):
        return string(e["v"])

    def rv_nullptr(self, e):
        return NULLPTR

    def rv_this(self, e):
        return mkref(self.fr["this"])

    def rv_rval(self, e):
        if e["e"].get("lv") or e["e"]["k"] in ("var", "mem"):
            return self.read(self.lv(e["e"]))
        return self.rv(e["e"])

    def rv_temp(self, e):
        return self.rv(e["e"])

    def rv_zeroinit(self, e):
        return self.default(e["t"])

    def rv_fref(self, e):
        return mk("fref", (), e["f"]["fid"], "O")

    def rv_cast(self, e):
        ck = e["ck"]
        if ck in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived"):
            return self.rv(e["e"])
        if ck == "ToVoid":
            self.ev(e["e"])
            return UNIT
        if ck == "ArrayToPointerDecay":
            if e["e"]["k"] == "str":
                return self.rv(e["e"])
            loc = self.lv(e["e"])
            return self.mkiter(loc, I0, self.elemkind(e["e"]["t"]))
        v = self.rv(e["e"])
        if ck in ("NullToPointer",):
            return NULLPTR
        if ck in ("BitCast", "NullToMemberPointer", "FunctionToPointerDecay", "Dependent"):
            return v
        return self.coerce(v, e["t"], e["e"]["t"])

    def coerce(self, v, t, src=None):
        ty = self.p.ty(self.p.noref(t))
        k = ty["k"]
        if k == "real":
            if v.sort in ("I", "B"):
                return to_real(v)
            return v
        if k == "int":
            if v.sort == "R":
                return trunc(v)
            if v.sort == "B":
                return b2i(v)
            if src is not None and v.sort == "I" and not ty.get("sg", True) and not ty.get("enum"):
                st = self.p.ty(self.p.noref(src))
                if st["k"] == "int" and st.get("sg") and not is_num(v):
                    self.oblige("safety", "no negative value converted to unsigned", ge0(v))
                elif is_num(v) and v.data < 0:
                    return I(int(v.data) % (1 << int(ty.get("w", 64))))
            return v
        if k == "bool":
            if v.sort in ("I", "R"):
                return ne(v, num(0, v.sort))
            if v.op in ("ref",):
                return TRUE
            if v is NULLPTR:
                return FALSE
            return v
        return v

    def rv_un(self, e):
        op = e["op"]
        if op in ("++", "--"):
            if e["post"]:
                loc = self.lv(e["a"])
                v = self.read(loc)
                self.write(loc, self.bump(v, 1 if op == "++" else -1))
                return v
            return self.read(self.lv(e))
        if op == "*":
            return self.read(self.lv(e))
        if op == "&":
            if e["a"]["k"] == "fref":
                return self.rv(e["a"])
            loc = self.lv(e["a"])
            if loc.path and loc.path[-1][0] == "i":
                s = loc.path[-1]
                return self.mkiter(Loc(loc.root, loc.path[:-1]), s[1], ("i", s[2], s[3]))
            if loc.path and loc.path[-1][0] == "vat":
                return self.mkiter(Loc(loc.root, loc.path[:-1]), loc.path[-1][1], ("v",))
            return mkref(loc)
        v = self.rv(e["a"])
        if op == "-":
            if v.sort == "B":
                v = b2i(v)
            return neg(v)
        if op == "+":
            return v
        if op == "!":
            return not_(self.coerce_b(v))
        raise Unsupported("unary " + op)

    def coerce_b(self, v):
        if v.sort in ("I", "R"):
            return ne(v, num(0, v.sort))
        return v

    def cond(self, e):
        return self.coerce_b(self.rv(e))

    def rv_bin(self, e):
        op = e["op"]
        if op in ("&&", "||"):
            a = self.cond(e["a"])
            if (op == "&&" and a is FALSE) or (op == "||" and a is TRUE):
                return a
            guard = a if op == "&&" else not_(a)
            b = self.guarded(guard, lambda: self.cond(e["b"]))
            return and_(a, b) if op == "&&" else or_(a, b)
        if op == ",":
            self.ev(e["a"])
            return self.rv(e["b"])
        a = self.rv(e["a"])
        b = self.rv(e["b"])
        return self.binop(op, a, b, e)

    def guarded(self, guard, f):
        """evaluate f under a guard, merging state changes and exceptional outcomes"""
        st0 = dict(self.st)
        self.pc.append(guard)
        n = len(self.pc)
        v = f()
        extra = self.pc[n:]
        del self.pc[n - 1:]
        for x in extra:
            self.pc.append(implies(guard, x))
        self.st = self.merge(guard, self.st, st0)
        return v

    def binop(self, op, a, b, e):
        if a.op == "rec" and a.data[0] == "iter":
            ia = a.args[a.data[1].index("idx")]
            if b.op == "rec" and b.data[0] == "iter":
                ib = b.args[b.data[1].index("idx")]
                if op == "-":
                    return sub(ia, ib)
                return self.cmp(op, ia, ib)
            mkit = lambda i: R_("iter", seq=a.args[a.data[1].index("seq")], idx=i, kind=a.args[a.data[1].index("kind")])
            return mkit(add(ia, b) if op == "+" else sub(ia, b))
        if a.sort == "O" or b.sort == "O":
            if op in ("==", "!="):
                r = self.ptr_eq(a, b)
                return r if op == "==" else not_(r)
            raise Unsupported("binary %s on objects" % op)
        if op in ("+", "-", "*", "/", "%"):
            if a.sort == "B":
                a = b2i(a)
            if b.sort == "B":
                b = b2i(b)
        if op == "+":
            return add(a, b)
        if op == "-":
            r = sub(a, b)
            if r.sort == "I" and e is not None:
                ty = self.p.ty(self.p.noref(e["t"]))
                if ty["k"] == "int" and not ty.get("sg", True):
                    self.oblige("safety", "unsigned subtraction does not wrap", ge0(r))
            return r
        if op == "*":
            return mul(a, b)
        if op == "/":
            if a.sort == "I" and b.sort == "I":
                self.oblige("safety", "division by zero", ne(b, I0))
                return idiv(a, b)
            return div(a, b)
        if op == "%":
            self.oblige("safety", "modulo by zero", ne(b, I0))
            return imod(a, b)
        if op in ("<", "<=", ">", ">=", "==", "!="):
            return self.cmp(op, a, b)
        if op == "&" and a.sort == "B":
            return and_(a, b)
        if op == "|" and a.sort == "B":
            return or_(a, b)
        return uf("op" + op, (a, b), "I")

    def ptr_eq(self, a, b):
        if a is b:
            return TRUE
        if {a.op, b.op} == {"nullptr", "ref"}:
            return FALSE
        return eq(a, b)

    def cmp(self, op, a, b):
        if a.sort == "B" and b.sort != "B":
            a = b2i(a)
        if b.sort == "B" and a.sort != "B":
            b = b2i(b)
        if a.sort == "B" and op not in ("==", "!="):
            a, b = b2i(a), b2i(b)
        return {"<": lt, "<=": le, ">": gt, ">=": ge, "==": eq, "!=": ne}[op](a, b)

    def rv_cond(self, e):
        c = self.cond(e["c"])
        if self.is_assert(e):
            self.oblige("assert", "assertion %s" % e.get("l", ""), c)
            self.assume(c)
            return UNIT
        if c is TRUE:
            return self.rv(e["a"])
        if c is FALSE:
            return self.rv(e["b"])
        st0 = dict(self.st)
        a = self.guarded_raw(c, lambda: self.rv(e["a"]))
        sta = self.st
        self.st = st0
        b = self.guarded_raw(not_(c), lambda: self.rv(e["b"]))
        self.st = self.merge(c, sta, self.st)
        return ite(c, a, b)

    def guarded_raw(self, guard, f):
        self.pc.append(guard)
        n = len(self.pc)
        v = f()
        extra = self.pc[n:]
        del self.pc[n - 1:]
        for x in extra:
            self.pc.append(implies(guard, x))
        return v

    def is_assert(self, e):
        b = e["b"]
        return b["k"] == "call" and b.get("f", {}).get("name") in ("__assert_fail", "__assert")

    def rv_mcall(self, e):
        r = self.ev_call(e)
        if isinstance(r, Loc):
            return self.read(r)
        if self.returns_ref(e) and (r.op == "ref" or (r.op == "ite" and self.all_refs(r))):
            return self.read(self.deref(r))
        return r

    rv_opcall = rv_mcall
    rv_call = rv_mcall

    def returns_ref(self, e):
        f = e.get("f")
        if f is None:
            return e.get("lv", False)
        return self.p.ty(f["ret"])["k"] == "ref"

    def rv_throw(self, e):
        v = string("exception")
        if e.get("e"):
            v = mk("exc", (), self.p.tname(e["e"]["t"]), "O")
        self.pending.append(Out("throw", TRUE, dict(self.st), v))
        self.thrown = True
        return UNIT

    def rv_lambda(self, e):
        caps, keys = [], []
        for c in e["caps"]:
            if c.get("this"):
                keys.append(("this", True))
                caps.append(mkref(self.fr["this"]))
            elif c["byref"] and not c.get("initcap"):
                keys.append((c["id"], True))
                caps.append(mkref(self.lv(c["init"])))
            else:
                keys.append((c["id"], False))
                caps.append(self.rv(c["init"]))
        fid = e.get("fid")
        return mk("closure", tuple(caps), (fid, tuple(e.get("generic", ())), tuple(keys)), "O")

    def rv_stdinitlist(self, e):
        return self.rv(e["e"])

    def rv_initlist(self, e):
        t = e["t"]
        s, tag = self.stag(t)
        args = e["args"]
        if tag and tag[0] == "seq":
            vs = [self.rv(a) for a in args]
            return self.mkseq(vs, tag[1], tag[2])
        if tag and tag[0] in ("tuple",):
            return rec("tuple", {str(i): self.coerce_s(self.rv(a), tag[1 + i][0]) for i, a in enumerate(args)})
        if tag and tag[0] == "rec":
            fs = self.p.fields(tag[1])
            if fs is not None:
                d = {}
                for i, (fn, ft, init) in enumerate(fs):
                    if i < len(args):
                        d[fn] = self.bind_field(ft, args[i])
                    else:
                        d[fn] = self.default(ft)
                return rec(("R", tag[1]), d)
        if len(args) == 1:
            return self.rv(args[0])
        if len(args) == 0:
            return self.default(t)
        raise Unsupported("initializer list")

    def coerce_s(self, v, s):
        if s == "R" and v.sort in ("I", "B"):
            return to_real(v)
        return v

    def bind_field(self, ft, e):
        if self.p.ty(ft)["k"] == "ref":
            return mkref(self.lv(e))
        return self.coerce(self.rv(e), ft)

    def mkseq(self, vs, es, tag):
        def f(i):
            r = None
            for j, v in reversed(list(enumerate(vs))):
                r = v if r is None else ite(eq(i, I(j)), v, r)
            return r
        if not vs:
            return seq_f(I0, lambda i: (R0 if es == "R" else I0 if es == "I" else FALSE if es == "B" else NULLPTR), es, tag)
        return seq_f(I(len(vs)), f, es, tag)

    # ------------------------------------------------------------ construction
    def rv_construct(self, e):
        f = e["f"]
        t = e["t"]
        tn = self.p.tname(t)
        args = e["args"]
        cname = self.p.sname(f["name"])
        h = self.find_contract(f)
        if h:
            return h(self, e, None, args)
        if (f.get("copy") or f.get("move")) and len(args) == 1:
            return self.rv(args[0])
        if f["fid"] in self.p.fns and not f.get("ext"):
            fn = self.p.fns[f["fid"]]
            rid = self.p.rid(t)
            this = self.temp(self.raw_object(rid, t))
            self.construct_at(fn, this, args)
            return self.read(this)
        m = self.models.construct(self, e, tn, args)
        if m is not None:
            self.trusted.add(tn + " constructor")
            return m
        if f.get("implicit") and not args:
            return self.default(t)
        if f.get("decl") or f.get("ext"):
            vals = [self.rv(a) for a in args]
            self.abstract.add(cname)
            s, tag = self.stag(t)
            if s == "O" and self.p.fields(self.p.rid(t)):
                return self.raw_object(self.p.rid(t), t)
            return uf("new:" + self.p.ty(self.p.noref(t))["s"], vals, "O")
        raise Unsupported("constructor " + f["name"])

    def raw_object(self, rid, t):
        fs = self.p.fields(rid)
        if fs is None:
            return fresh("object", "O")
        return rec(("R", rid), {fn: (self.uninit(ft, fn) if self.p.ty(ft)["k"] != "ref" else NULLPTR) for fn, ft, _ in fs})

    def construct_at(self, fn, this, args):
        """run a constructor body (initialisers included) on the object at `this`"""
        fr = self.new_frame(fn, this)
        self.bind_params(fn, fr, args)
        self.frames.append(fr)
        self.used[fn["fid"]] = self.p.sname(fn["ref"]["name"])
        try:
            rid = self.p.rid(fn["this"])
            given = set()
            for i in fn.get("inits") or []:
                if "field" in i:
                    given.add(i["field"])
            for i in fn.get("inits") or []:
                if "base" in i:
                    self.init_base(i, this)
                elif i.get("deleg"):
                    self.init_base(i, this)
                else:
                    v = self.bind_field(i["ft"], i["e"])
                    self.write(this + ("f", i["field"], rid), v)
            r = self.p.recs.get(rid)
            for f in r["fields"]:
                if f["name"] not in given and f.get("init") is not None:
                    self.write(this + ("f", f["name"], rid), self.coerce(self.rv(f["init"]), f["t"]))
            outs = self.run_body(fn)
            self.finish_call(outs)
        finally:
            self.frames.pop()

    def init_base(self, i, this):
        e = i["e"]
        while e["k"] in ("temp", "cast"):
            e = e["e"]
        if e["k"] != "construct":
            if e["k"] == "initlist" and not e["args"]:
                return
            raise Unsupported("base initialiser " + e["k"])
        f = e["f"]
        if f["fid"] in self.p.fns:
            self.construct_at(self.p.fns[f["fid"]], this, e["args"])
        elif f.get("copy") or f.get("move"):
            raise Unsupported("base copy")
        # otherwise: trivial or external base: nothing to initialise

    # ------------------------------------------------------------ calls
    def find_contract(self, f):
        n = self.p.sname(f["name"])
        h = self.contracts.get(n)
        if h:
            return h
        parts = n.split("::")
        for i in range(1, min(4, len(parts))):
            h = self.contracts.get("::".join(parts[i:]) if i < len(parts) else None)
            if h:
                return h
        return None

    def new_frame(self, fn, this=None):
        self.nframe += 1
        return {"env": {}, "this": this, "id": self.nframe, "fn": fn, "this_rid": None}

    def bind_params(self, fn, fr, args):
        """args: expressions (evaluated in the current frame) or Locs / terms"""
        for i, prm in enumerate(fn["params"]):
            a = args[i] if i < len(args) else None
            ref = self.p.ty(prm["t"])["k"] == "ref"
            if a is None:
                raise Unsupported("missing argument %s" % prm["name"])
            if isinstance(a, dict):
                if ref:
                    loc = self.lv(a)
                    fr["env"][prm["id"]] = loc
                else:
                    v = self.coerce(self.rv(a), prm["t"])
                    fr["env"][prm["id"]] = self.newroot(prm["name"] or "arg", v)
            elif isinstance(a, Loc):
                fr["env"][prm["id"]] = a if ref else self.newroot(prm["name"], self.read(a))
            else:
                fr["env"][prm["id"]] = self.newroot(prm["name"] or "arg", a if ref else self.coerce(a, prm["t"]))

    def ev_call(self, e):
        """returns a term (value or ref) or a Loc"""
        if e.get("l"):
            self.curloc = e["l"]
        k = e["k"]
        f = e.get("f")
        args = list(e["args"])
        if f is None:
            callee = e.get("callee")
            if callee is None:
                raise Unsupported("call without callee")
            c = self.rv(callee)
            if c.op == "fref":
                return self.call_fid(c.data, None, args, e)
            raise Unsupported("call through pointer")
        obj = None
        isop = k == "opcall"
        member = "cls" in f and not f.get("static")
        h = self.find_contract(f)
        if h:
            self.used_contract(f)
            return h(self, e, f, args)
        # lambdas
        if isop and e["op"] == "()" and f["fid"] in self.p.fns and self.p.fns[f["fid"]].get("lambda"):
            clo = self.rv(args[0])
            return self.call_closure(clo, f["fid"], args[1:], e)
        fn = self.p.fns.get(f["fid"])
        if fn is not None and not f.get("ext"):
            if member:
                if k == "mcall":
                    this = self.obj_loc(e)
                else:
                    this = self.lv(args[0])
                    args = args[1:]
                fn = self.dispatch(fn, f, this, e)
                return self.call_fn(fn, this, args, e)
            return self.call_fn(fn, None, args, e)
        # implicit copy / move assignment
        if f.get("assignop") and f.get("implicit") and isop and not self.is_eigen(args[0]["t"]):
            v = self.rv(args[1])
            loc = self.lv(args[0])
            self.write(loc, v)
            return loc
        r = self.models.call(self, e, f, args)
        if r is not None:
            self.trusted.add(self.p.sname(f["name"]))
            return r
        if f.get("decl") and (self.rooted(f)):
            return self.call_abstract(e, f, args)
        raise Unsupported("external function %s" % f["name"][:150])

    def used_contract(self, f):
        self.trusted.add("contract of " + self.p.sname(f["name"]))

    def rooted(self, f):
        n = f["name"]
        return n.startswith("verif::") or n.startswith("limbo::") or "verif::" in n.split("(")[0]

    def obj_loc(self, e):
        o = e["obj"]
        if e.get("arrow"):
            return self.ptr(o)
        return self.lv(o)

    def dispatch(self, fn, f, this, e):
        if not f.get("virtual") or e.get("qual"):
            return fn
        v = self.read(this)
        if v.op == "rec" and isinstance(v.data[0], tuple):
            rid = v.data[0][1]
            for r in self.p.allbases(rid):
                for m in (self.p.recs.get(r) or {}).get("methods", []):
                    if m["fid"] == fn["fid"] or fn["fid"] in m.get("overrides", []):
                        g = self.p.fns.get(m["fid"])
                        if g:
                            return g
        return fn

    def call_closure(self, clo, fid, args, e):
        if clo.op == "ite":
            raise Unsupported("conditional closure")
        if clo.op != "closure":
            raise Unsupported("opaque closure")
        fn = self.p.fns[fid]
        fr = self.new_frame(fn)
        for (key, byref), c in zip(clo.data[2], clo.args):
            if key == "this":
                fr["this"] = self.deref(c)
            elif byref:
                fr["env"][key] = self.deref(c)
            else:
                fr["env"][key] = self.newroot("cap", c)
        self.bind_params(fn, fr, args)
        return self.enter(fn, fr)

    def call_value(self, c, args, e=None, nargs=None):
        """call a callable value (closure term or Loc of a functor) with Locs/terms as arguments"""
        if isinstance(c, Loc):
            v = self.read(c)
        else:
            v, c = c, None
        if v.op == "closure":
            fid = v.data[0]
            if fid is None:
                gens = v.data[1]
                if len(gens) == 1:
                    fid = gens[0]
                else:
                    raise Unsupported("generic closure with %d instances" % len(gens))
            return self.call_closure(v, fid, args, e)
        if v.op == "fref":
            return self.call_fid(v.data, None, args, e)
        # functor object: find operator()
        rid = None
        if v.op == "rec" and isinstance(v.data[0], tuple):
            rid = v.data[0][1]
        if rid is None and e is not None:
            rid = e.get("rid")
        if rid is None:
            raise Unsupported("call of opaque value")
        r = self.p.recs[rid]
        for m in r.get("methods", []):
            if m["name"] == "operator()":
                fn = self.p.fns.get(m["fid"])
                if fn:
                    return self.call_fn(fn, c or self.temp(v), args, e)
        raise Unsupported("no call operator")

    def call_fid(self, fid, this, args, e):
        fn = self.p.fns.get(fid)
        if fn is None:
            raise Unsupported("call of undefined function")
        return self.call_fn(fn, this, args, e)

    def call_fn(self, fn, this, args, e=None):
        if self.recursion:
            c = self.recursion.get(self.p.sname(fn["ref"]["name"]).split("::")[-1].split("<")[0])
            if c is not None and (c[1] or any(f["fn"] is fn for f in self.frames)):
                return self.call_value(c[0], ([this] if len(c) > 2 and c[2] else []) + list(args), e)
        fr = self.new_frame(fn, this)
        self.bind_params(fn, fr, args)
        return self.enter(fn, fr)

    def enter(self, fn, fr):
        if sum(1 for f in self.frames if f["fn"] is fn) >= 3:
            raise Unsupported("recursion in %s" % fn["ref"]["name"][:80])
        self.frames.append(fr)
        self.used[fn["fid"]] = self.p.sname(fn["ref"]["name"])
        try:
            outs = self.run_body(fn)
        finally:
            self.frames.pop()
        return self.finish_call(outs)

    def run_body(self, fn):
        save = self.pending
        self.pending = []
        n = len(self.pc)
        outs = self.exec_stmt(fn["body"])
        self.newpc = self.pc[n:]
        del self.pc[n:]
        self.pending = save
        return outs

    def finish_call(self, outs):
        """merge return/normal outcomes; exceptional ones become pending"""
        rets = [o for o in outs if o.kind in ("normal", "return")]
        thr = [o for o in outs if o.kind == "throw"]
        if not rets:
            if thr:
                for o in thr:
                    self.pending.append(o)
                self.thrown = True
                return UNIT
            raise Unsupported("function without normal exit")
        kept = getattr(self, "newpc", [])
        tc = FALSE
        for o in thr:
            self.pending.append(Out("throw", o.cond, o.st, o.val))
            tc = or_(tc, o.cond)
        st, val = rets[-1].st, rets[-1].val
        for o in reversed(rets[:-1]):
            st = self.merge(o.cond, o.st, st)
            if o.val is not None and val is not None:
                val = ite(o.cond, o.val, val)
        self.st = st
        if tc is not FALSE:
            self.assume(not_(tc))
        for x in kept:
            self.assume(x)
        return UNIT if val is None else val

    def merge(self, c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        r = dict(b)
        for k, v in a.items():
            w = b.get(k)
            if w is None:
                r[k] = v
            elif w is not v:
                try:
                    r[k] = ite(c, v, w)
                except ValueError:
                    raise Unsupported("merge of different sorts")
        return r

    # abstract functions ----------------------------------------------------
    def call_abstract(self, e, f, args):
        k = e["k"]
        member = "cls" in f and not f.get("static")
        this = None
        if member:
            if k == "mcall":
                this = self.obj_loc(e)
            else:
                this = self.lv(args[0])
                args = args[1:]
        vals = []
        refs = []
        for i, a in enumerate(args):
            pt = self.p.ty(f["ptypes"][i]) if i < len(f["ptypes"]) else None
            if pt is not None and pt["k"] == "ref" and not self.p.ty(pt["to"])["const"]:
                loc = self.lv(a)
                refs.append((i, loc))
                vals.append(self.read(loc))
            elif pt is not None and pt["k"] == "ref":
                vals.append(self.read(self.lv(a)))
            else:
                v = self.rv(a)
                vals.append(self.coerce(v, f["ptypes"][i]) if pt is not None else v)
        return self.abstract_result(f, this, vals, refs)

    def abstract_result(self, f, this, vals, refs=()):
        name = self.p.sname(f["name"])
        short = name.split("::", 1)[1] if name.startswith("verif::") else name
        self.abstract.add(name)
        full = list(vals)
        if this is not None:
            full = [self.read(this)] + full
        if short in self.logged:
            self.log(short, full)
        full = self.abs_args(full)
        rt = self.p.ty(f["ret"])
        if this is not None and not f.get("const") and not f.get("ctor"):
            self.write(this, uf(short + "!post", full, "O"))
        for i, loc in refs:
            s = self.read(loc).sort
            self.write(loc, uf("%s!out%d" % (short, i), full, s))
        if rt["k"] == "void":
            return UNIT
        s, tag = self.stag(f["ret"])
        if rt["k"] == "int" and not rt.get("sg", True) and not rt.get("enum"):
            tm.NAT_UF.add(short)
        if tag and tag[0] == "vec":
            tm.VEC_UF.add(short)
        if tag and tag[0] == "tuple":
            comps = {}
            for i, (cs, ct) in enumerate(tag[1:]):
                nm = "%s.%d" % (short, i)
                if ct and ct[0] == "vec":
                    tm.VEC_UF.add(nm)
                if ct and ct[0] == "opt":
                    os_, ot = ct[1]
                    if ot and ot[0] == "vec":
                        tm.VEC_UF.add(nm + ".val")
                    comps[str(i)] = R_("opt", has=uf(nm + ".has", full, "B"), val=uf(nm + ".val", full, os_))
                else:
                    comps[str(i)] = uf(nm, full, cs)
            return rec("tuple", comps)
        return uf(short, full, s)

    def abs_args(self, full):
        """references stored inside argument objects are replaced by the values they designate"""
        return [self.close_refs(v) for v in full]

    def close_refs(self, v, depth=0):
        if depth > 4:
            return v
        if v.op == "ref":
            try:
                return self.close_refs(self.read(unref(v)), depth + 1)
            except KeyError:
                return v
        if v.op == "rec" and any(a.op in ("ref", "rec") for a in v.args):
            return mk("rec", tuple(self.close_refs(a, depth + 1) for a in v.args), v.data, "O")
        if v.op == "closure":
            return mk("closure", tuple(self.close_refs(a, depth + 1) for a in v.args), v.data, "O")
        return v

    def log(self, kind, vals):
        if "log" not in self.st:
            self.st["log"] = seq_f(I0, lambda i: NULLPTR, "O", ("ev",))
        s = self.st["log"]
        ev = mk("ev", tuple(self.close_refs(v) for v in vals), kind, "O")
        n = len_(s)
        self.st["log"] = seq_f(add(n, I1), lambda a: ite(eq(a, n), ev, get(s, a, "O", ("ev",))), "O", ("ev",))

    # ------------------------------------------------------------ bounds
    def bound(self, i, n, what="index in range"):
        if self.safety and not self.dry:
            self.oblige("safety", what, and_(ge0(i), lt(i, n)))

    # ------------------------------------------------------------ statements
    def exec_stmt(self, s):
        """returns outcomes; self.st is consumed"""
        if s is None:
            return [Out("normal", TRUE, self.st)]
        k = s["k"]
        if s.get("l"):
            self.curloc = s["l"]
        f = getattr(self, "st_" + k, None)
        if f is None:
            raise Unsupported("statement %s %s" % (k, s.get("cls", "")))
        return f(s)

    def simple(self, f):
        """run f() (expression evaluation); collect exceptional outcomes"""
        save = self.pending
        self.pending = []
        self.thrown = False
        f()
        pend = self.pending
        self.pending = save
        outs = []
        c = TRUE
        for o in pend:
            outs.append(Out(o.kind, and_(c, o.cond), o.st, o.val))
            c = and_(c, not_(o.cond))
        if c is not FALSE:
            outs.append(Out("normal", c, self.st))
        return outs

    def st_expr(self, s):
        return self.simple(lambda: self.ev(s["e"]))

    def st_null(self, s):
        return [Out("normal", TRUE, self.st)]

    def st_decl(self, s):
        def f():
            for v in s["vars"]:
                self.declare(v)
        return self.simple(f)

    def declare(self, v):
        env = self.fr["env"]
        ref = self.p.ty(v["t"])["k"] == "ref"
        # a constexpr static has its initial value; a const one with a run-time initialiser keeps the
        # value of the first call (unknown here)
        if v.get("static") and not v.get("constexpr"):
            r = "static:%s@%s" % (v["name"], self.p.sname(self.fr["fn"]["ref"]["name"]))
            if r not in self.st:
                if hasattr(self, "statics"):
                    n = len(self.statics)
                    val = self.static_value(v, r)
                    raise NeedStatic(r, val, self.statics[n:])
                self.st[r] = self.static_value(v, r)
                self.fr_globals().add(r)
            env[v["id"]] = Loc(r)
            return
        if ref:
            env[v["id"]] = self.lv(v["init"])
            return
        if v.get("init") is not None and self.is_view_type(v["t"]):
            env[v["id"]] = self.lv(v["init"])   # a view designates the viewed coefficients
            return
        if "init" in v and v["init"] is not None:
            val = self.coerce(self.rv(v["init"]), v["t"])
        else:
            val = self.uninit(v["t"], v["name"])
        env[v["id"]] = self.newroot(v["name"], val)

    def static_value(self, v, r):
        """a function-local static after any number of calls: unknown, except for the distribution of a
        random generator, which keeps its initial value (checked at the end of the scenario)"""
        sym = self.sym(v["t"], r)
        if v.get("init") is None or not hasattr(self, "statics"):
            return sym
        if not any("random" in str(self.p.ty(self.p.noref(v["t"])).get("s", "")).lower() for _ in [0]):
            return sym
        try:
            st0 = dict(self.st)
            val = self.rv(v["init"])
            self.st = st0
        except Unsupported:
            return sym
        if val.op != "rec":
            return sym
        out = {}
        for n, x in zip(val.data[1], val.args):
            if x.op == "dist":
                out[n] = x
                self.statics.append((Loc(r) + ("f", n, val.data[0][1]), x))
            else:
                out[n] = var("%s.%s" % (r, n), x.sort)
        return rec(val.data[0], out)

    def st_block(self, s):
        return self.seq_exec(s["b"])

    def seq_exec(self, stmts):
        """sequential composition"""
        outs = []
        cond = TRUE
        marks = []        # positions in pc holding path conditions pushed here
        try:
            for s in stmts:
                os_ = self.exec_stmt(s)
                normal = None
                for o in os_:
                    o = Out(o.kind, and_(cond, o.cond), o.st, o.val)
                    if o.kind == "normal":
                        if normal is None:
                            normal = o
                        else:
                            normal = Out("normal", or_(normal.cond, o.cond), self.merge(o.cond, o.st, normal.st))
                    else:
                        outs.append(o)
                if normal is None or normal.cond is FALSE:
                    return self.trim(outs)
                self.st = normal.st
                if normal.cond is not cond:
                    marks.append(len(self.pc))
                    self.pc.append(normal.cond)
                cond = normal.cond
            outs.append(Out("normal", cond, self.st))
            return self.trim(outs)
        finally:
            for p in reversed(marks):
                c = self.pc[p]
                extra = self.pc[p + 1:]
                del self.pc[p:]
                for x in extra:
                    self.pc.append(implies(c, x))

    def trim(self, outs):
        return [o for o in outs if o.cond is not FALSE]

    def st_if(self, s):
        outs = []
        pre = []
        if s.get("init"):
            self.seq_exec([s["init"]])
        if s.get("cvar"):
            self.declare(s["cvar"])
        box = []
        pre = self.simple(lambda: box.append(self.cond(s["c"])))
        exc = [o for o in pre if o.kind != "normal"]
        nrm = [o for o in pre if o.kind == "normal"]
        if not nrm:
            return exc
        outs += exc
        base = nrm[0].cond
        c = box[0]
        st0 = dict(self.st)
        res = []
        for cc, br in ((c, s["a"]), (not_(c), s.get("b"))):
            if cc is FALSE or (cc is not TRUE and self.prover is not None and not self.dry and False):
                continue
            self.st = dict(st0)
            n = len(self.pc)
            if cc is not TRUE:
                self.pc.append(cc)
            m = len(self.pc)
            for o in self.exec_stmt(br):
                res.append(Out(o.kind, and_(cc, o.cond), o.st, o.val))
            extra = self.pc[m:]
            del self.pc[n:]
            for x in extra:
                self.pc.append(implies(cc, x))
        # merge normal outcomes
        normal = None
        for o in res:
            if o.kind == "normal":
                if normal is None:
                    normal = o
                else:
                    normal = Out("normal", or_(normal.cond, o.cond), self.merge_br(c, normal, o))
            else:
                outs.append(Out(o.kind, and_(base, o.cond), o.st, o.val))
        if normal is not None:
            outs.append(Out("normal", and_(base, normal.cond), normal.st))
        return self.trim(outs)

    def merge_br(self, c, a, b):
        """a happens under c (a.cond implies c), b under not c"""
        return self.merge(c, a.st, b.st)

    def st_return(self, s):
        box = []

        def f():
            if s.get("e") is None:
                box.append(None)
                return
            fn = self.fr["fn"]
            rt = self.p.ty(fn["ret"]) if "ret" in fn else None
            if rt is not None and rt["k"] == "ref":
                box.append(mkref(self.lv(s["e"])))
            else:
                v = self.rv(s["e"])
                box.append(self.coerce(v, fn["ret"]) if rt is not None and rt["k"] != "void" else v)
        outs = self.simple(f)
        return [Out("return", o.cond, o.st, box[0]) if o.kind == "normal" else o for o in outs]

    def st_break(self, s):
        return [Out("break", TRUE, self.st)]

    def st_continue(self, s):
        return [Out("continue", TRUE, self.st)]

    def st_try(self, s):
        outs = self.exec_stmt(s["body"])
        res = []
        for o in outs:
            if o.kind != "throw":
                res.append(o)
                continue
            name = o.val.data if o.val is not None and o.val.op == "exc" else None
            handled = False
            for h in s["handlers"]:
                ht = h.get("t")
                tn = self.p.tname(ht) if ht is not None else None
                if tn is None or name is None or tn == name or name == "?":
                    self.st = dict(o.st)
                    if h.get("var"):
                        self.fr["env"][h["var"]["id"]] = self.newroot("exc", fresh("exc", "O"))
                    self.pc.append(o.cond)
                    for q in self.exec_stmt(h["body"]):
                        res.append(Out(q.kind, and_(o.cond, q.cond), q.st, q.val))
                    self.pc.pop()
                    handled = True
                    break
            if not handled:
                res.append(o)
        normal = None
        final = []
        for o in res:
            if o.kind == "normal":
                normal = o if normal is None else Out("normal", or_(normal.cond, o.cond), self.merge(o.cond, o.st, normal.st))
            else:
                final.append(o)
        if normal:
            final.append(normal)
        return final

    # ------------------------------------------------------------ loops
    def st_for(self, s):
        outs = []
        if s.get("init"):
            for o in self.exec_stmt(s["init"]):
                if o.kind == "normal":
                    self.st = o.st
                else:
                    outs.append(o)
        cond = (lambda: self.cond(s["c"])) if s.get("c") else (lambda: TRUE)

        def body():
            return self.body_inc(s["body"], s.get("inc"))
        from . import loops
        return outs + loops.run(self, cond, body, s.get("l", ""))

    def body_inc(self, b, inc):
        outs = self.exec_stmt(b)
        res = []
        normal = None
        for o in outs:
            if o.kind in ("normal", "continue"):
                if normal is None:
                    normal = Out("normal", o.cond, o.st)
                else:
                    normal = Out("normal", or_(normal.cond, o.cond), self.merge(o.cond, o.st, normal.st))
            else:
                res.append(o)
        if normal is not None:
            self.st = normal.st
            if inc is not None:
                for o in self.simple(lambda: self.ev(inc)):
                    res.append(Out(o.kind, and_(normal.cond, o.cond), o.st, o.val))
            else:
                res.append(normal)
        return res

    def st_while(self, s):
        from . import loops
        return loops.run(self, lambda: self.cond(s["c"]), lambda: self.body_inc(s["body"], None), s.get("l", ""))

    def st_do(self, s):
        raise Unsupported("do loop")

    def st_rangefor(self, s):
        from . import loops
        rt = s["range"]["t"]
        loc = self.lv(s["range"])
        tn = self.p.tname(rt)
        sg = self.stag(rt)[1]
        v = s["var"]
        if not sg or sg[0] != "seq":
            raise Unsupported("range-for over " + tn)
        n = len_(self.read(loc))
        i = self.newroot("__it", I0)
        ref = self.p.ty(v["t"])["k"] == "ref"

        def cond():
            return lt(self.read(i), len_(self.read(loc)))

        def body():
            el = loc + ("i", self.read(i), sg[1], sg[2])
            if ref:
                self.fr["env"][v["id"]] = el
            else:
                self.fr["env"][v["id"]] = self.newroot(v["name"], self.coerce(self.read(el), v["t"]))
            outs = self.exec_stmt(s["body"])
            res = []
            normal = None
            for o in outs:
                if o.kind in ("normal", "continue"):
                    normal = Out("normal", o.cond, o.st) if normal is None else Out("normal", or_(normal.cond, o.cond), self.merge(o.cond, o.st, normal.st))
                else:
                    res.append(o)
            if normal is not None:
                self.st = normal.st
                self.write(i, add(self.read(i), I1))
                res.append(Out("normal", normal.cond, self.st))
            return res
        return loops.run(self, cond, body, s.get("l", ""))


def trunc(v):
    """C++ conversion of a real to an integer (towards zero)"""
    if v.op == "num":
        return I(int(v.data))
    if v.op == "i2r":
        return v.args[0]
    if v.op == "ite":
        return ite(v.args[0], trunc(v.args[1]), trunc(v.args[2]))
    return r2i(v)
