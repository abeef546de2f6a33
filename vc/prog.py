"""Loads the exported AST of one translation unit."""
import json


def strip_targs(name):
    """qualified name without template arguments: 'a::B<x>::f' -> 'a::B::f'"""
    out = []
    d = 0
    i = 0
    n = len(name)
    while i < n:
        if d == 0 and name.startswith("operator", i) and (i == 0 or not (name[i - 1].isalnum() or name[i - 1] == "_")):
            j = i + 8
            out.append("operator")
            for op in ("<<=", ">>=", "->*", "<=>", "<<", ">>", "<=", ">=", "->", "()", "[]", "<", ">"):
                if name.startswith(op, j):
                    out.append(op)
                    j += len(op)
                    break
            i = j
            continue
        c = name[i]
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return "".join(out)


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.fns = {f["fid"]: f for f in d["functions"]}
        self.recs = {}
        for r in d["records"]:
            self.recs[r["rid"]] = r
        self.byname = {}
        for f in d["functions"]:
            self.byname.setdefault(strip_targs(f["ref"]["name"]), []).append(f)
        self._sn = {}

    def sname(self, name):
        r = self._sn.get(name)
        if r is None:
            r = self._sn[name] = strip_targs(name)
        return r

    def ty(self, t):
        return self.types[t]

    def noref(self, t):
        x = self.types[t]
        if x["k"] == "ref":
            return x["to"]
        return t

    def rid(self, t):
        return self.types[self.noref(t)].get("rid")

    def tname(self, t):
        """stripped class name of a type, '' when not a class"""
        x = self.types[self.noref(t)]
        return self.sname(x["name"]) if x["k"] == "rec" else ""

    def fields(self, rid):
        """flattened list of (name, type, init) including bases, for classes defined in the roots"""
        r = self.recs.get(rid)
        if r is None or not r.get("root"):
            return None
        out = []
        for b in r.get("bases", []):
            br = self.types[b].get("rid")
            f = self.fields(br)
            if f:
                out += f
        for f in r["fields"]:
            out.append((f["name"], f["t"], f.get("init")))
        return out

    def allbases(self, rid):
        out = [rid]
        r = self.recs.get(rid)
        for b in (r or {}).get("bases", []):
            br = self.types[b].get("rid")
            if br:
                out += self.allbases(br)
        return out

    def find(self, name, nparams=None, cls=None, pred=None):
        """functions whose stripped qualified name ends with `name`"""
        out = []
        for n, fs in self.byname.items():
            if n == name or n.endswith("::" + name):
                for f in fs:
                    if nparams is not None and len(f["params"]) != nparams:
                        continue
                    if cls is not None and cls not in self.types[f["ref"].get("cls", 0)].get("s", ""):
                        continue
                    if pred and not pred(f):
                        continue
                    out.append(f)
        return out
