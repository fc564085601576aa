"""Loads the JSON dump of the type-checked program and gives access to it."""
import json, re


PROJ = re.compile(r"^<([\w:]+) as ([\w:]+)(?:<.*>)?>::(\w+)$")


class Prog:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.raw_types = d["types"]
        self._ty = [None] * len(self.raw_types)
        self.bodies = {}
        self.promoted = {}
        self.by_path = {}
        for b in d["bodies"]:
            if "promoted" in b:
                self.promoted[(b["id"], b["promoted"])] = b
            else:
                self.bodies[b["id"]] = b
                self.by_path.setdefault(b["path"], []).append(b)
        self.consts = d["consts"]
        self.const_by_path = {}
        for c in d["consts"]:
            self.const_by_path.setdefault(c["p"], c)
        self.impls = d["impls"]
        self.adts = {a["p"]: a for a in d["adts"]}
        self.impl_by_id = {i["id"]: i for i in self.impls}
        self.by_impl = {}
        for b in self.bodies.values():
            if "impl" in b:
                self.by_impl[(b["impl"], b["nm"])] = b
        self.trait_impls = {}
        for i in self.impls:
            if i.get("trait"):
                self.trait_impls.setdefault(i["trait"], []).append(i)
        self.const_by_impl = {}
        for c in self.consts:
            m = c["id"].rsplit("::", 1)
            self.const_by_impl[(m[0], m[1])] = c
        self._resolve_cache = {}

    # ---- types as tuples -------------------------------------------------
    def ty(self, i):
        t = self._ty[i]
        if t is not None:
            return t
        r = self.raw_types[i]
        k = r["k"]
        if k == "int":
            t = ("int", r["w"], r["sg"])
        elif k in ("bool", "char", "str", "never", "float"):
            t = (k,)
        elif k == "adt":
            t = ("adt", r["p"], tuple(self.garg(a) for a in r["a"]))
        elif k == "array":
            t = ("array", self.ty(r["e"]), r["n"])
        elif k == "slice":
            t = ("slice", self.ty(r["e"]))
        elif k in ("ref", "ptr"):
            t = (k, r["m"], self.ty(r["e"]))
        elif k == "tuple":
            t = ("tuple", tuple(self.ty(a) for a in r["a"]))
        elif k == "closure":
            t = ("closure", r["id"])
        elif k == "fndef":
            t = ("fndef", r["p"])
        elif k == "dyn":
            t = ("dyn", r["p"])
        elif k == "param":
            t = ("param", r["s"])
        else:
            t = ("other", r["s"])
        self._ty[i] = t
        return t

    def garg(self, a):
        if isinstance(a, int):
            return self.ty(a)
        if "n" in a:
            return ("n", a["n"])
        return ("cparam", a["c"])

    def tystr(self, t):
        k = t[0]
        if k == "int":
            if t[1] == 64:
                return ("i" if t[2] else "u") + "64"
            return ("i" if t[2] else "u") + str(t[1])
        if k == "adt":
            s = t[1].split("::")[-1]
            if t[2]:
                s += "<" + ",".join(self.tystr(a) for a in t[2]) + ">"
            return s
        if k == "array":
            return "[%s;%s]" % (self.tystr(t[1]), t[2])
        if k == "slice":
            return "[%s]" % self.tystr(t[1])
        if k == "ref":
            return "&" + ("mut " if t[1] else "") + self.tystr(t[2])
        if k == "ptr":
            return "*" + ("mut " if t[1] else "const ") + self.tystr(t[2])
        if k == "tuple":
            return "(" + ",".join(self.tystr(a) for a in t[1]) + ")"
        if k in ("n",):
            return str(t[1])
        if k == "dyn":
            return "dyn " + t[1].split("::")[-1]
        if k in ("param", "cparam", "other", "fndef", "closure"):
            return str(t[1])
        return k

    def subst(self, t, m):
        if not m:
            return t
        k = t[0]
        if k == "param":
            return m.get(t[1], t)
        if k == "cparam":
            return m.get(t[1], t)
        if k == "adt":
            if not t[2]:
                return t
            return ("adt", t[1], tuple(self.subst(a, m) for a in t[2]))
        if k == "tuple":
            return ("tuple", tuple(self.subst(a, m) for a in t[1]))
        if k in ("ref", "ptr"):
            return (k, t[1], self.subst(t[2], m))
        if k == "array":
            n = t[2]
            if isinstance(n, str) and n in m:
                mm = m[n]
                n = mm[1] if mm[0] in ("n", "cparam") else n
            return ("array", self.subst(t[1], m), n)
        if k == "slice":
            return ("slice", self.subst(t[1], m))
        if k == "other" and t[1].startswith("<"):
            return self.project(t, m)
        return t

    def project(self, t, m):
        """<T as Trait<..>>::Name with T known"""
        x = PROJ.match(t[1])
        if x is None:
            return t
        st = m.get(x.group(1)) or (("adt", x.group(1), ()) if x.group(1) in self.adts else None)
        if st is None:
            return t
        fi = self.find_impl(x.group(2), st)
        ty = dict(fi[0].get("types", ())).get(x.group(3)) if fi else None
        if ty is None or any(isinstance(a, tuple) and a[0] == "param" for a in fi[1].values()):
            return t
        return self.subst(self.ty(ty), fi[1] or {"": None})

    def unify(self, pat, t, m):
        """Matches impl pattern `pat` (with params) against `t`; fills `m`."""
        k = pat[0]
        if k in ("param", "cparam"):
            if pat[1] in m:
                return m[pat[1]] == t
            m[pat[1]] = t
            return True
        if k != t[0]:
            return False
        if k == "adt":
            return pat[1] == t[1] and len(pat[2]) == len(t[2]) and all(
                self.unify(a, b, m) for a, b in zip(pat[2], t[2]))
        if k == "tuple":
            return len(pat[1]) == len(t[1]) and all(self.unify(a, b, m) for a, b in zip(pat[1], t[1]))
        if k in ("ref", "ptr"):
            return pat[1] == t[1] and self.unify(pat[2], t[2], m)
        if k == "array":
            if not self.unify(pat[1], t[1], m):
                return False
            if isinstance(pat[2], str):
                m[pat[2]] = ("n", t[2])
                return True
            return pat[2] == t[2]
        if k == "slice":
            return self.unify(pat[1], t[1], m)
        return pat == t

    def find_impl(self, trait, self_ty, targs=None):
        """Finds the unique local impl of trait for self_ty -> (impl, subst)."""
        key = (trait, self_ty, targs)
        if key in self._resolve_cache:
            return self._resolve_cache[key]
        res = None
        if self_ty[0] not in ("param", "other"):
            cands = []
            for i in self.trait_impls.get(trait, ()):
                m = {}
                if not self.unify(self.ty(i["self"]), self_ty, m):
                    continue
                if targs is not None and len(i.get("targs", ())) == len(targs):
                    ok = all(self.unify(self.garg(a), b, m) for a, b in zip(i["targs"], targs))
                    if not ok:
                        continue
                # prefer the impl whose self type is not a bare parameter
                cands.append((self.ty(i["self"])[0] == "param", i, m))
            cands.sort(key=lambda c: c[0])
            if cands:
                res = (cands[0][1], cands[0][2])
        self._resolve_cache[key] = res
        return res

    def resolve(self, callee, sub):
        """callee record + generic substitution of the enclosing frame ->
        dict(name, body, sub, self_ty, trait, nm, targs)"""
        args = tuple(self.subst(self.garg(a), sub) for a in callee["a"])
        out = {"nm": callee["nm"], "trait": callee.get("tr"), "args": args, "body": None, "sub": {},
               "path": callee["p"], "self": None, "ctor": callee.get("ctor"), "unsafe": callee.get("unsafe", False)}
        if "st" in callee:
            out["self"] = self.subst(self.ty(callee["st"]), sub)
        r = callee.get("r")
        body = None
        if r is not None and r["k"] == "item":
            body = self.bodies.get(r["id"])
            rargs = tuple(self.subst(self.garg(a), sub) for a in r["a"])
            out["path"] = r["p"]
            out["rargs"] = rargs
            if body is not None:
                out["sub"] = dict(zip(body["gen"], rargs))
            elif callee.get("tr") is None:
                pass
        if body is None and callee.get("tr") and out["self"] is not None and out["self"][0] not in ("param", "dyn"):
            st = out["self"]
            fi = self.find_impl(callee["tr"], st, args)
            if fi:
                im, m = fi
                body = self.by_impl.get((im["id"], callee["nm"]))
                if body is not None:
                    s2 = dict(m)
                    # method generics: trailing args
                    extra = [g for g in body["gen"] if g not in m]
                    n = len(extra)
                    if n:
                        for g, a in zip(extra, args[-n:]):
                            s2[g] = a
                    out["sub"] = s2
                    out["path"] = body["path"]
                else:
                    # default method of a local trait
                    body = self.bodies.get(callee["id"])
                    if body is not None:
                        out["sub"] = dict(zip(body["gen"], args))
            elif self.bodies.get(callee["id"]) is not None and r is not None and r["k"] == "item":
                body = self.bodies.get(callee["id"])
                out["sub"] = dict(zip(body["gen"], args))
        out["body"] = body
        return out

    def variant_discr(self, path, vi):
        a = self.adts.get(path)
        if a is None:
            return vi
        return int(a["v"][vi]["d"])

    def nvariants(self, path):
        a = self.adts.get(path)
        return None if a is None else len(a["v"])

    def field_names(self, path, vi=0):
        a = self.adts.get(path)
        if a is None:
            return None
        return [f[0] for f in a["v"][vi]["f"]]

    # ---- lookups ---------------------------------------------------------
    def find(self, suffix):
        """All bodies whose path ends with suffix (closures excluded)."""
        out = []
        for b in self.bodies.values():
            if b["kind"] == "Closure":
                continue
            p = b["path"]
            if p == suffix or p.endswith("::" + suffix) or p.endswith(" " + suffix) or p.endswith(suffix):
                out.append(b)
        return out

    def method(self, self_name, nm, trait=None):
        """Body of method `nm` of the type with last path segment self_name."""
        res = []
        for b in self.bodies.values():
            if b.get("nm") != nm or "self" not in b:
                continue
            t = self.ty(b["self"])
            if self.tystr(t).split("<")[0] != self_name.split("<")[0]:
                continue
            if "<" in self_name and self.tystr(t) != self_name:
                continue
            if trait is None and b.get("trait"):
                continue
            if trait is not None and (b.get("trait") or "").split("::")[-1] != trait:
                continue
            res.append(b)
        return res


def pp_place(p):
    s = "_%d" % p[0]
    for e in p[1]:
        if e == "*":
            s = "(*%s)" % s
        elif e[0] == "f":
            s += ".%d" % e[1]
        elif e[0] == "v":
            s += " as v%d" % e[1]
        elif e[0] == "i":
            s += "[_%d]" % e[1]
        else:
            s += str(e)
    return s


def pp_op(o):
    if "c" in o:
        return pp_place(o["c"])
    if "m" in o:
        return "move " + pp_place(o["m"])
    k = o.get("k")
    if k is None:
        return "rc"
    if "fn" in k:
        f = k["fn"]
        return (f.get("r") or f)["p"]
    for key in ("v", "rb", "sb", "sym", "promoted", "tc"):
        if key in k:
            return "const %s=%s" % (key, k[key])
    return "const?"


def pp(prog, b):
    out = ["fn %s argc=%d %s" % (b["path"], b["argc"], b["span"])]
    for i, l in enumerate(b["locals"]):
        out.append("  let _%d: %s %s" % (i, prog.tystr(prog.ty(l[0])), l[1] if len(l) > 1 else ""))
    for i, bl in enumerate(b["blocks"]):
        if bl.get("cl"):
            continue
        out.append(" bb%d:" % i)
        for s in bl["s"]:
            if s[0] == "=":
                rv = s[2]
                out.append("   %s = %s" % (pp_place(s[1]), " ".join(
                    pp_op(x) if isinstance(x, dict) else (pp_place(x) if isinstance(x, list) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list) else
                    ("[" + ",".join(pp_op(y) for y in x) + "]" if isinstance(x, list) and x and isinstance(x[0], dict) else str(x))) for x in rv)))
            else:
                out.append("   %s" % s)
        t = bl["t"]
        if t[0] == "call":
            out.append("   %s = call %s(%s) -> bb%s" % (pp_place(t[3]), pp_op(t[1]), ", ".join(pp_op(a) for a in t[2]), t[4]))
        elif t[0] == "switch":
            out.append("   switch %s %s else bb%d" % (pp_op(t[1]), t[2], t[3]))
        else:
            out.append("   %s" % (t,))
    return "\n".join(out)
