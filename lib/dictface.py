"""Front ends of dictionaries (RawDict, Dict, AugDict and their typed iterators): each method must hand its own root, key length, key,
mode, bound and context to one operation of dict::ops (whose meaning is C13-C16), convert the key before and the result after it, and
pass on every failure.

Operations, conversions of keys and values and the raw iterators are events; every one forks into its outcomes.  The events of a path
are compared as a set with those that the method needs (their order is free), the result with what the outcomes give."""
from cellcore import *

OPS = "tycho_types::dict::ops::"
RAW = "tycho_types::dict::raw::"
SELF = ("SELF",)
LOG = ("G", "events")
CELLERR = "tycho_types::error::Error"
# what the operations return, on success
SHAPE = {"dict_get": "opt", "dict_get_owned": "opt", "dict_get_subdict": "opt", "dict_find_owned": "optpair", "dict_find_bound": "optpair",
         "dict_find_bound_owned": "optpair", "dict_remove_owned": "opt", "dict_remove_bound_owned": "optpair", "dict_insert": "bool",
         "dict_split_by_prefix": "roots", "dict_merge_siblings": "root", "dict_load_from_root": "val", "aug_dict_insert": "bool",
         "aug_dict_remove_owned": "opt", "aug_dict_merge_siblings": "root", "aug_dict_find_by_extra": "opttriple",
         "aug_dict_modify_from_sorted_iter": "bool", "dict_modify_from_sorted_iter": "bool", "build_dict_from_sorted_iter": "root",
         "build_aug_dict_from_sorted_iter": "root"}
MUT = ("dict_insert", "dict_remove_owned", "dict_remove_bound_owned", "aug_dict_insert", "aug_dict_remove_owned",
       "aug_dict_modify_from_sorted_iter", "dict_modify_from_sorted_iter")


class Missing(Exception):
    pass


class Failed(Exception):
    def __init__(s, err):
        s.err = err


def opq(name, *args):
    return ("?", name, tuple(args))


C_NONE = ("A", OPTION, 0)


def c_some(x):
    return ("A", OPTION, 1, x)


def c_ok(x):
    return ("A", RESULT, 0, x)


def c_err(x):
    return ("A", RESULT, 1, x)


def c_tup(*xs):
    return ("A", "tuple", 0) + xs


def c_bool(v):
    return ("I", v, ())


UNITC = ("A", "tuple", 0)
BITS = ("I", 0, (("BITS", 1),))
EMPTY = opq("empty context")


def tup(*xs):
    return Ag("tuple", 0, tuple(xs))


class Face:
    def __init__(s, prog, target="", iters=True):
        s.p = prog
        s.target = target
        s.iters = iters

    def const(s, st, k, ty):
        c = str(sorted(k.items()))
        if "DictKey" in c and "BITS" in c or "'N'" in c:
            if "BITS" not in st.vr:
                st.var("BITS", 0, 1023)
            return Af(16, False, 0, (("BITS", 1),))

    # ---------------------------------------------------------- values --
    def canon(s, ip, st, v, d=0):
        """value as nested tuples, references replaced by what they point to"""
        if d > 14:
            raise Undecided("deep value")
        if isinstance(v, Ref):
            if v.root not in st.mem:
                return opq("at", v.root, v.path)
            return s.canon(ip, st, ip.read(st, v.root, v.path), d + 1)
        if isinstance(v, Ag):
            f = tuple(s.canon(ip, st, x, d + 1) for x in v.f)
            if v.k not in ("tuple", OPTION, RESULT):
                f = tuple(x for x in f if x != UNITC and not (x[0] == "A" and "PhantomData" in str(x[1])))
            return ("A", v.k, v.v or 0) + f
        if isinstance(v, Af):
            return ("I", v.c, v.t)
        if isinstance(v, Bv):
            n = const_of(v)
            return ("I", n, ()) if n is not None else ("V", str(v))
        if isinstance(v, Opq):
            return ("?", v.name, tuple(v.args))
        if isinstance(v, Fn):
            return ("fn", v.rec["path"] if isinstance(v.rec, dict) and "path" in v.rec else str(v.rec)[:120])
        raise Undecided("value %s" % type(v).__name__)

    def log(s, st, name, args, out):
        st.mem[LOG] = st.mem.get(LOG, ()) + ((name, args, out),)

    def forks(s, ip, st, name, args, shape, effect=None):
        n = len(st.mem.get(LOG, ()))
        r = lambda *x: Opq("res", (n,) + x)
        vals = {"opt": [NONE, Some(r(0))], "optpair": [NONE, Some(tup(r(0), r(1)))], "opttriple": [NONE, Some(tup(r(0), r(1), r(2)))],
                "bool": [B(0), B(1)], "root": [NONE, Some(r(0))], "roots": [tup(NONE, Some(r(1))), tup(Some(r(0)), NONE)],
                "val": [r(0)], "pair": [tup(r(0), r(1))], "unit": [UNIT]}[shape]
        res = []
        for v in [None] + vals:
            t = st.copy()
            if v is None:
                e = Opq("err", (n,))
                s.log(t, name, args, ("err", s.canon(ip, t, e)))
                res.append((t, Ag(RESULT, 1, (e,))))
            else:
                s.log(t, name, args, ("ok", s.canon(ip, t, v)))
                if effect:
                    effect(t, v)
                res.append((t, Ag(RESULT, 0, (v,))))
        return res

    # ----------------------------------------------------------- hooks --
    def hook(s, ip, st, c, a):
        nm, path = c["nm"], c["path"]
        if s.target and path == s.target:
            return None
        n = len(st.mem.get(LOG, ()))
        if (path.startswith(OPS) or path == "tycho_types::dict::" + nm) and nm in SHAPE:
            args = []
            for i, x in enumerate(a):
                if nm in MUT and i == 0:
                    args.append(opq("place", x.root, x.path) if isinstance(x, Ref) else s.canon(ip, st, x))
                else:
                    args.append(s.canon(ip, st, x))
            eff = None
            if nm in MUT:
                place = a[0]

                def eff(t, v):
                    if s.canon(ip, t, v) not in (C_NONE, c_bool(0)):
                        ip.write(t, place.root, place.path, Some(Opq("root after", (n,))))
            return s.forks(ip, st, nm, tuple(args), SHAPE[nm], eff)
        if s.iters and path.startswith(RAW) and ("Iter" in path or "RawKeys" in path or "RawValues" in path or "RawOwned" in path) \
                or s.iters and nm == "next" and is_iter(ip, st, a):
            return s.raw_iter(ip, st, c, a)
        if nm == "empty_context":
            return [(st, Opq("empty context"))]
        if nm == "store_into_data":
            place = a[1]
            if s.canon(ip, st, place) != opq("kb"):
                raise Undecided("key stored after something")
            k = s.canon(ip, st, a[0])

            def eff(t, v):
                ip.write(t, place.root, place.path, Opq("kb", (k,)))
            return s.forks(ip, st, "store_into_data", (k,), "unit", eff)
        if nm == "load_from_data":
            kb = s.canon(ip, st, a[0])
            out = []
            for ok in (0, 1):
                t = st.copy()
                v = Opq("res", (n, 0))
                s.log(t, nm, (kb,), ("ok", s.canon(ip, t, v)) if ok else ("err", None))
                out.append((t, Some(v) if ok else NONE))
            return out
        if nm == "load_from" and c["trait"] and not c.get("body"):
            ty = s.tyname(c)
            sl = s.canon(ip, st, a[0])
            ref = a[0]

            def eff(t, v):
                ip.write(t, ref.root, ref.path, Opq("rest", (ty, sl)))
            return s.forks(ip, st, "load_from", (ty, sl), "val", eff)
        if nm == "apply" and "CellSlice" in path:
            return s.forks(ip, st, "apply", (s.canon(ip, st, a[0]),), "val")
        if nm == "new" and "CellDataBuilder" in path:
            return [(st, Opq("kb", ()))]
        if nm == "as_data_slice":
            return [(st, Opq("bits of", (s.canon(ip, st, a[0]),)))]
        if nm == "borrow" and c["trait"]:
            return [(st, a[0])]
        if nm == "default" and "CellSlice" in path + str(c.get("retty")) + str(c.get("self")):
            return [(st, Opq("empty slice"))]
        if nm == "default" and c["trait"] and not c.get("body"):
            return [(st, Opq("default"))]
        if path == "tycho_types::dict::aug::load_from_root":
            return s.forks(ip, st, "aug load_from_root", tuple(s.canon(ip, st, x) for x in a), "pair")
        if nm == "update_root_extra" and "AugDict" in path:
            r = a[0]
            v = ip.read(st, r.root, r.path)
            names = s.p.field_names(v.k)
            d = s.canon(ip, st, v.f[names.index("dict")])

            def eff(t, _):
                v = ip.read(t, r.root, r.path)
                f = list(v.f)
                f[names.index("extra")] = Opq("extra of", (d,))
                ip.write(t, r.root, r.path, Ag(v.k, v.v, tuple(f)))
            return s.forks(ip, st, nm, (d,), "unit", eff)
        return None

    def tyname(s, c):
        t = c.get("self")
        return s.p.tystr(s.p.ty(t) if isinstance(t, int) else t) if t is not None else "?"

    # -------------------------------------------------- raw iterators --
    def raw_iter(s, ip, st, c, a):
        nm, path = c["nm"], c["path"]
        n = len(st.mem.get(LOG, ()))
        if nm in ("new", "new_ext"):
            ty = path[len(RAW):].split("::")[0]
            args = tuple(s.canon(ip, st, x) for x in a)
            if nm == "new":
                args += (c_bool(0), c_bool(0))
            return [(st, Opq("iter", (ty, args)))]
        if nm in ("reversed", "signed"):
            v = s.canon(ip, st, a[0])
            return [(st, Opq("iter with", (nm, v)))]
        if nm == "finish":
            e = s.canon(ip, st, a[1])
            s.log(st, "finish", (s.canon(ip, st, a[0]), e), ("ok", e))
            ip.write(st, a[0].root, a[0].path, Opq("finished", ()))
            return [(st, a[1])]
        if nm == "next":
            it = s.canon(ip, st, a[0])
            kind = it[2][0]
            num = {"RawIter": 2, "UnionRawIter": 3, "RawValues": 1, "RawKeys": 1}[kind]
            out = []
            r = [Opq("res", (n, i)) for i in range(num)]
            opts = [r]
            if kind == "UnionRawIter":
                opts = [[r[0], Some(r[1]), Some(r[2])], [r[0], NONE, Some(r[2])], [r[0], Some(r[1]), NONE]]
            e = Opq("err", (n,))
            for v in [NONE, Some(Ag(RESULT, 1, (e,)))] + [Some(Ag(RESULT, 0, (o[0] if num == 1 else tup(*o),))) for o in opts]:
                t = st.copy()
                s.log(t, "next", (it,), ("ok", s.canon(ip, t, v)))
                ip.write(t, a[0].root, a[0].path, Opq("next", (kind, n)))
                out.append((t, v))
            return out
        raise Undecided("call of %s" % path)


def is_iter(ip, st, a):
    try:
        v = ip.read(st, a[0].root, a[0].path) if isinstance(a[0], Ref) and a[0].root in st.mem else None
    except Undecided:
        return False
    return isinstance(v, Opq) and v.name in ("iter", "iter with", "next", "finished", "iterator")


def const_of(v):
    n = 0
    for i, b in enumerate(v.b):
        if b not in (0, 1):
            return None
        n |= b << i
    return n


# ---------------------------------------------------------------- plans ----
class Plan:
    """replays what a method has to do on the events of one path"""

    def __init__(s, log, me):
        s.left = list(log)
        s.log = log
        s.root, s.extra = me["root"], me.get("extra")
        s.me = me

    def ev(s, name, *args):
        for i, e in enumerate(s.left):
            if e[0] == name and same_args(e[1], args):
                s.left.pop(i)
                if e[2][0] == "err":
                    raise Failed(e[2][1])
                return e[2][1]
        s.want = (name, args)
        raise Missing()

    def kd(s, key):
        s.ev("store_into_data", key)
        return opq("bits of", opq("kb", key))

    def mut(s, name, *args):
        k = [i for i, e in enumerate(s.log) if e[0] == name]
        r = s.ev(name, opq("place", SELF, s.me["path"]), *args)
        if r not in (C_NONE, c_bool(0)):
            s.root = c_some(opq("root after", k[0]))
        return r

    def update(s):
        d = c_dict(s.root)
        s.ev("update_root_extra", d)
        s.extra = opq("extra of", d)

    def load(s, ty, sl):
        return s.ev("load_from", ty, sl)



def same_args(a, b):
    return len(a) == len(b) and all(y(x) if callable(y) else x == y for x, y in zip(a, b))


def anything(x):
    return True


def comparator(x):
    return "comp_add" in str(x)


T = "tycho_types::dict::"
DICT, AUG, RAWD = T + "typed::Dict", T + "aug::AugDict", T + "raw::RawDict"


def c_dict(root):
    return ("A", DICT, 0, root)


def c_raw(root):
    return ("A", RAWD, 0, root)


def c_aug(root):
    d = c_dict(root)
    return ("A", AUG, 0, d, opq("extra of", d))


def variant(p, name, v):
    a = [a for a in p.adts.values() if a["p"].startswith("tycho_types::dict") and a["p"].endswith("::" + name)]
    names = [x["n"] for x in a[0]["v"]] if len(a) == 1 else []
    if v not in names:
        raise Undecided("%s::%s" % (name, v))
    return ("A", a[0]["p"], names.index(v))


def raw_plans(p):
    mn, mx = variant(p, "DictBound", "Min"), variant(p, "DictBound", "Max")
    mode = {m: variant(p, "SetMode", m) for m in ("Set", "Replace", "Add")}
    no, yes = c_bool(0), c_bool(1)
    pl = {}

    def find(bound, incl):
        return lambda P, k, sg: c_ok(P.ev("dict_find_owned", P.root, BITS, k, bound, incl, sg, EMPTY))
    pl["get"] = lambda P, k: c_ok(P.ev("dict_get", P.root, BITS, k, EMPTY))
    pl["get_ext"] = lambda P, k, c: c_ok(P.ev("dict_get", P.root, BITS, k, c))
    pl["get_owned"] = lambda P, k: c_ok(P.ev("dict_get_owned", P.root, BITS, k, EMPTY))
    pl["get_owned_ext"] = lambda P, k, c: c_ok(P.ev("dict_get_owned", P.root, BITS, k, c))
    pl["get_subdict"] = lambda P, k, c: c_ok(P.ev("dict_get_subdict", P.root, BITS, k, c))
    pl["contains_key"] = lambda P, k: c_ok(no if P.ev("dict_get", P.root, BITS, k, EMPTY) == C_NONE else yes)
    pl["get_next_owned"], pl["get_prev_owned"] = find(mx, no), find(mn, no)
    pl["get_or_next_owned"], pl["get_or_prev_owned"] = find(mx, yes), find(mn, yes)
    for sfx, op in (("", "dict_find_bound"), ("_owned", "dict_find_bound_owned")):
        for b, v in (("min", mn), ("max", mx)):
            pl["get_%s%s" % (b, sfx)] = lambda P, sg, op=op, v=v: c_ok(P.ev(op, P.root, BITS, v, sg, EMPTY))
        pl["get_bound" + sfx] = lambda P, b, sg, op=op: c_ok(P.ev(op, P.root, BITS, b, sg, EMPTY))
        pl["get_bound%s_ext" % sfx] = lambda P, b, sg, c, op=op: c_ok(P.ev(op, P.root, BITS, b, sg, c))
    for nm_, m in (("set", "Set"), ("replace", "Replace"), ("add", "Add")):
        pl[nm_] = lambda P, k, v, m=m: c_ok(P.mut("dict_insert", k, BITS, v, mode[m], EMPTY))
        pl[nm_ + "_ext"] = lambda P, k, v, c, m=m: c_ok(P.mut("dict_insert", k, BITS, v, mode[m], c))
    pl["remove"] = lambda P, k: c_ok(P.mut("dict_remove_owned", k, BITS, no, EMPTY))
    pl["remove_ext"] = lambda P, k, c: c_ok(P.mut("dict_remove_owned", k, BITS, no, c))
    for b, v in (("min", mn), ("max", mx)):
        pl["remove_" + b] = lambda P, sg, v=v: c_ok(P.mut("dict_remove_bound_owned", BITS, v, sg, EMPTY))
    pl["remove_bound"] = lambda P, b, sg: c_ok(P.mut("dict_remove_bound_owned", BITS, b, sg, EMPTY))
    pl["remove_bound_ext"] = lambda P, b, sg, c: c_ok(P.mut("dict_remove_bound_owned", BITS, b, sg, c))

    def split(P, k, c):
        r = P.ev("dict_split_by_prefix", P.root, BITS, k, c)
        return c_ok(c_tup(c_raw(r[3]), c_raw(r[4])))
    pl["split"] = lambda P: split(P, opq("empty slice"), EMPTY)
    pl["split_ext"] = lambda P, c: split(P, opq("empty slice"), c)
    pl["split_by_prefix"] = lambda P, k: split(P, k, EMPTY)
    pl["split_by_prefix_ext"] = split
    for nm_, ty in (("iter", "RawIter"), ("iter_owned", "RawOwnedIter"), ("keys", "RawKeys"), ("values", "RawValues"), ("values_owned", "RawOwnedValues")):
        pl[nm_] = lambda P, ty=ty: opq("iter", ty, (P.root, BITS, no, no))
    pl["iter_union"] = lambda P, o: opq("iter", "UnionRawIter", (P.root, P.other, BITS, no, no))
    pl["load_from_root_ext"] = lambda P, sl, c: c_ok(c_raw(c_some(P.ev("dict_load_from_root", sl, BITS, c))))
    return pl


def typed_plans(p, aug=False):
    mn, mx = variant(p, "DictBound", "Min"), variant(p, "DictBound", "Max")
    mode = {m: variant(p, "SetMode", m) for m in ("Set", "Replace", "Add")}
    no, yes = c_bool(0), c_bool(1)
    pl = {}

    def opt(r, f):
        return c_ok(C_NONE if r == C_NONE else c_some(f(r[3])))

    def key(P, kb):
        return P.ev("load_from_data", kb)

    def value(P, sl):
        if aug:
            return pair(P, sl)
        return P.load("V", sl)

    def pair(P, sl):
        if any(e[0] == "load_from" and e[1][0] == "(A, V)" for e in P.log):
            return P.load("(A, V)", sl)
        a = P.load("A", sl)
        return c_tup(a, P.load("V", opq("rest", "A", sl)))

    def get(P, k):
        return P.ev("dict_get", P.root, BITS, P.kd(k), EMPTY)
    pl["get"] = lambda P, k: opt(get(P, k), lambda x: value(P, x))
    pl["contains_key"] = lambda P, k: c_ok(no if get(P, k) == C_NONE else yes)

    def remove(P, k, c):
        if aug:
            r = P.mut("aug_dict_remove_owned", P.kd(k), BITS, no, comparator, c)
            if r != C_NONE:
                P.update()
            return r
        return P.mut("dict_remove_owned", P.kd(k), BITS, no, c)
    pl["remove"] = lambda P, k: opt(remove(P, k, EMPTY), lambda x: value(P, P.ev("apply", x)))
    pl["remove_raw"] = lambda P, k: c_ok(remove(P, k, EMPTY))
    pl["remove_raw_ext"] = lambda P, k, c: c_ok(remove(P, k, c))

    def insert(P, k, v, m, c, *ex):
        if aug:
            r = P.mut("aug_dict_insert", P.kd(k), BITS, v, ex[0], mode[m], comparator, c)
            if r != no:
                P.update()
            return c_ok(r)
        return c_ok(P.mut("dict_insert", P.kd(k), BITS, v, mode[m], c))
    for nm_, m in (("set", "Set"), ("replace", "Replace"), ("add", "Add")):
        if aug:
            pl[nm_] = lambda P, k, a, v, m=m: insert(P, k, a, m, EMPTY, v)
            pl[nm_ + "_ext"] = lambda P, k, a, v, c, m=m: insert(P, k, a, m, c, v)
        else:
            pl[nm_] = lambda P, k, v, m=m: insert(P, k, v, m, EMPTY)
            pl[nm_ + "_ext"] = lambda P, k, v, c, m=m: insert(P, k, v, m, c)

    def split(P, k, c):
        r = P.ev("dict_split_by_prefix", P.root, BITS, k, c)
        if aug:
            for x in (r[3], r[4]):
                P.ev("update_root_extra", c_dict(x))
            return c_ok(c_tup(c_aug(r[3]), c_aug(r[4])))
        return c_ok(c_tup(c_dict(r[3]), c_dict(r[4])))
    pl["split"] = lambda P: split(P, opq("empty slice"), EMPTY)
    pl["split_ext"] = lambda P, c: split(P, opq("empty slice"), c)
    pl["split_by_prefix"] = lambda P, k: split(P, k, EMPTY)
    pl["split_by_prefix_ext"] = split

    def merge(P, o, c):
        if aug:
            r = P.ev("aug_dict_merge_siblings", P.root, P.other, BITS, comparator, c)
            P.ev("update_root_extra", c_dict(r))
            return c_ok(c_aug(r))
        return c_ok(c_dict(P.ev("dict_merge_siblings", P.root, P.other, BITS, c)))
    pl["merge_with_right_sibling"] = lambda P, o: merge(P, o, EMPTY)
    pl["merge_with_right_sibling_ext"] = merge
    it = lambda P, ty: opq("iter", ty, (P.root, BITS, no, no))
    pl["raw_iter"], pl["raw_keys"], pl["raw_values"] = (lambda P, ty=ty: it(P, ty) for ty in ("RawIter", "RawKeys", "RawValues"))
    pl["iter"] = lambda P: ("A", T + "aug::AugIter", 0, ("A", T + "typed::Iter", 0, it(P, "RawIter"))) if aug else ("A", T + "typed::Iter", 0, it(P, "RawIter"))
    pl["keys"] = lambda P: ("A", T + "typed::Keys", 0, it(P, "RawIter"))
    pl["values"] = lambda P: ("A", T + "typed::Values", 0, it(P, "RawValues"))
    if aug:
        def by_extra(P, flow):
            return opt(P.ev("aug_dict_find_by_extra", P.root, BITS, flow),
                       lambda r: c_tup(key(P, r[3]), r[4], P.load("V", r[5])))
        pl["find_by_extra"] = by_extra

        def modify(P, e, fk, fv, c):
            r = P.mut("aug_dict_modify_from_sorted_iter", e, fk, fv, comparator, c)
            if r != no:
                P.update()
            return c_ok(r)
        pl["modify_with_sorted_iter_ext"] = modify

        def from_root(P, sl, c):
            r = P.ev("aug load_from_root", sl, BITS, c)
            return c_ok(("A", AUG, 0, c_dict(c_some(r[4])), r[3]))
        pl["load_from_root_ext"] = from_root
        return pl
    pl["modify_with_sorted_iter_ext"] = lambda P, e, fk, fv, c: c_ok(P.mut("dict_modify_from_sorted_iter", e, fk, fv, c))
    pl["get_raw"] = lambda P, k: c_ok(get(P, k))
    pl["get_raw_owned"] = lambda P, k: c_ok(P.ev("dict_get_owned", P.root, BITS, P.kd(k), EMPTY))

    def find(bound, incl):
        def f(P, k, sg):
            r = P.ev("dict_find_owned", P.root, BITS, P.kd(k), bound, incl, sg, EMPTY)
            return opt(r, lambda x: c_tup(key(P, x[3]), value(P, P.ev("apply", x[4]))))
        return f
    pl["get_next"], pl["get_prev"], pl["get_or_next"], pl["get_or_prev"] = find(mx, no), find(mn, no), find(mx, yes), find(mn, yes)

    def bound(P, b, sg, val):
        r = P.ev("dict_find_bound", P.root, BITS, b, sg, EMPTY)
        return opt(r, lambda x: c_tup(key(P, x[3]), value(P, x[4]) if val else x[4]))
    pl["get_min"] = lambda P, sg: bound(P, mn, sg, True)
    pl["get_max"] = lambda P, sg: bound(P, mx, sg, True)
    pl["get_bound_raw"] = lambda P, b, sg: bound(P, b, sg, False)

    def remove_bound(P, b, sg, c):
        r = P.mut("dict_remove_bound_owned", BITS, b, sg, c)
        return opt(r, lambda x: c_tup(key(P, x[3]), x[4]))
    pl["remove_min_raw"] = lambda P, sg: remove_bound(P, mn, sg, EMPTY)
    pl["remove_max_raw"] = lambda P, sg: remove_bound(P, mx, sg, EMPTY)
    pl["remove_bound_raw"] = lambda P, b, sg: remove_bound(P, b, sg, EMPTY)
    pl["remove_bound_raw_ext"] = remove_bound
    pl["iter_union"] = lambda P, o: ("A", T + "typed::UnionIter", 0, opq("iter", "UnionRawIter", (P.root, P.other, BITS, no, no)))
    pl["raw_iter_union"] = lambda P, o: opq("iter", "UnionRawIter", (P.root, P.other, BITS, no, no))
    pl["load_from_root_ext"] = lambda P, sl, c: c_ok(c_dict(c_some(P.ev("dict_load_from_root", sl, BITS, c))))
    return pl


def struct(p, path, **kw):
    a = [a for a in p.adts.values() if a["p"] == path]
    if len(a) != 1:
        raise Undecided("%s is not there" % path)
    return Ag(path, 0, tuple(kw[f[0]] if f[0] in kw else UNIT for f in a[0]["v"][0]["f"]))


def index(p, path, name):
    return p.field_names(path).index(name)


KINDS = {"raw": (RAWD, T + "raw::RawDict::<N>::", raw_plans), "typed": (DICT, T + "typed::Dict::<K, V>::", typed_plans),
         "aug": (AUG, T + "aug::AugDict::<K, A, V>::", lambda p: typed_plans(p, True))}


def dictionary(p, kind, root, extra="extra"):
    if kind == "raw":
        return struct(p, RAWD, **{p.field_names(RAWD)[0]: root}), (0,)
    d = struct(p, DICT, root=root)
    r = index(p, DICT, "root")
    if kind == "typed":
        return d, (r,)
    return struct(p, AUG, dict=d, extra=Opq(extra)), (index(p, AUG, "dict"), r)


def face(p, kind, name, some):
    """problems of one method, number of paths"""
    adt, pre, mk = KINDS[kind]
    plan = mk(p)[name]
    bodies = [b for b in p.bodies.values() if b["path"] == pre + name]
    if len(bodies) != 1:
        raise Undecided("%s is not there" % name)
    b = bodies[0]
    F = Face(p, b["path"])
    ip = Interp(p, [F.hook])
    ip.on_const = F.const
    st = ip.state()
    st.var("BITS", 0, 1023)
    root = Some(Opq("root")) if some else NONE
    me, path = dictionary(p, kind, root)
    st.mem[SELF] = me
    st.mem[("OTHER",)] = dictionary(p, kind, Some(Opq("root2")), "extra2")[0]
    static = name == "load_from_root_ext"
    args = [] if static else [Ref(SELF)]
    cargs = []
    for i in range(len(args), b["argc"]):
        ty = p.ty(b["locals"][i + 1][0])
        if ty[0] == "ref" and ty[2][:2] == ("adt", adt):
            args.append(Ref(("OTHER",)))
        else:
            st.mem[("ARG", i)] = Opq("arg%d" % i)
            args.append(Ref(("ARG", i)) if ty[0] == "ref" and ty[2][0] != "dyn" else Opq("arg%d" % i))
        cargs.append(opq("arg%d" % i))
    tr = ip.run(st, b, args)
    out = []
    for t in tr:
        log = t.st.mem.get(LOG, ())
        P = Plan(log, {"root": C_NONE if not some else c_some(opq("root")), "path": path, "extra": opq("extra")})
        P.other = c_some(opq("root2"))
        if t.kind != "ret":
            out.append(("panics", "%s: %s" % (b["path"], t.why)))
            continue
        got = F.canon(ip, t.st, t.val)
        judge(out, b["path"], P, lambda: plan(P, *cargs), got)
        m = F.canon(ip, t.st, Ref(SELF))
        now = m
        if kind == "aug":
            d, ex = m[3], m[4]
            now = d
            if ex != P.extra and not (P.failed and "update_root_extra" in [e[0] for e in log if e[2][0] == "err"]):
                out.append(("extra", "%s leaves %s as extra of the root instead of %s" % (b["path"], show(ex), show(P.extra))))
        if now[3] != P.root:
            out.append(("root", "%s leaves the root %s instead of %s" % (b["path"], show(now[3]), show(P.root))))
    return out, len(tr)


def judge(out, what, P, plan, got, fail=c_err):
    P.failed = False
    bad = [e for e in P.log if e[2][0] == "err"]
    full = True
    try:
        want = [plan()]
    except Failed as f:
        P.failed = True
        want = [fail(e[2][1]) for e in bad]
    except Missing:
        if not bad:
            out.append(("call", "%s does not do %s%s; it does %s" % (what, P.want[0], show_args(P.want[1]), "; ".join(e[0] + show_args(e[1]) for e in P.left) or "nothing")))
            return
        P.failed = True
        full = False
        want = [fail(e[2][1]) for e in bad]
    rest = [e for e in P.left if e[0] not in ("load_from", "load_from_data", "apply", "finish") or not bad]
    if rest and full:
        out.append(("call", "%s also does %s" % (what, "; ".join(e[0] + show_args(e[1]) for e in rest))))
    if not any(same_result(got, w) for w in want):
        out.append(("result", "%s returns %s instead of %s" % (what, show(got), " or ".join(show(w) for w in want))))


def same_result(a, w):
    if w is None:
        return not (isinstance(a, tuple) and a[:2] == ("?", "err"))
    if isinstance(w, tuple) and isinstance(a, tuple):
        return len(a) == len(w) and all(same_result(x, y) for x, y in zip(a, w))
    return a == w


def show_args(a):
    return "(%s)" % ", ".join(x if isinstance(x, str) else show(x) for x in a)


def show(c):
    if isinstance(c, tuple) and c:
        if c[0] == "?":
            return c[1] + ("(%s)" % ", ".join(show(x) for x in c[2]) if c[2] else "")
        if c[0] == "A":
            if c[1] == OPTION:
                return "Some(%s)" % show(c[3]) if c[2] else "None"
            if c[1] == RESULT:
                return "%s(%s)" % (("Ok", "Err")[c[2]], show(c[3]))
            return "%s#%d(%s)" % (str(c[1]).split("::")[-1], c[2], ", ".join(show(x) for x in c[3:]))
        if c[0] == "I":
            return str(c[1]) if not c[2] else "+".join(str(x[0]) for x in c[2]) + ("+%d" % c[1] if c[1] else "")
        return "(%s)" % ", ".join(show(x) for x in c)
    return getattr(c, "__name__", str(c))


# ------------------------------------------------------------ iterators ----
# type -> (inner raw iterator, number of values)
TYPED = {"Iter": "RawIter", "Keys": "RawIter", "Values": "RawValues", "UnionIter": "UnionRawIter", "AugIter": "RawIter"}


def iterator(p, ty, inner):
    if ty == "AugIter":
        return struct(p, T + "aug::AugIter", inner=iterator(p, "Iter", inner))
    return struct(p, T + "typed::" + ty, inner=inner)


def c_iterator(ty, inner):
    if ty == "AugIter":
        return ("A", T + "aug::AugIter", 0, c_iterator("Iter", inner))
    return ("A", T + "typed::" + ty, 0, inner)


def next_plan(ty):
    def plan(P):
        r = P.ev("next", opq("iterator", TYPED[ty]))
        if r == C_NONE:
            return C_NONE
        if r[3][2] == 1:
            P.state = anything
            return r
        x = r[3][3]
        P.state = anything
        if ty == "Values":
            return c_some(c_ok(P.load("V", x)))
        k = P.ev("load_from_data", x[3])
        if ty == "Keys":
            return c_some(c_ok(k))
        if ty == "UnionIter":
            vs = []
            for o in (x[4], x[5]):
                vs.append(C_NONE if o == C_NONE else c_some(P.load("V", o[3])))
            return c_some(c_ok(c_tup(k, *vs)))
        if ty == "AugIter":
            a = P.load("A", x[4])
            return c_some(c_ok(c_tup(k, a, P.load("V", opq("rest", "A", x[4])))))
        return c_some(c_ok(c_tup(k, P.load("V", x[4]))))
    return plan


def iterators(p, ty, what):
    inner = TYPED[ty]
    F = Face(p)
    ip = Interp(p, [F.hook])
    ip.on_const = F.const
    st = ip.state()
    st.var("BITS", 0, 1023)
    mod = "aug" if ty == "AugIter" else "typed"
    b = [b for b in p.bodies.values() if b["path"].startswith(T + mod + "::" + ty + "::<") and b["nm"] == what] if what != "next" else \
        [b for b in p.bodies.values() if b["nm"] == "next" and b.get("trait") and "Iterator" in str(p.trait_name(b) if hasattr(p, "trait_name") else b["trait"]) and self_path(p, b) == T + mod + "::" + ty]
    if len(b) != 1:
        raise Undecided("%s::%s is not there" % (ty, what))
    b = b[0]
    out = []
    if what == "new":
        st.mem[SELF] = Some(Opq("root"))
        st.mem[("OTHER",)] = Some(Opq("root2"))
        args = [Ref(SELF)] + ([Ref(("OTHER",))] if ty == "UnionIter" else [])
        roots = (c_some(opq("root")),) + ((c_some(opq("root2")),) if ty == "UnionIter" else ())
        bits = BITS
        if ty == "Values":
            args.append(Opq("bits"))
            bits = opq("bits")
        want = c_iterator(ty, opq("iter", inner, roots + (bits, c_bool(0), c_bool(0))))
        tr = ip.run(st, b, args)
    elif what in ("reversed", "signed"):
        want = c_iterator(ty, opq("iter with", what, opq("iterator", inner)))
        tr = ip.run(st, b, [iterator(p, ty, Opq("iterator", (inner,)))])
    else:
        st.mem[SELF] = iterator(p, ty, Opq("iterator", (inner,)))
        tr = ip.run(st, b, [Ref(SELF)])
    for t in tr:
        if t.kind != "ret":
            out.append(("panics", "%s::%s: %s" % (ty, what, t.why)))
            continue
        got = F.canon(ip, t.st, t.val)
        if what != "next":
            if got != want:
                out.append(("result", "%s::%s gives %s instead of %s" % (ty, what, show(got), show(want))))
            continue
        log = t.st.mem.get(LOG, ())
        P = Plan([e for e in log if e[0] != "finish"], {"root": None})
        judge(out, "%s::next" % ty, P, lambda: next_plan(ty)(P), got, lambda e: c_some(c_err(e)))
        fin = [e for e in log if e[0] == "finish"]
        if P.failed:
            ok = len(fin) == 1 and same_result(c_some(c_err(fin[0][1][1])), got)
        else:
            ok = not fin
        if not ok:
            out.append(("finish", "%s::next returns %s with %d calls of finish" % (ty, show(got), len(fin))))
        m = F.canon(ip, t.st, Ref(SELF))
        want = c_iterator(ty, opq("finished") if P.failed else opq("next", inner, 0))
        if m != want:
            out.append(("state", "%s::next leaves %s instead of %s" % (ty, show(m), show(want))))
    return out, len(tr)


def self_path(p, b):
    t = p.ty(b["self"]) if b.get("self") is not None else None
    return t[1] if t and t[0] == "adt" else None
