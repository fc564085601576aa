"""C15: augmented dictionaries."""
import c13
from dictwalk import *
from dictface import face, iterators
from par import pmap

EXPLAIN = __doc__
ASSUMPTIONS = ["rustc's MIR is what is compiled"]
_p = None


def op(kind, fn, *a):
    c13._p = _p
    return getattr(c13, kind)(fn, *a, aug=True)


class Aug:
    """reading extras and values: takes an unknown number of bits and references from the slice"""

    def __init__(s, D):
        s.D = D

    def hook(s, ip, st, c, a):
        D, f, tr = s.D, c["nm"], (c["trait"] or "").split("::")[-1]
        if f == "load_from" and tr == "Load":
            what = _p.tystr(c["self"]) if not isinstance(c["self"], str) else c["self"]
            v = D.sl(ip, st, a[0])
            if v is None or what not in ("A", "V"):
                raise Undecided("load of %s" % (what,))
            at = where(D, ip, st, v)
            b, r = used(st, what, at)
            out = []
            e = st.copy()
            out.append((e, D.error(e, "load_from")))
            if st.add(*sub(at[2], add(at[1], b))) and st.add(*sub(at[4], add(at[3], r))) and feasible(st.all_cons()):
                D.advance(ip, st, a[0], b, r)
                out.append((st, Ok(Opq("loaded", (what, at)))))
            return out
        if tr == "AugDictExtra":
            raise Undecided(f)
        if tr == "Default" and f == "default":
            return [(st, Opq("default", ()))]
        if tr == "SearchByExtra":
            xs = [extra_of(ip, st, x) for x in a[1:]]
            n = len(st.mem.get(("G", "flow"), ()))
            out = []
            E = lambda k: Ag("core::ops::ControlFlow", *k)
            outs = [(0, B(0)), (1, B(1))] if f == "on_leaf" else [(0, branch_(0)), (1, branch_(1)), (2, None)]
            for k, v in outs:
                e = st.copy()
                e.mem[("G", "flow")] = e.mem.get(("G", "flow"), ()) + ((f, tuple(xs), k),)
                if f == "on_edge":
                    v = E((0, (v,))) if v is not None else E((1, (UNIT,)))
                out.append((e, v))
            return out
        return None


def branch_(k):
    a = [a for a in _p.adts.values() if a["p"] == "tycho_types::dict::Branch"]
    names = [v["n"] for v in a[0]["v"]] if a else []
    if names != ["Left", "Right"]:
        raise Undecided("Branch")
    return Ag(a[0]["p"], k, ())


def where(D, ip, st, v):
    r = {k: y if isinstance(y, Af) else ip.var_of(st, y) for k, y in rfields(_p, v).items()}
    return (D.name(get(_p, v, "cell"), st),) + tuple(lform(r[k]) for k in ("bits_start", "bits_end", "refs_start", "refs_end"))


def used(st, what, at):
    """bits and references that a value takes: the same for the same place"""
    n = "%s%s%s" % (what, nm(at[0]), at[1])
    for k, hi in (("X" + n, MAX), ("Y" + n, 4)):
        if k not in st.vr:
            st.var(k, 0, hi)
    return (0, (("X" + n, 1),)), (0, (("Y" + n, 1),))


def extra_of(ip, st, x):
    n = 0
    while isinstance(x, Ref) and n < 5:
        x = ip.read(st, x.root, x.path)
        n += 1
    if not isinstance(x, Opq):
        raise Undecided("extra %r" % (x,))
    return (x.name,) + tuple(x.args)


def begin(depth):
    D = Dict(_p, depth, True)
    A = Aug(D)
    ip = Interp(_p, [A.hook, D.hook], max_traces=40000)
    D.ip = ip
    st = ip.state()
    st.mem[("CX",)] = Opq("ctx")
    return D, ip, st


def same_extra(st, got, want):
    """an extra that was loaded, and the region that it has to begin"""
    if isinstance(want, str):
        return want
    if got[0] != "loaded" or got[1] != "A":
        return "it is %s" % (got[0],)
    g = got[2]
    for w in want:
        if g[0] == w[0]:
            for k, x, y in zip(("starts at bit", "ends at bit", "starts at reference", "ends at reference"), g[1:], w[1:]):
                if not zero(st, sub(x, y)):
                    return "it %s %s, expected %s" % (k, show_l(x), show_l(y))
            return None
    return "it is taken from %s, not from %s" % (show_name(g[0]), show_name(want[0][0]))


def find_extra(some, depth):
    """follows what the search says at each fork"""
    fn = "aug_dict_find_by_extra"
    D, ip, st = begin(depth)
    b = the_body(_p, fn)
    st.var("n", 0, MAX)
    n = (0, (("n", 1),))
    out, kinds = [], {}
    tr = ip.run(st, b, [root_value(st, some), a16(n), Opq("flow")])
    for t in tr:
        if not common(D, t, out, fn):
            continue
        s = t.st
        flow = list(s.mem.get(("G", "flow"), ()))
        if t.val.v == 1:
            if not s.mem.get(ERRSRC) and assume_good(s.copy()):
                out.append(("fails", "%s fails although nothing failed" % fn))
            continue
        if s.mem.get(ERRSRC):
            out.append(("error", "%s succeeds although %s failed" % (fn, s.mem[ERRSRC][0])))
            continue
        v = t.val.f[0]
        if not some:
            if v.v or flow:
                out.append(("result", "%s finds something in an empty dictionary" % fn))
            continue
        if not assume_good(s):
            continue
        edges = [f for f in flow if f[0] == "on_edge"]
        broke = bool(edges) and edges[-1][2] == 2
        it = iter(edges)
        steps = descend(D, s, "", num(0), n, lambda x: next(it, (0, 0, None))[2])
        last = steps[-1]
        why = None
        if last.how == "wrong":
            why = ("label", "the label of %s is read for %s bits, %s remain" % (show_name(("n", last.path)), show_l(last.l), show_l(last.m)))
        elif len([x for x in steps if x.how == "fork"]) != len(edges) and not broke:
            why = ("result", "asks %d times at %s" % (len(edges), way(steps)))
        if not why:
            for x, e in zip([x for x in steps if x.how == "fork"], edges):
                left = sub(sub(x.m, x.L()), num(1))
                for side in (0, 1):
                    d = same_extra(s, e[1][side], region(D, s, node(x.path + str(side)), left))
                    if d:
                        why = why or ("extra", "the %s extra at %s: %s" % (("left", "right")[side], "root" + "".join("." + c for c in x.path), d))
        if not why and broke:
            kinds["break"] = 1
            if v.v:
                why = ("result", "finds something although the search was stopped")
        elif not why:
            leafs = [f for f in flow if f[0] == "on_leaf"]
            if last.how != "leaf" or len(leafs) != 1:
                why = ("result", "ends at %s (%s)" % (way(steps), last.how))
            else:
                want = region(D, s, node(last.path), last.m)
                d = same_extra(s, leafs[0][1][0], want)
                if d:
                    why = ("extra", "the extra of the leaf: " + d)
                elif v.v != leafs[0][2]:
                    why = ("result", "finds %s although the leaf is %s" % ("it" if v.v else "nothing", "wanted" if leafs[0][2] else "not wanted"))
                elif v.v:
                    kinds["leaf"] = kinds.get("leaf", 0) + 1
                    key, extra, val = v.f[0].f
                    k = ip.read(s, D.log(ip, s, key).root, D.log(ip, s, key).path) if isinstance(D.log(ip, s, key), Ref) else key
                    d = diff_items(D, s, norm(D, s, k.args[0]), norm(D, s, key_items(steps)))
                    x = extra_of(ip, s, extra)
                    at = where(D, ip, s, val)
                    bb, rr = used(s, "A", want[0])
                    if d:
                        why = ("key", "the key: " + d)
                    elif same_extra(s, x, want):
                        why = ("extra", "the extra that is returned: " + same_extra(s, x, want))
                    elif at[0] != want[0][0] or any(not zero(s, sub(p, q)) for p, q in zip(at[1:], (add(want[0][1], bb), want[0][2], add(want[0][3], rr), want[0][4]))):
                        why = ("value", "the value is not what follows the extra")
        if why:
            out.append((why[0], "%s %s" % (fn, why[1])))
    if some and (kinds.get("leaf", 0) < depth + 1 or not kinds.get("break")):
        out.append(("vacuous", "%s: %s" % (fn, kinds)))
    return out, len(tr), D.cut


def root_extra(some):
    """update_root_extra: the extra of the root, or the default for the empty dictionary"""
    fn = "update_root_extra"
    D, ip, st = begin(1)
    b = [x for x in _p.bodies.values() if x["nm"] == fn and x["path"].startswith("tycho_types::dict::aug::AugDict") and x.get("kind") != "closure"]
    if len(b) != 1:
        raise Undecided(fn)
    st.var("BITS", 0, MAX)
    n = (0, (("BITS", 1),))
    ip.on_const = lambda st, k, ty: Af(16, False, *n) if "BITS" in str(k) else None
    T = "tycho_types::dict::"
    old = Opq("old", ())
    st.mem[("SELF",)] = mkadt(_p, T + "aug::AugDict", dict=mkadt(_p, T + "typed::Dict", root=Some(node("")) if some else NONE, _key=UNIT, _value=UNIT), extra=old, _key=UNIT, _value=UNIT)
    out, kinds = [], {}
    tr = ip.run(st, b[0], [Ref(("SELF",))])
    for t in tr:
        if not common(D, t, out, fn):
            continue
        s = t.st
        x = extra_of(ip, s, get(_p, s.mem[("SELF",)], "extra"))
        root = get(_p, get(_p, s.mem[("SELF",)], "dict"), "root")
        if root.v != some or some and D.is_cell(ip, s, root.f[0]).args != ("n", ""):
            out.append(("dict", "%s changes the dictionary" % fn))
        if t.val.v == 1:
            if not s.mem.get(ERRSRC) and assume_good(s.copy()):
                out.append(("fails", "%s fails although nothing failed" % fn))
            if x[0] != "old":
                out.append(("atomic", "%s fails and changes the extra" % fn))
            continue
        if s.mem.get(ERRSRC):
            out.append(("error", "%s succeeds although %s failed" % (fn, s.mem[ERRSRC][0])))
            continue
        if not assume_good(s):
            continue
        d = (None if x[0] == "default" else "it is %s" % x[0]) if not some else same_extra(s, x, region(D, s, node(""), n))
        kinds["leaf" if some and zero(s, sub(n, (0, (("L", 1),)))) else "other"] = 1
        if d:
            out.append(("extra", "%s: the extra of %s: %s" % (fn, "the root" if some else "the empty dictionary", d)))
    if len(kinds) < 1 + some:
        out.append(("vacuous", "%s: %s" % (fn, kinds)))
    return out, len(tr), D.cut


def load_root():
    """aug load_from_root: the root that lies open in a slice becomes a cell of its own, with its extra"""
    fn = "load_from_root"
    D, ip, st = begin(1)
    b = [x for x in _p.bodies.values() if x["path"] == "tycho_types::dict::aug::load_from_root"]
    if len(b) != 1:
        raise Undecided(fn)
    st.var("n", 0, MAX)
    n = (0, (("n", 1),))
    cell = node("")
    st.var("r0", 0, 4)
    D.full(ip, st, cell)
    st.add(0, (("Nn", 1), ("r0", -1)))
    r0 = (0, (("r0", 1),))
    st.mem[("SL",)] = D.slice(ip, st, cell, r0=r0)
    C, N, L = (0, (("Cn", 1),)), (0, (("Nn", 1),)), (0, (("L", 1),))
    out, kinds = [], {}
    tr = ip.run(st, b[0], [Ref(("SL",)), a16(n), Ref(("CX",))])
    for t in tr:
        if not common(D, t, out, fn):
            continue
        s = t.st
        if t.val.v:
            if not s.mem.get(ERRSRC) and not (s.possible(1, (("Nn", -1), ("r0", 1)))):
                out.append(("fails", "%s fails although nothing failed" % fn))
            continue
        if s.mem.get(ERRSRC):
            out.append(("error", "%s succeeds although %s failed" % (fn, s.mem[ERRSRC][0])))
            continue
        if not (s.add(*sub(n, L)) and feasible(s.all_cons())):
            continue
        leaf = zero(s, sub(n, L))
        if not leaf and s.possible(*sub(L, n)):
            out.append(("result", "%s answers before it is known whether the label is the key" % fn))
            continue
        kinds[leaf] = 1
        rs = r0 if leaf else add(r0, num(2))
        at = (("n", ""), tag(""), C, rs, N)
        x = extra_of(ip, s, t.val.f[0].f[0])
        d = same_extra(s, x, [at])
        if d:
            out.append(("extra", "%s: %s" % (fn, d)))
            continue
        bb, rr = used(s, "A", at)
        eb, er = add(tag(""), bb), add(rs, rr)
        if leaf:
            bb, rr = used(s, "V", (("n", ""), eb, C, er, N))
            eb, er = add(eb, bb), add(er, rr)
        got = D.is_cell(ip, s, t.val.f[0].f[1])
        want = cellv("built", (("w", ("n", ""), num(0), eb), ("rs", ("n", ""), r0, sub(er, r0))))
        d = diff_cell(D, s, got, want) if got is not None else "no cell"
        if d:
            out.append(("cell", "%s: %s" % (fn, d[:300])))
        now = where(D, ip, s, s.mem[("SL",)])
        if any(not zero(s, sub(p, q)) for p, q in zip(now[1:], (eb, C, er, N))):
            out.append(("slice", "%s leaves the slice elsewhere than behind the root" % fn))
    if len(kinds) < 2:
        out.append(("vacuous", "%s: %d kinds of roots" % (fn, len(kinds))))
    return out, len(tr), D.cut


def merge(fn, sl, sr):
    return merge_siblings(_p, fn, True, sl, sr)


def front(kind, name, some):
    out, n = face(_p, kind, name, some)
    return [("%s.%s" % (kind, k), t) for k, t in out], n, 0


def typed_iter(ty, what):
    out, n = iterators(_p, ty, what)
    return out, n, 0


FRONT = ("get", "contains_key", "set", "set_ext", "replace", "replace_ext", "add", "add_ext", "remove", "remove_raw", "remove_raw_ext", "find_by_extra",
         "load_from_root_ext", "iter", "keys", "values", "raw_iter", "raw_keys", "raw_values", "split", "split_ext", "split_by_prefix", "split_by_prefix_ext",
         "merge_with_right_sibling", "merge_with_right_sibling_ext")
# how the extras of the two sides of a fork make that of the fork
SUM, MAX_, OR = "sum", "max", "or"
EXTRAS = {"CurrencyCollection": SUM, "ShardFeeCreated": {"fees": SUM, "create": SUM}, "KeyMaxLt": {"has_key_block": OR, "max_end_lt": MAX_},
          "DepthBalanceInfo": {"split_depth": MAX_, "balance": SUM}, "ImportFees": {"fees_collected": SUM, "value_imported": SUM}}


def combine(name):
    """the extra of a fork: each field of both sides is read, joined and written; whatever fails is passed on"""
    fn = name + "::comp_add"
    bs = [b for b in _p.bodies.values() if b["nm"] == "comp_add" and ("::" + name + " as ") in b["path"]]
    if len(bs) != 1:
        raise Undecided(fn)
    how = EXTRAS[name]
    adt = [a for a in _p.adts.values() if a["p"].split("::")[-1] == name]
    if len(adt) != 1:
        raise Undecided(name)
    adt = adt[0]
    log = ("G", "done")

    def value(side):
        fs = []
        for f in adt["v"][0]["f"]:
            ty = _p.ty(f[1]) if isinstance(f[1], int) else f[1]
            k = how.get(f[0]) if isinstance(how, dict) else None
            if k == OR:
                fs.append(B(sym((side, f[0]), 0)))
            elif k == MAX_:
                fs.append(int_sym((side, f[0]), int(str(_p.tystr(ty))[1:])))
            else:
                fs.append(Opq("field", (side, f[0])))
        return Ag(adt["p"], 0, tuple(fs))

    def key(ip, st, x):
        while isinstance(x, Ref):
            x = ip.read(st, x.root, x.path)
        if isinstance(x, Ag):
            ks = [key(ip, st, y) for y in x.f]
            if len(set(k[1] for k in ks)) == 1 and all(k[0] == "field" for k in ks):
                return ("all", ks[0][1])
            return ("mixed",)
        if isinstance(x, Opq):
            return (x.name,) + tuple(x.args)
        if isinstance(x, (Bv, Af)):
            return ("int", repr(x))
        raise Undecided("part %r" % (x,))

    def hook(ip, st, c, a):
        f, tr = c["nm"], (c["trait"] or "").split("::")[-1]
        if f == "load_from" and tr == "Load":
            r = a[0]
            x = ip.read(st, r.root, r.path)
            while isinstance(x, Ref):
                r, x = x, ip.read(st, x.root, x.path)
            if not (isinstance(x, Opq) and x.name == "slice") or x.args[1]:
                raise Undecided("what is read")
            e = st.copy()
            e.mem[log] = e.mem.get(log, ()) + ("load_from",)
            ip.write(st, r.root, r.path, Opq("slice", (x.args[0], 1)))
            return [(st, Ok(value(x.args[0]))), (e, Err(Opq("error")))]
        if f == "checked_add":
            ks = tuple(sorted((key(ip, st, a[0]), key(ip, st, a[1]))))
            e = st.copy()
            e.mem[log] = e.mem.get(log, ()) + ("checked_add",)
            ret = _p.ty(c["retty"]) if isinstance(c["retty"], int) else c["retty"]
            opt = "Option" in str(ret)
            return [(st, Some(Opq("sum", ks)) if opt else Ok(Opq("sum", ks))), (e, NONE if opt else Err(Opq("error")))]
        if f == "store_into" and tr == "Store":
            x = a[0]
            while isinstance(x, Ref):
                x = ip.read(st, x.root, x.path)
            bl = a[1]
            if not (isinstance(bl, Ref) and bl.root == ("B",)) or not (isinstance(a[2], Ref) and a[2].root == ("CX",)):
                raise Undecided("where it is written")
            st.mem[("G", "stored")] = st.mem.get(("G", "stored"), ()) + (x,)
            e = st.copy()
            e.mem[log] = e.mem.get(log, ()) + ("store_into",)
            return [(st, Ok(UNIT)), (e, Err(Opq("error")))]
        return None
    ip = Interp(_p, [hook])
    st = ip.state()
    for k in "LR":
        st.mem[(k,)] = Opq("slice", (k, 0))
    st.mem[("B",)], st.mem[("CX",)] = Opq("builder"), Opq("ctx")
    tr = ip.run(st, bs[0], [Ref(("L",)), Ref(("R",)), Ref(("B",)), Ref(("CX",))])
    out, ok = [], 0
    for t in tr:
        if t.kind != "ret":
            out.append(("panic", "%s: %s" % (fn, t.why)))
            continue
        s = t.st
        failed = s.mem.get(log, ())
        if bool(t.val.v) != bool(failed):
            out.append(("error", "%s %s although %s" % (fn, "fails" if t.val.v else "succeeds", "%s failed" % failed[0] if failed else "nothing failed")))
            continue
        if t.val.v:
            continue
        xs = s.mem.get(("G", "stored"), ())
        if len(xs) != 1:
            out.append(("stored", "%s writes %d values" % (fn, len(xs))))
            continue
        ok += 1
        x = xs[0]
        if how == SUM:
            if key(ip, s, x) != ("sum", ("all", "L"), ("all", "R")):
                out.append(("sum", "%s writes %r, not the sum" % (fn, key(ip, s, x))))
            continue
        if not (isinstance(x, Ag) and x.k == adt["p"]):
            out.append(("stored", "%s writes something else" % fn))
            continue
        for i, f in enumerate(adt["v"][0]["f"]):
            k, y = how[f[0]], x.f[i]
            if k == SUM:
                if key(ip, s, y) != ("sum", ("field", "L", f[0]), ("field", "R", f[0])):
                    out.append(("sum", "%s: %s is not the sum of both sides" % (fn, f[0])))
            elif k == OR:
                bad = tables_differ(ip, s, y, f[0])
                if bad:
                    out.append(("or", "%s: %s is not set exactly when one side has it" % (fn, f[0])))
            else:
                d = not_max(ip, s, y, f[0])
                if d:
                    out.append(("max", "%s: %s %s" % (fn, f[0], d)))
    if not ok:
        out.append(("vacuous", fn))
    return out, len(tr), 0


def tables_differ(ip, st, y, f):
    """y | !(l or r), over the bits of both sides"""
    for a in (0, 1):
        for b in (0, 1):
            e = st.copy()
            if e.bit(sym(("L", f), 0)) == 1 - a or e.bit(sym(("R", f), 0)) == 1 - b:
                continue
            e.asm[sym(("L", f), 0)], e.asm[sym(("R", f), 0)] = a, b
            if e.bit(ip.bits(e, y)[0]) != (a | b):
                return True
    return False


def not_max(ip, st, y, f):
    w = y.w
    L, R = (ip.affine(st, int_sym((k, f), w)) or ip.var_of(st, int_sym((k, f), w)) for k in "LR")
    Y = ip.affine(st, y) or ip.var_of(st, y)
    d = [sub(lform(Y), lform(x)) for x in (L, R)]
    if not all(st.holds(*x) for x in d):
        return "may be smaller than that of one side"
    if not any(zero(st, x) for x in d):
        return "is that of neither side"
    return None


def search(who):
    """ready-made searches: a branch always goes to that side; an ordering goes left where the extras of left and right compare so"""
    bs = [b for b in _p.bodies.values() if b["nm"] == "on_edge" and b["path"].startswith("<%s as" % {"Branch": "tycho_types::dict::Branch", "Ordering": "core::cmp::Ordering"}[who])]
    dflt = [b for b in _p.bodies.values() if b["path"] == "tycho_types::dict::SearchByExtra::on_leaf"]
    if len(bs) != 1 or len(dflt) != 1:
        raise Undecided(who)
    out, n = [], 0
    ords = [Ag("core::cmp::Ordering", k, ()) for k in range(3)] if who == "Ordering" else [branch_(0), branch_(1)]
    for me in ords:
        def hook(ip, st, c, a):
            if c["nm"] == "cmp" and (c["trait"] or "").endswith("Ord"):
                ks = []
                for x in a:
                    while isinstance(x, Ref):
                        x = ip.read(st, x.root, x.path)
                    ks.append(x.args[0])
                if ks not in (["L", "R"], ["R", "L"]):
                    raise Undecided("compares %r" % (ks,))
                res = []
                for k in range(3):
                    e = st.copy()
                    e.mem[("G", "order")] = k if ks == ["L", "R"] else 2 - k
                    res.append((e, Ag("core::cmp::Ordering", k, ())))
                return res
            if c["nm"] in ("eq", "ne") and isinstance(a[0], Ref):
                x, y = a
                while isinstance(x, Ref):
                    x = ip.read(st, x.root, x.path)
                while isinstance(y, Ref):
                    y = ip.read(st, y.root, y.path)
                if isinstance(x, Ag) and isinstance(y, Ag) and not x.f and not y.f:
                    return [(st, B(int((x.v == y.v) == (c["nm"] == "eq"))))]
            return None
        ip = Interp(_p, [hook])
        st = ip.state()
        st.mem[("ME",)], st.mem[("XL",)], st.mem[("XR",)] = me, Opq("x", ("L",)), Opq("x", ("R",))
        for t in ip.run(st, bs[0], [Ref(("ME",)), Ref(("XL",)), Ref(("XR",))]):
            n += 1
            if t.kind != "ret":
                out.append(("panic", "%s::on_edge: %s" % (who, t.why)))
                continue
            v = t.val
            if who == "Branch":
                want = me.v
            else:
                o = t.st.mem.get(("G", "order"))
                want = 0 if o == me.v else 1
                if o is None:
                    out.append(("search", "Ordering::on_edge does not compare the extras"))
                    continue
            if v.v != 0 or v.f[0].v != want:
                out.append(("search", "%s::on_edge goes the wrong way" % who))
        ip = Interp(_p, [hook])
        st = ip.state()
        st.mem[("ME",)], st.mem[("XL",)] = me, Opq("x", ("L",))
        for t in ip.run(st, dflt[0], [Ref(("ME",)), Ref(("XL",))]):
            n += 1
            if t.kind != "ret" or t.st.bit(ip.bits(t.st, t.val)[0]) != 1:
                out.append(("search", "the leaf that is found is not accepted"))
    over = [b for b in _p.bodies.values() if b["nm"] == "on_leaf" and b.get("trait") and (who + " as") in b["path"]]
    if over:
        raise Undecided("%s has its own on_leaf" % who)
    return out, n, 0


def jobs(tier):
    dp = 2 if tier == "quick" else 3
    js = []
    for some in (0, 1):
        js.append(("find_extra", some, dp))
        for mode in c13.MODES:
            js.append(("op", "insert", "aug_dict_insert", some, mode, dp))
        js.append(("op", "remove", "aug_dict_remove_owned", some, dp))
        js.append(("root_extra", some))
        for other in (0, 1):
            js.append(("merge", "aug_dict_merge_siblings", some, other))
        for name in FRONT:
            js.append(("front", "aug", name, some))
    js.append(("load_root",))
    for what in ("new", "reversed", "signed", "next"):
        js.append(("typed_iter", "AugIter", what))
    for name in EXTRAS:
        js.append(("combine", name))
    for who in ("Branch", "Ordering"):
        js.append(("search", who))
    return js


def any_job(j):
    try:
        out, n, cut = globals()[j[0]](*j[1:])
    except GIVE_UP as e:
        return j, [("undecided", "%s: %s" % (type(e).__name__, e))], 0
    return j, out, n


def many(js):
    return [any_job(j) for j in js]


def check(cx):
    global _p
    _p = cx.prog("main")
    js = jobs(cx.tier)
    for r in pmap(many, [[j] for j in js]):
        for j, pr, n in r:
            cx.count("cases")
            cx.count("paths", n)
            for kind, text in pr:
                who = {"op": lambda: j[2], "front": lambda: j[2], "load_root": lambda: "load_from_root", "root_extra": lambda: "update_root_extra",
                       "find_extra": lambda: "aug_dict_find_by_extra"}.get(j[0], lambda: j[1])()
                cx.bad("%s:%s" % (who, kind), text)
    cx.floor("cases", 75)
    cx.floor("paths", 1500)
