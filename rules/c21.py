"""Sizes of cell trees and the fees for them.  The functions that count cells are followed on the compiler's MIR over trees that unfold
lazily, with every way in which cells can be shared; the counts are compared with the distinct cells of the tree, as linear sums of the
bits of the cells.  Fees are followed as terms (products of symbols are opaque, sums that saturate are named), compared with the formulas."""
from treecore import *
from par import pmap

EXPLAIN = __doc__
ASSUMPTIONS = ["rustc's MIR is what is compiled", "cells with the same representation hash are the same cell", "slices follow C06"]
_p = None
CELL = "tycho_types::cell::"
STAT, STATS = CELL + "StorageStat", CELL + "CellTreeStats"


def method(ty, nm, trait=None):
    bs = _p.method(ty, nm, trait) if trait else [b for b in _p.method(ty, nm)]
    if len(bs) != 1:
        raise Undecided("%d functions %s::%s" % (len(bs), ty, nm))
    return bs[0]


class Count(Tree):
    """references are iterated by the code itself"""

    def hook(s, ip, st, c, a):
        nm = c["nm"]
        if a and nm in ("by_ref", "into_iter"):
            v = a[0]
            for _ in range(4):
                if isinstance(v, Ref):
                    v = ip.read(st, v.root, v.path)
            if isinstance(v, Ag) and str(v.k).endswith("RefsIter"):
                return [(st, a[0])]
        if a and nm in ("next", "len", "size_hint"):
            r = a[0]
            while isinstance(r, Ref) and isinstance(ip.read(st, r.root, r.path), Ref):
                r = ip.read(st, r.root, r.path)
            v = ip.read(st, r.root, r.path) if isinstance(r, Ref) else r
            if isinstance(v, Ag) and str(v.k).endswith("RefsIter"):
                b = [x for x in _p.bodies.values() if x["nm"] == nm and x["path"].startswith("<tycho_types::cell::RefsIter<")]
                if len(b) == 1 and c.get("body") is not b[0]:
                    return [("inline", st, b[0], {}, [r], None)]
        if a and nm in ("compute_unique_stats", "references", "size_bits", "cell"):
            v = s.val(ip, st, a[0])
            if isinstance(v, Opq) and v.name == "slice" and nm == "cell":
                return [(st, s.ref(st, v.args[0]))]
            if isinstance(v, Opq) and v.name in ("cell", "slice") and nm == "references":
                t = v.args[0]
                return [(x, mkadt(_p, CELL + "RefsIter", cell=s.ref(x, t), max=K(m, 8), index=K(0, 8))) for x, m in s.refs(st, t[1])]
        if a and c["path"].startswith(("tycho_types::cell::StorageStat", "tycho_types::cell::slice::CellSlice")) and nm.startswith(("compute_", "add_")):
            return None
        return Tree.hook(s, ip, st, c, a)


def begin(**kw):
    T = Count(_p, **kw)
    ip = Interp(_p, [T.hook], max_steps=6000000, max_traces=200000)
    ip.recursion = 8
    return T, ip, T.start(ip)


def reach(T, st, roots, own):
    """distinct cells below the roots (and the roots themselves): (list, complete)"""
    seen, todo, full = [], [T.canon(st, r) for r in roots], True
    if not own:
        todo, full = kids(T, st, todo[0])
    while todo:
        i = T.canon(st, todo.pop())
        if i in seen:
            continue
        seen.append(i)
        more, ok = kids(T, st, i)
        todo += more
        full = full and ok
    return seen, full


def kids(T, st, i):
    k = st.mem.get(("refs", i))
    if k is None:
        return [], False
    out, ok = [], True
    for x in range(k):
        c = i + str(x)
        if ("known", c) in st.mem or ("alias", c) in st.mem:
            out.append(T.canon(st, c))
        else:
            ok = False
    return out, ok


def lin_of(ip, st, v):
    a = ip.affine(st, v)
    return a.c, tuple(sorted(a.t))


def plus(items):
    c, d = 0, {}
    for x, t in items:
        c += x
        for k, m in t:
            d[k] = d.get(k, 0) + m
    return c, tuple(sorted((k, m) for k, m in d.items() if m))


def judge(T, ip, st, what, stats, base, cells, full, limit, ok):
    """counts against the distinct cells"""
    out = []
    if not ok:
        # the limit was reached: more distinct cells were seen than it allows
        if not cells or not st.holds(len(cells) - 1 - limit.c, tuple((k, -m) for k, m in limit.t)):
            out.append(("stops", "%s gives up at %d cells although the limit may be higher" % (what, len(cells))))
        return out
    if not full:
        return [("missed", "%s does not look at every cell: %s" % (what, cells))]
    if stats is None:
        return out
    want = plus([base] + [(0, (("bits%s" % (n(i),), 1),)) for i in cells])
    have = lin_of(ip, st, get(_p, stats, "bit_count"))
    num = lin_of(ip, st, get(_p, stats, "cell_count"))
    if num != (len(cells), ()):
        out.append(("cells", "%s counts %s cells of %d (%s)" % (what, num[0], len(cells), cells)))
    elif have != want:
        out.append(("bits", "%s counts the bits %s, expected %s" % (what, have, want)))
    if cells and not st.holds(limit.c - len(cells), limit.t):
        out.append(("exceeds", "%s counts %d cells although the limit may be lower" % (what, len(cells))))
    return out


def size(i):
    return "size_bits%s" % ((n(i),),)


def lim(st):
    st.var("limit", 0, 2 ** 64 - 1)
    return Af(64, False, 0, (("limit", 1),))


def compute(who, total, width=3):
    """statistics of one tree"""
    ty, nm = who.split("::")
    if ty == "DynCell":
        bs = [b for b in _p.bodies.values() if b["nm"] == nm and "CellImpl" in b["path"] and not b.get("trait")]
        if len(bs) != 1:
            raise Undecided(who)
        b = bs[0]
    else:
        b = method(ty, nm)
    own = "slice" not in who and "Slice" not in who
    T, ip, st = begin(depth=4, total=total, width=width)
    l = lim(st)
    if own:
        x = T.ref(st, n("r"))
    else:
        st.mem[("SL",)] = Opq("slice", (n("r"), 0, 0))
        x = Ref(("SL",))
    probs, m = [], 0
    for t in ip.run(st, b, [x, l]):
        m += 1
        if t.kind == "panic":
            probs.append(("panic", "%s can panic (%s)" % (who, (t.why or "?")[0])))
            continue
        base = (0, ()) if own else (0, ((size("r"), 1),))
        cells, full = reach(T, t.st, ["r"], own)
        r = t.val
        if not isinstance(r, Ag):
            raise Undecided("result %s" % (r,))
        if t.st.flags:
            probs.append(("wraps", "%s: %s" % (who, flags_text(t.st))))
        probs += judge(T, ip, t.st, who, r.f[0] if r.v else None, base, cells, full, l, bool(r.v))
    return probs, m


def several(kinds, total):
    """cells and slices added one after another: cells of all of them count once"""
    roots = ["r", "q"][:len(kinds)]
    T, ip, st = begin(depth=3, total=total, width=2, roots=tuple(roots))
    l = lim(st)
    for r in roots:
        st.mem[("known", r)] = True
    st.mem[("THIS",)] = ip.run(st.copy(), method("StorageStat", "with_limit"), [l])[0].val
    probs, m = [], 0
    todo = [(st, (), (0, ()), [])]
    what = "StorageStat " + "+".join(kinds)
    for k, r in zip(kinds, roots):
        nxt = []
        for st, seen, base, _ in todo:
            if k == "add_cell":
                x = T.ref(st, n(r))
            else:
                st.mem[("SL", r)] = Opq("slice", (n(r), 0, 0))
                x = Ref(("SL", r))
            for t in ip.run(st, method("StorageStat", k), [Ref(("THIS",)), x]):
                m += 1
                if t.kind == "panic":
                    probs.append(("panic", "%s can panic (%s)" % (what, (t.why or "?")[0])))
                    continue
                ok = bit_of(ip, t.st, t.val)
                if ok not in (0, 1):
                    raise Undecided("result %s" % (t.val,))
                cells = list(seen)
                got, full = reach(T, t.st, [r], k == "add_cell")
                cells += [c for c in got if c not in cells]
                b2 = plus([base, (0, ((size(r), 1),))]) if k == "add_slice" else base
                this = ip.read(t.st, ("THIS",), ())
                stt = ip.run(t.st.copy(), method("StorageStat", "stats"), [Ref(("THIS",))])
                if len(stt) != 1:
                    raise Undecided("stats")
                probs += judge(T, ip, t.st, what, stt[0].val, b2, cells, full, l, ok)
                if t.st.flags:
                    probs.append(("wraps", "%s: %s" % (what, flags_text(t.st))))
                if ok:
                    nxt.append((t.st, tuple(cells), b2, this))
        todo = nxt
    return probs, m


CFG = "tycho_types::models::config::params::"
MAX128, MAX64 = 2 ** 128 - 1, 2 ** 64 - 1


def plain(uninterp=True):
    ip = Interp(_p, [])
    ip.uninterp = uninterp
    st = ip.state()

    def var(nm, w):
        st.var(nm, 0, 2 ** w - 1)
        return Af(w, False, 0, ((nm, 1),))
    return ip, st, var


def cap(ip, st, x, what, probs):
    """the value at which a sum or product of 128 bits stops"""
    c, t = x
    if st.holds(MAX128 - c, tuple((k, -m) for k, m in t)):
        return x
    if st.holds(c - MAX128, t):
        return MAX128, ()
    probs.append(("saturates", "%s: it is not decided whether the amount is above 128 bits" % what))
    return x


def times(ip, st, x, y):
    """the true product, above 128 bits too"""
    r = ip.arith(st, "Mul", Af(400, False, x[0], x[1]), Af(400, False, y[0], y[1]), 400, False)
    if len(r) != 1:
        raise Undecided("product")
    v = r[0][1]
    return v.c, v.t


def neg(x):
    return -x[0], tuple((k, -m) for k, m in x[1])


def scale(x, k):
    return x[0] * k, tuple((v, k * m) for v, m in x[1])


def check_ceil(st, r, x, up, what, probs):
    """r is x / 2^16, rounded up or down"""
    d = plus([scale(r, 65536), neg(x)])
    lo, hi = (0, 65535) if up else (-65535, 0)
    if not (st.holds(d[0] - lo, d[1]) and st.holds(hi - d[0], neg(d)[1])):
        probs.append(("formula", "%s gives %s, expected a 65536th of %s, rounded %s" % (what, r, x, "up" if up else "down")))


def fee(which):
    """one price as the formula"""
    ip, st, var = plain()
    stats = mkadt(_p, STATS, bit_count=var("bits", 64), cell_count=var("cells", 64))
    V = lambda nm: (0, ((nm, 1),))
    used = K(0)
    if which.startswith("storage"):
        mc = which.endswith("mc")
        names = ["bit_price_ps", "cell_price_ps", "mc_bit_price_ps", "mc_cell_price_ps"]
        x = mkadt(_p, CFG + "StoragePrices", utime_since=var("utime_since", 32), **{k: var(k, 64) for k in names})
        b, args = method("StoragePrices", "compute_storage_fee"), [K(int(mc), 1), var("delta", 64), stats]
        bp, cp = ("mc_bit_price_ps", "mc_cell_price_ps") if mc else ("bit_price_ps", "cell_price_ps")
    elif which == "gas":
        names = ["gas_price", "gas_limit", "special_gas_limit", "gas_credit", "block_gas_limit", "freeze_due_limit", "delete_due_limit", "flat_gas_limit", "flat_gas_price"]
        x = mkadt(_p, CFG + "GasLimitsPrices", **{k: var(k, 64) for k in names})
        b, args = method("GasLimitsPrices", "compute_gas_fee"), [var("used", 64)]
    else:
        x = mkadt(_p, CFG + "MsgForwardPrices", lump_price=var("lump_price", 64), bit_price=var("bit_price", 64), cell_price=var("cell_price", 64), ihr_price_factor=var("ihr", 32),
                  first_frac=var("first_frac", 16), next_frac=var("next_frac", 16))
        if which == "forward":
            b, args = method("MsgForwardPrices", "compute_fwd_fee"), [stats]
        else:
            tok = "tycho_types::num::Tokens"
            b, args = method("MsgForwardPrices", "get_%s_part" % which), [Ag(tok, 0, (var("total", 128),))]
    st.mem[("X",)] = x
    probs, k = [], 0
    for t in ip.run(st, b, [Ref(("X",))] + args):
        k += 1
        if t.kind == "panic":
            probs.append(("panic", "the %s fee can panic (%s)" % (which, (t.why or "?")[0])))
            continue
        v = t.val
        while isinstance(v, Ag) and len(v.f) == 1:
            v = v.f[0]
        st = t.st
        r = ip.affine(st, v)
        if r is None:
            raise Undecided("result %s" % (t.val,))
        r = (r.c, tuple(r.t))
        what = "the %s fee" % which
        if st.flags:
            probs.append(("wraps", "%s: %s" % (what, flags_text(st))))
        if which.startswith("storage"):
            y = plus([times(ip, st, V("cells"), V(cp)), times(ip, st, V("bits"), V(bp))])
            y = cap(ip, st, y, what, probs)
            y = cap(ip, st, times(ip, st, y, V("delta")), what, probs)
            check_ceil(st, r, y, True, what, probs)
        elif which == "gas":
            d = (0, (("used", 1), ("flat_gas_limit", -1)))
            if st.holds(-d[0], neg(d)[1]):
                if r != V("flat_gas_price"):
                    probs.append(("formula", "%s below the flat limit is %s" % (what, r)))
            elif st.holds(d[0], d[1]):
                check_ceil(st, plus([r, neg(V("flat_gas_price"))]), times(ip, st, V("gas_price"), d), True, what, probs)
            else:
                probs.append(("formula", "%s does not compare with the flat limit" % what))
        elif which == "forward":
            y = plus([times(ip, st, V("cells"), V("cell_price")), times(ip, st, V("bits"), V("bit_price"))])
            y = cap(ip, st, y, what, probs)
            check_ceil(st, plus([r, neg(V("lump_price"))]), y, True, what, probs)
        else:
            y = cap(ip, st, times(ip, st, V("total"), V(which + "_frac")), what, probs)
            check_ceil(st, r, y, False, what, probs)
    return probs, k


ARITH = [("CellTreeStats", nm, o) for nm in ("add", "sub", "add_assign", "sub_assign") for o in ("CellTreeStats", "Size")] + \
    [("Size", nm, "Size") for nm in ("saturating_add", "saturating_sub")]


def arith(ty, nm, other):
    """sums and differences of sizes, part by part, stopping at the bounds"""
    path = CELL + ty
    bs = [b for b in _p.bodies.values() if b["nm"] == nm and (
        b["path"].startswith("<%s as core::ops::arith::" % path) and ("<%sSize>" % CELL in b["path"].split(" as ")[1]) == (other != ty) or b["path"] == "%s::%s" % (path, nm))]
    if len(bs) != 1:
        if ty == "CellTreeStats" and nm == "sub" and other == "Size" and not bs:
            return [], 1
        raise Undecided("%d functions %s" % (len(bs), (ty, nm, other)))
    ip, st, var = plain()
    fs = {"CellTreeStats": ("bit_count", "cell_count"), "Size": ("bits", "refs")}
    w = {"bit_count": 64, "cell_count": 64, "bits": 16, "refs": 8}
    x = mkadt(_p, path, **{f: var("x" + f, w[f]) for f in fs[ty]})
    y = mkadt(_p, CELL + other, **{f: var("y" + f, w[f]) for f in fs[other]})
    st.mem[("X",)] = x
    assign = nm.endswith("assign")
    probs, k = [], 0
    what = "%s of %s and %s" % (nm, ty, other)
    for t in ip.run(st, bs[0], [Ref(("X",)) if assign else x, y]):
        k += 1
        if t.kind == "panic":
            probs.append(("panic", "%s can panic" % what))
            continue
        v = ip.read(t.st, ("X",), ()) if assign else t.val
        for f, g in zip(fs[ty], fs[other]):
            r = ip.affine(t.st, get(_p, v, f))
            r = (r.c, tuple(sorted(r.t)))
            top = 2 ** w[f] - 1
            z = plus([(0, (("x" + f, 1),)), (0, (("y" + g, -1 if "sub" in nm else 1),))])
            if t.st.holds(z[0], z[1]) and t.st.holds(top - z[0], neg(z)[1]):
                ok = r == z
            elif t.st.holds(-z[0], neg(z)[1]):
                ok = r == (0, ())
            elif t.st.holds(z[0] - top, z[1]):
                ok = r == (top, ())
            else:
                ok = False
            if not ok:
                probs.append(("arith", "%s: %s becomes %s, expected %s" % (what, f, r, z)))
    return probs, k


def used():
    """the storage of an account"""
    b = method("StorageUsed", "compute")
    ip = Interp(_p, [])
    log = ("G", "items")
    CC = "tycho_types::models::currency::CurrencyCollection"

    def hook(ip, st, c, a):
        nm = c["nm"]
        v = a[0] if a else None
        d = 0
        while isinstance(v, Ref) and d < 6:
            try:
                v = ip.read(st, v.root, v.path)
            except Undecided:
                break
            d += 1
        either = lambda x: [(st, Ok(x)), (fail(st), Ag(RESULT, 1, (Opq("err"),)))]

        def fail(st):
            t = st.copy()
            t.mem[FAIL] = nm
            return t

        def put(x):
            t = st.copy()
            t.mem[log] = t.mem.get(log, ()) + (x,)
            return [(t, Ok(UNIT)), (fail(st), Ag(RESULT, 1, (Opq("err"),)))]
        if nm == "empty_context":
            return [(st, Opq("cx"))]
        if nm in ("new", "default") and "CellBuilder" in c["path"]:
            return [(st, Opq("builder"))]
        if nm == "store_u64":
            x = ip.affine(st, a[1])
            return put((64, x.c, tuple(x.t)))
        if nm == "store_into" and isinstance(v, Opq) and v.name == "f":
            return put(v.args)
        if nm == "store_into" and isinstance(v, Ag) and v.k == CC:
            return put(("balance",) if [x.args for x in v.f] == [("balance.tokens",), ("balance.other",)] else ("another balance",))
        if nm in ("build_ext", "build"):
            return either(Opq("account cell"))
        if nm in ("as_ref", "deref", "borrow"):
            return [(st, a[0])]
        if nm in ("compute_unique_stats", "compute_for_cell") and isinstance(v, Opq) and v.name == "account cell":
            x = ip.affine(st, a[1])
            st.mem[("G", "limit")] = (x.c, tuple(x.t))
            t = st.copy()
            t.mem[FAIL] = "limit"
            return [(st, Some(mkadt(_p, STATS, bit_count=Af(64, False, 0, (("bits", 1),)), cell_count=Af(64, False, 0, (("cells", 1),))))), (t, NONE)]
        return None
    ip.hooks = [hook]
    st = ip.state()
    st.var("bits", 0, MAX64), st.var("cells", 0, MAX64), st.var("lt", 0, MAX64), st.var("limit", 0, MAX64)
    st.mem[("A",)] = mkadt(_p, "tycho_types::models::account::Account", address=Opq("f", ("address",)), storage_stat=Opq("f", ("storage_stat",)),
                           last_trans_lt=Af(64, False, 0, (("lt", 1),)), balance=mkadt(_p, CC, tokens=Opq("f", ("balance.tokens",)), other=Opq("f", ("balance.other",))), state=Opq("f", ("state",)))
    probs, k = [], 0
    want = ((64, 0, (("lt", 1),)), ("balance",), ("state",))
    for t in ip.run(st, b, [Ref(("A",)), Af(64, False, 0, (("limit", 1),))]):
        k += 1
        if t.kind == "panic":
            probs.append(("panic", "StorageUsed::compute can panic"))
            continue
        ok = t.val.v == 0
        if t.st.mem.get(FAIL):
            if ok:
                probs.append(("error", "an error of %s is not reported" % t.st.mem[FAIL]))
            continue
        if t.st.mem.get(log) != want or t.st.mem.get(("G", "limit")) != (0, (("limit", 1),)):
            probs.append(("counted", "the storage of an account is counted of %s with the limit %s, expected %s" % (t.st.mem.get(log), t.st.mem.get(("G", "limit")), want)))
            continue
        fits = t.st.holds(2 ** 56 - 1, (("bits", -1),)) and t.st.holds(2 ** 56 - 1, (("cells", -1),))
        never = t.st.holds(-2 ** 56, (("bits", 1),)) or t.st.holds(-2 ** 56, (("cells", 1),))
        if ok:
            x = t.val.f[0]
            got = []
            for f in ("cells", "bits"):
                y = get(_p, x, f)
                y = ip.affine(t.st, y.f[0])
                got.append((y.c, tuple(y.t)))
            if got != [(0, (("cells", 1),)), (0, (("bits", 1),))]:
                probs.append(("used", "the storage used is %s" % got))
            if not fits:
                probs.append(("used", "counts above 56 bits are accepted"))
        elif not never:
            probs.append(("used", "the storage used is refused although the counts fit"))
    return probs, k


def jobs(tier):
    js = []
    top = 5 if tier == "quick" else 6
    for w in ("DynCell::compute_unique_stats", "CellSlice::compute_unique_stats", "StorageStat::compute_for_cell", "StorageStat::compute_for_slice"):
        js += [("compute", w, top), ("compute", w, top, 1)]
    for a in ("add_cell", "add_slice"):
        for b in ("add_cell", "add_slice"):
            js.append(("several", (a, b), top))
    js += [("fee", x) for x in ("storage", "storage mc", "gas", "forward", "first", "next")]
    js += [("arith",) + x for x in ARITH] + [("used",)]
    return js


def any_job(j):
    try:
        probs, k = globals()[j[0]](*j[1:])
    except GIVE_UP as x:
        return j, [("undecided", "%s: %s: %s" % (j, type(x).__name__, x))], 0
    if k == 0 and not probs:
        probs = [("vacuous", "%s: nothing was analysed" % (j,))]
    return j, probs, k


def many(js):
    return [any_job(j) for j in js]


def load(prog):
    global _p
    _p = prog


def check(cx):
    load(cx.prog("main"))
    js = jobs(cx.tier)
    for r in pmap(many, [js[i::12] for i in range(12)]):
        for j, pr, k in r:
            cx.count("cases")
            cx.count("paths", k)
            if cx.counts["cases"] % 3 == 1:
                cx.sample("%s: %d paths" % (j, k))
            name = j[1] if j[0] == "compute" else "+".join(j[1]) if j[0] == "several" else ".".join(str(x) for x in j)
            seen = set()
            for kind, text in pr:
                if (kind, text) not in seen:
                    seen.add((kind, text))
                    cx.bad("%s:%s" % (name, kind), text)
    cx.floor("cases", 27)
    cx.floor("paths", 200)
