"""ABI values.  The serializer and the parser of ABI values are followed on the compiler's MIR for every kind of value and every ABI
version: what is written into a builder and what is read from a slice are logs of pieces with their widths, integers of unbounded size,
nested values and dictionaries are terms.  Both logs are compared with the layout of the kind.  The space reserved for a value before
it is written, the space demanded while it is written, the pieces written and the maximum of its type are compared as linear
expressions, and the placement of a value into cells with the packing rule of the version."""
from abicore import *
from par import pmap

EXPLAIN = __doc__
ASSUMPTIONS = ["rustc's MIR is what is compiled", "num-bigint's byte conversions are those documented",
               "primitives of builders and slices follow C06, dictionaries C13 and C14, addresses and amounts C04 and C05",
               "a value is one of the type it is serialized as; nested values by induction"]
_p = None
VERSIONS = [(1, 0), (2, 0), (2, 1), (2, 2), (2, 3), (3, 0)]
KINDS = ["Uint", "Int", "Bool", "Cell", "Address", "Token", "Ref"]
MAXADDR, MAXTOK = 591, 124


def lenbits(n):
    return (n - 1).bit_length()


def one(paths):
    if len(paths) != 1:
        raise Undecided("%d functions instead of one" % len(paths))
    return paths[0]


def fn(ty, nm):
    return one(_p.method(ty, nm))


def free(suffix):
    return one([b for b in _p.bodies.values() if b["path"].endswith(suffix)])


def engine(targets, fail=True, cls=Abi):
    e = cls(_p, targets, fail)
    e.maxof = {"addr": MAXADDR, "tok": MAXTOK}
    ip = Interp(_p, [e.hook])
    ip.recursion = 2
    ip.opaque_field = lambda st, v, i: v if isinstance(v, (Ref, Opq)) else None
    return e, ip


def ref_root(items):
    """the term of a cell with these items"""
    return ("cell", ("built", tuple(items)))


# ------------------------------------------------------------------ values --
class Case:
    """a value of a kind: how to make it, the pieces written, the maximum size"""

    def __init__(s, val, ty, items, most, fits=None):
        s.val, s.ty, s.items, s.most, s.fits = val, ty, items, most, fits


def make(e, st, kind, arg, ver):
    big = ver >= (2, 2)
    T = ("tb:T", "tr:T")
    if kind in ("Uint", "Int"):
        st.var("n", 0, 1023)
        n = (0, (("n", 1),))
        it = Item("biguint" if kind == "Uint" else "bigint", (("big", "A"), (int(kind == "Int"), ())), n)
        w = Af(16, False, *n)
        return Case(e.variant(AV, kind, w, Opq("big", ("A",))), e.variant(AT, kind, w), [it], (n, ZERO))
    if kind in ("VarUint", "VarInt"):
        pre = "ub:A" if kind == "VarUint" else "sb:A"
        st.var(pre, 1, 64 if arg < 64 else 300)
        nb = (0, ((pre, 1),))
        fnm = "to_bytes_be" if kind == "VarUint" else "to_signed_bytes_be"
        its = [Item("u", nb, (lenbits(arg), ())), Item("raw", (("BYTES", fnm, ("A",)), ZERO), (0, ((pre, 8),)))]
        return Case(e.variant(AV, kind, K(arg, 8), Opq("big", ("A",))), e.variant(AT, kind, K(arg, 8)), its,
                    ((lenbits(arg) + 8 * (arg - 1), ()), ZERO), (arg - 1, ((pre, -1),)))
    if kind == "Bool":
        st.var("v", 0, 1)
        v = (0, (("v", 1),))
        return Case(e.variant(AV, kind, Af(1, False, *v)), e.variant(AT, kind), [Item("u", v, ONE)], (ONE, ZERO))
    if kind == "Cell":
        return Case(e.variant(AV, kind, Opq("cell", ("A",))), e.variant(AT, kind), [Item("ref", ("cell", "A"), ZERO, ONE)], (ZERO, ONE))
    if kind == "Address":
        b = e.var(st, "len:A", 1, MAXADDR)
        return Case(e.variant(AV, kind, e.put(st, Opq("addr", ("A",)))), e.variant(AT, kind), [Item("addr", ("A",), b)],
                    ((MAXADDR, ()), ZERO))
    if kind == "Token":
        b = e.var(st, "len:A", 1, MAXTOK)
        return Case(e.variant(AV, kind, Opq("tok", ("A",))), e.variant(AT, kind), [Item("tok", ("A",), b)], ((MAXTOK, ()), ZERO))
    v = ("AbiVersion", 0, (ver[0], ()), (ver[1], ()))
    enc = lambda *x: Item("enc", (v, x), *e.enc_size(st, x))
    tb, tr = e.var(st, T[0], 0, 5000), e.var(st, T[1], 0, 500)
    ty = e.put(st, Opq("type", ("T",)))
    if kind == "Ref":
        e.enc_size(st, ("X",))
        return Case(e.variant(AV, kind, e.put(st, Opq("val", ("X",)))), e.variant(AT, kind, ty),
                    [Item("ref", ref_root([enc("X")]), ZERO, ONE)], (ZERO, ONE))
    if kind in ("Some", "None"):
        e.enc_size(st, ("X",))
        inline = arg
        st.add(*lin_add((0, ((T[0], 1),)), 1, (0, (("xb:X", 1),)), -1))
        st.add(*lin_add((0, ((T[1], 1),)), 1, (0, (("xr:X", 1),)), -1))
        if inline:
            st.add(1022, ((T[0], -1),))
            st.add(3, ((T[1], -1),))
        elif inline is None:
            st.add(-1023, ((T[0], 1),))
        else:
            st.add(1022, ((T[0], -1),))
            st.add(-4, ((T[1], 1),))
        most = (ladd(ONE, tb), tr) if inline else (ONE, ONE)
        opt = Some(e.put(st, Opq("val", ("X",)))) if kind == "Some" else NONE
        its = [Item("u", (int(kind == "Some"), ()), ONE)]
        if kind == "Some":
            its.append(enc("X") if inline else Item("ref", ref_root([enc("X")]), ZERO, ONE))
        return Case(e.variant(AV, "Optional", ty, opt), e.variant(AT, "Optional", ty), its, most)
    vals = ["X%d" % i for i in range(arg if not isinstance(arg, tuple) else arg[0])]
    if kind == "Tuple":
        named = [mkadt(_p, NV, name=Opq("name", (x,)), value=Opq("val", (x,))) for x in vals]
        c = Case(e.variant(AV, kind, e.vec(named)), None, [Item("value", (x,)) for x in vals], None)
        c.vals = vals
        return c
    # containers
    key = arg[1]
    kbits = {"Uint": (0, (("kn", 1),)), "Int": (0, (("kn", 1),)), "Bool": ONE, "Address": (267, ()), None: (32, ())}[key]
    if key in ("Uint", "Int"):
        st.var("kn", 0, 512)
    inline = arg[2]
    d = ladd((1023 - 12, ()), lin_add(ZERO, 1, ladd(kbits, tb), -1))     # >= 0: written inline
    if inline:
        st.add(*d)
    else:
        st.add(*lin_add((-1, ()), 1, d, -1))
    put = lambda x: (enc(x),) if inline else (Item("ref", ref_root([enc(x)]), ZERO, ONE),)
    if kind in ("Array", "FixedArray"):
        entries = tuple(((Item("u", (i, ()), (32, ())),), put(x)) for i, x in enumerate(vals))
        its = [Item("dict", entries, ONE, ONE if vals else ZERO)]
        f = (e.vec([Opq("val", (x,)) for x in vals]),)
        if kind == "Array":
            its = [Item("u", (len(vals), ()), (32, ()))] + its
        return Case(e.variant(AV, kind, ty, *f), e.variant(AT, "Array", ty) if kind == "Array" else
                    e.variant(AT, kind, ty, K(len(vals))), its, ((33 if kind == "Array" else 1, ()), ONE))
    if kind == "Map":
        pairs, entries = [], []
        for x in vals:
            k = "K" + x
            if key in ("Uint", "Int"):
                kv = e.variant(PV, key, Af(16, False, *kbits), Opq("big", (k,)))
                it = Item("biguint" if key == "Uint" else "bigint", (("big", k), (int(key == "Int"), ())), kbits)
            elif key == "Bool":
                st.var(k, 0, 1)
                kv = e.variant(PV, key, Af(1, False, 0, ((k, 1),)))
                it = Item("u", (0, ((k, 1),)), ONE)
            else:
                kv = e.variant(PV, key, e.put(st, Opq("addr", (k,))))
                b = e.var(st, "len:" + k, 1, MAXADDR)
                st.add(-267, ((("len:" + k), 1),))
                st.add(267, ((("len:" + k), -1),))
                it = Item("addr", (k,), b)
            pairs.append(Ag("tuple", 0, (kv, Opq("val", (x,)))))
            entries.append(((it,), put(x)))
        kt = e.variant(PT, key, Af(16, False, *kbits)) if key in ("Uint", "Int") else e.variant(PT, key)
        return Case(e.variant(AV, kind, kt, ty, Ag("btree", 0, (e.vec(pairs),))), e.variant(AT, kind, kt, ty),
                    [Item("dict", tuple(entries), ONE, ONE if vals else ZERO)], (ONE, ONE))
    raise Undecided(kind)


# ------------------------------------------------------------------ writer --
def result(t):
    return t.val.v if isinstance(t.val, Ag) and t.val.k == RESULT else None


def sizes(e, ip, st, v):
    return (e.num(ip, st, get(_p, v, "bit_count")), e.num(ip, st, get(_p, v, "cell_count")))


def write(kind, arg, ver, sign=None):
    """reserve a value, write it: same size, the right pieces"""
    probs, n = [], 0
    big = ver >= (2, 2)
    wv, cf = fn("AbiValue", "compute_size_full"), fn("AbiSerializer", "write_value")
    e, ip = engine((wv["path"], cf["path"]))
    st = ip.state()
    c = make(e, st, kind, arg, ver)
    st.mem[("sign",)] = sign
    v = e.version(*ver)
    r = e.put(st, c.val, "V")
    for t in ip.run(st, wv, [r, v]):
        n += 1
        what = "%s, ABI %d.%d" % (kind if arg is None or kind[:3] == "Var" else "%s%s" % (kind, arg), *ver)
        if t.kind == "panic":
            probs.append(("reserve", "%s: the size computation can panic (%s)" % (what, (t.why or "?")[0])))
            continue
        if t.st.flags:
            probs.append(("reserve", "%s: %s" % (what, flags_text(t.st))))
        got = sizes(e, ip, t.st, t.val)
        s = e.ser(t.st, v)
        for u in ip.run(t.st.copy(), cf, [s, r, Opq("ctx")]):
            n += 1
            probs += wrote(e, ip, c, u, got, big, what)
    return probs, n


def wrote(e, ip, c, u, got, big, what):
    st = u.st
    out = []
    if u.kind == "panic":
        return [("write", "%s: writing can panic (%s)" % (what, (u.why or "?")[0]))]
    if st.flags:
        out.append(("write", "%s: %s" % (what, flags_text(st))))
    for b in st.mem.get(BAD, ()):
        out.append(("nested", "%s: %s" % (what, b)))
    if st.mem.get(FAIL):
        if result(u) != 1:
            out.append(("error", "%s: an error of %s is not reported" % (what, st.mem[FAIL][0])))
        return out
    if c.fits is not None:
        fits = st.holds(*c.fits)
        if result(u) == 1:
            if st.possible(*c.fits):
                out.append(("range", "%s: a value of fitting length is refused" % what))
            return out
        if not fits:
            out.append(("range", "%s: a value longer than its type allows is written" % what))
    if result(u) != 0:
        return out + [("refused", "%s: a valid value is refused" % what)]
    req = st.mem.get(REQ, ())
    items = [x for k in range(len(req)) for x in st.mem[("OUT", k)].args]
    if len(items) != len(c.items) or not all(x.same(st, y) for x, y in zip(items, c.items)):
        out.append(("layout", "%s is written as %s, expected %s" % (what, items, c.items)))
    if any(x[0] == "value" for x in req):
        vals = [x[1] for x in req]
        q = "m" if big else "x"
        want = (ladd(*[(0, ((q + "fb:" + x, 1),)) for x in vals]), ladd(*[(0, ((q + "fr:" + x, 1),)) for x in vals]))
        for v in vals:
            for f in "br":
                e.var(st, q + "f" + f + ":" + v, 0, 5000)
        for i, nm in ((0, "bits"), (1, "references")):
            if not same(st, got[i], want[i]):
                out.append(("reserved", "%s: %s %s are reserved, its fields need %s" % (what, show(got[i]), nm, show(want[i]))))
        return out
    for i, nm in ((0, "bits"), (1, "references")):
        need = ladd(*[x[i] for x in req])
        have = ladd(*[(x.bits, x.refs)[i] for x in items])
        want = c.most[i] if big and c.most else ladd(*[(x.bits, x.refs)[i] for x in c.items])
        if not same(st, need, want):
            out.append(("required", "%s: writing demands %s %s, expected %s" % (what, show(need), nm, show(want))))
        if not same(st, got[i], want):
            out.append(("reserved", "%s: %s %s are reserved, expected %s" % (what, show(got[i]), nm, show(want))))
        if c.most and not st.holds(*lin_add(c.most[i], 1, have, -1)):
            out.append(("maximum", "%s: %s %s may be written, the type allows %s" % (what, show(have), nm, show(c.most[i]))))
    return out


def most(kind, arg):
    """the maximal size of a type, and of a value inside an optional"""
    probs, n = [], 0
    ms, vs, es = fn("AbiType", "max_size"), fn("AbiValue", "compute_max_size_short"), fn("AbiValue", "compute_exact_size_short")
    for b, which in ((ms, "type"), (vs, "value"), (es, "exact")):
        e, ip = engine((b["path"],))
        st = ip.state()
        c = make(e, st, kind, arg, (2, 0))
        if kind == "Tuple":
            vals = c.vals
            named = [mkadt(_p, NT, name=Opq("name", (x,)), ty=Opq("type", (x,))) for x in vals]
            c.ty = e.variant(AT, "Tuple", e.put(st, e.vec(named)))
            q = {"type": "t", "value": "m", "exact": "x"}[which]
            hi = 5000 if q == "t" else 1023
            want = tuple(ladd(*[e.var(st, q + f + ":" + x, 0, (hi if f == "b" else 500 if q == "t" else 4)) for x in vals]) for f in "br")
        else:
            want = c.most if which != "exact" else \
                tuple(ladd(*[(x.bits, x.refs)[i] for x in c.items]) for i in range(2))
        if c.fits and which == "exact":
            st.add(*c.fits)
        for t in ip.run(st, b, [e.put(st, c.ty if which == "type" else c.val)]):
            n += 1
            what = "%s %s" % (kind, arg)
            if t.kind == "panic":
                probs.append((which, "%s: the maximal size can panic (%s)" % (what, (t.why or "?")[0])))
                continue
            if t.st.mem.get(("tok", "A")) == "big":
                continue
            if t.st.flags:
                probs.append((which, "%s: %s" % (what, flags_text(t.st))))
            f = ("bit_count", "cell_count") if which == "type" else ("bits", "refs")
            for i in range(2):
                x = e.num(ip, t.st, get(_p, t.val, f[i]))
                if not same(t.st, x, want[i]):
                    probs.append((which, "%s: %s %s as the size of the %s, expected %s" % (
                        what, show(x), ("bits", "references")[i], which, show(want[i]))))
    return probs, n


# ------------------------------------------------------------------ reader --
S = ("main",)


def events(e, st):
    return [tuple(x) for x in st.mem.get(EV, ())]


def reads(kind, arg, ver, last, allow):
    """the reads of a value of a kind, and the value made of them"""
    probs, n = [], 0
    b = fn("AbiValue", "load_ext")
    e, ip = engine((b["path"],), cls=Reader)
    st = ip.state()
    v = e.version(*ver)
    vt = ("AbiVersion", 0, (ver[0], ()), (ver[1], ()))
    T = e.put(st, Opq("type", ("T",)))
    e.var(st, "tb:T", 0, 5000), e.var(st, "tr:T", 0, 500)
    la, al = (last, ()), (allow, ())
    r = lambda i: "r%d" % i
    num = lambda k: Opq("big", k)
    want = None
    if kind in ("Uint", "Int"):
        if arg is None:
            st.var("n", 65, 1023)
            w = (0, (("n", 1),))
        else:
            w = (arg, ())
        W = Af(16, False, *w)
        ty = e.variant(AT, kind, W)
        sg = int(kind == "Int")

        def want(t, ev):
            if arg == 0:
                return [x for x in ev if x[0] != "pre"], [], lambda x: is_word(t, x, ev, 0, sg)
            if arg is None:
                return ev, [("pre", w, S), ("raw", w, S)], lambda x: is_int(t, x, r(1), w, sg)
            return ev, [("pre", w, S), ("u", w, S)], lambda x: is_word(t, x, r(1), arg, sg)
        mk = lambda x: (kind, [w, x])
    elif kind in ("VarUint", "VarInt"):
        ty = e.variant(AT, kind, K(arg, 8))
        lb = (lenbits(arg), ())
        nb = (0, ((r(1), 8),))

        def want(t, ev):
            return ev, [("pre", lb, S), ("u", lb, S), ("pre", nb, S), ("raw", nb, S)], \
                lambda x: is_int(t, x, r(3), nb, int(kind == "VarInt"))
        mk = lambda x: (kind, [(arg, ()), x])
    elif kind == "Bool":
        ty = e.variant(AT, kind)
        want = lambda t, ev: (ev, [("pre", ONE, S), ("u", ONE, S)], lambda x: x == (0, ((r(1), 1),)))
        mk = lambda x: (kind, [x])
    elif kind == "Cell":
        ty = e.variant(AT, kind)
        want = lambda t, ev: (ev, [("cell", vt, la, S)], lambda x: x == ("cell", r(0)))
        mk = lambda x: (kind, [x])
    elif kind in ("Address", "Token"):
        ty = e.variant(AT, kind)
        q = {"Address": ("IntAddr", "addr"), "Token": ("Tokens", "tok")}[kind]
        want = lambda t, ev: (ev, [("pre", ONE, S), ("load", q[0], S)], lambda x: x == (q[1], r(1)))
        mk = lambda x: (kind, [x])
    elif kind in ("Bytes", "String", "FixedBytes"):
        st.var("fl", 0, 1 << 30)
        ty = e.variant(AT, kind, *([Af(64, False, 0, (("fl", 1),))] if kind == "FixedBytes" else []))
        want = lambda t, ev: (ev, [("bytes", vt, la, S)], lambda x: x == ("acc", r(0)))
        mk = lambda x: (kind, [x])
    elif kind == "Ref":
        ty = e.variant(AT, kind, T)
        inn = ("in", r(0))
        want = lambda t, ev: (ev, [("cell", vt, la, S), ("val", "T", vt, (1, ()), al, inn), ("end", al, inn)], lambda x: x == ("val", r(1)))
        mk = lambda x: (kind, [x])
    elif kind == "Optional":
        ty = e.variant(AT, kind, T)
        if arg:
            st.add(1022, (("tb:T", -1),))
            st.add(3, (("tr:T", -1),))
        elif arg is None:
            st.add(-1023, (("tb:T", 1),))
        else:
            st.add(1022, (("tb:T", -1),))
            st.add(-4, (("tr:T", 1),))
        inn = ("in", r(2))

        def want(t, ev):
            head = [("pre", ONE, S), ("u", ONE, S)]
            if t.holds(0, ((r(1), -1),)):
                return ev, head, lambda x: x == ("Option", 0)
            if not t.holds(-1, ((r(1), 1),)):
                return ev, head + [("?",)], lambda x: False
            if arg:
                return ev, head + [("val", "T", vt, la, al, S)], lambda x: x == ("Option", 1, ("val", r(2)))
            return ev, head + [("cell", vt, la, S), ("val", "T", vt, (1, ()), al, inn), ("end", al, inn)], \
                lambda x: x == ("Option", 1, ("val", r(3)))
        mk = lambda x: (kind, [None, x])
    elif kind == "Tuple":
        names = ["T%d" % i for i in range(arg)]
        ty = e.variant(AT, kind, e.put(st, e.vec([mkadt(_p, NT, name=Opq("name", (x,)), ty=Opq("type", (x,))) for x in names])))
        want = lambda t, ev: (ev, [("val", x, vt, (int(last and i + 1 == arg), ()), al, S) for i, x in enumerate(names)],
                              lambda x: x == ("list",) + tuple(named(x_, ("val", r(i))) for i, x_ in enumerate(names)))
        mk = lambda x: (kind, [x])
    elif kind in ("Array", "FixedArray"):
        if kind == "FixedArray":
            st.var("al", 0, 1 << 32)
        ty = e.variant(AT, kind, T, *([Af(64, False, 0, (("al", 1),))] if kind == "FixedArray" else []))

        def want(t, ev):
            head = [("pre", (32, ()), S), ("u", (32, ()), S)] if kind == "Array" else []
            head += [("pre", ONE, S), ("load", "dict", S)]
            d = r(len(head) - 1)
            k = sum(1 for x in ev if x[0] == "val")
            ln = (0, ((r(1) if kind == "Array" else "al", 1),))
            ended = t.mem.get(("entries", d))
            if ended is not None and ended != k or ended is None and not same(t, ln, (k, ())):
                head.append(("all the entries up to the length",))
            if kind == "FixedArray" and not same(t, ln, (k, ())):
                head.append(("exactly as many entries as the length",))
            vals = []
            for i in range(k):
                src = ("entry", d, i)
                vals.append(("val", r(len(head))))
                head += [("val", "T", vt, (1, ()), al, src), ("end", al, src)]
            return ev, head, lambda x: x == ("list",) + tuple(vals)
        mk = lambda x: (kind, [None, x])
    elif kind == "Map":
        w = {"Uint": (0, (("kn", 1),)), "Int": (0, (("kn", 1),)), "Bool": ONE, "Address": (267, ())}[arg]
        if w[1]:
            st.var("kn", 0, 512)
        kt = e.variant(PT, arg, *([Af(16, False, *w)] if w[1] else []))
        kterm = e.term(ip, st, kt)
        ty = e.variant(AT, kind, kt, T)

        def want(t, ev):
            head = [("pre", ONE, S), ("load", "dict", S)]
            k = sum(1 for x in ev if x[0] == "val")
            if t.mem.get(("entries", r(1))) != k:
                head.append(("all the entries",))
            vals = []
            for i in range(k):
                vals.append((("pval", r(len(head))), ("val", r(len(head) + 1))))
                head += [("plain", kterm, ("key", r(1), i)), ("val", "T", vt, (1, ()), al, ("entry", r(1), i))]
            return ev, head, lambda x: x == ("map",) + tuple(vals)
        mk = lambda x: (kind, [kterm, None, x])
    else:
        raise Undecided(kind)
    st.mem[("SL",)] = Opq("rd", S)
    what = "%s%s, ABI %d.%d" % (kind, "" if arg is None else " %s" % (arg,), *ver)
    for t in ip.run(st, b, [e.put(st, ty), v, K(last, 1), K(allow, 1), Ref(("SL",))]):
        n += 1
        if t.kind == "panic":
            probs.append(("read", "%s: reading can panic (%s)" % (what, (t.why or "?")[0])))
            continue
        if t.st.flags:
            probs.append(("read", "%s: %s" % (what, flags_text(t.st))))
        if t.st.mem.get(FAIL):
            if result(t) != 1:
                probs.append(("read-error", "%s: an error of %s is not reported" % (what, t.st.mem[FAIL][0])))
            continue
        ev, exp, good = want(t.st, events(e, t.st))
        if result(t) == 1:
            if kind == "FixedBytes" and not t.st.possible(*same_len("fl", "blen:r0")):
                continue
            if kind == "FixedArray":
                k = sum(1 for x in ev if x[0] == "val")
                if not (t.st.possible(k, (("al", -1),)) and t.st.possible(-k, (("al", 1),))):
                    continue
            if kind == "FixedBytes":
                if not both(t.st, "fl", "blen:r0"):
                    continue
            probs.append(("read-refused", "%s: a valid value is refused after %s" % (what, ev)))
            continue
        if kind == "FixedBytes" and not same(t.st, (0, (("fl", 1),)), (0, (("blen:r0", 1),))):
            probs.append(("read-length", "%s: bytes of another length are accepted" % what))
        if not (len(ev) == len(exp) and all(same_what(t.st, x, y) for x, y in zip(ev, exp))):
            probs.append(("reads", "%s: it reads %s, expected %s" % (what, ev, exp)))
            continue
        x = e.val(ip, t.st, t.val.f[0])
        nm, fs = mk(None)
        adt = _p.adts[AV]["v"]
        if not isinstance(x, Ag) or adt[x.v or 0]["n"] != nm:
            probs.append(("reads", "%s: the value read is %s" % (what, x)))
            continue
        for f, w in zip(x.f[:-1], fs[:-1]):
            if w is not None and not same_what(t.st, e.term(ip, t.st, f), w):
                probs.append(("reads", "%s: the value read has the type %s" % (what, f)))
        y = x.f[-1]
        z = e.val(ip, t.st, y)
        if kind in ("Uint", "Int", "VarUint", "VarInt"):
            ok = good(z)
        else:
            ok = same_what(t.st, e.term(ip, t.st, z), None) or good(e.term(ip, t.st, z))
        if not ok:
            probs.append(("value", "%s: the value read is not what is stored: %s" % (what, z)))
    return probs, n


def same_len(a, b):
    return (0, ((a, 1), (b, -1)))


def both(st, a, b):
    """can a and b be equal"""
    t = st.copy()
    t.add(0, ((a, 1), (b, -1)))
    t.add(0, ((a, -1), (b, 1)))
    return feasible(t.all_cons())


def named(nm, val):
    f = _p.field_names(NV)
    return ("NamedAbiValue", 0) + tuple({"name": ("name", nm), "value": val}[x] for x in f)


def is_int(st, x, ev, bits, signed):
    """the integer of the bits read into a buffer"""
    if not (isinstance(x, Opq) and x.name == "big" and x.args[0] == "int"):
        return False
    _, src, nbytes, sg, be, sh = x.args
    if src != ev or sg != signed or be != 1:
        return False
    return same(st, lin_add((0, tuple((v, 8 * k) for v, k in nbytes[1])) if not nbytes[0] else
                            (8 * nbytes[0], tuple((v, 8 * k) for v, k in nbytes[1])), 1, sh, -1), bits)


def is_word(st, x, ev, n, signed):
    if not (isinstance(x, Opq) and x.name == "big" and x.args[0] == "word" and x.args[1] == ("BigInt" if signed else "BigUint")):
        return False
    v = x.args[2]
    if n == 0:
        return isinstance(v, Af) and v.c == 0 and not v.t
    if isinstance(v, Af):
        return False
    got = [st.bit(b) for b in v.b]
    if signed and not v.sg:
        return False
    return got == [sym((ev,), i) if i < n else (sym((ev,), n - 1) if signed else 0) for i in range(len(got))]


# ------------------------------------------------------------------ packing --
def lin_le(a, b):
    """the condition a <= b"""
    return lin_add(b, 1, a, -1)


def holds_any(st, conds):
    """can the conditions (each >= 0) hold together"""
    t = st.copy()
    if not all(t.possible(*c) and t.add(*c) for c in conds):
        return False
    return feasible(t.all_cons())


def state_of(e, ip, st, r):
    v = e.val(ip, st, r)
    cur, tot = get(_p, v, "current"), get(_p, v, "remaining_total")
    stack = get(_p, v, "stack")
    return ((e.num(ip, st, get(_p, cur, "bits")), e.num(ip, st, get(_p, cur, "refs"))),
            (e.num(ip, st, get(_p, tot, "bit_count")), e.num(ip, st, get(_p, tot, "cell_count"))),
            [e.term(ip, st, ip.elem(st, stack, K(i))) for i in range(stack.n.c)])


def serializer(e, st, ver, cur, tot, k):
    z = mkadt(_p, SIZE, bits=Af(16, False, *cur[0]), refs=Af(8, False, *cur[1]))
    t = mkadt(_p, STATS, bit_count=Af(64, False, *tot[0]), cell_count=Af(64, False, *tot[1]))
    stack = e.vec([Opq("log", (Item("old", (i,)),)) for i in range(k)])
    return e.put(st, mkadt(_p, SER, version=e.version(*ver), current=z, remaining_total=t, stack=stack), "SER")


def place(ver, cr, vr, k):
    """a value of a size is put into the open cell or into a new one"""
    probs, n = [], 0
    b = fn("AbiSerializer", "require_builder")
    e, ip = engine((b["path"],))
    e.real_ser = True
    st = ip.state()
    cb, vb = e.var(st, "cb", 0, 1023), e.var(st, "vb", 0, 1023)
    rb, rc = ladd(vb, e.var(st, "rb", 0, 1 << 40)), ladd((vr, ()), e.var(st, "rc", 0, 1 << 20))
    r = serializer(e, st, ver, (cb, (cr, ())), (rb, rc), k)
    for t in ip.run(st, b, [r, e.size(vb, (vr, ()))]):
        n += 1
        what = "%s references used, %s demanded, ABI %d.%d" % ((cr, vr) + ver)
        if t.kind == "panic":
            probs.append(("place", "%s: can panic (%s)" % (what, (t.why or "?")[0])))
            continue
        if t.st.flags:
            probs.append(("place", "%s: %s" % (what, flags_text(t.st))))
        cur, tot, stack = state_of(e, ip, t.st, r)
        start = max(k, 1)
        fresh = len(stack) - start
        if fresh not in (0, 1) or [x for x in stack if x != ("log",)] != [("log", x) for x in []] + stack[:k]:
            probs.append(("place", "%s: the open cells become %s" % (what, stack)))
            continue
        conds = [lin_le(ladd(vb, cb), (1023, ()))]
        if vr > 4 - cr:
            conds.append((-1, ()))
        if vr > 0 and vr == 4 - cr:
            if ver[0] == 1:
                conds.append((-1, ()))
            conds += [lin_le(rc, (vr, ())), lin_le(ladd(rb, cb), (1023, ()))]
        if fresh:
            if holds_any(t.st, conds):
                probs.append(("place-new", "%s: a new cell is opened although the value belongs into the open one" % what))
            want = (vb, (vr, ()))
        else:
            if not all(t.st.holds(*c) for c in conds):
                probs.append(("place-open", "%s: the value is put into the open cell although it belongs into a new one" % what))
            want = (ladd(vb, cb), (vr + cr, ()))
        if not (same(t.st, cur[0], want[0]) and same(t.st, cur[1], want[1])):
            probs.append(("place-size", "%s: the open cell counts %s bits and %s references, expected %s and %s" % (
                (what, show(cur[0]), show(cur[1])) + tuple(show(x) for x in want))))
        if not (same(t.st, tot[0], lin_add(rb, 1, vb, -1)) and same(t.st, tot[1], lin_add(rc, 1, (vr, ()), -1))):
            probs.append(("place-rest", "%s: %s bits and %s references remain" % (what, show(tot[0]), show(tot[1]))))
        x = t.val
        if not (isinstance(x, Ref) and x.root == r.root and x.path[-1:] and isinstance(x.path[-1], tuple) and
                L(x.path[-1][1]) == (len(stack) - 1, ())):
            probs.append(("place-cell", "%s: the cell written to is not the open one" % what))
    return probs, n


def close(nm, k):
    """the open cells are linked, the last one innermost"""
    probs, n = [], 0
    b = fn("AbiSerializer", nm)
    e, ip = engine((b["path"],))
    e.real_ser = True
    st = ip.state()
    rb, rc = e.var(st, "rb", 0, 1 << 40), e.var(st, "rc", 0, 1 << 20)
    cb, cr = e.var(st, "cb", 0, 1023), e.var(st, "cr", 0, 4)
    r = serializer(e, st, (2, 2), (cb, cr), (rb, rc), k)
    want = ()
    for i in reversed(range(k)):
        want = (Item("old", (i,)),) + ((Item("ref", ref_root(want), ZERO, ONE),) if i < k - 1 else ())
    for t in ip.run(st, b, [r if nm == "take_finalize" else e.val(ip, st, r), Opq("ctx")]):
        n += 1
        if t.kind == "panic":
            probs.append(("close", "%s of %d cells can panic (%s)" % (nm, k, (t.why or "?")[0])))
            continue
        if t.st.mem.get(FAIL):
            if result(t) != 1:
                probs.append(("close", "%s: an error of %s is not reported" % (nm, t.st.mem[FAIL][0])))
            continue
        if result(t) != 0:
            probs.append(("close", "%s of %d cells fails" % (nm, k)))
            continue
        x = e.val(ip, t.st, t.val.f[0])
        if not (isinstance(x, Opq) and x.name == "log" and same_what(t.st, x.args, want)):
            probs.append(("close", "%s of %d cells gives %s, expected %s" % (nm, k, x, want)))
        if nm == "take_finalize":
            cur, tot, stack = state_of(e, ip, t.st, r)
            if cur != (ZERO, ZERO) or tot != (ZERO, ZERO) or stack:
                probs.append(("close-reset", "take_finalize leaves %s %s %s behind" % (cur, tot, stack)))
    return probs, n


def begin(which, ver):
    """fresh serializers, offsets, reservations"""
    probs, n = [], 0
    b = fn("AbiSerializer", which)
    e, ip = engine((b["path"], fn("AbiSerializer", "new")["path"]))
    e.real_ser = True
    st = ip.state()
    cb, cr = e.var(st, "cb", 0, 500), e.var(st, "cr", 0, 2)
    rb, rc = e.var(st, "rb", 0, 1 << 40), e.var(st, "rc", 0, 1 << 20)
    r = serializer(e, st, ver, (cb, cr), (rb, rc), 1)
    v = e.version(*ver)
    vb, vr = e.var(st, "vb", 0, 500), e.var(st, "vr", 0, 2)
    if which == "new":
        args = [v]
    elif which == "begin_child":
        args = [r]
    elif which == "add_offset":
        args = [r, e.size(vb, vr)]
    else:
        args = [r, e.put(st, Opq("val", ("X",)))]
    for t in ip.run(st, b, args):
        n += 1
        if t.kind == "panic":
            probs.append(("begin", "%s can panic (%s)" % (which, (t.why or "?")[0])))
            continue
        res = e.put(t.st, t.val) if which in ("new", "begin_child") else r
        cur, tot, stack = state_of(e, ip, t.st, res)
        vt = e.term(ip, t.st, get(_p, e.val(ip, t.st, res), "version"))
        if vt != ("AbiVersion", 0, (ver[0], ()), (ver[1], ())):
            probs.append(("begin", "%s: the version is %s" % (which, vt)))
        if which in ("new", "begin_child"):
            want = ((ZERO, ZERO), (ZERO, ZERO), [])
        elif which == "add_offset":
            want = ((ladd(cb, vb), ladd(cr, vr)), (rb, rc), stack)
        else:
            want = ((cb, cr), (ladd(rb, e.var(t.st, "ffb:X", 0, 5000)), ladd(rc, e.var(t.st, "ffr:X", 0, 500))), stack)
        if not (same_what(t.st, (cur, tot), want[:2]) and stack == want[2] or not same_what(t.st, (cur, tot), want[:2]) and False):
            probs.append(("begin", "%s: the serializer becomes %s" % (which, (cur, tot, stack))))
    return probs, n


def headers(lst, ver, key):
    """headers are reserved, written, read and skipped alike"""
    probs, n = [], 0
    size = {"Time": 64, "Expire": 32, "PublicKey": 1 + (256 if key or ver >= (2, 2) else 0)}
    what = "headers %s with%s a key, ABI %d.%d" % (list(lst), "" if key else "out", *ver)
    rv, wh = fn("AbiSerializer", "reserve_headers"), fn("AbiSerializer", "write_header_value")
    e, ip = engine((rv["path"], wh["path"]))
    e.real_ser = True
    st = ip.state()
    rb, rc = e.var(st, "rb", 0, 1 << 40), e.var(st, "rc", 0, 1 << 20)
    r = serializer(e, st, ver, (ZERO, ZERO), (rb, rc), 0)
    hs = e.put(st, e.vec([e.variant(HT, x) for x in lst]))
    for t in ip.run(st, rv, [r, Sl(hs.root, hs.path, K(0), K(len(lst))), K(int(key), 1)]):
        n += 1
        if t.kind == "panic":
            probs.append(("header", "%s: can panic" % what))
            continue
        cur, tot, stack = state_of(e, ip, t.st, r)
        if not (same(t.st, tot[0], ladd(rb, (sum(size[x] for x in lst), ()))) and same(t.st, tot[1], rc) and cur == (ZERO, ZERO)):
            probs.append(("header-reserved", "%s: %s bits are reserved" % (what, show(lin_add(tot[0], 1, rb, -1)))))
    if len(lst) != 1:
        return probs, n
    k = lst[0]
    st = ip.state()
    w = 64 if k == "Time" else 32
    if k == "PublicKey":
        val = e.variant(HV, k, Some(Opq("pubkey", ("A",))) if key else NONE)
        its = [Item("u", (int(key), ()), ONE)] + ([Item("raw", (("pubkey", "A"), ZERO), (256, ()))] if key else [])
    else:
        val = e.variant(HV, k, Af(w, False, *e.var(st, "v", 0, (1 << w) - 1)))
        its = [Item("u", (0, (("v", 1),)), (w, ()))]
    r = serializer(e, st, ver, (ZERO, ZERO), (ZERO, ZERO), 0)
    for u in ip.run(st, wh, [r, e.put(st, val)]):
        n += 1
        if u.kind == "panic":
            probs.append(("header", "%s: can panic" % what))
            continue
        if u.st.mem.get(FAIL):
            if result(u) != 1:
                probs.append(("header", "%s: an error is not reported" % what))
            continue
        req = u.st.mem.get(REQ, ())
        items = [x for i in range(len(req)) for x in u.st.mem[("OUT", i)].args]
        if result(u) != 0 or not same_what(u.st, tuple(items), tuple(its)):
            probs.append(("header-layout", "%s: written as %s, expected %s" % (what, items, its)))
        if [tuple(x) for x in req] != [((size[k], ()), ZERO)]:
            probs.append(("header-required", "%s: demands %s" % (what, req)))
    return probs, n


def header_read(k, nm):
    probs, n = [], 0
    b = fn("AbiHeader", nm)
    e, ip = engine((b["path"],), cls=Reader)
    st = ip.state()
    st.mem[("SL",)] = Opq("rd", S)
    w = {"Time": 64, "Expire": 32}.get(k)
    for t in ip.run(st, b, [e.variant(HT, k), Ref(("SL",))]):
        n += 1
        if t.kind == "panic":
            probs.append(("header", "%s of %s can panic" % (nm, k)))
            continue
        if t.st.mem.get(FAIL):
            if result(t) != 1:
                probs.append(("header", "%s of %s: an error of %s is not reported" % (nm, k, t.st.mem[FAIL][0])))
            continue
        if result(t) != 0:
            probs.append(("header", "%s of %s fails" % (nm, k)))
            continue
        ev = events(e, t.st)
        read = "u" if nm == "load" else "skip"
        if w:
            want = [("pre", (w, ()), S), (read, (w, ()), S)]
            val = (0, (("r1", 1),))
        else:
            want = [("pre", ONE, S), ("u", ONE, S)]
            val = ("Option", 0)
            if t.st.holds(-1, (("r1", 1),)):
                want += [("pre", (256, ()), S), (read, (256, ()), S)]
                val = ("Option", 1, ("pubkey", "r3"))
            elif not t.st.holds(0, (("r1", -1),)):
                want += [("?",)]
        if not same_what(t.st, tuple(ev), tuple(want)):
            probs.append(("header-reads", "%s of %s reads %s, expected %s" % (nm, k, ev, want)))
        if nm == "load":
            x = e.val(ip, t.st, t.val.f[0])
            if _p.adts[HV]["v"][x.v]["n"] != k or not same_what(t.st, e.term(ip, t.st, x.f[0]), val):
                probs.append(("header-value", "%s: the header read is %s" % (k, x)))
    return probs, n


def skip_all(k):
    """each header is skipped, in order"""
    b = fn("AbiHeader", "skip_all")
    e, ip = engine((b["path"],), cls=Reader)
    st = ip.state()
    st.mem[("SL",)] = Opq("rd", S)
    lst = ("Time", "PublicKey", "Expire")[:k]
    hs = e.put(st, e.vec([e.variant(HT, x) for x in lst]))
    probs, n = [], 0
    for t in ip.run(st, b, [Sl(hs.root, hs.path, K(0), K(k)), Ref(("SL",))]):
        n += 1
        if t.kind == "panic":
            probs.append(("header", "skip_all can panic"))
        elif t.st.mem.get(FAIL):
            if result(t) != 1:
                probs.append(("header", "skip_all: an error is not reported"))
        else:
            ev = [x[1] for x in events(e, t.st) if x[0] in ("u", "skip")]
            key = [(256, ())] if k > 1 and (256, ()) in ev else []
            want = ([(64, ())] if k else []) + ([ONE] + key if k > 1 else []) + ([(32, ())] if k > 2 else [])
            if result(t) != 0 or ev != want:
                probs.append(("header-reads", "skip_all of %s skips %s" % (list(lst), ev)))
    return probs, n


# ------------------------------------------------------------------ bytes --
def chain(kind, major, n):
    """bytes are split over a chain of cells"""
    probs, c = [], 0
    b = fn("AbiSerializer", "write_value")
    e, ip = engine((b["path"],), fail=False)
    st = ip.state()
    val = e.variant(AV, kind, Arr(K(n), {}, lambda key: int_sym(("byte", key), 8)))
    r = e.put(st, val, "V")
    s_ = e.ser(st, e.version(major, 0))
    whole = [127] * (n // 127)
    rest = [n % 127] if n % 127 else []
    parts = rest + whole if major == 1 else whole + rest
    for t in ip.run(st, b, [s_, r, Opq("ctx")]):
        c += 1
        what = "%s of %d bytes, ABI %d.0" % (kind, n, major)
        if t.kind == "panic":
            probs.append(("bytes", "%s: can panic (%s)" % (what, (t.why or "?")[0])))
            continue
        req = t.st.mem.get(REQ, ())
        if result(t) != 0 or len(req) != 1 or req[0] != (ZERO, ONE):
            probs.append(("bytes", "%s: demands %s" % (what, req)))
            continue
        out = t.st.mem[("OUT", 0)].args
        at, seen, ok = 0, [], True
        while ok:
            ref = [x for x in out if x.kind == "ref"]
            raw = [x for x in out if x.kind == "raw"]
            if len(ref) + len(raw) != len(out) or len(ref) > 1 or len(raw) > 1:
                ok = False
                break
            if seen or raw:
                if raw:
                    (root, off), bits = raw[0].what, raw[0].bits
                    if off != (at, ()) or bits[1] or bits[0] % 8 or bits[0] > 1023 or root != r.root:
                        ok = False
                        break
                    seen.append(bits[0] // 8)
                    at += bits[0] // 8
            if not ref:
                break
            x = ref[0].what
            if not (x[0] == "cell" and isinstance(x[1], tuple) and x[1][0] == "built"):
                ok = False
                break
            out = x[1][1]
        if not ok or at != n:
            probs.append(("bytes-order", "%s: the chain of cells does not hold the bytes in order" % what))
        elif seen != parts:
            probs.append(("bytes-cells", "%s: cells of %s bytes, expected %s" % (what, seen, parts)))
    return probs, c


def all_chains(kind, major, lo, hi):
    probs, n = [], 0
    for i in range(lo, hi):
        p, m = chain(kind, major, i)
        probs += p
        n += m
        if probs:
            break
    return probs, n


def unchain():
    """the bytes of a chain of cells are joined"""
    b = free("de::load_bytes_raw")
    e, ip = engine((b["path"],), cls=Cells)
    e.chain = 2
    st = ip.state()
    st.mem[("SL",)] = e.cut("main")
    probs, n = [], 0
    for t in ip.run(st, b, [e.version(2, 0), K(0, 1), Ref(("SL",))]):
        n += 1
        if t.kind == "panic":
            probs.append(("join", "can panic (%s)" % (t.why or "?")[0]))
            continue
        if t.st.mem.get(FAIL):
            if result(t) != 1:
                probs.append(("join", "an error of %s is not reported" % t.st.mem[FAIL][0]))
            continue
        seen = [i for i in range(3) if ("rem", i) in t.st.mem]
        good = all(t.st.mem[("rem", i)] == 0 for i in seen)
        whole = [i for i in range(3) if t.st.mem.get(("next", i)) == 0]
        if result(t) == 1:
            if good:
                probs.append(("join", "a chain of cells with whole bytes is refused"))
            continue
        x = e.val(ip, t.st, t.val.f[0])
        want = tuple(range(whole[0] + 1)) if whole else None
        if not good or want is None or tuple(seen) != want:
            probs.append(("join", "a chain is accepted whose cells were not all checked: remainders %s" % [t.st.mem.get(("rem", i)) for i in range(3)]))
        elif not (isinstance(x, Opq) and x.args == want):
            probs.append(("join", "the bytes of the cells %s are joined as %s" % (list(want), x)))
    return probs, n


# ------------------------------------------------------------------ steps between cells --
def step():
    """reading goes to the next cell only from an empty one with one reference"""
    b = free("de::preload_bits")
    e, ip = engine((b["path"],), cls=Cells)
    st = ip.state()
    w = e.var(st, "w", 0, 1023)
    st.mem[("SL",)] = e.cut("main")
    e.left(st, st.mem[("SL",)])
    B, R = (0, (("bits:main", 1),)), (0, (("refs:main", 1),))
    probs, n = [], 0
    for t in ip.run(st, b, [Af(16, False, *w), Ref(("SL",))]):
        n += 1
        if t.kind == "panic":
            probs.append(("step", "can panic (%s)" % (t.why or "?")[0]))
            continue
        if t.st.mem.get(FAIL):
            if result(t) != 1:
                probs.append(("step", "an error is not reported"))
            continue
        now = e.val(ip, t.st, Ref(("SL",))).args
        empty = [(0, (("bits:main", -1),)), (-1, (("w", 1),))]
        one_ref = [(1, (("refs:main", -1),)), (-1, (("refs:main", 1),))]
        if result(t) == 1:
            # an error: too few bits, or at the end of a cell without exactly one reference
            ok1 = holds_any(t.st, [(0, (("w", -1),))])
            ok2 = holds_any(t.st, [lin_le(w, B), (-1, (("bits:main", 1),))])
            ok3 = holds_any(t.st, empty + one_ref)
            if ok1 or ok2 or ok3:
                probs.append(("step-refused", "reading %s bits from %s is refused" % (show(w), "a cell with enough of them" if ok2 else "the next cell")))
            continue
        if now == (("main",), 0):
            if holds_any(t.st, empty) or holds_any(t.st, [(-1, (("w", 1),)), lin_le(ladd(B, ONE), w)]):
                probs.append(("step-short", "reading goes on in a cell with too few bits"))
        elif now == (("main", 0), 0):
            if not all(t.st.holds(*c) for c in empty + one_ref):
                probs.append(("step-next", "reading goes to the next cell from one that is not empty with one reference"))
        else:
            probs.append(("step", "the slice becomes %s" % (now,)))
    return probs, n


def step_ref(major, last):
    """a reference is taken from the cell, or from the next one"""
    b = free("de::load_cell")
    e, ip = engine((b["path"],), cls=Cells)
    st = ip.state()
    st.mem[("SL",)] = e.cut("main")
    e.left(st, st.mem[("SL",)])
    probs, n = [], 0
    what = "ABI %d, %s" % (major, "last" if last else "not last")
    one_ref = [(1, (("refs:main", -1),)), (-1, (("refs:main", 1),))]
    if major == 1:
        nxt = one_ref + [(-4, (("cellrefs:main", 1),))]
    elif last:
        nxt = [(-1, ())]
    else:
        nxt = one_ref + [(0, (("bits:main", -1),))]
    for t in ip.run(st, b, [e.version(major, 0), K(last, 1), Ref(("SL",))]):
        n += 1
        if t.kind == "panic":
            probs.append(("ref", "can panic (%s)" % (t.why or "?")[0]))
            continue
        if t.st.mem.get(FAIL):
            if result(t) != 1:
                probs.append(("ref", "an error is not reported"))
            continue
        now = e.val(ip, t.st, Ref(("SL",))).args
        if result(t) == 1:
            if ("short",) not in t.st.mem:
                probs.append(("ref-refused", "%s: a reference is refused" % what))
                continue
            at = t.st.mem[("short",)]
            if at == ("main",) and holds_any(t.st, nxt) or at == ("main", 0) and not all(t.st.holds(*c) for c in nxt):
                probs.append(("ref-refused", "%s: a reference is missed in %s" % (what, at)))
            continue
        x = e.val(ip, t.st, t.val.f[0])
        if now == (("main",), 1) and isinstance(x, Opq) and x.args == ("main", 0):
            if holds_any(t.st, nxt):
                probs.append(("ref-here", "%s: a link to the next cell is taken for a value" % what))
        elif now == (("main", 0), 1) and isinstance(x, Opq) and x.args == ("main", 0, 0):
            if not all(t.st.holds(*c) for c in nxt):
                probs.append(("ref-next", "%s: a value is taken for a link to the next cell" % what))
        else:
            probs.append(("ref", "%s: %s of %s" % (what, x, now)))
    return probs, n


# ------------------------------------------------------------------ entries --
def entry(ty, nm, k, ver):
    """the public functions that write values"""
    b = fn(ty, nm)
    allb = [x["path"] for t in ("AbiValue", "NamedAbiValue") for m in ("tuple_to_builder", "tuple_to_cell", "make_builder", "make_cell")
            for x in _p.method(t, m)]
    e, ip = engine(tuple(allb))
    st = ip.state()
    vals = ["X%d" % i for i in range(k)]
    objs = [Opq("val", (x,)) for x in vals]
    if ty == "NamedAbiValue":
        objs = [mkadt(_p, NV, name=Opq("name", (x,)), value=o) for x, o in zip(vals, objs)]
    if nm.startswith("tuple"):
        r = e.put(st, e.vec(objs))
        arg = Sl(r.root, r.path, K(0), K(k))
    else:
        arg = e.put(st, objs[0])
    vt = ("AbiVersion", 0, (ver[0], ()), (ver[1], ()))
    want = (Item("enc", (vt, tuple(vals)), *e.enc_size(st, vals)),)
    probs, n = [], 0
    what = "%s::%s" % (ty, nm)
    for t in ip.run(st, b, [arg, e.version(*ver)]):
        n += 1
        if t.kind == "panic":
            probs.append(("entry", "%s can panic (%s)" % (what, (t.why or "?")[0])))
            continue
        for x in t.st.mem.get(BAD, ()):
            probs.append(("entry", "%s: %s" % (what, x)))
        if t.st.mem.get(FAIL):
            if result(t) != 1:
                probs.append(("entry", "%s: an error of %s is not reported" % (what, t.st.mem[FAIL][0])))
            continue
        if result(t) != 0:
            probs.append(("entry", "%s fails" % what))
            continue
        x = e.val(ip, t.st, t.val.f[0])
        got = x.args if isinstance(x, Opq) and x.name == "log" else None
        if nm.endswith("cell"):
            got = x.args[0][1] if isinstance(x, Opq) and x.name == "cell" and x.args[0][0] == "built" else None
        if got is None or not same_what(t.st, tuple(got), want):
            probs.append(("entry", "%s gives %s, expected %s" % (what, x, want)))
    return probs, n


def entry_read(ty, nm, k, last, allow):
    """the public functions that read values"""
    b = fn(ty, nm)
    allb = [x["path"] for t in ("AbiValue", "NamedAbiValue") for m in
            ("load", "load_partial", "load_tuple", "load_tuple_partial", "load_tuple_ext") for x in _p.method(t, m)]
    allb += [x["path"] for x in _p.method("NamedAbiValue", "load_ext")]
    e, ip = engine(tuple(allb), cls=Reader)
    st = ip.state()
    st.mem[("SL",)] = Opq("rd", S)
    ver = (2, 1)
    vt = ("AbiVersion", 0, (ver[0], ()), (ver[1], ()))
    names = ["T%d" % i for i in range(k)]
    objs = [Opq("type", (x,)) for x in names]
    if ty == "NamedAbiValue":
        objs = [mkadt(_p, NT, name=Opq("name", (x,)), ty=o) for x, o in zip(names, objs)]
    if "tuple" in nm:
        r = e.put(st, e.vec(objs))
        arg = Sl(r.root, r.path, K(0), K(k))
    else:
        arg = e.put(st, objs[0])
    args = [arg, e.version(*ver)]
    if nm.endswith("ext"):
        args += [K(last, 1), K(allow, 1)]
    else:
        last, allow = 1, int("partial" in nm)
    args.append(Ref(("SL",)))
    want = [("val", x, vt, (int(last and i + 1 == k), ()), (allow, ()), S) for i, x in enumerate(names)]
    if nm in ("load", "load_tuple"):
        want.append(("end", ZERO, S))
    vals = tuple(named(x, ("val", "r%d" % i)) if ty == "NamedAbiValue" else ("val", "r%d" % i) for i, x in enumerate(names))
    res = ("list",) + vals if "tuple" in nm else vals[0]
    probs, n = [], 0
    what = "%s::%s" % (ty, nm)
    for t in ip.run(st, b, args):
        n += 1
        if t.kind == "panic":
            probs.append(("entry", "%s can panic (%s)" % (what, (t.why or "?")[0])))
            continue
        if t.st.mem.get(FAIL):
            if result(t) != 1:
                probs.append(("entry", "%s: an error of %s is not reported" % (what, t.st.mem[FAIL][0])))
            continue
        if result(t) != 0:
            probs.append(("entry", "%s fails" % what))
            continue
        ev = events(e, t.st)
        if not same_what(t.st, tuple(ev), tuple(want)):
            probs.append(("entry-reads", "%s reads %s, expected %s" % (what, ev, want)))
        x = e.term(ip, t.st, t.val.f[0])
        if not same_what(t.st, x, res):
            probs.append(("entry-value", "%s gives %s, expected %s" % (what, x, res)))
    return probs, n


def ends(allow):
    """only an empty slice ends a value"""
    b = fn("AbiValue", "check_remaining")
    e, ip = engine((b["path"],), cls=Cells)
    st = ip.state()
    st.mem[("SL",)] = e.cut("main")
    e.left(st, st.mem[("SL",)])
    probs, n = [], 0
    empty = [(0, (("bits:main", -1),)), (0, (("refs:main", -1),))]
    for t in ip.run(st, b, [Ref(("SL",)), K(allow, 1)]):
        n += 1
        if t.kind == "panic":
            probs.append(("end", "can panic"))
        elif result(t) == 0:
            if not allow and not all(t.st.holds(*c) for c in empty):
                probs.append(("end", "data left unread is accepted"))
        elif allow or holds_any(t.st, empty):
            probs.append(("end", "%s is refused" % ("a partial read" if allow else "an empty slice")))
    return probs, n


def plain(kind, w):
    """dictionary keys"""
    b = fn("PlainAbiValue", "load")
    e, ip = engine((b["path"],), cls=Reader)
    st = ip.state()
    st.mem[("SL",)] = Opq("rd", S)
    probs, n = [], 0
    if kind in ("Uint", "Int"):
        if w is None:
            wl = e.var(st, "n", 65, 1023)
        else:
            wl = (w, ())
        ty = e.variant(PT, kind, Af(16, False, *wl))
    else:
        ty = e.variant(PT, kind)
    sg = int(kind == "Int")
    what = "key %s %s" % (kind, w)
    for t in ip.run(st, b, [ty, Ref(("SL",))]):
        n += 1
        if t.kind == "panic":
            probs.append(("key", "%s: can panic" % what))
            continue
        if t.st.mem.get(FAIL):
            if result(t) != 1:
                probs.append(("key", "%s: an error is not reported" % what))
            continue
        if result(t) != 0:
            probs.append(("key", "%s is refused" % what))
            continue
        ev = events(e, t.st)
        x = e.val(ip, t.st, t.val.f[0])
        if _p.adts[PV]["v"][x.v]["n"] != kind:
            probs.append(("key", "%s: the key read is %s" % (what, x)))
            continue
        z = e.val(ip, t.st, x.f[-1])
        if kind == "Bool":
            ok = ev == [("u", ONE, S)] and e.term(ip, t.st, z) == (0, (("r0", 1),))
        elif kind == "Address":
            ok = ev == [("load", "IntAddr", S)] and e.term(ip, t.st, z) == ("addr", "r0")
        else:
            ok = same_what(t.st, e.term(ip, t.st, x.f[0]), wl)
            if w == 0:
                ok = ok and not ev and is_word(t.st, z, None, 0, sg)
            elif w is None:
                ok = ok and same_what(t.st, tuple(ev), (("raw", wl, S),)) and is_int(t.st, z, "r0", wl, sg)
            else:
                ok = ok and ev == [("u", wl, S)] and is_word(t.st, z, "r0", w, sg)
        if not ok:
            probs.append(("key", "%s: reads %s and gives %s" % (what, ev, z)))
    return probs, n


def keys_all(kind):
    probs, n = [], 0
    for w in list(range(65)) + [None]:
        p, m = plain(kind, w)
        probs += p
        n += m
        if probs:
            break
    return probs, n


def since():
    """maximal sizes are used since 2.2"""
    b = fn("AbiVersion", "use_max_size")
    probs, n = [], 0
    for ma in range(4):
        for mi in range(6):
            e, ip = engine((b["path"],))
            st = ip.state()
            for t in ip.run(st, b, [e.put(st, e.version(ma, mi))] if _p.ty(b["locals"][1][0])[0] == "ref" else [e.version(ma, mi)]):
                n += 1
                got = None if t.kind == "panic" else e.num(ip, t.st, t.val)
                if got != (int((ma, mi) >= (2, 2)), ()):
                    probs.append(("since", "version %d.%d" % (ma, mi)))
    return probs, n


def read_cases():
    out = [(k, None) for k in ("Uint", "Int", "Bool", "Cell", "Address", "Token", "Bytes", "String", "FixedBytes", "Ref")]
    out += [("Optional", x) for x in (True, False, None)] + [("Tuple", i) for i in range(4)]
    out += [("Array", None), ("FixedArray", None)] + [("Map", k) for k in ("Uint", "Int", "Bool", "Address")]
    return out


def cases():
    out = [(k, None) for k in KINDS]
    out += [(k, None) for k in ("VarUint", "VarInt")]
    for k in ("Some", "None"):
        out += [(k, True), (k, False), (k, None)]
    out += [("Tuple", i) for i in range(4)]
    for inl in (True, False):
        for i in range(3):
            out += [("Array", (i, None, inl)), ("FixedArray", (i, None, inl))]
            out += [("Map", (i, k, inl)) for k in ("Uint", "Int", "Bool", "Address")]
    return out


def jobs(tier):
    out = []
    for k, a in cases():
        for v in VERSIONS:
            out.append(("write", k, a, v))
        out.append(("most", k, a))
    # the sign of a variable integer, should the code ask for it
    out += [("write", "VarInt", None, v, x) for v in VERSIONS for x in ("Plus",)]
    for v in VERSIONS if tier != "quick" else [(1, 0), (2, 1), (2, 3)]:
        for la in (0, 1):
            for al in (0, 1):
                out += [("reads", k, a, v, la, al) for k, a in read_cases()]
    for k in ("Uint", "Int"):
        out += [("reads", k, i, (2, 2), 1, 0) for i in range(65)]
    for v in [(1, 0), (2, 0), (2, 2), (3, 0)]:
        out += [("place", v, i, k, n) for i in range(5) for k in range(5) for n in range(3)]
    out += [("close", m, k) for m in ("finalize", "take_finalize") for k in range(5)]
    out += [("begin", m, v) for m in ("new", "begin_child", "add_offset", "reserve_value") for v in ((1, 0), (2, 2))]
    lists = [(), ("Time",), ("Expire",), ("PublicKey",), ("Time", "Expire", "PublicKey"), ("PublicKey", "Time")]
    out += [("headers", x, v, b) for x in lists for v in VERSIONS for b in (False, True)]
    out += [("header_read", k, m) for k in ("Time", "Expire", "PublicKey") for m in ("load", "skip")]
    out += [("skip_all", k) for k in range(4)]
    top = 520 if tier == "quick" else 1300
    for k in ("Bytes", "FixedBytes", "String"):
        for m in (1, 2):
            out += [("all_chains", k, m, i, min(i + 130, top)) for i in range(0, top, 130)]
    out += [("unchain",), ("step",), ("since",), ("ends", 0), ("ends", 1)]
    out += [("step_ref", m, b) for m in (1, 2, 3) for b in (0, 1)]
    for t in ("AbiValue", "NamedAbiValue"):
        for v in ((1, 0), (2, 3)):
            out += [("entry", t, m, k, v) for m in ("tuple_to_builder", "tuple_to_cell") for k in range(4)]
            out += [("entry", t, m, 1, v) for m in ("make_builder", "make_cell")]
        out += [("entry_read", t, m, k, 1, 0) for m in ("load_tuple", "load_tuple_partial") for k in range(4)]
        out += [("entry_read", t, "load_tuple_ext", k, a, b) for k in range(4) for a in (0, 1) for b in (0, 1)]
        out += [("entry_read", t, m, 1, 1, 0) for m in ("load", "load_partial")]
    out += [("plain", "Bool", None), ("plain", "Address", None), ("keys_all", "Uint"), ("keys_all", "Int")]
    for k in ("VarUint", "VarInt"):
        out += [("reads", k, i, (2, 2), 1, 0) for i in (1, 2, 3, 4, 5, 8, 9, 16, 17, 32, 33, 64, 128, 129, 255)]
    return out


def any_job(j):
    probs, n = [], 0
    try:
        if j[0] in ("write", "most"):
            args = [j[2]]
            if j[1] in ("VarUint", "VarInt"):
                args = list(range(1, 256)) if j[0] == "most" else list(range(1, 34)) + [64, 65, 128, 129, 255]
            for a in args:
                p, m = write(j[1], a, *j[3:]) if j[0] == "write" else most(j[1], a)
                probs += p
                n += m
                if probs:
                    break
        else:
            probs, n = globals()[j[0]](*j[1:])
    except GIVE_UP as x:
        probs = [("undecided", "%s: %s: %s" % (j, type(x).__name__, x))]
    if n == 0 and not probs:
        probs = [("vacuous", "%s: nothing was analysed" % (j,))]
    return j, probs, n


def many(js):
    return [any_job(j) for j in js]


def chunks(js, n=40):
    return [js[i::n] for i in range(n) if js[i::n]]


WHAT = {"write": "layout", "most": "size", "reads": "reading", "place": "packing", "close": "packing", "begin": "packing", "headers": "headers",
        "header_read": "headers", "skip_all": "headers", "all_chains": "bytes", "unchain": "bytes", "step": "cells", "step_ref": "cells",
        "ends": "cells", "since": "version", "entry": "entry", "entry_read": "entry", "plain": "keys", "keys_all": "keys"}


def check(cx):
    load(cx.prog("main"))
    for r in pmap(many, chunks(jobs(cx.tier))):
        for j, pr, n in r:
            cx.count("cases")
            cx.count("paths", n)
            cx.count(WHAT[j[0]] + " cases")
            if cx.counts["cases"] % 60 == 1:
                cx.sample("%s: %d paths" % (j, n))
            for kind, text in pr:
                if kind == "undecided":
                    cx.bad("%s:%s" % (j[0], kind), text)
                else:
                    cx.bad("%s.%s:%s" % (WHAT[j[0]], j[1] if len(j) > 1 and isinstance(j[1], str) else j[0], kind), text)
    for k, v in FLOORS.items():
        cx.floor(k, v)


FLOORS = {"cases": 1350, "paths": 13000, "layout cases": 280, "reading cases": 400, "packing cases": 310, "bytes cases": 25}


def load(prog):
    global _p
    _p = prog
