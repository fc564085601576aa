"""C11: bounded integers.

The integer types of the models (VarUint24, VarUint56, Tokens, VarUint248, Uint9, Uint12, Uint15, SplitDepth) keep a primitive integer
that may exceed the range of the type.  Each operation is run from its MIR on unknown integers: affine forms over range-bounded
variables for sums and comparisons, vectors of unknown bits for shifts and encodings (the position of the highest bit is
enumerated), and a variable of its own for a product or quotient of two unknowns.  The result of every path is compared with the
mathematical result, case by case: in range, above the range, below zero."""
from cellcore import *
from par import pmap

EXPLAIN = __doc__
ASSUMPTIONS = ["rustc's MIR is what is compiled", "core integer operations behave as documented",
               "a product or quotient of two unknown primitive integers is only known by its bounds"]
NUM = "tycho_types::num::"
V = NUM + "varuint248::VarUint248"
GIVE_UP = (Undecided, KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError, RecursionError)
# name -> inner width, bits of the range, bits of the length (None: fixed width)
T = {"VarUint24": (32, 24, 2), "VarUint56": (64, 56, 3), "Tokens": (128, 120, 4),
     "Uint9": (16, 9, None), "Uint12": (16, 12, None), "Uint15": (16, 15, None)}
_p = None
A_, B_ = (("A", 1),), (("B", 1),)


def bodies(nm, fn):
    """inherent function or trait impl of the type"""
    full = V if nm == "VarUint248" else NUM + nm
    out = []
    for b in _p.bodies.values():
        if b["nm"] != fn or b.get("kind") == "closure":
            continue
        pa = b["path"]
        if pa == full + "::" + fn or pa.startswith("<" + full + " as ") or pa.startswith("<impl ") and full in pa or "::<impl " in pa and full in pa:
            out.append(b)
    if not out:
        raise Undecided("%s::%s is not there" % (nm, fn))
    return out


def full_range(st, v, w):
    st.var(v, 0, (1 << w) - 1)


def conds_add(st, conds):
    for c, t in conds:
        if not st.add(c, t):
            return False
    return feasible(st.all_cons())


def cases_ok(ip, traces, cases, val, what, out):
    """cases: [(name, conditions, expected)]; val(state, trace) -> (kind, affine or None)"""
    for t in traces:
        if t.kind == "panic":
            for nm, cond, want in cases:
                s = t.st.copy()
                if conds_add(s, cond) and want != ("panic",):
                    out.append(("panic", "%s panics where %s" % (what, nm)))
                    break
            continue
        for nm, cond, want in cases:
            s = t.st.copy()
            if not conds_add(s, cond):
                continue
            k, v = val(s, t)
            if want[0] == "any":
                continue
            if k != want[0]:
                out.append(("result", "%s is %s where %s, must be %s" % (what, k, nm, want[0])))
                break
            if len(want) > 1 and (v is None or not same_int(s, v, *want[1])):
                out.append(("value", "%s is %r where %s, must be %r" % (what, v, nm, Af(0, False, *want[1]))))
                break
    if not traces:
        raise Undecided("no path")
    return out


def word(ip, st, x):
    """integer of an Ag wrapper, affine"""
    while isinstance(x, Ref):
        x = ip.read(st, x.root, x.path)
    while isinstance(x, Ag) and len(x.f) == 1:
        x = x.f[0]
    if isinstance(x, Arr):
        lo, hi = ip.elem(st, x, K(0)), ip.elem(st, x, K(1))
        lo, hi = ip.affine(st, lo), ip.affine(st, hi)
        if lo is None or hi is None:
            return None
        c, t = lin_add((lo.c, lo.t), 1, (hi.c, hi.t), 1 << 128)
        return Af(512, False, c, t)
    return ip.affine(st, x) if isinstance(x, (Af, Bv)) else None


def opt_val(ip):
    def f(st, t):
        v = t.val
        if not isinstance(v, Ag):
            return "?", None
        if v.k == OPTION:
            return ("some", word(ip, st, v.f[0])) if v.v else ("none", None)
        if v.k == RESULT:
            if v.v == 0:
                return "ok", (word(ip, st, v.f[0]) if v.f and v.f[0] != UNIT else None)
            return "err", None
        return "val", word(ip, st, v)
    return f


def mem_val(ip, root, inner=None):
    """for functions that change self; kind from the result"""
    def f(st, t):
        k = "val"
        if isinstance(t.val, Ag) and t.val.k == RESULT:
            k = "ok" if t.val.v == 0 else "err"
        return k, word(ip, st, st.mem[root])
    return f


def plain_val(ip):
    def f(st, t):
        return "val", word(ip, st, t.val)
    return f


def neg(q):
    return (-q[0], tuple((v, -k) for v, k in q[1]))


def le(a, b):
    """a <= b as a constraint"""
    return lin_add(b, 1, a, -1)


def lt(a, b):
    c, t = lin_add(b, 1, a, -1)
    return (c - 1, t)


def start(nm, ops=("A", "B")):
    ip = Interp(_p)
    ip.uninterp = True
    st = ip.state()
    if nm == "VarUint248":
        vals, forms = [], []
        for o in ops:
            full_range(st, o + "l", 128)
            full_range(st, o + "h", 128)
            vals.append(v248(Af(128, False, 0, ((o + "l", 1),)), Af(128, False, 0, ((o + "h", 1),))))
            forms.append((0, tuple(sorted(((o + "l", 1), (o + "h", 1 << 128)), key=repr))))
        return ip, st, vals, forms
    w = T[nm][0]
    vals, forms = [], []
    for o in ops:
        full_range(st, o, w)
        vals.append(Ag(NUM + nm, 0, (Af(w, False, 0, ((o, 1),)),)))
        forms.append((0, ((o, 1),)))
    return ip, st, vals, forms


def v248(lo, hi):
    return Ag(V, 0, (Arr(K(2), {((), 0): lo, ((), 1): hi}),))


def pass_arg(ip, st, b, i, v, root):
    """by value or by reference, as the function wants it"""
    ty = _p.ty(b["locals"][i][0])
    if ty[0] == "ref":
        st.mem[root] = v
        return Ref(root)
    return v


def norm(c, t):
    return lin_add((c, t), 1, (0, ()), 0)


def checked(nm, fn):
    """checked_* and saturating_*, try_*_assign"""
    big = nm == "VarUint248"
    ip, st, (a, b), (fa, fb) = start(nm)
    rng = 248 if big else T[nm][1]
    top_ = (1 << rng) - 1
    body = bodies(nm, fn)[0]
    op = fn.replace("checked_", "").replace("saturating_", "").replace("try_", "").replace("_assign", "")
    out = []
    if op == "mul" and big:
        return checked_mul248(fn)
    args = [pass_arg(ip, st, body, 1, a, ("A",)), pass_arg(ip, st, body, 2, b, ("B",))]
    traces = ip.run(st, body, args)
    zero = (0, ())
    kind = "some" if fn.startswith("checked") else "ok" if fn.startswith("try") else "val"
    bad = {"some": ("none",), "ok": ("err", norm(*fa))}.get(kind)
    if op == "add":
        r = lin_add(fa, 1, fb, 1)
        cases = [("the sum fits", [le(r, (top_, ()))], (kind, r)),
                 ("the sum is too big", [lt((top_, ()), r)], bad or (kind, (top_, ())))]
    elif op == "sub":
        r = lin_add(fa, 1, fb, -1)
        cases = [("the difference fits", [le(zero, r), le(r, (top_, ()))], (kind, r)),
                 ("the difference is too big", [lt((top_, ()), r)], bad or (kind, (top_, ()))),
                 ("the difference is negative", [lt(r, zero)], bad or (kind, zero))]
    elif op == "mul":
        q = "mul(%s)" % ", ".join(sorted("%r" % (z,) for z in (fa, fb)))
        r = (0, ((q, 1),))
        cases = [("the product fits", [le(r, (top_, ()))], (kind, r)),
                 ("the product is too big", [lt((top_, ()), r)], bad or (kind, (top_, ())))]
        for t in traces:
            if q not in t.st.vr:
                raise Undecided("no product")
    elif op == "div":
        q = "Div(%r, %r)" % (fa, fb)
        r = (0, ((q, 1),))
        pos = [lt(zero, fb)]
        cases = [("the quotient fits", pos + [le(r, (top_, ()))], (kind, r)),
                 ("the quotient is too big", pos + [lt((top_, ()), r)], bad or (kind, (top_, ()))),
                 ("the divisor is zero", [le(fb, zero)], bad or (kind, zero))]
        for t in traces:
            if q not in t.st.vr:
                cases2 = [c for c in cases if "zero" in c[0] or t.kind == "panic"]
                s = t.st.copy()
                if s.add(*lt(zero, fb)) and feasible(s.all_cons()):
                    raise Undecided("no quotient")
    val = opt_val(ip) if kind != "ok" else mem_val(ip, ("A",))
    if op == "div":
        val0 = val
        def val(s, t):
            return val0(s, t)
    cases_ok(ip, traces, cases, val, "%s::%s" % (nm, fn), out)
    return out, len(traces)


def halves(st, o):
    """a word as two half words"""
    for h in "01":
        st.var(o + h, 0, (1 << 64) - 1)
    return Af(128, False, 0, tuple(sorted(((o + "0", 1), (o + "1", 1 << 64)), key=repr)))


def mul_setup(za, zb, lim=128):
    """za, zb: the high word is zero"""
    ip = Interp(_p)
    ip.uninterp = True
    st = ip.state()
    al, bl = halves(st, "Al"), halves(st, "Bl")
    hs = []
    for o, z in (("Ah", za), ("Bh", zb)):
        if z:
            hs.append(K(0, 128))
        else:
            st.var(o, 1, (1 << lim) - 1)
            hs.append(Af(128, False, 0, ((o, 1),)))
    return ip, st, al, bl, hs[0], hs[1]


def product(ip, st, x, y):
    if not x.t and x.c == 0 or not y.t and y.c == 0:
        return (0, ())
    return (0, (("mul(%s)" % ", ".join(sorted("%r" % ((z.c, z.t),) for z in (x, y))), 1),))


def low_product():
    """(a0 + 2^64 a1) (b0 + 2^64 b1) by its four products"""
    r = (0, ())
    for i in "01":
        for j in "01":
            n = "mul(%s)" % ", ".join(sorted("%r" % ((0, ((v, 1),)),) for v in ("Al" + i, "Bl" + j)))
            r = lin_add(r, 1, (0, ((n, 1),)), 1 << 64 * (int(i) + int(j)))
    return r


def declare(st, q):
    """bounds of products that a path did not need"""
    for v, _ in q[1]:
        if v.startswith("mul(") and v not in st.vr:
            hi = (1 << 64) - 1 if "Al" in v and "Bl" in v and "1 <<" not in v and "18446744073709551616" not in v else (1 << 128) - 1
            st.var(v, 0, hi * hi)


def checked_mul248(fn):
    out, n = [], 0
    top_ = (1 << 248) - 1
    body = bodies("VarUint248", fn)[0]
    kind = "some" if fn.startswith("checked") else "val"
    bad = ("none",) if kind == "some" else ("val", (top_, ()))
    for za in (0, 1):
        for zb in (0, 1):
            ip, st, al, bl, ah, bh = mul_setup(za, zb, 120)
            a, b = v248(al, ah), v248(bl, bh)
            args = [pass_arg(ip, st, body, 1, a, ("A",)), pass_arg(ip, st, body, 2, b, ("B",))]
            traces = ip.run(st, body, args)
            n += len(traces)
            over = []
            if not za and not zb:
                cases = [("both high words are set", [], bad)]
            else:
                r = lin_add(low_product(), 1, product(ip, st, ah, bl), 1 << 128)
                r = lin_add(r, 1, product(ip, st, al, bh), 1 << 128)
                words = ((1 << 256) - 1, ())
                cases = [("the product fits", [le(r, (top_, ()))], (kind, r)), ("the product is too big for the words", [lt(words, r)], bad)]
                over = [("the product is above the range", [lt((top_, ()), r), le(r, words)], bad)]
                for t in traces:
                    declare(t.st, r)
            cases_ok(ip, traces, cases, opt_val(ip), "VarUint248::%s" % fn, out)
            for k, text in cases_ok(ip, traces, over, opt_val(ip), "VarUint248::%s" % fn, []) if over else []:
                out.append(("above-range", text))
    return out, n


OPS = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "add_assign": "Add", "sub_assign": "Sub", "mul_assign": "Mul", "div_assign": "Div", "rem": "Rem", "rem_assign": "Rem"}


def operators(nm, fn):
    """+ - * / of every right-hand side, where the result fits the inner integer"""
    big = nm == "VarUint248"
    w = 256 if big else T[nm][0]
    op = OPS[fn]
    out, n = [], 0
    for body in bodies(nm, fn):
        rty = _p.ty(body["locals"][2][0])
        rty = rty[2] if rty[0] == "ref" else rty
        small = rty[0] == "int"
        if big and op == "Mul":
            o, k = mul248(body, small)
            out += o
            n += k
            continue
        ip, st, (a, b), (fa, fb) = start(nm)
        if small:
            iw = 128 if big else T[nm][0]
            full_range(st, "S", iw)
            b, fb = Af(iw, False, 0, (("S", 1),)), (0, (("S", 1),))
        if big and op in ("Div", "Rem"):
            # only where the high words are zero, or the divisor is greater
            st.add(0, (("Ah", -1),))
            if not small:
                st.add(0, (("Bh", -1),))
            a = v248(Af(128, False, 0, (("Al", 1),)), K(0, 128))
            fa = (0, (("Al", 1),))
            if not small:
                b = v248(Af(128, False, 0, (("Bl", 1),)), K(0, 128))
                fb = (0, (("Bl", 1),))
        args = [pass_arg(ip, st, body, 1, a, ("A",)), pass_arg(ip, st, body, 2, b, ("B",))]
        traces = ip.run(st, body, args)
        n += len(traces)
        top_, zero = ((1 << w) - 1, ()), (0, ())
        if op == "Add":
            r = lin_add(fa, 1, fb, 1)
            cases = [("the sum fits the words", [le(r, top_)], ("val", r))]
        elif op == "Sub":
            r = lin_add(fa, 1, fb, -1)
            cases = [("the difference is not negative", [le(zero, r)], ("val", r))]
        elif op == "Mul":
            r = (0, (("mul(%s)" % ", ".join(sorted("%r" % (z,) for z in (fa, fb))), 1),))
            cases = [("the product fits the word", [le(r, top_)], ("val", r))]
        else:
            r = (0, (("%s(%r, %r)" % (op, fa, fb), 1),))
            cases = [("the divisor is not zero", [lt(zero, fb)], ("val", r)), ("the divisor is zero", [le(fb, zero)], ("panic",))]
        val = mem_val(ip, ("A",)) if fn.endswith("assign") else plain_val(ip)
        cases_ok(ip, traces, cases, val, "%s of %s" % (fn, body["path"].split("::")[-2][:40] if big else nm), out)
    return out, n


def mul248(body, small):
    out, n = [], 0
    top_ = ((1 << 256) - 1, ())
    for za in (0, 1):
        for zb in ((1,) if small else (0, 1)):
            if not za and not zb:
                continue
            ip, st, al, bl, ah, bh = mul_setup(za, zb)
            a, b = v248(al, ah), bl if small else v248(bl, bh)
            args = [pass_arg(ip, st, body, 1, a, ("A",)), pass_arg(ip, st, body, 2, b, ("B",))]
            traces = ip.run(st, body, args)
            n += len(traces)
            r = lin_add(low_product(), 1, product(ip, st, ah, bl), 1 << 128)
            r = lin_add(r, 1, product(ip, st, al, bh), 1 << 128)
            for t in traces:
                declare(t.st, r)
            val = mem_val(ip, ("A",)) if body["nm"].endswith("assign") else plain_val(ip)
            cases_ok(ip, traces, [("the product fits the words", [le(r, top_)], ("val", r))], val, "%s of VarUint248" % body["nm"], out)
    return out, n


def shifts(nm, fn, k):
    big = nm == "VarUint248"
    w = 256 if big else T[nm][0]
    out, n = [], 0
    for body in bodies(nm, fn):
        rty = _p.ty(body["locals"][2][0])
        ip = Interp(_p)
        st = ip.state()
        bits = [sym("a", i) for i in range(w)]
        a = v248(ip.mkbits(128, False, bits[:128]), ip.mkbits(128, False, bits[128:])) if big else Ag(NUM + nm, 0, (ip.mkbits(w, False, bits),))
        want = bits[k:] + [0] * k if fn.startswith("shr") else [0] * k + bits[:w - k]
        traces = ip.run(st, body, [pass_arg(ip, st, body, 1, a, ("A",)), Af(rty[1], rty[2], k)])
        for t in traces:
            n += 1
            if t.kind == "panic":
                out.append(("panic", "%s::%s by %d panics" % (nm, fn, k)))
                continue
            x = t.st.mem[("A",)] if fn.endswith("assign") else t.val
            x = x.f[0]
            got = ip.bits(t.st, ip.elem(t.st, x, K(0))) + ip.bits(t.st, ip.elem(t.st, x, K(1))) if big else ip.bits(t.st, x)
            if [t.st.bit(y) for y in got] != want:
                i = [t.st.bit(y) == z for y, z in zip(got, want)].index(False)
                out.append(("value", "%s::%s by %d: bit %d is %s" % (nm, fn, k, i, show_bit(got[i]))))
    return out, n


def top_bits(nm, p):
    """a value whose highest bit is p (-1: zero)"""
    w = 256 if nm == "VarUint248" else T[nm][0]
    return [sym("a", i) if i < p else int(i == p) for i in range(w)]


def mk(ip, nm, bits):
    if nm == "VarUint248":
        return v248(ip.mkbits(128, False, bits[:128]), ip.mkbits(128, False, bits[128:]))
    return Ag(NUM + nm, 0, (ip.mkbits(T[nm][0], False, bits),))


def measures(nm, p):
    """is_zero, is_valid, bit_len and the like by the highest bit"""
    big = nm == "VarUint248"
    rng, lb = (248, 5) if big else T[nm][1:]
    out, n = [], 0
    by = (p + 8) // 8
    want = {"is_zero": int(p < 0), "is_valid": int(p < rng)}
    if lb is not None:
        fits = by <= rng // 8
        want["bit_len"] = lb + 8 * by if fits else None
        if not big:
            want["unwrap_bit_len"] = lb + 8 * by if fits else lb + rng
    if big:
        want["leading_zeros"] = 255 - p
    for fn, w in want.items():
        ip = Interp(_p)
        st = ip.state()
        v = mk(ip, nm, top_bits(nm, p))
        if big and p >= 128:
            full_range(st, "L", 128)
            v = v248(Af(128, False, 0, (("L", 1),)), v.f[0].d[((), 1)])
        body = bodies(nm, fn)[0]
        for t in ip.run(st, body, [pass_arg(ip, st, body, 1, v, ("A",))]):
            n += 1
            if t.kind == "panic":
                out.append(("panic", "%s::%s panics" % (nm, fn)))
                continue
            x = t.val
            if isinstance(x, Ag) and x.k == OPTION:
                x = x.f[0] if x.v else None
            got = None
            if x is not None:
                g = ip.affine(t.st, x)
                got = g.c if g is not None and not g.t else repr(x)
            if got != w:
                out.append((fn, "%s::%s of a value of %d bits is %s, must be %s" % (nm, fn, p + 1, got, w)))
    # conversion from the inner integer
    if not big:
        ip = Interp(_p)
        st = ip.state()
        for b in bodies(nm, "try_from"):
            for t in ip.run(st, b, [ip.mkbits(T[nm][0], False, top_bits(nm, p))]):
                n += 1
                if t.kind == "panic" or not isinstance(t.val, Ag):
                    out.append(("try_from", "panics"))
                elif (t.val.v == 0) != (p < rng):
                    out.append(("try_from", "%s::try_from of a value of %d bits %s" % (nm, p + 1, "succeeds" if t.val.v == 0 else "fails")))
                elif t.val.v == 0 and ip.bits(t.st, t.val.f[0].f[0]) != top_bits(nm, p):
                    out.append(("try_from", "%s::try_from changes the value" % nm))
    return out, n


class Sink:
    """records what a store writes"""

    def __init__(s):
        pass

    def hook(s, ip, st, c, a):
        nm = c["nm"]
        if nm == "has_capacity":
            s2 = st.copy()
            n = ip.affine(st, a[1])
            st.mem[("CAP",)] = n
            s2.mem[("CAP",)] = n
            s2.mem[("NOCAP",)] = True
            return [(st, K(1, 1)), (s2, K(0, 1))]
        if nm in ("store_small_uint", "store_uint") and "Builder" in c["path"]:
            n = ip.affine(st, a[2])
            if n is None or n.t:
                raise Undecided("unknown width")
            b = ip.bits(st, a[1])
            b = (b + [0] * 64)[:n.c] if n.c <= 64 else b + [0] * (n.c - len(b))
            ok, bad = st, st.copy()
            ok.mem[("W",)] = Opq("w", (ok.mem[("W",)].args if ("W",) in ok.mem else ()) + tuple(reversed(b)))
            bad.mem[("FAIL",)] = True
            return [(ok, Ok(UNIT)), (bad, Err(Opq("E")))]
        return None


def store(nm, p):
    big = nm == "VarUint248"
    rng, lb = (248, 5) if big else T[nm][1:]
    ip = Interp(_p, hooks=[Sink().hook])
    st = ip.state()
    bits = top_bits(nm, p)
    st.mem[("A",)] = mk(ip, nm, bits)
    st.mem[("BB",)] = Opq("builder")
    out, n, oks = [], 0, 0
    body = [b for b in bodies(nm, "store_into")][0]
    by = (p + 8) // 8
    fits = p < rng
    for t in ip.run(st, body, [Ref(("A",)), Ref(("BB",)), Opq("cx")]):
        n += 1
        if t.kind == "panic":
            out.append(("store", "%s: storing a value of %d bits panics" % (nm, p + 1)))
            continue
        m = t.st.mem
        w = m[("W",)].args if ("W",) in m else ()
        if t.val.v == 0:
            oks += 1
            if m.get(("FAIL",)) or m.get(("NOCAP",)):
                out.append(("store", "%s: succeeds although writing failed" % nm))
                continue
            if not fits:
                out.append(("store", "%s: a value of %d bits is stored" % (nm, p + 1)))
                continue
            if lb is None:
                want = list(reversed(bits[:rng]))
            else:
                want = [(by >> i) & 1 for i in reversed(range(lb))] + list(reversed(bits[:8 * by]))
            if [t.st.bit(x) for x in w] != want:
                out.append(("store", "%s: a value of %d bits is written as %d bits %s" % (nm, p + 1, len(w), "".join(show_bit(x) + " " for x in w[:12]))))
        elif fits and not m.get(("FAIL",)) and not m.get(("NOCAP",)):
            out.append(("store", "%s: a value of %d bits is refused" % (nm, p + 1)))
        elif m.get(("NOCAP",)) and w:
            out.append(("store", "%s: writes although there is no room" % nm))
        elif m.get(("NOCAP",)):
            cap = m[("CAP",)]
            if lb is not None and not (cap is not None and not cap.t and cap.c == lb + 8 * by):
                out.append(("store", "%s: asks for room for %r bits, writes %d" % (nm, cap, lb + 8 * by)))
    if fits and not oks:
        out.append(("store", "%s: a value of %d bits is never stored" % (nm, p + 1)))
    return out, n


def load(nm, ln):
    """ln: value of the length prefix"""
    big = nm == "VarUint248"
    rng, lb = (248, 5) if big else T[nm][1:]
    reads = []

    def hook(ip, st, c, a):
        fn = c["nm"]
        if fn in ("load_small_uint", "load_uint") and "Slice" in c["path"]:
            n = ip.affine(st, a[1])
            if n is None or n.t:
                raise Undecided("unknown width")
            n = n.c
            pos = st.mem[("POS",)].c
            w = 8 if fn == "load_small_uint" else 64
            bad = st.copy()
            bad.mem[("FAIL",)] = True
            if n > w:
                raise Undecided("width %d" % n)
            total = rng if lb is None else 8 * ln
            if lb is not None and pos == -lb and n == lb:
                v = K(ln, w)
            elif pos < 0:
                raise Undecided("length read in parts")
            else:
                # bit i of what follows, the most significant first
                bs = [sym("a", total - 1 - (pos + i)) if pos + i < total else sym("past", pos + i) for i in range(n)]
                v = ip.mkbits(w, False, list(reversed(bs)) + [0] * (w - n))
            st.mem[("POS",)] = K(pos + n)
            return [(st, Ok(v)), (bad, Err(Opq("E")))]
        return None
    ip = Interp(_p, hooks=[hook])
    st = ip.state()
    st.mem[("S",)] = Opq("slice")
    st.mem[("POS",)] = K(-lb if lb is not None else 0)
    out, n = [], 0
    total = rng if lb is None else 8 * ln
    want = [sym("a", i) for i in range(total)]
    for t in ip.run(st, bodies(nm, "load_from")[0], [Ref(("S",))]):
        n += 1
        if t.kind == "panic":
            out.append(("load", "%s: reading %d bytes panics" % (nm, ln)))
            continue
        if t.val.v:
            if not t.st.mem.get(("FAIL",)):
                out.append(("load", "%s: a value of %d bytes is refused" % (nm, ln)))
            continue
        if t.st.mem.get(("FAIL",)):
            out.append(("load", "%s: succeeds although reading failed" % nm))
            continue
        x = t.val.f[0].f[0]
        got = ip.bits(t.st, ip.elem(t.st, x, K(0))) + ip.bits(t.st, ip.elem(t.st, x, K(1))) if big else ip.bits(t.st, x)
        if got != want + [0] * (len(got) - len(want)) or t.st.mem[("POS",)].c != total:
            out.append(("load", "%s: a value of %d bytes is read as another" % (nm, ln)))
    return out, n


def compare248(fn):
    out, n = [], 0
    for body in bodies("VarUint248", fn):
        ip, st, (a, b), (fa, fb) = start("VarUint248")
        rty = _p.ty(body["locals"][2][0])
        if rty[0] == "ref" and rty[2][0] == "int":
            full_range(st, "S", 128)
            b, fb = Af(128, False, 0, (("S", 1),)), (0, (("S", 1),))
        args = [pass_arg(ip, st, body, 1, a, ("A",)), pass_arg(ip, st, body, 2, b, ("B",))]
        d = lin_add(fa, 1, fb, -1)
        for t in ip.run(st, body, args):
            n += 1
            if t.kind == "panic":
                out.append(("compare", "%s panics" % fn))
                continue
            x = t.val
            if isinstance(x, Ag) and x.k == OPTION:
                x = x.f[0] if x.v else None
            for nm, cond, want in (("less", [lt(fa, fb)], 0), ("equal", [le(fa, fb), le(fb, fa)], 1), ("greater", [lt(fb, fa)], 2)):
                s = t.st.copy()
                if not conds_add(s, cond):
                    continue
                if fn == "eq":
                    bt = ip.bits(s, x)[0]
                    for s2 in ip.assume(s, bt, 1 - int(want == 1)):
                        if feasible(s2.all_cons()):
                            out.append(("compare", "%s of %s values can be %d" % (fn, nm, 1 - int(want == 1))))
                elif not isinstance(x, Ag) or x.v != want:
                    out.append(("compare", "%s: a %s value compares as %r" % (fn, nm, x)))
    return out, n


def constants():
    """ZERO, ONE, MIN, MAX, LEN_BITS, MAX_BITS, BITS of each type; conversions of small integers"""
    out, n = [], 0
    for nm in list(T) + ["VarUint248", "SplitDepth"]:
        rng, lb = (248, 5) if nm == "VarUint248" else (5, None) if nm == "SplitDepth" else T[nm][1:]
        want = {"ZERO": 0, "ONE": 1, "MIN": 0, "MAX": (1 << rng) - 1}
        if nm == "SplitDepth":
            want = {"MIN": 1, "MAX": 30, "BITS": 5}
        elif lb is None:
            want["BITS"] = rng
        else:
            want["LEN_BITS"], want["MAX_BITS"] = lb, lb + rng
        for k, w in want.items():
            path = (V if nm == "VarUint248" else NUM + nm) + "::" + k
            c = _p.const_by_path.get(path)
            if c is None:
                raise Undecided("no constant " + path)
            v = const_value(c)
            n += 1
            if v != w:
                out.append((k, "%s::%s is %s, must be %d" % (nm, k, v, w)))
    return out, n


def const_value(c):
    v = c
    if "v" in v:
        return int(v["v"])
    for k in ("ib", "b"):
        if k in v:
            return int.from_bytes(bytes.fromhex(v[k]), "little")
    raise Undecided("constant %s" % str(c)[:100])


def split_depth():
    out, n = [], 0
    for fn, w in (("new", 8), ("from_bit_len", 16)):
        for x in list(range(40)) + [63, 64, 128, 254, 255] + ([256, 257, 300, 65535] if w == 16 else []):
            ip = Interp(_p)
            st = ip.state()
            for t in ip.run(st, bodies("SplitDepth", fn)[0], [K(x, w)]):
                n += 1
                if t.kind == "panic":
                    out.append(("panic", "SplitDepth::%s(%d) panics" % (fn, x)))
                    continue
                want = 1 <= x <= 31
                if (t.val.v == 0) != want:
                    out.append(("range", "SplitDepth::%s(%d) %s" % (fn, x, "succeeds, but is stored in 5 bits" if t.val.v == 0 else "fails")))
                elif want:
                    g = word(ip, t.st, t.val.f[0])
                    if g is None or g.t or g.c != x:
                        out.append(("value", "SplitDepth::%s(%d) is %r" % (fn, x, g)))
    return out, n


def any_job(j):
    f = globals()[j[0]]
    try:
        out, n = f(*j[1:])
    except GIVE_UP as e:
        return j, [("undecided", "%s: %s" % (type(e).__name__, e))], 0
    return j, out, n


def jobs(tier):
    js = [("constants",), ("split_depth",)]
    for nm in list(T) + ["VarUint248"]:
        for op in ("add", "sub", "mul", "div"):
            for pre in ("checked_", "saturating_"):
                if op == "div" and (pre[0] == "s" or nm == "VarUint248"):
                    continue
                js.append(("checked", nm, pre + op))
            if T.get(nm, (0, 0, None))[2] is not None:
                js.append(("checked", nm, "try_%s_assign" % op))
        js += [("operators", nm, fn) for fn in OPS if nm == "VarUint248" or not fn.startswith("rem")]
        w = 256 if nm == "VarUint248" else T[nm][0]
        for fn in ("shr", "shl", "shr_assign", "shl_assign"):
            js += [("shifts", nm, fn, k) for k in range(w)]
        js += [("measures", nm, p) for p in range(-1, w)]
        js += [("store", nm, p) for p in range(-1, w)]
        js += [("load", nm, n) for n in (range(1 << (5 if nm == "VarUint248" else T[nm][2])) if nm == "VarUint248" or T[nm][2] else (0,))]
    js += [("compare248", fn) for fn in ("cmp", "partial_cmp", "eq")]
    return js


def many(js):
    return [any_job(j) for j in js]


def check(cx):
    global _p
    _p = cx.prog("main")
    js = jobs(cx.tier)
    first = [j for j in js if j[0] not in ("shifts", "measures", "store", "load")]
    rest = [j for j in js if j[0] in ("shifts", "measures", "store", "load")]
    for r in pmap(many, [[j] for j in first] + [rest[i:i + 30] for i in range(0, len(rest), 30)]):
        for j, pr, n in r:
            cx.count("cases")
            cx.count("paths", n)
            for kind, text in pr:
                nm = ":".join(str(x) for x in j[1:3] if not isinstance(x, int)) or j[0]
                cx.bad("%s:%s" % (nm if j[0] in ("checked", "operators", "shifts") else ":".join([j[0]] + [str(x) for x in j[1:2]]), kind), text)
    cx.floor("cases", 2500)
    cx.floor("paths", 4000)
