"""C12: labels of dictionary edges.

A label is a part of a key, for at most m remaining bits: 0 1^n 0 bits, 10 n bits or 11 b n, n in as many bits as m has.  The writers are
run for every length n <= 1021 with every class of m (the number of bits of m), with the bits of the key as opaque windows; what they append must
be the shortest of the three forms, and of equally short ones the first.  The reader is run for every class of m on unknown bits:
on every path the label that it returns is the one that the bits spell, it fails only where the bits end before the label, and it stops behind the label."""
from dictcore import *
from par import pmap

EXPLAIN = __doc__
ASSUMPTIONS = ["rustc's MIR is what is compiled", "builder and slice operations follow C05 and C06"]
M = "tycho_types::dict::"
_p = None


def body(fn):
    b = [x for x in _p.bodies.values() if x["path"] == M + fn]
    if len(b) != 1:
        raise Undecided("%s is not there" % fn)
    return b[0]


def classes():
    return [(0, 0, 0)] + [(b, 1 << (b - 1), (1 << b) - 1) for b in range(1, 11)]


def remaining(st, b, lo, hi):
    if lo == hi:
        return K(lo, 16)
    st.var("m", lo, hi)
    return Af(16, False, 0, (("m", 1),))


def encoding(n, b, uniform):
    """shortest form: tag bits and whether the bits follow.  uniform: None or the bit"""
    short, long_, same = 2 * n + 2, 2 + b + n, 3 + b
    ln = [("b", (n >> i) & 1) for i in reversed(range(b))]
    if uniform is not None and n > 0 and same < short and same < long_:
        return [("b", 1), ("b", 1), ("b", uniform)] + ln, False
    if short <= long_:
        return [("b", 0)] + [("b", 1)] * n + [("b", 0)], True
    return [("b", 1), ("b", 0)] + ln, True


def uniform_of(D, st, w):
    """what the path knows of a window: (known, None | bit)"""
    for k, v in st.mem.items():
        if k[:2] == ("G", "uniform") and k[2] == w[1] and zero(st, sub(k[3], w[2])) and zero(st, sub(k[4], w[3])):
            return True, (st.bit(v.f[0].c) if v.v else None)
    return False, None


def write(b, lo, hi, n, fn, split=None, bit=0):
    """write_label of n bits; write_label_parts of split + 1 + (n - split - 1) bits"""
    D = Dict(_p)
    ip = Interp(_p, [D.hook])
    st = ip.state()
    m = remaining(st, b, max(lo, n), hi)
    st.mem[("B",)] = Opq("log", ((("x", ("before",)),),))
    ws = []
    if fn == "write_label":
        k = D.key(ip, st, num(n))
        st.mem[("K",)] = k
        ws = [D.win(st, k)]
        args = [Ref(("K",)), m, Ref(("B",))]
    else:
        k = D.key(ip, st, num(split), "pfx")
        r = D.key(ip, st, num(n - split - 1), "rem")
        st.mem[("K",)], st.mem[("R",)] = k, r
        ws = [D.win(st, k), ("b", bit), D.win(st, r)]
        args = [Ref(("K",)), K(bit, 1), Ref(("R",)), m, Ref(("B",))]
    out, done = [], 0
    tr = ip.run(st, body(fn), args)
    same_wins = 3 + b < min(2 * n + 2, 2 + b + n)
    for t in tr:
        if t.kind == "panic":
            out.append(("panic", "panics for %d bits of at most %d" % (n, hi)))
            continue
        s = t.st
        uni = None
        if same_wins:
            known = True
            vals = []
            for w in ws:
                if w[0] == "b":
                    vals.append(w[1])
                elif not zero(s, w[3]):
                    k_, u = uniform_of(D, s, w)
                    vals.append(u if k_ else "?")
            if all(v == vals[0] for v in vals) and vals[0] in (0, 1):
                uni = vals[0]
            elif not any(v is None for v in vals) and not {0, 1} <= set(vals):
                known = False
        tag, follow = encoding(n, b, uni)
        size = len(tag) + (n if follow else 0)
        items = s.mem[("B",)].args[0]
        if items[:1] != (("x", ("before",)),):
            out.append(("content", "what was in the builder before is changed"))
            continue
        if t.val.v != 0:
            if not s.mem.get(ERRSRC) and size <= MAX:
                out.append(("refuses", "a label of %d bits of at most %d is refused" % (n, hi)))
            continue
        if s.mem.get(ERRSRC):
            out.append(("error", "succeeds although %s failed" % s.mem[ERRSRC][0]))
            continue
        if same_wins and not known:
            out.append(("form", "%d bits of at most %d: the form does not depend on whether all bits are equal" % (n, hi)))
            continue
        done += 1
        want = tag + ([w for w in ws] if follow else [])
        d = diff_items(D, s, norm(D, s, items[1:]), norm(D, s, tuple(want)))
        if d:
            out.append(("form", "%d bits of at most %d: %s" % (n, hi, d[:200])))
    if not done and min(2 * n + 2, 2 + b + n) <= MAX:
        out.append(("vacuous", "never succeeds"))
    return out, len(tr)


def read(b, lo, hi):
    D = Dict(_p)
    ip = Interp(_p, [D.hook], max_steps=4000000)
    st = ip.state()
    m = remaining(st, b, lo, hi)
    cell = cellv("key")
    st.var("Ckey", 0, MAX)
    st.var("Nkey", 0, 4)
    st.var("X", 0, MAX)
    st.add(0, (("Ckey", 1), ("X", -1)))
    x = (0, (("X", 1),))
    sl = D.slice(ip, st, cell, x, (0, (("Ckey", 1),)))

    def content(s, c, pos):
        if c == ("key",):
            d = sub(pos, x)
            if not d[1]:
                return s.bit(sym("e", d[0]))
        return None
    D.bitfn = content
    st.mem[("S",)] = sl
    tr = ip.run(st, body("read_label"), [Ref(("S",)), m])
    out, oks, forms = [], 0, set()
    avail = (0, (("Ckey", 1), ("X", -1)))
    for t in tr:
        s = t.st
        if t.kind == "panic":
            out.append(("panic", "panics (%s) reading a label for at most %d bits" % (t.why[0], hi)))
            continue
        if flags_text(s):
            out.append(("arith", flags_text(s)))
            continue
        e = [s.bit(sym("e", i)) for i in range(1100)]
        form, L, at, who = None, None, None, ("key",)
        if b == 0 and zero(s, avail):
            form, L, at = "none", (0, ()), 0
        elif e[0] == 0:
            i = 1
            while i < 1099 and e[i] == 1:
                i += 1
            if e[i] == 0:
                form, L, at = "short", (i - 1, ()), i + 1
        elif e[0] == 1 and e[1] in (0, 1):
            j = 2 if e[1] == 0 else 3
            if b == 0:
                L = (0, ())
            else:
                v = ip.affine(s, ip.mkbits(16, False, list(reversed(e[j:j + b])) + [0] * (16 - b)))
                L = lform(v) if v is not None else None
                if L is None:
                    L = lform(ip.var_of(s, ip.mkbits(64, False, list(reversed(e[j:j + b])) + [0] * (64 - b))))
            form, at = ("long" if e[1] == 0 else "same"), j + b
            if e[1] == 1:
                who = {0: ("zeros",), 1: ("ones",)}.get(e[2])
        forms.add(form)
        if t.val.v != 0:
            if form is None:
                # the bits ended within the tag
                known = [i for i in range(1100) if e[i] in (0, 1)]
                k = (max(known) + 1) if known else 0
                if s.possible(*sub(avail, num(k + 1))):
                    out.append(("refuses", "fails within the tag although there are more bits"))
                continue
            need = num(at) if form == "same" else add(num(at), L)
            too_long = s.copy()
            if conj(too_long, sub(avail, need), sub(lform(m), L)):
                out.append(("refuses", "fails for a complete label of the %s form" % form))
            continue
        oks += 1
        if form is None or who is None:
            out.append(("accepts", "a label is returned before its form is known"))
            continue
        v = t.val.f[0]
        w = D.win(s, v)
        r = D.rf(s, s.mem[("S",)])
        if not same_len(s, w[3], L, form):
            out.append(("length", "the label of the %s form has %s bits instead of %s" % (form, show_l(w[3]), show_l(L))))
            continue
        if not zero(s, w[3]) and (w[1] != who or not zero(s, sub(w[2], add(x, num(at)) if who == ("key",) else w[2]))):
            out.append(("bits", "the label of the %s form is %s" % (form, show_items((w,)))))
        used = num(at) if form == "same" else add(num(at), L)
        if not zero(s, sub(sub(lform(r["bits_start"]), x), used)):
            out.append(("position", "behind the label of the %s form the position is %s" % (form, show_l(sub(lform(r["bits_start"]), x)))))
        if not same_af(s, r["bits_end"], get(_p, get(_p, sl, "range"), "bits_end")) or not same_af(s, r["refs_start"], get(_p, get(_p, sl, "range"), "refs_start")):
            out.append(("position", "the end or the references are changed"))
    for f in ("short", "long", "same"):
        if f not in forms:
            out.append(("vacuous", "no path for the %s form" % f))
    return out, len(tr)


def same_len(s, have, L, form):
    if zero(s, sub(have, L)):
        return True
    # all bits of the static cell
    return form == "same" and zero(s, sub(have, num(MAX))) and s.holds(*sub(L, num(MAX)))


def conj(st, *cons):
    for c in cons:
        if not st.add(*c):
            return False
    return feasible(st.all_cons())


def statics():
    """the cells behind labels of equal bits have 1023 of them"""
    out, n = [], 0
    for fn, bit in (("all_zeros_ref", 0), ("all_ones_ref", 1)):
        bs = [b for b in _p.bodies.values() if b["nm"] == fn and "CellFamily" in b["path"]]
        if not bs:
            raise Undecided("%s is not there" % fn)
        for b in bs:
            ip = Interp(_p)
            st = ip.state()
            for t in ip.run(st, b, []):
                n += 1
                s = t.st
                v = t.val
                while isinstance(v, Ref):
                    v = ip.read(s, v.root, v.path)
                if not isinstance(v, Ag):
                    raise Undecided("static cell %r" % (v,))
                f = dict(zip(_p.field_names(v.k), v.f))
                data = f["data"]
                arr = ip.read(s, data.root, data.path)
                size = ip.affine(s, f["bit_len"])
                bits = []
                for i in range(128):
                    bits += reversed([s.bit(x) for x in ip.bits(s, ip.elem(s, arr, K(i)) if isinstance(arr, Arr) else arr.f[i])])
                if size.t or size.c != MAX or bits[:MAX] != [bit] * MAX:
                    out.append(("static", "%s does not have %d bits that are all %d" % (fn, MAX, bit)))
    return out, n


def any_job(j):
    try:
        out, n = {"write": write, "read": read, "statics": statics}[j[0]](*j[1:])
    except GIVE_UP as e:
        return j, [("undecided", "%s: %s" % (type(e).__name__, e))], 0
    return j, out, n


def jobs(tier):
    js = [("statics",)]
    for b, lo, hi in classes():
        js.append(("read", b, lo, hi))
        for n in range(0, min(hi, 1023) + 1):
            js.append(("write", b, lo, hi, n, "write_label"))
            if n:
                for sp in sorted({0, 1, n // 2, n - 2, n - 1}):
                    if 0 <= sp < n:
                        for bit in (0, 1):
                            if tier == "thorough" or n < 40 or n % 32 in (0, 1, 31):
                                js.append(("write", b, lo, hi, n, "write_label_parts", sp, bit))
    return js


def many(js):
    return [any_job(j) for j in js]


def check(cx):
    global _p
    _p = cx.prog("main")
    js = jobs(cx.tier)
    js.sort(key=lambda j: (j[0] != "read", j[0], -(j[4] if j[0] == "write" else 0)))
    reads = [[j] for j in js if j[0] != "write"][::-1]
    ws = [j for j in js if j[0] == "write"]
    k = max(1, len(ws) // 160)
    for r in pmap(many, reads + [ws[i::k] for i in range(k)]):
        for j, pr, n in r:
            cx.count("cases")
            cx.count("paths", n)
            if j[0] == "read":
                cx.count("readers")
            for kind, text in pr:
                cx.bad("%s:%s" % (j[5] if j[0] == "write" else "read_label" if j[0] == "read" else "static", kind), text)
    cx.floor("cases", 2000)
    cx.floor("paths", 5000)
    cx.floor("readers", 11)
