"""Interned value terms of the abstract domain (value numbering) and their
normal forms.  A term is built only by the constructors below, so that two
expressions that compute the same value by different spellings normalise to
the same object wherever the rules here know it."""


class Term:
    __slots__ = ("a", "h", "n")

    def __getitem__(self, i):
        return self.a[i]

    def __len__(self):
        return len(self.a)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.n < o.n

    def __repr__(self):
        return show(self)

    @property
    def op(self):
        return self.a[0]


_tab = {}


def mk(*a):
    r = _tab.get(a)
    if r is None:
        r = Term()
        r.a = a
        r.h = hash(a)
        r.n = len(_tab)
        _tab[a] = r
    return r


def I(v):
    return mk("i", int(v))


TRUE = I(1)
FALSE = I(0)
UNIT = mk("agg", "tuple", 0, ())


def is_int(t):
    return t.a[0] == "i"


DISCR = {}  # discr term -> tuple of the discriminants of its enum


def mk_discr(x, dom=None):
    t = mk("discr", x)
    if dom is not None and t not in DISCR:
        DISCR[t] = tuple(dom)
    return t


WIDTH = {}  # term -> (bits, signed) of integer-typed opaque terms


def set_width(t, w, sg):
    if t.a[0] not in ("i", "lin") and t not in WIDTH:
        WIDTH[t] = (w, sg)


def maxval(t):
    op = t.a[0]
    if op == "i":
        return t.a[1]
    if op in ("eq0", "lt0", "eq", "bool", "not"):
        return 1
    if op in ("lz", "tz", "ones"):
        return t.a[1]
    if op == "discr" and t in DISCR:
        return max(DISCR[t])
    if op == "band":
        ms = [m for m in (maxval(t.a[1]), maxval(t.a[2])) if m is not None]
        return min(ms) if ms else None
    if op in ("bor", "bxor"):
        a, b = maxval(t.a[1]), maxval(t.a[2])
        if a is None or b is None:
            return None
        return (1 << max(a.bit_length(), b.bit_length())) - 1
    if op == "shr":
        a = maxval(t.a[1])
        if a is None:
            return None
        return a >> t.a[2].a[1] if is_int(t.a[2]) else a
    if op == "tr":
        m = (1 << t.a[1]) - 1
        return m >> 1 if t.a[2] else m
    if op == "rdbits":
        return (1 << t.a[2]) - 1
    if op == "lin":
        c = t.a[1]
        for at, k in t.a[2]:
            m = maxval(at)
            if m is None or k < 0:
                if k < 0 and minval(at) is not None:
                    c += k * minval(at)
                    continue
                return None
            c += m * k
        return c
    w = WIDTH.get(t)
    if w:
        return (1 << (w[0] - (1 if w[1] else 0))) - 1
    return None


def minval(t):
    op = t.a[0]
    if op == "i":
        return t.a[1]
    if op == "lin":
        c = t.a[1]
        for at, k in t.a[2]:
            m = minval(at) if k > 0 else maxval(at)
            if m is None:
                return None
            c += m * k
        return c
    if op == "tr" and t.a[2]:
        return -(1 << (t.a[1] - 1))
    if op == "discr" and t in DISCR:
        return min(DISCR[t])
    if op == "shr" and is_int(t.a[2]):
        m = minval(t.a[1])
        return m >> t.a[2].a[1] if m is not None else None
    w = WIDTH.get(t)
    if w and w[1]:
        return -(1 << (w[0] - 1))
    if op in ("neg",):
        return None
    return 0


def mk_idx(v, i):
    if v.a[0] == "tobytes" and is_int(i) and 0 <= i.a[1] < v.a[3]:
        k = i.a[1]
        return band(shr(v.a[2], I(8 * (v.a[3] - 1 - k if v.a[1] == "be" else k))), I(255))
    t = mk("idx", v, i)
    if v.a[0] == "tobytes":
        set_width(t, 8, False)
    return t


def mk_frombytes(o, v):
    if v.a[0] == "tobytes" and v.a[1] == o:
        return v.a[2]
    if v.a[0] == "bytes":
        return I(int.from_bytes(v.a[1], "big" if o == "be" else "little"))
    if v.a[0] == "agg" and v.a[1] == "array" and len(v.a[3]) <= 16:
        acc = I(0)
        n = len(v.a[3])
        for i, x in enumerate(v.a[3]):
            mx = maxval(x)
            if mx is None or mx > 255 or (minval(x) or 0) < 0:
                x = trunc(x, 8, False)
            acc = add(acc, mulc(x, 1 << (8 * (n - 1 - i if o == "be" else i))))
        return acc
    return mk("frombytes", o, v)


def lowbit(x):
    return mk("lowbit", x)


def is_negmask(t):
    """t == two's complement negation of x: returns x"""
    if t.a[0] == "lin" and t.a[1] == 1 and len(t.a[2]) == 1 and t.a[2][0][1] == 1 and t.a[2][0][0].a[0] == "inv":
        return t.a[2][0][0].a[1]
    return None


def lin_of(t):
    if t.a[0] == "i":
        return t.a[1], ()
    if t.a[0] == "lin":
        return t.a[1], t.a[2]
    return 0, ((t, 1),)


def mk_lin(c, d):
    items = tuple(sorted(((k, v) for k, v in d.items() if v != 0), key=lambda x: x[0].n))
    if not items:
        return I(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk("lin", c, items)


def add(a, b, k=1):
    ca, ia = lin_of(a)
    cb, ib = lin_of(b)
    d = dict(ia)
    for t, v in ib:
        d[t] = d.get(t, 0) + k * v
    return mk_lin(ca + k * cb, d)


def sub(a, b):
    return add(a, b, -1)


def mulc(a, c):
    ca, ia = lin_of(a)
    return mk_lin(ca * c, {t: v * c for t, v in ia})


def mul(a, b):
    if is_int(a):
        return mulc(b, a.a[1])
    if is_int(b):
        return mulc(a, b.a[1])
    x, y = (a, b) if a.n < b.n else (b, a)
    return mk("mul", x, y)


def shr(a, b):
    if is_int(b):
        n = b.a[1]
        if n == 0:
            return a
        if is_int(a):
            return I(a.a[1] >> n)
        if a.a[0] == "shr" and is_int(a.a[2]):
            return shr(a.a[1], I(a.a[2].a[1] + n))
        if a.a[0] == "rdbits" and n < a.a[2]:
            # top bits of a field
            return mk("rdbits", a.a[1], a.a[2] - n, a.a[3])
        m = maxval(a)
        if m is not None and (m >> n) == 0 and (minval(a) or 0) >= 0:
            return I(0)
        c, it = lin_of(a)
        if a.a[0] == "lin" and all(v % (1 << n) == 0 for _, v in it) and all(v >= 0 for _, v in it) and c >= 0:
            return mk_lin(c >> n, {t: v >> n for t, v in it})
    return mk("shr", a, b)


def shl(a, b):
    if is_int(b):
        return mulc(a, 1 << b.a[1])
    if is_int(a) and a.a[1] == 1 and b.a[0] == "tz":
        return lowbit(b.a[2])
    return mk("shl", a, b)


def band(a, b):
    if is_int(a) and is_int(b):
        return I(a.a[1] & b.a[1])
    if is_int(a):
        a, b = b, a
    if is_int(b):
        m = b.a[1]
        if m == 0:
            return b
        mx = maxval(a)
        if m > 0 and mx is not None and (minval(a) or 0) >= 0 and ((1 << mx.bit_length()) - 1) & ~m == 0:
            return a
        if a.a[0] == "band" and is_int(a.a[2]):
            return band(a.a[1], I(a.a[2].a[1] & m))
        if m > 0 and a.a[0] == "rdbits" and m & (m + 1) == 0:
            n = m.bit_length()
            if n < a.a[2]:
                return mk("rdbits", a.a[1], n, a.a[3] + a.a[2] - n)
        if a.a[0] == "bor":
            x, y = band(a.a[1], b), band(a.a[2], b)
            return bor(x, y)
        if a.a[0] == "lin" and m > 0 and m & (m + 1) == 0:
            # multiples of the modulus vanish
            d = {t: v for t, v in a.a[2] if v % (m + 1) != 0}
            if len(d) < len(a.a[2]) or a.a[1] > m:
                return band(mk_lin(a.a[1] % (m + 1), d), b)
        return mk("band", a, b)
    if a is b:
        return a
    for p, q in ((a, b), (b, a)):
        n = is_negmask(q)
        if n is not None:
            if n is p:
                return lowbit(p)  # x & -x
            if n.a[0] == "lowbit" and (p is n.a[1] or p is sub(n.a[1], n)):
                return p  # a multiple of the lowest set bit
    x, y = (a, b) if a.n < b.n else (b, a)
    return mk("band", x, y)


def bor(a, b):
    if is_int(a) and is_int(b):
        return I(a.a[1] | b.a[1])
    if is_int(a) and a.a[1] == 0:
        return b
    if is_int(b) and b.a[1] == 0:
        return a
    if a is b:
        return a
    for p, q in ((a, b), (b, a)):
        if p.a[0] == "lowbit" and q is sub(p.a[1], p):
            return p.a[1]
        if p.a[0] == "lin" and p.a[1] == 0 and len(p.a[2]) == 1 and p.a[2][0][0].a[0] == "shr":
            # (x >> k) << k  |  x & (2^k - 1)
            s_, m_ = p.a[2][0]
            if is_int(s_.a[2]) and m_ == 1 << s_.a[2].a[1] and q is band(s_.a[1], I(m_ - 1)):
                return s_.a[1]
    x, y = (a, b) if a.n < b.n else (b, a)
    return mk("bor", x, y)


def bxor(a, b):
    if is_int(a) and is_int(b):
        return I(a.a[1] ^ b.a[1])
    if is_int(a) and a.a[1] == 0:
        return b
    if is_int(b) and b.a[1] == 0:
        return a
    for x, y in ((a, b), (b, a)):
        if is_int(y) and y.a[1] == 1 and maxval(x) == 1 and isbool(x):
            return lnot(x)
    x, y = (a, b) if a.n < b.n else (b, a)
    return mk("bxor", x, y)


def isbool(t):
    return t.a[0] in ("eq0", "lt0", "eq", "not", "bool") or (WIDTH.get(t) == (1, False)) or \
        t.a[0] == "discr" and DISCR.get(t) == (0, 1)


def lnot(t):
    if is_int(t):
        return I(1 - t.a[1])
    if t.a[0] == "not":
        return t.a[1]
    if t.a[0] == "lt0":
        c, it = lin_of(t.a[1])
        return lt0(mk_lin(-c - 1, {k: -v for k, v in it}))
    return mk("not", t)


def lt0(l):
    """l < 0 over the integers"""
    if is_int(l):
        return I(1 if l.a[1] < 0 else 0)
    mx, mn = maxval(l), minval(l)
    if mx is not None and mx < 0:
        return TRUE
    if mn is not None and mn >= 0:
        return FALSE
    c, it = lin_of(l)
    if len(it) == 1 and it[0][1] == 1 and c == -1 and minval(it[0][0]) == 0:
        # x < 1  over unsigned  ==  x == 0
        return eq0(it[0][0])
    if len(it) == 1 and it[0][1] == -1 and c == 0 and minval(it[0][0]) == 0:
        return lnot(eq0(it[0][0]))
    g = 0
    import math
    for _, v in it:
        g = math.gcd(g, v)
    if g > 1:
        # g*V + c < 0  <=>  V < -c/g  <=> V + floor(c/g) (+1 if inexact) ...
        # V <= ceil(-c/g) - 1  <=>  V - ceil(-c/g) + 1 <= 0 <=> V - ceil(-c/g) < 0
        q = -((c) // g)  # ceil(-c/g)
        l = mk_lin(-q, {t: v // g for t, v in it})
    return mk("lt0", l)


def lt(a, b):
    return lt0(sub(a, b))


def le(a, b):
    return lnot(lt(b, a))


def eq0(l):
    if is_int(l):
        return I(1 if l.a[1] == 0 else 0)
    mx, mn = maxval(l), minval(l)
    if mn is not None and mn > 0 or mx is not None and mx < 0:
        return FALSE
    c, it = lin_of(l)
    if len(it) == 1 and abs(it[0][1]) >= 1:
        t, k = it[0]
        if c % k != 0:
            return FALSE
        v = -c // k
        if isbool(t):
            if v == 1:
                return t
            if v == 0:
                return lnot(t)
            return FALSE
        mxt = maxval(t)
        if mxt is not None and v > mxt or v < (minval(t) if minval(t) is not None else v):
            return FALSE
        l = mk_lin(-v, {t: 1})
    elif it[0][1] < 0:
        l = mk_lin(-c, {t: -v for t, v in it})
    return mk("eq0", l)


VALUE_OPS = ("i", "lin", "band", "bor", "bxor", "shr", "shl", "mul", "tr", "rdbits", "div", "rem", "neg", "inv")


def teq(a, b):
    if a is b:
        return TRUE
    if a.a[0] in VALUE_OPS or b.a[0] in VALUE_OPS or a in WIDTH or b in WIDTH:
        return eq0(sub(a, b))
    if a.a[0] == "agg" and b.a[0] == "agg" and a.a[1] == b.a[1]:
        if a.a[2] != b.a[2]:
            return FALSE
        fs = [teq(x, y) for x, y in zip(a.a[3], b.a[3])]
        if all(f is TRUE for f in fs):
            return TRUE
        if any(f is FALSE for f in fs):
            return FALSE
        live = [f for f in fs if f is not TRUE]
        if len(live) == 1:
            return live[0]
    if a.a[0] == "bytes" and b.a[0] == "bytes":
        return I(1 if a is b else 0)
    x, y = (a, b) if a.n < b.n else (b, a)
    return mk("eq", x, y)


def trunc(t, w, sg):
    if is_int(t):
        v = t.a[1] & ((1 << w) - 1)
        if sg and v >> (w - 1):
            v -= 1 << w
        return I(v)
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
    mx, mn = maxval(t), minval(t)
    if mx is not None and mn is not None and mx <= hi and mn >= lo:
        return t
    if t.a[0] == "tr" and t.a[1] >= w:
        return trunc(t.a[3], w, sg)
    return mk("tr", w, sg, t)


def neg(t):
    return mulc(t, -1)


def show(t, d=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d + 1) for x in t) + ")"
        return str(t)
    if d > 12:
        return ".."
    a = t.a
    op = a[0]
    if op == "i":
        return str(a[1])
    if op == "lin":
        s = []
        for x, k in a[2]:
            s.append((("%d*" % k) if k != 1 else "") + show(x, d + 1))
        if a[1]:
            s.append(str(a[1]))
        return "(" + "+".join(s) + ")"
    if op == "agg":
        k = a[1]
        nm = k if isinstance(k, str) else str(k[1]).split("::")[-1]
        return "%s#%s{%s}" % (nm, a[2], ",".join(show(x, d + 1) for x in a[3]))
    if op in ("fld",):
        return "%s.%s" % (show(a[1], d + 1), a[2])
    if op == "vf":
        return "%s@%s.%s" % (show(a[1], d + 1), a[2], a[3])
    if op == "self":
        return "self"
    if op == "arg":
        return "arg%s" % a[1]
    if op == "deref":
        return "*" + show(a[1], d + 1)
    if op == "call":
        return "%s(%s)" % (str(a[1]).split("::")[-1] if not str(a[1]).startswith("<") else a[1][-40:], ",".join(show(x, d + 1) for x in a[2]))
    return "%s(%s)" % (op, ",".join(show(x, d + 1) for x in a[1:]))
