"""Inputs, expected results and comparison for the builder and slice primitives,
over the domain of bits.py."""
from bits import *

CDB = "tycho_types::cell::builder::CellDataBuilder"
CB = "tycho_types::cell::builder::CellBuilder"
CS = "tycho_types::cell::slice::CellSlice"
CSR = "tycho_types::cell::slice::CellSliceRange"
MAX = 1023


def W(p, adt):
    names = p.field_names(adt)
    return {n: i for i, n in enumerate(names)}


def mkadt(p, adt, **kw):
    names = p.field_names(adt)
    if names is None or set(names) != set(kw):
        raise Undecided("the fields of %s are %s, expected %s" % (adt, names, sorted(kw)))
    return Ag(adt, 0, [kw[n] for n in names])


def byte_msb(bits8):
    """8 bits, most significant first -> Bv"""
    return Interp.mkbits(None, 8, False, list(reversed(list(bits8))))


def dbit(nm, c, j):
    """bit j (MSB first) of byte c of the symbolic content nm"""
    return sym((nm, c), 7 - j)


def content(nm, terms, limit=None):
    """init function: bytes at base+c are symbolic; `limit`: number of bits from
    the base on that hold data (the rest is zero)"""
    def init(key):
        t, c = key
        if t != terms:
            return int_sym((nm, key), 8)
        if limit is None or 8 * c + 8 <= limit:
            return byte_msb([dbit(nm, c, j) for j in range(8)])
        return byte_msb([dbit(nm, c, j) if 8 * c + j < limit else 0 for j in range(8)])
    return init


def builder(ip, st, r, q=None):
    """A symbolic CellDataBuilder with bit_len = 8 Q + r (Q unknown, or q)"""
    p = ip.p
    if q is None:
        st.var("Q", 0, (MAX - r) // 8)
        terms = (("Q", 1),)
        bl = Af(16, False, r, (("Q", 8),))
        init = content("d", terms, r)
    else:
        terms = ()
        bl = Af(16, False, 8 * q + r)
        init = content("d", (), 8 * q + r)
    data = Arr(K(128), {}, init)
    return mkadt(p, CDB, data=data, bit_len=bl), terms


def get(p, v, name):
    return v.f[W(p, v.k)[name]]


def same_int(st, a, c, t):
    """affine value a equals c + t"""
    if not isinstance(a, Af):
        return False
    d = lin_add((a.c, a.t), 1, (c, t), -1)
    if not d[1]:
        return d[0] == 0
    return st.holds(*d) and st.holds(-d[0], tuple((v, -k) for v, k in d[1]))


def flags_text(st):
    out = []
    for f in st.flags:
        if f[0] == "overflow":
            out.append("the %s of %s and %s leaves its type" % (f[1].lower(), f[2], f[3]))
        elif f[0] == "memory":
            out.append("%s at %s (%s elements) outside of the %s elements" % f[1:])
        elif f[0] == "shift":
            out.append("shift of a %d-bit value by %d" % (f[2], f[1]))
        elif f[0] == "truncation":
            out.append("%s is truncated to %d bits" % f[1:])
    return "; ".join(sorted(set(out)))


def show_range(st):
    return ", ".join("%s in %s..%s" % (v, a, b) for v, (a, b) in sorted(st.vr.items(), key=str) if len(v) < 6)


def check_arr(ip, st, arr, terms, expect, lo, hi):
    """content of arr at base+c for c in lo..hi, and of every element written
    elsewhere, is expect(c) (8 bits MSB first) -> None or text"""
    for k in list(arr.d):
        if k[0] == terms:
            lo, hi = min(lo, k[1]), max(hi, k[1])
    for k in arr.d:
        if k[0] != terms:
            return "element %r is written" % (k,)
    for c in range(lo, hi + 1):
        have = [st.bit(b) for b in reversed(ip.bits(st, ip.elem(st, arr, Af(64, False, c, terms))))]
        want = [st.bit(b) for b in expect(c)]
        if have != want:
            j = [i for i in range(8) if have[i] != want[i]][0]
            return "bit %d of byte %+d is %s, expected %s" % (j, c, show_bit(have[j]), show_bit(want[j]))
    return None


def expect_store(r, q, bits, name="d"):
    """content after appending `bits` at bit r of byte base (or of byte q)"""
    base = 0 if q is None else q
    n = len(bits)

    def f(c):
        out = []
        for j in range(8):
            pos = 8 * (c - base) + j - r
            if pos < 0:
                out.append(dbit(name, c, j))
            elif pos < n:
                out.append(bits[pos])
            else:
                out.append(0)
        return out
    return f


def run_store(ip, body, r, q, args, n, expect, sub=None, wrap=None, prep=None):
    """Runs a builder operation on a builder with alignment r; -> list of
    problems (kind, text), number of paths"""
    p = ip.p
    st = ip.state()
    b, terms = builder(ip, st, r, q)
    root = ("B",)
    path = ()
    if wrap:
        b, path = wrap(b)
    st.mem[root] = b
    if prep:
        args = prep(st)
    before = b
    out = []
    traces = ip.run(st, body, [Ref(root)] + list(args), sub)
    okc = 0
    base = 0 if q is None else q
    for t in traces:
        s = t.st
        fl = flags_text(s)
        if fl:
            out.append(("arith", fl + " (%s)" % show_range(s)))
        if t.kind == "panic":
            out.append(("panic", "panics (%s) with %s" % (t.why, show_range(s))))
            continue
        v = t.val
        if not (isinstance(v, Ag) and v.k == RESULT):
            out.append(("result", "unknown result"))
            continue
        after = ip.read(s, root, path)
        bl0 = get(p, ip_step(before, path), "bit_len")
        bl, data = get(p, after, "bit_len"), get(p, after, "data")
        total = lin_add((bl0.c, bl0.t), 1, (n, ()), 1)
        room = (MAX - total[0], tuple((x, -k) for x, k in total[1]))
        if v.v == 0:
            okc += 1
            if not s.holds(*room):
                out.append(("capacity", "succeeds although the data would take more than %d bits (%s)" % (MAX, show_range(s))))
                continue
            if not same_int(s, bl, *total):
                out.append(("length", "the length becomes %r instead of %r (%s)" % (bl, Af(16, False, *total), show_range(s))))
                continue
            e = check_arr(ip, s, data, terms, expect_store(r, q, expect(s), "d"), base - 1, base + (r + n) // 8 + 1)
            if e:
                out.append(("content", e + " (%s)" % show_range(s)))
        else:
            if s.possible(*room):
                out.append(("refuses", "fails although there is room (%s)" % show_range(s)))
            if not same_int(s, bl, bl0.c, bl0.t):
                out.append(("atomic", "fails after changing the length to %r" % bl))
            e = check_arr(ip, s, data, terms, expect_store(r, q, [], "d"), base - 1, base + 1)
            if e:
                out.append(("atomic", "fails after changing the data: " + e))
    if okc == 0 and n <= MAX - r - 8 * base:
        out.append(("vacuous", "never succeeds"))
    return out, len(traces), terms


def ip_step(v, path):
    for e in path:
        v = v.f[e]
    return v


def bits_msb(nm, w, n):
    """the low n bits of a w-bit integer, MSB first, zero-extended"""
    return [sym(nm, i) if i < w else 0 for i in reversed(range(n))]


# ------------------------------------------------------------------ slices --
CELLIMPL = "tycho_types::cell::CellImpl"
DYN = "tycho_types::cell::DynCell"


def cell_obj(ip, st, name, bits=None, refs=None):
    """An opaque cell `name`: bit_len variable E<name>, L<name> bytes of data with
    8 L >= bit_len (the contract of CellImpl), R<name> references"""
    e, l, r = "C" + name, "L" + name, "N" + name
    if bits is None:
        st.var(e, 0, MAX)
    else:
        st.var(e, bits, bits)
    st.var(l, 0 if bits is None else -(-bits // 8), 128)
    st.add(0, tuple(sorted(((l, 8), (e, -1)))))
    if refs is None:
        st.var(r, 0, 4)
    else:
        st.var(r, refs, refs)
    return Opq("cell", (name,))


def data_root(name):
    return ("D", name)


def cell_hook(ip, st, c, args):
    """Methods of an opaque cell"""
    v = args[0] if args else None
    d = 0
    while isinstance(v, Ref) and d < 3:
        try:
            v = ip.read(st, v.root, v.path)
        except Undecided:
            return None
        d += 1
    if not isinstance(v, Opq) or v.name not in ("cell", "child"):
        return None
    nm = c["nm"]
    if nm in ("as_ref", "deref", "borrow", "as_ref_dyn"):
        return [(st, v)]
    if nm in ("clone", "from", "into"):
        return [(st, v)]
    if nm in ("eq", "ne") and v.name == "child":
        return None
    if v.name == "child":
        if nm == "is_exotic" or nm in ("descriptor", "cell_type"):
            pass
        key = ("exotic",) + v.args
        if nm == "is_exotic":
            return [(s, K(x, 1)) for s, x in ip.branch(st, B(sym(key, 0)))]
        if nm == "bit_len":
            n = "c%s" % (v.args,)
            if n not in st.vr:
                st.var(n, 0, MAX)
            return [(st, Af(16, False, 0, ((n, 1),)))]
        if nm == "reference_count":
            n = "n%s" % (v.args,)
            if n not in st.vr:
                st.var(n, 0, 4)
            return [(st, Af(8, False, 0, ((n, 1),)))]
        return None
    name = v.args[0]
    if nm == "data":
        return [(st, Sl(data_root(name), (), K(0), Af(64, False, 0, (("L" + name, 1),))))]
    if nm == "bit_len":
        return [(st, Af(16, False, 0, (("C" + name, 1),)))]
    if nm == "reference_count":
        return [(st, Af(8, False, 0, (("N" + name, 1),)))]
    if nm in ("reference", "reference_cloned"):
        i = ip.var_of(st, args[1])
        out = []
        for s, x in ip.branch(st, ip.compare(st, "Lt", i, Af(8, False, 0, (("N" + name, 1),)), 8, False)):
            out.append((s, Some(Opq("child", (name, ip.canon(s, i).key()))) if x else NONE))
        return out
    if nm == "is_exotic":
        return [(s, K(x, 1)) for s, x in ip.branch(st, B(sym(("exotic", name), 0)))]
    return None


def slice_of(ip, st, name, o, q=None, bits=None):
    """A symbolic CellSlice over cell `name`: bits_start = 8 O + o (or 8 q + o),
    bits_end = F with start <= F <= bit_len; refs S..T.  `bits`: exact size."""
    p = ip.p
    cell = cell_obj(ip, st, name)
    O, F, S, T = "O" + name, "F" + name, "S" + name, "T" + name
    if q is None:
        st.var(O, 0, 127)
        t = ((O, 1),)
        start = Af(16, False, o, ((O, 8),))
    else:
        t = ()
        start = K(8 * q + o, 16)
    if bits is None:
        st.var(F, 0, MAX)
        end = Af(16, False, 0, ((F, 1),))
        d = lin_add((0, ((F, 1),)), 1, (start.c, start.t), -1)
        st.add(*d)
    else:
        end = Af(16, False, start.c + bits, start.t)
    d = lin_add((0, (("C" + name, 1),)), 1, (end.c, end.t), -1)
    st.add(*d)
    st.var(S, 0, 4)
    st.var(T, 0, 4)
    st.add(0, ((S, -1), (T, 1)))
    st.add(0, tuple(sorted((("N" + name, 1), (T, -1)))))
    rng = mkadt(p, CSR, bits_start=start, bits_end=end, refs_start=Af(8, False, 0, ((S, 1),)), refs_end=Af(8, False, 0, ((T, 1),)))
    sl = mkadt(p, CS, cell=cell, range=rng)
    st.mem[data_root(name)] = Arr(Af(64, False, 0, (("L" + name, 1),)), {}, content(name, t))
    return sl, start, end, t


def in_name(name, o, k):
    """bit k (from the start) of the slice `name`"""
    return dbit(name, (o + k) // 8, (o + k) % 8)


def rget(p, rng, f):
    return get(p, rng, f)


def same_af(st, a, b):
    return isinstance(a, Af) and isinstance(b, Af) and same_int(st, a, b.c, b.t)


def aff(a, k=1, c=0):
    return a.c * k + c, tuple((v, x * k) for v, x in a.t)


def lin(*parts):
    """sum of (coef, Af|int)"""
    c, t = 0, ()
    for k, a in parts:
        if isinstance(a, int):
            c += k * a
        else:
            c, t = lin_add((c, t), 1, (a.c, a.t), k)
    return c, t
