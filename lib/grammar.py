"""Canonical words of the writers' layouts, and language comparison of word sets."""
import codec, wire
from codec import *


def fname(adt, v, i):
    try:
        f = codec.P.adts[adt]["v"][v]["f"][i]
        return str(f[0])
    except Exception:
        return str(i)


def label(t):
    """A projection of the value being written, by field names; None for anything computed"""
    out = []
    while isinstance(t, Term):
        k = t.a[0]
        if k == "self":
            return ".".join(["self"] + out[::-1])
        if k == "fld":
            ad = t.a[3] if len(t.a) > 3 else None
            out.append(fname(ad, 0, t.a[2]))
            t = t.a[1]
        elif k == "vf":
            out.append("%s:%s" % (t.a[2], t.a[3]))
            t = t.a[1]
        elif k in ("deref", "box", "&"):
            t = t.a[1]
        else:
            return None
    return None


def flds(t):
    """The fields of the written value that a computed item depends on"""
    out = set()
    for u in codec.subterms(t):
        l = label(u)
        if l and l.count(".") >= 1:
            out.add(".".join(l.split(".")[:2]))
    return ",".join(sorted(out))


def word(st, toks):
    bits, refs = [], []
    for t in toks:
        k = t[0]
        if k == "b":
            x = t[1]
            if x in (0, 1):
                bits.append(x)
                continue
            l = label(x[0])
            bits.append(("v", l, x[1]) if l else ("?", flds(x[0])))
        elif k == "nt":
            nm = norm_nt(t[1])
            l = label(t[2]) if isinstance(t[2], Term) else None
            bits.append(("nt", nm, l))
            if may_have_refs(nm):
                refs.append(("nt", nm, l))
        elif k == "ref":
            c = t[1]
            refs.append("(")
            if c.a[0] == "cell":
                refs.extend(word(st, tokens(st, c.a[1])))
            else:
                refs.append(("cell", label(c)))
            refs.append(")")
        else:
            bits.append((k, flds(t[1]) if len(t) > 1 and isinstance(t[1], Term) else ""))
            if k in ("slice", "builder?", "slicedata"):
                refs.append((k, ""))
    return tuple(bits) + ("|",) + tuple(refs)


def words(nm, unroll=0):
    """-> (words, cut): the distinct layouts of a type's writer"""
    Wx = Wire(codec.P, unroll=unroll) if unroll else None
    ip, w = wtraces(codec.SI[nm], Wx)
    out, cut = set(), []
    for x in w:
        if x[0] == "bad":
            cut.append(x)
            continue
        for y in fork_discr(x):
            for z in domain(nm, y):
                out.add(word(z[2].st, z[1]))
    return out, cut


STRICT = False  # whether an unlabelled item matches a labelled one


def compat(a, b):
    """b describes the item a; -> None no, True yes"""
    if a == b:
        return True
    if a in (0, 1):
        return b not in (0, 1) and b[0] in ("v", "?") if not isinstance(b, str) else False
    if isinstance(a, str) or isinstance(b, str) or b in (0, 1):
        return False
    if a[0] in ("v", "?") and b[0] in ("v", "?"):
        if a[0] == "v" and b[0] == "v":
            return False
        fa = {".".join(a[1].split(".")[:2])} if a[0] == "v" else set(a[1].split(",")) - {""}
        fb = {".".join(b[1].split(".")[:2])} if b[0] == "v" else set(b[1].split(",")) - {""}
        return loose(fa, fb)
    if a[0] == "pk" or b[0] == "pk":
        return a[0] == b[0] and (a[1] == b[1] or "" in (a[1], b[1]))
    if a[0] == b[0] and a[0] in ("nt", "root"):
        return a[1] == b[1] and (a[2] is None or b[2] is None or a[2] == b[2])
    if a[0] == b[0] and a[0] not in ("nt", "cell", "root"):
        fa, fb = set(a[1].split(",")) - {""}, set(b[1].split(",")) - {""}
        return loose(fa, fb)
    if a[0] == "cell" and b[0] == "cell":
        return a[1] is None or b[1] is None or a[1] == b[1]
    return False


def loose(fa, fb):
    if STRICT:
        return bool(fa & fb) or (not fa and not fb)
    return not fa or not fb or bool(fa & fb)


def covered(a, B, i=0):
    """Every string of the word a belongs to some word of B; else the position where it leaves"""
    B = list(B)
    while True:
        if i == len(a):
            return None if any(len(b) == i for b in B) else i
        B = [b for b in B if len(b) > i]
        x = a[i]
        if x not in (0, 1) and not isinstance(x, str) and x[0] in ("v", "?"):
            whole = [b for b in B if compat(x, b[i])]
            zero = [b for b in B if b[i] == 0]
            one = [b for b in B if b[i] == 1]
            if zero and one:
                r0 = covered(a, whole + zero, i + 1)
                if r0 is not None:
                    return r0
                return covered(a, whole + one, i + 1)
            B = whole
        else:
            B = [b for b in B if compat(x, b[i])]
        if not B:
            return i
        i += 1


def compact(w):
    """Human-readable / JSON form"""
    out, run = [], ""
    i = 0
    while i < len(w):
        x = w[i]
        if x in (0, 1):
            run += str(x)
            i += 1
            continue
        if run:
            out.append(run)
            run = ""
        if isinstance(x, str):
            out.append(x)
            i += 1
        elif x[0] == "v":
            j = i
            while j + 1 < len(w) and not isinstance(w[j + 1], (str, int)) and w[j + 1][0] == "v" and w[j + 1][1] == x[1] and w[j + 1][2] == w[j][2] - 1:
                j += 1
            out.append("%s[%d..%d]" % (x[1], x[2], w[j][2]))
            i = j + 1
        elif x[0] == "?":
            j = i
            while j + 1 < len(w) and w[j + 1] == x:
                j += 1
            out.append("?%d{%s}" % (j - i + 1, x[1]))
            i = j + 1
        else:
            out.append("%s<%s>" % (x[0], ";".join("" if y is None else str(y) for y in x[1:])))
            i += 1
    if run:
        out.append(run)
    return " ".join(out)


def parse(s):
    out = []
    depth = 0
    toks = []
    cur = ""
    for ch in s:
        if ch == "<":
            depth += 1
        elif ch == ">" :
            depth -= 1
        if ch == " " and depth == 0:
            toks.append(cur)
            cur = ""
        else:
            cur += ch
    if cur:
        toks.append(cur)
    for t in toks:
        if t in ("|", "(", ")"):
            out.append(t)
        elif set(t) <= {"0", "1"}:
            out.extend(int(c) for c in t)
        elif t.endswith("]"):
            l, r = t[:-1].rsplit("[", 1)
            hi, lo = r.split("..")
            out.extend(("v", l, k) for k in range(int(hi), int(lo) - 1, -1))
        elif t[0] == "?":
            n, r = t[1:-1].split("{")
            out.extend([("?", r)] * int(n))
        else:
            k, r = t[:-1].split("<", 1)
            if k in ("nt", "root"):
                a, b = r.rsplit(";", 1)
                out.append((k, a, b or None))
            elif k == "cell":
                out.append(("cell", r or None))
            else:
                out.append((k, r))
    return tuple(out)


def relabel(x, base):
    """An item of a nested value's word as seen from the value that holds it"""
    if isinstance(x, (str, int)):
        return x
    if x[0] == "v":
        return ("v", base + x[1][4:], x[2]) if base else ("?", "")
    if x[0] not in ("v", "nt", "cell"):
        return (x[0], ",".join(sorted({".".join((base + f[4:]).split(".")[:2]) for f in x[1].split(",") if f})) if base else "")
    if x[0] == "nt":
        return ("nt", x[1], base + x[2][4:] if base and x[2] else None)
    if x[0] == "cell":
        return ("cell", base + x[1][4:] if base and x[1] else None)
    return x


def split(w):
    i = w.index("|")
    return w[:i], w[i + 1:]


def expand(w, which, table, cap=400):
    """The words of w with the nonterminals in `which` replaced by their own words"""
    def rec(w):
        # -> list of (bits, refs)
        b, r = split(w)
        outs = [((), (), {})]
        for x in b:
            if not isinstance(x, (str, int)) and x[0] == "nt" and x[1] in which and x[1] in table:
                n = []
                for ob, orr, ch in outs:
                    for k, tw in enumerate(table[x[1]]):
                        tb, tr = split(tuple(relabel(y, x[2]) for y in tw))
                        c2 = dict(ch)
                        c2[(x[1], x[2])] = tr
                        n.append((ob + tb, orr, c2))
                outs = n
                if len(outs) > cap:
                    raise Limit("expansion of " + x[1])
            else:
                outs = [(ob + (x,), orr, ch) for ob, orr, ch in outs]
        res = []
        for ob, _, ch in outs:
            alts = [()]
            i = 0
            while i < len(r):
                x = r[i]
                if x == "(":
                    d, j = 1, i + 1
                    while d:
                        d += {"(": 1, ")": -1}.get(r[j], 0) if isinstance(r[j], str) else 0
                        j += 1
                    inner = r[i + 1:j - 1]
                    subs = rec(inner) if "|" in inner else [inner]
                    alts = [a + ("(",) + s + (")",) for a in alts for s in subs]
                    i = j
                    continue
                if not isinstance(x, (str, int)) and x[0] == "nt" and (x[1], x[2]) in ch:
                    alts = [a + ch[(x[1], x[2])] for a in alts]
                else:
                    alts = [a + (x,) for a in alts]
                i += 1
            res.extend(ob + ("|",) + a for a in alts)
        return res
    return rec(w)


def ntset(ws):
    return {x[1] for w in ws for x in w if not isinstance(x, (str, int)) and x[0] == "nt"}


def compare(nm, cur, frozen, tcur, tfrz):
    """-> None, or (side, word, position)"""
    def cmpset(A, B):
        for a in sorted(A, key=compact):
            r = covered(a, B)
            if r is not None:
                return a, r
        return None
    A, B = set(cur), set(frozen)
    bad = None
    for rnd in range(4):
        x = cmpset(A, B)
        if x:
            bad = bad or ("new",) + x
        else:
            x = cmpset(B, A)
            if not x:
                return None
            bad = bad or ("gone",) + x
        one = ntset(A) ^ ntset(B)
        ea = {n for n in one if n in tcur} 
        eb = {n for n in one if n in tfrz}
        if not ea and not eb:
            return bad
        try:
            A = {z for w in A for z in expand(w, ea, tcur)}
            B = {z for w in B for z in expand(w, eb, tfrz)}
        except Limit:
            return bad
    return bad


# ---------------------------------------------------------------------------
# readers

class Undecided(Exception):
    pass


class Bit:
    __slots__ = ("v", "l")

    def __init__(self):
        self.v = None
        self.l = set()


class Seg:
    """One cell (or slice prefix) being read"""

    def __init__(self, q=None):
        self.items, self.refs, self.q = [], [], q or []

    def take(self, n):
        out = []
        for _ in range(n):
            out.append(self.q.pop(0) if self.q else Bit())
        self.items.extend(out)
        return out

    def peek(self, o, n):
        while len(self.q) < o + n:
            self.q.append(Bit())
        return self.q[o:o + n]


WRAP = {"nz", "nzget", "box", "deref", "&", "copy", "into"}


def leaves(v, path=("self",)):
    """(field path, term) of every leaf of a result value"""
    while v.a[0] in WRAP and isinstance(v.a[-1], Term):
        v = v.a[-1]
    if v.a[0] == "agg":
        k = v.a[1]
        if isinstance(k, tuple) and k and k[0] == "adt":
            k = k[1]
        nv = len(codec.P.adts[k]["v"]) if isinstance(k, str) and k in codec.P.adts else 1
        if nv > 1:
            path = path + (str(codec.P.adts[k]["v"][v.a[2]]["n"]),)
        fs = v.a[3]
        for i, f in enumerate(fs):
            nm = fname(k, v.a[2], i) if isinstance(k, str) else str(i)
            if isinstance(f, Term):
                p = path if len(fs) == 1 and nm == "0" else path + (nm,)
                for x in leaves(f, p):
                    yield x
    else:
        yield ".".join(path), v


def rword(st, val):
    segs, roots, bits = {}, [], {}
    base = mk("sin")
    S0 = segs[base] = Seg()
    where = {base: (S0,)}
    objs = {}  # rd term of a nonterminal / reference -> item index object

    def seg(c):
        x = where.get(c)
        if x:
            return x[0]
        if c.a[0] == "cellslice":
            s = Seg()
            t = c.a[1]
            while t.a[0] in ("box",):
                t = t.a[2]
            o = objs.get(t)
            if o is None:
                raise Undecided("reads from a cell of unknown origin")
            if o[1] is not None:
                raise Undecided("reads a referenced cell twice")
            o[1] = s
            where[c] = (s,)
            return s
        if c.a[0] == "pfx":
            raise Undecided("prefix")
        raise Undecided("unknown cursor " + c.a[0])

    for e in st.events():
        if e[0] == "exotic_child":
            return None
        if e[0] != "rd":
            continue
        c, it = e[1], e[2]
        s = seg(c)
        k = it[0]
        if k == "bits":
            bits[e[3]] = s.take(it[1])
        elif k == "peek":
            o = st.value(it[2])
            if o is None:
                raise Undecided("peek")
            bits[e[3]] = s.peek(o, it[1])
        elif k == "vbits":
            n = st.value(it[1])
            if n is not None:
                bits[e[3]] = s.take(n)
            else:
                x = ["vbits", None, set()]
                s.items.append(x)
                objs[e[3]] = x
        elif k in ("nt", "root"):
            x = [k, None, set(), norm_nt(it[1])]
            if s.q and any(b.v is not None for b in s.q):
                x.append(list(s.q))
            elif s.q:
                x.append(list(s.q))
            s.q = []
            s.items.append(x)
            s.refs.append(x)
            objs[e[3]] = x
        elif k == "ref":
            x = ["ref", None, set()]
            s.refs.append(x)
            objs[e[3]] = x
        elif k == "peekref":
            continue
        elif k == "rest":
            s.items.append(["rest", None, set()])
            s.refs.append(["rest", None, set()])
        elif k in ("skip", "prefix"):
            nb, nr = st.value(it[1]), st.value(it[2])
            if nb is None:
                x = ["vbits", None, set()]
                s.items.append(x)
                nb = 0
                b = []
            else:
                b = s.take(nb)
            rs = []
            for _ in range(nr or 0):
                x = ["ref", None, set()]
                s.refs.append(x)
                rs.append(x)
            if k == "prefix":
                z = Seg(list(b))
                where[mk("pfx", c, it[1], it[2])] = (z,)
        else:
            raise Undecided("read kind " + k)
        where[mk("cur", c, it)] = (s,)

    # what the path knows about the bits
    def known(t, v):
        if t.a[0] == "eq0" and v == 1:
            return known(t.a[1], 0)
        if t.a[0] == "rd" and t in bits:
            t = mk("rdbits", t, len(bits[t]), 0)
        if t.a[0] == "rdbits" and t.a[1] in bits:
            n, o = t.a[2], t.a[3]
            if not isinstance(n, int) or not isinstance(o, int):
                return
            for i, b in enumerate(bits[t.a[1]][o:o + n]):
                b.v = (v >> (n - 1 - i)) & 1
            return
        m = mask(t)
        if m:
            bs, mv = m
            if v == 0:
                for i, b in enumerate(bs):
                    if (mv >> (len(bs) - 1 - i)) & 1:
                        b.v = 0
        elif t.a[0] == "eq0" and v == 0:
            m = mask(t.a[1])
            if m and bin(m[1]).count("1") == 1:
                bs, mv = m
                for i, b in enumerate(bs):
                    if (mv >> (len(bs) - 1 - i)) & 1:
                        b.v = 1
            elif t.a[1].a[0] == "rdbits" and t.a[1].a[2] == 1:
                known(t.a[1], 1)

    def mask(t):
        if t.a[0] == "band" and t.a[1].a[0] == "rdbits" and t.a[1].a[1] in bits and is_int(t.a[2]) and isinstance(t.a[1].a[2], int):
            x = t.a[1]
            return bits[x.a[1]][x.a[3]:x.a[3] + x.a[2]], t.a[2].a[1]
        return None

    for t, v in st.eq.items():
        known(t, v)
    # where the bits end up
    for lab, t in leaves(val):
        tt = t
        while tt.a[0] in ("not", "eq0") and isinstance(tt.a[1], Term):
            tt = tt.a[1]
        m = mask(tt)
        if m:
            bs, mv = m
            for i, b in enumerate(bs):
                if (mv >> (len(bs) - 1 - i)) & 1:
                    b.l.add(lab)
            continue
        src = [tt]
        w = tt.a[1] if tt.a[0] == "tr" else (wire.maxval(tt).bit_length() if tt.a[0] in ("shr", "band", "bor", "lin") and wire.maxval(tt) is not None else None)
        if w:
            src = []
            for q in wire.bits_of(st, tt, w):
                if not isinstance(q, tuple):
                    continue
                u, i = q
                if u.a[0] == "rdbits" and u.a[1] in bits and isinstance(u.a[2], int) and isinstance(u.a[3], int):
                    if i < u.a[2]:
                        bits[u.a[1]][u.a[3] + u.a[2] - 1 - i].l.add(lab)
                elif u.a[0] == "rd" and u in bits:
                    if i < len(bits[u]):
                        bits[u][len(bits[u]) - 1 - i].l.add(lab)
                elif u not in src:
                    src.append(u)
        for u in (x for t0 in src for x in codec.subterms(t0)):
            if u.a[0] == "rdbits" and u.a[1] in bits and isinstance(u.a[2], int) and isinstance(u.a[3], int):
                for b in bits[u.a[1]][u.a[3]:u.a[3] + u.a[2]]:
                    b.l.add(lab)
            elif u in objs:
                objs[u][2].add(lab)

    def out(s):
        bs, rs = [], []
        for x in s.items:
            if isinstance(x, Bit):
                bs.append(x.v if x.v is not None else ("?", ",".join(sorted(x.l))))
            elif x[0] in ("nt", "root"):
                if len(x) > 4:
                    for b in x[4]:
                        bs.append(("pk", "" if b.v is None else str(b.v)))
                bs.append((x[0], x[3], ",".join(sorted(x[2])) or None))
            else:
                bs.append((x[0], ",".join(sorted(x[2]))))
        for x in s.refs:
            if x[0] == "ref":
                rs.append("(")
                if x[1] is not None:
                    rs.extend(out(x[1]))
                else:
                    rs.append(("cell", ",".join(sorted(x[2])) or None))
                rs.append(")")
            elif x[0] in ("nt", "root"):
                if may_have_refs(x[3]) or x[0] == "root":
                    rs.append((x[0], x[3], ",".join(sorted(x[2])) or None))
            else:
                rs.append((x[0], ""))
        return tuple(bs) + ("|",) + tuple(rs)
    return out(S0)


def rwords_best(nm):
    """Readers that loop over the slice are followed for four rounds"""
    try:
        ws, cut = rwords(nm)
        if not any(c[1] == "loopback" for c in cut):
            return ws, cut
    except Undecided:
        pass
    return rwords(nm, 4)


# readers that rebuild a list by walking a dictionary: their form is compared up to the dictionary
UP_TO = {"ValidatorSet": 8 + 32 + 32 + 16 + 16}


def rwords(nm, unroll=0):
    Wx = Wire(codec.P, unroll=unroll) if unroll else None
    ip, r = rtraces(codec.LI[nm], Wx)
    out, cut = set(), []
    for y in r:
        if y[0] == "bad":
            cut.append(y)
        elif y[0] == "ok":
            w = rword(y[2].st, y[1])
            if w is not None and nm in UP_TO:
                keep = {"self.utime_since", "self.utime_until", "self.main"}
                w = tuple(x if x in (0, 1) else ("?", ",".join(sorted(keep & set(x[1].split(","))))) for x in w[:UP_TO[nm]]) + ("|",)
            if w is not None:
                out.add(w)
    return out, cut
