"""C08: decoding of a bag of cells"""
from cellcore import *
from c07 import CD, CP, CT, STATS, kid_hook, kid_root, pop, possible_byte, kid_var
from loops import fix
from par import pmap

BIG = 1 << 62
_p = None


def anchor(ty, nm, n=1):
    bs = _p.method(ty, nm)
    if len(bs) != n:
        raise Undecided("%s::%s is not there" % (ty, nm))
    return bs[0]



def affl(c, *terms):
    return (c, tuple(sorted((v, k) for v, k in terms if k)))


def data_byte(ip, st, root, c, t=()):
    """bits of a data byte, least significant first"""
    a = ip.read(st, root, ())
    v = ip.elem(st, a, Af(64, False, c, t))
    return list(v.b) if isinstance(v, Bv) else ip.bits(st, v)


# ------------------------------------------------------------ one raw cell --
def raw_setup(ip, d1, odd, rs):
    """bytes of a raw cell of unknown length LEN: d1 concrete, d2 = 2 D + odd"""
    st = ip.state()
    st.var("LEN", 0, BIG)
    st.var("D", 0, 127)
    d = {((), 0): K(d1, 8), ((), 1): Af(8, False, odd, (("D", 2),))}
    st.mem[("X",)] = Arr(Af(64, False, 0, (("LEN", 1),)), d, content("x", ()))
    return st


def raw_spec(d1):
    """(valid, bytes of hashes, references)"""
    n, ex, sh, m = d1 & 7, d1 >> 3 & 1, d1 >> 4 & 1, d1 >> 5
    ok = n <= 4 and not (sh and ex and n == 0 and m)
    return ok, (34 * (pop(m) + 1) if sh else 0), n


def do_raw(d1, odd, rs):
    """CellParts::read_raw_cell: length and acceptance"""
    p = _p
    b = anchor("CellParts", "read_raw_cell")
    ip = Interp(p, [])
    st = raw_setup(ip, d1, odd, rs)
    st.mem[("B",)] = Sl(("X",), (), K(0), Af(64, False, 0, (("LEN", 1),)))
    tr = ip.run(st, b, [Ref(("B",)), K(rs)])
    ok, hl, n = raw_spec(d1)
    tot = (2 + hl + odd + n * rs, (("D", 1),))
    tag = (2 + hl + odd - 1, (("D", 1),))
    out, oks = [], 0
    lab = "d1 %#04x, d2 %s, reference size %d" % (d1, "odd" if odd else "even", rs)
    for t in tr:
        s = t.st
        if flags_text(s):
            out.append(("arith", flags_text(s)))
        if t.kind == "panic":
            out.append(("panic", "may panic: %s" % (t.why[0],)))
            continue
        tb = data_byte(ip, s, ("X",), *tag) if odd else None
        good = ok and s.possible(*lin_add((0, (("LEN", 1),)), 1, tot, -1))
        if odd and good:
            good = any(x & 0x7f for x in possible_byte(s, tb))
        if t.val.v == 1:
            if good:
                out.append(("refuses", "refuses a valid cell"))
            if not (isinstance(ip.read(s, ("B",), ()), Sl) and same_int(s, ip.read(s, ("B",), ()).off, 0, ())):
                out.append(("atomic", "advances although it fails"))
            continue
        oks += 1
        if not ok:
            out.append(("accepts", "accepts an invalid descriptor"))
            continue
        if not s.holds(*lin_add((0, (("LEN", 1),)), 1, tot, -1)):
            out.append(("accepts", "accepts a cell that is cut off"))
        if odd and any(not x & 0x7f for x in possible_byte(s, tb)):
            out.append(("accepts", "accepts a last byte without completion tag"))
        v = t.val.f[0]
        if not (isinstance(v, Sl) and v.root == ("X",) and same_int(s, v.off, 0, ()) and same_int(s, v.len, *tot)):
            out.append(("length", "gives %r as the cell of length %r" % (v, tot)))
        r = ip.read(s, ("B",), ())
        if not (isinstance(r, Sl) and r.root == ("X",) and same_int(s, r.off, *tot) and same_int(s, r.len, *lin_add((0, (("LEN", 1),)), 1, tot, -1))):
            out.append(("rest", "leaves %r" % (r,)))
    if ok and not oks:
        out.append(("refuses", "never succeeds"))
    return [("read_raw_cell", k, "%s (%s)" % (t, lab)) for k, t in out], len(tr)


def kid(key):
    return Opq("kid", (key,))


def kids_hook(ip, st, c, a):
    v = a[0] if a else None
    for _ in range(4):
        if isinstance(v, Ref):
            try:
                v = ip.read(st, v.root, v.path)
            except Undecided:
                return None
    while isinstance(v, Ag) and isinstance(v.k, str) and v.k.endswith("::Cell") and len(v.f) == 1:
        v = v.f[0]
    if isinstance(v, Opq) and v.name == "kid":
        if c["nm"] in ("as_ref", "deref", "borrow", "clone", "into", "from"):
            return [(st, v)]
        if c["nm"] == "descriptor":
            i = v.args[0]
            f = lambda n: Bv(8, False, [sym((n, i), j) for j in range(8)])
            return [(st, Ag(CD, 0, (f("kd1"), f("kd2"))))]
        if c["nm"] == "level_mask":
            return [(st, Ag("tycho_types::cell::LevelMask", 0, (Bv(8, False, [sym(("kd1", v.args[0]), 5 + j) if j < 3 else 0 for j in range(8)]),)))]
        if c["nm"] == "stats":
            n = mkadt(ip.p, STATS, bit_count=kid_var(st, "kbits%r" % (v.args[0],), 1 << 40, 64), cell_count=kid_var(st, "kcells%r" % (v.args[0],), 1 << 40, 64))
            return [(st, n)]
    return None


def do_parts(d1, odd, rs):
    """CellParts::from_raw_cell on a raw cell that was accepted"""
    p = _p
    ok, hl, n = raw_spec(d1)
    b = anchor("CellParts", "from_raw_cell")
    ip = Interp(p, [kids_hook])
    st = raw_setup(ip, d1, odd, rs)
    tot = (2 + hl + odd + n * rs, (("D", 1),))
    st.add(*lin_add((0, (("LEN", 1),)), 1, tot, -1))
    st.add(*lin_add((0, (("LEN", 1),)), -1, tot, 1))
    if odd:
        tb = data_byte(ip, st, ("X",), 2 + hl + odd - 1, (("D", 1),))
    st.var("NC", 0, (1 << 32) - 1)
    st.var("CC", 0, (1 << 32) - 1)
    st.add(0, (("CC", 1), ("NC", -1)))
    st.mem[("CELLS",)] = Arr(Af(64, False, 0, (("NC", 1),)), {}, lambda key: kid(key))
    out, oks = [], 0
    starts = [st]
    if odd:
        # position of the completion tag
        starts = []
        for z in range(7):
            s = st.copy()
            good = all(s.assume_bit(tb[i], 0) for i in range(z)) and s.assume_bit(tb[z], 1)
            if good:
                starts.append((s, z))
    else:
        starts = [(st, None)]
    lab = "d1 %#04x, d2 %s, reference size %d" % (d1, "odd" if odd else "even", rs)
    ntr = 0
    for s0, z in starts:
        cells = Sl(("CELLS",), (), K(0), Af(64, False, 0, (("NC", 1),)))
        raw = Sl(("X",), (), K(0), Af(64, False, 0, (("LEN", 1),)))
        tr = ip.run(s0, b, [raw, cells, Af(32, False, 0, (("CC", 1),)), K(rs)])
        ntr += len(tr)
        good_paths = 0
        for t in tr:
            s = t.st
            if flags_text(s):
                out.append(("arith", flags_text(s)))
            if t.kind == "panic":
                out.append(("panic", "may panic: %s" % (t.why[0],)))
                continue
            # the child indices
            idx = []
            for i in range(n):
                bits = []
                for j in range(rs):
                    bits += list(reversed(data_byte(ip, s, ("X",), 2 + hl + odd + i * rs + j, (("D", 1),))))
                idx.append(ip.var_of(s, ip.mkbits(32, False, list(reversed(bits)) + [0] * (32 - 8 * rs))))
            at = [(-1 - x.c, tuple(sorted([("CC", 1)] + [(v, -k) for v, k in x.t]))) for x in idx]
            lo = [a for a in at]
            hi = [lin_add((-1, (("NC", 1),)), 1, a, -1) for a in at]
            if t.val.v == 1:
                # some index is out of range on this path
                if feasible(s.all_cons() + lo + hi):
                    out.append(("refuses", "refuses a cell whose references are valid"))
                continue
            good_paths += 1
            oks += 1
            for a, h in zip(lo, hi):
                if not s.holds(*a) or not s.holds(*h):
                    out.append(("accepts", "accepts a reference to a cell that is not there"))
            v = t.val.f[0]
            g = lambda f: get(p, v, f)
            bl = (0, (("D", 8),)) if z is None else (7 - z, (("D", 8),))
            if not same_int(s, ip.affine(s, g("bit_len")), *bl):
                out.append(("bit_len", "bit_len is %r, expected %r" % (g("bit_len"), bl)))
            dsc = [ip.affine(s, x) for x in g("descriptor").f]
            if not same_int(s, dsc[0], d1, ()) or not same_int(s, dsc[1], odd, (("D", 2),)):
                out.append(("descriptor", "descriptor is %r" % (g("descriptor"),)))
            d = g("data")
            if not (isinstance(d, Sl) and d.root == ("X",) and same_int(s, d.off, 2 + hl, ()) and same_int(s, d.len, odd, (("D", 1),))):
                out.append(("data", "data is %r" % (d,)))
            refs = g("references")
            rl, ra = get(p, refs, "len"), get(p, refs, "inner")
            if not same_int(s, ip.affine(s, rl), n, ()):
                out.append(("references", "%r references" % (rl,)))
                continue
            names = []
            for i in range(n):
                e = ip.elem(s, ra, K(i))
                while isinstance(e, Ag) and len(e.f) == 1:
                    e = e.f[0]
                if not (isinstance(e, Opq) and e.name == "kid"):
                    out.append(("references", "reference %d is %r" % (i, e)))
                    continue
                kt, kc = e.args[0]
                if not same_int(s, Af(64, False, kc, kt), *at[i]):
                    out.append(("references", "reference %d is cell %r, expected %r" % (i, e.args[0], at[i])))
                names.append(e.args[0])
            if len(names) < n:
                continue
            m = g("children_mask").f[0]
            want = []
            for j in range(8):
                x = 0
                for k in names if j < 3 else []:
                    x = bor(x, sym(("kd1", k), 5 + j))
                want.append(s.bit(x))
            if ip.bits(s, m) != want:
                out.append(("children_mask", "children_mask is %r" % (m,)))
            if "stats" in p.field_names(CP):
                stt = g("stats")
                for f, first, pre in (("bit_count", bl, "kbits"), ("cell_count", (1, ()), "kcells")):
                    w = first
                    for k in names:
                        w = lin_add(w, 1, (0, (("%s%r" % (pre, k), 1),)), 1)
                    if not same_int(s, ip.affine(s, get(p, stt, f)), *w):
                        out.append(("stats", "%s is %r, expected %r" % (f, get(p, stt, f), w)))
        if not good_paths:
            out.append(("refuses", "never succeeds"))
    return [("from_raw_cell", k, "%s (%s)" % (t, lab)) for k, t in out], ntr


def do_get():
    """ProcessedCells::get: index i of n cells is the element n-1-i"""
    p = _p
    b = anchor("ProcessedCells", "get")
    ip = Interp(p, [sv_hook, kids_hook])
    st = ip.state()
    st.var("NC", 0, BIG)
    st.var("I", 0, (1 << 32) - 1)
    n = Af(64, False, 0, (("NC", 1),))
    adt = b["self"].split("<")[0] if isinstance(b.get("self"), str) else None
    st.mem[("P",)] = Ag("tycho_types::boc::de::ProcessedCells", 0, (Arr(n, {}, lambda key: kid(key), "sv"),))
    out, oks = [], 0
    tr = ip.run(st, b, [Ref(("P",)), Af(32, False, 0, (("I", 1),))])
    for t in tr:
        s = t.st
        if flags_text(s):
            out.append(("arith", flags_text(s)))
        if t.kind == "panic":
            out.append(("panic", "may panic: %s" % (t.why[0],)))
            continue
        if t.val.v == 0:
            if s.possible(-1, (("I", -1), ("NC", 1))):
                out.append(("refuses", "gives no cell for an index below the number of cells"))
            continue
        oks += 1
        e = t.val.f[0]
        while isinstance(e, Ag) and len(e.f) == 1:
            e = e.f[0]
        if not s.holds(-1, (("I", -1), ("NC", 1))):
            out.append(("accepts", "gives a cell for an index that is not below the number of cells"))
        elif not (isinstance(e, Opq) and e.name == "kid" and same_int(s, Af(64, False, e.args[0][1], e.args[0][0]), -1, (("I", -1), ("NC", 1)))):
            out.append(("value", "gives %r" % (e,)))
    if not oks:
        out.append(("refuses", "never gives a cell"))
    return [("ProcessedCells::get", k, t) for k, t in out], len(tr)


# -------------------------------------------------------------- SmallVec ----
def sv_hook(ip, st, c, a):
    """SmallVec / Vec as an array of known elements or, inside loops, a counter:
    Ag("sv", 0, (count,)) whose pushes are handed to `ip.on_push`"""
    if "SmallVec" not in c["path"] and "smallvec" not in c["path"] and "alloc::vec::Vec" not in c["path"] \
            and not ("smallvec" in str(c.get("self"))):
        return None
    nm = c["nm"]
    v = None
    if a and isinstance(a[0], Ref):
        v = ip.read(st, a[0].root, a[0].path)
    if nm in ("with_capacity", "new"):
        if nm == "with_capacity":
            ip.on_alloc(st, ip.var_of(st, a[0]))
        return [(st, Ag("sv", 0, (K(0), Opq(elem_ty(c)))))]
    if isinstance(v, Ag) and v.k == "sv":
        if nm == "push":
            ip.on_push(ip, st, v, a[1])
            ip.write(st, a[0].root, a[0].path, Ag("sv", 0, (ip.plus(v.f[0], 1), v.f[1])))
            return [(st, UNIT)]
        if nm in ("try_reserve_exact", "try_reserve", "reserve", "reserve_exact"):
            ip.on_alloc(st, ip.var_of(st, a[1]))
            if nm.startswith("try"):
                e = st.copy()
                e.mem[("NOMEM",)] = K(1, 8)
                return [(st, Ok(UNIT)), (e, Err(Opq("CollectionAllocErr")))]
            return [(st, UNIT)]
        if nm == "len":
            return [(st, v.f[0])]
        if nm in ("deref", "as_slice", "as_ref", "borrow"):
            return [(st, Sl(a[0].root, a[0].path, K(0), v.f[0]))]
        if nm == "is_empty":
            return [(st, B(x)) for x in [None]] if False else None
    if isinstance(v, Arr):
        if nm == "len":
            return [(st, v.n)]
        if nm in ("deref", "as_slice", "as_ref", "borrow"):
            return [(st, Sl(a[0].root, a[0].path, K(0), v.n))]
    return None


def elem_ty(c):
    return repr(c.get("sub") or c.get("targs") or "")


# ------------------------------------------------------------------ header --
DE = "tycho_types::boc::de"
TAGS = {"Generic": 0xb5ee9c72, "Indexed": 0x68ff65f3, "IndexedCrc32": 0xacc3a728}
G = ("G",)


class Ghost:
    """facts of the run that the code does not keep: next byte after the cells read
    so far, numbers of cells read / pushed, of roots pushed; the last read"""
    NAMES = ("next", "reads", "cells", "roots", "off", "len", "failed")

    @staticmethod
    def get(st, n):
        return st.mem[G].f[Ghost.NAMES.index(n)]

    @staticmethod
    def set(st, **kw):
        f = list(st.mem[G].f)
        for k, v in kw.items():
            f[Ghost.NAMES.index(k)] = v
        st.mem[G] = Ag("ghost", 0, f)


def u64(c, t=()):
    return Af(64, False, c, tuple(t))


def src_bytes(bits):
    """offsets of the data bytes a big-endian integer is made of (most significant first)"""
    out = []
    for i in range(len(bits) - 8, -1, -8):
        b = bits[i:i + 8]
        if not all(isinstance(x, tuple) and x[0] == "s" for x in b):
            return None
        nm = b[0][1][0]
        if not (isinstance(nm, tuple) and nm[0] == "x") or [x[1] for x in b] != [(nm, j) for j in range(8)]:
            return None
        out.append(nm[1] if isinstance(nm[1], tuple) else ((), nm[1]))
    return out


class Header:
    def __init__(s, tag, flags, osz, opts):
        s.tag, s.flags, s.osz, s.opts = tag, flags, osz, opts
        gen = tag == "Generic"
        s.gen = gen
        s.index = bool(flags & 0x80) if gen else True
        s.crc = bool(flags & 0x40) if gen else tag == "IndexedCrc32"
        s.cache = bool(flags & 0x20) if gen else False
        s.rs = flags & 7 if gen else flags
        s.valid = 1 <= s.rs <= 4 and 1 <= osz <= 8 and (s.index or not s.cache)
        s.bad = []

    def setup(s, ip):
        st = ip.state()
        st.var("LEN", 0, BIG)
        d = {((), i): K((TAGS[s.tag] >> (24 - 8 * i)) & 255, 8) for i in range(4)}
        if s.gen:
            d[((), 4)] = Bv(8, False, [(s.flags >> i) & 1 if i not in (3, 4) else sym("flags", i) for i in range(8)])
        else:
            d[((), 4)] = K(s.flags, 8)
        d[((), 5)] = K(s.osz, 8)
        st.mem[("X",)] = Arr(u64(0, (("LEN", 1),)), d, s.init())
        st.mem[G] = Ag("ghost", 0, (K(0),) * 6 + (K(0, 8),))
        if s.valid:
            o = 6
            for nm, n in (("CC", s.rs), ("RC", s.rs), ("AB", s.rs), ("TCS", s.osz)):
                st.var(nm, 0, (1 << 8 * n) - 1)
                v = u64(0, ((nm, 1),))
                setattr(s, nm.lower()[:2] if nm != "TCS" else "tcs", v)
                bs = ip.bits(st, v)
                for j in range(n):
                    d[((), o + j)] = Bv(8, False, bs[8 * (n - 1 - j):8 * (n - j)])
                o += n
            rs = s.rs
            s.roots_at = 6 + 3 * rs + s.osz
            s.h = lin((1, s.roots_at), (rs if s.gen else 0, s.rc), (s.osz if s.index else 0, s.cc))
            Ghost.set(st, next=u64(*s.h))
        o = mkadt(ip.p, DE + "::Options", min_roots=NONE, max_roots=NONE)
        if s.opts:
            st.var("MN", 0, BIG)
            st.var("MX", 0, BIG)
            o = mkadt(ip.p, DE + "::Options", min_roots=Some(u64(0, (("MN", 1),))), max_roots=Some(u64(0, (("MX", 1),))))
        st.mem[("O",)] = o
        return st

    def init(s):
        def init(key):
            t, c = key
            return int_sym(("x", c if not t else key), 8)
        return init

    def conds(s):
        """the linear conditions of a valid header, (what, c + t >= 0)"""
        out = [("no root", lin((1, s.rc), (1, -1))), ("more roots than cells", lin((1, s.cc), (-1, s.rc), (-1, s.ab))), ("absent cells", lin((-1, s.ab)))]
        if not s.gen:
            out.append(("several roots", lin((-1, s.rc), (1, 1))))
        if s.opts:
            out.append(("too few roots", lin((1, s.rc), (-1, u64(0, (("MN", 1),))))))
            out.append(("too many roots", lin((-1, s.rc), (1, u64(0, (("MX", 1),))))))
        else:
            out.append(("too many roots", lin((-1, s.rc), (1, 32))))
        out.append(("total size too small", lin((1, s.tcs), (-(2 + s.rs), s.cc), (s.rs, s.rc))))
        out.append(("total size too large", lin((-1, s.tcs), (2 + 4 * 34 + 128 + 4 * s.rs, s.cc))))
        out.append(("cut off", lin_add((0, (("LEN", 1),)), 1, lin_add(s.h, 1, lin((1, s.tcs), (1, 4 if s.crc else 0)), 1), -1)))
        return out

    # -- hooks
    def on_alloc(s, st, n):
        if not st.holds(*lin_add((0, (("LEN", 1),)), 1, (n.c, n.t), -1)):
            s.bad.append(("alloc", "reserves room for %r elements, more than there are bytes" % (n,)))

    def on_push(s, ip, st, sv, v):
        if isinstance(v, Sl):
            o, l = Ghost.get(st, "off"), Ghost.get(st, "len")
            if v.root != ("X",) or not same_int(st, v.off, o.c, o.t) or not same_int(st, v.len, l.c, l.t):
                s.bad.append(("cells", "keeps %r as the cell read from %r of length %r" % (v, o, l)))
            Ghost.set(st, cells=ip.plus(Ghost.get(st, "cells"), 1))
            return
        n = Ghost.get(st, "roots")
        if not s.gen:
            x = ip.affine(st, v)
            if x is None or not same_int(st, x, 0, ()):
                s.bad.append(("roots", "takes %r as the root" % (v,)))
        else:
            b = ip.bits(st, v)
            so = src_bytes(b[:8 * s.rs])
            if so is None or any(b[8 * s.rs:]) or not all(same_int(st, u64(c, t), *lin((1, s.roots_at + j), (s.rs, n))) for j, (t, c) in enumerate(so)):
                s.bad.append(("roots", "takes %r as root number %r" % (v, n)))
            x = ip.var_of(st, v)
            if not st.holds(*lin((1, s.cc), (-1, x), (1, -1))):
                s.bad.append(("roots", "accepts a root index that is not below the number of cells"))
        Ghost.set(st, roots=ip.plus(n, 1))

    def hook(s, ip, st, c, a):
        nm = c["nm"]
        if nm in ("read_raw_cell_from_ptr", "read_raw_cell"):
            nxt = Ghost.get(st, "next")
            if nm == "read_raw_cell":
                r = a[0]
                sl = ip.read(st, r.root, r.path)
                if isinstance(sl, Ref):
                    r = sl
                    sl = ip.read(st, r.root, r.path)
                root, off, ln, rs = sl.root, sl.off, sl.len, a[1]
            else:
                root, off, ln, rs = a[0].root, a[0].off, ip.var_of(st, a[1]), a[2]
            if root != ("X",) or not same_int(st, off, nxt.c, nxt.t):
                s.bad.append(("cells", "reads a cell at %r, expected %r" % (off, nxt)))
            if not st.holds(*lin_add((0, (("LEN", 1),)), 1, lin((1, off), (1, ln)), -1)):
                s.bad.append(("bounds", "reads a cell past the end of the data"))
            # all of the data must be available to the cell
            if not st.holds(*lin_add((0, (("LEN", -1),)), 1, lin((1, off), (1, ln)), 1)):
                s.bad.append(("cells", "limits a cell to %r bytes" % (ln,)))
            if not same_int(st, ip.affine(st, rs), s.rs, ()):
                s.bad.append(("cells", "reads a cell with reference size %r" % (rs,)))
            e = st.copy()
            Ghost.set(e, failed=K(1, 8))
            out = [(e, Err(Opq("E")))]
            tl = ip.newvar(st, 2, 2 + 4 * 34 + 128 + 4 * s.rs, "tl")
            tl = u64(0, ((tl, 1),))
            if st.add(*lin((1, ln), (-1, tl))):
                Ghost.set(st, next=ip.sum(nxt, tl), reads=ip.plus(Ghost.get(st, "reads"), 1), off=off, len=tl)
                if nm == "read_raw_cell":
                    neg = Af(64, False, -tl.c, tuple((v, -k) for v, k in tl.t))
                    ip.write(st, r.root, r.path, Sl(sl.root, sl.path, ip.sum(off, tl), ip.sum(ln, neg)))
                    out.append((st, Ok(Sl(root, (), off, tl))))
                else:
                    out.append((st, Ok(tl)))
            return out
        if "crc32c" in c["path"].split("::")[0] and isinstance(a[0], Sl):
            v = a[0]
            if v.root != ("X",) or not same_int(st, v.off, 0, ()):
                raise Undecided("checksum of %r" % (v,))
            st.mem[("CRC",)] = Ag("crc", 0, (v.len,))
            return [(st, Bv(32, False, [sym(("crc",), i) for i in range(32)]))]
        return None

    def crc_bits(s, ip, st):
        """(end, xors of the stored and the computed checksum)"""
        e = st.mem[("CRC",)].f[0]
        a = ip.read(st, ("X",), ())
        bits = sum((list(a.init(ip.canon(st, u64(e.c + j, e.t)).key()).b) for j in range(4)), [])
        return e, [st.bit(bxor(x, sym(("crc",), i))) for i, x in enumerate(bits)]

    def bad_root(s, ip, st):
        """the path has found a root index that is out of range"""
        n = Ghost.get(st, "roots")
        for v, b in ip.bvs.items():
            if v not in st.vr:
                continue
            so = src_bytes(b[:8 * s.rs])
            if so and not any(b[8 * s.rs:]) and all(same_int(st, u64(c, t), *lin((1, s.roots_at + j), (s.rs, n))) for j, (t, c) in enumerate(so)):
                if st.holds(*lin((1, u64(0, ((v, 1),))), (-1, s.cc))):
                    return st.holds(*lin((1, s.rc), (-1, n), (1, -1)))
        return False


def loop_bodies():
    return [b for b in _p.bodies.values() if b["path"].startswith(DE) and b["blocks"]]


def do_header(tag, flags, osz, opts):
    p = _p
    b = anchor("BocHeader", "decode")
    hd = Header(tag, flags, osz, opts)
    lab = "%s, flags %#04x, offset size %d%s" % (tag, flags, osz, ", options" if opts else "")
    tot = [0]

    def attempt(lp):
        hd.bad = []
        ip = Interp(p, [hd.hook, sv_hook])
        ip.loops = lp
        ip.on_alloc, ip.on_push = hd.on_alloc, hd.on_push
        st = hd.setup(ip)
        attempt.ip = ip
        return ip.run(st, b, [Sl(("X",), (), K(0), u64(0, (("LEN", 1),))), Ref(("O",))])

    def bounds(ip, st):
        return [u64(0, (("LEN", 1),)), hd.cc, hd.rc] if hd.valid else []
    tr, lp = fix(loop_bodies(), attempt, bounds)
    ip = attempt.ip
    out = list(hd.bad)
    oks = 0
    for t in tr:
        s = t.st
        if flags_text(s):
            out.append(("arith", flags_text(s)))
        if t.kind == "panic":
            out.append(("panic", "may panic: %s" % (t.why[0],)))
            continue
        gh = lambda n: Ghost.get(s, n)
        if t.val.v == 1:
            if not hd.valid or gh("failed").c:
                continue
            if ("CRC",) in s.mem and hd.crc:
                e, xs = hd.crc_bits(ip, s)
                allz = 1
                for x in xs:
                    allz = band(allz, bnot(x))
                if s.bit(allz) == 0 and same_int(s, e, *lin_add(hd.h, 1, lin((1, hd.tcs)), 1)):
                    continue
            if not feasible(s.all_cons() + [c for _, c in hd.conds()]) or hd.gen and hd.bad_root(ip, s):
                continue
            n = gh("reads")
            if n.t and same_int(s, n, *lin((1, hd.cc))):
                d = lin_add(lin((1, gh("next"))), 1, lin_add(hd.h, 1, lin((1, hd.tcs)), 1), -1)
                neg = (-d[0], tuple((v, -k) for v, k in d[1]))
                if not feasible(s.all_cons() + [c for _, c in hd.conds()] + [d, neg]):
                    continue
            out.append(("refuses", "refuses a valid header (%r)" % (t.val.f[0],)))
            continue
        oks += 1
        if not hd.valid:
            out.append(("accepts", "accepts an invalid header"))
            continue
        for what, c in hd.conds():
            if not s.holds(*c):
                out.append(("accepts", "accepts: " + what))
        end = lin_add(hd.h, 1, lin((1, hd.tcs)), 1)
        if not same_int(s, gh("next"), *end):
            out.append(("accepts", "accepts a total size that is not the size of the cells"))
        if not same_int(s, gh("reads"), *lin((1, hd.cc))) or not same_int(s, gh("cells"), *lin((1, hd.cc))):
            out.append(("cells", "keeps %r of %r cells" % (gh("cells"), hd.cc)))
        if not same_int(s, gh("roots"), *lin((1, hd.rc))):
            out.append(("roots", "keeps %r of %r roots" % (gh("roots"), hd.rc)))
        if hd.crc:
            if ("CRC",) not in s.mem:
                out.append(("checksum", "accepts without looking at the checksum"))
            else:
                e, xs = hd.crc_bits(ip, s)
                if not same_int(s, e, *end) or any(x != 0 for x in xs):
                    out.append(("checksum", "accepts a wrong checksum"))
        v = t.val.f[0]
        g = lambda f: get(p, v, f)
        if not same_int(s, ip.affine(s, g("ref_size")), hd.rs, ()):
            out.append(("ref_size", "ref_size is %r" % (g("ref_size"),)))
        for f, n in (("cells", hd.cc), ("roots", hd.rc)):
            x = g(f)
            if not (isinstance(x, Ag) and x.k == "sv" and same_int(s, x.f[0], *lin((1, n)))):
                out.append((f, "the %s are %r" % (f, x)))
    if hd.valid and not oks:
        out.append(("refuses", "never succeeds"))
    return [("decode", k, "%s (%s)" % (t, lab)) for k, t in out], len(tr)


def do_tags():
    """BocTag::from_bytes: exactly the three tags"""
    p = _p
    b = anchor("BocTag", "from_bytes")
    vs = {x["n"]: i for i, x in enumerate(p.adts["tycho_types::boc::BocTag"]["v"])}
    out, n = [], 0
    for name, v in TAGS.items():
        ip = Interp(p, [])
        tr = ip.run(ip.state(), b, [Arr(K(4), {((), i): K((v >> (24 - 8 * i)) & 255, 8) for i in range(4)})])
        n += len(tr)
        if len(tr) != 1 or tr[0].kind != "ret" or repr(tr[0].val) != repr(Some(Ag("tycho_types::boc::BocTag", vs[name], ()))):
            out.append(("tag", "%s is read as %r" % (name, [t.val for t in tr])))
    ip = Interp(p, [])
    tr = ip.run(ip.state(), b, [Arr(K(4), {((), i): int_sym(("t", i), 8) for i in range(4)})])
    for t in tr:
        n += 1
        if t.kind == "ret" and t.val.v == 0:
            continue
        bits = [t.st.bit(sym(("t", i), j)) for i in range(4) for j in reversed(range(8))]
        if t.kind != "ret" or not all(isinstance(x, int) for x in bits):
            out.append(("tag", "accepts other tags"))
            continue
        w = sum(x << (31 - i) for i, x in enumerate(bits))
        if w not in TAGS.values():
            out.append(("tag", "accepts the tag %#x" % w))
    return [("BocTag::from_bytes", k, t) for k, t in out], n


def do_finalize():
    """BocHeader::finalize: from the last cell to the first, each with the cells made so far"""
    p = _p
    b = anchor("BocHeader", "finalize")
    bad = []
    N = u64(0, (("N", 1),))

    def on_alloc(st, n):
        if not same_int(st, n, 0, (("N", 1),)):
            bad.append(("alloc", "reserves room for %r cells" % (n,)))

    def check_key(st, v, what, nm, count):
        while isinstance(v, Ag) and len(v.f) == 1:
            v = v.f[0]
        if not (isinstance(v, Opq) and v.name == nm and same_int(st, u64(v.args[0][1], v.args[0][0]), *lin((1, N), (1, -1), (-1, count)))):
            bad.append((what, "%s %r as cell number %r from the end" % (what, v, count)))
            return None
        return v.args[0]

    def on_push(ip, st, sv, v):
        check_key(st, v, "keeps", "new", sv.f[0])
        Ghost.set(st, cells=ip.plus(Ghost.get(st, "cells"), 1))

    def hook(ip, st, c, a):
        if c["nm"] == "from_raw_cell":
            raw, cells, cc, rs = a
            while isinstance(raw, Ref):
                raw = ip.read(st, raw.root, raw.path)
            if isinstance(cells, Ref):
                x = ip.read(st, cells.root, cells.path)
                n = x.f[0] if isinstance(x, Ag) and x.k == "sv" else None
            else:
                x = ip.read(st, cells.root, cells.path)
                n = cells.len if isinstance(x, Ag) and x.k == "sv" and same_int(st, cells.off, 0, ()) else None
            if n is None or not same_int(st, n, x.f[0].c, x.f[0].t):
                bad.append(("cells", "looks up references in %r" % (cells,)))
                n = Ghost.get(st, "cells")
            k = check_key(st, raw, "reads", "raw", n)
            if not same_int(st, ip.affine(st, cc), 0, (("N", 1),)) or not same_int(st, ip.affine(st, rs), 0, (("RS", 1),)):
                bad.append(("arguments", "reads a cell with %r cells, reference size %r" % (cc, rs)))
            e = st.copy()
            Ghost.set(e, failed=K(1, 8))
            return [(st, Ok(Opq("parts", (k,)))), (e, Err(Opq("E")))]
        if c["nm"] == "finalize_cell":
            v = a[-1]
            if not (isinstance(v, Opq) and v.name == "parts"):
                raise Undecided("finalize_cell of %r" % (v,))
            e = st.copy()
            Ghost.set(e, failed=K(1, 8))
            return [(st, Ok(Opq("new", v.args))), (e, Err(Opq("E")))]
        return None

    def attempt(lp):
        del bad[:]
        ip = Interp(p, [hook, sv_hook])
        ip.loops = lp
        ip.on_alloc, ip.on_push = on_alloc, on_push
        st = ip.state()
        st.var("N", 0, (1 << 32) - 1)
        st.var("RS", 1, 4)
        st.mem[G] = Ag("ghost", 0, (K(0),) * 6 + (K(0, 8),))
        raws = Arr(N, {}, lambda key: Opq("raw", (key,)), "sv")
        st.mem[("H",)] = mkadt(p, DE + "::BocHeader", ref_size=u64(0, (("RS", 1),)), cells=raws, roots=Opq("roots"))
        attempt.ip = ip
        return ip.run(st, b, [Ref(("H",)), Opq("context")])
    tr, lp = fix(loop_bodies(), attempt, lambda ip, st: [N])
    out, oks = list(bad), 0
    for t in tr:
        s = t.st
        if flags_text(s):
            out.append(("arith", flags_text(s)))
        if t.kind == "panic":
            out.append(("panic", "may panic: %s" % (t.why[0],)))
            continue
        if t.val.v == 1:
            if not Ghost.get(s, "failed").c and "CollectionAllocErr" not in repr(s.flags) and not s.mem.get(("NOMEM",)):
                out.append(("refuses", "fails although every cell is valid"))
            continue
        oks += 1
        if not same_int(s, Ghost.get(s, "cells"), 0, (("N", 1),)):
            out.append(("cells", "makes %r of N cells" % (Ghost.get(s, "cells"),)))
        v = t.val.f[0].f[0] if isinstance(t.val.f[0], Ag) and t.val.f[0].f else None
        if not (isinstance(v, Ag) and v.k == "sv"):
            out.append(("cells", "gives %r" % (t.val,)))
        if Ghost.get(s, "failed").c:
            out.append(("accepts", "succeeds although a cell is invalid"))
    if not oks:
        out.append(("refuses", "never succeeds"))
    return [("finalize", k, t) for k, t in out], len(tr)


def do_entry(nm, k):
    """Boc::decode_ext, Boc::decode_pair_ext: exactly k roots, the root cells in order"""
    p = _p
    b = anchor("Boc", nm)
    bad = []

    def hook(ip, st, c, a):
        if c["nm"] == "decode" and isinstance(a[0], Sl):
            o = ip.read(st, a[1].root, a[1].path)
            for f in ("min_roots", "max_roots"):
                x = get(p, o, f)
                if not (isinstance(x, Ag) and x.v == 1 and same_int(st, ip.affine(st, x.f[0]), k, ())):
                    bad.append(("options", "decodes with %s %r" % (f, x)))
            v = mkadt(p, DE + "::BocHeader", ref_size=K(1), cells=Opq("cells"), roots=Arr(K(k), {}, lambda key: int_sym(("root", key[1]), 32), "sv"))
            e = st.copy()
            e.mem[("FAILED",)] = K(1, 8)
            return [(st, Ok(v)), (e, Err(Opq("E")))]
        if c["nm"] == "finalize":
            if not (isinstance(a[1], Opq) and a[1].name == "context"):
                bad.append(("context", "finalizes with %r" % (a[1],)))
            e = st.copy()
            e.mem[("FAILED",)] = K(1, 8)
            return [(st, Ok(Opq("made"))), (e, Err(Opq("E")))]
        if c["nm"] == "get" and isinstance(a[0], Ref) and isinstance(ip.read(st, a[0].root, a[0].path), Opq):
            e = st.copy()
            e.mem[("FAILED",)] = K(1, 8)
            return [(st, Some(Opq("root cell", (repr(ip.bits(st, a[1])),)))), (e, NONE)]
        return None
    ip = Interp(p, [hook, sv_hook])
    st = ip.state()
    st.var("LEN", 0, BIG)
    st.mem[("X",)] = Arr(u64(0, (("LEN", 1),)), {}, content("x", ()))
    out, oks = [], 0
    tr = ip.run(st, b, [Sl(("X",), (), K(0), u64(0, (("LEN", 1),))), Opq("context")])
    for t in tr:
        s = t.st
        if t.kind == "panic":
            out.append(("panic", "may panic: %s" % (t.why[0],)))
            continue
        if t.val.v == 1:
            if ("FAILED",) not in s.mem:
                out.append(("refuses", "fails although everything succeeds"))
            continue
        oks += 1
        if ("FAILED",) in s.mem:
            out.append(("accepts", "succeeds although a step failed"))
        v = t.val.f[0]
        vs = list(v.f) if isinstance(v, Ag) and v.k == "tuple" else [v]
        for i, x in enumerate(vs):
            w = repr(Opq("root cell", (repr([sym(("root", i), j) for j in range(32)]),)))
            if repr(x) != w:
                out.append(("value", "root %d is %r" % (i, x)))
        if len(vs) != k:
            out.append(("value", "gives %r" % (v,)))
    if not oks:
        out.append(("refuses", "never succeeds"))
    return [("Boc::" + nm, x, t) for x, t in bad + out], len(tr)


def run_case(case):
    what = case[0]
    try:
        if what == "raw":
            return do_raw(*case[1:]) + (what,)
        if what == "parts":
            return do_parts(*case[1:]) + (what,)
        if what == "get":
            return do_get() + (what,)
        if what == "header":
            return do_header(*case[1:]) + (what,)
        if what == "entry":
            return do_entry(*case[1:]) + (what,)
        if what == "tags":
            return do_tags() + (what,)
        if what == "finalize":
            return do_finalize() + (what,)
    except GIVE_UP as e:
        nm = {"raw": "read_raw_cell", "parts": "from_raw_cell", "get": "ProcessedCells::get", "header": "decode", "tags": "BocTag::from_bytes", "finalize": "finalize", "entry": "Boc::decode_ext"}[what]
        return [(nm, "undecided", "%s cannot be decided: %s %r" % (nm, e, case))], 0, what


def check(cx):
    global _p
    _p = cx.prog("main")
    cs = [("get",), ("tags",), ("finalize",), ("entry", "decode_ext", 1), ("entry", "decode_pair_ext", 2)]
    deep = cx.tier == "thorough"
    for f in range(256):
        if f & 0x18:
            continue
        for o in list(range(0, 10)) + [255]:
            valid = 1 <= f & 7 <= 4 and 1 <= o <= 8 and (f & 0x80 or not f & 0x20)
            if deep or not valid or (f & 7, o) in ((1, 1), (2, 2), (3, 5), (4, 8)) or f in (1, 0x41, 0xc4) and o in (3, 4, 6, 7):
                for opts in (0, 1):
                    if opts == 0 or deep or (valid and f in (1, 0x82, 0xe3, 4)):
                        cs.append(("header", "Generic", f, o, opts))
    for tag in ("Indexed", "IndexedCrc32"):
        for f in (0, 1, 2, 3, 4, 5, 8, 0x41, 0x81, 0xc1, 255):
            for o in list(range(0, 10)) + [255]:
                if deep or f not in (1, 2, 3, 4) or o in (0, 1, 2, 8, 9):
                    cs.append(("header", tag, f, o, 0))
    for d1 in range(256):
        for odd in (0, 1):
            for rs in (1, 2, 3, 4):
                cs.append(("raw", d1, odd, rs))
                if raw_spec(d1)[0] and d1 & 7 <= (4 if rs == 1 else 2):
                    cs.append(("parts", d1, odd, rs))
    for b, k, what in pmap(run_case, cs):
        cx.count(what)
        cx.count("paths", k)
        for nm, kind, text in b:
            cx.bad("%s:%s" % (nm, kind), text)
    cx.floor("raw", 2048)
    cx.floor("parts", 600)
    cx.floor("header", 600)
    cx.floor("paths", 20000)


EXPLAIN = """
BocHeader::decode is interpreted, from its MIR, for every flag byte and offset size and for counts, sizes, roots and
cells that are unknown, on data of unknown length.  The two loops are passed under invariants (bounds and linear
relations between the places that they change) that every path around the loop was shown to preserve.  Every path that
succeeds implies every condition of the format (counts, root indices, sizes, contiguous cells that end where the
header says, checksum over everything before it); every path that fails implies that one of them does not hold; reads
stay inside the data, reservations stay below the number of bytes, nothing overflows or panics.
read_raw_cell and from_raw_cell are interpreted for every first descriptor byte and reference size, with an unknown
second one: exact length, acceptance, data, completion tag, each child index looked up at cell_count-1-index among the
cells made so far (so that a cell only refers to later cells), children mask and statistics.  finalize makes the cells
from the last to the first."""

ASSUMPTIONS = ["a non-root cell of a valid BOC is referenced at least once (lower bound of the total size)",
               "crc32c computes the Castagnoli checksum", "SmallVec and Vec are sequences"]
