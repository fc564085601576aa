"""C09: encoding of a bag of cells"""
from cellcore import *
from c07 import CD, pop, named_hash
from c08 import sv_hook, u64, src_bytes
from loops import fix
from par import pmap

EXPLAIN = """
The encoder is interpreted, from its MIR, on a header with unknown numbers of cells, roots, references and bytes (each
reference and offset size separately) over opaque cells with every level mask, hash flag and number of references.
Every byte it appends is compared with what the format has at that position: tag, flags, counts, total size of the
cells, root indices, then the cells from the last to the first, each with its descriptor, its hashes and depths when they are
kept, its data and the indices of its children, then the checksum of everything before.  Loops are passed under invariants
that every path around them preserves.  Collecting is interpreted for every number of references: a cell is entered
exactly once, with the index that is the number of cells before it, after all of its children, and the totals grow by
exactly the bytes that encode it; the sizes that the header announces are the sums of these."""

ASSUMPTIONS = ["HashMap, Vec and io::Write::write_all behave as documented", "fewer than 2^32 cells",
               "cells with equal representation hashes are equal", "crc32c computes the Castagnoli checksum"]

SER = "tycho_types::boc::ser"
BH = SER + "::BocHeader"
HB = "tycho_types::cell::HashBytes"
OUT = ("OUT",)
N_ = ("CC", 1)
_p = None


def anchor(ty, nm, path):
    bs = [b for b in _p.method(ty, nm) + (_p.method(ty, nm, "Default") if nm == "default" else []) if path in b["path"]]
    if len(bs) != 1:
        raise Undecided("%s::%s is not there" % (ty, nm))
    return bs[0]


def loop_bodies():
    return [b for b in _p.bodies.values() if b["path"].startswith(SER) and b["blocks"]]


class Kids:
    """opaque cells: `split` decides the first descriptor byte"""

    def __init__(s):
        s.order = []

    def value(s, ip, st, v):
        for _ in range(5):
            if isinstance(v, Ref):
                try:
                    v = ip.read(st, v.root, v.path)
                except Undecided:
                    return None
        return v if isinstance(v, Opq) and v.name == "kid" else None

    def hook(s, ip, st, c, a):
        v = s.value(ip, st, a[0]) if a else None
        if v is None:
            return None
        nm, key = c["nm"], v.args[0]
        if nm in ("as_ref", "deref", "borrow", "clone"):
            return [(st, v)]
        if nm == "descriptor":
            root = ("DSC", key)
            if root in st.mem:
                d = st.mem[root]
                return [(st, Ag(CD, 0, (d.f[0], d.f[1])))]
            out = []
            for m, sh, n in s.cases(key):
                t = st.copy()
                r = s.enter(t, key, m, sh, n)
                out.append((t, r))
            return out
        if nm in ("hash", "depth"):
            l = ip.affine(st, a[1])
            if l is None or l.t:
                raise Undecided("level")
            if nm == "depth":
                n = "kdepth%r@%d" % (key, l.c)
                if n not in st.vr:
                    st.var(n, 0, 65535)
                return [(st, Af(16, False, 0, ((n, 1),)))]
            root = ("KH", key, l.c)
            st.mem[root] = named_hash(("h", key, l.c))
            return [(st, Ref(root))]
        if nm == "repr_hash":
            root = ("RH", key)
            st.mem[root] = Opq("repr", (key,))
            return [(st, Ref(root))]
        if nm == "data":
            n = "kl%r" % (key,)
            if n not in st.vr:
                st.var(n, 0, 128)
            return [(st, Sl(("KD", key), (), K(0), u64(0, ((n, 1),))))]
        if nm == "repr_depth":
            n = "krd%r" % (key,)
            if n not in st.vr:
                st.var(n, 0, 65535)
            return [(st, Af(16, False, 0, ((n, 1),)))]
        if nm in ("reference", "reference_cloned"):
            i = ip.affine(st, a[1])
            n = st.mem[("DSC", key)].f[4].c if ("DSC", key) in st.mem else None
            if i is None or i.t or n is None:
                raise Undecided("reference %r" % (a[1],))
            return [(st, Some(Opq("kid", (("kid", key, i.c),))) if i.c < n else NONE)]
        return None

    def enter(s, t, key, m, sh, n):
        bm = [(m >> i) & 1 for i in range(3)] if m is not None else [sym(("kmask", key), i) for i in range(3)]
        bs = sh if sh is not None else sym(("ksh", key), 0)
        d1 = Bv(8, False, [(n >> i) & 1 for i in range(3)] + [sym(("ex", key), 0), bs] + bm)
        d2 = Bv(8, False, [sym(("kd2", key), i) for i in range(8)])
        t.mem[("DSC", key)] = Ag("dsc", 0, (d1, d2, K(0 if m is None else m), K(sh or 0), K(n)))
        return Ag(CD, 0, (d1, d2))

    def cases(s, key):
        return [(m, sh, n) for m in range(8) for sh in (0, 1) for n in range(5)]


class FillKids(Kids):
    """the level mask only matters for cells that keep their hashes, and only for the cell that is entered"""
    full = (("top",), ("root",))

    def cases(s, key):
        return [(m, sh, n) for m, sh in ([(None, 0)] + [(m, 1) for m in range(8)] if key in s.full else [(None, None)])
                for n in range(5)]


def expect_cell(ip, st, key, rs, nohash):
    """the encoding of a cell: list of bytes (8 bits each, least significant first), ("data", key), ("ref", ..)"""
    d1, d2, m, sh, n = st.mem[("DSC", key)].f
    m, sh, n = m.c, sh.c, n.c
    b1 = list(d1.b)
    if nohash:
        b1[4] = 0
    out = [b1, list(d2.b)]
    if sh and not nohash:
        lv = [0] + [i + 1 for i in range(3) if m >> i & 1]
        for l in lv:
            out += [[sym((("h", key, l), i), j) for j in range(8)] for i in range(32)]
        for l in lv:
            v = ip.bits(st, Af(16, False, 0, (("kdepth%r@%d" % (key, l), 1),))) if "kdepth%r@%d" % (key, l) in st.vr else None
            out += [v[8:], v[:8]] if v else [None]
    out.append(("data", key))
    for i in range(n):
        k = "ri%r" % (("kid", key, i),)
        v = ip.bits(st, Af(32, False, -1, (N_, (k, -1)))) if k in st.vr else None
        out += [v[8 * (rs - 1 - j):8 * (rs - j)] for j in range(rs)] if v else [None]
    return out


class Writer:
    """the bytes that are appended, compared with the format"""

    def __init__(s, rs, osz, crc, nohash):
        s.rs, s.osz, s.crc, s.nohash = rs, osz, crc, nohash
        s.bad = []

    # ghost: total bytes so far, roots written, cells written
    def g(s, st, i):
        return st.mem[("G",)].f[i]

    def setg(s, st, i, v):
        f = list(st.mem[("G",)].f)
        f[i] = v
        st.mem[("G",)] = Ag("ghost", 0, f)

    def err(s, k, t):
        s.bad.append((k, t))

    def setup(s, ip):
        st = ip.state()
        rs = s.rs
        st.var("CC", max(1, 1 << 8 * (rs - 1)) if rs > 1 else 1, (1 << 8 * rs) - 1)
        st.var("RC", 1, (1 << 32) - 1)
        st.add(0, (N_, ("RC", -1)))
        for nm, k in (("TD", 128), ("TH", 136), ("RF", 4)):
            st.var(nm, 0, 1 << 50)
            st.add(0, (("CC", k), (nm, -1)))
        s.tot = (0, tuple(sorted([("TD", 1), ("CC", 2), ("RF", rs)] + ([] if s.nohash else [("TH", 1)]))))
        lo, hi = (1 << 8 * (s.osz - 1)) if s.osz > 1 else 1, (1 << 8 * s.osz) - 1
        st.add(*lin_add(s.tot, 1, (-lo, ()), 1))
        st.add(*lin_add((hi, ()), 1, s.tot, -1))
        if not feasible(st.all_cons()):
            return None
        st.var("T0", 0, 1 << 61)
        st.mem[OUT] = Ag("out", 0, (u64(0, (("T0", 1),)), K(0), K(0)))
        st.mem[("G",)] = Ag("ghost", 0, (K(0), K(0), K(0)))
        st.mem[("EV",)] = Opq("ev", ((), None))
        cells = Arr(u64(0, (N_,)), {}, lambda key: Opq("kid", (("cell",) + key,)), "sv")
        roots = Arr(u64(0, (("RC", 1),)), {}, lambda key: int_sym(("ri", key), 32), "sv")
        kw = dict(root_rev_indices=roots, rev_indices=Opq("map"), rev_cells=cells, total_data_size=u64(0, (("TD", 1),)),
                  reference_count=u64(0, (("RF", 1),)), cell_count=Af(32, False, 0, (N_,)), without_hashes=K(s.nohash, 1), include_crc=K(s.crc, 1))
        if "total_hashes_size" in _p.field_names(BH):
            kw["total_hashes_size"] = u64(0, (("TH", 1),))
        st.mem[("H",)] = mkadt(_p, BH, **kw)
        s.hdr = s.header(ip, st)
        s.kids = Kids()
        return st

    def on_var(s, st, nm, bits):
        if bits and isinstance(bits[0], tuple) and bits[0][0] == "s" and isinstance(bits[0][1][0], tuple) and bits[0][1][0][0] == "ri":
            st.add(-1, (N_, (nm, -1)))

    def header(s, ip, st):
        """the constant part of the header: one byte per entry"""
        be = lambda v, n: [ip.bits(st, v)[8 * (n - 1 - j):8 * (n - j)] for j in range(n)]
        k8 = lambda x: [(x >> i) & 1 for i in range(8)]
        out = [k8(x) for x in (0xb5, 0xee, 0x9c, 0x72)]
        out += [k8(s.rs | (0x40 if s.crc else 0)), k8(s.osz)]
        out += be(u64(0, (N_,)), s.rs) + be(u64(0, (("RC", 1),)), s.rs) + [k8(0)] * s.rs + be(u64(*s.tot), s.osz)
        return out

    # -- appended bytes
    def append(s, ip, st, items):
        """items: byte bit-lists or ("data", key)"""
        ev, cur = st.mem[("EV",)].args
        if cur is not None:
            st.mem[("EV",)] = Opq("ev", (ev + tuple(tuple(it) if isinstance(it, list) else it for it in items), cur))
            n = K(sum(1 for it in items if isinstance(it, list)))
            for it in items:
                if not isinstance(it, list):
                    n = ip.sum(n, u64(0, (("kl%r" % (it[1],), 1),)))
            s.setg(st, 0, ip.sum(s.g(st, 0), n))
            return
        for it in items:
            pos = s.g(st, 0)
            h = len(s.hdr)
            rc, ci = s.g(st, 1), s.g(st, 2)
            if not pos.t and pos.c < h:
                if isinstance(it, tuple) or norm(st, it) != norm(st, s.hdr[pos.c]):
                    s.err("header", "byte %d of the header is %s, expected %s" % (pos.c, show(it), show(s.hdr[pos.c])))
            else:
                # in the list of roots?
                off = lin_add(lin((1, pos)), 1, lin((1, h), (s.rs, u64(0, (("RC", 1),)))), -1)
                if st.possible(-1 - off[0], tuple((v, -k) for v, k in off[1])):
                    if st.possible(*off):
                        raise Undecided("position in the header")
                    s.root_byte(ip, st, pos, it)
                else:
                    ev, cur = st.mem[("EV",)].args
                    if not same_int(st, s.g(st, 2), 0, (N_,)):
                        s.err("cells", "writes something else after %r of CC cells" % (s.g(st, 2),))
                    st.mem[("EV",)] = Opq("ev", (ev + ((tuple(it) if isinstance(it, list) else it),), cur))
            n = K(1) if isinstance(it, list) else u64(0, (("kl%r" % (it[1],), 1),))
            s.setg(st, 0, ip.sum(s.g(st, 0), n))

    def root_byte(s, ip, st, pos, it):
        i = s.g(st, 1)
        base = lin_add(lin((1, pos)), 1, lin((1, len(s.hdr)), (s.rs, i)), -1)
        # which byte of the index of root i
        j = next((j for j in range(s.rs) if same_int(st, u64(*base), j, ())), None)
        if j is None:
            return s.err("roots", "writes root bytes at %r while at root %r" % (pos, i))
        nm = next((v for v in st.vr if v in ip.bvs and is_root(ip, st, v, i)), None)
        if nm is None:
            return s.err("roots", "does not write root number %r" % (i,))
        w = ip.bits(st, Af(32, False, -1, tuple(sorted([N_, (nm, -1)]))))[8 * (s.rs - 1 - j):8 * (s.rs - j)]
        if norm(st, it) != norm(st, w):
            s.err("roots", "byte %d of root index is %s, expected %s" % (j, show(it), show(w)))
        if j == s.rs - 1:
            s.setg(st, 1, ip.plus(i, 1))

    def items(s, ip, st, v):
        """bytes of a slice"""
        if isinstance(v, Ref):
            x = ip.read(st, v.root, v.path)
            if isinstance(x, Sl):
                v = x
            elif isinstance(x, Ag) and x.k == HB:
                v = Sl(v.root, v.path + (0,), K(0), K(32))
            elif isinstance(x, Arr):
                v = Sl(v.root, v.path, K(0), x.n)
            elif isinstance(x, Ag) and x.k == "out":
                return s.chunk(ip, st, v.root, v.path)
        if isinstance(v, Sl):
            if v.root[0] == "KD":
                if same_int(st, v.off, 0, ()) and same_int(st, v.len, 0, (("kl%r" % (v.root[1],), 1),)):
                    return [("data", v.root[1])]
                raise Undecided("part of the data of a cell")
            x = ip.read(st, v.root, v.path)
            if isinstance(x, Ag) and x.k == "out":
                if same_int(st, v.off, 0, ()) and same_int(st, v.len, x.f[0].c, x.f[0].t):
                    return s.chunk(ip, st, v.root, v.path)
                raise Undecided("part of a chunk")
            if isinstance(x, Ag) and x.k == HB:
                x = x.f[0]
            if isinstance(x, Arr) and not v.len.t:
                return [list(ip.bits(st, ip.elem(st, x, ip.plus(v.off, i)))) for i in range(v.len.c)]
        raise Undecided("bytes of %r" % (v,))

    # -- cells
    def end_cell(s, ip, st):
        ev, cur = st.mem[("EV",)].args
        if cur is None and not ev:
            return
        i = s.g(st, 2)
        st.mem[("EV",)] = Opq("ev", ((), None))
        ds = [k for k in st.mem if k[0] == "DSC"]
        if len(ds) != 1:
            s.err("cells", "%d cells at once" % len(ds))
        else:
            key = ds[0][1]
            if not (key[0] == "cell" and same_int(st, u64(key[2], key[1]), *lin((1, u64(0, (N_,))), (-1, i), (1, -1)))):
                s.err("cells", "writes cell %r as number %r" % (key, i))
            w = expect_cell(ip, st, key, s.rs, s.nohash)
            w = [norm(st, x) for x in w]
            ev = [norm(st, x) for x in ev]
            if ev != w:
                k = next((k for k in range(max(len(ev), len(w))) if k >= len(ev) or k >= len(w) or ev[k] != w[k]), 0)
                m, sh, n = [x.c for x in st.mem[ds[0]].f[2:]]
                s.err("cell", "item %d of a cell (mask %d, stored hashes %d, %d references) is %s, expected %s"
                      % (k, m, sh, n, show(ev[k]) if k < len(ev) else "missing", show(w[k]) if k < len(w) else "nothing"))
        for k in [k for k in st.mem if k[0] in ("DSC", "KH", "RH", "RI")]:
            del st.mem[k]
        s.setg(st, 2, ip.plus(i, 1))

    def on_back(s, ip, st):
        s.end_cell(ip, st)

    def chunk(s, ip, st, root, path):
        return [("chunk", root, path)]

    # -- hooks
    def hook(s, ip, st, c, a):
        nm, path = c["nm"], c["path"]
        if nm == "descriptor":
            ev, cur = st.mem[("EV",)].args
            v = s.kids.value(ip, st, a[0])
            if v is not None and ("DSC", v.args[0]) not in st.mem and v.args[0][0] == "cell":
                s.end_cell(ip, st)
                st.mem[("EV",)] = Opq("ev", ((), v.args[0]))
                if not same_int(st, s.g(st, 1), 0, (("RC", 1),)):
                    s.err("cells", "begins with the cells after %r of RC roots" % (s.g(st, 1),))
        r = s.kids.hook(ip, st, c, a)
        if r is not None:
            return r
        v = None
        if a and isinstance(a[0], Ref):
            try:
                v = ip.read(st, a[0].root, a[0].path)
            except Undecided:
                pass
            if isinstance(v, Ref):
                try:
                    a = [v] + list(a[1:])
                    v = ip.read(st, v.root, v.path)
                except Undecided:
                    pass
        if isinstance(v, Opq) and v.name == "map":
            if nm in ("get", "index", "contains_key"):
                k = a[1]
                while isinstance(k, Ref):
                    k = ip.read(st, k.root, k.path)
                if not (isinstance(k, Opq) and k.name == "repr"):
                    raise Undecided("lookup of %r" % (k,))
                n = "ri%r" % (k.args[0],)
                if n not in st.vr:
                    st.var(n, 0, (1 << 32) - 1)
                    st.add(-1, tuple(sorted([N_, (n, -1)])))
                st.mem[("RI", k.args[0])] = Af(32, False, 0, ((n, 1),))
                r = Ref(("RI", k.args[0]))
                return [(st, Some(r) if nm == "get" else r if nm == "index" else K(1, 1))]
        if isinstance(v, Ag) and v.k == "out":
            ln, base, wr = v.f
            if nm in ("reserve", "reserve_exact"):
                return [(st, UNIT)]
            if nm == "len":
                return [(st, ln)]
            if nm == "is_empty":
                return [(st, ip.compare(st, "Eq", ln, K(0), 64, False))]
            if nm in ("extend_from_slice", "push", "extend"):
                its = [list(ip.bits(st, a[1]))] if nm == "push" else s.items(ip, st, a[1])
                if len(its) == 1 and its[0][0] == "chunk":
                    _, r, pth = its[0]
                    o = ip.read(st, r, pth)
                    if not same_int(st, o.f[2], 0, ()):
                        s.err("writer", "writes a chunk twice")
                    if not same_int(st, ip.sum(o.f[0], o.f[1]), s.g(st, 0).c, s.g(st, 0).t):
                        s.err("writer", "writes a chunk out of order")
                    ip.write(st, r, pth, Ag("out", 0, (o.f[0], o.f[1], o.f[0])))
                    ip.write(st, a[0].root, a[0].path, Ag("out", 0, (ip.sum(ln, o.f[0]), base, wr)))
                    return [(st, UNIT)]
                before = s.g(st, 0)
                s.append(ip, st, its)
                v = ip.read(st, a[0].root, a[0].path)
                grown = ip.sum(s.g(st, 0), Af(64, False, -before.c, tuple((x, -k) for x, k in before.t)))
                ip.write(st, a[0].root, a[0].path, Ag("out", 0, (ip.sum(ln, grown), base, wr)))
                return [(st, UNIT)]
            if nm in ("deref", "as_slice", "as_ref", "deref_mut", "borrow"):
                return [(st, Sl(a[0].root, a[0].path, K(0), ln))]
            if nm == "index":
                o, l = range_of(ip, st, a[1], ln)
                return [(st, Sl(a[0].root, a[0].path, o, l))]
            if nm == "clear":
                if not same_int(st, wr, ln.c, ln.t):
                    s.err("writer", "throws %r bytes away of which %r are written" % (ln, wr))
                ip.write(st, a[0].root, a[0].path, Ag("out", 0, (K(0), ip.sum(base, ln), K(0))))
                return [(st, UNIT)]
        if path.split("::")[0] == "crc32c":
            app = nm == "crc32c_append"
            sl = a[1] if app else a[0]
            if isinstance(sl, Ref):
                x = ip.read(st, sl.root, sl.path)
                sl = Sl(sl.root, sl.path, K(0), x.f[0]) if isinstance(x, Ag) and x.k == "out" else x
            o = ip.read(st, sl.root, sl.path) if isinstance(sl, Sl) else None
            if not (isinstance(o, Ag) and o.k == "out"):
                raise Undecided("checksum of %r" % (sl,))
            if app:
                p0 = a[0].f[0] if isinstance(a[0], Ag) and a[0].k == "crc" else ip.affine(st, a[0])
                if p0 is None or not same_int(st, p0, o.f[1].c, o.f[1].t) or not same_int(st, sl.off, 0, ()):
                    s.err("checksum", "continues the checksum of %r bytes with byte %r" % (p0, o.f[1]))
                return [(st, Ag("crc", 0, (ip.sum(o.f[1], sl.len),)))]
            if not same_int(st, sl.off, 0, (("T0", 1),)):
                s.err("checksum", "computes the checksum from byte %r" % (sl.off,))
            return [(st, Ag("crc", 0, (sl.len if "T0" not in dict(sl.len.t) else sl.len,)))]
        if nm in ("to_le_bytes", "to_be_bytes") and a and isinstance(a[0], Ag) and a[0].k == "crc":
            bs = [[sym(("crc", a[0].f[0].key(), i), j) for j in range(8)] for i in range(4)]
            st.mem[("CRCVAL",)] = a[0]
            if nm == "to_be_bytes":
                bs.reverse()
            return [(st, Arr(K(4), {((), i): Bv(8, False, b) for i, b in enumerate(bs)}))]
        if nm == "write_all":
            its = s.items(ip, st, a[1])
            if len(its) == 1 and its[0][0] == "chunk":
                _, r, pth = its[0]
                o = ip.read(st, r, pth)
                if not same_int(st, o.f[2], 0, ()):
                    s.err("writer", "writes a chunk twice")
                ip.write(st, r, pth, Ag("out", 0, (o.f[0], o.f[1], o.f[0])))
            else:
                s.append(ip, st, its)
            e = st.copy()
            e.mem[("FAILED",)] = K(1, 8)
            return [(st, Ok(UNIT)), (e, Err(Opq("E")))]
        if nm in ("new", "with_capacity") and "alloc::vec::Vec" in path:
            return [(st, Ag("out", 0, (K(0), s.g(st, 0), K(0))))]
        if nm in ("rchunks", "par_rchunks", "chunks", "par_chunks") and isinstance(a[0], Sl):
            return [(st, Ag("rchunks", 0, (a[0], a[1], int("rch" in nm))))]
        x0 = a[0] if a and isinstance(a[0], Ag) else None
        if nm == "map" and x0 is not None and x0.k == "rchunks":
            return [(st, Ag("rcmap", 0, (x0, a[1])))]
        if nm == "collect_into_vec" and x0 is not None and x0.k == "rcmap":
            # the results keep the order of the chunks; they are computed when they are used
            ip.write(st, a[1].root, a[1].path, x0)
            return [(st, UNIT)]
        if nm in ("collect", "into_iter") and x0 is not None and x0.k == "rcmap":
            return [(st, x0)]
        if nm == "next" and isinstance(v, Ag) and v.k == "rcmap":
            out = []
            for t, y in s.next_chunk(ip, st, v.f[0], lambda t, x: ip.write(t, a[0].root, a[0].path, Ag("rcmap", 0, (x, v.f[1])))):
                if y is None:
                    out.append((t, NONE))
                else:
                    out.extend(ip.call_value(t, v.f[1], [y], lambda t2, r: Some(r)))
            return out
        if nm == "next" and isinstance(v, Ag) and v.k == "rchunks":
            return [(t, NONE if y is None else Some(y)) for t, y in
                    s.next_chunk(ip, st, v, lambda t, x: ip.write(t, a[0].root, a[0].path, x))]
        return sv_hook(ip, st, c, a)

    def next_chunk(s, ip, st, v, put):
        if True:
            sl, sz, back = v.f
            out = []
            for t, x in ip.branch(st, ip.compare(st, "Eq", sl.len, K(0), 64, False)):
                if x:
                    out.append((t, None))
                    continue
                for t2, y in ip.branch(t, ip.compare(t, "Le", sl.len, sz, 64, False)):
                    n = sl.len if y else sz
                    rest = ip.sum(sl.len, Af(64, False, -n.c, tuple((q, -k) for q, k in n.t)))
                    put(t2, Ag("rchunks", 0, (Sl(sl.root, sl.path, sl.off if back else ip.sum(sl.off, n), rest), sz, back)))
                    out.append((t2, Sl(sl.root, sl.path, ip.sum(sl.off, rest) if back else sl.off, n)))
            return out

    def finish(s, ip, st):
        """at a successful return"""
        out = []
        ev, cur = st.mem[("EV",)].args
        tail = []
        if s.crc:
            tail, ev = list(ev[-4:]), ev[:-4]
            st.mem[("EV",)] = Opq("ev", (ev, cur))
        s.end_cell(ip, st)
        if not same_int(st, s.g(st, 1), 0, (("RC", 1),)):
            out.append(("roots", "writes %r of RC roots" % (s.g(st, 1),)))
        if not same_int(st, s.g(st, 2), 0, (N_,)):
            out.append(("cells", "writes %r of CC cells" % (s.g(st, 2),)))
        if s.crc:
            v = st.mem.get(("CRCVAL",))
            end = ip.plus(s.g(st, 0), -4)
            if v is None:
                out.append(("checksum", "writes no checksum"))
            else:
                w = [tuple(sym(("crc", v.f[0].key(), i), j) for j in range(8)) for i in range(4)]
                if tail != w:
                    out.append(("checksum", "ends with %s" % (", ".join(show(x) for x in tail))))
                if not same_int(st, v.f[0], end.c, end.t):
                    out.append(("checksum", "checksum of %r of %r bytes" % (v.f[0], end)))
        return out


def norm(st, it):
    """a byte, with the bits above the range of an affine value replaced by zero"""
    if it is None or isinstance(it, tuple) and isinstance(it[0], str):
        return it
    out = []
    for b in it:
        b = st.bit(b)
        if isinstance(b, tuple) and b[0] == "s" and isinstance(b[1][0], tuple) and b[1][0][0] == "af":
            lo, hi = st.rng(b[1][0][2], b[1][0][1])
            if lo is not None and hi is not None and lo >= 0 and hi < 1 << b[1][1]:
                b = 0
        out.append(b)
    return tuple(out)


def is_root(ip, st, v, i):
    b = ip.bvs[v]
    if not b or not all(isinstance(x, tuple) and x[0] == "s" for x in b):
        return False
    n = b[0][1][0]
    if not (isinstance(n, tuple) and n[0] == "ri") or [x[1] for x in b] != [(n, j) for j in range(32)]:
        return False
    return same_int(st, u64(n[1][1], n[1][0]), *lin((1, i)))


def range_of(ip, st, r, ln):
    f = r.f
    k = str(r.k)
    aff = lambda x: ip.var_of(st, x)
    neg = lambda x: Af(64, False, -x.c, tuple((v, -n) for v, n in x.t))
    if k.endswith("RangeFrom"):
        return aff(f[0]), ip.sum(ln, neg(aff(f[0])))
    if k.endswith("RangeTo"):
        return K(0), aff(f[0])
    if k.endswith("RangeFull"):
        return K(0), ln
    return aff(f[0]), ip.sum(aff(f[1]), neg(aff(f[0])))


def show(x):
    if x is None:
        return "nothing"
    if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ("data", "chunk"):
        return "the data"
    if all(isinstance(b, int) for b in x):
        return "%#04x" % sum(b << i for i, b in enumerate(x))
    return "[%s]" % ",".join(show_bit(b) for b in x)


def do_encode(what, rs, osz, crc, nohash):
    p = _p
    b = anchor("BocHeader", what, SER)
    w = Writer(rs, osz, crc, nohash)

    def attempt(lp):
        w.bad = []
        ip = Interp(p, [w.hook], max_steps=3000000, max_traces=20000)
        ip.loops = lp
        st = w.setup(ip)
        ip.on_var = w.on_var
        attempt.ip = ip
        if st is None:
            return None
        if what != "encode_to_writer":
            return ip.run(st, b, [Ref(("H",)), Ref(OUT)])
        return ip.run(st, b, [Ref(("H",)), Opq("writer")])
    bounds = lambda ip, st: [u64(0, (N_,)), u64(0, (("RC", 1),))]
    tr, lp = fix(loop_bodies(), attempt, bounds, unroll=6, on_back=w.on_back)
    if tr is None:
        return [], 0
    ip = attempt.ip
    out, oks = [], 0
    for t in tr:
        s = t.st
        if flags_text(s):
            out.append(("arith", flags_text(s)))
        if t.kind == "panic":
            out.append(("panic", "may panic: %s" % (t.why[0],)))
            continue
        if ("FAILED",) in s.mem:
            if what == "encode_to_writer" and t.val.v != 1:
                out.append(("writer", "ignores an error of the writer"))
            continue
        if what == "encode_to_writer" and t.val.v == 1:
            out.append(("writer", "fails although the writer does not"))
            continue
        oks += 1
        out += w.finish(ip, s)
        if what != "encode_to_writer":
            o = ip.read(s, OUT, ())
            if not same_int(s, o.f[0], *lin((1, w.g(s, 0)), (1, u64(0, (("T0", 1),))))):
                out.append(("length", "target grows by %r" % (o.f[0],)))
    out += w.bad
    if not oks:
        out.append(("result", "never finishes"))
    lab = "reference size %d, offset size %d%s%s" % (rs, osz, ", checksum" if crc else "", ", without hashes" if nohash else "")
    return [(what, k, "%s (%s)" % (x, lab)) for k, x in out], len(tr)


def run_case(case):
    what = case[0]
    try:
        if what == "encode":
            return do_encode(*case[1:]) + (what,)
        if what == "fill":
            return do_fill(*case[1:]) + (what,)
        return globals()["do_" + what](*case[1:]) + (what,)
    except GIVE_UP as e:
        nm = case[1]
        return [(nm, "undecided", "%s cannot be decided: %s %r" % (nm, e, case))], 0, what


# ------------------------------------------------------------- collecting --
STACK = ("STACK",)


class Collector:
    """the map, the list of cells and the totals while cells are collected; a cell is
    contained once it was inserted.  ghost: ("CON", key) known containment"""

    def __init__(s):
        s.bad = []
        s.kids = FillKids()

    def err(s, k, t):
        s.bad.append((k, t))

    def setup(s, ip):
        st = ip.state()
        st.var("CC", 0, (1 << 32) - 2)
        st.var("RC", 0, (1 << 32) - 2)
        for nm in ("TD", "TH", "RF"):
            st.var(nm, 0, 1 << 50)
        st.add(0, (N_, ("RC", -1)))
        kw = dict(root_rev_indices=Ag("sv", 0, (u64(0, (("RC", 1),)), Opq("roots"))), rev_indices=Opq("map"),
                  rev_cells=Ag("sv", 0, (u64(0, (N_,)), Opq("cells"))), total_data_size=u64(0, (("TD", 1),)),
                  reference_count=u64(0, (("RF", 1),)), cell_count=Af(32, False, 0, (N_,)), without_hashes=B(sym("nohash", 0)),
                  include_crc=B(sym("crc", 0)))
        if "total_hashes_size" in _p.field_names(BH):
            kw["total_hashes_size"] = u64(0, (("TH", 1),))
        st.mem[("H",)] = mkadt(_p, BH, **kw)
        st.mem[("INS",)] = Opq("none")
        st.mem[("PUSH",)] = Opq("none")
        return st

    def on_push(s, ip, st, sv, v):
        if sv.f[1].name == "cells":
            k = s.kids.value(ip, st, v)
            if k is None:
                raise Undecided("push of %r" % (v,))
            if st.mem[("PUSH",)].name != "none":
                s.err("once", "lists two cells at once")
            st.mem[("PUSH",)] = Opq("push", (k.args[0], sv.f[0].key()))
        elif sv.f[1].name == "roots":
            st.mem[("ROOT",)] = Opq("root", (v,))

    def key_of(s, ip, st, k):
        while isinstance(k, Ref):
            k = ip.read(st, k.root, k.path)
        if not (isinstance(k, Opq) and k.name == "repr"):
            raise Undecided("lookup of %r" % (k,))
        return k.args[0]

    def contained(s, ip, st, key):
        r = ("CON", key)
        if r in st.mem:
            return [(st, st.mem[r].c)]
        out = []
        for x in (0, 1):
            t = st.copy()
            t.mem[r] = K(x, 1)
            out.append((t, x))
        return out

    def insert(s, ip, st, key, idx):
        h = st.mem[("H",)]
        cc = get(_p, h, "cell_count")
        if st.mem[("INS",)].name != "none":
            s.err("once", "enters two cells at once")
        if st.mem.get(("CON", key), K(0)).c:
            s.err("once", "enters a cell that is already there")
        if ("DSC", key) not in st.mem:
            raise Undecided("descriptor of a finished cell")
        n = st.mem[("DSC", key)].f[4].c
        for i in range(n):
            if st.mem.get(("CON", ("kid", key, i)), K(0)).c != 1:
                s.err("order", "enters a cell with %d children before child %d is entered" % (n, i))
        st.mem[("CON", key)] = K(1, 1)
        st.mem[("INS",)] = Opq("ins", (key, idx))

    def hook(s, ip, st, c, a):
        nm, path = c["nm"], c["path"]
        if nm in ("fill_recursive", "fill_deep") and len(a) >= 2 and s.mode(nm):
            k = s.kids.value(ip, st, a[1])
            if k is None:
                raise Undecided("collects %r" % (a[1],))
            key = k.args[0]
            if st.mem.get(("CON", key), K(1)).c != 0:
                s.err("once", "collects a cell that may be there already")
            if nm == "fill_recursive" and s.cur == "fill" and not st.holds(1024, (("krd%r" % (key,), -1),)):
                s.err("depth", "recursion as deep as the cell tree")
            s.collect(ip, st, key)
            return [(st, UNIT)]
        v = None
        if a and isinstance(a[0], Ref):
            try:
                v = ip.read(st, a[0].root, a[0].path)
            except Undecided:
                pass
            while isinstance(v, Ref):
                try:
                    a = [v] + list(a[1:])
                    v = ip.read(st, v.root, v.path)
                except Undecided:
                    break
        if nm == "reference" and s.kids.value(ip, st, a[0]) is not None:
            k = s.kids.value(ip, st, a[0]).args[0]
            if ("DSC", k) not in st.mem:
                out = []
                for t, _ in s.kids.hook(ip, st, dict(c, nm="descriptor"), [a[0]]):
                    out += s.kids.hook(ip, t, c, a)
                return out
        r = s.kids.hook(ip, st, c, a)
        if r is not None:
            return r
        if isinstance(v, Opq) and v.name == "map":
            if nm in ("contains_key", "get"):
                key = s.key_of(ip, st, a[1])
                out = []
                for t, x in s.contained(ip, st, key):
                    if nm == "contains_key":
                        out.append((t, K(x, 1)))
                    elif x:
                        n = "ri%r" % (key,)
                        if n not in t.vr:
                            t.var(n, 0, (1 << 32) - 1)
                            t.add(-1, tuple(sorted([N_, (n, -1)])))
                        t.mem[("RI", key)] = Af(32, False, 0, ((n, 1),))
                        out.append((t, Some(Ref(("RI", key)))))
                    else:
                        out.append((t, NONE))
                return out
            if nm == "insert":
                s.insert(ip, st, s.key_of(ip, st, a[1]), a[2])
                return [(st, NONE)]
            if nm == "clear":
                ip.write(st, a[0].root, a[0].path, Opq("map0"))
                return [(st, UNIT)]
        if "HashMap" in path and nm in ("with_capacity_and_hasher", "default", "with_hasher", "new"):
            return [(st, Opq("map0"))]
        if nm == "default" and "HashMap" in str(c.get("self")):
            return [(st, Opq("map0"))]
        if nm == "default" and "vec::Vec" in str(c.get("self")):
            return [(st, Ag("sv", 0, (K(0), Opq("new"))))]
        if nm in ("default", "with_hasher") and c["body"] is None and ("param" in str(c.get("self"))):
            return [(st, Opq("hasher"))]
        # the work list
        if isinstance(v, Ag) and v.k == "stack":
            return s.stack(ip, st, c, a, v)
        if nm in ("with_capacity", "new") and "alloc::vec::Vec" in path and s.cur == "fill_deep":
            return [(st, mkstack(1, ()))]
        if isinstance(v, Ag) and v.k == "sv" and nm == "clear":
            ip.write(st, a[0].root, a[0].path, Ag("sv", 0, (K(0), Opq("new"))))
            return [(st, UNIT)]
        return sv_hook(ip, st, c, a)

    def mode(s, nm):
        return s.cur == "fill" or s.cur == nm == "fill_recursive"

    def collect(s, ip, st, key):
        """everything below `key` and itself was entered"""
        h, base = st.mem[("H",)], st.mem[("BASE",)]
        st.mem[("CON", key)] = K(1, 1)
        for f in ("cell_count", "total_data_size", "reference_count", "total_hashes_size"):
            if f not in _p.field_names(BH):
                continue
            o = get(_p, h, f)
            d = ip.newvar(st, 1 if f == "cell_count" else 0, 1 << 30, "more")
            grow = lambda x: ip.sum(ip.var_of(st, x), Af(x.w, False, 0, ((d, 1),)))
            n = grow(o)
            if f == "cell_count":
                st.add(*lin((-1, n), (1, (1 << 32) - 2)))
                more = lambda x: put(x, "rev_cells", Ag("sv", 0, (ip.sum(get(_p, x, "rev_cells").f[0], u64(0, ((d, 1),))), Opq("cells"))))
                h, base = more(h), more(base)
                st.mem[("COLLECTED", key)] = n
            h, base = put(h, f, n), put(base, f, grow(get(_p, base, f)))
        st.mem[("H",)], st.mem[("BASE",)] = h, base

    # -- work list: Ag("stack", (nothing below, explicit entries))
    def top(s, ip, st, root, path, v):
        """-> [(state, stack with an explicit top or None)]"""
        if v.f[1].f:
            return [(st, v)]
        out = []
        if v.v < 100:
            # an entry of which `i` children were done
            ip.fresh += 1
            key = ("top",)
            for m, sh, n in s.kids.cases(key):
                for i in range(n + 1):
                    t = st.copy()
                    s.kids.enter(t, key, m, sh, n)
                    t.mem[("CON", key)] = K(0, 1)
                    for j in range(i):
                        t.mem[("CON", ("kid", key, j))] = K(1, 1)
                    it = mkadt(_p, RI, cell=Opq("kid", (key,)), max=K(n, 8), index=K(i, 8))
                    t.mem[("TOPI",)] = K(i)
                    out.append((t, mkstack(v.v >= 100, (it,))))
            e = st.copy()
            e.mem[("EMPTY",)] = K(1, 8)
            out.append((e, None))
            return out
        return [(st, None)]

    def stack(s, ip, st, c, a, v):
        nm = c["nm"]
        root, path = a[0].root, a[0].path
        if nm == "push":
            if not (isinstance(a[1], Ag) and a[1].k == RI):
                raise Undecided("work list of %r" % (a[1],))
            ip.write(st, root, path, mkstack(v.v >= 100, v.f[1].f + (a[1],)))
            return [(st, UNIT)]
        out = []
        if nm in ("last_mut", "last", "pop", "is_empty", "len"):
            if nm == "len":
                raise Undecided("length of the work list")
            for t, w in s.top(ip, st, root, path, v):
                if w is None:
                    out.append((t, NONE if nm != "is_empty" else K(1, 1)))
                elif nm == "is_empty":
                    ip.write(t, root, path, w)
                    out.append((t, K(0, 1)))
                elif nm == "pop":
                    ip.write(t, root, path, mkstack(w.v >= 100, w.f[1].f[:-1]))
                    out.append((t, Some(w.f[1].f[-1])))
                else:
                    ip.write(t, root, path, w)
                    out.append((t, Some(Ref(root, path + (1, len(w.f[1].f) - 1)))))
            return out
        return None

    def on_back(s, ip, st):
        """one step of the work list is complete"""
        if s.cur != "fill_deep":
            return
        r = next((k for k, v in st.mem.items() if isinstance(v, Ag) and v.k == "stack"), None)
        if r is None:
            raise Undecided("work list")
        v = st.mem[r]
        if ("TOPI",) not in st.mem:
            # only before the loop is abstracted: the work list that it starts with
            return s.reset(st, r)
        key, i0 = ("top",), st.mem[("TOPI",)].c
        n = st.mem[("DSC", key)].f[4].c
        ls = []
        for it in v.f[1].f:
            k = s.kids.value(ip, st, get(_p, it, "cell"))
            mx, ix = ip.affine(st, get(_p, it, "max")), ip.affine(st, get(_p, it, "index"))
            if k is None or mx.t or ix.t:
                raise Undecided("work list of %r" % (it,))
            ls.append((k.args[0], mx.c, ix.c))
        s.sums(ip, st, key)
        done = st.mem[("INS",)].name != "none"
        kid = ("kid", key, i0)
        if i0 == n:
            if not done or ls:
                s.err("order", "a cell whose %d children are done is %sentered and %s the work list" % (n, "" if done else "not ", "stays in" if ls else "leaves"))
        elif done:
            s.err("order", "enters a cell after %d of %d children" % (i0, n))
        elif len(ls) == 1:
            if ls != [(key, n, i0 + 1)] or st.mem.get(("CON", kid), K(0)).c != 1:
                s.err("order", "passes over child %d of %d, then continues at %r" % (i0, n, ls))
        elif len(ls) == 2:
            if ls[0] != (key, n, i0 + 1) or ls[1][0] != kid or ls[1][2] != 0 or st.mem.get(("CON", kid), K(1)).c != 0:
                s.err("order", "descends from child %d of %d to %r" % (i0, n, ls))
            d = st.mem.get(("DSC", kid))
            if d is None or ls[1][1] != d.f[4].c:
                s.err("order", "descends with a wrong number of children")
        else:
            s.err("order", "work list of %r" % (ls,))
        s.reset(st, r)

    def reset(s, st, r):
        for k in [k for k in st.mem if k[0] in ("DSC", "KH", "RH", "RI", "CON", "TOPI", "COLLECTED")]:
            del st.mem[k]
        st.mem[("CON", ("root",))] = K(0, 1)
        st.mem[("INS",)] = Opq("none")
        st.mem[("PUSH",)] = Opq("none")
        st.mem[r] = mkstack(0, ())

    def on_head(s, ip, st):
        h = st.mem[("BASE",)] = st.mem[("H",)]
        for f, m in (("cell_count", (1 << 32) - 2), ("total_data_size", 1 << 50), ("reference_count", 1 << 50), ("total_hashes_size", 1 << 50)):
            if f in _p.field_names(BH):
                st.add(*lin((1, m), (-1, ip.var_of(st, get(_p, h, f)))))
        st.add(*lin((1, (1 << 32) - 2), (-1, get(_p, h, "rev_cells").f[0])))

    def havoc(s, ip, st, old):
        if isinstance(old, Ag) and old.k == "stack":
            ls = old.f[1].f
            if not (len(ls) == 1 and getattr(s.kids.value(ip, st, get(_p, ls[0], "cell")), "args", None) == (("root",),)
                    and same_int(st, ip.affine(st, get(_p, ls[0], "index")), 0, ())):
                s.err("order", "starts with the work list %r" % (ls,))
            return mkstack(0, ())
        return None

    def sums(s, ip, st, key):
        """the totals contain exactly the cells that were entered since the ghost was reset"""
        ins, pu = st.mem[("INS",)], st.mem[("PUSH",)]
        if ins.name == "none" and pu.name == "none":
            return s.same_totals(ip, st, None)
        if ins.name == "none" or pu.name == "none" or ins.args[0] != key or pu.args[0] != key:
            return s.err("once", "enters %r in the map, %r in the list, expected %r" % (ins.args[:1], pu.args[:1], key))
        s.same_totals(ip, st, key)

    def same_totals(s, ip, st, key):
        h = st.mem[("H",)]
        base = st.mem[("BASE",)]
        ms = dict(cell_count=0, total_data_size=0, reference_count=0, total_hashes_size=0)
        if key is not None:
            d1, d2, m, sh, n = st.mem[("DSC", key)].f
            ins, pu = st.mem[("INS",)], st.mem[("PUSH",)]
            cc = get(_p, base, "cell_count")
            if not same_af(ip, st, ins.args[1], cc):
                s.err("index", "enters a cell as number %r, expected %r" % (ins.args[1], cc))
            whole = ip.var_of(st, Bv(8, False, list(d2.b[1:]) + [0]))
            half = ip.var_of(st, Bv(8, False, [d2.b[0]] + [0] * 7))
            ms = dict(cell_count=1, total_data_size=ip.sum(Af(64, False, whole.c, whole.t), Af(64, False, half.c, half.t)), reference_count=n.c,
                      total_hashes_size=34 * (1 + bin(m.c).count("1")) if sh.c else 0)
        for f, x in ms.items():
            if f not in _p.field_names(BH):
                continue
            o, w = get(_p, h, f), get(_p, base, f)
            w = ip.sum(w, x) if isinstance(x, Af) else ip.plus(w, x)
            if not same_af(ip, st, o, w):
                s.err("totals", "%s is %r, expected %r" % (f, o, w))
        o, w = get(_p, h, "rev_cells").f[0], ip.plus(get(_p, base, "rev_cells").f[0], 1 if key is not None else 0)
        if not same_af(ip, st, o, w):
            s.err("totals", "%r cells are listed, expected %r" % (o, w))


def mkstack(nothing_below, entries):
    return Ag("stack", len(entries) + (100 if nothing_below else 0), (Opq("s"), Ag("list", 0, entries)))


RI = "tycho_types::cell::RefsIter"


def same_af(ip, st, a, b):
    x, y = ip.var_of(st, a), ip.var_of(st, b)
    d = lin_add((x.c, x.t), 1, (y.c, y.t), -1)
    return st.holds(*d) and st.holds(-d[0], tuple((v, -n) for v, n in d[1]))


def put(h, f, v):
    i = _p.field_names(BH).index(f)
    l = list(h.f)
    l[i] = v
    return Ag(h.k, h.v, l)


def do_fill(what):
    p = _p
    b = anchor("BocHeader", what, SER)
    col = Collector()
    col.cur = what

    def attempt(lp):
        del col.bad[:]
        ip = Interp(p, [col.hook], max_steps=3000000, max_traces=60000)
        ip.loops = lp
        ip.on_push = col.on_push
        ip.on_alloc = lambda st, n: None
        st = col.setup(ip)
        attempt.ip = ip
        args = [Ref(("H",)), Opq("kid", (("root",),))]
        if what != "fill":
            st.mem[("CON", ("root",))] = K(0, 1)
        if what == "fill_deep":
            args.append(Af(16, False, 0, (("depth", 1),)))
            st.var("depth", 0, 65535)
        st.mem[("BASE",)] = st.mem[("H",)]
        if what == "fill_deep":
            lp.on_head = col.on_head
        return ip.run(st, b, args)
    if what == "fill_deep":
        # the root is entered like any other entry of the work list
        col.kids.full = (("top",),)
        tr, lp = fix([b], attempt, havoc=col.havoc, on_back=col.on_back)
    else:
        tr, lp = fix(loop_bodies(), attempt, unroll=6)
    ip = attempt.ip
    out = list(col.bad)
    for t in tr:
        s = t.st
        if flags_text(s):
            out.append(("arith", flags_text(s)))
        if t.kind == "panic":
            out.append(("panic", "may panic: %s" % (t.why[0],)))
            continue
        del col.bad[:]
        if what == "fill_recursive":
            if s.mem[("INS",)].name == "none":
                col.err("once", "does not enter the cell")
            else:
                col.sums(ip, s, ("root",))
        elif what == "fill":
            key = ("root",)
            c = s.mem.get(("COLLECTED", key))
            if ("CON", key) not in s.mem or s.mem[("INS",)].name != "none":
                col.err("once", "enters a root without looking it up")
            want = ip.plus(c, -1) if c is not None else Af(32, False, 0, (("ri%r" % (key,), 1),))
            if not same_af(ip, s, t.val, want):
                col.err("index", "answers %r for a root with number %r" % (t.val, want))
            col.same_totals(ip, s, None)
        elif ("EMPTY",) not in s.mem:
            col.err("order", "stops while the work list is not empty")
        out += col.bad
    return [(what, k, x) for k, x in out], len(tr)


def do_small(what):
    """roots, settings, sizes"""
    p = _p
    out, n = [], 0
    col = Collector()
    col.cur = "small"
    R = Opq("kid", (("root",),))

    def run(nm, args, hooks=(), prep=None):
        b = anchor("BocHeader", nm, SER)
        ip = Interp(p, list(hooks) + [col.hook])
        ip.on_push = col.on_push
        ip.on_alloc = lambda st, n: None
        st = col.setup(ip)
        st.mem[("BASE",)] = st.mem[("H",)]
        tr = ip.run(st, b, [x(st) if callable(x) else x for x in args])
        for t in tr:
            if t.kind == "panic":
                out.append((nm, "panic", "may panic: %s" % (t.why[0],)))
        return ip, [t for t in tr if t.kind == "ret"]

    def fill_hook(ip, st, c, a):
        if c["nm"] == "fill" and len(a) == 2:
            k = col.kids.value(ip, st, a[1])
            if k is None or k.args != (("root",),):
                out.append((what, "roots", "collects %r" % (a[1],)))
            res = []
            for new in (0, 1):
                t = st.copy()
                if new:
                    col.collect(ip, t, ("root",))
                    r = ip.plus(t.mem[("COLLECTED", ("root",))], -1)
                else:
                    t.var("idx", 0, (1 << 32) - 2)
                    t.add(-1, tuple(sorted([N_, ("idx", -1)])))
                    r = Af(32, False, 0, (("idx", 1),))
                t.mem[("FILLED",)] = Opq("filled", (r,))
                res.append((t, r))
            return res
        return None

    def rooted(ip, s, h, nm):
        f, r = s.mem.get(("FILLED",)), s.mem.get(("ROOT",))
        if f is None or r is None or not same_af(ip, s, f.args[0], r.args[0]):
            out.append((nm, "roots", "lists %r as a root, collected %r" % (r, f)))

    if what == "add_root":
        ip, tr = run(what, [Ref(("H",)), R], [fill_hook])
        for t in tr:
            s = t.st
            h = s.mem[("H",)]
            rooted(ip, s, h, what)
            rc = get(p, h, "root_rev_indices").f[0]
            if not same_int(s, rc, 1, (("RC", 1),)):
                out.append((what, "count", "%r roots are listed" % (rc,)))
            cc = ip.var_of(s, get(p, h, "cell_count"))
            d = lin_add((cc.c, cc.t), 1, (rc.c, rc.t), -1)
            if not s.holds(*d):
                out.append((what, "more-roots-than-cells", "a root that is added twice makes more roots than cells, which no decoder accepts"))
        n += len(tr)
    if what == "constructors":
        cache = "tycho_types::boc::ser::BocHeaderCache"
        for nm, args in (("with_root", [R]), ("with_capacity", [u64(0, (("RC", 1),))]), ("with_capacity_and_root", [u64(0, (("RC", 1),)), R]),
                         ("default", []),
                         ("with_root_and_cache", [R, lambda st: mkadt(p, cache, rev_indices=Opq("map0"), rev_cells=Ag("sv", 0, (K(0), Opq("new"))))])):
            def first(ip, st, c, a):
                """the header that a root is added to"""
                if c["nm"] == "add_root" and isinstance(a[0], Ref):
                    empty(ip, st, ip.read(st, a[0].root, a[0].path), nm)
                    k = col.kids.value(ip, st, a[1])
                    st.mem[("ADDED",)] = Opq("added", (k.args[0] if k else None,))
                    return [(st, UNIT)]
                return None

            def empty(ip, st, h, nm):
                for f in ("cell_count", "total_data_size", "reference_count", "total_hashes_size", "without_hashes", "include_crc"):
                    if f in p.field_names(BH) and not same_int(st, ip.affine(st, get(p, h, f)), 0, ()):
                        out.append((nm, "empty", "begins with %s = %r" % (f, get(p, h, f))))
                for f in ("rev_cells", "root_rev_indices"):
                    v = get(p, h, f)
                    if not (isinstance(v, Ag) and v.k == "sv" and same_int(st, v.f[0], 0, ())):
                        out.append((nm, "empty", "begins with %s = %r" % (f, v)))
                if not (isinstance(get(p, h, "rev_indices"), Opq) and get(p, h, "rev_indices").name == "map0"):
                    out.append((nm, "empty", "begins with a map that is not empty"))
            ip, tr = run(nm, args, [first])
            for t in tr:
                if nm not in ("default", "with_capacity") and getattr(t.st.mem.get(("ADDED",)), "args", None) != (("root",),):
                    out.append((nm, "roots", "does not add the given root"))
                if nm in ("default", "with_capacity"):
                    empty(ip, t.st, t.val, nm)
            n += len(tr)
            if not tr:
                out.append((nm, "result", "never returns"))
    if what == "reuse":
        ip, tr = run("clear", [Ref(("H",))])
        for t in tr:
            h, b = t.st.mem[("H",)], t.st.mem[("BASE",)]
            for f in ("cell_count", "total_data_size", "reference_count", "total_hashes_size"):
                if f in p.field_names(BH) and not same_int(t.st, ip.affine(t.st, get(p, h, f)), 0, ()):
                    out.append(("clear", "empty", "leaves %s" % f))
            for f in ("rev_cells", "root_rev_indices"):
                if not same_int(t.st, get(p, h, f).f[0], 0, ()):
                    out.append(("clear", "empty", "leaves %s" % f))
            if get(p, h, "rev_indices").name != "map0":
                out.append(("clear", "empty", "leaves cells in the map"))
            for f in ("without_hashes", "include_crc"):
                if get(p, h, f) is not get(p, b, f) and not same_bits1(ip, t.st, get(p, h, f), get(p, b, f)):
                    out.append(("clear", "settings", "changes %s" % f))
        n += len(tr)
        ip, tr = run("into_cache", [lambda st: st.mem[("H",)]])
        for t in tr:
            fs = {f: v for f, v in zip(p.field_names(t.val.k), t.val.f)}
            if not (isinstance(fs["rev_indices"], Opq) and fs["rev_indices"].name == "map0") or not same_int(t.st, fs["rev_cells"].f[0], 0, ()):
                out.append(("into_cache", "empty", "returns a cache with cells"))
        n += len(tr)
        for nm, f in (("with_crc", "include_crc"), ("without_hashes", "without_hashes")):
            ip, tr = run(nm, [lambda st: st.mem[("H",)], B(sym("flag", 0))])
            for t in tr:
                for g in p.field_names(BH):
                    w = B(sym("flag", 0)) if g == f else get(p, t.st.mem[("BASE",)], g)
                    v = get(p, t.val, g)
                    if isinstance(w, (Af, Bv)) and not (same_bits1(ip, t.st, v, w) if w.w == 1 else same_af(ip, t.st, v, w)) \
                            or not isinstance(w, (Af, Bv)) and repr(v) != repr(w):
                        out.append((nm, "settings", "%s makes %s of %r" % (nm, g, v)))
            n += len(tr)
    return out, n


def same_bits1(ip, st, a, b):
    return [st.bit(x) for x in ip.bits(st, a)] == [st.bit(x) for x in ip.bits(st, b)]


def do_stats(rs, osz, crc, nohash):
    """compute_stats is what encode announces and how long its output is"""
    p = _p
    w = Writer(rs, osz, crc, nohash)
    b = anchor("BocHeader", "compute_stats", SER)
    ip = Interp(p, [w.hook])
    st = w.setup(ip)
    if st is None:
        return [], 0
    out = []
    tr = ip.run(st, b, [Ref(("H",))])
    for t in tr:
        s = t.st
        if flags_text(s):
            out.append(("arith", flags_text(s)))
        if t.kind == "panic":
            out.append(("panic", "may panic: %s" % (t.why[0],)))
            continue
        total = lin_add(w.tot, 1, lin((1, 6 + 3 * rs + osz + (4 if crc else 0)), (rs, u64(0, (("RC", 1),)))), 1)
        for f, x in (("offset_size", (osz, ())), ("ref_size", (rs, ())), ("total_cells_size", w.tot), ("total_size", total)):
            v = ip.affine(s, get(p, t.val, f))
            if v is None or not same_int(s, v, *x):
                out.append((f, "%s is %r, expected %r" % (f, v, x)))
    if not tr:
        out.append(("result", "never returns"))
    return [("compute_stats", k, x) for k, x in out], len(tr)


def check(cx):
    global _p
    _p = cx.prog("main")
    cs = [("fill", "fill_deep"), ("fill", "fill_recursive"), ("fill", "fill"), ("small", "add_root"), ("small", "constructors"), ("small", "reuse")]
    deep = cx.tier == "thorough"
    for rs in range(1, 5):
        for osz in range(1, 7):
            for crc in (0, 1):
                for nohash in (0, 1):
                    cs.append(("stats", rs, osz, crc, nohash))
                    for what in ("encode", "encode_to_writer", "encode_rayon"):
                        if deep or (osz, crc, nohash) in ((rs, 1, 0), (rs + 2, 0, 1), (rs + 1, 1, 1)) or what == "encode" and (crc, nohash) == (1, 0):
                            cs.append(("encode", what, rs, osz, crc, nohash))
    for b, k, what in pmap(run_case, cs):
        cx.count(what)
        cx.count("paths", k)
        if k:
            cx.count(what + " decided")
        for nm, kind, text in b:
            cx.bad("%s:%s" % (nm, kind), text)
    cx.floor("encode decided", 20)
    cx.floor("stats decided", 40)
    cx.floor("paths", 400)
