"""Dictionaries over the domain of bits.py: cells are opaque nodes named by their path, labels are opaque bit strings of unknown
length, builders are logs of what is stored.  Slices are interpreted from MIR (ranges are affine forms); the operations that look at
bits follow contracts (C05, C06): they answer with variables and record what they found as facts of the path.

Names of cells: ("key",), ("n", path), ("lab", path), ("built", items), ("val",), ...
Items of a log: ("w", cell, start, length) bits of a cell, ("b", bit), ("r", cell) a reference, ("label", pieces, m) a label
for at most m bits, ("x", name) something else."""
from cellcore import *

CELLERR = "tycho_types::error::Error"
ERRSRC = ("G", "failed")


def cellv(*name):
    return Opq("cell", name)


def a16(l):
    return Af(16, False, l[0], l[1])


def lform(v):
    return (v.c, v.t)


def sub(a, b):
    return lin_add(a, 1, b, -1)


def add(a, b):
    return lin_add(a, 1, b, 1)


def num(n):
    return (n, ())


class Dict:
    """hooks for one run"""

    def __init__(s, prog, depth=2, fail=True):
        s.p, s.depth, s.fail = prog, depth, fail
        s.bitfn = None
        s.cut = 0
        s.errs = 0
        s.partial = None

    # ------------------------------------------------------------ inputs --
    def cell_vars(s, st, name):
        b, n = "C%s" % nm(name), "N%s" % nm(name)
        if b not in st.vr:
            st.var(b, 0, MAX)
            st.var(n, 0, 4)
        return b, n

    def full(s, ip, st, cell):
        """(bits, refs) of a cell value as linear forms"""
        if cell.args[0] == "built":
            bits, refs = (0, ()), (0, ())
            for it in cell.args[1]:
                if it[0] == "r":
                    refs = add(refs, num(1))
                elif it[0] == "rs":
                    refs = add(refs, it[3])
                elif it[0] == "w":
                    bits = add(bits, it[3])
                elif it[0] == "b":
                    bits = add(bits, num(1))
                else:
                    v = zvar(it, cell.args)
                    if v not in st.vr:
                        st.var(v, 0, MAX)
                    bits = add(bits, (0, ((v, 1),)))
                    if it[0] in ("x", "cmp"):
                        v = "R" + v
                        if v not in st.vr:
                            st.var(v, 0, 4)
                        refs = add(refs, (0, ((v, 1),)))
            return bits, refs
        b, n = s.cell_vars(st, cell.args)
        return (0, ((b, 1),)), (0, ((n, 1),))

    def slice(s, ip, st, cell, start=(0, ()), end=None, r0=(0, ()), r1=None):
        bits, refs = s.full(ip, st, cell)
        rng = mkadt(s.p, CSR, bits_start=a16(start), bits_end=a16(bits if end is None else end),
                    refs_start=Af(8, False, *r0), refs_end=Af(8, False, *(refs if r1 is None else r1)))
        return mkadt(s.p, CS, cell=cell, range=rng)

    def key(s, ip, st, n, name="key"):
        c = cellv(name)
        st.var("C%s" % nm(c.args), 0, MAX)
        st.var("N%s" % nm(c.args), 0, 4)
        st.add(*sub((0, (("C%s" % nm(c.args), 1),)), n))
        return s.slice(ip, st, c, (0, ()), n, (0, ()), (0, ()))

    # ---------------------------------------------------------- contents --
    def rf(s, st, sl):
        return {k: x if isinstance(x, Af) else s.ip.var_of(st, x) for k, x in rfields(s.p, sl).items()}

    def win(s, st, sl):
        r = s.rf(st, sl)
        return ("w", s.name(get(s.p, sl, "cell"), st), lform(r["bits_start"]), sub(lform(r["bits_end"]), lform(r["bits_start"])))

    def name(s, c, st=None):
        n = 0
        while isinstance(c, Ref) and st is not None and n < 4:
            c = s.ip.read(st, c.root, c.path)
            n += 1
        if isinstance(c, Opq) and c.name == "cell":
            return c.args
        raise Undecided("cell %r" % (c,))

    def bit_at(s, st, cell, pos):
        if s.bitfn is not None:
            b = s.bitfn(st, cell, pos)
            if b is not None:
                return b
        for a in st.mem.get(("G", "alias", cell), ()):
            l0, kc, k0, ln, both = a
            d = sub(pos, l0)
            if st.holds(*d) and st.holds(*sub(sub(ln, num(1)), d)):
                return s.bit_at(st, kc, add(k0, d))
            if zero(st, sub(d, ln)) and all(st.holds(*sub(sub(x, ln), num(1))) for x in both):
                return bnot(s.bit_at(st, kc, add(k0, d)))
        return st.bit(sym(("bit", cell, s.canon(st, pos)), 0))

    def canon(s, st, l):
        known = st.mem.get(("G", "pos"), ())
        for k in known:
            if zero(st, sub(k, l)):
                return k
        st.mem[("G", "pos")] = known + (l,)
        return l

    def lcp(s, ip, st, a, b):
        """length of the longest common prefix of two windows, as a linear form"""
        a, b = s.tr(st, a), s.tr(st, b)
        for x in (st.mem.get(("G", "lcp"), ())):
            if same_win(s, st, x[0], a) and same_win(s, st, x[1], b) or same_win(s, st, x[1], a) and same_win(s, st, x[0], b):
                return x[2]
        if a[1] == b[1] and zero(st, sub(a[2], b[2])):
            for x, y in ((a, b), (b, a)):
                if st.holds(*sub(y[3], x[3])):
                    return x[3]
        for x, y in ((a, b), (b, a)):
            if zero(st, x[3]):
                return num(0)
        v = ip.newvar(st, 0, MAX, "lcp")
        l = (0, ((v, 1),))
        st.add(*sub(a[3], l))
        st.add(*sub(b[3], l))
        st.mem[("G", "lcp")] = st.mem.get(("G", "lcp"), ()) + ((a, b, l),)
        x, y = (a, b) if a[1][0] == "lab" else (b, a)
        st.mem[("G", "alias", x[1])] = st.mem.get(("G", "alias", x[1]), ()) + ((x[2], y[1], y[2], l, (a[3], b[3])),)
        return l

    def tr(s, st, w):
        """a window of a label by the bits it is known to be equal to"""
        if w[0] != "w":
            return w
        for l0, kc, k0, ln, _ in st.mem.get(("G", "alias", w[1]), ()):
            d = sub(w[2], l0)
            if st.holds(*d) and st.holds(*sub(ln, add(d, w[3]))):
                return s.tr(st, ("w", kc, add(k0, d), w[3]))
        return w

    # -------------------------------------------------------------- hook --
    def hook(s, ip, st, c, a):
        s.ip = ip
        f, path, tr = c["nm"], c["path"], (c["trait"] or "").split("::")[-1]
        if tr == "CellContext":
            return s.context(ip, st, f, c, a)
        r = s.vec(ip, st, c, a)
        if r is not None:
            return r
        if "alloc::boxed::Box" in path and f in ("default", "new"):
            x = a[0] if f == "new" else Opq("log", ((),)) if "Builder" in repr(c["self"]) or "Builder" in repr(c["retty"]) else None
            if x is None:
                raise Undecided("box of %r" % (c["retty"],))
            k = st.mem.get(("G", "boxes"), 0)
            st.mem[("G", "boxes")] = k + 1
            st.mem[("BOX", k)] = x
            return [(st, Ag("box", 0, (Ref(("BOX", k)),)))]
        v = a[0] if a else None
        if isinstance(v, Opq) and v.name == "fnptr":
            return s.pointer(ip, st, v, a[1:])
        if f in ("all_zeros_ref", "all_ones_ref"):
            o = cellv("zeros" if "zero" in f else "ones")
            st.var("C" + o.args[0], MAX, MAX)
            st.var("N" + o.args[0], 0, 0)
            return [(st, o)]
        if path.endswith("CellSlice::<'a>::new") or path.endswith("CellSlice::new") or path.endswith("CellSlice<'a>::new") or f in ("as_slice",) and s.is_cell(ip, st, v):
            o = s.is_cell(ip, st, v)
            if o is None:
                return None
            if o.args[0] == "built":
                return [(st, Ok(s.slice(ip, st, o)))]
            out = []
            for e, x in ip.branch(st, B(sym(("exotic", o.args), 0))):
                out.append((e, s.error(e, "exotic") if x else Ok(s.slice(ip, e, o))))
            return out
        if f in ("as_slice_allow_exotic", "new_allow_exotic"):
            o = s.is_cell(ip, st, v)
            if o is not None:
                return [(st, s.slice(ip, st, o))]
        o = s.is_cell(ip, st, v)
        if o is not None:
            r = s.cell(ip, st, f, o, a, tr)
            if r is not None:
                return r
        b = s.log(ip, st, v)
        if b is not None or "Builder" in path and f in ("new", "default"):
            r = s.builder(ip, st, f, b, a, c, path)
            if r is not None:
                return r
        if "CellSlice" in path:
            r = s.slices(ip, st, f, a, c)
            if r is not None:
                return r
        if f == "store_into" and tr == "Store":
            s.own_context(st, f, a[2] if len(a) > 2 else None)
            return s.store(ip, st, a[0], a[1])
        if path.endswith("dict::read_label"):
            return s.read_label(ip, st, a)
        if path.endswith("dict::write_label"):
            return s.write_label(ip, st, a)
        if path.endswith("dict::write_label_parts"):
            return s.write_parts(ip, st, a)
        if path.endswith("hint::unreachable_unchecked"):
            return "panic"
        return None

    def error(s, st, what):
        st.mem[ERRSRC] = st.mem.get(ERRSRC, ()) + (what,)
        return Err(Opq("error", (what,)))

    def either(s, st, v, what):
        """a call that may fail for a reason that is not followed"""
        if not s.fail:
            return [(st, Ok(v))]
        e = st.copy()
        return [(st, Ok(v)), (e, s.error(e, what))]

    def is_cell(s, ip, st, v):
        n = 0
        while isinstance(v, Ref) and n < 4:
            try:
                v = ip.read(st, v.root, v.path)
            except (Undecided, KeyError):
                return None
            n += 1
        return v if isinstance(v, Opq) and v.name == "cell" else None

    def log(s, ip, st, v):
        n = 0
        while isinstance(v, Ref) and n < 4:
            try:
                x = ip.read(st, v.root, v.path)
            except (Undecided, KeyError):
                return None
            if isinstance(x, Opq) and x.name == "log":
                return v
            v = x
            n += 1
        return v if isinstance(v, Opq) and v.name == "log" else None

    def context(s, ip, st, f, c, a):
        if f in ("load_cell", "load_dyn_cell"):
            s.own_context(st, f, a[0])
            o = s.is_cell(ip, st, a[1])
            if o is None:
                raise Undecided("load of %r" % (a[1],))
            mode = a[2]
            if isinstance(mode, Ag) and s.partial is None:
                names = s.p.variants(mode.k) if hasattr(s.p, "variants") else None
            st.mem[("G", "loads")] = st.mem.get(("G", "loads"), ()) + ((o.args, mode.v if isinstance(mode, Ag) else None),)
            return s.either(st, o, "load")
        if f == "finalize_cell":
            raise Undecided("finalize_cell")
        return None

    def own_context(s, st, f, a):
        """cells are loaded and built in the context of the caller"""
        while isinstance(a, Ref) and a.root != ("CX",) and isinstance(st.mem.get(a.root), (Ref, Opq)) and not a.path:
            a = st.mem[a.root]
        if ("CX",) in st.mem and not (isinstance(a, Ref) and a.root == ("CX",) or isinstance(a, Opq) and a.name == "ctx"):
            st.mem.setdefault(("G", "ctx"), f)

    # ------------------------------------------------------------- cells --
    def child(s, st, o, i):
        if o.args[0] == "built":
            rs = [x for x in o.args[1] if x[0] == "r"]
            return rs[i][1] if i < len(rs) else None
        if o.args[0] != "n":
            return cellv("sub", o.args, i)
        return cellv("n", o.args[1] + str(i))

    def cell(s, ip, st, f, o, a, tr):
        if f in ("as_ref", "deref", "borrow", "clone", "inner", "as_ref_dyn") and len(a) == 1:
            return [(st, o)]
        if f in ("from", "into"):
            return [(st, o)]
        bits, refs = s.full(ip, st, o)
        if f == "bit_len":
            return [(st, a16(bits))]
        if f == "reference_count":
            return [(st, Af(8, False, *refs))]
        if f == "is_exotic" and o.args == ("key",):
            return [(st, K(0, 1))]
        if f == "is_exotic":
            return [(e, K(x, 1)) for e, x in ip.branch(st, B(sym(("exotic", o.args), 0)))]
        if f in ("reference", "reference_cloned"):
            out = []
            for e, i in s.index(ip, st, a[1]):
                d = sub(sub(refs, num(i)), num(1))
                if e.holds(*d):
                    out.append((e, Some(s.child(e, o, i))))
                    continue
                y = e.copy()
                if y.add(*d) and s.child(y, o, i) is not None:
                    out.append((y, Some(s.child(y, o, i))))
                if e.add(-d[0] - 1, tuple((v, -k) for v, k in d[1])):
                    out.append((e, NONE))
            return out
        return None

    def index(s, ip, st, v):
        if isinstance(v, Af) and not v.t:
            return [(st, v.c)]
        if isinstance(v, Ag) and not v.f:
            return [(st, v.v)]
        bits = ip.bits(st, v)
        if any(st.bit(b) != 0 for b in bits[1:]):
            raise Undecided("index %r" % (v,))
        return [(e, x) for e, x in ip.branch(st, B(bits[0]))]

    # ------------------------------------------------------------ slices --
    def sl(s, ip, st, v):
        n = 0
        while isinstance(v, Ref) and n < 4:
            v = ip.read(st, v.root, v.path)
            n += 1
        if not (isinstance(v, Ag) and v.k == CS):
            return None
        return v

    def slref(s, ip, st, v):
        while True:
            x = ip.read(st, v.root, v.path)
            if not isinstance(x, Ref):
                return v
            v = x

    def advance(s, ip, st, ref, n, refs=(0, ())):
        ref = s.slref(ip, st, ref)
        v = ip.read(st, ref.root, ref.path)
        r = get(s.p, v, "range")
        w = W(s.p, CSR)
        fs = [x if isinstance(x, Af) else ip.var_of(st, x) for x in r.f]
        fs[w["bits_start"]] = a16(add(lform(fs[w["bits_start"]]), n))
        fs[w["refs_start"]] = Af(8, False, *add(lform(fs[w["refs_start"]]), refs))
        g = list(v.f)
        g[W(s.p, CS)["range"]] = Ag(r.k, r.v, fs)
        ip.write(st, ref.root, ref.path, Ag(v.k, v.v, g))

    def slices(s, ip, st, f, a, c):
        v = s.sl(ip, st, a[0]) if a else None
        if v is None:
            return None
        w = s.win(st, v)
        if f in ("load_bit", "get_bit", "load_uint", "load_small_uint", "get_uint", "get_small_uint"):
            off = num(0)
            n = 1
            if f.startswith("get"):
                x = ip.affine(st, a[1])
                off = lform(x)
            if f.endswith("uint"):
                x = ip.affine(st, a[-1])
                if x is None or x.t:
                    raise Undecided("%s of an unknown number of bits" % f)
                n = x.c
            need = sub(w[3], add(off, num(n)))
            out = []
            e = st.copy()
            if e.add(-need[0] - 1, tuple((v_, -k) for v_, k in need[1])) and feasible(e.all_cons()):
                out.append((e, s.error(e, "underflow")))
            if st.add(*need) and (st.holds(*need)):
                bs = [s.bit_at(st, w[1], add(add(w[2], off), num(i))) for i in range(n)]
                if f.startswith("load"):
                    s.advance(ip, st, a[0], num(n))
                if f.endswith("bit"):
                    out.append((st, Ok(B(bs[0]))))
                else:
                    wd = 64 if f.endswith("_uint") and "small" not in f else 8
                    out.append((st, Ok(ip.mkbits(wd, False, (list(reversed(bs)) + [0] * wd)[:wd]))))
            return out
        if f == "longest_common_data_prefix":
            l = s.lcp(ip, st, w, s.win(st, s.sl(ip, st, a[1])))
            r = s.rf(st, v)
            cell = get(s.p, v, "cell")
            return [(st, s.slice(ip, st, cell, lform(r["bits_start"]), add(lform(r["bits_start"]), l), lform(r["refs_start"]), lform(r["refs_start"])))]
        if f in ("strip_data_prefix", "is_data_prefix_of"):
            q = s.win(st, s.sl(ip, st, a[1]))
            pf = q if f[0] == "s" else w
            l = s.lcp(ip, st, w, q)
            d = sub(l, pf[3])
            out = []
            e = st.copy()
            if e.add(-d[0] - 1, tuple((x, -k) for x, k in d[1])) and feasible(e.all_cons()):
                out.append((e, NONE if f[0] == "s" else Ok(K(0, 1))))
            if st.add(*d) and feasible(st.all_cons()):
                if f[0] == "i":
                    out.append((st, Ok(K(1, 1))))
                else:
                    r = s.rf(st, v)
                    out.append((st, Some(s.slice(ip, st, get(s.p, v, "cell"), add(lform(r["bits_start"]), pf[3]), lform(r["bits_end"]), lform(r["refs_start"]), lform(r["refs_end"])))))
            return out
        if f == "test_uniform":
            out = []
            k = ("G", "uniform", w[1], s.canon(st, w[2]), s.canon(st, w[3]))
            if k in st.mem:
                return [(st, st.mem[k])]
            for x in (None, 0, 1):
                e = st.copy()
                if x is not None and not (e.add(*sub(w[3], num(1))) and feasible(e.all_cons())):
                    continue
                e.mem[k] = NONE if x is None else Some(K(x, 1))
                out.append((e, e.mem[k]))
            return out
        return None

    # ---------------------------------------------------------- builders --
    def append(s, ip, st, ref, *items):
        x = ip.read(st, ref.root, ref.path)
        ip.write(st, ref.root, ref.path, Opq("log", (x.args[0] + tuple(items),) + x.args[1:]))

    def bits_msb(s, ip, st, v, n):
        bs = ip.bits(st, v)
        return tuple(("b", b) for b in reversed((list(bs) + [0] * n)[:n]))

    def builder(s, ip, st, f, b, a, c, path):
        if f in ("new", "default") and "Builder" in path:
            return [(st, Opq("log", ((),)))]
        if b is None:
            return None
        if f in ("deref", "deref_mut", "as_mut", "as_mut_builder", "borrow_mut", "as_ref", "borrow"):
            return [(st, b if isinstance(b, Ref) else b)]
        if f == "clone":
            return [(st, ip.read(st, b.root, b.path) if isinstance(b, Ref) else b)]
        if f == "store_into":
            x = ip.read(st, b.root, b.path) if isinstance(b, Ref) else b
            t = s.log(ip, st, a[1])
            s.own_context(st, f, a[2])
            s.append(ip, st, t, *x.args[0])
            return s.either(st, UNIT, "store")
        ok = lambda *it: (s.append(ip, st, b, *it), s.either(st, UNIT, f))[1]
        if f in ("build", "build_ext"):
            x = ip.read(st, b.root, b.path) if isinstance(b, Ref) else b
            s.own_context(st, f, a[1] if f == "build_ext" else None)
            return s.either(st, cellv("built", x.args[0]), f)
        if f == "store_zeros":
            n = ip.affine(st, a[1])
            if n is None or n.t:
                raise Undecided("store_zeros")
            return ok(*((("b", 0),) * n.c))
        if f in ("store_bit_zero", "store_bit_one"):
            return ok(("b", int(f.endswith("one"))))
        if f == "store_bit":
            return ok(("b", st.bit(ip.bits(st, a[1])[0])))
        if f in ("store_small_uint", "store_uint"):
            n = ip.affine(st, a[2])
            if n is None or n.t:
                raise Undecided(f)
            return ok(*s.bits_msb(ip, st, a[1], n.c))
        if f in ("store_u8", "store_u16", "store_u32", "store_u64", "store_u128"):
            return ok(*s.bits_msb(ip, st, a[1], int(f[7:])))
        if f == "store_slice_data" or f == "store_slice":
            v = s.sl(ip, st, a[1])
            if v is None:
                raise Undecided("slice %r" % (a[1],))
            w = s.win(st, v)
            if f == "store_slice":
                return ok(w, *s.refs(ip, st, v))
            return ok(w)
        if f == "store_cell_data":
            o = s.is_cell(ip, st, a[1])
            return ok(("w", o.args, num(0), s.full(ip, st, o)[0]))
        if f == "store_reference":
            o = s.is_cell(ip, st, a[1])
            if o is None:
                raise Undecided("reference %r" % (a[1],))
            return ok(("r", o))
        if f in ("store_builder",):
            x = s.log(ip, st, a[1])
            x = ip.read(st, x.root, x.path)
            return ok(*x.args[0])
        if f in ("as_data_slice", "as_full_slice"):
            x = ip.read(st, b.root, b.path) if isinstance(b, Ref) else b
            its = tuple(x.args[0])
            if any(q[0] not in ("w", "b") for q in its):
                raise Undecided("slice of a builder")
            return [(st, s.data(ip, st, its))]
        if f in ("set_exotic", "with_exotic"):
            raise Undecided(f)
        if f == "rewind_bits":
            return s.rewind(ip, st, b, a[1])
        return None

    def rewind(s, ip, st, b, n):
        x = ip.read(st, b.root, b.path)
        out = []
        todo = [(st, tuple(x.args[0]), lform(ip.affine(st, n) or ip.var_of(st, n)))]
        while todo:
            st, its, n = todo.pop()
            if zero(st, n):
                ip.write(st, b.root, b.path, Opq("log", (its,) + x.args[1:]))
                out.append((st, Ok(UNIT)))
                continue
            if not its:
                # more than there is: not a failure of something else
                out.append((st, Err(Opq("error", ("rewind",)))))
                continue
            it = its[-1]
            if it[0] not in ("w", "b"):
                raise Undecided("rewind over %r" % (it,))
            k = it[3] if it[0] == "w" else num(1)
            d = sub(n, k)
            if not st.holds(*d):
                e = st.copy()
                if e.add(-d[0] - 1, tuple((v, -c) for v, c in d[1])) and feasible(e.all_cons()):
                    todo.append((e, its[:-1] + (("w", it[1], it[2], sub(k, n)),) if it[0] == "w" else its, num(0)))
                if not (st.add(*d) and feasible(st.all_cons())):
                    continue
            todo.append((st, its[:-1], d))
        return out

    def refs(s, ip, st, v):
        """references of a slice as one item, or none"""
        r = s.rf(st, v)
        d = sub(lform(r["refs_end"]), lform(r["refs_start"]))
        if zero(st, d):
            return ()
        return (("rs", s.name(get(s.p, v, "cell"), st), lform(r["refs_start"]), d),)

    def store(s, ip, st, v, b):
        t = s.log(ip, st, b)
        if t is None:
            raise Undecided("store into %r" % (b,))
        n = 0
        while isinstance(v, Ref) and n < 5:
            v = ip.read(st, v.root, v.path)
            n += 1
        if isinstance(v, Ag) and v.k == CS:
            s.append(ip, st, t, s.win(st, v), *s.refs(ip, st, v))
        elif isinstance(v, Opq) and v.name == "value":
            s.append(ip, st, t, ("x", v.args))
        elif isinstance(v, Opq) and v.name == "cell":
            s.append(ip, st, t, ("r", v))
        elif isinstance(v, Opq) and v.name == "log":
            s.append(ip, st, t, *v.args[0])
        else:
            raise Undecided("store of %r" % (v,))
        return s.either(st, UNIT, "store")

    # ------------------------------------------------------------ labels --
    def read_label(s, ip, st, a):
        v = s.sl(ip, st, a[0])
        m = ip.affine(st, a[1])
        if v is None or m is None:
            raise Undecided("read_label")
        cell = s.name(get(s.p, v, "cell"), st)
        w = s.win(st, v)
        if not zero(st, w[2]):
            st.mem[("G", "midlabel")] = cell
            raise Undecided("label in the middle of a cell")
        if cell[0] == "built":
            it = cell[1]
            if not it or it[0][0] != "label":
                raise Undecided("label of a cell without one")
            s.note(st, cell, lform(m), it[0][2])
            tag = (0, ((zvar(it[0], cell), 1),))
            s.full(ip, st, cellv(*cell))
            ln = (0, ())
            for q in it[0][1]:
                ln = add(ln, q[3] if q[0] == "w" else num(1))
            s.advance(ip, st, a[0], tag)
            lab = cellv("blab", it[0][1])
            st.var("C%s" % nm(lab.args), 0, MAX)
            st.var("N%s" % nm(lab.args), 0, 0)
            return [(st, Ok(s.slice(ip, st, lab, num(0), ln, num(0), num(0))))]
        if cell[0] != "n":
            raise Undecided("label of %r" % (cell,))
        if len(cell[1]) > s.depth:
            s.cut += 1
            return []
        L, T = "L" + cell[1], "T" + cell[1]
        lab = cellv("lab", cell[1])
        first = L not in st.vr
        if first:
            st.var(L, 0, MAX)
            st.var(T, 0, MAX)
            st.add(*sub((0, (("C" + nm(cell), 1),)), (0, ((T, 1),))))
            # the shortest label takes two bits (C12)
            st.add(-2, ((T, 1),))
            st.mem[("G", "m", cell)] = lform(m)
            s.cell_vars(st, lab.args)
        else:
            s.note(st, cell, lform(m), st.mem[("G", "m", cell)])
        out = []
        if s.fail and first:
            e = st.copy()
            out.append((e, s.error(e, "read_label")))
        s.advance(ip, st, a[0], (0, ((T, 1),)))
        out.append((st, Ok(s.slice(ip, st, lab, num(0), (0, ((L, 1),)), num(0), num(0)))))
        return out

    def data(s, ip, st, its):
        """bits that are put together, as a slice"""
        ln = (0, ())
        for q in its:
            ln = add(ln, q[3] if q[0] == "w" else num(1))
        c = cellv("blab", its)
        st.var("C%s" % nm(c.args), 0, MAX)
        st.var("N%s" % nm(c.args), 0, 0)
        return s.slice(ip, st, c, num(0), ln, num(0), num(0))

    def note(s, st, cell, m, want):
        if not zero(st, sub(m, want)):
            st.mem[("G", "wrongm")] = st.mem.get(("G", "wrongm"), ()) + ((cell, m, want),)

    def pieces(s, st, v):
        w = s.win(st, v)
        if w[1][0] == "blab":
            # part of a label that was built: only whole
            tot = (0, ())
            for q in w[1][1]:
                tot = add(tot, q[3] if q[0] == "w" else num(1))
            if zero(st, w[2]) and zero(st, sub(tot, w[3])):
                return tuple(w[1][1])
            raise Undecided("part of a label that was built")
        return (w,)

    def write_label(s, ip, st, a):
        v = s.sl(ip, st, a[0])
        m = ip.affine(st, a[1])
        b = s.log(ip, st, a[2])
        s.append(ip, st, b, ("label", s.pieces(st, v), lform(m)))
        return s.either(st, UNIT, "write_label")

    def write_parts(s, ip, st, a):
        v, w = s.sl(ip, st, a[0]), s.sl(ip, st, a[2])
        m = ip.affine(st, a[3])
        b = s.log(ip, st, a[4])
        bit = st.bit(ip.bits(st, a[1])[0])
        s.append(ip, st, b, ("label", s.pieces(st, v) + (("b", bit),) + s.pieces(st, w), lform(m)))
        return s.either(st, UNIT, "write_label_parts")

    def pointer(s, ip, st, v, a):
        """the comparator of extras: writes something that depends on two slices"""
        if v.args != ("comparator",) or len(a) != 4:
            raise Undecided("call of %r" % (v,))
        s.own_context(st, "the comparator", a[3])
        b = s.log(ip, st, a[2])
        d = []
        for x in a[:2]:
            x = s.sl(ip, st, x)
            if x is None or b is None:
                raise Undecided("arguments of the comparator")
            r = {k: y if isinstance(y, Af) else ip.var_of(st, y) for k, y in rfields(s.p, x).items()}
            d.append((s.name(get(s.p, x, "cell"), st),) + tuple(lform(r[k]) for k in ("bits_start", "bits_end", "refs_start", "refs_end")))
        s.append(ip, st, a[2] if b is None else b, ("cmp",) + tuple(d))
        return s.either(st, UNIT, "the comparator")

    # --------------------------------------------------------------- Vec --
    def vec(s, ip, st, c, a):
        f, path = c["nm"], c["path"]
        if "alloc::vec::Vec" in path or "smallvec::SmallVec" in path:
            if f in ("new", "with_capacity", "default"):
                return [(st, Ag("vec", 0, ()))]
        if not a or "tycho_types" in path.split("<")[0]:
            return None
        v = a[0]
        n = 0
        ref = None
        while isinstance(v, Ref) and n < 4:
            try:
                x = ip.read(st, v.root, v.path)
            except (Undecided, KeyError):
                return None
            ref, v = v, x
            n += 1
        if not (isinstance(v, Ag) and v.k == "vec"):
            return None
        if f == "push":
            ip.write(st, ref.root, ref.path, Ag("vec", 0, v.f + (a[1],)))
            return [(st, UNIT)]
        if f == "pop":
            if not v.f:
                return [(st, NONE)]
            ip.write(st, ref.root, ref.path, Ag("vec", 0, v.f[:-1]))
            return [(st, Some(v.f[-1]))]
        if f == "len":
            return [(st, K(len(v.f)))]
        if f == "is_empty":
            return [(st, K(int(not v.f), 1))]
        if f in ("last", "first", "last_mut", "first_mut"):
            if not v.f:
                return [(st, NONE)]
            i = 0 if f.startswith("first") else len(v.f) - 1
            return [(st, Some(Ref(ref.root, ref.path + (i,))))]
        if f in ("deref", "deref_mut", "as_slice", "as_mut_slice", "as_ref", "borrow"):
            return [(st, ref)]
        if f in ("into_iter", "drain"):
            return [(st, Ag("veciter", 0, v.f))]
        if f == "drop":
            return [(st, UNIT)]
        return None


def zvar(it, cell):
    return "Z%d" % (hash((it, cell)) % (1 << 40))


def nm(name):
    """name of a cell in names of variables"""
    if name[0] == "n":
        return "n" + name[1]
    return repr(name) if name[0] in ("built", "sub", "blab") else "".join(str(x) for x in name)


def zero(st, l):
    if not l[1]:
        return l[0] == 0
    return st.holds(*l) and st.holds(-l[0], tuple((v, -k) for v, k in l[1]))


def rfields(p, sl):
    r = get(p, sl, "range") if sl.k == CS else sl
    return {n: get(p, r, n) for n in ("bits_start", "bits_end", "refs_start", "refs_end")}


def same_win(D, st, a, b):
    if zero(st, a[3]) and zero(st, b[3]):
        return True
    return a[1] == b[1] and zero(st, sub(a[2], b[2])) and zero(st, sub(a[3], b[3]))


def norm(D, st, items):
    """items with empty windows dropped, labels written by what they are known to be, adjacent windows merged"""
    out = []
    for it in items:
        if it[0] == "label":
            it = ("label", norm(D, st, it[1]), it[2])
        elif it[0] == "r":
            it = ("r", ncell(D, st, it[1]))
        elif it[0] == "b":
            push_bit(D, st, out, known(st, it[1]))
            continue
        if it[0] == "rs":
            if zero(st, it[3]):
                continue
            # single references where the numbers are known
            if not it[2][1] and zero(st, sub(it[3], num(2))) and it[1][0] == "n":
                for i in range(2):
                    out.append(("r", cellv("n", it[1][1] + str(it[2][0] + i))))
                continue
        if it[0] == "w":
            if zero(st, it[3]):
                continue
            it = D.tr(st, it)
            n = next((k for k in (1, 2, 3) if zero(st, sub(it[3], num(k)))), None)
            if n:
                for i in range(n):
                    push_bit(D, st, out, known(st, D.bit_at(st, it[1], add(it[2], num(i)))))
                continue
            # bits in front of it that are of the same run
            while out and out[-1][0] == "b":
                b = known(st, D.bit_at(st, it[1], sub(it[2], num(1))))
                if b != out[-1][1]:
                    break
                it = ("w", it[1], sub(it[2], num(1)), add(it[3], num(1)))
                out.pop()
            if out and out[-1][0] == "w" and out[-1][1] == it[1] and zero(st, sub(add(out[-1][2], out[-1][3]), it[2])):
                out[-1] = ("w", it[1], out[-1][2], add(out[-1][3], it[3]))
                continue
        out.append(it)
    return tuple(out)


def known(st, b):
    """a bit under the assumptions of the path, comparisons included"""
    b = st.bit(b)
    if isinstance(b, int):
        return b
    if b[0] == "cmp":
        return 1 if st.holds(b[1], b[2]) else 0 if not st.possible(b[1], b[2]) else b
    if b[0] == "~":
        return bnot(known(st, b[1]))
    if b[0] in ("&", "^"):
        return (band if b[0] == "&" else bxor)(known(st, b[1]), known(st, b[2]))
    return b


def push_bit(D, st, out, b):
    if out and out[-1][0] == "w":
        w = out[-1]
        if known(st, D.bit_at(st, w[1], add(w[2], w[3]))) == b:
            out[-1] = ("w", w[1], w[2], add(w[3], num(1)))
            return
    out.append(("b", b))


def ncell(D, st, c):
    if isinstance(c, Opq) and c.name == "cell" and c.args[0] == "built":
        return cellv("built", norm(D, st, c.args[1]))
    return c


def diff_items(D, st, xs, ys):
    """None, or what is different; both normalised"""
    if len(xs) != len(ys):
        return "%s where %s is expected" % (show_items(xs), show_items(ys))
    for x, y in zip(xs, ys):
        if x[0] != y[0]:
            return "%s where %s is expected" % (show_items((x,)), show_items((y,)))
        if x[0] == "w":
            if not same_win(D, st, x, y):
                return "%s where %s is expected" % (show_items((x,)), show_items((y,)))
        elif x[0] == "label":
            if not zero(st, sub(x[2], y[2])):
                return "a label for %s bits where %s bits remain" % (show_l(x[2]), show_l(y[2]))
            d = diff_items(D, st, x[1], y[1])
            if d:
                return "label: " + d
        elif x[0] == "r":
            d = diff_cell(D, st, x[1], y[1])
            if d:
                return d
        elif x[0] == "rs":
            if x[1] != y[1] or not zero(st, sub(x[2], y[2])) or not zero(st, sub(x[3], y[3])):
                return "references %r where %r are expected" % (x[1:], y[1:])
        elif x[0] != "cmp" and x != y:
            return "%s where %s is expected" % (show_items((x,)), show_items((y,)))
    return None


def diff_cell(D, st, x, y):
    if x.args[0] == "built" and y.args[0] == "built":
        return diff_items(D, st, norm(D, st, x.args[1]), norm(D, st, y.args[1]))
    if x.args != y.args:
        return "%s where %s is expected" % (show_cell(x), show_cell(y))
    return None


def show_l(l):
    return repr(Af(0, False, *l))


def show_cell(c):
    return show_name(c.args)


def show_name(n):
    if n[0] == "n":
        return "node root%s" % "".join("." + x for x in n[1])
    if n[0] == "lab":
        return "label of root%s" % "".join("." + x for x in n[1])
    if n[0] == "built":
        return "cell(%s)" % show_items(n[1])
    return " ".join(str(x) for x in n)


def show_items(its):
    out = []
    for i in its:
        if i[0] == "w":
            out.append("bits %s+%s of %s" % (show_l(i[2]), show_l(i[3]), show_name(i[1])))
        elif i[0] == "label":
            out.append("label(%s; %s)" % (show_items(i[1]), show_l(i[2])))
        elif i[0] == "r":
            out.append("ref " + show_cell(i[1]))
        elif i[0] == "rs":
            out.append("refs of " + show_name(i[1]))
        elif i[0] == "cmp":
            out.append("extra")
        elif i[0] == "b":
            out.append("bit " + show_bit(i[1]))
        else:
            out.append(str(i[1]))
    return ", ".join(out) or "nothing"
