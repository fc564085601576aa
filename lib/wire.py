"""Wire grammars: the bit/reference layouts that the Store side emits and the
Load side consumes, extracted per path from the type-checked program, and the
alignment of the two."""
from terms import *
from absint import *
import stdmodels
from stdmodels import content, setcontent, strip

SLICE = "tycho_types::cell::slice::CellSlice"
BUILDER = "tycho_types::cell::builder::CellBuilder"
DATAB = "tycho_types::cell::builder::CellDataBuilder"
REFSB = "tycho_types::cell::builder::CellRefsBuilder"
STORE = "tycho_types::cell::builder::Store"
LOAD = "tycho_types::cell::slice::Load"
HASHB = "tycho_types::cell::HashBytes"
NEWCONST = mk("bnew")

FIXED = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "u256": 256}

LAZY = "tycho_types::cell::lazy::Lazy"
WRAP = (OPTION, LAZY, "alloc::boxed::Box", "alloc::sync::Arc", "alloc::rcs::arc::Arc", "alloc::rcs::rc::Rc", "alloc::rc::Rc",
        "core::num::nonzero::NonZero")

DENY_INLINE = ("tycho_types::dict::", "tycho_types::merkle::", "tycho_types::boc::", "tycho_types::cell::cell_impl",
               "tycho_types::cell::slice::", "tycho_types::num::varuint248", "tycho_types::crc")


def is_cellty(ty):
    return ty is not None and ty[0] == "adt" and ty[1].startswith("tycho_types::cell::cell_impl::") and ty[1].endswith("::Cell")


def bytes_ref_len(ip, st, v):
    l = ip.length(st, v)
    return l


DICT_GETTERS = ("root", "into_root", "dict", "root_extra", "is_empty", "from", "into_parts", "from_parts", "from_raw", "load", "new")


class Wire:
    def __init__(self, prog, leaf=None, expand=(), unroll=0):
        self.p = prog
        self.unroll = unroll
        self.ntpath = {}
        self.expand = set(expand)
        self.depth = 14

    # ---- policy ----------------------------------------------------------
    def policy(self, c, st, ip):
        b = c.body
        if b is None:
            return False
        p = b["path"]
        if p.startswith("tycho_types::dict::") or "for tycho_types::dict::" in p or "<tycho_types::dict::" in p:
            if b["nm"] in DICT_GETTERS and len(b["blocks"]) <= 8:
                return True
        if "num::varuint248" in p and b["nm"] in ("into_words", "from_words", "leading_zeros", "new", "is_zero", "is_valid", "bit_len", "exact_size"):
            return True
        if any(d in p for d in DENY_INLINE) and not any(x in p for x in ("CellContext", "cell::HashBytes")):
            return False
        if len(b["blocks"]) > 260:
            return False
        return len(st.frames) < self.depth

    def interp(self, **kw):
        kw.setdefault("max_traces", 6000)
        kw.setdefault("unroll", self.unroll)
        return Interp(self.p, [self.model, stdmodels.std], self.policy, **kw)

    # ---- model -----------------------------------------------------------
    def model(self, ip, st, c):
        sp = c.self_ty[1] if c.self_ty is not None and c.self_ty[0] == "adt" else None
        if c.trait is None:
            if sp == SLICE:
                return self.slice_prim(ip, st, c)
            if sp in (BUILDER, DATAB, REFSB):
                return self.builder_prim(ip, st, c)
            if c.nm in ("as_slice", "as_slice_allow_exotic", "parse", "parse_exotic", "parse_ext") and c.self_ty is not None and \
                    (is_cellty(c.self_ty) or c.self_ty[0] == "dyn"):
                return self.cell_prim(ip, st, c)
            if sp in DICTS and c.nm == "load_from_root_ext" and c.args:
                it = ("root", sp.split("::")[-1])
                s0 = c.args[0]
                return self.rd(ip, st, s0, it, lambda r: r)
            if c.nm == "unlikely" or c.nm == "likely":
                return [(st, c.args[0])]
            return None
        t = c.trait
        if t == "core::ops::deref::Deref" or t == "core::ops::deref::DerefMut":
            if sp == BUILDER:
                return [(st, c.args[0])]
            if is_cellty(c.self_ty):
                return [(st, c.args[0])]
        if t == "core::convert::AsRef" and is_cellty(c.self_ty):
            return [(st, c.args[0])]
        if t == "core::clone::Clone" and (sp == SLICE or is_cellty(c.self_ty)):
            return [(st, content(ip, st, c.args[0]))]
        if t.endswith("CellFamily") and c.nm == "empty_context":
            return [(st, mk("emptyctx"))]
        if t.endswith("CellFamily") and c.nm in ("empty_cell", "empty_cell_ref"):
            return [(st, mk("emptycell"))]
        if t.endswith("CellContext") and c.nm in ("finalize_cell",):
            return None
        if t.endswith("CellContext") and c.nm in ("load_cell",):
            s2 = st.copy()
            return [(st, ok(c.args[1])), (s2, err(mk("ctxerr")))]
        if t.endswith("CellContext") and c.nm in ("load_dyn_cell",):
            s2 = st.copy()
            return [(st, ok(c.args[1])), (s2, err(mk("ctxerr")))]
        if t == "core::default::Default" and sp in (BUILDER, DATAB):
            return [(st, NEWCONST)]
        if c.nm == "store_body" and t.endswith("::StoreBody") and c.body is None:
            v = ip.freeze(st, content(ip, st, c.args[0]))
            out = []
            for f in (0, 1):
                s2 = st.copy()
                if s2.assume(c.args[1], f):
                    out += self.app(ip, s2, c.args[2], ("nt", "body:%d" % f, v))
            return out
        if c.nm == "load_body" and t.endswith("::LoadBody") and c.body is None:
            out = []
            for f in (0, 1):
                s2 = st.copy()
                if s2.assume(c.args[0], f):
                    out += self.rd(ip, s2, c.args[1], ("nt", "body:%d" % f), lambda r: r)
            return out
        if t == STORE and c.nm == "store_into":
            return self.store_nt(ip, st, c)
        if t == LOAD and c.nm == "load_from":
            return self.load_nt(ip, st, c)
        return None

    # ---- nonterminals ----------------------------------------------------
    def leaf_bits(self, ty):
        if ty[0] == "int":
            return ty[1]
        if ty[0] == "bool":
            return 1
        return None

    def store_nt(self, ip, st, c):
        ty = c.self_ty
        v = lambda: ip.freeze(st, content(ip, st, c.args[0]))
        n = self.leaf_bits(ty)
        if n is not None:
            x = v()
            ip.note_ty(x, ty)
            return self.app(ip, st, c.args[1], ("bits", x, n))
        if ty[0] == "adt" and ty[1] == HASHB:
            return self.app(ip, st, c.args[1], ("bits", hb(v()), 256))
        if is_cellty(ty):
            return self.app(ip, st, c.args[1], ("ref", v()))
        if ty[0] == "adt" and ty[1] == SLICE:
            return self.app(ip, st, c.args[1], ("slice", v()))
        if ty[0] == "adt" and ty[1] == BUILDER:
            return self.app(ip, st, c.args[1], ("builder", v()))
        if ty == ("tuple", ()):
            return [(st, ok(UNIT))]
        if ty[0] in ("tuple", "ref") or ty[0] == "adt" and (ty[1] in WRAP or ty[1] in self.expand):
            if c.body is not None:
                return ("inline", c.body, c.sub, c.args)
        x = v()
        self.note_nt(ty)
        return self.app(ip, st, c.args[1], ("nt", self.p.tystr(ty), x))

    def load_nt(self, ip, st, c):
        ty = c.self_ty
        n = self.leaf_bits(ty)
        s = c.args[0]
        if n is not None:
            return self.rdbits(ip, st, s, n, ty if ty[0] == "int" else None)
        if ty[0] == "adt" and ty[1] == HASHB:
            return self.rdhash(ip, st, s)
        if is_cellty(ty) or ty[0] == "ref" and ty[2][0] == "dyn":
            return self.rdref(ip, st, s)
        if ty[0] == "adt" and ty[1] == SLICE:
            c0 = content(ip, st, s)
            it = ("rest",)
            st.event("rd", c0, it, mk("rd", c0, it))
            setcontent(ip, st, s, mk("cur", c0, it))
            return [(st, ok(c0))]
        if ty == ("tuple", ()):
            return [(st, ok(UNIT))]
        if ty[0] in ("tuple", "ref") or ty[0] == "adt" and (ty[1] in WRAP or ty[1] in self.expand):
            if c.body is not None:
                return ("inline", c.body, c.sub, c.args)
        it = ("nt", self.p.tystr(ty))
        self.note_nt(ty)
        return self.rd(ip, st, s, it, lambda r: r)

    def note_nt(self, ty):
        while ty[0] == "ref":
            ty = ty[2]
        if ty[0] == "adt":
            self.ntpath[norm_nt(self.p.tystr(ty))] = ty[1]

    # ---- writer ----------------------------------------------------------
    def app(self, ip, st, b, item, fail=True):
        c0 = content(ip, st, b)
        out = []
        if fail:
            s2 = st.copy()
            s2.event("wrerr", c0, item[0])
            out.append((s2, err(mk("wrerr", c0))))
        setcontent(ip, st, b, mk("app", c0, item))
        out.insert(0, (st, ok(UNIT)))
        return out

    def builder_prim(self, ip, st, c):
        nm, a = c.nm, c.args
        if nm == "new":
            return [(st, NEWCONST)]
        if nm.startswith("store_") and nm[6:] in FIXED:
            n = FIXED[nm[6:]]
            v = a[1]
            if n == 256:
                v = hb(ip.freeze(st, content(ip, st, a[1])))
            return self.app(ip, st, a[0], ("bits", v, n))
        if nm == "store_bit":
            set_width(a[1], 1, False)
            return self.app(ip, st, a[0], ("bits", a[1], 1))
        if nm == "store_bit_zero":
            return self.app(ip, st, a[0], ("bits", I(0), 1))
        if nm == "store_bit_one":
            return self.app(ip, st, a[0], ("bits", I(1), 1))
        if nm in ("store_small_uint", "store_uint"):
            if is_int(a[2]):
                return self.app(ip, st, a[0], ("bits", a[1], a[2].a[1]))
            return self.app(ip, st, a[0], ("vbits", a[1], a[2]))
        if nm in ("store_zeros", "store_ones"):
            if is_int(a[1]):
                n = a[1].a[1]
                return self.app(ip, st, a[0], ("bits", I(0 if nm == "store_zeros" else (1 << n) - 1), n))
            return self.app(ip, st, a[0], ("vbits", I(0) if nm == "store_zeros" else mk("ones"), a[1]))
        if nm == "store_raw":
            v = ip.freeze(st, content(ip, st, a[1]))
            if v.a[0] == "sub" and False:
                pass
            if is_int(a[2]):
                if not is_int(raw(v)):
                    FIELD_BITS.setdefault(raw(v), a[2].a[1])
                return self.app(ip, st, a[0], ("bits", raw(v), a[2].a[1]))
            return self.app(ip, st, a[0], ("vbits", raw(v), a[2]))
        if nm in ("store_bigint", "store_biguint", "store_var_bigint", "store_var_biguint"):
            v = ip.freeze(st, content(ip, st, a[1]))
            return self.app(ip, st, a[0], ("nt", nm[6:] + str([show(x) for x in a[2:]]), v))
        if nm == "store_reference":
            return self.app(ip, st, a[0], ("ref", ip.freeze(st, a[1])))
        if nm == "store_builder":
            return self.app(ip, st, a[0], ("builder", content(ip, st, a[1])))
        if nm in ("store_slice", "store_slice_data"):
            v = a[1]
            v = content(ip, st, v) if v.a[0] in ("ref", "&") else v
            return self.app(ip, st, a[0], ("slice" if nm == "store_slice" else "slicedata", ip.freeze(st, v)))
        if nm == "build_ext":
            s2 = st.copy()
            return [(st, ok(mk("cell", ip.freeze(st, a[0])))), (s2, err(mk("builderr")))]
        if nm == "build":
            s2 = st.copy()
            return [(st, ok(mk("cell", ip.freeze(st, a[0])))), (s2, err(mk("builderr")))]
        if nm in ("build_from", "build_from_ext"):
            if c.body is not None:
                return ("inline", c.body, c.sub, c.args)
        if nm == "set_exotic":
            setcontent(ip, st, a[0], mk("app", content(ip, st, a[0]), ("exotic", a[1])))
            return [(st, UNIT)]
        if nm in ("size_bits", "size_refs", "spare_capacity_bits", "spare_capacity_refs", "size"):
            t = mk("bsz", nm, content(ip, st, a[0]))
            ip.note_ty(t, c.retty)
            return [(st, t)]
        if nm in ("has_capacity", "has_capacity_bits", "is_exotic"):
            t = mk("bool", nm, content(ip, st, a[0]), *a[1:])
            return [(st, t)]
        return None

    # ---- reader ----------------------------------------------------------
    def rd(self, ip, st, s, item, val, peek=False):
        c0 = content(ip, st, s)
        r = mk("rd", c0, item)
        s2 = st.copy()
        s2.event("rderr", c0, item)
        st.event("rd", c0, item, r)
        if not peek:
            setcontent(ip, st, s, mk("cur", c0, item))
        return [(st, ok(val(r))), (s2, err(mk("rderr", item[0])))]

    def rdbits(self, ip, st, s, n, ty=None, peek=None):
        def val(r):
            x = mk("rdbits", r, n, 0)
            if n == 1:
                set_width(x, 1, False)
            if ty is not None and ty[2]:
                return mk("sx", n, x)
            return x
        if peek is not None:
            return self.rd(ip, st, s, ("peek", n, peek), val, True)
        return self.rd(ip, st, s, ("bits", n), val)

    def rdhash(self, ip, st, s, peek=None):
        it = ("bits", 256) if peek is None else ("peek", 256, peek)
        return self.rd(ip, st, s, it, lambda r: mk("agg", ("adt", HASHB), 0, (mk("rdbits", r, 256, 0),)), peek is not None)

    def rdref(self, ip, st, s, peek=None):
        it = ("ref",) if peek is None else ("peekref", peek)
        return self.rd(ip, st, s, it, lambda r: r, peek is not None)

    def slice_prim(self, ip, st, c):
        nm, a = c.nm, c.args
        pk = nm.startswith("get_")
        base = nm[5:] if nm.startswith("load_") else nm[4:] if pk else None
        off = (a[1] if len(a) > 1 else I(0)) if pk else None
        if base is not None and (nm.startswith("load_") or pk):
            if base == "bit":
                return self.rdbits(ip, st, a[0], 1, None, off)
            if base == "u256":
                return self.rdhash(ip, st, a[0], off)
            if base in FIXED:
                return self.rdbits(ip, st, a[0], FIXED[base], None, off)
            if base in ("uint", "small_uint"):
                n = a[2] if pk else a[1]
                if is_int(n):
                    return self.rdbits(ip, st, a[0], n.a[1], None, off)
                r = self.rd(ip, st, a[0], ("vbits", n) if not pk else ("vpeek", n, off), lambda r: r, pk)
                return r
            if base == "reference":
                return self.rdref(ip, st, a[0], off)
            if base == "reference_cloned":
                return self.rdref(ip, st, a[0], off)
            if base == "reference_as_slice":
                it = ("ref",) if not pk else ("peekref", off)
                s2 = st.copy()
                s2.event("exotic_child")
                return self.rd(ip, st, a[0], it, lambda r: mk("cellslice", r), pk) + [(s2, err(mk("exoticerr")))]
            if base == "raw":
                n = a[3] if pk else a[2]
                buf = a[2] if pk else a[1]
                it = (("bits", n.a[1]) if not pk else ("peek", n.a[1], off)) if is_int(n) else (("vbits", n) if not pk else ("vpeek", n, off))
                c0 = content(ip, st, a[0])
                r = mk("rd", c0, it)
                s2 = st.copy()
                s2.event("rderr", c0, it)
                st.event("rd", c0, it, r)
                if not pk:
                    setcontent(ip, st, a[0], mk("cur", c0, it))
                x = mk("rdbits", r, n.a[1], 0) if is_int(n) else r
                # whole-buffer view or a prefix view of the buffer
                root, path = ip.deref(buf)
                ip.write(st, root, path, raw_to_bytes(ip, st, x, buf))
                return [(st, ok(buf)), (s2, err(mk("rderr", "raw")))]
            if base in ("bigint", "biguint", "var_bigint", "var_biguint"):
                args = [show(x) for x in a[1:]]
                return self.rd(ip, st, a[0], ("nt", base + str(args)), lambda r: r)
            if base == "remaining":
                c0 = content(ip, st, a[0])
                it = ("rest",)
                st.event("rd", c0, it, mk("rd", c0, it))
                setcontent(ip, st, a[0], mk("cur", c0, it))
                return [(st, c0)]
            if base == "prefix":
                c0 = content(ip, st, a[0])
                if pk:
                    return [(st, mk("pfx", c0, a[1], a[2]))]
                it = ("prefix", a[1], a[2])
                r = mk("rd", c0, it)
                s2 = st.copy()
                s2.event("rderr", c0, it)
                st.event("rd", c0, it, r)
                setcontent(ip, st, a[0], mk("cur", c0, it))
                return [(st, ok(mk("pfx", c0, a[1], a[2]))), (s2, err(mk("rderr", "prefix")))]
        if nm == "skip_first":
            return self.rd(ip, st, a[0], ("skip", a[1], a[2]), lambda r: UNIT)
        if nm == "only_first":
            c0 = content(ip, st, a[0])
            s2 = st.copy()
            s2.event("rderr", c0, ("only",))
            setcontent(ip, st, a[0], mk("pfx", c0, a[1], a[2]))
            return [(st, ok(UNIT)), (s2, err(mk("rderr", "only")))]
        if nm in ("size_bits", "size_refs", "offset_bits", "offset_refs"):
            t = mk("srem", nm, content(ip, st, a[0]))
            ip.note_ty(t, c.retty)
            return [(st, t)]
        if nm == "is_data_empty":
            t = mk("srem", "size_bits", content(ip, st, a[0]))
            set_width(t, 16, False)
            return [(st, eq0(t))]
        if nm == "is_refs_empty":
            t = mk("srem", "size_refs", content(ip, st, a[0]))
            set_width(t, 8, False)
            return [(st, eq0(t))]
        if nm == "is_empty":
            x = mk("srem", "size_bits", content(ip, st, a[0]))
            y = mk("srem", "size_refs", content(ip, st, a[0]))
            set_width(x, 16, False)
            set_width(y, 8, False)
            return [(st, ip.bool2("band", eq0(x), eq0(y)))]
        if nm == "has_remaining":
            x = mk("srem", "size_bits", content(ip, st, a[0]))
            y = mk("srem", "size_refs", content(ip, st, a[0]))
            set_width(x, 16, False)
            set_width(y, 8, False)
            return [(st, ip.bool2("band", le(a[1], x), le(a[2], y)))]
        if nm == "cell":
            return [(st, mk("cellof", content(ip, st, a[0])))]
        if nm == "new_allow_exotic":
            return [(st, mk("cellslice", ip.freeze(st, a[0])))]
        if nm == "new":
            s2 = st.copy()
            return [(st, ok(mk("cellslice", ip.freeze(st, a[0])))), (s2, err(mk("exoticerr")))]
        return None

    def cell_prim(self, ip, st, c):
        nm, a = c.nm, c.args
        v = ip.freeze(st, a[0])
        if v.a[0] == "&":
            v = v.a[1]
        if nm == "as_slice":
            s2 = st.copy()
            return [(st, ok(mk("cellslice", v))), (s2, err(mk("exoticerr")))]
        if nm == "as_slice_allow_exotic":
            return [(st, mk("cellslice", v))]
        if nm in ("parse", "parse_exotic", "parse_ext"):
            if c.body is not None:
                return ("inline", c.body, c.sub, c.args)
        return None


def hb(v):
    """The 256-bit value of a HashBytes (or byte array) term"""
    if v.a[0] == "agg" and v.a[1] == ("adt", HASHB):
        if v.a[3][0].a[0] in ("fld", "vf"):
            FIELD_BITS[v.a[3][0]] = 256
        return raw(v.a[3][0])
    if v.a[0] == "bytes":
        return raw(v)
    if v.a[0] == "&":
        return hb(v.a[1])
    r = mk("fld", v, 0, HASHB)
    FIELD_BITS[r] = 256
    return r


def raw(v):
    if v.a[0] == "bytes":
        return I(int.from_bytes(v.a[1], "big")) if v.a[1] else I(0)
    if v.a[0] == "&":
        return raw(v.a[1])
    return v


def raw_to_bytes(ip, st, x, buf):
    return x


# ---------------------------------------------------------------------------
# bit strings

def bits_of(st, t, n):
    """n low bits of the value t, most significant first, as a list of
    0 / 1 / (term, bit index)"""
    v = st.value(t) if st is not None else (t.a[1] if is_int(t) else None)
    if v is not None:
        return [(v >> (n - 1 - i)) & 1 for i in range(n)]
    op = t.a[0]
    if op == "bor" or op == "lin" or op == "bxor":
        if op == "lin":
            parts = []
            if t.a[1] >= 0 and all(k > 0 and k & (k - 1) == 0 for _, k in t.a[2]):
                parts.append(bits_of(st, I(t.a[1]), n))
                for x, k in t.a[2]:
                    s = k.bit_length() - 1
                    mx = maxval(x)
                    xb = bits_of(st, x, n)
                    w = mx.bit_length() if mx is not None else n
                    xb = [0] * (n - min(n, w)) + xb[n - min(n, w):]
                    parts.append(xb[s:] + [0] * s if s < n else [0] * n)
        else:
            parts = [bits_of(st, t.a[1], n), bits_of(st, t.a[2], n)]
        if parts:
            out = []
            for col in zip(*parts):
                nz = [x for x in col if x != 0]
                if not nz:
                    out.append(0)
                elif len(nz) == 1:
                    out.append(nz[0])
                elif op == "bor" and any(x == 1 for x in nz):
                    out.append(1)
                else:
                    out = None
                    break
            if out is not None:
                return out
    if op == "band":
        for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if is_int(y):
                xb = bits_of(st, x, n)
                return [xb[i] if (y.a[1] >> (n - 1 - i)) & 1 else 0 for i in range(n)]
    if op == "shr" and is_int(t.a[2]):
        s = t.a[2].a[1]
        xb = bits_of(st, t.a[1], n + s)
        return xb[:n]
    if op == "tr":
        if n <= t.a[1]:
            return bits_of(st, t.a[3], n)
        if not t.a[2]:
            return [0] * (n - t.a[1]) + bits_of(st, t.a[3], t.a[1])
    if op == "sx" and n <= t.a[1]:
        return bits_of(st, t.a[2], n)
    if op == "rdbits":
        w = t.a[2]
        if n > w:
            return [0] * (n - w) + [(t, w - 1 - i) for i in range(w)]
    mx = maxval(t)
    if mx is not None and (minval(t) or 0) >= 0 and mx.bit_length() < n and t.a[0] not in ("lin",):
        w = mx.bit_length()
        return [0] * (n - w) + [(t, w - 1 - i) for i in range(w)]
    return [(t, n - 1 - i) for i in range(n)]


def tokens(st, c, out=None):
    """The layout of a builder content"""
    chain = []
    while c.a[0] == "app":
        chain.append(c.a[2])
        c = c.a[1]
    chain.reverse()
    out = []
    if c.a[0] not in ("bnew", "bstart"):
        out.append(("builder?", c))
    for it in chain:
        k = it[0]
        if k == "bits":
            out.extend(("b", x) for x in bits_of(st, it[1], it[2]))
        elif k == "vbits":
            n = st.value(it[2]) if st is not None else None
            if n is not None:
                out.extend(("b", x) for x in bits_of(st, it[1], n))
            else:
                out.append(("vbits", it[1], it[2]))
        elif k == "ref":
            out.append(("ref", it[1]))
        elif k == "builder":
            out.extend(tokens(st, it[1]))
        else:
            out.append(it)
    return out


def ref_tokens(st, cell):
    if cell.a[0] == "cell":
        return tokens(st, cell.a[1])
    return None


def show_tokens(toks, st=None):
    out = []
    run = ""
    cur = None
    for t in toks:
        if t[0] == "b" and t[1] in (0, 1):
            run += str(t[1])
            continue
        if run:
            out.append(run)
            run = ""
        if t[0] == "b":
            if cur and cur[0] is t[1][0] and cur[2] - 1 == t[1][1] and out and out[-1] is cur[3]:
                cur[2] = t[1][1]
                cur[3] = out[-1] = "%s[%d..%d]" % (show(t[1][0]), cur[1], t[1][1])
            else:
                s = "%s[%d]" % (show(t[1][0]), t[1][1])
                out.append(s)
                cur = [t[1][0], t[1][1], t[1][1], s]
            continue
        if t[0] == "ref" and t[1].a[0] == "cell":
            out.append("^[" + show_tokens(tokens(st, t[1].a[1]), st) + "]")
        else:
            out.append("%s:%s" % (t[0], ",".join(show(x) for x in t[1:])))
    if run:
        out.append(run)
    return " ".join(out)


# ---------------------------------------------------------------------------
# alignment of a reader path with a writer path

class Mismatch(Exception):
    def __init__(self, msg, nts=()):
        Exception.__init__(self, msg)
        self.nts = tuple(nts)  # nonterminals whose expansion may resolve it


class Short(Exception):
    """The writer's string ends before the read"""


class Stream:
    __slots__ = ("toks", "pos", "refs", "sticky")


FIELD_BITS = {}  # byte-string terms -> their full width


def value_of_bits(bits, st=None):
    """The value denoted by a list of bits (msb first)"""
    n = len(bits)
    if all(b in (0, 1) for b in bits):
        v = 0
        for b in bits:
            v = v * 2 + b
        return I(v)
    # strip the leading zeros
    i = 0
    while bits[i] == 0:
        i += 1
    rest = bits[i:]
    if all(isinstance(b, tuple) for b in rest):
        t = rest[0][0]
        hi = rest[0][1]
        if all(b[0] is t and b[1] == hi - j for j, b in enumerate(rest)):
            lo = hi - len(rest) + 1
            x = shr(t, I(lo)) if lo else t
            mx = maxval(t)
            if st is not None:
                lo_, hi_ = st.interval(t)
                if hi_ is not None and lo_ is not None and lo_ >= 0:
                    mx = hi_ if mx is None else min(mx, hi_)
            if mx is not None and mx.bit_length() <= hi + 1:
                return x
            if lo == 0 and FIELD_BITS.get(t) == hi + 1:
                return x
            return mk("lowbits", len(rest), x) if mx is None else band(x, I((1 << len(rest)) - 1))
    acc = I(0)
    for j, b in enumerate(rest):
        k = 1 << (len(rest) - 1 - j)
        if b == 1:
            acc = add(acc, I(k))
        elif b != 0:
            acc = add(acc, mulc(bit(b[0], b[1]), k))
    return acc


def bit(t, i):
    if i == 0 and (isbool(t) or maxval(t) == 1):
        return t
    x = band(shr(t, I(i)), I(1))
    return x


class Align:
    """Feeds the layout of one writer path to one reader path."""

    def __init__(self, wst, toks, base):
        self.st = wst.copy()
        self.pos = {base: (tuple(toks), 0)}
        self.env = {}
        self.undecided = []
        self.base = base

    # cursor positions are (token tuple, index); references are tokens too and
    # are taken independently of the data bits
    def cursor(self, c):
        p = self.pos.get(c)
        if p is not None:
            return p
        c2 = self.subst(c)
        if c.a[0] == "cellslice":
            cell = c2.a[1]
            p = self.cell_stream(cell)
            self.pos[c] = p
            return p
        if c.a[0] == "pfx":
            toks, _ = self.cursor(c.a[1])
            nb, nr = self.subst(c.a[2]), self.subst(c.a[3])
            out = []
            if not is_int(nb) or not is_int(nr):
                raise Mismatch("prefix of unknown size")
            b, r = nb.a[1], nr.a[1]
            for t in toks:
                if t[0] == "b":
                    if b > 0:
                        out.append(t)
                        b -= 1
                elif t[0] == "ref":
                    if r > 0:
                        out.append(t)
                        r -= 1
                elif b > 0 or r > 0:
                    raise Mismatch("prefix across " + t[0])
            self.pos[c] = (tuple(out), 0)
            return self.pos[c]
        if c.a[0] == "cur":
            raise Mismatch("unknown cursor")
        self.pos[c] = ((("content", c2),), 0)
        return self.pos[c]

    def cell_stream(self, cell):
        while cell.a[0] in ("box",):
            cell = cell.a[2]
        if cell.a[0] == "cell":
            return (tuple(tokens(self.st, cell.a[1])), 0)
        if cell.a[0] == "emptycell":
            return ((), 0)
        return ((("content", cell),), 0)

    def take_bits(self, toks, n):
        out, rest = [], []
        for i, t in enumerate(toks):
            if len(out) == n:
                rest.append(t)
                continue
            if t[0] == "b":
                out.append(t[1])
            elif t[0] in ("ref",):
                rest.append(t)
            elif t[0] == "vbits":
                k = self.st.value(self.subst(t[2]))
                if k == 0:
                    continue
                raise Mismatch("reads %d bits where the writer puts %s" % (n, t[0]))
            elif t[0] == "exotic":
                continue
            else:
                raise Mismatch("reads %d bits where the writer puts %s %s" % (n, t[0], show(t[1]) if len(t) > 1 else ""),
                               [t[1]] if t[0] == "nt" else ())
        if len(out) < n:
            raise Short()
        return out, tuple(rest)

    def event(self, e):
        c0, it = e[1], e[2]
        toks, _ = self.cursor(c0)
        k = it[0]
        res, rest = None, toks
        if k == "bits":
            out, rest = self.take_bits(toks, it[1])
            res = ("bits", out)
        elif k == "peek":
            off = self.subst(it[2])
            o = self.st.value(off)
            if o is None:
                raise Mismatch("peek at unknown offset")
            out, _ = self.take_bits(toks, o + it[1])
            res = ("bits", out[o:])
        elif k == "vbits":
            n = self.subst(it[1])
            v = self.st.value(n)
            if v is not None:
                out, rest = self.take_bits(toks, v)
                res = ("term", value_of_bits(out, self.st)) if v else ("term", I(0))
            else:
                t0 = [i for i, t in enumerate(toks) if t[0] != "ref"]
                if not t0:
                    raise Short()
                t = toks[t0[0]]
                if t[0] != "vbits":
                    raise Mismatch("reads a variable field where the writer puts %s" % t[0])
                wn = self.subst(t[2])
                if wn is not n and self.st.value(eq0(sub(wn, n))) != 1:
                    raise Mismatch("variable field length %s vs %s" % (show(n), show(wn)))
                rest = toks[:t0[0]] + toks[t0[0] + 1:]
                res = ("term", t[1])
        elif k == "nt":
            t0 = [i for i, t in enumerate(toks) if t[0] not in ("ref", "exotic")]
            if t0:
                i = t0[0]
                t = toks[i]
                # references written before a nonterminal must be consumed first
                if t[0] == "content":
                    res = ("term", mk("decode", it[1], t[1]))
                    rest = ()
                else:
                    if t[0] != "nt" or norm_nt(t[1]) != norm_nt(it[1]):
                        raise Mismatch("reads %s where the writer puts %s" % (it[1], " ".join(str(x)[:60] for x in t[:2])),
                                       [it[1]] + ([t[1]] if t[0] == "nt" else []))
                    res = ("term", t[2])
                    rest = toks[:i] + toks[i + 1:]
                    if any(x[0] == "ref" for x in toks[:i]) and may_have_refs(it[1]):
                        raise Mismatch("reads %s before a reference that the writer puts earlier" % it[1])
            else:
                raise Short()
        elif k == "root":
            if toks and toks[0][0] == "slice":
                v = toks[0][1]
                if v.a[0] == "cellslice" and v.a[1].a[0] == "vf" and v.a[1].a[1].a[0] == "fld":
                    d = v.a[1].a[1].a[1]
                    if it[1] == "AugDict" and d.a[0] == "fld":
                        d = d.a[1]
                    res = ("term", d)
                    rest = toks[1:]
            elif not toks:
                raise Short()
            if res is None:
                raise Mismatch("reads a dictionary root where the writer puts %s" % show_tokens(toks))
        elif k == "ref":
            for i, t in enumerate(toks):
                if t[0] == "ref":
                    res = ("term", t[1])
                    rest = toks[:i] + toks[i + 1:]
                    break
                if t[0] == "nt" and not may_have_refs(t[1]):
                    continue
                if t[0] in ("nt", "content", "slice", "builder?"):
                    raise Mismatch("reads a reference where the writer puts %s" % t[0], [t[1]] if t[0] == "nt" else ())
            else:
                raise Short()
        elif k == "peekref":
            i = self.st.value(self.subst(it[1]))
            rs = [t for t in toks if t[0] == "ref"]
            if i is None or any(t[0] in ("nt", "content", "slice") for t in toks):
                raise Mismatch("peek at a reference")
            if i >= len(rs):
                raise Short()
            res = ("term", rs[i][1])
        elif k == "rest":
            rest = ()
        elif k == "skip":
            nb, nr = self.st.value(self.subst(it[1])), self.st.value(self.subst(it[2]))
            if nb is None or nr is None:
                raise Mismatch("skip of unknown size")
            _, rest = self.take_bits(toks, nb)
            for _ in range(nr):
                for i, t in enumerate(rest):
                    if t[0] == "ref":
                        rest = rest[:i] + rest[i + 1:]
                        break
                else:
                    raise Short()
        elif k == "prefix":
            nb, nr = self.st.value(self.subst(it[1])), self.st.value(self.subst(it[2]))
            if nb is None or nr is None:
                raise Mismatch("prefix of unknown size")
            self.cursor(mk("pfx", c0, it[1], it[2]))
            _, rest = self.take_bits(toks, nb)
            for _ in range(nr):
                for i, t in enumerate(rest):
                    if t[0] == "ref":
                        rest = rest[:i] + rest[i + 1:]
                        break
                else:
                    raise Short()
        else:
            raise Mismatch("read kind " + k)
        self.pos[mk("cur", c0, it)] = (tuple(rest), 0)
        if res is not None:
            self.env[e[3]] = res

    # ---- substitution ----------------------------------------------------
    def subst(self, t):
        memo = {}
        return self._s(t, memo)

    def _s(self, t, memo):
        if not isinstance(t, Term):
            if isinstance(t, tuple):
                return tuple(self._s(x, memo) for x in t)
            return t
        r = memo.get(t)
        if r is not None:
            return r
        r = self._s1(t, memo)
        memo[t] = r
        return r

    def _s1(self, t, memo):
        op = t.a[0]
        if op == "rd":
            v = self.env.get(t)
            if v is None:
                return t
            if v[0] == "term":
                return v[1]
            return value_of_bits(v[1], self.st) if v[1] else I(0)
        if op == "rdbits":
            v = self.env.get(t.a[1])
            if v is not None and v[0] == "bits":
                bs = v[1][t.a[3]:t.a[3] + t.a[2]]
                return value_of_bits(bs, self.st) if bs else I(0)
            return t
        if op == "srem":
            try:
                toks, _ = self.cursor(t.a[2])
            except Mismatch:
                toks = None
            if toks is not None:
                if t.a[1] == "size_bits" and all(x[0] in ("b", "ref") for x in toks):
                    return I(len([x for x in toks if x[0] == "b"]))
                if t.a[1] == "size_refs" and all(x[0] in ("b", "ref", "vbits") for x in toks):
                    return I(len([x for x in toks if x[0] == "ref"]))
            return t
        if op in ("i", "self", "arg", "bytes", "fn"):
            return t
        return rebuild(t, lambda x: self._s(x, memo), self)


def bitnorm(t, al):
    """A masked or shifted composite as the value of its bits"""
    if t.a[0] == "band" and is_int(t.a[2]) and t.a[2].a[1] >= 0:
        n = t.a[2].a[1].bit_length()
    elif t.a[0] == "shr" and is_int(t.a[2]) and maxval(t) is not None and (minval(t) or 0) >= 0:
        n = maxval(t).bit_length()
    elif t.a[0] == "tr" and not t.a[2]:
        n = t.a[1]
    else:
        return t
    if n == 0:
        return I(0)
    if n > 256:
        return t
    return value_of_bits(bits_of(al.st if al is not None else None, t, n), al.st if al is not None else None)


def rebuild(t, f, al=None):
    op = t.a[0]
    a = t.a
    if op == "lin":
        acc = I(a[1])
        for x, k in a[2]:
            acc = add(acc, mulc(f(x), k))
        return acc
    if op == "band":
        return bitnorm(band(f(a[1]), f(a[2])), al)
    if op == "bor":
        return bor(f(a[1]), f(a[2]))
    if op in ("lz", "tz"):
        return mk(op, a[1], f(a[2]))
    if op == "frombytes":
        return mk_frombytes(a[1], f(a[2]))
    if op == "idx":
        return bitnorm(mk_idx(f(a[1]), f(a[2])), al)
    if op == "lowbit":
        return lowbit(f(a[1]))
    if op == "inv":
        x = f(a[1])
        return trunc(I(~x.a[1]), a[2], False) if is_int(x) else mk("inv", x, a[2])
    if op == "bxor":
        return bxor(f(a[1]), f(a[2]))
    if op == "shr":
        return bitnorm(shr(f(a[1]), f(a[2])), al)
    if op == "shl":
        return shl(f(a[1]), f(a[2]))
    if op == "nz":
        x = f(a[1])
        return x.a[1] if x.a[0] == "nzget" else mk("nz", x)
    if op == "nzget":
        x = f(a[1])
        return x.a[1] if x.a[0] == "nz" else mk(*[f(y) if isinstance(y, Term) else y for y in a])
    if op == "cellslice":
        return mk("cellslice", f(a[1]))
    if op == "mul":
        return mul(f(a[1]), f(a[2]))
    if op == "lt0":
        return lt0(f(a[1]))
    if op == "eq0":
        return eq0(f(a[1]))
    if op == "eq":
        return teq(f(a[1]), f(a[2]))
    if op == "not":
        return lnot(f(a[1]))
    if op == "tr":
        return bitnorm(trunc(f(a[3]), a[1], a[2]), al)
    if op == "sx":
        x = f(a[2])
        if is_int(x):
            return trunc(x, a[1], True)
        if x.a[0] == "tr" and x.a[1] == a[1] and not x.a[2]:
            return x.a[3]
        w = WIDTH.get(x)
        if w and w[0] == a[1] and w[1]:
            return x
        if x.a[0] in ("lowbits",) and x.a[1] == a[1] and WIDTH.get(x.a[2]) == (a[1], True):
            return x.a[2]
        return mk("sx", a[1], x)
    if op == "discr":
        x = f(a[1])
        if x.a[0] == "agg" and isinstance(x.a[1], tuple) and x.a[1][0] == "adt":
            return I(PROG.variant_discr(x.a[1][1], x.a[2]))
        return mk_discr(x, DISCR.get(t))
    if op == "vf":
        x = f(a[1])
        if x.a[0] == "agg":
            return x.a[3][a[3]] if a[2] == x.a[2] else mk("bot")
        return mk("vf", x, a[2], a[3])
    if op == "fld":
        x = f(a[1])
        if x.a[0] == "agg":
            return x.a[3][a[2]]
        return mk("fld", x, a[2], a[3])
    if op == "agg":
        fs = [f(x) for x in a[3]]
        return IP.mk_agg(a[1], a[2], fs)
    if op == "deref":
        x = f(a[1])
        return x.a[1] if x.a[0] == "&" else mk("deref", x)
    if op == "&":
        x = f(a[1])
        return x.a[1] if x.a[0] == "deref" else mk("&", x)
    return mk(*[f(x) if isinstance(x, (Term, tuple)) else x for x in a])


PROG = None
IP = None


def setup(prog):
    global PROG, IP
    PROG = prog
    IP = Interp(prog)


DICTS = ("tycho_types::dict::typed::Dict", "tycho_types::dict::aug::AugDict")
REFFUL = {}  # normalised nonterminal -> whether its layout can contain references


def may_have_refs(nt):
    return REFFUL.get(norm_nt(nt), True)


def norm_nt(s):
    return s.replace("&", "").replace(" ", "")


def unbox(t):
    while t.a[0] == "box":
        t = t.a[2]
    return t


def low_half(st, a, b):
    """a is a truncation of b that loses nothing, since b has enough leading zeros"""
    if a.a[0] == "tr" and not a.a[2] and a.a[3] is b:
        for w in (128, 64, 32):
            lo, _ = st.bounds(mk("shr", mk("lz", w, b), I(3)))
            if lo is not None and lo * 8 >= w - a.a[1]:
                return True
    return False


def same(st, a, b, depth=0):
    """a and b denote the same value under the facts: True / False / None"""
    a, b = unbox(a), unbox(b)
    if a is b:
        return True
    if depth > 20:
        return None
    if b.a[0] == "agg" and a.a[0] != "agg":
        a, b = b, a
    if a.a[0] == "agg":
        kind = a.a[1]
        if b.a[0] == "agg":
            if a.a[1] != b.a[1] or a.a[2] != b.a[2]:
                return False
            rs = [same(st, x, y, depth + 1) for x, y in zip(a.a[3], b.a[3])]
        elif isinstance(kind, tuple) and kind[0] == "adt":
            rec = PROG.adts.get(kind[1])
            if rec and rec["kind"] == "enum":
                d = st.value(mk("discr", b))
                want = PROG.variant_discr(kind[1], a.a[2])
                if d is None:
                    r = None
                    rs0 = [None]
                elif d != want:
                    return False
                else:
                    rs0 = []
                rs = rs0 + [same(st, x, mk("vf", b, a.a[2], i), depth + 1) for i, x in enumerate(a.a[3])]
            else:
                rs = [same(st, x, mk("fld", b, i, kind[1]), depth + 1) for i, x in enumerate(a.a[3])]
        elif kind == "array":
            rs = [same(st, x, mk_idx(b, I(i)), depth + 1) for i, x in enumerate(a.a[3])]
        elif kind == "tuple":
            rs = [same(st, x, mk("fld", b, i, "tuple"), depth + 1) for i, x in enumerate(a.a[3])]
        else:
            return None
        if any(r is False for r in rs):
            return False
        if any(r is None for r in rs):
            return None
        return True
    # a one-field wrapper around a scalar (newtypes of integers, bit flags)
    va, vb = st.value(a), st.value(b)
    if va is not None and vb is not None:
        return va == vb
    e = st.value(teq(a, b)) if (a in WIDTH or b in WIDTH or a.a[0] in VALUE_OPS or b.a[0] in VALUE_OPS) else None
    if e is not None:
        return bool(e)
    if low_half(st, a, b) or low_half(st, b, a):
        return True
    if a.a[0] == "vf" and b.a[0] == "vf" and a.a[2:] == b.a[2:]:
        return same(st, a.a[1], b.a[1], depth + 1)
    return False if both_rooted(a, b) else None


def both_rooted(a, b):
    """Two different positions of the written value"""
    def root(t):
        while t.a[0] in ("fld", "vf"):
            t = t.a[1]
        return t
    ra, rb = root(a), root(b)
    return ra.a[0] == "self" and rb.a[0] == "self"
