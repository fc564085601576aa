"""Engine for the ABI serializer and parser: builders and slices are logs of what is
written and read, integers of unbounded size, cells, dictionaries and nested values are
terms; widths are linear expressions over the sizes that occur in the values."""
from bits import *
from cellcore import get, mkadt, same_int, lin, flags_text

V = "tycho_types::abi::value::"
AV, AT = V + "AbiValue", "tycho_types::abi::ty::AbiType"
PT, PV = "tycho_types::abi::ty::PlainAbiType", V + "PlainAbiValue"
HV, HT = V + "AbiHeader", "tycho_types::abi::ty::AbiHeaderType"
NV, NT = V + "NamedAbiValue", "tycho_types::abi::ty::NamedAbiType"
SER = V + "ser::AbiSerializer"
VER = "tycho_types::abi::AbiVersion"
SIZE, STATS = "tycho_types::cell::Size", "tycho_types::cell::CellTreeStats"
FAIL, REQ, EV, BAD = ("G", "fail"), ("G", "req"), ("G", "events"), ("G", "bad")
ZERO, ONE = (0, ()), (1, ())


class Box(Exception):
    pass


def L(v):
    return (v.c, v.t)


def ladd(*xs):
    out = ZERO
    for x in xs:
        out = lin_add(out, 1, x, 1)
    return out


def same(st, a, b):
    d = lin_add(a, 1, b, -1)
    if not d[1]:
        return d[0] == 0
    return st.holds(*d) and st.holds(-d[0], tuple((v, -k) for v, k in d[1]))


def show(x):
    c, t = x
    return " + ".join(["%s%s" % ("" if k == 1 else "%d*" % k, v) for v, k in t] + ([str(c)] if c or not t else []))


class Item:
    """one piece of a written cell: what it is, its bits and references"""

    def __init__(s, kind, what, bits=ZERO, refs=ZERO):
        s.kind, s.what, s.bits, s.refs = kind, what, bits, refs

    def __repr__(s):
        return "%s %s" % (s.kind, s.what)

    def same(s, st, o):
        return s.kind == o.kind and same_what(st, s.what, o.what) and same(st, s.bits, o.bits) and same(st, s.refs, o.refs)


def is_lin(x):
    return isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], tuple) and \
        all(isinstance(y, tuple) and len(y) == 2 and isinstance(y[1], int) for y in x[1])


def same_what(st, a, b):
    if is_lin(a) and is_lin(b):
        return same(st, a, b)
    if isinstance(a, Item) and isinstance(b, Item):
        return a.same(st, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_what(st, x, y) for x, y in zip(a, b))
    return a == b


class Abi:
    def __init__(s, prog, targets, fail=True):
        s.p, s.targets, s.fail = prog, tuple(targets), fail
        s.n = 0
        s.real_ser = False

    # ------------------------------------------------------------- inputs --
    def put(s, st, v, nm="M"):
        s.n += 1
        k = (nm, s.n)
        st.mem[k] = v
        return Ref(k)

    def variant(s, adt, nm, *f):
        a = s.p.adts.get(adt)
        if a is None:
            raise Undecided("type " + adt)
        for i, v in enumerate(a["v"]):
            if v["n"] == nm:
                if len(v["f"]) != len(f):
                    raise Undecided("fields of %s::%s" % (adt, nm))
                return Ag(adt, i, f)
        raise Undecided("no variant %s::%s" % (adt, nm))

    def version(s, major, minor):
        return mkadt(s.p, VER, major=K(major, 8), minor=K(minor, 8))

    def vec(s, items):
        return Arr(K(len(items)), {((), i): x for i, x in enumerate(items)}, None)

    def ser(s, st, ver):
        z = mkadt(s.p, SIZE, bits=K(0, 16), refs=K(0, 8))
        t = mkadt(s.p, STATS, bit_count=K(0), cell_count=K(0))
        return s.put(st, mkadt(s.p, SER, version=ver, current=z, remaining_total=t, stack=Opq("stack", ())), "SER")

    # ------------------------------------------------------------- values --
    def val(s, ip, st, v):
        d = 0
        while isinstance(v, Ref) and d < 8:
            if v.root not in st.mem:
                return v
            v, d = ip.read(st, v.root, v.path), d + 1
        return v

    def place(s, ip, st, v):
        while True:
            x = ip.read(st, v.root, v.path)
            if not isinstance(x, Ref):
                return v
            v = x

    def num(s, ip, st, v):
        v = s.val(ip, st, v)
        x = ip.var_of(st, v)
        return (x.c, x.t)

    def size(s, bits, refs):
        return mkadt(s.p, SIZE, bits=Af(16, False, *bits), refs=Af(8, False, *refs))

    def term(s, ip, st, v):
        v = s.val(ip, st, v)
        if isinstance(v, Opq):
            return (v.name,) + v.args
        if isinstance(v, Sl):
            return ("slice", v.root, v.path, L(v.off), L(v.len))
        if isinstance(v, Ag):
            return (str(v.k).split("::")[-1], v.v or 0) + tuple(s.term(ip, st, x) for x in v.f)
        if isinstance(v, Arr) and not v.n.t:
            return ("list",) + tuple(s.term(ip, st, ip.elem(st, v, K(i))) for i in range(v.n.c))
        if isinstance(v, (Af, Bv)):
            return s.num(ip, st, v)
        raise Undecided("value %s" % (v,))

    def either(s, st, v, what):
        if not s.fail:
            return [(st, Ok(v))]
        t = st.copy()
        t.mem[FAIL] = t.mem.get(FAIL, ()) + (what,)
        return [(st, Ok(v)), (t, Ag(RESULT, 1, (Opq("err", (what,)),)))]

    def bad(s, st, x):
        st.mem[BAD] = st.mem.get(BAD, ()) + (x,)

    def event(s, st, *x):
        st.mem[EV] = st.mem.get(EV, ()) + (x,)

    def var(s, st, nm, lo, hi):
        if nm not in st.vr:
            st.var(nm, lo, hi)
        return (0, ((nm, 1),))

    # sizes of the things that occur
    def enc_size(s, st, vals):
        """bits and references of values written one after another into one cell"""
        b, r = ZERO, ZERO
        for x in vals:
            b = ladd(b, s.var(st, "xb:" + x, 0, 1023))
            r = ladd(r, s.var(st, "xr:" + x, 0, 4))
        return b, r

    # --------------------------------------------------------------- hook --
    def hook(s, ip, st, c, a):
        nm, path = c["nm"], c["path"]
        if path in s.targets and not any(isinstance(s.val(ip, st, x), Opq) and s.val(ip, st, x).name in ("val", "type", "child") for x in a[:2]):
            return None
        if "anyhow" in path or nm in ("from", "into") and "anyhow" in str(c.get("retty")):
            if nm == "not":
                return [(t, K(0 if b else 1, 1)) for t, b in ip.branch(st, a[0])]
            return [(st, Opq("err", ("anyhow",)))]
        if "deref" == nm or nm == "deref_mut" or nm in ("as_ref", "borrow") and a and isinstance(a[0], Ref):
            r = s.deref(ip, st, c, a[0])
            if r is not None:
                return r
        x = s.val(ip, st, a[0]) if a else None
        f = getattr(s, "on_" + x.name, None) if isinstance(x, Opq) else None
        if f is not None:
            r = f(ip, st, c, a, x)
            if r is not None:
                return r
        if isinstance(x, Ag) and isinstance(x.k, str) and hasattr(s, "at_" + x.k.split("::")[-1]):
            r = getattr(s, "at_" + x.k.split("::")[-1])(ip, st, c, a, x)
            if r is not None:
                return r
        g = getattr(s, "fn_" + nm, None)
        if g is not None:
            r = g(ip, st, c, a)
            if r is not None:
                return r
        return None

    def deref(s, ip, st, c, v):
        """containers are what they contain"""
        if not isinstance(v, Ref):
            return None
        x = ip.read(st, v.root, v.path)
        if isinstance(x, Arr):
            if c["retty"][0] == "ref" and c["retty"][2][0] in ("slice", "str"):
                return [(st, Sl(v.root, v.path, K(0), x.n))]
            return [(st, v)]
        if isinstance(x, (Ref, Sl)):
            return [(st, x)]
        if isinstance(x, Opq):
            return [(st, v)]
        return None

    # ---- serializer -----------------------------------------------------------
    def fn_require_builder(s, ip, st, c, a):
        z = s.val(ip, st, a[1])
        b, r = s.num(ip, st, get(s.p, z, "bits")), s.num(ip, st, get(s.p, z, "refs"))
        k = len(st.mem.get(REQ, ()))
        st.mem[REQ] = st.mem.get(REQ, ()) + ((b, r),)
        st.mem[("OUT", k)] = Opq("log", ())
        return [(st, Ref(("OUT", k)))]

    def fn_begin_child(s, ip, st, c, a):
        x = s.val(ip, st, a[0])
        if isinstance(x, Ag) and x.k == SER:
            return [(st, Opq("child", (s.term(ip, st, get(s.p, x, "version")), (), ())))]
        return None

    def on_child(s, ip, st, c, a, v):
        nm = c["nm"]
        ver, res, wr = v.args
        if nm in ("reserve_value", "write_value"):
            if nm == "reserve_value" and wr:
                s.bad(st, "space is reserved after a value is written")
            x = s.val(ip, st, a[1])
            if not (isinstance(x, Opq) and x.name == "val"):
                raise Undecided("nested value %s" % (x,))
            pl = s.place(ip, st, a[0])
            if nm == "reserve_value":
                ip.write(st, pl.root, pl.path, Opq("child", (ver, res + x.args, wr)))
                return [(st, UNIT)]
            ip.write(st, pl.root, pl.path, Opq("child", (ver, res, wr + x.args)))
            return s.either(st, UNIT, "nested value")
        if nm in ("finalize", "take_finalize"):
            if res != wr:
                s.bad(st, "a nested cell is laid out for %s and holds %s" % (list(res), list(wr)))
            if nm == "take_finalize":
                pl = s.place(ip, st, a[0])
                ip.write(st, pl.root, pl.path, Opq("child", (ver, (), ())))
            return s.either(st, Opq("log", (Item("enc", (ver, wr), *s.enc_size(st, wr)),)), "nested cell")
        raise Undecided("AbiSerializer::" + nm)

    # ---- builders ---------------------------------------------------------------
    def on_log(s, ip, st, c, a, v):
        nm = c["nm"]

        def add(*items):
            pl = s.place(ip, st, a[0])
            ip.write(st, pl.root, pl.path, Opq("log", v.args + items))
            return s.either(st, UNIT, nm)
        if nm in ("store_biguint", "store_bigint"):
            sg = s.num(ip, st, a[3])
            return add(Item(nm[6:], (s.term(ip, st, a[1]), sg), s.num(ip, st, a[2])))
        if nm == "store_bit":
            return add(Item("u", s.num(ip, st, a[1]), ONE))
        if nm in ("store_bit_one", "store_bit_zero"):
            return add(Item("u", (int(nm == "store_bit_one"), ()), ONE))
        if nm in ("store_u8", "store_u16", "store_u32", "store_u64"):
            return add(Item("u", s.num(ip, st, a[1]), (int(nm[7:]), ())))
        if nm == "store_small_uint":
            return add(Item("u", s.num(ip, st, a[1]), s.num(ip, st, a[2])))
        if nm == "store_u256":
            return add(Item("raw", s.bytes_of(ip, st, a[1]), (256, ())))
        if nm == "store_raw":
            return add(Item("raw", s.bytes_of(ip, st, a[1]), s.num(ip, st, a[2])))
        if nm == "store_reference":
            return add(Item("ref", s.term(ip, st, a[1]), ZERO, ONE))
        if nm in ("store_builder", "store_slice"):
            x = s.val(ip, st, a[1])
            if isinstance(x, Opq) and x.name in ("log", "slice"):
                return add(*x.args)
            raise Undecided(nm)
        if nm in ("build", "build_ext"):
            return s.either(st, Opq("cell", (("built", v.args),)), nm)
        if nm in ("as_full_slice", "as_data_slice"):
            return [(st, Opq("slice", v.args))]
        if nm == "size_bits":
            return [(st, Af(16, False, *ladd(*[x.bits for x in v.args])))]
        if nm == "size_refs":
            return [(st, Af(8, False, *ladd(*[x.refs for x in v.args])))]
        if nm == "clear_bits":
            pl = s.place(ip, st, a[0])
            ip.write(st, pl.root, pl.path, Opq("log", tuple(x for x in v.args if x.bits == ZERO)))
            return [(st, UNIT)]
        if nm == "clone":
            return [(st, v)]
        if c["path"].endswith("mem::take"):
            pl = s.place(ip, st, a[0])
            ip.write(st, pl.root, pl.path, Opq("log", ()))
            return [(st, v)]
        if c["path"].endswith("mem::replace"):
            return None
        raise Undecided("CellBuilder::" + nm)

    def bytes_of(s, ip, st, v):
        x = v
        while isinstance(x, Ref):
            y = ip.read(st, x.root, x.path)
            if isinstance(y, Arr):
                return (x.root, ZERO)
            x = y
        if isinstance(x, Sl):
            return (x.root, L(x.off))
        if isinstance(x, Opq):
            return ((x.name,) + x.args, ZERO)
        raise Undecided("bytes %s" % (x,))

    def fn_new(s, ip, st, c, a):
        t = str(s.p.tystr(c["retty"] or c["self"] or ("tuple", ()))).split("<")[0].split("::")[-1]
        if t in ("CellBuilder", "CellDataBuilder"):
            return [(st, Opq("log", ()))]
        if t == "AbiSerializer" and not s.real_ser:
            return [(st, Opq("child", (s.term(ip, st, a[0]), (), ())))]
        if t == "RawDict":
            return [(st, Opq("dict", ()))]
        if t == "Box" or t == "Arc":
            return [(st, s.put(st, a[0], "BOX"))]
        if t == "BTreeMap":
            return [(st, Opq("map", ()))]
        if t == "RawIter" and c["path"].split("::")[-2].startswith(("RawIter", "<")):
            return [(st, Opq("entries", (s.term(ip, st, a[0]), s.num(ip, st, a[1]), 0)))]
        if t == "Vec":
            return [(st, Arr(K(0), {}, None))]
        return None

    fn_default = fn_with_capacity = fn_new

    # ---- dictionaries -----------------------------------------------------------
    def stored(s, ip, st, v, ty):
        """what a value stores into a builder: list of (state, items)"""
        r = s.put(st, Opq("log", ()), "TMP")
        while ty and ty[0] == "ref" and isinstance(v, Ref):
            x = ip.read(st, v.root, v.path)
            if isinstance(x, Ref):
                v = x
            ty = ty[2]
        if not isinstance(v, Ref):
            v = s.put(st, v, "TMP")
        x = s.val(ip, st, v)
        if isinstance(x, Opq):
            return [(t, s.val(ip, t, r).args if y.v == 0 else None)
                    for t, y in s.hook(ip, st, {"nm": "store_into", "path": "Store::store_into", "trait": "Store", "body": None}, [v, r, Opq("ctx")])]
        if ty and ty[0] == "dyn" and isinstance(x, Ag):
            for b in s.p.bodies.values():
                if b["nm"] == "store_into" and (b.get("trait") or "").endswith("::Store"):
                    t = s.p.ty(b["self"])
                    if t[0] == "adt" and t[1] == x.k:
                        ty = t
        tr = [t for t in s.p.bodies.values() if t["nm"] == "store_into" and t.get("trait") and t["trait"].endswith("::Store")]
        fi = s.p.find_impl(tr[0]["trait"], ty, (ty,)) if tr else None
        b = s.p.by_impl.get((fi[0]["id"], "store_into")) if fi else None
        if b is None:
            raise Undecided("Store of %s" % (ty,))
        out = []
        for t, x in ip.nested(st, b, [v, r, Opq("ctx")], fi[1]):
            if x == "panic":
                out.append((t, x))
            elif isinstance(x, Ag) and x.k == RESULT:
                out.append((t, s.val(ip, t, r).args if x.v == 0 else None))
            else:
                raise Undecided("result of store_into")
        return out

    def on_dict(s, ip, st, c, a, v):
        nm = c["nm"]
        if nm == "set":
            return s.dict_put(ip, st, a[0], v, s.val(ip, st, a[1]).args, a[2], c["argtys"][2])
        if nm == "store_into":
            pl = s.place(ip, st, a[1])
            x = ip.read(st, pl.root, pl.path)
            ip.write(st, pl.root, pl.path, Opq("log", x.args + (Item("dict", v.args, ONE, ONE if v.args else ZERO),)))
            return s.either(st, UNIT, "store_into")
        if nm == "is_empty":
            return [(st, K(0 if v.args else 1, 1))]
        if nm == "dict_insert":
            return s.fn_dict_insert(ip, st, c, a)
        raise Undecided("RawDict::" + nm)

    def dict_put(s, ip, st, r, v, key, value, ty):
        pl = s.place(ip, st, r)
        out = []
        for t, items in s.stored(ip, st, value, ty):
            if items == "panic":
                out.append((t, items))
                continue
            if items is None:
                t.mem[FAIL] = t.mem.get(FAIL, ()) + ("dict",)
                out.append((t, Ag(RESULT, 1, (Opq("err", ("dict",)),))))
                continue
            ip.write(t, pl.root, pl.path, Opq("dict", v.args + ((key, items),)))
            out.extend(s.either(t, K(1, 1), "dict"))
        return out

    def fn_dict_insert(s, ip, st, c, a):
        v = s.val(ip, st, a[0])
        if isinstance(v, Ag) and v.k == OPTION and v.v == 0:
            v = Opq("dict", ())
        if not (isinstance(v, Opq) and v.name == "dict"):
            raise Undecided("dictionary %s" % (v,))
        k = s.val(ip, st, a[1])
        key = k.args
        if not same(st, s.num(ip, st, a[2]), ladd(*[x.bits for x in key])):
            s.bad(st, "the key length given to the dictionary is not that of the key")
        mode = s.term(ip, st, a[4])
        if mode[1] != 0:
            s.bad(st, "entries are not stored with SetMode::Set")
        ty = getattr(s, "store_ty", None)
        return s.dict_put(ip, st, a[0], v, key, a[3], ty if ty else c["argtys"][3])

    def fn_store_into(s, ip, st, c, a):
        x = s.val(ip, st, a[0])
        if isinstance(x, Ag) and x.k == OPTION and isinstance(s.val(ip, st, a[1]), Opq):
            pl = s.place(ip, st, a[1])
            y = ip.read(st, pl.root, pl.path)
            if x.v == 0:
                it = Item("dict", (), ONE, ZERO)
            else:
                raise Undecided("store of an optional %s" % (x,))
            ip.write(st, pl.root, pl.path, Opq("log", y.args + (it,)))
            return s.either(st, UNIT, "store_into")
        return None

    # ---- addresses, amounts, cells, big integers ------------------------------------
    def sized(s, ip, st, c, a, v, kind, hi):
        nm = c["nm"]
        b = s.var(st, "len:" + v.args[0], 1, hi)
        if nm == "store_into":
            pl = s.place(ip, st, a[1])
            x = ip.read(st, pl.root, pl.path)
            ip.write(st, pl.root, pl.path, Opq("log", x.args + (Item(kind, v.args, b),)))
            return s.either(st, UNIT, "store_into")
        return b

    def on_addr(s, ip, st, c, a, v):
        r = s.sized(ip, st, c, a, v, "addr", s.maxof["addr"])
        if isinstance(r, list):
            return r
        if c["nm"] == "bit_len":
            return [(st, Af(16, False, *r))]
        return None

    def on_tok(s, ip, st, c, a, v):
        if c["nm"] == "store_into" and st.mem.get(("tok", v.args[0])) == "big":
            st.mem[FAIL] = st.mem.get(FAIL, ()) + ("store_into",)
            return [(st, Ag(RESULT, 1, (Opq("err", ("store_into",)),)))]
        r = s.sized(ip, st, c, a, v, "tok", s.maxof["tok"])
        if isinstance(r, list):
            return r
        if c["nm"] == "bit_len":
            k = ("tok", v.args[0])
            out = []
            for w in ([st.mem[k]] if k in st.mem else ["fits", "big"]):
                t = st.copy()
                t.mem[k] = w
                out.append((t, Some(Af(16, False, *r)) if w == "fits" else NONE))
            return out
        return None

    def on_cell(s, ip, st, c, a, v):
        if c["nm"] in ("clone",):
            return [(st, v)]
        if c["nm"] in ("as_ref", "deref"):
            return [(st, a[0])]
        if c["nm"] == "as_slice" or c["nm"] == "as_slice_allow_exotic":
            out = s.either(st, Opq("sub", v.args), "as_slice")
            return out
        if c["nm"] == "store_into":
            pl = s.place(ip, st, a[1])
            y = ip.read(st, pl.root, pl.path)
            ip.write(st, pl.root, pl.path, Opq("log", y.args + (Item("ref", s.term(ip, st, v), ZERO, ONE),)))
            return s.either(st, UNIT, "store_into")
        return None

    def on_big(s, ip, st, c, a, v):
        nm = c["nm"]
        if nm in ("to_bytes_be", "to_signed_bytes_be"):
            k = ("BYTES", nm, v.args)
            w = "%s:%s" % ("ub" if nm == "to_bytes_be" else "sb", v.args[-1])
            n = s.var(st, w, 1, 64)
            if k not in st.mem:
                st.mem[k] = Arr(Af(64, False, *n), {}, lambda key, w=w: int_sym((w, key), 8))
            return [(st, Ref(k))]
        if nm == "bits":
            s.var(st, "ub:" + v.args[-1], 1, 64)
            return s.bits_of(st, v)
        if nm == "sign":
            adt = [k for k, x in s.p.adts.items() if k.endswith("::Sign")]
            if not adt or st.mem.get(("sign",)) is None:
                raise Undecided("the sign")
            return [(st, s.variant(adt[0], st.mem[("sign",)]))]
        if nm == "magnitude":
            return [(st, s.put(st, Opq("big", ("magnitude of",) + v.args)))]
        if nm == "clone":
            return [(st, v)]
        return None

    def bits_of(s, st, v):
        n, b = "ub:" + v.args[-1], "bits:" + v.args[-1]
        if b not in st.vr:
            st.var(b, 0, 512)
            st.add(0, ((n, 8), (b, -1)))
            t = st.copy()
            # nothing but zero has a leading zero byte
            t.add(7, ((b, 1), (n, -8)))
            t.add(-1, ((b, 1),))
            st.add(0, ((b, -1),))
            st.add(1, ((n, -1),))
            return [(t, Af(64, False, 0, ((b, 1),))), (st, K(0))]
        return [(st, Af(64, False, 0, ((b, 1),)))]

    # ---- nested values and types --------------------------------------------------------
    def on_pubkey(s, ip, st, c, a, v):
        if c["nm"] in ("as_bytes", "deref", "as_ref", "clone"):
            return [(st, a[0])]
        return None

    def fn_from_bytes(s, ip, st, c, a):
        x = s.val(ip, st, a[0])
        if isinstance(x, Opq) and x.name == "hash" and "VerifyingKey" in c["path"]:
            return s.either(st, Opq("pubkey", x.args), "public key")
        return None

    def on_val(s, ip, st, c, a, v):
        nm, x = c["nm"], v.args[0]
        if nm in ("compute_exact_size_short",):
            return [(st, s.size(s.var(st, "xb:" + x, 0, 1023), s.var(st, "xr:" + x, 0, 4)))]
        if nm == "compute_max_size_short":
            return [(st, s.size(s.var(st, "mb:" + x, 0, 1023), s.var(st, "mr:" + x, 0, 4)))]
        if nm in ("compute_exact_size_full", "compute_max_size_full", "compute_size_full"):
            q = "m" if nm == "compute_max_size_full" else "x"
            if nm == "compute_size_full":
                q = "f"
            b, r = s.var(st, q + "fb:" + x, 0, 5000), s.var(st, q + "fr:" + x, 0, 500)
            return [(st, mkadt(s.p, STATS, bit_count=Af(64, False, *b), cell_count=Af(64, False, *r)))]
        if nm == "write_value":
            return None
        return None

    def on_type(s, ip, st, c, a, v):
        nm, x = c["nm"], v.args[0]
        if nm == "max_size":
            b, r = s.var(st, "tb:" + x, 0, 5000), s.var(st, "tr:" + x, 0, 500)
            return [(st, mkadt(s.p, STATS, bit_count=Af(64, False, *b), cell_count=Af(64, False, *r)))]
        if nm in ("max_bits", "max_refs"):
            b = s.var(st, "tb:" + x, 0, 5000) if nm == "max_bits" else s.var(st, "tr:" + x, 0, 500)
            return [(st, Af(64, False, *b))]
        if nm == "clone":
            return [(st, v)]
        return None

    def at_AbiSerializer(s, ip, st, c, a, v):
        """values inside the one that is written"""
        if c["nm"] == "write_value" and len(a) > 1:
            x = s.val(ip, st, a[1])
            if isinstance(x, Opq) and x.name == "val":
                k = len(st.mem.get(REQ, ()))
                st.mem[REQ] = st.mem.get(REQ, ()) + (("value", x.args[0]),)
                st.mem[("OUT", k)] = Opq("log", (Item("value", x.args),))
                return s.either(st, UNIT, "value")
        return None

    # ---- vectors and maps -----------------------------------------------------------------
    def fn_len(s, ip, st, c, a):
        x = s.val(ip, st, a[0])
        if isinstance(x, Arr):
            return [(st, x.n)]
        if isinstance(x, Sl):
            return [(st, x.len)]
        if isinstance(x, Ag) and x.k == "btree":
            return [(st, x.f[0].n)]
        return None

    def fn_is_empty(s, ip, st, c, a):
        r = s.fn_len(ip, st, c, a)
        if r is None:
            return None
        n = r[0][1]
        return [(st, ip.compare(st, "Eq", n, Af(n.w, n.sg, 0), n.w, n.sg))]

    def fn_into_iter(s, ip, st, c, a):
        x = s.val(ip, st, a[0])
        if isinstance(x, Ag) and x.k == "btree":
            pl = s.place(ip, st, a[0])
            return [(st, Ag("btiter", 0, (Ref(pl.root, pl.path), 0)))]
        if isinstance(x, Opq) and x.name in ("entries", "values"):
            return [(st, a[0])]
        if isinstance(x, Ag) and x.k in ("btiter", "iter", "enum", "imap", "itake"):
            return [(st, a[0])]
        return None

    fn_iter = fn_into_iter

    def fn_map(s, ip, st, c, a):
        if c["trait"] and c["trait"].endswith("::Iterator"):
            return [(st, Ag("imap", 0, (a[0], a[1], Opq("ty", (c["argtys"][0],)))))]
        return None

    def fn_sum(s, ip, st, c, a):
        rt = c["retty"]
        if rt[0] != "adt":
            return None
        tr = "core::iter::traits::accum::Sum"
        it = c["argtys"][0]
        for b in s.p.bodies.values():
            if b["nm"] == "sum" and b.get("trait") == tr and s.p.tystr(s.p.ty(b["self"])) == s.p.tystr(rt):
                tg = [s.p.tystr(s.p.ty(t)) if isinstance(t, int) else str(t) for t in b.get("targs") or ()]
                if any("&" in t for t in tg):
                    continue
                return [("inline", st, b, {b["gen"][0] if isinstance(b["gen"][0], str) else b["gen"][0]["n"]: it}, [a[0]])]
        return None

    def fn_fold(s, ip, st, c, a):
        work = [(st, s.put(st, a[0], "IT"), a[1])]
        out = []
        while work:
            t, r, acc = work.pop()
            for u, x in s.next(ip, t, r, c["argtys"][0]):
                if x == "panic":
                    out.append((u, x))
                elif x.v == 0:
                    out.append((u, acc))
                else:
                    for w, y in ip.nested_value(u, a[2], [acc, x.f[0]]):
                        if y == "panic":
                            out.append((w, y))
                        else:
                            work.append((w, r, y))
        return out

    def next(s, ip, st, r, ty):
        v = s.val(ip, st, r)
        if isinstance(v, Ag) and v.k in ("btiter", "imap", "itake") or isinstance(v, Opq):
            res = s.fn_next(ip, st, {"nm": "next", "argtys": [ty]}, [r])
            if res is not None:
                return res
        return ip.next_of(st, s.place(ip, st, r), ty)

    def fn_next(s, ip, st, c, a):
        if not isinstance(a[0], Ref):
            return None
        pl = s.place(ip, st, a[0])
        v = ip.read(st, pl.root, pl.path)
        if isinstance(v, Ag) and v.k == "btiter":
            ref, i = v.f
            m = ip.read(st, ref.root, ref.path)
            if i >= m.f[0].n.c:
                return [(st, NONE)]
            ip.write(st, pl.root, pl.path, Ag("btiter", 0, (ref, i + 1)))
            e = ref.path + (0, ("i", K(i)))
            return [(st, Some(Ag("tuple", 0, (Ref(ref.root, e + (0,)), Ref(ref.root, e + (1,))))))]
        if isinstance(v, Ag) and v.k == "imap":
            out = []
            for t, x in s.next(ip, st, Ref(pl.root, pl.path + (0,)), None):
                if x == "panic" or x.v == 0:
                    out.append((t, x))
                    continue
                for u, y in ip.nested_value(t, v.f[1], [x.f[0]]):
                    out.append((u, y if y == "panic" else Some(y)))
            return out
        if isinstance(v, Ag) and v.k == "itake":
            n = v.f[1]
            out = []
            for t, b in ip.branch(st, ip.compare(st, "Lt", K(0), n, 64, False)):
                if not b:
                    out.append((t, NONE))
                    continue
                ip.write(t, pl.root, pl.path + (1,), ip.plus(n, -1))
                out.extend(s.next(ip, t, Ref(pl.root, pl.path + (0,)), None))
            return out
        if isinstance(v, Opq) and v.name in ("entries", "values"):
            return s.entry(ip, st, pl, v)
        return None

    def fn_push(s, ip, st, c, a):
        pl = s.place(ip, st, a[0])
        v = ip.read(st, pl.root, pl.path)
        if not isinstance(v, Arr):
            return None
        d = dict(v.d)
        d[((), v.n.c)] = a[1]
        ip.write(st, pl.root, pl.path, Arr(ip.plus(v.n, 1), d, None))
        return [(st, UNIT)]

    def fn_pop(s, ip, st, c, a):
        pl = s.place(ip, st, a[0])
        v = ip.read(st, pl.root, pl.path)
        if not isinstance(v, Arr) or v.n.t:
            return None
        if v.n.c == 0:
            return [(st, NONE)]
        d = dict(v.d)
        x = d.pop(((), v.n.c - 1))
        ip.write(st, pl.root, pl.path, Arr(ip.plus(v.n, -1), d, None))
        return [(st, Some(x))]

    def fn_unwrap_or_default(s, ip, st, c, a):
        x = a[0]
        if isinstance(x, Ag) and x.k == OPTION and x.v == 0 and "CellBuilder" in s.p.tystr(c["retty"]):
            return [(st, Opq("log", ()))]
        return None

    def fn_last_mut(s, ip, st, c, a):
        pl = a[0] if isinstance(a[0], Sl) else s.place(ip, st, a[0])
        v = ip.read(st, pl.root, pl.path)
        if not isinstance(v, Arr) or v.n.t:
            return None
        return [(st, Some(Ref(pl.root, pl.path + (("i", K(v.n.c - 1)),))) if v.n.c else NONE)]

    fn_last = fn_last_mut

    def fn_take(s, ip, st, c, a):
        if c["trait"] and c["trait"].endswith("::Iterator"):
            return [(st, Ag("itake", 0, (a[0], ip.var_of(st, a[1]))))]
        return None

    def fn_get(s, ip, st, c, a):
        if "NonZero" in c["path"] or "nonzero" in c["path"]:
            return [(st, s.val(ip, st, a[0]))]
        return None

    def fn_clone(s, ip, st, c, a):
        return [(st, s.val(ip, st, a[0]))] if isinstance(a[0], Ref) and isinstance(s.val(ip, st, a[0]), (Opq, Arr)) else None

    def order(s, ip, st, c, a):
        """comparison operators of the crate's own ordered types"""
        if not (c["trait"] or "").endswith("::PartialOrd") or c["body"] is not None or len(a) != 2:
            return None
        ty = c["argtys"][0]
        while ty and ty[0] == "ref":
            ty = ty[2]
        if not ty or ty[0] != "adt":
            return None
        fi = s.p.find_impl("core::cmp::PartialOrd", ty, (ty, ty))
        b = s.p.by_impl.get((fi[0]["id"], "partial_cmp")) if fi else None
        if b is None:
            return None
        out = []
        for t, x in ip.nested(st, b, [s.place(ip, st, a[0]), s.place(ip, st, a[1])], fi[1]):
            if x == "panic" or not isinstance(x, Ag) or x.v == 0:
                raise Undecided("partial_cmp")
            o = x.f[0].v - 1
            out.append((t, K(int({"lt": o < 0, "le": o <= 0, "gt": o > 0, "ge": o >= 0}[c["nm"]]), 1)))
        return out

    fn_ge = fn_gt = fn_le = fn_lt = order

    def fn_empty_context(s, ip, st, c, a):
        return [(st, Opq("ctx"))]

    def fn_as_deref(s, ip, st, c, a):
        x = s.val(ip, st, a[0])
        if isinstance(x, Ag) and x.k == OPTION:
            return [(st, NONE if x.v == 0 else Some(x.f[0]))]
        return None

    def fn_as_bytes(s, ip, st, c, a):
        x = s.val(ip, st, a[0])
        if isinstance(x, Opq):
            return [(st, a[0])]
        pl = s.place(ip, st, a[0])
        if isinstance(x, Arr):
            return [(st, Sl(pl.root, pl.path, K(0), x.n))]
        return None


class Reader(Abi):
    """reads are events, in order; every one may fail"""
    rounds = 2

    def rd(s, *name):
        return Opq("rd", name)

    def got(s, st, kind, *x):
        """a new event -> its name"""
        k = len(st.mem.get(EV, ()))
        st.mem[EV] = st.mem.get(EV, ()) + ((kind,) + x,)
        return "r%d" % k

    def ev(s, st, v, kind, *x):
        e = s.either(st, UNIT, kind)
        n = s.got(e[0][0], kind, *x)
        return e[0][0], n, [(t, y) for t, y in e[1:]]

    def on_rd(s, ip, st, c, a, v):
        nm = c["nm"]
        src = v.args
        if nm == "load_bit":
            t, n, bad = s.ev(st, v, "u", ONE, src)
            t.var(n, 0, 1)
            return [(t, Ok(Af(1, False, 0, ((n, 1),))))] + bad
        if nm in ("load_u8", "load_u16", "load_u32", "load_u64"):
            w = int(nm[6:])
            t, n, bad = s.ev(st, v, "u", (w, ()), src)
            t.var(n, 0, (1 << w) - 1)
            return [(t, Ok(Af(w, False, 0, ((n, 1),))))] + bad
        if nm == "load_small_uint":
            w = s.num(ip, st, a[1])
            t, n, bad = s.ev(st, v, "u", w, src)
            t.var(n, 0, (1 << w[0]) - 1 if not w[1] else 255)
            return [(t, Ok(Af(8, False, 0, ((n, 1),))))] + bad
        if nm == "load_uint":
            w = s.num(ip, st, a[1])
            t, n, bad = s.ev(st, v, "u", w, src)
            if w[1]:
                t.var(n, 0, (1 << 64) - 1)
                return [(t, Ok(Af(64, False, 0, ((n, 1),))))] + bad
            return [(t, Ok(Bv(64, False, [sym((n,), i) if i < w[0] else 0 for i in range(64)])))] + bad
        if nm == "load_u256":
            t, n, bad = s.ev(st, v, "u", (256, ()), src)
            return [(t, Ok(Opq("hash", (n,))))] + bad
        if nm == "load_raw":
            w = s.num(ip, st, a[2])
            t, n, bad = s.ev(st, v, "raw", w, src)
            pl = s.place(ip, t, a[1]) if isinstance(a[1], Ref) else a[1]
            old = ip.read(t, pl.root, pl.path)
            if not (isinstance(old, Opq) and old.name == "buf"):
                raise Undecided("load_raw into %s" % (old,))
            ip.write(t, pl.root, pl.path, Opq("buf", ((n, old.args[1], 0))))
            return [(t, Ok(a[1]))] + bad
        if nm == "skip_first":
            if s.num(ip, st, a[2]) != ZERO:
                raise Undecided("references skipped")
            t, n, bad = s.ev(st, v, "skip", s.num(ip, st, a[1]), src)
            return [(t, Ok(UNIT))] + bad
        if nm == "preload_bits":
            return None
        if nm in ("is_data_empty", "is_refs_empty"):
            k = (nm, src, len(st.mem.get(EV, ())))
            out = []
            for b in (1, 0):
                t = st.copy()
                t.mem[k] = b
                out.append((t, K(b, 1)))
            return out
        if nm == "load_from":
            ty = s.p.tystr(c["retty"])
            for k, q in (("IntAddr", "addr"), ("Tokens", "tok"), ("RawDict", "dictr"), ("Option", "dictr")):
                if ty.split("<", 1)[1].startswith(k) or "::%s" % k in ty.split(",")[0]:
                    t, n, bad = s.ev(st, v, "load", k if q != "dictr" else "dict", src)
                    return [(t, Ok(Opq(q, (n,))))] + bad
            raise Undecided("load of " + ty)
        if "CellSlice" in c["path"]:
            raise Undecided("CellSlice::" + nm)
        return None

    def on_buf(s, ip, st, c, a, v):
        nm = c["nm"]
        if nm == "reverse":
            pl = s.place(ip, st, a[0])
            ip.write(st, pl.root, pl.path, Opq("buf", v.args[:2] + (1 - v.args[2],)))
            return [(st, UNIT)]
        if nm in ("from_bytes_le", "from_signed_bytes_le", "from_bytes_be", "from_signed_bytes_be"):
            be = ("be" in nm.split("_")[-1]) != bool(v.args[2])
            return [(st, Opq("big", ("int", v.args[0], v.args[1], int("signed" in nm), int(be), ZERO)))]
        if nm in ("deref", "deref_mut", "as_slice", "as_mut_slice", "as_ref", "as_mut"):
            return [(st, a[0])]
        return None

    def on_big(s, ip, st, c, a, v):
        if c["nm"] == "shr_assign":
            pl = s.place(ip, st, a[0])
            ip.write(st, pl.root, pl.path, Opq("big", v.args[:-1] + (ladd(v.args[-1], s.num(ip, st, a[1])),)))
            return [(st, UNIT)]
        if c["nm"] == "shr":
            return [(st, Opq("big", v.args[:-1] + (ladd(v.args[-1], s.num(ip, st, a[1])),)))]
        return None

    def on_hash(s, ip, st, c, a, v):
        return [(st, a[0])] if c["nm"] in ("as_array", "as_slice", "as_ref", "deref") else None

    def fn_from_elem(s, ip, st, c, a):
        return [(st, Opq("buf", (None, s.num(ip, st, a[1]), 0)))]

    def fn_from(s, ip, st, c, a):
        t = s.p.tystr(c["retty"] or c["self"] or ("tuple", ())).split("::")[-1]
        if t in ("BigUint", "BigInt") and isinstance(a[0], (Af, Bv)):
            return [(st, Opq("big", ("word", t, a[0])))]
        if a and isinstance(a[0], Opq) and a[0].name in ("err", "acc"):
            return [(st, a[0])]
        return None

    def fn_into(s, ip, st, c, a):
        if a and isinstance(a[0], Opq):
            return [(st, a[0])]
        return None

    def fn_default(s, ip, st, c, a):
        t = s.p.tystr(c["retty"]).split("::")[-1]
        if t in ("BigUint", "BigInt"):
            return [(st, Opq("big", ("word", t, K(0))))]
        return Abi.fn_new(s, ip, st, c, a)

    def fn_preload_bits(s, ip, st, c, a):
        x = s.val(ip, st, a[1])
        if not (isinstance(x, Opq) and x.name == "rd"):
            return None
        t, n, bad = s.ev(st, x, "pre", s.num(ip, st, a[0]), x.args)
        return [(t, Ok(UNIT))] + bad

    def fn_load_cell(s, ip, st, c, a):
        if not c["path"].endswith("de::load_cell"):
            return None
        x = s.val(ip, st, a[2])
        t, n, bad = s.ev(st, x, "cell", s.term(ip, st, a[0]), s.num(ip, st, a[1]), x.args)
        return [(t, Ok(Opq("cell", (n,))))] + bad

    def on_cell(s, ip, st, c, a, v):
        if c["nm"] in ("as_slice",):
            return s.either(st, Opq("rd", ("in",) + v.args), "as_slice")
        return Abi.on_cell(s, ip, st, c, a, v)

    def fn_load_ext(s, ip, st, c, a):
        x = s.val(ip, st, a[0])
        if not (isinstance(x, Opq) and x.name == "type"):
            return None
        sl = s.val(ip, st, a[4])
        t, n, bad = s.ev(st, x, "val", x.args[0], s.term(ip, st, a[1]), s.num(ip, st, a[2]), s.num(ip, st, a[3]), sl.args)
        return [(t, Ok(Opq("val", (n,))))] + bad

    on_type_base = Abi.on_type

    def on_type(s, ip, st, c, a, v):
        if c["nm"] == "load_ext":
            return s.fn_load_ext(ip, st, c, a)
        return Abi.on_type(s, ip, st, c, a, v)

    def fn_check_remaining(s, ip, st, c, a):
        x = s.val(ip, st, a[0])
        if not (isinstance(x, Opq) and x.name == "rd"):
            return None
        t, n, bad = s.ev(st, x, "end", s.num(ip, st, a[1]), x.args)
        return [(t, Ok(UNIT))] + bad

    def on_dictr(s, ip, st, c, a, v):
        if c["nm"] == "values":
            return [(st, Opq("values", v.args + (0,)))]
        if c["nm"] == "new":
            return [(st, Opq("entries", v.args + (s.num(ip, st, a[1]), 0)))]
        if c["nm"] in ("deref", "as_ref"):
            return [(st, a[0])]
        return None

    def entry(s, ip, st, pl, v):
        """next entry of a dictionary that is read: none, a failure, or an entry"""
        i = v.args[-1]
        if i == "end":
            return [(st, NONE)]
        done = st.copy()
        done.mem[("entries", v.args[0])] = i
        ip.write(done, pl.root, pl.path, Opq(v.name, v.args[:-1] + ("end",)))
        out = [(done, NONE)]
        if i >= s.rounds:
            return out
        bad = st.copy()
        bad.mem[FAIL] = bad.mem.get(FAIL, ()) + ("entry",)
        ip.write(bad, pl.root, pl.path, Opq(v.name, v.args[:-1] + ("end",)))
        out.append((bad, Some(Ag(RESULT, 1, (Opq("err", ("entry",)),)))))
        ip.write(st, pl.root, pl.path, Opq(v.name, v.args[:-1] + (i + 1,)))
        sl = Opq("rd", ("entry", v.args[0], i))
        out.append((st, Some(Ok(sl if v.name == "values" else Ag("tuple", 0, (Opq("keyb", (v.args[0], i)), sl))))))
        return out

    def on_keyb(s, ip, st, c, a, v):
        if c["nm"] == "as_data_slice":
            return [(st, Opq("rd", ("key",) + v.args))]
        return None

    def on_map(s, ip, st, c, a, v):
        if c["nm"] == "insert":
            pl = s.place(ip, st, a[0])
            ip.write(st, pl.root, pl.path, Opq("map", v.args + ((s.term(ip, st, a[1]), s.term(ip, st, a[2])),)))
            return [(st, NONE)]
        return None

    def fn_load(s, ip, st, c, a):
        if "PlainAbiValue" in c["path"] and len(a) == 2:
            x = s.val(ip, st, a[1])
            t, n, bad = s.ev(st, x, "plain", s.term(ip, st, a[0]), x.args)
            return [(t, Ok(Opq("pval", (n,))))] + bad
        return None

    def fn_load_bytes_raw(s, ip, st, c, a):
        if c["path"].endswith("de::load_bytes_raw"):
            x = s.val(ip, st, a[2])
            t, n, bad = s.ev(st, x, "bytes", s.term(ip, st, a[0]), s.num(ip, st, a[1]), x.args)
            return [(t, Ok(Opq("acc", (n,))))] + bad
        return None

    def on_acc(s, ip, st, c, a, v):
        if c["nm"] == "len":
            n = s.var(st, "blen:" + v.args[0], 0, 1 << 30)
            return [(st, Af(64, False, *n))]
        if c["nm"] == "from_utf8":
            t = st.copy()
            t.mem[FAIL] = t.mem.get(FAIL, ()) + ("utf8",)
            return [(st, Ok(v)), (t, Ag(RESULT, 1, (Opq("err", ("utf8",)),)))]
        return None

    def on_err(s, ip, st, c, a, v):
        return [(st, v)] if c["nm"] in ("utf8_error", "from", "into", "anyhow_kind", "new") else None


class Cells(Abi):
    """slices of cells with a number of unread bits and references, cells with their children"""

    def cut(s, *name):
        return Opq("sl", (name, 0))

    def left(s, st, v):
        name, used = v.args
        nm = "/".join(str(x) for x in name)
        if "refs:" + nm not in st.vr:
            st.var("bits:" + nm, 0, 1023)
            st.var("refs:" + nm, 0, 4)
            st.var("cellrefs:" + nm, 0, 4)
            st.add(0, (("cellrefs:" + nm, 1), ("refs:" + nm, -1)))
        return (0, (("bits:" + nm, 1),)), (-used, (("refs:" + nm, 1),))

    def on_sl(s, ip, st, c, a, v):
        nm = c["nm"]
        name, used = v.args
        b, r = s.left(st, v)
        if nm == "size_bits":
            return [(st, Af(16, False, *b))]
        if nm == "size_refs":
            return [(st, Af(8, False, *r))]
        if nm in ("is_refs_empty", "is_data_empty"):
            x = r if nm == "is_refs_empty" else b
            return [(t, K(int(y), 1)) for t, y in ip.branch(st, ip.compare(st, "Eq", Af(16, False, *x), K(0, 16), 16, False))]
        if nm in ("load_reference_as_slice", "load_reference_cloned", "load_reference"):
            out = []
            for t, y in ip.branch(st, ip.compare(st, "Eq", Af(8, False, *r), K(0, 8), 8, False)):
                if y:
                    t.mem[("short",)] = name
                    out.append((t, Ag(RESULT, 1, (Opq("err", ("CellUnderflow",)),))))
                    continue
                pl = s.place(ip, t, a[0])
                ip.write(t, pl.root, pl.path, Opq("sl", (name, used + 1)))
                kid = name + (used,)
                if nm == "load_reference_as_slice":
                    out += s.either(t, Opq("sl", (kid, 0)), nm)
                else:
                    out.append((t, Ok(Opq("kid", kid))))
            return out
        if nm == "cell":
            return [(st, Opq("of", name))]
        raise Undecided("CellSlice::" + nm)

    def on_of(s, ip, st, c, a, v):
        if c["nm"] == "reference_count":
            return [(st, Af(8, False, 0, (("cellrefs:" + "/".join(str(x) for x in v.args), 1),)))]
        return None

    def on_link(s, ip, st, c, a, v):
        """a chain of cells, each with whole bytes or not"""
        nm, i = c["nm"], v.args[0]
        if nm in ("as_ref", "deref"):
            return [(st, a[0] if isinstance(a[0], Ref) else v)]
        if nm == "bit_len":
            out = []
            for r in ([st.mem[("rem", i)]] if ("rem", i) in st.mem else range(8)):
                t = st.copy()
                t.mem[("rem", i)] = r
                t.mem[("q", i)] = True
                s.var(t, "bytes:%d" % i, 0, 127)
                out.append((t, Af(16, False, r, (("bytes:%d" % i, 8),))))
            return out
        if nm == "data":
            return [(st, Opq("chunk", (i,)))]
        if nm == "reference":
            if s.num(ip, st, a[1]) != ZERO:
                raise Undecided("another child")
            out = []
            for more in (0, 1) if i < s.chain else (0,):
                t = st.copy()
                t.mem[("next", i)] = more
                out.append((t, Some(s.put(t, Opq("link", (i + 1,)))) if more else NONE))
            return out
        return None

    def on_acc(s, ip, st, c, a, v):
        if c["nm"] in ("extend_from_slice", "extend", "append"):
            x = s.val(ip, st, a[1])
            if not (isinstance(x, Opq) and x.name == "chunk"):
                raise Undecided("bytes of %s" % (x,))
            pl = s.place(ip, st, a[0])
            ip.write(st, pl.root, pl.path, Opq("acc", v.args + x.args))
            return [(st, UNIT)]
        return None

    def on_err(s, ip, st, c, a, v):
        return [(st, v)] if c["nm"] in ("from", "into", "anyhow_kind", "new") else None

    def fn_new(s, ip, st, c, a):
        if str(s.p.tystr(c["retty"] or c["self"] or ("tuple", ()))).split("<")[0].split("::")[-1] == "Vec":
            return [(st, Opq("acc", ()))]
        return Abi.fn_new(s, ip, st, c, a)

    fn_with_capacity = fn_default = fn_new

    def fn_load_cell(s, ip, st, c, a):
        if c["path"].endswith("de::load_cell") and getattr(s, "chain", None) is not None:
            return s.either(st, Opq("link", (0,)), "cell")
        return None
