"""C05: writing into a cell builder"""
from cellcore import *
from par import pmap


def jobs(tier):
    js = []
    for r in range(8):
        js.append(("store_bit_zero", r, None, 1, None))
        js.append(("store_bit_one", r, None, 1, None))
        for v in (0, 1):
            js.append(("store_bit", r, None, 1, v))
        for nm, w in (("store_u8", 8), ("store_u16", 16), ("store_u32", 32), ("store_u64", 64), ("store_u128", 128), ("store_u256", 256)):
            js.append((nm, r, None, w, None))
        for n in list(range(0, 20)) + [64, 700, 1016, 1023]:
            js.append(("store_small_uint", r, None, n, None))
        for n in list(range(0, 68)) + [72, 100, 128, 900, 1023]:
            js.append(("store_uint", r, None, n, None))
        for n in (0, 1, 7, 8, 9, 300, 1016, 1020, 1023):
            js.append(("store_zeros", r, None, n, None))
        for n in list(range(0, 34)) + [63, 64, 65, 255, 256, 264]:
            js.append(("store_raw", r, None, n, -(-n // 8)))
            js.append(("store_raw", r, None, n, "V"))
        for n in (8, 9, 20):
            for ln in (0, 1, 2):
                js.append(("store_raw", r, None, n, ln))
        for n in list(range(0, 20)):
            js.append(("rewind_bits", r, None, n, None))
    return js


_p = None


def one(j):
    nm, r, q, n, x = j
    p = _p
    ip = Interp(p)
    b = p.method("CellDataBuilder", nm)
    if len(b) != 1:
        return j, [("anchor", "CellDataBuilder::%s is not there" % nm)], 0
    b = b[0]
    sub = None
    prep = None
    exp = None
    if nm in ("store_bit_zero", "store_bit_one", "store_bit"):
        v = {"store_bit_zero": 0, "store_bit_one": 1}.get(nm, x)
        args = [] if nm != "store_bit" else [K(x, 1)]
        exp = lambda s: [v]
    elif nm in ("store_u8", "store_u16", "store_u32", "store_u64", "store_u128"):
        args = [int_sym("v", n)]
        exp = lambda s: bits_msb("v", n, n)
    elif nm == "store_u256":
        sub = {b["gen"][0]: ("array", ("int", 8, False), 32)}
        hb = Arr(K(32), {}, content("v", ()))
        def prep(st):
            st.mem[("V",)] = hb
            return [Ref(("V",))]
        exp = lambda s: [dbit("v", i // 8, i % 8) for i in range(256)]
        args = []
    elif nm in ("store_small_uint", "store_uint"):
        w = 8 if nm == "store_small_uint" else 64
        args = [int_sym("v", w), K(n, 16)]
        exp = lambda s: bits_msb("v", w, n)
    elif nm == "store_zeros":
        args = [K(n, 16)]
        exp = lambda s: [0] * n
    elif nm == "store_raw":
        def prep(st):
            if x == "V":
                st.var("V", -(-n // 8), 1 << 40)
                ln = Af(64, False, 0, (("V", 1),))
            else:
                ln = K(x)
            st.mem[("V",)] = Arr(ln, {}, content("v", ()))
            return [Sl(("V",), (), K(0), ln), K(n, 16)]
        pad = 0 if x == "V" else max(0, n - 8 * x)
        exp = lambda s: [0] * pad + [dbit("v", i // 8, i % 8) for i in range(n - pad)]
        args = []
    elif nm == "rewind_bits":
        return j, rewind(ip, b, r, n), 1
    pr, k, _ = run_store(ip, b, r, q, args, n, exp, sub, None, prep)
    return j, pr, k


def rewind(ip, body, r, n):
    """bit_len = 8Q + r; the new length is 8Q + r - n"""
    p = ip.p
    st = ip.state()
    st.var("Q", 0, (MAX - r) // 8)
    terms = (("Q", 1),)
    b = mkadt(p, CDB, data=Arr(K(128), {}, content("d", terms, r)), bit_len=Af(16, False, r, (("Q", 8),)))
    st.mem[("B",)] = b
    out = []
    for t in ip.run(st, body, [Ref(("B",)), K(n, 16)]):
        s = t.st
        fl = flags_text(s)
        if fl:
            out.append(("arith", fl + show_range(s)))
        if t.kind == "panic":
            out.append(("panic", str(t.why)))
            continue
        after = s.mem[("B",)]
        bl, data = get(p, after, "bit_len"), get(p, after, "data")
        if t.val.v == 0:
            if not s.holds(r - n, (("Q", 8),)):
                out.append(("capacity", "succeeds below zero"))
                continue
            if not same_int(s, bl, r - n, (("Q", 8),)):
                out.append(("length", "the length becomes %r" % bl))
            f = lambda c: [dbit("d", c, i) if 8 * c + i < r - n else 0 for i in range(8)]
            e = check_arr(ip, s, data, terms, f, -(n // 8) - 3, 2)
            if e:
                out.append(("content", e + show_range(s)))
        else:
            if s.possible(r - n, (("Q", 8),)):
                out.append(("refuses", "fails"))
            if not same_int(s, bl, r, (("Q", 8),)) or data.d:
                out.append(("atomic", "changes"))
    return out


AV = "tycho_types::util::ArrayVec"


def cell_builder(ip, st, r, q, name="B", n=None):
    """A symbolic CellBuilder: data as in builder(), R references (or exactly n)"""
    p = ip.p
    if q is None:
        inner, terms = builder(ip, st, r, None)
    else:
        inner, terms = builder(ip, st, r, q)
    if n is None:
        st.var("R", 0, 4)
        ln = Af(8, False, 0, (("R", 1),))
    else:
        ln = K(n, 8)
    refs = mkadt(p, AV, inner=Arr(K(4), {}, lambda key: Opq("ref", (name, key)), "words"), len=ln)
    return mkadt(p, CB, inner=inner, is_exotic=K(0, 1), references=refs), terms, refs


def refs_of(ip, v):
    a = get(ip.p, v, "references")
    return get(ip.p, a, "inner"), get(ip.p, a, "len")


def do_ref(p, who):
    ip = Interp(p)
    b = p.method(who, "store_reference")
    if len(b) != 1:
        return [("anchor", "%s::store_reference is not there" % who)], 0
    st = ip.state()
    cb, terms, refs = cell_builder(ip, st, 3, None)
    v = cb if who == "CellBuilder" else Ag("tycho_types::cell::builder::CellRefsBuilder", 0, (refs,))
    st.mem[("B",)] = v
    out = []
    new = Opq("new", ())
    tr = ip.run(st, b[0], [Ref(("B",)), new])
    for t in tr:
        s = t.st
        fl = flags_text(s)
        if fl:
            out.append(("arith", fl))
        if t.kind == "panic":
            out.append(("panic", str(t.why[0])))
            continue
        after = s.mem[("B",)]
        av = get(p, after, "references") if who == "CellBuilder" else after.f[0]
        arr, ln = get(p, av, "inner"), get(p, av, "len")
        room = (3, (("R", -1),))
        if t.val.v == 0:
            if not s.holds(*room):
                out.append(("capacity", "accepts a fifth reference"))
            if not same_int(s, ln, 1, (("R", 1),)):
                out.append(("length", "the number of references becomes %r" % ln))
            k = [(key, x) for key, x in arr.d.items()]
            if len(k) != 1 or not same_int(s, Af(64, False, k[0][0][1], k[0][0][0]), 0, (("R", 1),)) or not is_new(k[0][1], new):
                out.append(("content", "the new reference is not stored after the others: %r" % (k,)))
        else:
            if s.possible(*room):
                out.append(("refuses", "refuses a reference although there is room"))
            if not same_int(s, ln, 0, (("R", 1),)) or arr.d:
                out.append(("atomic", "changes the references on failure"))
        if who == "CellBuilder":
            d = get(p, get(p, after, "inner"), "bit_len")
            if not same_int(s, d, 3, (("Q", 8),)):
                out.append(("content", "the data length changes"))
    if not any(t.kind == "ret" and t.val.v == 0 for t in tr):
        out.append(("vacuous", "never succeeds"))
    return out, len(tr)


def is_new(v, new):
    while isinstance(v, Ag) and len(v.f) == 1:
        v = v.f[0]
    return isinstance(v, Opq) and v.name == new.name and v.args == new.args


def clone_hook(ip, st, c, args):
    if c["nm"] in ("clone", "cloned") and len(args) == 1:
        v = args[0]
        while isinstance(v, Ref):
            v = ip.read(st, v.root, v.path)
        if isinstance(v, Opq) and v.name in ("ref", "child", "new"):
            return [(st, v)]
    return None


def do_join(p, f, r, n, o, m):
    """store_builder / store_slice / store_slice_data / store_cell_data: n data
    bits (at offset o of their cell) and m references"""
    ip = Interp(p, [clone_hook, cell_hook])
    who = "CellBuilder" if f in ("store_builder", "store_slice") else "CellDataBuilder"
    b = p.method(who, f)
    if len(b) != 1:
        return [("anchor", "%s::%s is not there" % (who, f))], 0
    b = b[0]
    st = ip.state()
    cb, terms, refs = cell_builder(ip, st, r, None)
    if who == "CellDataBuilder":
        cb = get(p, cb, "inner")
    st.mem[("B",)] = cb
    sub = {}
    bits = [in_name("a", o, k) for k in range(n)]
    if f == "store_builder":
        inner = mkadt(p, CDB, data=Arr(K(128), {}, content("a", (), n)), bit_len=K(n, 16))
        st.mem[("V",)] = mkadt(p, CB, inner=inner, is_exotic=K(0, 1),
                               references=mkadt(p, AV, inner=Arr(K(4), {}, lambda key: Opq("child", ("a", key)), "words"), len=K(m, 8)))
        arg = Ref(("V",))
        first = K(0)
    elif f == "store_cell_data":
        arg = cell_obj(ip, st, "a", n)
        st.mem[data_root("a")] = Arr(Af(64, False, 0, (("La", 1),)), {}, content("a", ()))
        sub = {g: ("adt", DYN, ()) for g in b["gen"]}
        first = K(0)
    else:
        sl, start, end, _ = slice_of(ip, st, "a", o, None, n)
        rng = get(p, sl, "range")
        st.add(m, (("Sa", 1), ("Ta", -1)))
        st.add(-m, (("Sa", -1), ("Ta", 1)))
        rng = mkadt(p, CSR, bits_start=get(p, rng, "bits_start"), bits_end=get(p, rng, "bits_end"),
                    refs_start=Af(8, False, 0, (("Sa", 1),)), refs_end=Af(8, False, m, (("Sa", 1),)))
        sl = mkadt(p, CS, cell=get(p, sl, "cell"), range=rng)
        st.mem[("V",)] = sl
        arg = Ref(("V",))
        sub = {g: ("ref", False, ("adt", CS, ())) for g in b["gen"]}
        first = Af(8, False, 0, (("Sa", 1),))
    out = []
    tr = ip.run(st, b, [Ref(("B",)), arg], sub)
    room = (MAX - r - n, (("Q", -8),))
    rroom = (4 - m, (("R", -1),))
    oks = 0
    for t in tr:
        s = t.st
        fl = flags_text(s)
        if fl:
            out.append(("arith", fl))
        if t.kind == "panic":
            out.append(("panic", str(t.why[0])))
            continue
        after = s.mem[("B",)]
        inner = after if who == "CellDataBuilder" else get(p, after, "inner")
        bl, data = get(p, inner, "bit_len"), get(p, inner, "data")
        if t.val.v == 0:
            oks += 1
            if not s.holds(*room) or who == "CellBuilder" and not s.holds(*rroom):
                out.append(("capacity", "succeeds without room (%s)" % show_range(s)))
                continue
            if not same_int(s, bl, r + n, (("Q", 8),)):
                out.append(("length", "the length becomes %r" % bl))
            e = check_arr(ip, s, data, terms, expect_store(r, None, bits), -1, (r + n) // 8 + 1)
            if e:
                out.append(("content", e))
            if who == "CellBuilder":
                arr, ln = refs_of(ip, after)
                if not same_int(s, ln, m, (("R", 1),)):
                    out.append(("refs", "the number of references becomes %r" % ln))
                got = {}
                for key, x in arr.d.items():
                    i = [z for z in range(m) if same_int(s, Af(64, False, key[1], key[0]), z, (("R", 1),))]
                    i = i[0] if i else None
                    while isinstance(x, Ag):
                        x = x.f[0]
                    got[i] = x
                for i in range(m):
                    x = got.pop(i, None)
                    if not (isinstance(x, Opq) and x.name == "child" and same_int(s, Af(64, False, first.c + i, first.t), x.args[1][1], x.args[1][0])):
                        out.append(("refs", "reference %d becomes %r" % (i, x)))
                if got:
                    out.append(("refs", "other references are overwritten"))
        else:
            c = [room] + ([rroom] if who == "CellBuilder" else [])
            if feasible(s.all_cons() + c):
                out.append(("refuses", "fails although there is room (%s)" % show_range(s)))
            if not same_int(s, bl, r, (("Q", 8),)):
                out.append(("atomic", "fails after changing the length"))
            e = check_arr(ip, s, data, terms, expect_store(r, None, []), -1, 1)
            if e:
                out.append(("atomic", "fails after changing the data: " + e))
            if who == "CellBuilder":
                arr, ln = refs_of(ip, after)
                if arr.d or not same_int(s, ln, 0, (("R", 1),)):
                    out.append(("atomic", "fails after changing the references"))
    if not oks and max(r, o) + n <= MAX:
        out.append(("vacuous", "never succeeds"))
    return out, len(tr)


def do_prepend(p, r, q, n, x):
    ip = Interp(p)
    b = p.method("CellDataBuilder", "prepend_raw")
    if len(b) != 1:
        return [("anchor", "prepend_raw is not there")], 0
    st = ip.state()
    d, _ = builder(ip, st, r, q)
    st.mem[("B",)] = d
    have = 8 * q + r
    if x == "V":
        st.var("V", -(-n // 8), 1 << 40)
        ln = Af(64, False, 0, (("V", 1),))
    else:
        ln = K(x)
    st.mem[("V",)] = Arr(ln, {}, content("v", ()))
    pad = 0 if x == "V" else max(0, n - 8 * x)
    bits = [0] * pad + [dbit("v", i // 8, i % 8) for i in range(n - pad)] + [dbit("d", i // 8, i % 8) for i in range(have)]
    out = []
    tr = ip.run(st, b[0], [Ref(("B",)), Sl(("V",), (), K(0), ln), K(n, 16)])
    for t in tr:
        s = t.st
        fl = flags_text(s)
        if fl:
            out.append(("arith", fl))
        if t.kind == "panic":
            out.append(("panic", str(t.why[0])))
            continue
        after = s.mem[("B",)]
        bl, data = get(p, after, "bit_len"), get(p, after, "data")
        ok = t.val.v == 0
        if ok != (n + have <= MAX):
            out.append(("capacity", "%s with %d + %d bits" % ("succeeds" if ok else "fails", n, have)))
            continue
        want = bits if ok else bits[n:]
        if not same_int(s, bl, len(want), ()):
            out.append(("length", "the length becomes %r" % bl))
        exp = want + [0] * (1024 - len(want))
        e = check_arr(ip, s, data, (), lambda c: exp[8 * c:8 * c + 8], 0, 127)
        if e:
            out.append(("content", e))
    return out, len(tr)


def do_from_raw(p, who, n, x):
    ip = Interp(p)
    b = p.method(who, "from_raw_data")
    if len(b) != 1:
        return [("anchor", "%s::from_raw_data is not there" % who)], 0
    st = ip.state()
    st.mem[("V",)] = Arr(K(x), {}, content("v", ()))
    pad = max(0, n - 8 * x)
    bits = [0] * pad + [dbit("v", i // 8, i % 8) for i in range(n - pad)]
    out = []
    tr = ip.run(st, b[0], [Sl(("V",), (), K(0), K(x)), K(n, 16)])
    for t in tr:
        s = t.st
        if flags_text(s):
            out.append(("arith", flags_text(s)))
        if t.kind == "panic":
            out.append(("panic", str(t.why[0])))
            continue
        if (t.val.v == 0) != (n <= MAX):
            out.append(("capacity", "%s for %d bits" % ("succeeds" if t.val.v == 0 else "fails", n)))
            continue
        if t.val.v == 0:
            v = t.val.f[0]
            if who == "CellBuilder":
                arr, ln = refs_of(ip, v)
                if not same_int(s, ln, 0, ()) or not same_int(s, get(p, v, "is_exotic"), 0, ()):
                    out.append(("content", "the new builder is not plain"))
                v = get(p, v, "inner")
            if not same_int(s, get(p, v, "bit_len"), n, ()):
                out.append(("length", "the length is %r" % get(p, v, "bit_len")))
            exp = bits + [0] * (1024 - len(bits))
            e = check_arr(ip, s, get(p, v, "data"), (), lambda c: exp[8 * c:8 * c + 8], 0, 127)
            if e:
                out.append(("content", e))
    return out, len(tr)


def do_query(p, who, f):
    ip = Interp(p)
    b = p.method(who, f)
    if len(b) != 1:
        return [("anchor", "%s::%s is not there" % (who, f))], 0
    out, n = [], 0
    for r in range(8):
        st = ip.state()
        cb, terms, refs = cell_builder(ip, st, r, None)
        v = cb if who == "CellBuilder" else get(p, cb, "inner")
        st.mem[("B",)] = v
        args = [Ref(("B",))]
        free, rfree = (MAX - r, (("Q", -8),)), (4, (("R", -1),))
        st.var("n", 0, 65535)
        st.var("m", 0, 255)
        if f.startswith("has_capacity"):
            args.append(Af(16, False, 0, (("n", 1),)))
            if f == "has_capacity":
                args.append(Af(8, False, 0, (("m", 1),)))
        want = {"spare_capacity_bits": free, "size_bits": (r, (("Q", 8),)), "spare_capacity_refs": rfree, "size_refs": (0, (("R", 1),))}.get(f)
        for t in ip.run(st, b[0], args):
            n += 1
            s = t.st
            if flags_text(s):
                out.append(("arith", flags_text(s)))
            if t.kind == "panic":
                out.append(("panic", str(t.why[0])))
            elif want is not None:
                if not same_int(s, t.val, *want):
                    out.append(("value", "is %r" % t.val))
            elif f == "clear_bits":
                v = s.mem[("B",)]
                e = check_arr(ip, s, get(p, v, "data"), (), lambda c: [0] * 8, 0, 127)
                if e or not same_int(s, get(p, v, "bit_len"), 0, ()):
                    out.append(("value", "leaves data behind: %s" % e))
            else:
                conds = [lin_add(free, 1, (0, (("n", 1),)), -1)]
                if f == "has_capacity":
                    conds.append(lin_add(rfree, 1, (0, (("m", 1),)), -1))
                for s2, x in ip.branch(s, t.val):
                    if x and not all(s2.holds(*c) for c in conds):
                        out.append(("value", "answers true too often"))
                    if not x and feasible(s2.all_cons() + conds):
                        out.append(("value", "answers false too often"))
    return out, n


def struct_jobs(tier):
    js = [("do_ref", "CellBuilder"), ("do_ref", "CellRefsBuilder")]
    for f in ("spare_capacity_bits", "has_capacity_bits", "size_bits", "clear_bits"):
        js.append(("do_query", "CellDataBuilder", f))
    for f in ("spare_capacity_refs", "has_capacity", "size_refs"):
        js.append(("do_query", "CellBuilder", f))
    ns = [0, 1, 7, 8, 9, 17, 1016, 1023] + ([15, 16, 24, 31, 32, 33, 63, 64, 100, 255, 256, 1015, 1017, 1022] if tier == "thorough" else [])
    for r in range(8):
        for n in ns:
            js.append(("do_join", "store_cell_data", r, n, 0, 0))
            for m in range(5):
                if m in (0, 1, 4) or n == 9:
                    js.append(("do_join", "store_builder", r, n, 0, m))
            for o in range(8):
                if n > 100 and o not in (0, 3) and tier != "thorough":
                    continue
                js.append(("do_join", "store_slice_data", r, n, o, 0))
                for m in range(5):
                    if o == 3 and m in (0, 1, 4) or n == 9:
                        js.append(("do_join", "store_slice", r, n, o, m))
        for q in (0, 1, 2, 5, 126, 127):
            for n in (0, 1, 3, 8, 9, 16, 19, 1000, 1023):
                if 8 * q + r <= MAX:
                    js.append(("do_prepend", r, q, n, "V"))
    for n, x in ((9, 1), (20, 0), (20, 2), (1024, 128)):
        js.append(("do_prepend", 3, 2, n, x))
        for who in ("CellDataBuilder", "CellBuilder"):
            js.append(("do_from_raw", who, n, x))
    for n in (0, 1, 8, 13, 1016, 1023, 1024, 2000, 65535):
        for x in (-(-n // 8), -(-n // 8) + 3):
            for who in ("CellDataBuilder", "CellBuilder"):
                js.append(("do_from_raw", who, n, x))
    return js


def any_job(j):
    try:
        if j[0].startswith("do_"):
            return (j,) + globals()[j[0]](_p, *j[1:])
        return one(j)
    except GIVE_UP as e:
        return j, [("undecided", "%s %s" % (type(e).__name__, e))], 0


EXPLAIN = """
Every primitive that appends to a builder (CellDataBuilder, CellBuilder, CellRefsBuilder) is interpreted, from its
MIR, on a symbolic builder of bit length 8Q+r (Q unknown, each alignment r separately) holding unknown data; stored
integers are vectors of named bits, stored byte strings have unknown contents and an unknown length at least as long
as needed.  On every path: success implies that the result fits 1023 bits (4 references), that the length grew by
exactly the requested amount, that each bit of the array is the bit expected there (old data unchanged, the stored
value most significant bit first, zeros after the end) and that nothing was accessed outside an array; failure
implies that there was no room and that nothing changed; no arithmetic leaves its type, no path panics."""

ASSUMPTIONS = ["a builder's data past its length is zero (re-established by every operation that is analysed)",
               "widths between the listed ones behave like them (the loops over whole bytes are followed for the listed sizes)"]


def check(cx):
    global _p
    _p = cx.prog("main")
    js = jobs(cx.tier) + struct_jobs(cx.tier)
    for j, pr, k in pmap(any_job, js):
        cx.count("cases")
        cx.count("paths", k)
        for kind, text in pr:
            nm = j[1] if j[0].startswith("do_") and isinstance(j[1], str) else j[0]
            if j[0] == "do_query":
                nm = j[2]
            elif j[0] in ("do_ref", "do_from_raw"):
                nm = j[1] + "::" + {"do_ref": "store_reference", "do_from_raw": "from_raw_data"}[j[0]]
            elif j[0] == "do_prepend":
                nm = "prepend_raw"
            cx.bad("%s:%s" % (nm, kind), "%s (case %s): %s" % (nm, list(j[1:]), text))
    cx.floor("cases", 2500)
    cx.floor("paths", 5000)
