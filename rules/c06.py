"""C06: reading from a slice of a cell"""
from cellcore import *
from par import pmap

EXPLAIN = """
Every reading primitive of CellSlice and CellSliceRange is interpreted, from its MIR, on a symbolic slice: a window of
unknown start, unknown end and unknown references inside an opaque cell with unknown data.  The bit that is read sits
at 8O+o (O unknown, each alignment o separately), at an unknown distance from the start of the window.  On every path:
success implies that the bits and references read lie inside the window and that the result is, bit for bit, the data
there; a load advances by exactly what it read, a get leaves the slice alone; a failure implies that the window was too
short (no valid read is refused) and leaves the slice alone; no path reads outside the data, overflows, or panics.
Range operations are decided for unknown numbers of bits and references.  Comparisons and scans (lex_cmp, prefixes,
suffixes, common prefixes, leading/trailing runs, uniformity) are decided path by path over the unknown bits of slices
of the listed lengths, for every pair of alignments and every address alignment."""

ASSUMPTIONS = ["CellImpl: data() has at least bit_len/8 bytes (rounded up), bit_len <= 1023, at most 4 references"]

WID = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "u256": 256}
SIZES = list(range(0, 66)) + [72, 127, 128, 200, 255, 256, 512, 1000, 1016, 1017, 1023]


def jobs(tier):
    js = []
    for o in range(8):
        for op in ("get", "load"):
            js.append(("read", op, "bit", o, 1))
            for k, w in WID.items():
                js.append(("read", op, k, o, w))
            for n in list(range(0, 10)) + [255, 256, 65535]:
                js.append(("read", op, "small_uint", o, n))
            for n in list(range(0, 67)) + [128, 1024, 65535]:
                js.append(("read", op, "uint", o, n))
            for n in (SIZES if tier == "thorough" else [x for x in SIZES if x <= 40 or x in (63, 64, 65, 256, 1016, 1023)]):
                js.append(("raw", op, "raw", o, n))
    for f in RANGE_OPS:
        for who in ("CellSliceRange", "CellSlice"):
            js.append(("range", f, who))
    for f in ("load_prefix", "load_suffix", "load_remaining", "without_references"):
        js.append(("range", f, "CellSlice"))
    for f in ("get_reference", "get_reference_cloned", "get_reference_as_slice", "load_reference", "load_reference_cloned", "load_reference_as_slice"):
        js.append(("ref", f))
    for f in ("new", "new_allow_exotic", "apply", "apply_allow_exotic", "full"):
        js.append(("make", f))
    for f in ("size_bits", "size_refs", "is_data_empty", "is_refs_empty", "is_empty", "has_remaining", "offset_bits", "offset_refs"):
        js.append(("query", f))
    lens = [1, 2, 7, 8, 9, 15, 16, 17, 24, 31, 33, 40] + ([64, 65, 71, 73, 80, 100, 129, 136, 200] if tier == "thorough" else [64, 71, 73])
    for o in range(8):
        for n in [0] + lens:
            for f in ("count_leading", "count_trailing"):
                for b in (0, 1):
                    for al in (range(8) if n >= 16 else (0,)):
                        js.append(("scan", f, o, n, b, al))
            js.extend(("scan", "test_uniform", o, n, None, al) for al in (range(8) if n >= 64 else (0,)))
    pl = [(0, 3), (3, 0), (1, 1), (2, 5), (5, 5), (8, 8), (9, 8), (16, 17), (17, 16), (23, 23), (33, 33), (32, 40), (40, 32)]
    if tier == "thorough":
        pl += [(7, 9), (31, 32), (64, 64), (65, 66), (66, 65), (100, 97)]
    for oa in range(8):
        for ob in range(8):
            for a, b in pl:
                for f in PAIRS:
                    js.append(("pair", f, oa, ob, a, b))
    return js


PAIRS = ("lex_cmp", "contents_eq", "is_data_prefix_of", "is_data_suffix_of", "strip_data_prefix", "longest_common_data_prefix")
_p = None


def anchor(p, ty, nm):
    b = p.method(ty, nm)
    if len(b) != 1:
        raise Undecided("%s::%s is not there" % (ty, nm))
    return b[0]


def panics(out, t):
    if t.kind == "panic":
        out.append(("panic", "panics: %s" % (t.why[0],)))
        return True
    return False


def conj_possible(st, *lins):
    return feasible(st.all_cons() + list(lins))


def le(a, b):
    """a <= b as an inequality; a, b: lin"""
    return lin_add(b, 1, a, -1)


def window(ip, st, o, sep):
    """A slice whose window starts at X (or at the index), index = 8 O + o"""
    p = ip.p
    cell = cell_obj(ip, st, "a")
    st.var("O", 0, 8400)
    idx = Af(16, False, o, (("O", 8),))
    st.var("F", 0, MAX)
    if sep:
        st.var("X", 0, MAX)
        start = Af(16, False, 0, (("X", 1),))
        offset = Af(16, False, *lin((1, idx), (-1, start)))
        st.add(*lin((1, offset)))
        st.add(*lin((1, 65535), (-1, offset)))
    else:
        start, offset = idx, None
        st.add(*lin((1, MAX), (-1, start)))
    end = Af(16, False, 0, (("F", 1),))
    st.add(*lin((1, end), (-1, start)))
    st.add(*lin((1, Af(16, False, 0, (("Ca", 1),))), (-1, end)))
    st.var("S", 0, 4)
    st.var("T", 0, 4)
    st.add(0, (("S", -1), ("T", 1)))
    st.add(0, (("Na", 1), ("T", -1)))
    rng = mkadt(p, CSR, bits_start=start, bits_end=end, refs_start=Af(8, False, 0, (("S", 1),)), refs_end=Af(8, False, 0, (("T", 1),)))
    st.mem[data_root("a")] = Arr(Af(64, False, 0, (("La", 1),)), {}, content("a", (("O", 1),)))
    return mkadt(p, CS, cell=cell, range=rng), idx, offset, end


def rfields(p, sl):
    r = get(p, sl, "range") if sl.k == CS else sl
    return {n: get(p, r, n) for n in ("bits_start", "bits_end", "refs_start", "refs_end")}


def diff_range(p, st, sl, want):
    have = rfields(p, sl)
    for k, v in want.items():
        if not same_af(st, have[k], v):
            return "%s is %r, expected %r" % (k, have[k], v)
    return None


def value_bits(ip, st, v):
    """bits MSB first"""
    if isinstance(v, (Af, Bv)):
        return list(reversed(ip.bits(st, v)))
    if isinstance(v, Ag) and len(v.f) == 1:
        return value_bits(ip, st, v.f[0])
    if isinstance(v, Arr) and not v.n.t:
        out = []
        for i in range(v.n.c):
            out += value_bits(ip, st, ip.elem(st, v, K(i)))
        return out
    raise Undecided("value %r" % (v,))


def do_read(p, op, kind, o, n, raw=False):
    ip = Interp(p, [cell_hook])
    body = anchor(p, "CellSlice", "%s_%s" % (op, kind))
    st = ip.state()
    sl, idx, off, end = window(ip, st, o, op == "get")
    st.mem[("S",)] = sl
    args = [Ref(("S",))]
    if op == "get":
        args.append(off)
    limit = {"small_uint": 8, "uint": 64}.get(kind)
    if kind in ("small_uint", "uint"):
        args.append(K(n, 16))
    need = -(-n // 8)
    if raw:
        st.var("V", 0, 1 << 40)
        tl = Af(64, False, 0, (("V", 1),))
        st.mem[("V",)] = Arr(tl, {}, lambda key: int_sym(("old", key), 8))
        args += [Sl(("V",), (), K(0), tl), K(n, 16)]
    want0 = rfields(p, sl)
    fits = lin((1, end), (-1, idx), (-1, n))
    out = []
    tr = ip.run(st, body, args)
    oks = 0
    for t in tr:
        s = t.st
        f = flags_text(s)
        if f:
            out.append(("arith", f + " (%s)" % show_range(s)))
        if panics(out, t):
            continue
        after = s.mem[("S",)]
        want = dict(want0)
        if t.val.v == 0:
            oks += 1
            if n and not s.holds(*fits):
                out.append(("window", "succeeds although fewer than %d bits are left (%s)" % (n, show_range(s))))
                continue
            if limit is not None and n > limit:
                out.append(("limit", "succeeds for %d bits" % n))
                continue
            if op == "load":
                want["bits_start"] = Af(16, False, idx.c + n, idx.t)
            v = t.val.f[0]
            if raw:
                if not isinstance(v, Sl) or v.root != ("V",) or not same_int(s, v.off, 0, ()) or not same_int(s, v.len, need, ()):
                    out.append(("value", "the result is not the first %d bytes of the buffer: %r" % (need, v)))
                    continue
                if not s.holds(-need, (("V", 1),)):
                    out.append(("memory", "succeeds with a too short buffer"))
                arr = s.mem[("V",)]
                have = []
                for i in range(need):
                    have += value_bits(ip, s, ip.elem(s, arr, K(i)))
                exp = [in_name("a", o, k) for k in range(n)] + [0] * (8 * need - n)
                for k in arr.d:
                    if k[0] != () or not 0 <= k[1] < need:
                        out.append(("value", "writes byte %r of the buffer" % (k,)))
            else:
                have = value_bits(ip, s, v)
                exp = [in_name("a", o, k) for k in range(n)]
                if kind != "bit":
                    exp = [0] * (len(have) - n) + exp
            have = [s.bit(x) for x in have]
            exp = [s.bit(x) for x in exp]
            if have != exp:
                bad = [i for i in range(min(len(have), len(exp))) if have[i] != exp[i]]
                out.append(("value", "bit %s of the result is not the bit of the data (%s)" % (bad[0] if bad else "count", show_range(s))))
        else:
            conds = [fits]
            if raw:
                conds.append((-need, (("V", 1),)))
            if (limit is None or n <= limit) and conj_possible(s, *conds):
                out.append(("refuses", "fails although %d bits are left (%s)" % (n, show_range(s))))
        d = diff_range(p, s, after, want)
        if d:
            out.append(("position", "%s after %s" % (d, "success" if t.val.v == 0 else "failure")))
    if oks == 0 and n <= MAX - o and (limit is None or n <= limit):
        out.append(("vacuous", "never succeeds"))
    return out, len(tr)


RANGE_OPS = ("skip_first", "only_first", "skip_last", "only_last", "split_prefix", "split_suffix", "get_prefix")


def sym_slice(ip, st, who):
    p = ip.p
    cell = cell_obj(ip, st, "a")
    for v, hi in (("X", MAX), ("F", MAX), ("S", 4), ("T", 4)):
        st.var(v, 0, hi)
    st.add(0, (("F", 1), ("X", -1)))
    st.add(0, (("S", -1), ("T", 1)))
    st.add(0, (("Ca", 1), ("F", -1)))
    st.add(0, (("Na", 1), ("T", -1)))
    rng = mkadt(p, CSR, bits_start=Af(16, False, 0, (("X", 1),)), bits_end=Af(16, False, 0, (("F", 1),)),
                refs_start=Af(8, False, 0, (("S", 1),)), refs_end=Af(8, False, 0, (("T", 1),)))
    return rng if who == "CellSliceRange" else mkadt(p, CS, cell=cell, range=rng)


def do_range(p, f, who):
    ip = Interp(p, [cell_hook])
    if who == "CellSlice" and f.startswith("split"):
        return [], 0
    body = anchor(p, who, f)
    st = ip.state()
    sl = sym_slice(ip, st, who)
    st.mem[("S",)] = sl
    st.var("n", 0, 65535)
    st.var("m", 0, 255)
    n, m = Af(16, False, 0, (("n", 1),)), Af(8, False, 0, (("m", 1),))
    w0 = rfields(p, sl)
    s0, e0, r0, t0 = w0["bits_start"], w0["bits_end"], w0["refs_start"], w0["refs_end"]
    A = lambda *x: Af(16, False, *lin(*x))
    front = {"bits_start": A((1, s0), (1, n)), "refs_start": A((1, r0), (1, m))}
    back = {"bits_end": A((1, e0), (-1, n)), "refs_end": A((1, t0), (-1, m))}
    lead = {"bits_end": A((1, s0), (1, n)), "refs_end": A((1, r0), (1, m))}
    tail = {"bits_start": A((1, e0), (-1, n)), "refs_start": A((1, t0), (-1, m))}
    spec = {"skip_first": (front, None), "only_first": (lead, None), "skip_last": (back, None), "only_last": (tail, None),
            "split_prefix": (front, lead), "split_suffix": (back, tail), "load_prefix": (front, lead), "load_suffix": (back, tail)}
    out = []
    if f in ("load_remaining", "without_references"):
        args = [Ref(("S",))] if f == "load_remaining" else [sl]
        tr = ip.run(st, body, args)
        for t in tr:
            if panics(out, t):
                continue
            s = t.st
            if f == "load_remaining":
                d = diff_range(p, s, t.val, w0) or diff_range(p, s, s.mem[("S",)], dict(w0, bits_start=e0, refs_start=t0))
            else:
                d = diff_range(p, s, t.val, dict(w0, refs_start=t0))
            if d:
                out.append(("range", d))
        return out, len(tr)
    tr = ip.run(st, body, [Ref(("S",)), n, m])
    fit1, fit2 = lin((1, e0), (-1, s0), (-1, n)), lin((1, t0), (-1, r0), (-1, m))
    for t in tr:
        s = t.st
        fl = flags_text(s)
        if fl:
            out.append(("arith", fl))
        if panics(out, t):
            continue
        after = s.mem[("S",)]
        if f == "get_prefix":
            h = rfields(p, t.val)
            neg = lambda x: (-x[0], tuple((v, -k) for v, k in x[1]))
            for fld, fit, lo, hi, x in (("bits_end", fit1, s0, e0, n), ("refs_end", fit2, r0, t0, m)):
                # min(start + x, end)
                if s.holds(*fit):
                    w = A((1, lo), (1, x))
                elif not s.possible(*fit) or s.holds(*neg(fit)):
                    w = hi
                else:
                    out.append(("range", "%s does not depend on whether the prefix fits" % fld))
                    continue
                if not same_af(s, h[fld], w):
                    out.append(("range", "%s is %r, expected %r" % (fld, h[fld], w)))
            d = diff_range(p, s, t.val, {"bits_start": s0, "refs_start": r0}) or diff_range(p, s, after, w0)
            if d:
                out.append(("range", d))
            continue
        me, res = spec[f]
        if t.val.v == 0:
            if not (s.holds(*fit1) and s.holds(*fit2)):
                out.append(("window", "succeeds although less is left"))
                continue
            d = diff_range(p, s, after, dict(w0, **me))
            if not d and res is not None:
                d = diff_range(p, s, t.val.f[0], dict(w0, **res))
            if d:
                out.append(("range", d))
        else:
            if conj_possible(s, fit1, fit2):
                out.append(("refuses", "fails although enough is left"))
            d = diff_range(p, s, after, w0)
            if d:
                out.append(("range", "after a failure " + d))
    return out, len(tr)


def do_ref(p, f):
    ip = Interp(p, [cell_hook])
    body = anchor(p, "CellSlice", f)
    st = ip.state()
    sl = sym_slice(ip, st, "CellSlice")
    st.mem[("S",)] = sl
    w0 = rfields(p, sl)
    load = f.startswith("load")
    args = [Ref(("S",))]
    if not load:
        st.var("m", 0, 255)
        args.append(Af(8, False, 0, (("m", 1),)))
        pos = Af(8, False, *lin((1, w0["refs_start"]), (1, args[1])))
    else:
        pos = w0["refs_start"]
    fit = lin((1, w0["refs_end"]), (-1, pos), (-1, 1))
    out = []
    tr = ip.run(st, body, args)
    as_slice = f.endswith("as_slice")
    for t in tr:
        s = t.st
        fl = flags_text(s)
        if fl:
            out.append(("arith", fl))
        if panics(out, t):
            continue
        want = dict(w0)
        child = Opq("child", ("a", pos.key()))
        ex = s.asm.get(sym(("exotic",) + child.args, 0))
        if t.val.v == 0:
            if not s.holds(*fit):
                out.append(("window", "succeeds past the last reference"))
            v = t.val.f[0]
            c = get(p, v, "cell") if isinstance(v, Ag) and v.k == CS else v
            if not (isinstance(c, Opq) and c.name == "child" and same_int(s, pos, c.args[1][1], c.args[1][0])):
                out.append(("value", "the result is %r, expected the child %r" % (c, pos)))
            if as_slice:
                if ex != 0:
                    out.append(("exotic", "an exotic child is opened as an ordinary slice"))
                k = "%s" % (child.args,)
                if isinstance(v, Ag):
                    h = rfields(p, v)
                    if not (same_int(s, h["bits_start"], 0, ()) and same_int(s, h["refs_start"], 0, ()) and h["bits_end"].t and h["bits_end"].t[0][0][0] == "c" and h["bits_end"].c == 0 and h["refs_end"].t and h["refs_end"].t[0][0][0] == "n" and h["refs_end"].c == 0):
                        out.append(("range", "the slice of the child is %r" % (h,)))
            if load:
                want["refs_start"] = Af(8, False, *lin((1, pos), (1, 1)))
        elif s.possible(*fit) and not (as_slice and ex == 1):
            out.append(("refuses", "fails although the child is there"))
        d = diff_range(p, s, s.mem[("S",)], want)
        if d:
            out.append(("position", d))
    return out, len(tr)


def do_make(p, f):
    ip = Interp(p, [cell_hook])
    st = ip.state()
    out = []
    cell = cell_obj(ip, st, "a")
    full = dict(bits_start=K(0, 16), refs_start=K(0, 8), bits_end=Af(16, False, 0, (("Ca", 1),)), refs_end=Af(8, False, 0, (("Na", 1),)))
    ex = sym(("exotic", "a"), 0)
    bodies = []
    if f in ("new", "new_allow_exotic"):
        bodies = [(anchor(p, "CellSlice", f), [cell], None)]
    elif f == "full":
        bodies = [(anchor(p, "CellSliceRange", f), [cell], None)]
    else:
        for who in ("CellSliceRange", "CellSlice"):
            bodies.append((anchor(p, who, f), who, None))
    n = 0
    for body, args, _ in bodies:
        s0 = st.copy()
        if isinstance(args, str):
            for v, hi in (("X", 65535), ("F", 65535), ("S", 255), ("T", 255)):
                s0.var(v, 0, hi)
            rng = mkadt(p, CSR, bits_start=Af(16, False, 0, (("X", 1),)), bits_end=Af(16, False, 0, (("F", 1),)),
                        refs_start=Af(8, False, 0, (("S", 1),)), refs_end=Af(8, False, 0, (("T", 1),)))
            if args == "CellSlice":
                s0.mem[("P",)] = Ag("tuple", 0, (rng, cell))
                args = [Ref(("P",))]
            else:
                args = [rng, cell]
        tr = ip.run(s0, body, args, {g: ("adt", DYN, ()) for g in body["gen"]})
        n += len(tr)
        for t in tr:
            s = t.st
            fl = flags_text(s)
            if fl:
                out.append(("arith", fl))
            if panics(out, t):
                continue
            v = t.val
            e = s.asm.get(ex)
            if v.k == RESULT:
                if v.v == 1:
                    if e != 1:
                        out.append(("refuses", "an ordinary cell is refused"))
                    continue
                if e != 0:
                    out.append(("exotic", "an exotic cell is opened"))
                v = v.f[0]
            if f in ("new", "new_allow_exotic", "full"):
                d = diff_range(p, s, v, full)
                if d:
                    out.append(("range", d))
                continue
            h = rfields(p, v)
            for a, z, lim, x, y in (("bits_start", "bits_end", "Ca", "X", "F"), ("refs_start", "refs_end", "Na", "S", "T")):
                # end = min(end, cell), start = min(start, end)
                for name, cands in ((z, [(y, lim)]), (a, [(x, z)])):
                    c1 = (0, ((cands[0][0], 1),))
                    c2 = (0, ((lim, 1),)) if name == z else (h[z].c, h[z].t)
                    mn = None
                    if s.holds(*lin_add(c2, 1, c1, -1)):
                        mn = c1
                    elif s.holds(*lin_add(c1, 1, c2, -1)):
                        mn = c2
                    if mn is None or not same_int(s, h[name], *mn):
                        out.append(("clamp", "%s is %r, which is not limited to the cell" % (name, h[name])))
    return out, n


def do_query(p, f):
    out, n = [], 0
    for who in ("CellSliceRange", "CellSlice"):
        ip = Interp(p, [cell_hook])
        body = anchor(p, who, f)
        st = ip.state()
        sl = sym_slice(ip, st, who)
        st.mem[("S",)] = sl
        w = rfields(p, sl)
        args = [Ref(("S",))]
        bits, refs = lin((1, w["bits_end"]), (-1, w["bits_start"])), lin((1, w["refs_end"]), (-1, w["refs_start"]))
        neg = lambda x: (-x[0], tuple((v, -k) for v, k in x[1]))
        if f == "has_remaining":
            st.var("n", 0, 65535)
            st.var("m", 0, 255)
            args += [Af(16, False, 0, (("n", 1),)), Af(8, False, 0, (("m", 1),))]
            conds = [lin_add(bits, 1, (0, (("n", 1),)), -1), lin_add(refs, 1, (0, (("m", 1),)), -1)]
        else:
            conds = {"is_data_empty": [neg(bits)], "is_refs_empty": [neg(refs)], "is_empty": [neg(bits), neg(refs)]}.get(f)
        tr = ip.run(st, body, args)
        n += len(tr)
        for t in tr:
            fl = flags_text(t.st)
            if fl:
                out.append(("arith", fl))
            if panics(out, t):
                continue
            if conds is None:
                want = {"size_bits": bits, "size_refs": refs, "offset_bits": lin((1, w["bits_start"])), "offset_refs": lin((1, w["refs_start"]))}[f]
                if not same_int(t.st, t.val, *want):
                    out.append(("value", "%s::%s is %r" % (who, f, t.val)))
                continue
            for s, x in ip.branch(t.st, t.val):
                if x and not all(s.holds(*c) for c in conds):
                    out.append(("value", "%s::%s answers true too often" % (who, f)))
                if not x and conj_possible(s, *conds):
                    out.append(("value", "%s::%s answers false too often" % (who, f)))
    return out, n


def do_scan(p, f, o, n, b, al):
    ip = Interp(p, [cell_hook])
    ip.align = al
    body = anchor(p, "CellSlice", f)
    st = ip.state()
    sl, start, end, terms = slice_of(ip, st, "a", o, None, n)
    st.mem[("S",)] = sl
    args = [Ref(("S",))] + ([K(b, 1)] if b is not None else [])
    out = []
    tr = ip.run(st, body, args)
    data = [in_name("a", o, k) for k in range(n)]
    for t in tr:
        s = t.st
        fl = flags_text(s)
        if fl:
            out.append(("arith", fl))
        if panics(out, t):
            continue
        if f == "test_uniform":
            x = [s.bit(bxor(d, data[0])) for d in data]
            if n == 0:
                if t.val.v != 0:
                    out.append(("value", "an empty slice is uniform"))
            elif t.val.v == 0:
                if not any(y == 1 for y in x):
                    out.append(("value", "a uniform slice is reported as mixed"))
            else:
                if not all(y == 0 for y in x):
                    out.append(("value", "a mixed slice is reported as uniform"))
                elif s.bit(ip.bits(s, t.val.f[0])[0]) != s.bit(data[0]):
                    out.append(("value", "the bit of the answer is wrong"))
            continue
        if t.val.v != 0:
            out.append(("refuses", "fails"))
            continue
        r = ip.affine(s, t.val.f[0])
        if r is None or r.t:
            out.append(("value", "the result %r is not constant on its path" % (t.val,)))
            continue
        k = r.c
        seq = data if f == "count_leading" else data[::-1]
        if not 0 <= k <= n or any(s.bit(x) != b for x in seq[:k]) or k < n and s.bit(seq[k]) != 1 - b:
            out.append(("value", "%s(%d) is %d on a path where the bits are %s" % (f, b, k, [show_bit(s.bit(x)) for x in seq[:k + 1]])))
    return out, len(tr)


def do_pair(p, f, oa, ob, na, nb):
    ip = Interp(p, [cell_hook, pair_hook])
    body = anchor(p, "CellSlice", f)
    st = ip.state()
    x, xs, xe, _ = slice_of(ip, st, "a", oa, None, na)
    y, ys, ye, _ = slice_of(ip, st, "b", ob, None, nb)
    st.mem[("S",)], st.mem[("Y",)] = x, y
    out = []
    tr = ip.run(st, body, [Ref(("S",)), Ref(("Y",))])
    A = [in_name("a", oa, k) for k in range(na)]
    Bs = [in_name("b", ob, k) for k in range(nb)]

    def first_diff(s, u, v):
        """k such that the first k bits agree and bit k differs (None: all agree up to the shorter); "?" unknown"""
        for k, (i, j) in enumerate(zip(u, v)):
            d = s.bit(bxor(s.bit(i), s.bit(j)))
            if d == 1:
                return k
            if d != 0:
                return "?"
        return None
    for t in tr:
        s = t.st
        fl = flags_text(s)
        if fl:
            out.append(("arith", fl))
        if panics(out, t):
            continue
        v = t.val
        if f == "lex_cmp":
            if v.v != 0:
                out.append(("refuses", "fails"))
                continue
            o = v.f[0].v - 1
            k = first_diff(s, A, Bs)
            if k is None:
                ok = o == (na > nb) - (na < nb)
            else:
                ok = k != "?" and o == (-1 if s.bit(A[k]) == 0 else 1) and s.bit(A[k]) in (0, 1)
            if not ok:
                out.append(("value", "compares as %d, first difference %s" % (o, k)))
        elif f in ("is_data_prefix_of", "is_data_suffix_of"):
            if v.v != 0:
                out.append(("refuses", "fails"))
                continue
            for s2, r in ip.branch(s, v.f[0]):
                if f == "is_data_prefix_of":
                    k = first_diff(s2, A, Bs)
                else:
                    k = first_diff(s2, A[::-1], Bs[::-1]) if na <= nb else 0
                    if k == "?":
                        k = [z for z in (s2.bit(bxor(s2.bit(i), s2.bit(j))) for i, j in zip(A[::-1], Bs[::-1])) if z == 1]
                        k = 0 if k else "?"
                good = na <= nb and k is None
                if k == "?" and na <= nb or bool(r) != good:
                    out.append(("value", "answers %s where the first difference is %s" % (bool(r), k)))
        elif f == "strip_data_prefix":
            k = first_diff(s, A, Bs)
            good = nb <= na and k is None
            if k == "?" and not (nb > na and v.v == 0):
                out.append(("value", "answers before comparing"))
            elif (v.v == 1) != good:
                out.append(("value", "strips: %s, first difference %s" % (v.v == 1, k)))
            elif v.v == 1:
                w = rfields(p, x)
                w["bits_start"] = Af(16, False, xs.c + nb, xs.t)
                d = diff_range(p, s, v.f[0], w)
                if d:
                    out.append(("range", d))
        elif f == "longest_common_data_prefix":
            k = first_diff(s, A, Bs)
            w = min(na, nb) if k is None else k
            if w == "?":
                out.append(("value", "answers before comparing"))
            else:
                h = rfields(p, v)
                if not (same_int(s, h["bits_start"], xs.c, xs.t) and same_int(s, h["bits_end"], xs.c + w, xs.t)):
                    out.append(("value", "the common prefix has %s, expected %d bits" % (h["bits_end"], w)))
        elif f == "contents_eq":
            if v.v != 0:
                out.append(("refuses", "fails"))
                continue
            for s2, r in ip.branch(s, v.f[0]):
                k = first_diff(s2, A, Bs)
                w = rfields(p, x)
                w2 = rfields(p, y)
                rs = lin((1, w["refs_end"]), (-1, w["refs_start"]), (-1, w2["refs_end"]), (1, w2["refs_start"]))
                same_refs = s2.holds(*rs) and s2.holds(-rs[0], tuple((a, -b) for a, b in rs[1]))
                diff_refs = not conj_possible(s2, rs, (-rs[0], tuple((a, -b) for a, b in rs[1])))
                kids = s2.ev or ()
                if r:
                    if na != nb or k is not None or not same_refs:
                        out.append(("value", "answers equal: bits %s, refs %s" % (k, same_refs)))
                        continue
                    cnt = s2.rng(*lin((1, w["refs_end"]), (-1, w["refs_start"])))
                    eqs = [e for e in kids if e[2] == 1]
                    n = len(eqs)
                    cl = lin((1, w["refs_end"]), (-1, w["refs_start"]), (-1, n))
                    if not (s2.holds(*cl) and s2.holds(-cl[0], tuple((a, -b) for a, b in cl[1]))) or any(e[2] == 0 for e in kids):
                        out.append(("value", "answers equal after comparing %d children" % n))
                    for i, e in enumerate(eqs):
                        for q, ww in ((e[0], w), (e[1], w2)):
                            pos = lin((1, ww["refs_start"]), (1, i))
                            if not same_int(s2, Af(8, False, q[1][1], q[1][0]), *pos):
                                out.append(("value", "compares child %r" % (q,)))
                else:
                    if not (na != nb or diff_refs or k not in (None, "?") or any(e[2] == 0 for e in kids)):
                        out.append(("value", "answers different: bits %s" % (k,)))
    return out, len(tr)


def pair_hook(ip, st, c, args):
    nm = c["nm"]
    if nm == "addr_eq":
        return [(st, K(0, 1))]
    if nm == "repr_hash" and isinstance(args[0], Opq) and args[0].name == "child":
        return [(st, Opq("hash", args[0].args))]
    if nm in ("eq", "ne") and len(args) == 2:
        v = []
        for a in args:
            while isinstance(a, Ref):
                a = ip.read(st, a.root, a.path)
            v.append(a)
        if all(isinstance(a, Opq) and a.name == "hash" for a in v):
            out = []
            for x in (1, 0):
                s = st.copy()
                s.ev = (s.ev or ()) + ((v[0].args, v[1].args, x),)
                out.append((s, K(x if nm == "eq" else 1 - x, 1)))
            return out
    return None


def one(j):
    p = _p
    try:
        if j[0] == "read":
            r = do_read(p, *j[1:])
        elif j[0] == "raw":
            r = do_read(p, *j[1:], raw=True)
        else:
            r = globals()["do_" + j[0]](p, *j[1:])
    except GIVE_UP as e:
        return j, [("undecided", "%s %s" % (type(e).__name__, e))], 0
    return j, r[0], r[1]


def check(cx):
    global _p
    _p = cx.prog("main")
    for j, pr, k in pmap(one, jobs(cx.tier)):
        cx.count("cases")
        cx.count("paths", k)
        for kind, text in pr:
            nm = j[1] if j[0] not in ("read", "raw") else "%s_%s" % (j[1], j[2])
            cx.bad("%s:%s" % (nm, kind), "%s (case %s): %s" % (nm, list(j[2:]), text))
    cx.floor("cases", 8000)
    cx.floor("paths", 20000)
