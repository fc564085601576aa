"""Declared sizes are the sizes that are written.

(a) For every type that reports its exact size and has a cell writer, the
number of bits and references of every writer path is added up symbolically and
compared with what the size function returns under the conditions of that path.
(b) For every dictionary key type, the key writer must emit exactly the declared
number of bits on every path, and the key reader applied to those bits must
rebuild the key."""
import re
import codec, wire
from codec import *
from wire import tokens, value_of_bits, same, Mismatch
import terms

EXPLAIN = __doc__
ASSUMPTIONS = [
    "The primitive bit/reference operations of slices and builders do what their names say (properties of their own).",
    "Values are in their type's domain (lib/codec.py).",
    "Sizes of nested generic values are what their own size function says.",
]

SKIP = {"&T", "&mut T", "CellSlice", "(CellSliceRange,Cell)", "dyn CellImpl", "Arc<T,Global>", "Box<T,Global>", "Rc<T,Global>", "(T0)"}


class SizeWire(Wire):
    """Sizes of opaque values are symbols named by type and value"""

    def policy(self, c, st, ip):
        if c.body is not None and c.body["nm"] == "exact_size" and len(st.frames) < self.depth:
            return True
        return Wire.policy(self, c, st, ip)

    def model(self, ip, st, c):
        if c.nm == "exact_size" and c.trait and c.trait.endswith("ExactSize") and c.self_ty is not None:
            v = wire.content(ip, st, c.args[0])
            t = c.self_ty
            if t[0] == "adt" and t[1] in wire.DICTS:
                root = mk("fld", v, 0, t[1])
                if t[1].endswith("AugDict"):
                    return None
                return [(st, agg(("adt", "tycho_types::cell::cell_impl::Size"), 0, I(1), mk_discr(root, (0, 1))))]
            if t[0] not in ("adt",):
                x = mk("xsize", ip.p.tystr(t), wire.unbox(v))
                return [(st, agg(("adt", "tycho_types::cell::cell_impl::Size"), 0, mk("xb", x), mk("xr", x)))]
        return Wire.model(self, ip, st, c)


def fits(st):
    """No variable-length integer in the state is known to exceed its format:
    each of them has at least one leading zero byte"""
    for l, c in st.lins:
        for at, k in l:
            if at.a[0] == "shr" and at.a[1].a[0] == "lz" and st.bounds(at)[1] == 0:
                return False
    for at, v in st.eq.items():
        if at.a[0] == "shr" and at.a[1].a[0] == "lz" and v == 0:
            return False
    return True


class Sizer:
    def __init__(self, p):
        self.p = p
        tr = [t for t in p.trait_impls if t.endswith("slice::ExactSize")]
        assert len(tr) == 1
        self.E = {p.tystr(p.ty(i["self"])): i for i in p.trait_impls[tr[0]]}
        self.W = SizeWire(p)

    def key(self, nm):
        if nm in self.E:
            return nm
        if "<" in nm and not nm.startswith("("):
            h = nm.split("<")[0] + "<"
            for k in self.E:
                if k.startswith(h):
                    return k
        return None

    def paths(self, nm, v, st):
        """-> [(state, bits, refs)] of the declared size of a value in a state"""
        b = self.p.by_impl[(self.E[self.key(nm)]["id"], "exact_size")]
        ip = self.W.interp()

        def pre(s):
            for t, x in st.eq.items():
                s.assume(t, x)
            for t, xs in st.ne.items():
                for x in xs:
                    s.assume_ne(t, x)
            s.lins = tuple(s.lins) + tuple(l for l in st.lins if l not in s.lins)
        out = []
        for x in ip.run(b, [mk("&", v)], pre=pre):
            if x.kind != "ret" or not fits(x.st):
                continue
            r = x.val
            if r.a[0] == "agg":
                out.append((x.st, r.a[3][0], r.a[3][1]))
            else:
                out.append((x.st, mk("fld", r, 0, "Size"), mk("fld", r, 1, "Size")))
        return out

    def tok_size(self, st, toks, miss):
        """Adds up a layout: -> [(state, bits, refs)]"""
        acc = [(st, I(0), I(0))]
        for t in toks:
            k = t[0]
            if k == "b":
                acc = [(s, add(b, I(1)), r) for s, b, r in acc]
            elif k == "vbits":
                acc = [(s, add(b, t[2]), r) for s, b, r in acc]
            elif k == "ref":
                acc = [(s, b, add(r, I(1))) for s, b, r in acc]
            elif k == "nt":
                nm = norm_nt(t[1])
                n = []
                for s, b, r in acc:
                    if nm[:1].isupper() and len(nm.rstrip("0123456789")) == 1:
                        x = mk("xsize", nm, wire.unbox(t[2]))
                        n.append((s, add(b, mk("xb", x)), add(r, mk("xr", x))))
                    elif self.key(nm):
                        for s2, b2, r2 in self.paths(nm, t[2], s):
                            s3 = s.copy()
                            s3.lins = tuple(s3.lins) + tuple(l for l in s2.lins if l not in s3.lins)
                            if all(s3.assume(q, x) for q, x in s2.eq.items()) and all(s3.assume_ne(q, x) for q, xs in s2.ne.items() for x in xs):
                                n.append((s3, add(b, b2), add(r, r2)))
                    else:
                        miss.add(t[1])
                        return []
                acc = n
            else:
                miss.add(k)
                return []
        return acc


def zero_diff(st, a, b):
    d = sub(a, b)
    return st.value(d) == 0 or st.value(eq0(d)) == 1


def check(cx):
    p = cx.prog()
    codec.init(p)
    codec.refful()
    S = Sizer(p)
    for nm in sorted(S.E):
        if nm in SKIP or nm not in codec.SI:
            cx.count("size_types_skipped")
            continue
        cx.count("size_types")
        W2, exp = codec.W, set()
        for rnd in range(6):
            miss = set()
            res = []
            ip, w = wtraces(codec.SI[nm], W2)
            for x in w:
                if x[0] == "bad":
                    continue
                for y in fork_discr(x):
                    for z in domain(nm, y):
                        res.append((z, S.tok_size(z[2].st, z[1], miss)))
            new = {W2.ntpath.get(norm_nt(m)) for m in miss} - exp - {None}
            if not new:
                break
            exp |= new
            W2 = Wire(p, expand=exp)
        if miss:
            cx.bad("%s:parts" % nm, "%s: the size of the written part %s is not known" % (nm, sorted(miss)))
            continue
        n = 0
        for z, sums in res:
            for s, b, r in sums:
                ds = S.paths(nm, selft(codec.SI[nm]), s)
                if not ds:
                    cx.bad("%s:nosize" % nm, "%s: the size function does not return for the layout %s" % (nm, wire.show_tokens(z[1])[:300]))
                for s2, b2, r2 in ds:
                    n += 1
                    cx.count("size_obligations")
                    if not zero_diff(s2, b, b2) or not zero_diff(s2, r, r2):
                        bb = p.by_impl[(S.E[nm]["id"], "exact_size")]
                        cx.bad("%s:size" % nm, "%s (%s): for the layout %s the declared size is %s bits and %s references, %s bits and %s references are written" % (
                            bb["path"], bb["span"], wire.show_tokens(z[1])[:400], show(b2)[:200], show(r2)[:100], show(b)[:200], show(r)[:100]))
        cx.sample("%s: %d size obligations" % (nm, n))
    keys(cx, p)
    cx.floor("size_types", 15)
    cx.floor("size_obligations", 40)


# ---- dictionary keys ------------------------------------------------------------

class Undecided(Exception):
    pass


def int_width(tn):
    m = re.match(r"^[ui](\d+)$", tn)
    return int(m.group(1)) if m else None


class KeyBits:
    """Bits of the values computed by a key reader, as positions in the key data"""

    def __init__(self, st, out=()):
        self.st = st
        self.data = (list(out) + [("d", i) for i in range(len(out), 1024)])

    def mem(self, t):
        """Bits of a byte sequence in memory order"""
        o = t.a[0]
        if o in ("&", "transmute!"):
            return self.mem(t.a[1])
        if o == "fld" and t.a[1].a[0] == "data":
            return list(self.data)
        if o == "vf":
            return self.mem(t.a[1])
        if o == "call" and t.a[1].endswith("try_into"):
            return self.mem(t.a[2][0])
        if o == "call" and (t.a[1].endswith("Index>::index") or t.a[1].endswith("::get")):
            x, r = self.mem(t.a[2][0]), t.a[2][1]
            if r.a[0] == "agg":
                k = r.a[1][1].rsplit("::", 1)[-1] if isinstance(r.a[1], tuple) else ""
                v = [self.st.value(y) for y in r.a[3]]
                if None not in v:
                    if k == "RangeTo":
                        return x[:8 * v[0]]
                    if k == "Range":
                        return x[8 * v[0]:8 * v[1]]
                    if k == "RangeFrom":
                        return x[8 * v[0]:]
        if o == "sub":
            x = self.mem(t.a[1])
            return x[8 * t.a[2]:len(x) - 8 * t.a[3] if t.a[4] else 8 * t.a[3]]
        if o == "tobytes":
            b = self.val(t.a[2], 8 * t.a[3])
            if t.a[1] == "le":
                b = [y for i in range(t.a[3] - 1, -1, -1) for y in b[8 * i:8 * i + 8]]
            return b
        if o == "agg" and t.a[1] == "array":
            return [y for x in t.a[3] for y in self.mem(x)]
        if o == "agg" and len(t.a[3]) == 1:
            return self.mem(t.a[3][0])
        if o == "transmute":
            return self.mem(t.a[2])
        if o == "idx" or o == "int":
            return self.val(t, 8)
        raise Undecided(show(t))

    def val(self, t, n):
        """n low bits of an integer, most significant first"""
        v = self.st.value(t)
        if v is not None:
            return [(v >> (n - 1 - i)) & 1 for i in range(n)]
        o = t.a[0]

        def fit(b):
            return [0] * (n - len(b)) + b[max(0, len(b) - n):]
        if o == "idx" and is_int(t.a[2]):
            b, k = t.a[1], t.a[2].a[1]
            w = 8
            if b.a[0] == "transmute":
                m = re.match(r"^\[u(\d+);(\d+)\]$", b.a[1])
                if not m:
                    raise Undecided(show(t))
                w = int(m.group(1))
            x = self.mem(b)[w * k:w * k + w]
            if len(x) != w:
                raise Undecided(show(t))
            return fit([y for i in range(w // 8 - 1, -1, -1) for y in x[8 * i:8 * i + 8]])
        if o == "frombytes":
            x = self.mem(t.a[2])
            if t.a[1] == "le":
                x = [y for i in range(len(x) // 8 - 1, -1, -1) for y in x[8 * i:8 * i + 8]]
            return fit(x)
        if o == "call":
            nm = t.a[1].rsplit("::", 1)[-1]
            m = re.match(r"^[<&]*u(\d+)", t.a[1])
            w = int(m.group(1)) if m else None
            a = [x.a[1] if x.a[0] == "&" else x for x in t.a[2]]
            if w and nm == "swap_bytes":
                x = self.val(a[0], w)
                return fit([y for i in range(w // 8 - 1, -1, -1) for y in x[8 * i:8 * i + 8]])
            if w and nm in ("shl", "shr") and self.st.value(a[1]) is not None:
                s, x = self.st.value(a[1]), self.val(a[0], w)
                return fit(x[s:] + [0] * s if nm == "shl" else x[:w - s])
            if w and nm in ("bitand", "bitor", "bitxor"):
                return fit(self.mix(nm, self.val(a[0], w), self.val(a[1], w)))
        if o in ("band", "bor", "bxor"):
            return self.mix({"band": "bitand", "bor": "bitor", "bxor": "bitxor"}[o], self.val(t.a[1], n), self.val(t.a[2], n))
        if o == "shr" and self.st.value(t.a[2]) is not None:
            return self.val(t.a[1], n + self.st.value(t.a[2]))[:n]
        if o == "shl" and self.st.value(t.a[2]) is not None:
            s = self.st.value(t.a[2])
            return (self.val(t.a[1], n) + [0] * s)[-n:]
        if o == "lin" and all(k > 0 and k & (k - 1) == 0 for _, k in t.a[2]):
            acc = [(t.a[1] >> (n - 1 - i)) & 1 for i in range(n)]
            for x, k in t.a[2]:
                s = k.bit_length() - 1
                b = ([0] * s + self.val(x, n) + [0] * s)[-n:] if s else self.val(x, n)
                for y, z in zip(acc, b):
                    if y != 0 and z != 0:
                        raise Undecided(show(t))
                acc = [y or z for y, z in zip(acc, b)]
            return acc
        if o in ("tr", "sx"):
            w = t.a[1]
            x = self.val(t.a[3] if o == "tr" else t.a[2], w)
            if n <= w:
                return x[w - n:]
            if o == "tr" and not t.a[2]:
                return fit(x)
        if o == "not" and t.a[1].a[0] == "eq0":
            x = self.val(t.a[1].a[1], 128)
            nz = [y for y in x if y != 0]
            if len(nz) == 1:
                return fit(nz)
        if o == "ne0" or o == "bit":
            x = self.val(t.a[1], 128)
            nz = [y for y in x if y != 0]
            if len(nz) == 1:
                return fit(nz)
        raise Undecided(show(t))

    def mix(self, op, x, y):
        out = []
        for a, b in zip(x, y):
            if op == "bitand":
                c = 0 if a == 0 or b == 0 else b if a == 1 else a if b == 1 or a == b else None
            elif op == "bitor":
                c = 1 if a == 1 or b == 1 else b if a == 0 else a if b == 0 or a == b else None
            else:
                c = b if a == 0 else a if b == 0 else (1 - a if b == 1 and a in (0, 1) else None)
            if c is None:
                raise Undecided("%s of %s and %s" % (op, a, b))
            out.append(c)
        return out


def key_fields(p, ty, t, path):
    """Compares leaves: yields (self term, width, result term or None)"""
    tn = p.tystr(ty)
    w = 1 if tn == "bool" else int_width(tn)
    if w:
        yield path, w, t, False
        return
    m = re.match(r"^\[u8;(\d+)\]$", tn)
    if m:
        yield path, 8 * int(m.group(1)), t, True
        return
    if ty[0] == "tuple":
        for i, x in enumerate(ty[1]):
            yield from key_fields(p, x, fld_of(t, i, None), mk("fld", path, i, ""))
        return
    if ty[0] == "adt":
        rec = p.adts.get(ty[1])
        if rec and rec["kind"] == "struct":
            for i, f in enumerate(rec["v"][0]["f"]):
                ft = p.ty(f[1])
                if len(rec["v"][0]["f"]) == 1 and (t.a[0] != "agg"):
                    yield from key_fields(p, ft, t, mk("fld", path, i, ty[1]))
                else:
                    yield from key_fields(p, ft, fld_of(t, i, ty[1]), mk("fld", path, i, ty[1]))
            return
        if rec and rec["kind"] == "enum" or ty[1].endswith("Option"):
            yield path, None, t, False
            return
    raise Undecided(tn)


def fld_of(t, i, adt):
    if t.a[0] == "agg":
        return t.a[3][i]
    return mk("fld", t, i, adt or "")


def keys(cx, p):
    tr = {}
    for nm in ("DictKey", "StoreDictKey", "LoadDictKey"):
        c = [t for t in p.trait_impls if t.endswith("::" + nm)]
        if len(c) != 1:
            cx.bad("key:trait:" + nm, "the trait %s was not found" % nm)
            return
        tr[nm] = {p.tystr(p.ty(i["self"])): i for i in p.trait_impls[c[0]]}
    for nm, im in sorted(tr["StoreDictKey"].items()):
        if nm.startswith("&"):
            continue
        cx.count("key_types")
        bits = key_const(p, nm, tr["DictKey"][nm]) if nm in tr["DictKey"] else None
        if bits is None:
            cx.bad("key:%s:bits" % nm, "the declared key length of %s is not known" % nm)
            continue
        b = p.by_impl[(im["id"], "store_into_data")]
        ip = codec.W.interp()
        me = mk("self", "K")
        forms = []
        for x in ip.run(b, [mk("&", me), mk("bp")], pre=lambda st: st.mem.__setitem__(("P", mk("bp")), mk("bstart"))):
            if x.kind != "ret":
                if x.kind not in ("panic", "diverge"):
                    cx.bad("key:%s:store" % nm, "%s (%s): an undecided path (%s)" % (b["path"], b["span"], x.kind))
                continue
            v = x.val
            if v.a[0] == "agg" and v.a[2] == 1:
                continue
            toks = tokens(x.st, x.st.mem[("P", mk("bp"))])
            out = []
            for t in toks:
                if t[0] != "b":
                    out = None
                    break
                out.append(t[1])
            cx.count("key_layouts")
            if out is None or len(out) != bits:
                cx.bad("key:%s:len" % nm, "%s (%s): a key of %s bits is declared, the writer emits %s" % (b["path"], b["span"], bits, wire.show_tokens(toks)[:300]))
                continue
            forms.append((x, out))
        if not forms:
            cx.bad("key:%s:none" % nm, "%s (%s): no path writes a key" % (b["path"], b["span"]))
        if nm not in tr["LoadDictKey"]:
            continue
        lb = p.by_impl[(tr["LoadDictKey"][nm]["id"], "load_from_data")]
        ip = codec.W.interp()
        loads = []
        for x in ip.run(lb, [mk("&", mk("data"))]):
            if x.kind == "ret":
                if not (x.val.a[0] == "agg" and x.val.a[2] == 0 and not x.val.a[3]):
                    loads.append(x)
            elif x.kind not in ("panic", "diverge"):
                cx.bad("key:%s:load" % nm, "%s (%s): an undecided path (%s)" % (lb["path"], lb["span"], x.kind))
        for wx, out in forms:
            good = False
            why = "no path of the reader returns a key"
            for x in loads:
                why = key_match(p, nm, p.ty(im["self"]), wx, out, x)
                if why is None:
                    good = True
                    break
            cx.count("key_roundtrips")
            if not good:
                cx.bad("key:%s:back" % nm, "%s (%s): reading a stored key back does not rebuild it: %s" % (lb["path"], lb["span"], why[:500]))
        # no form that the writer produces may be refused
        for x in ip_none(p, lb):
            for wx, out in forms:
                if not refuted(x, out):
                    cx.bad("key:%s:refuse" % nm, "%s (%s): a stored key can be refused" % (lb["path"], lb["span"]))
    cx.floor("key_types", 18)
    cx.floor("key_roundtrips", 18)


def ip_none(p, lb):
    ip = codec.W.interp()
    return [x for x in ip.run(lb, [mk("&", mk("data"))]) if x.kind == "ret" and x.val.a[0] == "agg" and x.val.a[2] == 0 and not x.val.a[3]]


def refuted(x, out):
    """The facts of a refusing path contradict the written bits"""
    for t, v in x.st.eq.items():
        u, w = t, v
        if u.a[0] == "eq0":
            try:
                b = KeyBits(x.st, out).val(u.a[1], 128)
            except Undecided:
                continue
            if all(y in (0, 1) for y in b):
                if (not any(b)) != bool(w):
                    return True
    return False


def key_match(p, nm, ty, wx, out, x):
    kb = KeyBits(x.st, out)
    try:
        me = mk("self", "K")
        for path, w, t, arr in key_fields(p, ty, x.val.a[3][0], me):
            if w is None:
                # a form that the writer fixes (an absent part)
                d = t.a[2] if t.a[0] == "agg" else None
                if d is None or wx.st.value(mk("discr", path)) not in (d,) or t.a[3]:
                    return "%s is not determined" % show(path)
                continue
            b = kb.mem(t) if arr else kb.val(t, w)
            want = wire.bits_of(wx.st, path, w)
            mx = len([1 for y in b if y != 0])
            for i, (y, z) in enumerate(zip(b, want)):
                if y is z or y == z or isinstance(y, tuple) and isinstance(z, tuple) and y[1] == z[1] and not isinstance(y[0], str) and show(y[0]) == show(z[0]):
                    continue
                # bits above the width of the value are zero in both
                if y == 0 and z[1] >= mx and not any(q == z for q in out):
                    if mx + i >= len(want):
                        return "bit %d of %s is lost" % (z[1], show(path))
                    continue
                return "bit %d of %s is read as %s" % (len(want) - 1 - i, show(path), y if not isinstance(y, tuple) else (show(y[0]) if not isinstance(y[0], str) else y[0], y[1]))
        return None
    except Undecided as e:
        return "cannot follow %s" % e


def key_const(p, nm, im):
    for k in p.consts:
        if k["id"] == im["id"] + "::BITS" or (k.get("impl") == im["id"] and k["nm"] == "BITS"):
            return int(k["v"]) if "v" in k else None
    return None
