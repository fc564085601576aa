"""C07: cell identity - descriptors, finalisation, hashes and depths"""
from cellcore import *
from tables import decide
from par import pmap

LM = "tycho_types::cell::LevelMask"
CD = "tycho_types::cell::CellDescriptor"
CT = "tycho_types::cell::CellType"
TYPES = ["Ordinary", "PrunedBranch", "LibraryReference", "MerkleProof", "MerkleUpdate"]
BYTES = {"Ordinary": 0xff, "PrunedBranch": 1, "LibraryReference": 2, "MerkleProof": 3, "MerkleUpdate": 4}

_p = None


def b2i(x):
    return 1 if x else 0


def from_level(l):
    return {0: 0, 1: 1, 2: 3}.get(l, 7)


def pop(x):
    return bin(x).count("1")


def ctype(d1):
    if not d1 & 8:
        return "Ordinary"
    if d1 & 7 == 0:
        return "PrunedBranch" if d1 >> 5 else "LibraryReference"
    return "MerkleProof" if d1 & 7 == 1 else "MerkleUpdate"


def lm(x):
    return x  # single-field struct: flat


def cd(d1, d2):
    return (CD, 0, d1, d2)


def variant(p, name):
    return [x["n"] for x in p.adts[CT]["v"]].index(name)


def cty(name):
    return (CT, variant(_p, name))


def mask_arg(nm="m"):
    return Ag(LM, 0, (Bv(8, False, [sym(nm, i) if i < 3 else 0 for i in range(8)]),))


def byte(nm, w=8):
    return Bv(8, False, [sym(nm, i) if i < w else 0 for i in range(8)])


def small(nm, w, n=8):
    return Bv(n, False, [sym(nm, i) if i < w else 0 for i in range(n)])


def desc_arg():
    return Ag(CD, 0, (byte("d1"), byte("d2")))


def some(x):
    return (OPTION, 1, x)


none = (OPTION, 0)


def tables():
    """(self type, function, trait or None, inputs, arguments, expected)"""
    M = [("m", 3)]
    D = [("d1", 8), ("d2", 8)]
    D1 = [("d1", 8)]
    d1only = lambda: Ag(CD, 0, (byte("d1"), K(0, 8)))
    d2only = lambda: Ag(CD, 0, (K(0, 8), byte("d2")))
    t = [
        ("LevelMask", "new", None, [("x", 8)], [byte("x")], lambda x: x & 7),
        ("LevelMask", "is_empty", None, M, [mask_arg()], lambda m: b2i(m == 0)),
        ("LevelMask", "from_level", None, [("l", 8)], [byte("l")], from_level),
        ("LevelMask", "level", None, M, [mask_arg()], pop),
        ("LevelMask", "hash_index", None, M + [("l", 8)], [mask_arg(), byte("l")], lambda m, l: pop(m & from_level(l))),
        ("LevelMask", "contains", None, M + [("l", 2)], [mask_arg(), byte("l", 2)], lambda m, l: b2i(l == 0 or m >> (l - 1) & 1)),
        ("LevelMask", "virtualize", None, M + [("o", 2)], [mask_arg(), byte("o", 2)], lambda m, o: m >> o),
        ("LevelMask", "to_byte", None, M, [mask_arg()], lambda m: m),
        ("LevelMask", "bitor", "BitOr", M + [("k", 3)], [mask_arg(), mask_arg("k")], lambda m, k: m | k),
        ("CellDescriptor", "compute_d1", None, M + [("e", 1), ("r", 3)], [mask_arg(), Bv(1, False, (sym("e", 0),)), byte("r", 3)],
         lambda m, e, r: m << 5 | e << 3 | r if r <= 4 else None),
        ("CellDescriptor", "compute_d2", None, [("n", 10)], [small("n", 10, 16)], lambda n: n // 8 + (n + 7) // 8),
        ("CellDescriptor", "virtualize", None, D1 + [("o", 2)], [d1only(), byte("o", 2)],
         lambda d, o: cd((d >> 5 >> o) << 5 | d & 31, 0)),
        ("CellDescriptor", "cell_type", None, D1, [d1only()], lambda d: cty(ctype(d))),
        ("CellDescriptor", "reference_count", None, D1, [d1only()], lambda d: d & 7),
        ("CellDescriptor", "hash_count", None, D1, [d1only()],
         lambda d: 1 if ctype(d) == "PrunedBranch" else 1 + pop(d >> 5)),
        ("CellDescriptor", "is_exotic", None, D1, [d1only()], lambda d: d >> 3 & 1),
        ("CellDescriptor", "is_pruned_branch", None, D1, [d1only()], lambda d: b2i(ctype(d) == "PrunedBranch")),
        ("CellDescriptor", "is_library", None, D1, [d1only()], lambda d: b2i(ctype(d) == "LibraryReference")),
        ("CellDescriptor", "is_merkle", None, D1, [d1only()], lambda d: b2i(ctype(d).startswith("Merkle"))),
        ("CellDescriptor", "is_absent", None, D1, [d1only()], lambda d: b2i(d == 15)),
        ("CellDescriptor", "store_hashes", None, D1, [d1only()], lambda d: d >> 4 & 1),
        ("CellDescriptor", "level_mask", None, D1, [d1only()], lambda d: d >> 5),
        ("CellDescriptor", "is_aligned", None, [("d2", 8)], [d2only()], lambda d: 1 - d % 2),
        ("CellDescriptor", "byte_len", None, [("d2", 8)], [d2only()], lambda d: (d + 1) // 2),
        ("CellDescriptor", "new", None, D, [Arr(K(2), {((), 0): byte("d1"), ((), 1): byte("d2")})], lambda a, b: cd(a, b)),
        ("CellType", "from_byte", None, [("x", 8)], [byte("x")],
         lambda x: next((some(cty(n)) for n, v in BYTES.items() if v == x), none)),
        ("CellType", "from_byte_exotic", None, [("x", 8)], [byte("x")],
         lambda x: next((some(cty(n)) for n, v in BYTES.items() if v == x and v != 0xff), none)),
    ]
    for n in TYPES:
        a = Ag(CT, variant(_p, n), ())
        t.append(("CellType", "to_byte", None, [], [a], lambda n=n: BYTES[n]))
        t.append(("CellType", "is_merkle", None, [], [a], lambda n=n: b2i(n.startswith("Merkle"))))
        t.append(("CellType", "is_exotic", None, [], [a], lambda n=n: b2i(n != "Ordinary")))
        t.append(("CellType", "is_pruned_branch", None, [], [a], lambda n=n: b2i(n == "PrunedBranch")))
        t.append(("CellType", "is_library", None, [], [a], lambda n=n: b2i(n == "LibraryReference")))
    return t


def do_table(i):
    ty, fn, tr, syms, args, exp = tables()[i]
    b = _p.method(ty, fn, tr) if tr else _p.method(ty, fn, None)
    b = [x for x in b if (x.get("trait") or "").split("::")[-1] == (tr or "")] or b
    if len(b) != 1:
        return [("%s::%s" % (ty, fn), "anchor", "%s::%s is not there" % (ty, fn))], 0, 0
    bad, k, rows = decide(Interp(_p), b[0], syms, args, exp)
    return [("%s::%s" % (ty, fn), "value", "%s::%s(%s) is %s, expected %s" % ((ty, fn) + x)) for x in bad[:1]], k, rows


# --------------------------------------------------------- finalisation -----
CP = "tycho_types::cell::cell_context::CellParts"
HB = "tycho_types::cell::HashBytes"
AV = "tycho_types::util::ArrayVec"
STATS = "tycho_types::cell::CellTreeStats"


def child_of(v):
    while isinstance(v, Ag) and len(v.f) == 1:
        v = v.f[0]
    return v.args[0] if isinstance(v, Opq) and v.name == "kid" else None


def kid_root(i, what, level):
    return ("KID", i, what, level)


def named_hash(name):
    return Ag(HB, 0, (Arr(K(32), {}, lambda key, name=name: int_sym((name, key[1]), 8)),))


def kid_hook(ip, st, c, args):
    """Children (opaque): level mask, hashes and depths per level, stats"""
    if not args:
        return None
    v = args[0]
    for _ in range(4):
        if not isinstance(v, Ref):
            break
        try:
            v = ip.read(st, v.root, v.path)
        except Undecided:
            return None
    if isinstance(v, Ag) and v.k.endswith("::Cell") if isinstance(v, Ag) and isinstance(v.k, str) else False:
        v = v.f[0]
    if not (isinstance(v, Opq) and v.name == "kid"):
        return None
    i, nm = v.args[0], c["nm"]
    if nm in ("as_ref", "deref", "borrow", "clone", "as_mut"):
        return [(st, v)]
    if nm == "descriptor":
        return [(st, Ag(CD, 0, (byte(("kd1", i)), byte(("kd2", i)))))]
    if nm == "stats":
        n = mkadt(ip.p, STATS, bit_count=kid_var(st, "kbits%d" % i, 1 << 40, 64), cell_count=kid_var(st, "kcells%d" % i, 1 << 40, 64))
        return [(st, n)]
    if nm in ("hash", "depth"):
        l = ip.affine(st, args[1])
        if l is None or l.t:
            raise Undecided("level of a child's " + nm)
        if nm == "depth":
            return [(st, kid_var(st, "kdepth%d@%d" % (i, l.c), 65535, 16))]
        root = kid_root(i, "hash", l.c)
        st.mem[root] = named_hash(("kidhash", i, l.c))
        return [(st, Ref(root))]
    return None


def kid_var(st, name, hi, w):
    if name not in st.vr:
        st.var(name, 0, hi)
    return Af(w, False, 0, ((name, 1),))


def max_hook(ip, st, c, a):
    """maximum of integers as a set"""
    if not ((c["path"].endswith("cmp::max") or c["nm"] == "max" and len(a) == 2) and c["retty"] and c["retty"][0] == "int" and not c["retty"][2]):
        return None
    x, y = ip.var_of(st, a[0]), ip.var_of(st, a[1])
    els = {}
    for v in (x, y):
        for e in MAXES.get(v.t[0][0], [v]) if len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1 else [v]:
            els[e.key()] = e
    els = {k: e for k, e in els.items() if not any(o is not e and same_le(st, e, o) for o in els.values())} or els
    if len(els) == 1:
        return [(st, list(els.values())[0])]
    name = "max(%s)" % (sorted(els),)
    MAXES[name] = list(els.values())
    if name not in st.vr:
        st.var(name, 0, (1 << c["retty"][1]) - 1)
        for e in els.values():
            d = lin_add((0, ((name, 1),)), 1, (e.c, e.t), -1)
            st.add(*d)
    return [(st, Af(c["retty"][1], False, 0, ((name, 1),)))]


MAXES = {}


def same_le(st, a, b):
    """a <= b entailed, and not merely equal both ways with a later key"""
    d = lin_add((b.c, b.t), 1, (a.c, a.t), -1)
    return st.holds(*d) and not (st.holds(-d[0], tuple((v, -k) for v, k in d[1])) and a.key() < b.key())


def is_max(st, d, els):
    """d is the maximum of els"""
    if not els:
        return isinstance(d, Af) and same_int(st, d, 0, ())
    if not isinstance(d, Af):
        return False
    for e in els:
        x = lin_add((d.c, d.t), 1, (e.c, e.t), -1)
        if not st.holds(*x):
            return False
    if any(same_af(st, d, e) for e in els):
        return True
    if len(d.t) == 1 and d.c == 0 and d.t[0][0] in MAXES:
        return all(any(same_af(st, m, e) for e in els) for m in MAXES[d.t[0][0]])
    return False


def desc_bits(ip, st, x):
    return [st.bit(b) for b in ip.bits(st, x)]


def want_bits(v, w=8):
    return [(v >> i) & 1 for i in range(w)]


class Stop(Exception):
    pass


def refs_arr(p, n):
    return mkadt(p, AV, inner=Arr(K(4), {}, lambda key: Opq("kid", (key[1],)), "words"), len=K(n, 8))


def do_build(r, exotic, n):
    """CellBuilder::build_ext on 8Q+r bits and n references"""
    p = _p
    b = [x for x in p.method("CellBuilder", "build_ext")]
    if len(b) != 1:
        return [("build_ext", "anchor", "CellBuilder::build_ext is not there")], 0
    got = []

    def fin(ip, st, c, args):
        if c["nm"] == "finalize_cell":
            got.append((st.copy(), args[1]))
            return [(st, Ok(Opq("cell!", ())))]
        return None
    ip = Interp(p, [fin, kid_hook, max_hook])
    st = ip.state()
    inner, terms = builder(ip, st, r)
    st.mem[("CX",)] = Opq("ctx", ())
    cb = mkadt(p, CB, inner=inner, is_exotic=K(1 if exotic else 0, 1), references=refs_arr(p, n))
    out = []
    tr = ip.run(st, b[0], [cb, Opq("ctx", ())])
    for t in tr:
        fl = flags_text(t.st)
        if fl:
            out.append(("arith", fl))
        if t.kind == "panic":
            out.append(("panic", str(t.why[0])))
    if len(got) != sum(1 for t in tr if t.kind == "ret"):
        out.append(("finalize", "a cell is built without finalize_cell (or with several)"))
    kids = [[sym(("kd1", i), 5 + k) for k in range(3)] for i in range(n)]
    for s, parts in got:
        g = lambda f: get(p, parts, f)
        bl = g("bit_len")
        if not same_int(s, bl, r, (("Q", 8),)):
            out.append(("bit_len", "the cell gets %r bits" % bl))
        d = g("data")
        if not isinstance(d, Sl) or not same_int(s, d.off, 0, ()) or not same_int(s, d.len, 1 if r else 0, (("Q", 1),)):
            out.append(("data", "the cell gets the bytes %r" % d))
        else:
            def exp(c):
                o = []
                for j in range(8):
                    k = 8 * c + j
                    o.append(dbit("d", c, j) if k < r else (1 if k == r and r else 0))
                return o
            arr = ip.read(s, d.root, d.path)
            e = check_arr(ip, s, arr, terms, exp, -2, 0 if r else -1)
            if e:
                out.append(("data", e))
        km = [0, 0, 0]
        for k in kids:
            km = [bor(x, y) for x, y in zip(km, k)]
        km = [s.bit(x) for x in km]
        have = desc_bits(ip, s, g("children_mask").f[0])
        if not same_bits(s, have, km + [0] * 5):
            out.append(("children_mask", "the children's mask is %r" % (have,)))
        want = km
        if exotic:
            if not s.possible(r - 8, (("Q", 8),)):
                want = None
            else:
                ty = possible_byte(s, [sym(("d", ((), 0)), i) for i in range(8)])
                if ty == {1}:
                    want = [s.bit(sym(("d", ((), 1)), i)) for i in range(3)]
                elif ty in ({3}, {4}):
                    want = km[1:] + [0]
                elif ty == {2}:
                    want = [0, 0, 0]
                elif not ty & {1, 2, 3, 4}:
                    want = None
                elif not s.holds(r - 8, (("Q", 8),)):
                    want = None
                else:
                    out.append(("exotic", "the type byte does not decide the level mask"))
                    want = None
        ds = g("descriptor")
        d1, d2 = desc_bits(ip, s, ds.f[0]), ip.affine(s, ds.f[1])
        if not same_bits(s, d1[:5], want_bits(n | (8 if exotic else 0), 5)):
            out.append(("d1", "the first descriptor byte is %r" % (d1,)))
        if want is not None and not same_bits(s, d1[5:], want):
            out.append(("level_mask", "the level mask is %s instead of %s" % ([show_bit(x) for x in d1[5:]], [show_bit(x) for x in want])))
        x = ds.f[1]
        if d2 is None:
            # (n >> 2) & !1 | (n % 8 != 0)
            d2 = even_plus(ip, s, x)
        if d2 is None or not same_int(s, d2, 1 if r else 0, (("Q", 2),)):
            out.append(("d2", "the second descriptor byte is %r" % (x,)))
        rf = g("references")
        ra, ln = get(p, rf, "inner"), get(p, rf, "len")
        if not same_int(s, ln, n, ()) or [child_of(ip.elem(s, ra, K(i))) for i in range(n)] != list(range(n)):
            out.append(("references", "the references change on the way"))
        if "stats" in (p.field_names(CP) or []):
            sv = g("stats")
            bc, cc = get(p, sv, "bit_count"), get(p, sv, "cell_count")
            kb = tuple(sorted([("Q", 8)] + [("kbits%d" % i, 1) for i in range(n)]))
            kc = tuple(sorted(("kcells%d" % i, 1) for i in range(n)))
            if not same_int(s, ip.var_of(s, bc), r, kb) or not same_int(s, ip.var_of(s, cc), 1, kc):
                out.append(("stats", "the tree stats are %r bits, %r cells" % (bc, cc)))
    return [("build_ext", k, t + " (alignment %d, %s, %d references)" % (r, "exotic" if exotic else "ordinary", n)) for k, t in out], len(tr)


def even_plus(ip, s, x):
    """an affine view of bits that are those of 2a, with the lowest one set apart"""
    b = ip.bits(s, x)
    if isinstance(b[0], int):
        v = Bv(x.w, x.sg, [0] + b[1:])
        a = ip.affine(s, v)
        if a is not None:
            return Af(x.w, x.sg, a.c + b[0], a.t)
        # (2a + c) with its low bit cleared
        s0 = [y for y in b[1:] if not isinstance(y, int)]
        if s0 and all(isinstance(y, tuple) and y[0] == "s" and isinstance(y[1][0], tuple) and y[1][0][0] == "af" for y in s0):
            nm = s0[0][1][0]
            if all(k % 2 == 0 for _, k in nm[1]):
                c = nm[2] & ~1
                full = [s.bit(y) for y in ip.bits(s, Af(x.w, False, nm[2], nm[1]))]
                if full[1:] == b[1:]:
                    return Af(x.w, x.sg, c + b[0], nm[1])
    return None


def same_bits(s, a, b):
    """equality of two lists of boolean functions (canonical by truth table)"""
    for x, y in zip(a, b):
        x, y = s.bit(x), s.bit(y)
        if x == y:
            continue
        vs = sorted(atoms(x) | atoms(y), key=repr)
        if len(vs) > 14:
            raise Undecided("too many bits")
        for n in range(1 << len(vs)):
            env = {v: (n >> i) & 1 for i, v in enumerate(vs)}
            if ev(x, env) != ev(y, env):
                return False
    return True


def atoms(b):
    if isinstance(b, int):
        return set()
    if b[0] in ("~", "&", "^"):
        return set().union(*[atoms(x) for x in b[1:]])
    return {b}


def ev(b, env):
    if isinstance(b, int):
        return b
    if b[0] == "~":
        return 1 - ev(b[1], env)
    if b[0] == "&":
        return ev(b[1], env) & ev(b[2], env)
    if b[0] == "^":
        return ev(b[1], env) ^ ev(b[2], env)
    return env[b]


def possible_byte(s, bits):
    """values of a byte that the path's facts about its bits allow"""
    out = set()
    cons = [(b, v) for b, v in s.asm.items() if atoms(b) & set(bits)]
    for x in range(256):
        env = {b: (x >> i) & 1 for i, b in enumerate(bits)}
        if all(not atoms(b) <= set(env) or ev(b, env) == v for b, v in cons):
            out.add(x)
    return out


# --------------------------------------------------------------- hashes -----
class Digests(list):
    def intern(self, inp):
        for i, x in enumerate(self):
            if x == inp:
                return i
        self.append(inp)
        return len(self) - 1


def sha_hook_for(dg):
    def sha(ip, st, c, a):
        tr, nm = (c["trait"] or "").split("::")[-1], c["nm"]
        if tr == "Digest" or "digest::digest::Digest" in c["path"] or c["path"].startswith("digest::"):
            if nm == "new":
                return [(st, Ag("sha", 0, ()))]
            if nm in ("update", "chain_update"):
                r = a[0]
                h = ip.read(st, r.root, r.path) if isinstance(r, Ref) else r
                h2 = Ag("sha", 0, h.f + (chunk(ip, st, a[1]),))
                if nm == "chain_update":
                    return [(st, h2)]
                ip.write(st, r.root, r.path, h2)
                return [(st, UNIT)]
            if nm in ("finalize", "digest"):
                h = a[0] if nm == "finalize" else Ag("sha", 0, (chunk(ip, st, a[0]),))
                return [(st, Opq("digest", (dg.intern(norm_chunks(h.f)),)))]
        if nm in ("into", "from") and len(a) == 1 and isinstance(a[0], Opq) and a[0].name == "digest":
            name = ("dg", a[0].args[0])
            arr = Arr(K(32), {}, lambda key: int_sym((name, key[1]), 8))
            if c["retty"] and c["retty"][0] == "adt" and c["retty"][1] == HB:
                return [(st, Ag(HB, 0, (arr,)))]
            return [(st, arr)]
        return None
    return sha


def chunk(ip, st, v):
    while isinstance(v, Ref):
        v = ip.read(st, v.root, v.path)
    if isinstance(v, Ag) and v.k == HB:
        v = v.f[0]
    if isinstance(v, Arr):
        if v.n.t:
            raise Undecided("hash input")
        return tuple(tuple(ip.bits(st, ip.elem(st, v, K(i)))) for i in range(v.n.c))
    if isinstance(v, Sl):
        if v.len.t:
            return ("slice", v.root, v.path, v.off.key(), v.len.key())
        arr = ip.read(st, v.root, v.path)
        return tuple(tuple(ip.bits(st, ip.elem(st, arr, ip.plus(v.off, i)))) for i in range(v.len.c))
    raise Undecided("hash input %r" % (v,))


def norm_chunks(cs):
    """adjacent byte strings are joined: only the concatenation counts"""
    out = []
    for c in cs:
        if c and c[0] == "slice":
            out.append(c)
        elif out and not (out[-1] and out[-1][0] == "slice"):
            out[-1] = out[-1] + c
        elif c:
            out.append(c)
    return tuple(out)


def vec_hook(ip, st, c, a):
    """Vec as an array of known length"""
    if "alloc::vec::Vec" not in c["path"]:
        return None
    nm = c["nm"]
    if nm in ("with_capacity", "new"):
        return [(st, Arr(K(0), {}, None, "words"))]
    if nm == "push":
        v = ip.read(st, a[0].root, a[0].path)
        d = dict(v.d)
        d[v.n.key()] = a[1]
        ip.write(st, a[0].root, a[0].path, Arr(ip.plus(v.n, 1), d, v.init, v.name))
        return [(st, UNIT)]
    if nm == "len":
        return [(st, ip.length(st, a[0]))]
    if nm in ("deref", "as_slice", "as_ref", "deref_mut"):
        x = ip.read(st, a[0].root, a[0].path)
        if isinstance(x, Arr):
            return [(st, Sl(a[0].root, a[0].path, K(0), x.n))]
    return None


SHAPE = {"PrunedBranch": None, "LibraryReference": (264, 0), "MerkleProof": (280, 1), "MerkleUpdate": (552, 2)}


def do_hashes(mask, exotic, n):
    """CellParts::compute_hashes of a cell with the given level mask and n references"""
    p = _p
    b = p.method("CellParts", "compute_hashes")
    if len(b) != 1:
        return [("compute_hashes", "anchor", "CellParts::compute_hashes is not there")], 0
    dg = Digests()
    ip = Interp(p, [sha_hook_for(dg), vec_hook, kid_hook, max_hook], max_steps=2000000)
    st = ip.state()
    st.var("N", 0, MAX)
    st.var("LB", 0, 128)
    st.add(0, (("LB", 8), ("N", -1)))
    st.add(7, (("LB", -8), ("N", 1)))
    st.mem[("X",)] = Arr(Af(64, False, 0, (("LB", 1),)), {}, content("x", ()))
    d1 = Bv(8, False, [(n >> i) & 1 for i in range(3)] + [exotic, sym("store_hashes", 0)] + [(mask >> i) & 1 for i in range(3)])
    kw = dict(bit_len=Af(16, False, 0, (("N", 1),)), descriptor=Ag(CD, 0, (d1, byte("d2"))), children_mask=mask_arg("km"),
              references=refs_arr(p, n), data=Sl(("X",), (), K(0), Af(64, False, 0, (("LB", 1),))))
    if "stats" in p.field_names(CP):
        kw["stats"] = Opq("stats")
    st.mem[("P",)] = mkadt(p, CP, **kw)
    out = []
    tr = ip.run(st, b[0], [Ref(("P",))])
    tb = [sym(("x", 0), i) for i in range(8)]
    km = [sym("km", i) for i in range(3)]
    oks = 0
    for t in tr:
        s = t.st
        fl = flags_text(s)
        if fl:
            out.append(("arith", fl))
        if t.kind == "panic":
            out.append(("panic", str(t.why[0])))
            continue
        # the type of the cell
        kind = "Ordinary"
        valid = []  # (what, decided true / decided false / None)
        if exotic:
            if s.possible(-8, (("N", 1),)):
                ty = possible_byte(s, tb)
                good = ty & {1, 2, 3, 4}
                if len(ty) == 1 and good:
                    kind = {v: k for k, v in BYTES.items()}[ty.pop()]
                elif not good:
                    kind = None
                elif s.holds(-8, (("N", 1),)):
                    out.append(("type", "the type byte does not decide the outcome"))
                    continue
            else:
                kind = None
        ok = t.val.v == 0
        if kind is None:
            if ok:
                out.append(("accepts", "accepts an exotic cell of no known type (%s)" % show_range(s)))
            continue
        shape = SHAPE.get(kind, ())
        if kind == "PrunedBranch":
            shape = (16 + 272 * pop(mask), 0)
        if kind == "Ordinary":
            lv = [same_mask(s, km, mask)]
        elif kind == "PrunedBranch":
            lv = [mask != 0, eq_len(s, shape[0]), n == 0,
                  same_mask(s, [sym(("x", 1), i) for i in range(8)], mask) if s.possible(-16, (("N", 1),)) else False]
        elif kind == "LibraryReference":
            lv = [mask == 0, eq_len(s, shape[0]), n == 0]
        else:
            lv = [eq_len(s, shape[0]), n == shape[1], same_mask(s, km[1:] + [0], mask)]
        levels = [0] if kind == "PrunedBranch" else [0] + [l for l in (1, 2, 3) if mask >> (l - 1) & 1]
        off = 1 if kind in ("MerkleProof", "MerkleUpdate") else 0
        depths = {l: [Af(16, False, 1, (("kdepth%d@%d" % (i, l + off), 1),)) for i in range(n)] for l in levels}
        deep = [e for l in levels for e in depths[l] if e.t[0][0] in s.vr]
        over = any(s.holds(e.c - 65536, e.t) for e in deep)
        if not ok:
            if not (any(x is False for x in lv) or over):
                out.append(("refuses", "refuses a valid %s cell (%s)" % (kind, show_range(s))))
            continue
        oks += 1
        if any(x is not True for x in lv):
            out.append(("accepts", "accepts an invalid %s cell: conditions %s" % (kind, lv)))
            continue
        if any(not s.holds(65535 - e.c, tuple((v, -k) for v, k in e.t)) for e in deep):
            out.append(("accepts", "accepts a cell deeper than 65535"))
            continue
        hs = t.val.f[0]
        if hs.n.t or hs.n.c != len(levels):
            out.append(("count", "computes %r hashes for the levels %s of a %s cell" % (hs.n, levels, kind)))
            continue
        prev = None
        for i, l in enumerate(levels):
            pair = ip.elem(s, hs, K(i))
            lmask = mask if kind == "PrunedBranch" else from_level(l)
            e1 = tuple(want_bits(n | exotic << 3 | lmask << 5))
            e2 = tuple(s.bit(x) for x in int_sym("d2", 8).b)
            want = [(e1, e2)]
            if l == 0:
                want.append(("slice", ("X",), (), ((), 0), ((("LB", 1),), 0)))
            else:
                want.append(tuple(tuple(s.bit(x) for x in int_sym((prev, k), 8).b) for k in range(32)))
            for e in range(n):
                a = Af(16, False, 0, (("kdepth%d@%d" % (e, l + off), 1),))
                bb = ip.bits(s, a)
                want.append((tuple(bb[8:]), tuple(bb[:8])))
            for e in range(n):
                want.append(tuple(int_sym((("kidhash", e, l + off), k), 8).b for k in range(32)))
            got = ip.elem(s, pair.f[0].f[0], K(0))
            nm = got.b[0][1][0][0] if isinstance(got, Bv) and isinstance(got.b[0], tuple) and got.b[0][0] == "s" and isinstance(got.b[0][1][0], tuple) else None
            whole = nm is not None and all(ip.bits(s, ip.elem(s, pair.f[0].f[0], K(k))) == list(int_sym((nm, k), 8).b) for k in range(32))
            if not whole or nm[0] != "dg":
                out.append(("hash", "the hash of level %d is not a digest: %r" % (l, got)))
                break
            have = norm_sizes(s, dg[nm[1]])
            if have != norm_sizes(s, norm_chunks(want)):
                out.append(("hash", "the hash of level %d of a %s cell covers %s, expected %s" % (l, kind, show_in(have), show_in(norm_sizes(s, norm_chunks(want))))))
                break
            prev = nm
            d = pair.f[1]
            if not is_max(s, ip.var_of(s, d), depths[l]):
                out.append(("depth", "the depth of level %d of a %s cell is %r" % (l, kind, d)))
                break
    kinds = "exotic" if exotic else "ordinary"
    return [("compute_hashes", k, t + " (mask %s, %s, %d references)" % (bin(mask)[2:], kinds, n)) for k, t in out], len(tr), oks


def same_mask(s, bits, m):
    """True/False/None: the 3- or 8-bit value equals m"""
    r = [s.bit(b) for b in bits]
    w = want_bits(m, len(r))
    if r == w:
        return True
    if any(isinstance(x, int) and x != y for x, y in zip(r, w)):
        return False
    vs = sorted(set().union(*[atoms(x) for x in r]), key=repr)
    env = {}
    for i, x in enumerate(r):
        if not isinstance(x, int) and x[0] == "s":
            env[x] = w[i]
    for b, v in s.asm.items():
        a = atoms(b)
        if a <= set(env) and ev(b, env) != v:
            return False
    return None


def eq_len(s, n):
    a, b = s.holds(-n, (("N", 1),)), s.holds(n, (("N", -1),))
    if a and b:
        return True
    if not (feasible(s.all_cons() + [(-n, (("N", 1),)), (n, (("N", -1),))])):
        return False
    return None


def norm_sizes(s, chunks):
    """variables of one value are replaced"""
    out = []
    for c in chunks:
        if c and c[0] == "slice":
            t, k = c[4]
            for v, m in t:
                lo, hi = s.vr[v]
                if lo == hi:
                    k, t = k + m * lo, tuple(x for x in t if x[0] != v)
            out.append(c[:4] + ((t, k),))
        else:
            out.append(tuple(tuple(s.bit(b) for b in x) for x in c))
    return tuple(out)


def show_in(cs):
    o = []
    for c in cs:
        if c and c[0] == "slice":
            o.append("data[%s..+%s]" % (c[3], c[4]))
        else:
            for x in c:
                o.append("".join(show_bit(b) for b in reversed(x)) if all(isinstance(b, int) for b in x) else show_bit([b for b in x if not isinstance(b, int)][0]))
    return " | ".join(o)[:600]


# ------------------------------------------------------ implementations -----
CI = "tycho_types::cell::cell_impl::"
HWD, OCH, PBH = CI + "HeaderWithData", CI + "OrdinaryCellHeader", CI + "PrunedBranchHeader"
SELF = ("SELF",)


def wrap_hook(ip, st, c, a):
    """a virtualised view is named instead of being built"""
    if c["nm"] == "wrap" and "VirtualCellWrapper" in c["path"]:
        return [(st, Opq("virtual", (pointee(a[0]),)))]
    if c["nm"] == "virtualize" and a:
        v = a[0]
        while isinstance(v, Ref):
            try:
                v = ip.read(st, v.root, v.path)
            except Undecided:
                return None
        while isinstance(v, Ag) and len(v.f) == 1:
            v = v.f[0]
        if isinstance(v, Opq) and v.name in ("kid", "inner"):
            return [(st, Opq("virtual", (v,)))]
    if c["nm"] == "untrack":
        return None
    return None


def pointee(r):
    return repr(r.root) if isinstance(r, Ref) and not r.path else repr(r)


def inner_hook(ip, st, c, a):
    """methods of the wrapped cell (opaque)"""
    if not a:
        return None
    v = a[0]
    for _ in range(4):
        if not isinstance(v, Ref):
            break
        try:
            v = ip.read(st, v.root, v.path)
        except Undecided:
            return None
    while isinstance(v, Ag) and len(v.f) == 1:
        v = v.f[0]
    if not (isinstance(v, Opq) and v.name == "inner"):
        return None
    nm = c["nm"]
    if nm in ("as_ref", "deref", "borrow"):
        return [(st, v)]
    if nm == "descriptor":
        return [(st, Ag(CD, 0, (Bv(8, False, [sym("d1", i) if i < 5 or i > 7 else sym("m", i - 5) for i in range(8)]), byte("d2"))))]
    if nm in ("hash", "depth"):
        return [(s, Opq("inner." + nm, (n,))) for s, n in enum(ip, st, a[1])]
    if nm in ("data", "bit_len", "stats"):
        return [(st, Opq("inner." + nm))]
    if nm in ("reference", "reference_cloned"):
        l = ip.affine(st, a[1])
        key = "has%s" % (l.c,)
        return [(s, Some(Opq("kid", (l.c,))) if x else NONE) for s, x in ip.branch(st, B(sym(key, 0)))]
    return None


def enum(ip, st, v):
    """concrete values of a small bit vector"""
    bs = [st.bit(b) for b in ip.bits(st, v)]
    vs = [i for i, b in enumerate(bs) if not isinstance(b, int)]
    if len(vs) > 4:
        raise Undecided("level")
    out = [(st, 0)]
    for i, b in enumerate(bs):
        nxt = []
        for s, n in out:
            for s2, x in ip.branch(s, B(b)) if not isinstance(b, int) else [(s, b)]:
                nxt.append((s2, n | (1 if x else 0) << i))
        out = nxt
    return out


def impl_method(self_name, nm, targ=None):
    r = [b for b in _p.method(self_name, nm, "CellImpl")]
    if targ:
        r = [b for b in r if targ in _p.tystr(_p.ty(b["self"]))]
    return r


def d1_of(mask, exotic, n=0):
    return K(n | exotic << 3 | mask << 5, 8)


def ordinary(mask, d1=None, n=4):
    p = _p
    hs = Arr(K(pop(mask) + 1), {((), i): Ag("tuple", 0, (Opq("H", (i,)), K(100 + i, 16))) for i in range(pop(mask) + 1)}, None, "words")
    kw = dict(bit_len=byte_n("bl", 10, 16), hashes=hs, without_first=K(0, 1),
              descriptor=Ag(CD, 0, (d1 if d1 is not None else d1_of(mask, 0, n), byte("d2"))),
              references=Arr(K(4), {((), i): Opq("kid", (i,)) for i in range(4)}, None, "words"))
    if "stats" in p.field_names(OCH):
        kw["stats"] = Opq("stats")
    return mkadt(p, HWD, header=mkadt(p, OCH, **kw), data=Arr(K(128), {}, content("x", ())))


def pruned(mask):
    p = _p
    h = mkadt(p, PBH, repr_hash=Opq("H", ("repr",)), level=K(pop(mask), 8), descriptor=Ag(CD, 0, (d1_of(mask, 1), byte("d2"))))
    return mkadt(p, HWD, header=h, data=Arr(K(128), {}, content("x", ())))


def byte_n(nm, w, n):
    return Bv(n, False, [sym(nm, i) if i < w else 0 for i in range(n)])


def impl_cases():
    L = [("l", 8)]
    la = byte("l")
    ra = byte("i", 5)
    out = []

    def add(kind, nm, syms, args, obj, exp, where=None, targ=None, sub=None, label=""):
        out.append((kind, nm, syms, args, obj, exp, where, targ, sub, label))
    H = lambda i: repr(Opq("H", (i,)))
    kid = lambda i: (OPTION, 1, repr(Opq("kid", (i,))))
    for m in range(8):
        o = lambda m=m: ordinary(m)
        add("HeaderWithData", "hash", L, [la], o, lambda l, m=m: H(pop(m & from_level(l))), None, "OrdinaryCellHeader", None, "mask %d" % m)
        add("HeaderWithData", "depth", L, [la], o, lambda l, m=m: 100 + pop(m & from_level(l)), None, "OrdinaryCellHeader", None, "mask %d" % m)
        add("HeaderWithData", "virtualize", [], [], o, lambda m=m: repr(Opq("self" if m == 0 else "virtual", (repr(SELF),))),
            as_self, "OrdinaryCellHeader", None, "mask %d" % m)
        if m:
            o = lambda m=m: pruned(m)

            def exph(l, m=m):
                i = pop(m & from_level(l))
                return H("repr") if i == pop(m) else ("bytes", 2 + 32 * i, 32)

            def expd(l, m=m):
                i = pop(m & from_level(l))
                return 0 if i == pop(m) else ("bytes", 2 + 32 * pop(m) + 2 * i, 2)
            add("HeaderWithData", "hash", L, [la], o, exph, "content", "PrunedBranchHeader", None, "mask %d" % m)
            add("HeaderWithData", "depth", L, [la], o, expd, "content", "PrunedBranchHeader", None, "mask %d" % m)
            add("HeaderWithData", "bit_len", [], [], o, lambda m=m: 16 + 272 * pop(m), None, "PrunedBranchHeader", None, "mask %d" % m)
            add("HeaderWithData", "virtualize", [], [], o, lambda: repr(Opq("virtual", (repr(SELF),))), None, "PrunedBranchHeader", None, "mask %d" % m)
    for nm in ("reference", "reference_cloned"):
        for r in range(5):
            add("HeaderWithData", nm, [("i", 5)], [ra], lambda r=r: ordinary(0, None, r), lambda i, r=r: kid(i) if i < r else none,
                None, "OrdinaryCellHeader", None, "%d references" % r)
        add("HeaderWithData", nm, [("i", 5)], [ra], lambda: pruned(1), lambda i: none, None, "PrunedBranchHeader")
        for k in ("EmptyOrdinaryCell", "StaticCell", "LibraryReference"):
            add(k, nm, [("i", 5)], [ra], lambda k=k: fixed(k), lambda i: none)
    for k, o in (("OrdinaryCellHeader", lambda: ordinary(0)), ("PrunedBranchHeader", lambda: pruned(1))):
        add("HeaderWithData", "data", [("d2", 8)], [], o, lambda d2: repr(Opq("own data", ((d2 + 1) // 2,))), "data", k)
        add("HeaderWithData", "descriptor", [("d2", 8)], [], o, lambda d2, k=k: cd(0x04 if k[0] == "O" else 0x28, d2), None, k)
    add("HeaderWithData", "bit_len", [("bl", 10)], [], lambda: ordinary(0), lambda b: b, None, "OrdinaryCellHeader")
    for k in ("EmptyOrdinaryCell", "StaticCell", "LibraryReference"):
        add(k, "depth", L, [la], lambda k=k: fixed(k), lambda l: 0)
        add(k, "virtualize", [], [], lambda k=k: fixed(k), lambda: repr(Opq("self", (repr(SELF),))), as_self)
        add(k, "hash", L, [la], lambda k=k: fixed(k), {
            "EmptyOrdinaryCell": lambda l: EMPTY_HASH, "StaticCell": lambda l: H("static"), "LibraryReference": lambda l: H("repr")}[k])
    for k in ("StaticCell", "LibraryReference"):
        add(k, "descriptor", [("d1", 8)], [], lambda k=k: fixed(k, 0), lambda d1: cd(d1, 0))
    add("EmptyOrdinaryCell", "descriptor", [], [], lambda: fixed("EmptyOrdinaryCell"), lambda: cd(0, 0))
    add("EmptyOrdinaryCell", "bit_len", [], [], lambda: fixed("EmptyOrdinaryCell"), lambda: 0)
    add("EmptyOrdinaryCell", "data", [], [], lambda: fixed("EmptyOrdinaryCell"), lambda: ())
    add("StaticCell", "bit_len", [], [], lambda: fixed("StaticCell"), lambda: 37)
    add("StaticCell", "data", [], [], lambda: fixed("StaticCell"), lambda: repr(Opq("data of", ("X", 5))), "data")
    add("LibraryReference", "bit_len", [], [], lambda: fixed("LibraryReference"), lambda: 264)
    add("LibraryReference", "data", [], [], lambda: fixed("LibraryReference"), lambda: repr(Opq("own data", (33,))), "data")
    # virtualised views of a cell of level at most one look like the original
    V = [("VirtualCell", None)] + [("VirtualCellWrapper", n) for n in (0, 1, 2)]
    for k, lvl in V:
        o = lambda k=k: Ag(CI + k, 0, (Opq("inner", ()),))
        sub = {"L": ("n", lvl)} if lvl is not None else None
        lab = "L=%s" % lvl if lvl is not None else ""
        I = lambda nm, *a: repr(Opq("inner." + nm, a))
        top = (lvl or 0) + 1
        M = [("m", 3)]
        for nm in ("hash", "depth"):
            add(k, nm, M + L, [la], o, lambda m, l, nm=nm, top=top: I(nm, 0) if m < (1 << top) else None, None, None, sub, lab)
        for nm in ("data", "bit_len"):
            add(k, nm, [], [], o, lambda nm=nm: I(nm), None, None, sub, lab)
        add(k, "descriptor", [("d1", 5), ("m", 3), ("d2", 8)], [], o, lambda d1, m, d2: cd(d1 | m << 5, d2), None, None, sub, lab)
        for i in range(5):
            for nm in ("reference", "reference_cloned"):
                add(k, nm, [("has%d" % i, 1)], [K(i, 8)], o, lambda h, i=i: (OPTION, 1, repr(Opq("virtual", (Opq("kid", (i,)),)))) if h else none,
                    None, None, sub, lab + " index %d" % i)
    return out


EMPTY_HASH = tuple(bytes.fromhex("96a296d224f285c67bee93c30f8a309157f0daa35dc5b87e410b78630a09cfc7"))


def as_self(t):
    return Opq("self", (repr(SELF),)) if isinstance(t.val, Ref) and t.val.root == SELF and not t.val.path else t.val


def fixed(k, d2=None):
    p = _p
    d = desc_arg() if d2 is None else Ag(CD, 0, (byte("d1"), K(d2, 8)))
    if k == "EmptyOrdinaryCell":
        return Ag(CI + k, 0, ())
    if k == "StaticCell":
        return mkadt(p, CI + k, descriptor=d, data=Sl(("X",), (), K(0), K(5)), bit_len=K(37, 16), hash=Opq("H", ("static",)))
    return mkadt(p, CI + k, repr_hash=Opq("H", ("repr",)), descriptor=d, data=Arr(K(33), {}, content("x", ())))


def bytes_at(ip, st, v):
    """(start, n) when v is made of consecutive whole bytes of the content x (big endian)"""
    if isinstance(v, Ref):
        v = ip.read(st, v.root, v.path)
    while isinstance(v, Ag) and len(v.f) == 1:
        v = v.f[0]
    if isinstance(v, Arr) and not v.n.t:
        bs = [[st.bit(b) for b in ip.bits(st, ip.elem(st, v, K(i)))] for i in range(v.n.c)]
    elif isinstance(v, Bv):
        b = [st.bit(x) for x in v.b]
        bs = [b[i:i + 8] for i in range(len(b) - 8, -1, -8)]
    else:
        return None
    o = None
    for k, b in enumerate(bs):
        if not (isinstance(b[0], tuple) and b[0][0] == "s" and isinstance(b[0][1][0], tuple) and b[0][1][0][0] == "x"):
            return None
        if k == 0:
            o = b[0][1][0][1]
        if b != [sym(("x", o + k), i) for i in range(8)]:
            return None
    return Ag("bytes", 0, (o, len(bs)))


def do_impl(i):
    p = _p
    kind, nm, syms, args, obj, exp, where, targ, sub, label = impl_cases()[i]
    name = "%s%s::%s" % (kind, "<%s>" % targ if targ else "", nm)
    bs = impl_method(kind, nm, targ)
    if len(bs) != 1:
        return [(name, "anchor", name + " is not there")], 0, 0
    ip = Interp(p, [wrap_hook, vec_hook, inner_hook, kid_hook])

    def prep(st):
        st.mem[SELF] = obj()
    w = where
    if where == "content":
        def w(t):
            b = bytes_at(ip, t.st, t.val)
            return Opq("bytes", b.f) if b is not None else t.val
        exp0 = exp
        exp = lambda *a: (lambda r: repr(Opq("bytes", r[1:])) if isinstance(r, tuple) and r[0] == "bytes" else r)(exp0(*a))
    if where == "data":
        def w(t):
            v = t.val
            if isinstance(v, Sl) and v.root == SELF and isinstance(ip.read(t.st, v.root, v.path), Arr) and not v.off.t and v.off.c == 0:
                return Opq("own data", (v.len,))
            if isinstance(v, Sl) and v.root == ("X",) and not v.off.t and v.off.c == 0:
                return Opq("data of", ("X", v.len.c))
            return v
    bad, k, rows = decide(ip, bs[0], syms, [Ref(SELF)] + args, exp, sub, prep, w)
    return [(name, "value", "%s(%s) is %s, expected %s (%s)" % ((name,) + x + (label,))) for x in bad[:1]], k, rows


# ---------------------------------------------------------- construction ----
def do_make(kind, mask, n):
    """finalize_cell of the empty context: the object that is built"""
    p = _p
    bs = p.method("EmptyCellContext", "finalize_cell", "CellContext")
    lab = "%s, mask %d, %d references" % (kind, mask, n)
    if len(bs) != 1:
        return [("make_cell", "anchor", "finalize_cell is not there")], 0
    made = []

    def hook(ip, st, c, a):
        if c["nm"] == "compute_hashes":
            k = 1 if kind in ("PrunedBranch", "LibraryReference") else 1 + pop(mask)
            hs = Arr(K(k), {((), i): Ag("tuple", 0, (Opq("H", (i,)), K(100 + i, 16))) for i in range(k)}, None, "words")
            return [(st, Ok(hs)), (st.copy(), Err(Opq("E", ())))]
        for x in a:
            if isinstance(x, Ag) and x.k in (OCH, PBH):
                d = [y for y in a if isinstance(y, Sl)]
                made.append((st, x, d[0] if len(d) == 1 else None))
                return [(st, Opq("cell!", (len(made) - 1,)))]
        if c["nm"] == "new" and ("::Arc::" in c["path"] or "::Rc::" in c["path"]):
            made.append((st, a[0], None))
            return [(st, Opq("cell!", (len(made) - 1,)))]
        return None
    ip = Interp(p, [hook, vec_hook, kid_hook])
    st = ip.state()
    st.mem[("X",)] = Arr(K(128), {}, content("x", ()))
    blen = 16 + 272 * pop(mask) if kind == "PrunedBranch" else 264 if kind == "LibraryReference" else 0 if kind == "empty" else 77
    dl = (blen + 7) // 8
    d2 = blen // 8 + dl
    ex = 0 if kind in ("Ordinary", "empty") else 1
    kw = dict(bit_len=K(blen, 16), descriptor=Ag(CD, 0, (K(n | ex << 3 | mask << 5, 8), K(d2, 8))), children_mask=mask_arg("km"),
              references=refs_arr(p, n), data=Sl(("X",), (), K(0), K(dl)))
    if "stats" in p.field_names(CP):
        kw["stats"] = Opq("stats")
    out = []
    tr = ip.run(st, bs[0], [Opq("ctx", ()), mkadt(p, CP, **kw)])
    name = "make_cell"
    oks = 0
    for t in tr:
        if t.kind == "panic":
            out.append(("panic", "may panic (%s)" % (t.why,)))
            continue
        if t.val.v == 1:
            if repr(t.val.f[0]) != repr(Opq("E", ())):
                out.append(("error", "refuses valid parts"))
            continue
        v = t.val.f[0]
        while isinstance(v, Ag) and len(v.f) == 1:
            v = v.f[0]
        if not (isinstance(v, Opq) and v.name == "cell!"):
            out.append(("result", "gives %r" % (v,)))
            continue
        oks += 1
        s, h, d = made[v.args[0]]
        g = lambda f: get(p, h, f)
        want = {"PrunedBranch": PBH, "LibraryReference": CI + "LibraryReference", "empty": CI + "EmptyOrdinaryCell"}.get(kind, OCH)
        if h.k != want:
            out.append(("class", "builds %s instead of %s" % (h.k, want)))
            continue
        if kind == "empty":
            continue
        dd = g("descriptor")
        if [ip.affine(s, x).c for x in dd.f] != [n | ex << 3 | mask << 5, d2]:
            out.append(("descriptor", "keeps the descriptor %r" % (dd,)))
        if kind == "LibraryReference":
            if repr(g("repr_hash")) != repr(Opq("H", (0,))):
                out.append(("hash", "keeps the hash %r" % (g("repr_hash"),)))
            b = bytes_at(ip, s, g("data"))
            if b is None or b.f != (0, 33):
                out.append(("data", "keeps other data"))
            continue
        if d is None or d.root != ("X",) or not same_int(s, d.off, 0, ()) or not same_int(s, d.len, dl, ()):
            out.append(("data", "keeps the data %r" % (d,)))
        if kind == "PrunedBranch":
            if repr(g("repr_hash")) != repr(Opq("H", (0,))):
                out.append(("hash", "keeps the hash %r" % (g("repr_hash"),)))
            lv = ip.split_bits(s, g("level"))
            if [x for _, x in lv] != [pop(mask)]:
                out.append(("level", "keeps the level %r" % (g("level"),)))
            continue
        if not same_int(s, ip.affine(s, g("bit_len")), blen, ()):
            out.append(("bit_len", "keeps %r bits" % (g("bit_len"),)))
        hs = g("hashes")
        if not isinstance(hs, Arr) or [repr(ip.elem(s, hs, K(i)).f) for i in range(1 + pop(mask))] != [repr((Opq("H", (i,)), K(100 + i, 16))) for i in range(1 + pop(mask))]:
            out.append(("hash", "keeps the hashes %r" % (hs,)))
        rf = g("references")
        if [child_of(ip.elem(s, rf, K(i))) for i in range(n)] != list(range(n)):
            out.append(("references", "keeps other references"))
        if "stats" in p.field_names(OCH) and repr(g("stats")) != repr(Opq("stats")):
            out.append(("stats", "keeps other stats"))
    if not oks:
        out.append(("result", "never succeeds"))
    return [(name, k, t + " (" + lab + ")") for k, t in out], len(tr)


def do_const():
    """every StaticCell constant: descriptor, data and hash belong together"""
    import hashlib
    p = _p
    out, n = [], 0
    for c in p.consts:
        if c["p"].endswith("::EMPTY_CELL_HASH"):
            n += 1
            b = p_bytes(c)
            if b != hashlib.sha256(b"\0\0").digest():
                out.append((c["p"], "hash", "EMPTY_CELL_HASH is not the hash of the empty cell"))
        t = p.ty(c["t"])
        if not (t[0] == "adt" and t[1] == CI + "StaticCell" and "body" in c):
            continue
        n += 1
        ip = Interp(p, [])
        st = ip.state()
        tr = ip.run(st, c["body"], [])
        if len(tr) != 1:
            raise Undecided("constant")
        s, v = tr[0].st, tr[0].val
        g = lambda f: get(p, v, f)
        ds = [ip.affine(s, x) for x in g("descriptor").f]
        bl = ip.affine(s, g("bit_len")).c
        data, hs = all_bytes(ip, s, g("data")), all_bytes(ip, s, g("hash"))
        d1, d2 = ds[0].c, ds[1].c
        nm = c["p"].split("::")[-1]
        if d1 != 0 or d2 != bl // 8 + (bl + 7) // 8 or len(data) != (bl + 7) // 8 or bl > MAX:
            out.append((nm, "descriptor", "%s: descriptor %d %d, %d bits, %d bytes" % (nm, d1, d2, bl, len(data))))
        if bl % 8:
            k = 8 - bl % 8
            if data[-1] & ((1 << k) - 1) != 1 << (k - 1):
                out.append((nm, "tag", "%s has no completion tag" % nm))
        if hashlib.sha256(bytes([d1, d2]) + data).digest() != hs:
            out.append((nm, "hash", "%s has another hash" % nm))
    return out, n


def p_bytes(c):
    a = c["al"]
    while a.get("p"):
        a = a["p"][0][1]["m"]
    return bytes.fromhex(a["b"])


def all_bytes(ip, st, v):
    while isinstance(v, Ref):
        v = ip.read(st, v.root, v.path)
    if isinstance(v, Sl):
        arr, o, n = ip.read(st, v.root, v.path), v.off, v.len.c
    else:
        arr, o, n = v, K(0), v.n.c
    return bytes(ip.affine(st, ip.elem(st, arr, ip.plus(o, i))).c for i in range(n))


def run_case(case):
    what = case[0]
    try:
        if what == "table":
            b, k, r = do_table(case[1])
        elif what == "build":
            b, k = do_build(*case[1:])
            r = 1
        elif what == "hashes":
            b, k, r = do_hashes(*case[1:])
        elif what == "impl":
            b, k, r = do_impl(case[1])
        elif what == "make":
            b, k = do_make(*case[1:])
            r = 1
        else:
            b, k = do_const()
            r = k
    except GIVE_UP as e:
        nm = {"table": lambda: "%s::%s" % tables()[case[1]][:2], "build": lambda: "build_ext", "hashes": lambda: "compute_hashes",
              "impl": lambda: "%s::%s" % tuple(impl_cases()[case[1]][:2]), "make": lambda: "make_cell", "const": lambda: "constants"}[what]()
        return [(nm, "undecided", "%s cannot be decided: %s" % (nm, e))], 0, 0, what
    return b, k, r, what


EXPLAIN = """
Functions of a few input bits (LevelMask, CellDescriptor, CellType, and hash, depth, references, data of every cell
representation) are interpreted from their MIR on symbolic bits and the results of all paths compared with the
definition by truth table.  CellBuilder::build_ext is interpreted on a symbolic builder (8Q+r bits, n opaque children
with unknown level masks and depths): descriptor bytes, level mask, completion tag, data and references handed to
finalize_cell must be those of the definition.  CellParts::compute_hashes is interpreted for every level mask, both
exotic flags and 0..4 opaque children, with the type byte, sizes, masks and depths unknown: it succeeds exactly on
the valid parts, and the input of every digest is, byte for byte, descriptor, data or previous hash, depths and
hashes of the children at the right level; depth is one more than the maximum.  finalize_cell of the default context
keeps these parts in the representation for the type.  Constants are checked against SHA-256 of their definition."""

ASSUMPTIONS = ["sha2 computes SHA-256 of the concatenation of its updates",
               "children report a hash and depth for each level that is consistent with their own level mask",
               "the level offset of a virtualised view is specified only for cells whose levels it removes"]


def check(cx):
    global _p
    _p = cx.prog("main")
    cs = [("const",)] + [("table", i) for i in range(len(tables()))]
    al = range(8) if cx.tier == "thorough" else (0, 1, 3, 7)
    cs += [("build", r, e, n) for r in al for e in (False, True) for n in (range(5) if r in (0, 3) else (0, 2))]
    cs += [("hashes", m, e, n) for m in range(8) for e in (0, 1) for n in range(5)]
    cs += [("impl", i) for i in range(len(impl_cases()))]
    mk = []
    for m in range(8):
        for k, n in (("Ordinary", 3), ("Ordinary", 4), ("Ordinary", 0), ("PrunedBranch", 0), ("LibraryReference", 0), ("empty", 0), ("MerkleProof", 1), ("MerkleUpdate", 2)):
            if not (m and k in ("LibraryReference", "empty") or k == "PrunedBranch" and not m):
                mk.append(("make", k, m, n))
    run(cx, cs + mk, "")
    _p = cx.prog("rc")
    run(cx, mk + [("impl", i) for i, c in enumerate(impl_cases()) if c[1].startswith("reference")], " (without sync)")
    cx.floor("cases", 330)
    cx.floor("rows", 60000)
    cx.floor("accepted", 56)


def run(cx, cs, where):
    for b, k, r, what in pmap(run_case, cs):
        cx.count("cases")
        cx.count("paths", k)
        cx.count("accepted" if what == "hashes" else "rows", r)
        for nm, kind, text in b:
            cx.bad("%s:%s" % (nm, kind), text + where)
