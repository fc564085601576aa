"""C10: shard identifiers form a tree of prefixes.

A shard identifier is a workchain and a prefix of at most 60 bits.  For every position of the tag (61 lengths) the prefix
is a vector of unknown bits above the tag; for two identifiers every pair of lengths, and for each the position of the first
difference (or none), so that the cases cover every pair.  The MIR of each operation is run on them by the bit engine, and
every path must give what the tree of prefixes says: constants or, bit by bit, the bits of the arguments."""
from cellcore import *
from par import pmap

EXPLAIN = __doc__
ASSUMPTIONS = ["rustc's MIR is what is compiled", "core integer operations behave as documented",
               "the text form is parsed by core (parse, from_str_radix), which is not part of the rule"]
SH = "tycho_types::models::block::block_id::ShardIdent"
BS = "tycho_types::models::block::block_id::BlockIdShort"
GIVE_UP = (Undecided, KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError, RecursionError)
_p = None


def pbits(t, nm="a"):
    """prefix with the tag at bit t, LSB first; t None: no tag at all"""
    if t is None:
        return [0] * 64
    return [0] * t + [1] + [sym(nm, i) for i in range(t + 1, 64)]


def other(ta, tb, d):
    """the second prefix (tag tb): equal to the first above bit max(ta, tb), or first differing at bit d"""
    out = [0] * tb + [1] + [sym("b", i) for i in range(tb + 1, 64)]
    m = max(ta, tb)
    for i in range(63, m, -1):
        if d is not None and i < d:
            break
        out[i] = bnot(sym("a", i)) if i == d else sym("a", i)
    return out


def mk(ip, wc, bits):
    return mkadt(ip.p, SH, workchain=wc, prefix=ip.mkbits(64, False, bits))


def shard_is(ip, st, v, wc, bits):
    """v is the identifier of workchain `wc` (an Af) with these prefix bits"""
    if not isinstance(v, Ag):
        return "is %r" % (v,)
    w = get(ip.p, v, "workchain")
    a = ip.affine(st, w)
    if a is None or not same_int(st, a, wc.c, wc.t):
        return "has workchain %r" % (w,)
    got = ip.bits(st, get(ip.p, v, "prefix"))
    for i in range(63, -1, -1):
        if st.bit(got[i]) != st.bit(bits[i]):
            return "has %s instead of %s at bit %d of the prefix" % (show_bit(got[i]), show_bit(bits[i]), i)
    return None


WS = (None, -1)


def setup(ip, w=None):
    st = ip.state()
    if w is None:
        st.var("W", -(1 << 31), (1 << 31) - 1)
        return st, Af(32, True, 0, (("W", 1),))
    return st, K(w, 32, True)


def body_of(p, nm, ty="ShardIdent", tr=None):
    b = p.method(ty, nm, tr) if tr else p.method(ty, nm)
    if len(b) != 1:
        raise Undecided("%s::%s is not there" % (ty, nm))
    return b[0]


def runs(ip, st, b, args, sub=None):
    """traces, flags and panics as problems"""
    out, tr = [], []
    for t in ip.run(st, b, args, sub):
        if t.kind == "panic":
            out.append(("panic", "panics (%s)" % (t.why,)))
        else:
            tr.append(t)
    if not tr and not out:
        raise Undecided("no path")
    return tr, out


def bool_is(ip, tr, want, out, what):
    for t in tr:
        b = ip.bits(t.st, t.val)[0]
        if b == want:
            continue
        out.append(("result", "%s: is %s, must be %s" % (what, show_bit(b), bool(want))))
    return out


def opt_is(ip, tr, want, out, what, chk):
    for t in tr:
        if not (isinstance(t.val, Ag) and t.val.k == OPTION):
            raise Undecided("result %r" % (t.val,))
        if t.val.v != want:
            out.append(("result", "%s: is %s, must be %s" % (what, "Some" if t.val.v else "None", "Some" if want else "None")))
        elif want:
            e = chk(t)
            if e:
                out.append(("value", "%s: %s" % (what, e)))
    return out


def unary(nm, t):
    p = _p
    ip = Interp(p)
    st, wc = setup(ip)
    bits = pbits(t)
    depth = 63 - t
    what = "prefix of %d bits" % depth
    me = mk(ip, wc, bits)
    st.mem[("A",)] = me
    args = [Ref(("A",))]
    up = lambda: [0] * (t + 1) + [1] + bits[t + 2:]
    if nm == "split" or nm == "can_split":
        want = int(depth < 60)
    elif nm in ("merge", "opposite"):
        want = int(depth > 0)
    if nm == "is_right_child":
        # both values of the last bit
        out, n = [], 0
        for x in ((0, 1) if t < 63 else (0,)):
            s = st.copy()
            bb = list(bits)
            if t < 63:
                bb[t + 1] = x
            s.mem[("A",)] = mk(ip, wc, bb)
            s2 = s.copy()
            for f, v in (("is_right_child", x), ("is_left_child", 1 - x)):
                tr, o = runs(ip, s.copy(), body_of(p, f), args)
                n += len(tr)
                out += bool_is(ip, tr, v, o, "%s of a %s that ends in %d" % (f, what, x))
        return out, n
    b = body_of(p, nm)
    tr, out = runs(ip, st, b, args)
    if nm == "is_full":
        bool_is(ip, tr, int(depth == 0), out, what)
    elif nm == "can_split":
        bool_is(ip, tr, want, out, what)
    elif nm == "prefix_len":
        for x in tr:
            a = ip.affine(x.st, x.val)
            if a is None or a.t or a.c != depth:
                out.append(("result", "%s: is %r" % (what, x.val)))
    elif nm == "merge":
        opt_is(ip, tr, want, out, what, lambda x: shard_is(ip, x.st, x.val.f[0], wc, up()))
    elif nm == "opposite":
        opt_is(ip, tr, want, out, what, lambda x: shard_is(ip, x.st, x.val.f[0], wc, bits[:t + 1] + [bnot(bits[t + 1])] + bits[t + 2:]))
    elif nm == "split":
        def chk(x):
            pr = x.val.f[0]
            for i, nm2 in ((0, "left"), (1, "right")):
                e = shard_is(ip, x.st, pr.f[i], wc, [0] * (t - 1) + [1, i] + bits[t + 1:])
                if e:
                    return "the %s child %s" % (nm2, e)
        opt_is(ip, tr, want, out, what, chk)
    return out, len(tr)


def new(t, w):
    p = _p
    ip = Interp(p)
    st, wc = setup(ip, None if w == "other" else w)
    if w == "other":
        # any workchain but the masterchain
        out, n = [], 0
        for lo, hi in ((-(1 << 31), -2), (0, (1 << 31) - 1)):
            s = ip.state()
            s.var("W", lo, hi)
            o, k = new_one(ip, s, t, Af(32, True, 0, (("W", 1),)), False)
            out += o
            n += k
        return out, n
    return new_one(ip, st, t, wc, True)


def new_one(ip, st, t, wc, master):
    out, n = [], 0
    forms = [pbits(t)]
    want = t is not None and t >= 3
    if master and t == 63:
        pass
    elif master:
        want = False
    for bits in forms:
        tr, o = runs(ip, st, body_of(_p, "new"), [wc, ip.mkbits(64, False, bits)])
        n += len(tr)
        opt_is(ip, tr, int(want), o, "prefix with the tag at %s%s" % (t, ", masterchain" if master else ""), lambda x: shard_is(ip, x.st, x.val.f[0], wc, bits))
        out += o
    return out, n


def binary(nm, ta, tb, d, w):
    """d: first difference above both tags (None: none); w: workchains equal / less / greater"""
    p = _p
    ip = Interp(p)
    st, wa = setup(ip)
    if w == "eq":
        wb = wa
    else:
        st.var("V", -(1 << 31), (1 << 31) - 1)
        wb = Af(32, True, 0, (("V", 1),))
        st.add(-1, (("V", 1), ("W", -1)) if w == "lt" else (("V", -1), ("W", 1)))
    a = mk(ip, wa, pbits(ta))
    b = mk(ip, wb, other(ta, tb, d))
    st.mem[("A",)], st.mem[("B",)] = a, b
    same = d is None and w == "eq"
    want = {"is_ancestor_of": same and ta >= tb,
            "is_parent_of": same and ta == tb + 1,
            "is_child_of": same and tb == ta + 1,
            "intersects": same}[nm]
    tr, out = runs(ip, st, body_of(p, nm), [Ref(("A",)), Ref(("B",))])
    bool_is(ip, tr, int(want), out, "prefixes of %d and %d bits, %s, %s" % (63 - ta, 63 - tb,
            "the shorter begins the longer" if d is None else "first difference at bit %d" % (63 - d),
            {"eq": "same workchain"}.get(w, "different workchains")))
    return out, len(tr)


def account(nm, t, d):
    """d: first difference within the prefix, or None"""
    p = _p
    ip = Interp(p)
    st, wc = setup(ip)
    st.mem[("A",)] = mk(ip, wc, pbits(t))
    acc = [sym("x", i) for i in range(64)]
    for i in range(63, t, -1):
        if d is not None and i < d:
            break
        acc[i] = bnot(sym("a", i)) if i == d else sym("a", i)
    bs = [Bv(8, False, acc[56 - 8 * i:64 - 8 * i]) for i in range(8)]
    if nm == "contains_account":
        inner = Arr(K(32), {}, lambda key: bs[key[1]] if not key[0] and key[1] < 8 else int_sym(("acc", key), 8))
        st.mem[("X",)] = Ag("tycho_types::cell::HashBytes", 0, [inner])
    else:
        st.mem[("X",)] = Arr(K(8), {}, lambda key: bs[key[1]])
    tr, out = runs(ip, st, body_of(p, nm), [Ref(("A",)), Ref(("X",))])
    bool_is(ip, tr, int(d is None), out, "shard prefix of %d bits, account %s" % (63 - t, "begins with it" if d is None else "differs at bit %d" % (63 - d)))
    return out, len(tr)


def seqno(nm):
    p = _p
    ip = Interp(p)
    st, wc = setup(ip)
    st.var("S", 0, (1 << 32) - 1)
    st.var("N", 0, (1 << 32) - 1)
    S, N = (("S", 1),), (("N", 1),)
    sh = mk(ip, wc, pbits(40))
    st.mem[("A",)] = mkadt(p, BS, shard=sh, seqno=Af(32, False, 0, S))
    args = [Ref(("A",))]
    if nm.endswith(("add", "sub")):
        args.append(Af(32, False, 0, N))
        n = (0, N)
    else:
        n = (1, ())
    tr, out = runs(ip, st, body_of(p, nm, "BlockIdShort"), args)
    top_ = (1 << 32) - 1
    for t in tr:
        s = t.st
        e = shard_is(ip, s, get(p, t.val, "shard"), wc, pbits(40))
        if e:
            out.append(("shard", e))
        v = ip.affine(s, get(p, t.val, "seqno"))
        up = nm.endswith(("add", "next"))
        c, tt = lin_add((0, S), 1, n, 1 if up else -1)
        lim = (top_ - c, tuple((x, -k) for x, k in tt)) if up else (c, tt)
        bound = top_ if up else 0
        if s.holds(*lim) and same_int(s, v, c, tt):
            continue
        neg = (-lim[0], tuple((x, -k) for x, k in lim[1]))
        if s.holds(*neg) and same_int(s, v, bound, ()):
            continue
        out.append(("result", "is %r where %s" % (v, show_range(s))))
    return out, len(tr)


def masterchain():
    p = _p
    out, n = [], 0
    for lo, hi, want in ((-1, -1, 1), (-(1 << 31), -2, 0), (0, (1 << 31) - 1, 0)):
        for ty in ("ShardIdent", "BlockIdShort"):
            ip = Interp(p)
            st = ip.state()
            if lo == hi:
                wc = K(lo, 32, True)
            else:
                st.var("W", lo, hi)
                wc = Af(32, True, 0, (("W", 1),))
            sh = mk(ip, wc, pbits(50))
            st.mem[("A",)] = sh if ty == "ShardIdent" else mkadt(p, BS, shard=sh, seqno=K(7, 32))
            tr, o = runs(ip, st, body_of(p, "is_masterchain", ty), [Ref(("A",))])
            out += bool_is(ip, tr, want, o, "%s, workchain in [%d, %d]" % (ty, lo, hi))
            n += len(tr)
    # full identifiers
    ip = Interp(p)
    st, wc = setup(ip)
    tr, o = runs(ip, st, body_of(p, "new_full"), [wc])
    out += o
    for t in tr:
        e = shard_is(ip, t.st, t.val, wc, pbits(63))
        if e:
            out.append(("new_full", e))
        n += 1
    return out, n


def load(first):
    """reading: the first byte (prefix length) is enumerated, the workchain and 64 prefix bits unknown"""
    p = _p
    ip = Interp(p, hooks=[load_hook])
    st = ip.state()
    st.mem[("S",)] = Opq("slice", ())
    ip.c10 = {"load_u8": K(first, 8), "load_u32": ip.mkbits(32, False, [sym("w", i) for i in range(32)]), "load_u64": ip.mkbits(64, False, [sym("a", i) for i in range(64)])}
    bs = [b for b in p.bodies.values() if b["nm"] == "load_from" and "block_id::ShardIdent as" in b["path"]]
    if len(bs) != 1:
        raise Undecided("ShardIdent::load_from is not there")
    out, n = [], 0
    for t in ip.run(st, bs[0], [Ref(("S",))]):
        n += 1
        if t.kind == "panic":
            out.append(("panic", "a prefix of %d bits panics" % first))
            continue
        short = t.st.mem.get(("FAIL",))
        if t.val.v == 0:
            if short:
                out.append(("short", "succeeds although reading failed"))
            elif first > 60:
                out.append(("accepts", "accepts a prefix of %d bits" % first))
            else:
                v = t.val.f[0]
                if [t.st.bit(x) for x in ip.bits(t.st, get(p, v, "workchain"))] != [sym("w", i) for i in range(32)]:
                    out.append(("workchain", "reads workchain %r" % (get(p, v, "workchain"),)))
                got = ip.bits(t.st, get(p, v, "prefix"))
                want = [0] * (63 - first) + [1] + [sym("a", i) for i in range(64 - first, 64)]
                if [t.st.bit(x) for x in got] != want:
                    out.append(("value", "reads a prefix of %d bits as another" % first))
        elif not short and first <= 60:
            out.append(("refuses", "refuses a prefix of %d bits" % first))
    return out, n


def load_hook(ip, st, c, args):
    nm = c["nm"]
    if nm in getattr(ip, "c10", {}) and "Slice" in c["path"]:
        s2 = st.copy()
        s2.mem[("FAIL",)] = True
        return [(st, Ok(ip.c10[nm])), (s2, Err(Opq("error", ())))]
    return None


def any_job(j):
    f = {"unary": unary, "new": new, "binary": binary, "account": account, "seqno": seqno, "masterchain": masterchain, "load": load}[j[0]]
    try:
        out, n = f(*j[1:])
    except GIVE_UP as e:
        return j, [("undecided", "%s: %s" % (type(e).__name__, e))], 0
    return j, out, n


UN = ("is_full", "is_right_child", "merge", "split", "opposite", "prefix_len", "can_split")
BIN = ("is_ancestor_of", "is_parent_of", "is_child_of", "intersects")


def jobs(tier):
    js = [("unary", nm, t) for nm in UN for t in range(3, 64)]
    js += [("new", t, w) for t in [None] + list(range(64)) for w in (-1, "other")]
    js += [("masterchain",)] + [("seqno", nm) for nm in ("saturating_add", "saturating_sub", "saturating_prev", "saturating_next")]
    js += [("load", n) for n in range(256)]
    for nm in ("contains_account_prefix", "contains_account"):
        for t in range(3, 64):
            for d in [None] + list(range(63, t, -1)):
                if tier == "thorough" or nm == "contains_account_prefix" and (d is None or d in (63, t + 1) or (d + t) % 4 == 0) or d is None or d == t + 1:
                    js.append(("account", nm, t, d))
    for nm in BIN:
        for ta in range(3, 64):
            for tb in range(3, 64):
                if tier != "thorough" and abs(ta - tb) > 2 and ta not in (3, 63) and tb not in (3, 63) and (ta * 7 + tb) % 5:
                    continue
                m = max(ta, tb)
                ds = [None] + sorted({63, m + 1, (64 + m) // 2} & set(range(m + 1, 64))) if tier != "thorough" else [None] + list(range(m + 1, 64))
                js += [("binary", nm, ta, tb, d, "eq") for d in ds]
                if ta == tb or ta == tb + 1 or ta == tb - 1:
                    js += [("binary", nm, ta, tb, None, w) for w in ("lt", "gt")]
    return js


def check(cx):
    global _p
    _p = cx.prog("main")
    js = jobs(cx.tier)
    for j, pr, n in chunked(js):
        cx.count("cases")
        cx.count("paths", n)
        nm = j[1] if j[0] in ("unary", "binary", "account", "seqno") else j[0]
        for kind, text in pr:
            cx.bad("%s:%s" % (nm, kind), "%s: %s" % (nm, text))
    cx.floor("cases", 5000)
    cx.floor("paths", 5000)


def many(js):
    return [any_job(j) for j in js]


def chunked(js, k=40):
    out = []
    for r in pmap(many, [js[i:i + k] for i in range(0, len(js), k)]):
        out += r
    return out
