"""C16: splitting and joining dictionaries keeps every entry on its side.

dict_split_by_prefix, dict_split_raw and dict_merge_siblings are run on opaque nodes (see C13); what they build is compared with what the labels and sides require.
dict_merge and UnionRawIter::next are run over inner iterators whose entries, ends and failures are opaque: each must do with them exactly what the order of keys says."""
from dictwalk import *
from dictface import face, iterators
from par import pmap

EXPLAIN = __doc__
ASSUMPTIONS = ["rustc's MIR is what is compiled", "slices and builders follow C05 and C06, labels C12, iterators C14", "load_cell and load_dyn_cell yield the same cell or fail"]
_p = None
RAW = MOD + "raw::"


def merge(fn, sl, sr):
    return merge_siblings(_p, fn, False, sl, sr)


def begin(depth=2):
    D = Dict(_p, depth, True)
    ip = Interp(_p, [D.hook], max_traces=40000)
    D.ip = ip
    st = ip.state()
    st.mem[("CX",)] = Opq("ctx")
    st.var("n", 0, MAX)
    return D, ip, st, (0, (("n", 1),))


def is_node(D, ip, st, v, path):
    """option of a cell: none (path None) or that node"""
    if not v.v:
        return path is None
    c = D.is_cell(ip, st, v.f[0])
    return path is not None and c is not None and c.args == ("n", path)


def split(fn, some):
    """two dictionaries, with 0 and 1 behind the prefix"""
    raw = fn == "dict_split_raw"
    D, ip, st, n = begin()
    b = the_body(_p, fn)
    st.var("P", 0, MAX)
    P = num(0) if raw else (0, (("P", 1),))
    args = [root_value(st, some), a16(n)]
    if not raw:
        st.mem[("K",)] = D.key(ip, st, P)
        args.append(Ref(("K",)))
    out, kinds = [], {}
    tr = ip.run(st, b, args + [Ref(("CX",))])
    L, L0, L1 = ((0, (("L" + x, 1),)) for x in ("", "0", "1"))
    for t in tr:
        if not common(D, t, out, fn):
            continue
        s = t.st
        if t.val.v == 0 and s.mem.get(ERRSRC):
            out.append(("error", "%s succeeds although %s failed" % (fn, s.mem[ERRSRC][0])))
            continue
        if s.mem.get(ERRSRC):
            continue
        left = right = bits = None
        if t.val.v == 0:
            v = t.val.f[0]
            if raw:
                left, right, bits = (get(_p, v, k) for k in ("left_branch", "right_branch", "remaining_bit_len"))
            else:
                left, right = v.f
        said = lambda w: out.append(("result", "%s: %s" % (fn, w)))
        if not some or zero(s, n):
            if t.val.v or left.v or right.v or raw and not zero(s, sub(lform(bits), n)):
                said("nothing to split, but the answer is not empty")
            kinds["nothing"] = 1
            continue
        if "L" not in s.vr:
            said("answers without having read the root")
            continue
        if not zero(s, sub(s.mem[("G", "m", ("n", ""))], n)):
            said("the label of the root is read for %s bits" % show_l(s.mem[("G", "m", ("n", ""))]))
            continue
        if not assume_good(s):
            continue
        l = num(0) if raw else D.lcp(ip, s, lab("", num(0), L), key_w(num(0), P))
        # is the prefix that of the label?
        if zero(s, sub(l, P)):
            starts = True
        elif s.holds(*sub(sub(P, l), num(1))):
            starts = False
        else:
            said("answers before it is known whether the dictionary has the prefix")
            continue
        if not starts:
            kinds["other"] = 1
            if not t.val.v:
                said("splits a dictionary by a prefix that it does not have")
            continue
        longer = s.holds(*sub(sub(L, P), num(1)))
        if longer:
            bit = known(s, D.bit_at(s, ("lab", ""), P))
            if t.val.v or bit not in (0, 1) or not is_node(D, ip, s, left, None if bit else "") or not is_node(D, ip, s, right, "" if bit else None) \
                    or raw and not zero(s, sub(lform(bits), n)):
                said("a dictionary with more bits of label does not stay as it is, on the side of the next bit")
            kinds["stays"] = 1
            continue
        if not zero(s, sub(L, P)):
            said("answers before it is known where the label ends")
            continue
        if zero(s, sub(n, L)):
            # the prefix is a whole key
            kinds["key"] = 1
            if not t.val.v:
                said("splits below a whole key")
            continue
        if t.val.v:
            if not few_refs(s, ""):
                out.append(("fails", "%s fails although nothing failed" % fn))
            continue
        if s.possible(*sub(L, n)):
            said("splits before it is known whether the label is a whole key")
            continue
        kinds["fork"] = 1
        rem = sub(sub(n, L), num(1))
        if raw:
            if not is_node(D, ip, s, left, "0") or not is_node(D, ip, s, right, "1") or not zero(s, sub(lform(bits), rem)):
                said("the branches are not those of the root, with one bit less")
            continue
        for i, (v, Lc) in enumerate(((left, L0), (right, L1))):
            q = str(i)
            if "L" + q not in s.vr or not zero(s, sub(s.mem[("G", "m", ("n", q))], rem)):
                said("the label of branch %d is not read for the bits that remain" % i)
                continue
            got = D.is_cell(ip, s, v.f[0]) if v.v else None
            if got is None:
                said("branch %d is missing" % i)
                continue
            want = cellv("built", (("label", (lab("", num(0), L), ("b", i), lab(q, num(0), Lc)), n),) + rest_of(D, s, q))
            d = diff_cell(D, s, got, want)
            if d:
                out.append(("dict", "%s, branch %d: %s" % (fn, i, d[:300])))
    if some and not {"fork", "stays", "nothing"} <= set(kinds):
        out.append(("vacuous", "%s: %s" % (fn, kinds)))
    return out, len(tr), D.cut


# ------------------------------------------------------------------- union --
def only(pred, what):
    bs = [b for b in _p.bodies.values() if pred(b)]
    if len(bs) != 1:
        raise Undecided("%s: %d" % (what, len(bs)))
    return bs[0]


ORD = "core::cmp::Ordering"


class Union:
    """inner iterators with opaque entries (side, index)"""

    def __init__(s, most):
        s.most = most

    def side(s, ip, st, v):
        while isinstance(v, Ref):
            if v.root == ("IT",) and v.path:
                names = _p.field_names(RAW + "UnionRawIter")
                i = v.path[0][1] if isinstance(v.path[0], tuple) else v.path[0]
                return names[i]
            v = ip.read(st, v.root, v.path)
        raise Undecided("which iterator")

    def ent(s, ip, st, v):
        while isinstance(v, Ref):
            v = ip.read(st, v.root, v.path)
        if not isinstance(v, Opq) or v.name not in ("keybuf", "keyslice", "val"):
            raise Undecided("key %r" % (v,))
        return v.args

    def hook(s, ip, st, c, a):
        f, path = c["nm"], c["path"]
        if f == "next" and "RawIter" in path and "Union" not in path:
            sd = s.side(ip, st, a[0])
            log = st.mem.get(("LOG", sd), ())
            out = []
            for k in ("entry", "end", "fail"):
                if k == "entry" and len(log) >= s.most:
                    continue
                e = st.copy()
                e.mem[("LOG", sd)] = log + (k,)
                if k == "entry":
                    i = (sd, len(log))
                    v = Some(Ok(Ag("tuple", 0, (Opq("keybuf", i), Opq("val", i)))))
                else:
                    v = NONE if k == "end" else Some(Err(Opq("inner error", (sd,))))
                out.append((e, v))
            return out
        if "alloc::boxed::Box" in path and f == "new":
            k = st.mem.get(("G", "boxes"), 0)
            st.mem[("G", "boxes")] = k + 1
            st.mem[("BOX", k)] = a[0]
            return [(st, Ag("box", 0, (Ref(("BOX", k)),)))]
        if "alloc::vec::Vec" in path and f == "new":
            return [(st, Ag("vec", 0, ()))]
        if "Vec" in path and f == "push":
            v = ip.read(st, a[0].root, a[0].path)
            ip.write(st, a[0].root, a[0].path, Ag("vec", 0, tuple(v.f) + (a[1],)))
            return [(st, UNIT)]
        if f == "default" and ("Box" in path or "Builder" in path or "Box" in str(c["self"])):
            return [(st, Opq("builder"))]
        if f == "as_deref" and "Option" in path:
            v = ip.read(st, a[0].root, a[0].path)
            return [(st, Some(v.f[0].f[0]) if v.v else NONE)]
        if f == "as_data_slice":
            return [(st, Opq("keyslice", s.ent(ip, st, a[0])))]
        if f == "clone" and isinstance(a[0], Ref):
            return [(st, Opq("keybuf", s.ent(ip, st, a[0])))]
        if f == "get_bit":
            k = s.ent(ip, st, a[0])
            x = ip.affine(st, a[1])
            if x is None or x.t or x.c:
                raise Undecided("bit of a key")
            # keys without bits are equal, their sign does not matter
            return [(st, Ok(B(sym(("sign", k), 0))))]
        if f == "reverse" and "Ordering" in path:
            x = a[0]
            if not isinstance(x, Ag):
                raise Undecided("order")
            return [(st, Ag(x.k, 2 - x.v, ()))]
        if f in ("lex_cmp",):
            x, y = s.ent(ip, st, a[0]), s.ent(ip, st, a[1])
            return s.order(st, x, y, True)
        if f in ("cmp",) and "CellSlice" in path:
            raise Undecided("comparison of keys by another order")
        return None

    def order(s, st, x, y, fails):
        out = []
        rev = x[0] != "left"
        key = ("ORDER", y, x) if rev else ("ORDER", x, y)
        if key in st.mem:
            k = st.mem[key]
            return [(st, Ok(Ag(ORD, 2 - k if rev else k, ())))]
        for k in range(3):
            e = st.copy()
            e.mem[key] = k
            out.append((e, Ok(Ag(ORD, 2 - k if rev else k, ()))))
        if fails:
            e = st.copy()
            e.mem[("CMPFAIL",)] = 1
            out.append((e, Err(Opq("cmp error"))))
        return out


def union(rev, signed, depth):
    """entries of both in one order; equal keys together"""
    what = "UnionRawIter%s%s" % (", reversed" if rev else "", ", signed" if signed else "")
    new = only(lambda b: b["path"].startswith(RAW + "UnionRawIter::<") and b["nm"] == "new_ext", "UnionRawIter::new_ext")
    nxt = only(lambda b: b["nm"] == "next" and b.get("trait") and b["path"].startswith("<" + RAW + "UnionRawIter<"), "UnionRawIter::next")
    U = Union(depth)
    ip = Interp(_p, [U.hook], max_traces=60000)
    st = ip.state()
    st.mem[("R",)] = NONE
    out, total, joined = [], 0, 0
    cur = []
    for t in ip.run(st, new, [Ref(("R",)), Ref(("R",)), K(9, 16), K(rev, 1), K(signed, 1)]):
        if t.kind != "ret":
            out.append(("panic", "%s: %s" % (what, t.why)))
            continue
        t.st.mem[("IT",)] = t.val
        cur.append((t.st, (0, 0), ""))
    for rnd in range(2 * depth + 2):
        todo = []
        for s0, (i, j), over in cur:
            for t in ip.run(s0, nxt, [Ref(("IT",))]):
                total += 1
                s = t.st
                if t.kind != "ret":
                    out.append(("panic", "%s: %s" % (what, t.why)))
                    continue
                v = t.val
                logs = {k: s.mem.get(("LOG", k), ()) for k in ("left", "right")}
                if over:
                    if v.v:
                        out.append(("ended", "%s goes on after %s" % (what, over)))
                    continue
                failed = any("fail" in x for x in logs.values()) or ("CMPFAIL",) in s.mem
                if failed:
                    if not (v.v and v.f[0].v == 1):
                        out.append(("error", "%s hides a failure" % what))
                    todo.append((s, (i, j), "an error"))
                    continue
                if v.v and v.f[0].v == 1:
                    out.append(("fails", "%s fails although nothing failed" % what))
                    continue
                have = []
                for k, x in (("left", i), ("right", j)):
                    g = logs[k]
                    have.append(g[x] if x < len(g) else None)
                if None in have or any(len(g) > x + 1 for g, x in zip((logs["left"], logs["right"]), (i, j))):
                    out.append(("next", "%s asks an iterator too often, or not at all" % what))
                    continue
                le, re_ = have[0] == "entry", have[1] == "entry"
                if not le and not re_:
                    if v.v:
                        out.append(("result", "%s yields an entry after the last" % what))
                    todo.append((s, (i, j), "the end"))
                    continue
                L, R = ("left", i), ("right", j)
                if le and re_:
                    o = s.mem.get(("ORDER", L, R))
                    if o is None:
                        out.append(("result", "%s does not compare the keys" % what))
                        continue
                    if o != 1:
                        flip = rev
                        if signed:
                            ss = [s.bit(sym(("sign", x), 0)) for x in (L, R)]
                            if all(isinstance(x, int) for x in ss):
                                flip ^= int(ss[0] != ss[1])
                                # keys that differ in the first bit are ordered by it
                                if ss[0] != ss[1] and (o == 0) != (ss[0] < ss[1]):
                                    continue
                            else:
                                d = s.bit(bxor(ss[0], ss[1]))
                                if not isinstance(d, int):
                                    out.append(("order", "%s answers before the signs are known" % what))
                                    continue
                                flip ^= d
                        if flip:
                            o = 2 - o
                    take = (o <= 1, o >= 1)
                else:
                    take = (le, re_)
                if not v.v:
                    out.append(("result", "%s ends before the last entry" % what))
                    continue
                k, a, b = v.f[0].f[0].f
                wk = L if take[0] else R
                gk = U.ent(ip, s, k)
                ok = gk == wk or take == (True, True) and gk == R
                for x, on, w in ((a, take[0], L), (b, take[1], R)):
                    if x.v != int(on) or x.v and U.ent(ip, s, x.f[0]) != w:
                        ok = False
                if not ok:
                    out.append(("order", "%s yields other entries than those that are next (%s)" % (what, ("right", "left", "both")[take[0] + (take[0] and take[1])])))
                    continue
                joined += take == (True, True)
                todo.append((s, (i + take[0], j + take[1]), ""))
            if len(out) > 30:
                return out, total, 0
        cur = todo
    if not joined:
        out.append(("vacuous", what))
    return out, total, 0


def exotic_union(le, ri):
    """a dictionary whose root is no ordinary cell: one error, then nothing"""
    new = only(lambda b: b["path"].startswith(RAW + "UnionRawIter::<") and b["nm"] == "new", "UnionRawIter::new")
    nxt = only(lambda b: b["nm"] == "next" and b.get("trait") and b["path"].startswith("<" + RAW + "UnionRawIter<"), "UnionRawIter::next")
    U = Union(1)

    def hook(ip, st, c, a):
        if c["nm"] == "as_slice" or c["nm"] == "new" and "CellSlice" in c["path"]:
            x = a[0]
            while isinstance(x, Ref):
                x = ip.read(st, x.root, x.path)
            return [(st, Err(Opq("exotic")) if x.args[0] else Ok(Opq("slice")))]
        if c["nm"] in ("as_ref", "deref"):
            return [(st, a[0])]
        return None
    ip = Interp(_p, [hook, U.hook])
    st = ip.state()
    st.mem[("R", 0)], st.mem[("R", 1)] = Some(Opq("root", (le,))), Some(Opq("root", (ri,)))
    out, n = [], 0
    for t in ip.run(st, new, [Ref(("R", 0)), Ref(("R", 1)), K(9, 16)]):
        t.st.mem[("IT",)] = t.val
        for u in ip.run(t.st, nxt, [Ref(("IT",))]):
            n += 1
            if u.kind != "ret" or not (u.val.v and u.val.f[0].v == 1):
                out.append(("exotic", "UnionRawIter hides that a root is no ordinary cell"))
                continue
            for w in ip.run(u.st, nxt, [Ref(("IT",))]):
                if w.kind != "ret" or w.val.v:
                    out.append(("ended", "UnionRawIter goes on after an error"))
    if not n:
        out.append(("vacuous", "UnionRawIter over exotic roots"))
    return out, n, 0


def modifiers(what):
    """reversed and signed reach both sides"""
    new = only(lambda b: b["path"].startswith(RAW + "UnionRawIter::<") and b["nm"] == "new", "UnionRawIter::new")
    mod = only(lambda b: b["path"].startswith(RAW + "UnionRawIter::<") and b["nm"] == what, "UnionRawIter::" + what)
    ask = only(lambda b: b["path"].startswith(RAW + "UnionRawIter::<") and b["nm"] == "is_" + what, "UnionRawIter::is_" + what)
    ip = Interp(_p, [Union(1).hook])
    st = ip.state()
    st.mem[("R",)] = NONE
    out, n = [], 0
    for t in ip.run(st, new, [Ref(("R",)), Ref(("R",)), K(9, 16)]):
        for on, v in ((0, t.val), (1, None)):
            s = t.st.copy()
            if on:
                r = ip.run(s, mod, [t.val])
                if len(r) != 1 or r[0].kind != "ret":
                    raise Undecided(what)
                s, v = r[0].st, r[0].val
            s.mem[("IT",)] = v
            n += 1
            for k in ("reversed", "signed"):
                for sd in ("left", "right"):
                    x = s.bit(ip.bits(s, get(_p, get(_p, v, sd), k))[0])
                    if x != int(bool(on) and k == what):
                        out.append(("mode", "UnionRawIter::%s: %s of the %s side is %s" % (what, k, sd, x)))
            q = ip.run(s, ask, [Ref(("IT",))])
            if len(q) != 1 or q[0].st.bit(ip.bits(q[0].st, q[0].val)[0]) != on:
                out.append(("mode", "UnionRawIter::is_%s is wrong" % what))
    return out, n, 0


# ------------------------------------------------------------------- merge --
def merge_all(sl, sr, most):
    """dict_merge: every entry of the right dictionary is set in the left; a failure leaves the left as it was"""
    fn = "dict_merge"
    b = the_body(_p, fn)
    log = ("LOG",)

    def hook(ip, st, c, a):
        f, path = c["nm"], c["path"]
        es = st.mem.get(log, ())
        if "RawIter" in path and f in ("new", "new_ext", "reversed", "signed"):
            if f != "new":
                raise Undecided("iterator")
            r = a[0]
            while isinstance(r, Ref):
                r = ip.read(st, r.root, r.path)
            k = ip.affine(st, a[1])
            st.mem[("ITER",)] = (r.v and root(ip, st, r.f[0]), lform(k))
            return [(st, Opq("iter"))]
        if f == "into_iter":
            return [(st, a[0])]
        if f == "next":
            n = len([e for e in es if e[0] == "entry"])
            out = []
            for k in ("entry", "end", "fail"):
                if k == "entry" and n >= most:
                    continue
                e = st.copy()
                e.mem[log] = es + ((k,),)
                out.append((e, Some(Ok(Ag("tuple", 0, (Opq("key", (n,)), Opq("val", (n,)))))) if k == "entry" else NONE if k == "end" else Some(Err(Opq("error")))))
            return out
        if f == "dict_insert":
            r = a[0]
            before = ip.read(st, r.root, r.path)
            while isinstance(before, Ref):
                r, before = before, ip.read(st, before.root, before.path)
            k = arg(ip, st, a[1])
            v = arg(ip, st, a[3])
            ln = ip.affine(st, a[2])
            mode = a[4]
            cx = a[5]
            names = [x["n"] for x in [q for q in _p.adts.values() if q["p"] == mode.k][0]["v"]]
            ctx = isinstance(cx, Ref) and cx.root == ("CX",)
            out = []
            for res in ("new", "fail"):
                e = st.copy()
                if res == "fail":
                    e.mem[log] = es + (("fail",),)
                    out.append((e, Err(Opq("error"))))
                    continue
                e.mem[log] = es + (("insert", k, v, lform(ln), names[mode.v], ctx, root(ip, st, before.f[0]) if before.v else None),)
                ip.write(e, r.root, r.path, Some(Opq("root", ("after", len(e.mem[log])))))
                out.append((e, Ok(B(sym(("changed", len(es)), 0)))))
            return out
        if f == "size_bits" or f == "bit_len":
            x = arg(ip, st, a[0])
            if x[0] == "key":
                return [(st, a16((0, (("n", 1),))))]
            v = "bits of %s" % (x,)
            if v not in st.vr:
                st.var(v, 0, MAX)
            return [(st, a16((0, ((v, 1),))))]
        if f in ("as_data_slice", "clone", "as_ref", "deref", "cloned"):
            x = a[0]
            while isinstance(x, Ref) and not (isinstance(ip.read(st, x.root, x.path), Ag)):
                x = ip.read(st, x.root, x.path)
            return [(st, x)] if isinstance(x, Opq) else None
        return None

    def root(ip, st, v):
        while isinstance(v, Ref):
            v = ip.read(st, v.root, v.path)
        return (v.name,) + tuple(v.args)

    def arg(ip, st, v):
        return root(ip, st, v)
    ip = Interp(_p, [hook])
    st = ip.state()
    st.mem[("CX",)] = Opq("ctx")
    st.var("n", 0, 1023)
    n = (0, (("n", 1),))
    st.mem[("DL",)] = Some(Opq("root", ("L",))) if sl else NONE
    st.mem[("DR",)] = Some(Opq("root", ("R",))) if sr else NONE
    out, best = [], 0
    tr = ip.run(st, b, [Ref(("DL",)), Ref(("DR",)), a16(n), Ref(("CX",))])
    for t in tr:
        if t.kind != "ret":
            out.append(("panic", "%s: %s" % (fn, t.why)))
            continue
        s = t.st
        es = s.mem.get(log, ())
        failed = any(e[0] == "fail" for e in es)
        now = s.mem[("DL",)]
        now = root(ip, s, now.f[0]) if now.v else None
        if bool(t.val.v) != failed:
            out.append(("error" if failed else "fails", "%s %s" % (fn, "succeeds although something failed" if failed else "fails although nothing failed")))
            continue
        if failed:
            if now != (("root", "L") if sl else None):
                out.append(("atomic", "%s fails and leaves a changed dictionary" % fn))
            continue
        if not sr or not sl:
            if now != (("root", "R") if sr else ("root", "L") if sl else None) and not es:
                out.append(("result", "%s with an empty dictionary does not yield the other" % fn))
            if not es:
                continue
        it = s.mem.get(("ITER",))
        if not it or it[0] != ("root", "R") or not zero(s, sub(it[1], n)):
            out.append(("entries", "%s does not go through the right dictionary" % fn))
            continue
        ents = [e for e in es if e[0] == "entry"]
        ins = [e for e in es if e[0] == "insert"]
        if not es or es[-1][0] != "end" or len(ins) != len(ents):
            out.append(("entries", "%s inserts %d of %d entries" % (fn, len(ins), len(ents))))
            continue
        prev = ("root", "L") if sl else None
        at = 0
        for i, e in enumerate(ins):
            if e[1] != ("key", i) or e[2] != ("val", i) or not zero(s, sub(e[3], n)) or e[4] != "Set" or e[6] != prev:
                out.append(("insert", "%s inserts %r" % (fn, e[1:])))
            if not e[5]:
                out.append(("context", "%s inserts without the context of the caller" % fn))
            prev = ("root", "after", es.index(e) + 1)
        if now != prev:
            out.append(("result", "%s leaves %s" % (fn, now)))
        best = max(best, len(ins))
    if sl and sr and best < most:
        out.append(("vacuous", "%s inserts at most %d" % (fn, best)))
    return out, len(tr), 0


FRONT = {"raw": ("split", "split_ext", "split_by_prefix", "split_by_prefix_ext", "iter_union"),
         "typed": ("split", "split_ext", "split_by_prefix", "split_by_prefix_ext", "merge_with_right_sibling", "merge_with_right_sibling_ext", "iter_union", "raw_iter_union")}


def front(kind, name, some):
    out, n = face(_p, kind, name, some)
    return [("%s.%s" % (kind, k), t) for k, t in out], n, 0


def typed_iter(ty, what):
    out, n = iterators(_p, ty, what)
    return out, n, 0


def jobs(tier):
    dp = 2 if tier == "quick" else 3
    js = []
    for some in (0, 1):
        for fn in ("dict_split_by_prefix", "dict_split_raw"):
            js.append(("split", fn, some))
        for other in (0, 1):
            js.append(("merge", "dict_merge_siblings", some, other))
            js.append(("merge_all", some, other, dp))
            js.append(("union", some, other, dp))
            if some or other:
                js.append(("exotic_union", some, other))
        for kind, names in FRONT.items():
            for name in names:
                js.append(("front", kind, name, some))
    for what in ("reversed", "signed"):
        js.append(("modifiers", what))
    for what in ("new", "reversed", "signed", "next"):
        js.append(("typed_iter", "UnionIter", what))
    return js


def any_job(j):
    try:
        out, n, cut = globals()[j[0]](*j[1:])
    except GIVE_UP as e:
        return j, [("undecided", "%s: %s" % (type(e).__name__, e))], 0
    return j, out, n


def many(js):
    return [any_job(j) for j in js]


def check(cx):
    global _p
    _p = cx.prog("main")
    js = jobs(cx.tier)
    for r in pmap(many, [[j] for j in js]):
        for j, pr, n in r:
            cx.count("cases")
            cx.count("paths", n)
            for kind, text in pr:
                who = {"front": lambda: j[2], "merge_all": lambda: "dict_merge", "union": lambda: "UnionRawIter", "exotic_union": lambda: "UnionRawIter",
                       "modifiers": lambda: "UnionRawIter", "typed_iter": lambda: "UnionIter"}.get(j[0], lambda: j[1])()
                cx.bad("%s:%s" % (who, kind), text)
    cx.floor("cases", 45)
    cx.floor("paths", 500)
