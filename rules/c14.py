"""C14: ordered queries and iteration follow the order of keys.

dict_find_bound, dict_find_bound_owned, dict_find_owned, dict_remove_bound_owned, RawIter::next, RawOwnedIter::next and RawValues::next are run on a tree of opaque
nodes (see C13).  On every path the answer is recomputed from the facts of the path: the end of a subtree in the asked direction, the next key from the place where
the key leaves the tree (climbing to the nearest fork that has keys on the far side), the entries from left to right.  With signed keys, the two sides of a fork at
the very first bit change places.  Key bits, value range, the cell of the value and, for removal, the new dictionary must be those.  Trees are followed for three levels."""
from dictwalk import *
from dictface import face, iterators
from par import pmap

EXPLAIN = __doc__
ASSUMPTIONS = ["rustc's MIR is what is compiled", "slices and builders follow C05 and C06, labels C12", "load_cell and load_dyn_cell yield the same cell or fail"]
_p = None


def variant(name, v):
    a = [a for a in _p.adts.values() if a["p"].startswith(MOD) and a["p"].endswith("::" + name)]
    names = [x["n"] for x in a[0]["v"]] if len(a) == 1 else []
    if v not in names:
        raise Undecided("%s::%s" % (name, v))
    return Ag(a[0]["p"], names.index(v), ())


def side(D, st, pos, want, signed):
    """-> [(state, bit)] the side of a fork at pos with the keys of that order"""
    if not signed:
        return [(st, want)]
    return [(s, 1 - want if z else want) for s, z in cases_zero(st, pos)]


def to_end(D, st, steps, path, pos, m, want, signed):
    """the way to the first (want 0) or last (1) key of a subtree -> [(state, steps)]"""
    # only a fork at position 0 changes sides: decide it once
    out = []
    cs = [(st, False)]
    if signed and not path:
        cs = cases_zero(st, (0, (("L", 1),))) if "L" in st.vr else cs
    for s, z in cs:
        def pick(q, z=z):
            return 1 - want if z and not q.path else want
        out.append((s, steps + descend(D, s, path, pos, m, pick)))
    return out


def check_value(D, ip, s, v, path):
    if isinstance(v, Ag) and v.k == "tuple":
        d = diff_slice(D, s, v.f[0], path)
        c = D.is_cell(ip, s, v.f[1])
        if not d and (c is None or c.args != ("n", path)):
            d = "the value is in another cell"
        return d
    return diff_slice(D, s, v, path)


def check_key(D, ip, s, k, steps):
    n = 0
    while isinstance(k, Ref) and n < 4:
        k = ip.read(s, k.root, k.path)
        n += 1
    if not (isinstance(k, Opq) and k.name == "log"):
        raise Undecided("key %r" % (k,))
    return diff_items(D, s, norm(D, s, k.args[0]), norm(D, s, key_items(steps)))


def answer(D, ip, s, v, steps, out, what, kinds):
    """v: Some((key, value)) | None; steps: the way to the entry, or None when there is none"""
    if steps is None:
        kinds["none"] = kinds.get("none", 0) + 1
        if v.v:
            out.append(("result", "%s finds an entry where there is none" % what))
        return None
    if wrong_m(steps, out, what):
        return None
    last = steps[-1]
    if last.how != "leaf":
        out.append(("result", "%s answers at %s before the entry is reached (%s)" % (what, way(steps), last.how)))
        return None
    kinds[last.path] = kinds.get(last.path, 0) + 1
    if not v.v:
        out.append(("result", "%s does not find the entry at %s" % (what, way(steps))))
        return None
    x = v.f[0]
    d = check_key(D, ip, s, x.f[0], steps)
    if d:
        out.append(("key", "%s at %s: key: %s" % (what, way(steps), d[:300])))
    return x.f[1]


def split_ok(t, D, out, what, steps, extra_ok=lambda s: False):
    """an error is fine when something failed or the tree is not a dictionary"""
    s = t.st
    if t.val.v == 1:
        if not (s.mem.get(ERRSRC) or malformed(D, s, steps) or extra_ok(s)):
            out.append(("fails", "%s fails at %s (%s) although nothing failed" % (what, way(steps), steps[-1].how)))
        return False
    if s.mem.get(ERRSRC):
        out.append(("error", "%s succeeds although %s failed" % (what, s.mem[ERRSRC][0])))
        return False
    return not malformed(D, s, steps)


def bound(fn, some, bd, signed, depth):
    D, ip, st, n, key = setup(_p, depth)
    b = the_body(_p, fn)
    want = 0 if bd == "Min" else 1
    out, kinds = [], {}
    remove = fn == "dict_remove_bound_owned"
    before = None
    if remove:
        st.mem[("DICT",)] = Some(node("")) if some else NONE
        before = opt_cell(D, ip, st, ("DICT",))
        a0 = Ref(("DICT",))
    else:
        a0 = root_value(st, some)
    tr = ip.run(st, b, [a0, a16(n), variant("DictBound", bd), K(signed, 1), Ref(("CX",))])
    for t in tr:
        if not common(D, t, out, fn):
            continue
        for s, steps in to_end(D, t.st, [], "", num(0), n, want, signed) if some else [(t.st, None)]:
            t2 = Trace(t.kind, s, t.val, t.why)
            same = None
            if remove:
                now = opt_cell(D, ip, s, ("DICT",))
                same = (now is None) == (before is None) and (now is None or now.args == before.args)
                if t.val.v == 1 and not same:
                    out.append(("atomic", "%s fails and leaves a changed dictionary" % fn))
            if not split_ok(t2, D, out, fn, steps or [Step("", num(0), n, "none", None, None)]):
                continue
            v = answer(D, ip, s, t.val.f[0], steps, out, "%s(%s%s)" % (fn, bd, ", signed" if signed else ""), kinds)
            if v is None:
                if remove and steps is None and not same:
                    out.append(("dict", "%s changes an empty dictionary" % fn))
                continue
            d = check_value(D, ip, s, v, steps[-1].path)
            if d:
                out.append(("value", "%s at %s: %s" % (fn, way(steps), d)))
            if remove:
                removed_tree(D, ip, s, steps, out, fn)
    enough(kinds, depth, some, out, fn)
    return out, len(tr), D.cut


def enough(kinds, depth, some, out, fn):
    ds = {len(k) for k in kinds if k != "none"}
    if some and len(ds) < depth + 1:
        out.append(("vacuous", "%s finds entries at depths %s only" % (fn, sorted(ds))))
    if not some and not kinds.get("none"):
        out.append(("vacuous", "%s was not run" % fn))


def find(some, towards, incl, signed, depth):
    fn = "dict_find_owned"
    D, ip, st, n, key = setup(_p, depth)
    b = the_body(_p, fn)
    st.var("kb", 0, MAX)
    kb = (0, (("kb", 1),))
    near = 0 if towards == "Max" else 1
    what = "%s(%s%s%s)" % (fn, towards, ", inclusive" if incl else "", ", signed" if signed else "")
    out, kinds = [], {}
    tr = ip.run(st, b, [root_value(st, some), a16(kb), key, variant("DictBound", towards), K(incl, 1), K(signed, 1), Ref(("CX",))])
    for t in tr:
        if not common(D, t, out, what):
            continue
        first = walk(D, ip, t.st, n) if some else [Step("", num(0), n, "none", None, None)]
        if wrong_m(first, out, what):
            continue
        badlen = not zero(t.st, sub(n, kb))
        if t.val.v == 0 and badlen:
            out.append(("key", "%s succeeds for a key of another length" % what))
            continue
        if t.val.v == 1 and (badlen or t.st.mem.get(ERRSRC)):
            continue
        for s, steps in nearest(D, t.st, first, near, incl, signed) if some else [(t.st, None)]:
            t2 = Trace(t.kind, s, t.val, t.why)
            if not split_ok(t2, D, out, what, (steps or []) + first):
                continue
            if first[-1].how not in ("leaf", "away", "none"):
                out.append(("result", "%s answers at %s before it is known whether the label is the key (%s)" % (what, way(first), first[-1].how)))
                continue
            v = answer(D, ip, s, t.val.f[0], steps, out, what, kinds)
            if v is not None:
                d = check_value(D, ip, s, v, steps[-1].path)
                if d:
                    out.append(("value", "%s at %s: %s" % (what, way(steps), d)))
    enough(kinds, depth, some, out, what)
    if some and not kinds.get("none"):
        out.append(("vacuous", "%s always finds something" % what))
    return out, len(tr), D.cut


def nearest(D, st, first, near, incl, signed):
    """the way to the entry next to the key -> [(state, steps | None)]; near: the side of the subtree that is nearer"""
    last = first[-1]
    if last.how == "leaf" and incl:
        return [(st, first)]
    out = []
    todo = []
    if last.how == "away":
        if last.bit not in (0, 1):
            return [(st, first)]
        for s, z in cases_zero(st, add(last.pos, last.l)) if signed else [(st, False)]:
            far = (last.bit ^ (1 if z else 0)) == near
            # the key is on the near side: all of the subtree is beyond it
            if far:
                out.extend(to_end(D, s, first[:-1], last.path, last.pos, last.m, near, False))
            else:
                todo.append(s)
    elif last.how == "leaf":
        todo.append(st)
    else:
        return [(st, first)]
    for i in range(len(first) - 2, -1, -1):
        f = first[i]
        nxt = []
        for s in todo:
            for s2, z in cases_zero(s, add(f.pos, f.L())) if signed else [(s, False)]:
                if f.bit ^ (1 if z else 0) == near:
                    other = 1 - f.bit
                    g = Step(f.path, f.pos, f.m, "fork", f.l, other)
                    out.extend(to_end(D, s2, first[:i] + [g], f.path + str(other), add(add(f.pos, f.L()), num(1)), sub(sub(f.m, f.L()), num(1)), near, False))
                else:
                    nxt.append(s2)
        todo = nxt
    return out + [(s, None) for s in todo]


# --------------------------------------------------------------- iteration --
def entries(D, st, n, rev, signed):
    """the ways to all entries in order, as far as they are known -> ([steps], complete?)"""
    out = []

    def go(pre, path, pos, m):
        if "L" + path not in st.vr:
            out.append(pre + [Step(path, pos, m, "unread", None, None)])
            return False
        if not zero(st, sub(st.mem[("G", "m", ("n", path))], m)):
            out.append(pre + [Step(path, pos, m, "wrong", st.mem[("G", "m", ("n", path))], None)])
            return False
        L = (0, (("L" + path, 1),))
        if zero(st, sub(m, L)):
            out.append(pre + [Step(path, pos, m, "leaf", L, None)])
            return True
        if st.holds(*sub(sub(L, m), num(1))):
            out.append(pre + [Step(path, pos, m, "long", L, None)])
            return False
        if not st.holds(*sub(sub(m, L), num(1))):
            out.append(pre + [Step(path, pos, m, "open", L, None)])
            return False
        sw = rev
        if signed and not path and zero(st, L):
            sw ^= 1
        for b in (0, 1):
            b ^= sw
            f = Step(path, pos, m, "fork", L, b)
            if not go(pre + [f], path + str(b), add(add(pos, L), num(1)), sub(sub(m, L), num(1))):
                return False
        return True
    done = go([], "", num(0), n)
    return out, done


ITERS = {"RawIter": "entry", "RawOwnedIter": "entry", "RawValues": "value", "RawKeys": "key", "RawOwnedValues": "value"}


def made(path, nm, root, args, ip, st, out, what):
    """runs a constructor and modifiers -> states with the iterator"""
    b = [x for x in _p.bodies.values() if x["nm"] == nm and x["path"].startswith(path + "::<")]
    if len(b) != 1:
        raise Undecided("anchor: %s: %d of %s" % (path, len(b), nm))
    cur = []
    for t in ip.run(st, b[0], args):
        if t.kind == "panic":
            out.append(("panic", "%s panics: %s" % (what, t.why[0])))
            continue
        cur.append((t.st, t.val))
    return cur


def chained(path, rev, signed, root, n, ip, st, out, what):
    cur = made(path, "new", root, [root, n], ip, st, out, what)
    for nm, on in (("reversed", rev), ("signed", signed)):
        if on:
            cur = [y for s, v in cur for y in made(path, nm, root, [v], ip, s, out, what)]
    for nm, on in (("is_reversed", rev), ("is_signed", signed)):
        for s, v in cur:
            z = s.copy()
            z.mem[("IT0",)] = v
            for _, r in made(path, nm, root, [Ref(("IT0",))], ip, z, out, what):
                if repr(r).strip("<>") != str(on):
                    out.append(("mode", "%s: %s() is %r" % (what, nm, r)))
    return cur


def finished(ty, some, depth):
    """an iterator that was finished with an error returns the error and ends"""
    D, ip, st, n, key = setup(_p, depth)
    path = MOD + "raw::" + ty
    st.mem[("ROOT",)] = Some(node("")) if some else NONE
    nxt = [x for x in _p.bodies.values() if x["nm"] == "next" and x.get("trait") and x["path"].startswith("<" + path + "<")]
    out = []
    k = 0
    for s, v in made(path, "new", None, [Ref(("ROOT",)), a16(n)], ip, st, out, ty):
        s.mem[("IT",)] = v
        e = Opq("the error")
        for z, r in made(path, "finish", None, [Ref(("IT",)), e], ip, s, out, ty):
            if r is not e:
                out.append(("finish", "%s::finish returns another error" % ty))
            for t in ip.run(z, nxt[0], [Ref(("IT",))]):
                k += 1
                if t.kind == "panic" or t.val.v:
                    out.append(("ended", "%s goes on after it was finished" % ty))
    if not k:
        out.append(("vacuous", "%s::finish has no path" % ty))
    return out, k, D.cut


def iteration(ty, some, rev, signed, depth, chain=0):
    D, ip, st, n, key = setup(_p, depth)
    path = MOD + "raw::" + ty
    nxt = [x for x in _p.bodies.values() if x["nm"] == "next" and x.get("trait") and x["path"].startswith("<" + path + "<")]
    if len(nxt) != 1:
        raise Undecided("anchor: %s: %d next" % (ty, len(nxt)))
    st.mem[("ROOT",)] = Some(node("")) if some else NONE
    what = "%s%s%s" % (ty, ", reversed" if rev else "", ", signed" if signed else "")
    out = []
    total = 0
    full = {}
    cur = []
    if chain:
        what += ", by modifiers"
        starts = chained(path, rev, signed, Ref(("ROOT",)), a16(n), ip, st, out, what)
    else:
        starts = made(path, "new_ext", None, [Ref(("ROOT",)), a16(n), K(rev, 1), K(signed, 1)], ip, st, out, what)
    for s, v in starts:
        s.mem[("IT",)] = v
        cur.append((s, 0))
    most = 2 ** depth + 2
    while cur:
        todo = []
        for s, k in cur:
            total += 1
            s.mem.pop(("G", "loads"), None)
            ended = s.mem.get(("ENDED",))
            for t in ip.run(s, nxt[0], [Ref(("IT",))]):
                if t.kind == "panic":
                    out.append(("panic", "%s panics: %s" % (what, t.why[0])))
                    continue
                f = flags_text(t.st)
                if f:
                    out.append(("arith", "%s: %s" % (what, f)))
                z = t.st
                if z.mem.get(("G", "wrongm")):
                    common(D, Trace("ret", z, Ok(UNIT), None), out, what)
                    continue
                v = t.val
                if ended:
                    if v.v:
                        out.append(("ended", "%s goes on after %s" % (what, ended)))
                    continue
                for z, in forks0(D, z, signed) if some else [(z,)]:
                    es, done = entries(D, z, n, rev, signed) if some else ([], True)
                    if v.v and v.f[0].v == 1:
                        bad = z.mem.get(ERRSRC) or any(malformed(D, z, e) for e in es)
                        if not bad:
                            out.append(("fails", "%s fails although nothing failed" % what))
                        z.mem[("ENDED",)] = "an error"
                        todo.append((z, k))
                        continue
                    if z.mem.get(ERRSRC):
                        out.append(("error", "%s goes on although %s failed" % (what, z.mem[ERRSRC][0])))
                        continue
                    if not v.v:
                        if not done or len(es) != k:
                            out.append(("result", "%s ends after %d entries, %d are known" % (what, k, len(es))))
                        full[len(es)] = full.get(len(es), 0) + 1
                        z.mem[("ENDED",)] = "the end"
                        todo.append((z, k))
                        continue
                    if k >= len(es):
                        out.append(("result", "%s yields an entry after the last" % what))
                        continue
                    e = es[k]
                    if malformed(D, z, e):
                        continue
                    if wrong_m(e, out, what):
                        continue
                    if e[-1].how != "leaf":
                        out.append(("result", "%s yields entry %d at %s before it is reached (%s)" % (what, k, way(e), e[-1].how)))
                        continue
                    x = v.f[0].f[0]
                    kind = ITERS[ty]
                    kv = {"entry": lambda: (x.f[0], x.f[1]), "key": lambda: (x, None), "value": lambda: (None, x)}[kind]()
                    d = check_key(D, ip, z, kv[0], e) if kv[0] is not None else None
                    if d:
                        out.append(("key", "%s, entry %d at %s: key: %s" % (what, k, way(e), d[:300])))
                    d = check_value(D, ip, z, kv[1], e[-1].path) if kv[1] is not None else None
                    if d:
                        out.append(("value", "%s, entry %d at %s: %s" % (what, k, way(e), d)))
                    if k + 1 < most:
                        todo.append((z, k + 1))
                if len(out) > 50:
                    return out, total, D.cut
        cur = todo
    if some and max(list(full) + [0]) < 2 ** depth:
        out.append(("vacuous", "%s yields at most %d entries" % (what, max(list(full) + [0]))))
    return out, total, D.cut


def forks0(D, st, signed):
    if not signed or "L" not in st.vr:
        return [(st,)]
    return [(s,) for s, z in cases_zero(st, (0, (("L", 1),)))]


FRONT = {"raw": ("get_next_owned", "get_prev_owned", "get_or_next_owned", "get_or_prev_owned", "get_min", "get_max", "get_bound", "get_bound_ext", "get_min_owned",
                 "get_max_owned", "get_bound_owned", "get_bound_owned_ext", "remove_min", "remove_max", "remove_bound", "remove_bound_ext", "iter", "iter_owned", "keys",
                 "values", "values_owned"),
         "typed": ("get_next", "get_prev", "get_or_next", "get_or_prev", "get_min", "get_max", "get_bound_raw", "remove_min_raw", "remove_max_raw", "remove_bound_raw",
                   "remove_bound_raw_ext", "iter", "keys", "values", "raw_iter", "raw_keys", "raw_values")}


def front(kind, name, some):
    out, n = face(_p, kind, name, some)
    return [("%s.%s" % (kind, k), t) for k, t in out], n, 0


def typed_iter(ty, what):
    out, n = iterators(_p, ty, what)
    return out, n, 0


def jobs(tier):
    dp = 2 if tier == "quick" else 3
    js = []
    for signed in (0, 1):
        for bd in ("Min", "Max"):
            for fn in ("dict_find_bound", "dict_find_bound_owned", "dict_remove_bound_owned"):
                for some in (0, 1):
                    js.append(("bound", fn, some, bd, signed, dp))
            for incl in (0, 1):
                for some in (0, 1):
                    js.append(("find", some, bd, incl, signed, dp))
        for rev in (0, 1):
            for ty in ITERS:
                for some in (0, 1):
                    js.append(("iteration", ty, some, rev, signed, 2))
                js.append(("iteration", ty, 1, rev, signed, 1, 1))
    for kind, names in FRONT.items():
        for name in names:
            for some in (0, 1):
                js.append(("front", kind, name, some))
    for ty in ("Iter", "Keys", "Values"):
        for what in ("new", "reversed", "signed", "next"):
            js.append(("typed_iter", ty, what))
    for ty in ("RawIter", "RawValues"):
        js.append(("finished", ty, 1, 1))
    return js


def any_job(j):
    try:
        out, n, cut = globals()[j[0]](*j[1:])
    except GIVE_UP as e:
        return j, [("undecided", "%s: %s" % (type(e).__name__, e))], 0
    return j, out, n


def many(js):
    return [any_job(j) for j in js]


def check(cx):
    global _p
    _p = cx.prog("main")
    js = jobs(cx.tier)
    for r in pmap(many, [[j] for j in js]):
        for j, pr, n in r:
            cx.count("cases")
            cx.count("paths", n)
            for kind, text in pr:
                cx.bad("%s:%s" % ("find" if j[0] == "find" else j[2] if j[0] == "front" else j[1], kind), text)
    cx.floor("cases", 190)
    cx.floor("paths", 1500)
