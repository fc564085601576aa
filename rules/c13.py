"""C13: dictionaries look up, insert and remove as maps do.

dict_get, dict_get_owned, dict_insert, dict_insert_owned, dict_remove_owned and dict_remove_bound_owned are run on a tree of opaque nodes: every node has a label
of unknown length and unknown bits, the key has unknown length and bits, and the paths split where the code compares them.  On every path the way of the
key through the tree is replayed from the facts of the path: at each node the label is the rest of the key (found), begins it (go to the child that the next bit
names), or differs (absent).  The result and the cells that are built must be those of the way: label, data and references of each new cell, remaining lengths, sides.
A failed part makes the whole fail and leaves the dictionary as it was.  Trees are followed for three levels."""
from dictwalk import *
from dictface import face
from par import pmap

EXPLAIN = __doc__
ASSUMPTIONS = ["rustc's MIR is what is compiled", "slices and builders follow C05 and C06, labels C12", "load_cell and load_dyn_cell yield the same cell or fail"]
_p = None
MODES = {"Set": (1, 1), "Replace": (0, 1), "Add": (1, 0)}


def get_(fn, some, depth):
    D, ip, st, n, key = setup(_p, depth)
    b = the_body(_p, fn)
    st.var("kb", 0, MAX)
    kb = (0, (("kb", 1),))
    tr = ip.run(st, b, [root_value(st, some), a16(kb), key, Ref(("CX",))])
    out = []
    found = 0
    for t in tr:
        if not common(D, t, out, fn):
            continue
        s = t.st
        steps = walk(D, ip, s, n) if some else [Step("", num(0), n, "none", None, None)]
        if some and wrong_m(steps, out, fn):
            continue
        if not errors(D, t, n, kb, steps, out, fn):
            continue
        v = t.val.f[0]
        if not some:
            if v.v:
                out.append(("result", "%s finds a value in an empty dictionary" % fn))
            continue
        last = steps[-1]
        if malformed(D, s, steps):
            continue
        if last.how == "leaf":
            found += 1
            if not v.v:
                out.append(("result", "%s does not find the key at %s" % (fn, way(steps))))
                continue
            x = v.f[0]
            if isinstance(x, Ag) and x.k == "tuple":
                d = diff_slice(D, s, x.f[0], last.path)
                c = D.is_cell(ip, s, x.f[1])
                if not d and (c is None or c.args != ("n", last.path)):
                    d = "the value is in another cell"
            else:
                d = diff_slice(D, s, x, last.path)
            if d:
                out.append(("value", "%s at %s: %s" % (fn, way(steps), d)))
        elif last.how == "away":
            if v.v:
                out.append(("result", "%s finds a value at %s although the label differs from the key" % (fn, way(steps))))
        else:
            out.append(("result", "%s answers at %s before it is known whether the label is the key (%s)" % (fn, way(steps), last.how)))
    if some and found < depth + 1:
        out.append(("vacuous", "%s finds nothing" % fn))
    return out, len(tr), D.cut


def insert(fn, some, mode, depth, aug=False):
    D, ip, st, n, key = setup(_p, depth)
    b = the_body(_p, fn)
    st.var("kb", 0, MAX)
    kb = (0, (("kb", 1),))
    st.mem[("DICT",)] = Some(node("")) if some else NONE
    can_add, can_replace = MODES[mode]
    sm = [a for a in _p.adts.values() if a["p"].endswith("::SetMode")]
    names = [v["n"] for v in sm[0]["v"]] if sm else []
    if mode not in names:
        raise Undecided("SetMode::%s" % mode)
    mv = Ag(sm[0]["p"], names.index(mode), ())
    before = opt_cell(D, ip, st, ("DICT",))
    st.mem[("XT",)] = Opq("value", ("extra",))
    tr = ip.run(st, b, [Ref(("DICT",)), Ref(("K",)), a16(kb)] + [Ref(("XT",))] * aug + [Ref(("V",)), mv] + [COMPARATOR] * aug + [Ref(("CX",))])
    out = []
    kinds = {}
    for t in tr:
        if not common(D, t, out, fn):
            continue
        s = t.st
        what = "%s (%s)" % (fn, mode)
        same = lambda x: (lambda y: (y is None) == (before is None) and (y is None or y.args == before.args))(opt_cell(D, ip, x, ("DICT",)))
        steps = walk(D, ip, s, n) if some else [Step("", num(0), n, "none", None, None)]
        if some and wrong_m(steps, out, what):
            continue
        if not errors(D, t, n, kb, steps, out, what, same, aug):
            continue
        if malformed(D, s, steps) or aug and not assume_good(s):
            continue
        v = t.val.f[0]
        old = None
        if isinstance(v, Ag) and v.k == "tuple":
            v, old = v.f
        changed = s.bit(ip.bits(s, v)[0])
        last = steps[-1]
        val = (("x", ("extra",)),) * aug + (("x", ("value",)),)
        want = None
        if last.how == "none":
            if can_add:
                want = cellv("built", (("label", (key_w(num(0), n),), n),) + val)
        elif last.how == "leaf":
            if can_replace:
                want = rebuild(D, s, steps, cellv("built", (("label", (key_w(last.pos, last.m),), last.m),) + val), aug=aug)
        elif last.how == "away":
            if can_add:
                if last.bit not in (0, 1):
                    out.append(("result", "%s: the sides of the new fork do not depend on the bit" % what))
                    continue
                l, m = last.l, last.m
                rem = sub(sub(m, l), num(1))
                L = last.L()
                oldc = cellv("built", (("label", (lab(last.path, add(l, num(1)), sub(sub(L, l), num(1))),), rem),) + rest_of(D, s, last.path))
                newc = cellv("built", (("label", (key_w(add(add(last.pos, l), num(1)), rem),), rem),) + val)
                kids = (("r", oldc), ("r", newc)) if last.bit else (("r", newc), ("r", oldc))
                want = rebuild(D, s, steps, cellv("built", (("label", (key_w(last.pos, l),), m),) + kids + (CMP,) * aug), aug=aug)
        else:
            out.append(("result", "%s answers at %s before it is known whether the label is the key (%s)" % (what, way(steps), last.how)))
            continue
        kinds[last.how] = kinds.get(last.how, 0) + 1
        if changed != int(want is not None):
            out.append(("result", "%s answers %s where the key is %s" % (what, changed, "present" if last.how == "leaf" else "absent")))
        now = opt_cell(D, ip, s, ("DICT",))
        if want is None:
            if not same(s):
                out.append(("dict", "%s changes the dictionary where it must not" % what))
        elif now is None:
            out.append(("dict", "%s leaves an empty dictionary" % what))
        else:
            d = diff_cell(D, s, now, want)
            if not d and aug:
                d = diff_extras(D, s, now, n)
            if d:
                out.append(("dict", "%s at %s (%s): %s" % (what, way(steps), last.how, d[:300])))
        if old is not None:
            has = last.how == "leaf"
            if old.v != int(has):
                out.append(("old", "%s: the previous value is %s" % (what, "missing" if has else "invented")))
            elif has:
                x = old.f[0]
                c = D.is_cell(ip, s, x.f[1])
                d = diff_slice(D, s, x.f[0], last.path) or (None if c is not None and c.args == ("n", last.path) else "it is in another cell")
                if d:
                    out.append(("old", "%s: previous value: %s" % (what, d)))
    need = {"none": 1} if not some else {"leaf": depth + 1, "away": depth + 1}
    for k, x in need.items():
        if kinds.get(k, 0) < x:
            out.append(("vacuous", "%s: no path where the key is %s" % (fn, k)))
    return out, len(tr), D.cut


def remove(fn, some, depth, aug=False):
    D, ip, st, n, key = setup(_p, depth)
    b = the_body(_p, fn)
    st.var("kb", 0, MAX)
    kb = (0, (("kb", 1),))
    st.mem[("DICT",)] = Some(node("")) if some else NONE
    before = opt_cell(D, ip, st, ("DICT",))
    tr = ip.run(st, b, [Ref(("DICT",)), Ref(("K",)), a16(kb), K(0, 1)] + [COMPARATOR] * aug + [Ref(("CX",))])
    out = []
    kinds = {}
    for t in tr:
        if not common(D, t, out, fn):
            continue
        s = t.st
        same = lambda x: (lambda y: (y is None) == (before is None) and (y is None or y.args == before.args))(opt_cell(D, ip, x, ("DICT",)))
        steps = walk(D, ip, s, n) if some else [Step("", num(0), n, "none", None, None)]
        if some and wrong_m(steps, out, fn):
            continue
        if not errors(D, t, n, kb, steps, out, fn, same, aug):
            continue
        if malformed(D, s, steps) or aug and not assume_good(s):
            continue
        v = t.val.f[0]
        last = steps[-1]
        kinds[last.how] = kinds.get(last.how, 0) + 1
        if last.how in ("none", "away"):
            if v.v:
                out.append(("result", "%s removes a value although the key is absent" % fn))
            if not same(s):
                out.append(("dict", "%s changes the dictionary although the key is absent" % fn))
            continue
        if last.how != "leaf":
            out.append(("result", "%s answers at %s before it is known whether the label is the key (%s)" % (fn, way(steps), last.how)))
            continue
        if not v.v:
            out.append(("result", "%s does not find the key at %s" % (fn, way(steps))))
            continue
        removed_value(D, ip, s, v.f[0], last.path, out, fn)
        removed_tree(D, ip, s, steps, out, fn, n if aug else None)
    need = {"none": 1} if not some else {"leaf": depth + 1, "away": depth + 1}
    for k, x in need.items():
        if kinds.get(k, 0) < x:
            out.append(("vacuous", "%s: no path where the key is %s" % (fn, k)))
    return out, len(tr), D.cut


def load_root(depth):
    """dict_load_from_root: the root that lies open in a slice, as a cell of its own; the slice continues behind it"""
    D, ip, st, n, key = setup(_p, depth)
    b = the_body(_p, "dict_load_from_root")
    fn = "dict_load_from_root"
    cell = node("")
    st.var("r0", 0, 4)
    D.full(ip, st, cell)
    st.add(0, (("Nn", 1), ("r0", -1)))
    r0 = (0, (("r0", 1),))
    st.mem[("SL",)] = D.slice(ip, st, cell, r0=r0)
    out = []
    kinds = {}
    tr = ip.run(st, b, [Ref(("SL",)), a16(n), Ref(("CX",))])
    for t in tr:
        if not common(D, t, out, fn):
            continue
        s = t.st
        if t.val.v:
            few = "L" in s.vr and not zero(s, sub((0, (("L", 1),)), n)) and s.possible(1, (("Nn", -1), ("r0", 1)))
            if not s.mem.get(ERRSRC) and not few:
                out.append(("fails", "%s fails although nothing failed" % fn))
            continue
        if s.mem.get(ERRSRC):
            out.append(("error", "%s succeeds although %s failed" % (fn, s.mem[ERRSRC][0])))
            continue
        L = (0, (("L", 1),))
        C, N = (0, (("Cn", 1),)), (0, (("Nn", 1),))
        full = zero(s, sub(n, L))
        if not full and s.possible(*sub(n, L)) and s.possible(*sub(L, n)):
            out.append(("result", "%s answers before it is known whether the label is the key" % fn))
            continue
        kinds[full] = 1
        end_b, end_r = (C, N) if full else (tag(""), add(r0, num(2)))
        got = D.is_cell(ip, s, t.val.f[0])
        want = cellv("built", (("w", ("n", ""), num(0), end_b), ("rs", ("n", ""), r0, sub(end_r, r0))))
        d = diff_cell(D, s, got, want) if got is not None else "no cell"
        if d:
            out.append(("cell", "%s: %s" % (fn, d[:300])))
        v = s.mem[("SL",)]
        r = {k: x if isinstance(x, Af) else ip.var_of(s, x) for k, x in rfields(_p, v).items()}
        for k, w in (("bits_start", end_b), ("refs_start", end_r), ("bits_end", C), ("refs_end", N)):
            if not zero(s, sub(lform(r[k]), w)):
                out.append(("slice", "%s leaves %s of the slice at %s, expected %s" % (fn, k, show_l(lform(r[k])), show_l(w))))
    if len(kinds) < 2:
        out.append(("vacuous", "%s: %d kinds of roots" % (fn, len(kinds))))
    return out, len(tr), D.cut


def front(kind, name, some):
    out, n = face(_p, kind, name, some)
    return [("%s.%s" % (kind, k), t) for k, t in out], n, 0


FRONT = {"raw": ("get", "get_ext", "get_owned", "get_owned_ext", "contains_key", "set", "set_ext", "replace", "replace_ext", "add", "add_ext", "remove", "remove_ext",
                 "load_from_root_ext"),
         "typed": ("get", "get_raw", "get_raw_owned", "contains_key", "set", "set_ext", "replace", "replace_ext", "add", "add_ext", "remove", "remove_raw", "remove_raw_ext",
                   "load_from_root_ext")}


def jobs(tier):
    dp = 2 if tier == "quick" else 3
    js = []
    for some in (0, 1):
        for fn in ("dict_get", "dict_get_owned"):
            js.append(("get_", fn, some, dp))
        for fn in ("dict_insert", "dict_insert_owned"):
            for mode in MODES:
                js.append(("insert", fn, some, mode, dp))
        js.append(("remove", "dict_remove_owned", some, dp))
        for kind, names in FRONT.items():
            for name in names:
                js.append(("front", kind, name, some))
    js.append(("load_root", dp))
    return js


def any_job(j):
    try:
        out, n, cut = globals()[j[0]](*j[1:])
    except GIVE_UP as e:
        return j, [("undecided", "%s: %s" % (type(e).__name__, e))], 0
    return j, out, n


def many(js):
    return [any_job(j) for j in js]


def check(cx):
    global _p
    _p = cx.prog("main")
    js = jobs(cx.tier)
    for r in pmap(many, [[j] for j in js]):
        for j, pr, n in r:
            cx.count("cases")
            cx.count("paths", n)
            for kind, text in pr:
                cx.bad("%s:%s" % (j[2] if j[0] == "front" else "dict_load_from_root" if j[0] == "load_root" else j[1], kind), text)
    cx.floor("cases", 75)
    cx.floor("paths", 500)
