"""What dictionary operations have to do on the tree of opaque nodes of dictcore.py"""
from dictcore import *

MOD = "tycho_types::dict::"


def the_body(p, fn):
    b = [x for x in p.bodies.values() if x["nm"] == fn and x["path"].startswith(MOD) and x["path"].endswith("::" + fn) and x.get("kind") != "closure"]
    if len(b) != 1:
        raise Undecided("%s is not there" % fn)
    return b[0]


class Step:
    """one node on the way of a key"""

    def __init__(s, path, pos, m, how, l, bit):
        s.path, s.pos, s.m, s.how, s.l, s.bit = path, pos, m, how, l, bit

    def L(s):
        return (0, (("L" + s.path, 1),))


def node(path):
    return cellv("n", path)


def tag(path):
    return (0, (("T" + path, 1),))


def lab(path, a, n):
    return ("w", ("lab", path), a, n)


def key_w(pos, n):
    return ("w", ("key",), pos, n)


def rest_of(D, st, path):
    """what follows the label of a node: data and references"""
    b, n = "Cn" + path, "Nn" + path
    return (("w", ("n", path), tag(path), sub((0, ((b, 1),)), tag(path))), ("rs", ("n", path), num(0), (0, ((n, 1),))))


def walk(D, ip, st, n):
    """-> [Step]; how: leaf, away (differs or ends inside the label), fork, long (label longer than what remains), unread, open, wrong"""
    out = []
    path, pos, m = "", num(0), n
    while True:
        if "L" + path not in st.vr:
            out.append(Step(path, pos, m, "unread", None, None))
            return out
        if not zero(st, sub(st.mem[("G", "m", ("n", path))], m)):
            out.append(Step(path, pos, m, "wrong", st.mem[("G", "m", ("n", path))], None))
            return out
        L = (0, (("L" + path, 1),))
        l = D.lcp(ip, st, key_w(pos, m), lab(path, num(0), L))
        if not st.holds(*sub(m, L)) and not st.possible(*sub(m, L)) or st.holds(*sub(sub(L, m), num(1))):
            out.append(Step(path, pos, m, "long", l, None))
            return out
        if zero(st, sub(l, m)):
            # all of the key agrees with the label: it is the label, which may not be longer than what remains
            if not st.add(*sub(m, L)):
                out.append(Step(path, pos, m, "long", l, None))
            else:
                out.append(Step(path, pos, m, "leaf", l, None))
            return out
        if st.holds(*sub(sub(L, l), num(1))):
            out.append(Step(path, pos, m, "away", l, st.bit(D.bit_at(st, ("key",), add(pos, l)))))
            return out
        if zero(st, sub(l, L)) and st.holds(*sub(sub(m, l), num(1))):
            b = st.bit(D.bit_at(st, ("key",), add(pos, L)))
            out.append(Step(path, pos, m, "fork", l, b))
            if b not in (0, 1):
                return out
            path, pos, m = path + str(b), add(add(pos, L), num(1)), sub(sub(m, L), num(1))
            continue
        out.append(Step(path, pos, m, "open", l, None))
        return out


def few_refs(st, path):
    """may the fork have less than two references"""
    n = "Nn" + path
    return n in st.vr and st.possible(1, ((n, -1),))


def malformed(D, st, steps):
    """the path allows, or requires, that the dictionary is not one"""
    for s in steps:
        if s.how in ("long",):
            return True
        if s.how == "fork" and few_refs(st, s.path):
            return True
    return False


def assume_good(st):
    """adds to the path that the nodes that were read are nodes of a dictionary -> is it possible"""
    for k in [k for k in st.mem if k[:2] == ("G", "m") and len(k) == 3]:
        path = k[2][1]
        m, L = st.mem[k], (0, (("L" + path, 1),))
        d = sub(m, L)
        if not st.add(*d):
            return False
        if st.holds(*sub(d, num(1))) and "N" + "n" + path in st.vr and not st.add(-2, (("Nn" + path, 1),)):
            return False
    return feasible(st.all_cons())


def items_len(its):
    n = num(0)
    for q in its:
        n = add(n, q[3] if q[0] == "w" else num(1))
    return n


def region(D, st, cell, m):
    """where the extra (and what follows) of a node lies -> tuples as the comparator gets them, or text"""
    a = cell.args
    if a[0] == "n":
        if "L" + a[1] not in st.vr:
            return "the label of %s is not read" % show_name(a)
        if not zero(st, sub(st.mem[("G", "m", a)], m)):
            return "the label of %s is read for %s bits, %s remain" % (show_name(a), show_l(st.mem[("G", "m", a)]), show_l(m))
        L, start = (0, (("L" + a[1], 1),)), tag(a[1])
    else:
        it = a[1][0]
        if it[0] != "label":
            return "no label in %s" % show_name(a)
        if not zero(st, sub(it[2], m)):
            return "label for %s bits where %s remain" % (show_l(it[2]), show_l(m))
        L, start = items_len(it[1]), (0, ((zvar(it, a), 1),))
    d = sub(m, L)
    leaf = zero(st, d)
    if not leaf and not st.holds(*sub(d, num(1))):
        return "it is open whether %s is a leaf" % show_name(a)
    r = num(0) if leaf else num(2)
    out = [(a, start, (0, (("C" + nm(a), 1),)), r, (0, (("N" + nm(a), 1),)))] if a[0] == "n" else [(a, start, D.full(D.ip, st, cell)[0], r, D.full(D.ip, st, cell)[1])]
    if a[0] == "built" and len(a[1]) == 3 and a[1][1][0] == "w" and a[1][2][0] == "rs" and a[1][1][1] == a[1][2][1] and a[1][1][1][0] == "n":
        # the node that was cut shorter has the same behind its label
        o = a[1][1][1]
        if rest_of(D, st, o[1]) == a[1][1:]:
            out.append((o, tag(o[1]), (0, (("C" + nm(o), 1),)), r, (0, (("N" + nm(o), 1),))))
    return out


def diff_extras(D, st, cell, m):
    """the extras of all built forks: of which cells, from where to where"""
    if cell.args[0] != "built":
        return None
    its = cell.args[1]
    cmps = [i for i in its if i[0] == "cmp"]
    kids = [i[1] for i in its if i[0] == "r"]
    if not cmps:
        return None
    if len(cmps) != 1 or len(kids) != 2 or its[0][0] != "label":
        return "extra of a cell that is no fork: %s" % show_cell(cell)
    left = sub(sub(m, items_len(its[0][1])), num(1))
    for side, kid, got in zip(("left", "right"), kids, cmps[0][1:]):
        want = region(D, st, kid, left)
        if isinstance(want, str):
            return "extra of the %s side: %s" % (side, want)
        why = None
        for w in want:
            if got[0] != w[0]:
                why = why or "it is taken from %s" % show_name(got[0])
                continue
            ds = [(k, x, y) for k, x, y in zip(("starts at bit", "ends at bit", "starts at reference", "ends at reference"), got[1:], w[1:]) if not zero(st, sub(x, y))]
            if not ds:
                break
            why = "it %s %s, expected %s" % (ds[0][0], show_l(ds[0][1]), show_l(ds[0][2]))
        else:
            return "extra of the %s side: %s" % (side, why)
        d = diff_extras(D, st, kid, left)
        if d:
            return d
    return None


def exotic_asked(st):
    return any(isinstance(b, tuple) and b[0] == "s" and isinstance(b[1], tuple) and b[1][0] and isinstance(b[1][0], tuple) and b[1][0][0] == "exotic" and v for b, v in st.asm.items())


COMPARATOR = Opq("fnptr", ("comparator",))
CMP = ("cmp",)


def rebuild(D, st, steps, leaf, upto=None, aug=False):
    """the cells on the way up with the last replaced; with an extra, the label is written anew"""
    for s in reversed(steps[:len(steps) - 1 if upto is None else upto]):
        other = ("r", node(s.path + str(1 - s.bit)))
        me = ("r", leaf)
        kids = (me, other) if s.bit == 0 else (other, me)
        own = (("label", (lab(s.path, num(0), s.L()),), s.m),) if aug else (("w", ("n", s.path), num(0), (0, (("Cn" + s.path, 1),))),)
        leaf = cellv("built", own + kids + (CMP,) * aug)
    return leaf


def opt_cell(D, ip, st, root):
    v = st.mem[root]
    if not (isinstance(v, Ag) and v.k == OPTION):
        raise Undecided("dictionary %r" % (v,))
    return None if v.v == 0 else D.is_cell(ip, st, v.f[0])


def diff_slice(D, st, v, path):
    """slice or range: behind the label of the node"""
    r = {k: x if isinstance(x, Af) else D.ip.var_of(st, x) for k, x in rfields(D.p, v).items()}
    want = {"bits_start": tag(path), "bits_end": (0, (("Cn" + path, 1),)), "refs_start": num(0), "refs_end": (0, (("Nn" + path, 1),))}
    for k, w in want.items():
        if not zero(st, sub(lform(r[k]), w)):
            return "%s of the value is %s, expected %s" % (k, show_l(lform(r[k])), show_l(w))
    if v.k == CS and D.name(get(D.p, v, "cell"), st) != ("n", path):
        return "the value is in another cell"
    return None


def setup(p, depth, fail=True):
    D = Dict(p, depth, fail)
    ip = Interp(p, [D.hook], max_traces=40000)
    D.ip = ip
    st = ip.state()
    st.var("n", 0, MAX)
    n = (0, (("n", 1),))
    key = D.key(ip, st, n)
    st.mem[("K",)] = key
    st.mem[("V",)] = Opq("value", ("value",))
    st.mem[("CX",)] = Opq("ctx")
    return D, ip, st, n, key


def root_value(st, some):
    st.mem[("ROOT",)] = node("")
    return Some(Ref(("ROOT",))) if some else NONE


def common(D, t, out, what):
    if t.kind == "panic":
        out.append(("panic", "%s panics: %s" % (what, t.why[0])))
        return False
    f = flags_text(t.st)
    if f:
        out.append(("arith", "%s: %s" % (what, f)))
    if not (isinstance(t.val, Ag) and t.val.k == RESULT):
        raise Undecided("result %r" % (t.val,))
    ld = t.st.mem.get(("G", "loads"), ())
    for x in set(x for x, _ in ld):
        k = sum(m & 1 for y, m in ld if y == x)
        if k < 1 or k > 1 and not what.startswith("dict_find_owned"):
            out.append(("gas", "%s accounts for loading %s %d times" % (what, show_name(x), k)))
    if ("G", "ctx") in t.st.mem:
        out.append(("context", "%s: %s without the context of the caller" % (what, t.st.mem[("G", "ctx")])))
    if t.st.mem.get(("G", "wrongm")):
        c, a, b = t.st.mem[("G", "wrongm")][0]
        out.append(("label", "%s: the label of %s is read for %s bits, %s remain" % (what, show_name(c), show_l(a), show_l(b))))
        return False
    return True


def wrong_m(steps, out, what):
    s = steps[-1]
    if s.how == "wrong":
        out.append(("label", "%s: the label of %s is read for %s bits, %s remain" % (what, show_name(("n", s.path)), show_l(s.l), show_l(s.m))))
        return True
    return False


def way(steps):
    return "root" + "".join("." + c for c in steps[-1].path)


def errors(D, t, n, kb, steps, out, what, unchanged=None, aug=False):
    """the trace is an error: is it one that may be?  an error that is lost?"""
    s = t.st
    if t.val.v == 1:
        ok = s.mem.get(ERRSRC) or not zero(s, sub(n, kb)) or malformed(D, s, steps) or aug and not assume_good(s.copy())
        if not ok:
            out.append(("fails", "%s fails at %s (%s) although nothing failed" % (what, way(steps), steps[-1].how)))
        if unchanged is not None and not unchanged(s):
            out.append(("atomic", "%s fails and leaves a changed dictionary" % what))
        return False
    if s.mem.get(ERRSRC):
        out.append(("error", "%s succeeds although %s failed" % (what, s.mem[ERRSRC][0])))
        return False
    if not zero(s, sub(n, kb)):
        out.append(("key", "%s succeeds for a key of another length" % what))
        return False
    return True


def removed_value(D, ip, s, x, path, out, fn):
    c = D.is_cell(ip, s, x.f[1])
    d = diff_slice(D, s, x.f[0], path) or (None if c is not None and c.args == ("n", path) else "it is in another cell")
    if d:
        out.append(("value", "%s: removed value: %s" % (fn, d)))


def removed_tree(D, ip, s, steps, out, fn, aug=None):
    now = opt_cell(D, ip, s, ("DICT",))
    if len(steps) == 1:
        if now is not None:
            out.append(("dict", "%s of the only key leaves a dictionary" % fn))
        return
    if now is None:
        out.append(("dict", "%s of one key empties the dictionary" % fn))
        return
    par = steps[-2]
    sib = par.path + str(1 - par.bit)
    if "L" + sib not in s.vr:
        out.append(("dict", "%s: the sibling of the removed leaf is not read" % fn))
        return
    if not zero(s, sub(s.mem[("G", "m", ("n", sib))], steps[-1].m)):
        out.append(("label", "%s: the label of the sibling is read for %s bits, %s remain" % (fn, show_l(s.mem[("G", "m", ("n", sib))]), show_l(steps[-1].m))))
        return
    joined = cellv("built", (("label", (lab(par.path, num(0), par.L()), ("b", 1 - par.bit), lab(sib, num(0), (0, (("L" + sib, 1),)))), par.m),)
                   + rest_of(D, s, sib))
    want = rebuild(D, s, steps, joined, len(steps) - 2, aug is not None)
    d = diff_cell(D, s, now, want)
    if not d and aug is not None:
        d = diff_extras(D, s, now, aug)
    if d:
        out.append(("dict", "%s at %s: %s" % (fn, way(steps), d[:300])))



def descend(D, st, path, pos, m, pick):
    """the way from a node to a leaf; pick(step) names the side of a fork -> [Step]"""
    out = []
    while True:
        if "L" + path not in st.vr:
            out.append(Step(path, pos, m, "unread", None, None))
            return out
        if not zero(st, sub(st.mem[("G", "m", ("n", path))], m)):
            out.append(Step(path, pos, m, "wrong", st.mem[("G", "m", ("n", path))], None))
            return out
        L = (0, (("L" + path, 1),))
        if zero(st, sub(m, L)):
            out.append(Step(path, pos, m, "leaf", L, None))
            return out
        if st.holds(*sub(sub(L, m), num(1))):
            out.append(Step(path, pos, m, "long", L, None))
            return out
        if not st.holds(*sub(sub(m, L), num(1))):
            out.append(Step(path, pos, m, "open", L, None))
            return out
        s = Step(path, pos, m, "fork", L, None)
        s.bit = pick(s)
        out.append(s)
        path, pos, m = path + str(s.bit), add(add(pos, L), num(1)), sub(sub(m, L), num(1))


def key_items(steps):
    """the bits of the key of the last step, by labels"""
    out = ()
    for s in steps:
        out += (lab(s.path, num(0), s.L()),)
        if s.how == "fork":
            out += (("b", s.bit),)
    return out


def cases_zero(st, l):
    """splits on l == 0 (l is not negative) -> [(state, bool)]"""
    if zero(st, l):
        return [(st, True)]
    pos = sub(l, num(1))
    if st.holds(*pos):
        return [(st, False)]
    out = []
    a, b = st.copy(), st.copy()
    if a.add(-l[0], tuple((v, -k) for v, k in l[1])) and feasible(a.all_cons()):
        out.append((a, True))
    if b.add(*pos) and feasible(b.all_cons()):
        out.append((b, False))
    return out


def merge_siblings(p, fn, aug, sl, sr):
    """two dictionaries whose labels part: one fork above them; left holds the 0 side"""
    D = Dict(p, 2, True)
    ip = Interp(p, [D.hook], max_traces=40000)
    D.ip = ip
    st = ip.state()
    st.mem[("CX",)] = Opq("ctx")
    st.var("n", 0, MAX)
    n = (0, (("n", 1),))
    b = the_body(p, fn)
    for k, x in (("l", sl), ("r", sr)):
        st.mem[("D", k)] = Some(node(k)) if x else NONE
    out, kinds = [], {}
    tr = ip.run(st, b, [Ref(("D", "l")), Ref(("D", "r")), a16(n)] + [COMPARATOR] * aug + [Ref(("CX",))])
    for t in tr:
        if not common(D, t, out, fn):
            continue
        s = t.st
        v = t.val.f[0]
        if t.val.v == 0 and s.mem.get(ERRSRC):
            out.append(("error", "%s succeeds although %s failed" % (fn, s.mem[ERRSRC][0])))
            continue
        if not (sl and sr):
            want = "l" if sl else "r" if sr else None
            got = D.is_cell(ip, s, v.f[0]).args if t.val.v == 0 and v.v else None
            if t.val.v or got != (("n", want) if want else None):
                out.append(("result", "%s of %s does not yield what there is" % (fn, "one dictionary" if want else "nothing")))
            continue
        if s.mem.get(ERRSRC):
            continue
        read = all("L" + k in s.vr for k in "lr")
        if not read:
            out.append(("result", "%s answers without having read the labels" % fn))
            continue
        if not assume_good(s):
            continue
        ms = [s.mem[("G", "m", ("n", k))] for k in "lr"]
        if any(not zero(s, sub(m, n)) for m in ms):
            out.append(("label", "%s reads a label for a wrong number of bits" % fn))
            continue
        Ls = [(0, (("L" + k, 1),)) for k in "lr"]
        # do the labels part, with 0 on the left and 1 on the right?
        if any(zero(s, L) for L in Ls):
            part = False
        else:
            l = D.lcp(ip, s, lab("l", num(0), Ls[0]), lab("r", num(0), Ls[1]))
            ends = [zero(s, sub(L, l)) for L in Ls]
            inside = [s.holds(*sub(sub(L, l), num(1))) for L in Ls]
            bits = [known(s, D.bit_at(s, ("lab", k), l)) for k in "lr"]
            part = False if any(ends) or bits[0] == 1 or bits[1] == 0 else True if all(inside) and bits == [0, 1] else None
        if part is None and t.val.v == 0:
            out.append(("result", "%s answers before it is known whether the labels part, 0 on the left" % fn))
            continue
        if t.val.v:
            if part or part is None and not any(s.possible(*sub(l, L)) for L in Ls):
                out.append(("fails", "%s fails although the labels part" % fn))
            continue
        if not part:
            out.append(("result", "%s joins dictionaries that are no siblings" % fn))
            continue
        kinds[1] = 1
        got = D.is_cell(ip, s, v.f[0]) if v.v else None
        if got is None:
            out.append(("result", "%s yields nothing" % fn))
            continue
        rem = sub(sub(n, l), num(1))
        kids = tuple(("r", cellv("built", (("label", (lab(k, add(l, num(1)), sub(sub(L, l), num(1))),), rem),) + rest_of(D, s, k))) for k, L in zip("lr", Ls))
        want = cellv("built", (("label", (lab("l", num(0), l),), n),) + kids + (CMP,) * aug)
        d = diff_cell(D, s, got, want)
        if not d and aug:
            d = diff_extras(D, s, got, n)
        if d:
            out.append(("dict", "%s: %s" % (fn, d[:300])))
    if sl and sr and not kinds:
        out.append(("vacuous", "%s never joins" % fn))
    return out, len(tr), D.cut
