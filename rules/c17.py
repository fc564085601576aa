"""Currency arithmetic.  Adding, subtracting and clamping collections of amounts is followed on the compiler's MIR with dictionaries as
logs of operations and amounts as terms.  Iterating a dictionary yields unknown distinct keys with their amounts (C14), lookups and
updates follow C13, additions of amounts C11; each of them may fail.  For every path the entry under each key is compared with the
result for that key: the sum, the difference or the lesser amount, no entry where it is zero, an error when it does not fit."""
from cellcore import *
from par import pmap

EXPLAIN = __doc__
ASSUMPTIONS = ["rustc's MIR is what is compiled", "dictionaries follow C13 and C14, amounts C11"]
_p = None
CUR = "tycho_types::models::currency::"
ECC, CC = CUR + "ExtraCurrencyCollection", CUR + "CurrencyCollection"
FAIL = ("G", "fail")
ERR = "tycho_types::error::Error"
ZERO = ("0",)
ROUNDS = 3


def amt(t):
    return Opq("amt", (t,))


class Money:
    def __init__(s, target):
        s.target = target

    def val(s, ip, st, v):
        n = 0
        while isinstance(v, Ref):
            if v.root not in st.mem:
                raise Undecided("reference to %s" % (v.root,))
            v, n = ip.read(st, v.root, v.path), n + 1
        return v

    def term(s, ip, st, v):
        v = s.val(ip, st, v)
        if isinstance(v, Opq) and v.name == "amt":
            return v.args[0]
        if isinstance(v, Ag) and str(v.k).split("::")[-1] in ("VarUint248", "Tokens"):
            if all(num_of(x) == 0 for x in leafs(v)):
                return ZERO
        raise Undecided("amount %s" % (v,))

    def dict(s, ip, st, v):
        v = s.val(ip, st, v)
        while isinstance(v, Ag) and len(v.f) == 1:
            v = v.f[0]
        if isinstance(v, Ag) and str(v.k).endswith("Dict"):
            r = get(_p, v, "root")
            if isinstance(r, Ag) and r.k == OPTION and r.v == 0:
                return ("empty", ())
        if isinstance(v, Opq) and v.name == "dict":
            return v.args
        raise Undecided("dictionary %s" % (v,))

    def place(s, ip, st, v):
        """where the dictionary stands"""
        x = ip.read(st, v.root, v.path)
        if isinstance(x, Ref):
            return s.place(ip, st, x)
        return v

    def keyof(s, ip, st, v):
        v = s.val(ip, st, v)
        if isinstance(v, Opq) and v.name == "key":
            return v.args[0]
        raise Undecided("key %s" % (v,))

    def err(s, st, what):
        e = Opq("err", (what,))
        st.mem[FAIL] = st.mem.get(FAIL, ()) + (e.args,)
        return Ag(RESULT, 1, (e,))

    def fork_bool(s, st, fact):
        if fact in st.mem:
            return [(st, st.mem[fact])]
        out = []
        for b in (True, False):
            t = st.copy()
            t.mem[fact] = b
            out.append((t, b))
        return out

    def is_zero(s, st, t):
        return [(st, True)] if t == ZERO else s.fork_bool(st, ("Z", t))

    def look(s, st, d, k):
        """value under the key: list of (state, term or None)"""
        base, ops = d
        for op, kk, v in reversed(ops):
            if kk == k:
                return [(st, v)]
        if base == "empty":
            return [(st, None)]
        return [(x, ("at", base, k) if b else None) for x, b in s.fork_bool(st, ("has", base, k))]

    def hook(s, ip, st, c, a):
        nm, path = c["nm"], c["path"]
        if path == s.target:
            return None
        me = c.get("self")
        me = _p.tystr(_p.ty(me) if isinstance(me, int) else me) if me is not None else ""
        short = me.split("<")[0].split("::")[-1]
        if short == "Dict":
            return s.dict_op(ip, st, c, a, nm)
        if short == "Iter" or nm in ("next", "into_iter") and a and s.is_iter(ip, st, a[0]):
            if nm == "into_iter":
                return [(st, a[0])]
            if nm == "next":
                return s.next(ip, st, a[0])
            raise Undecided("Iter::" + nm)
        if short in ("VarUint248", "Tokens"):
            return s.amount(ip, st, c, a, nm, short)
        if nm == "default" and "VarUint248" in str(c.get("retty")) + path:
            return [(st, amt(ZERO))]
        if path == "core::cmp::min" or nm in ("min", "max") and "core::cmp" in path:
            x, y = s.term(ip, st, a[0]), s.term(ip, st, a[1])
            out = []
            for t, b in s.fork_bool(st, ("gt", x, y)):
                out.append((t, amt((y if b else x) if nm == "min" else (x if b else y))))
            return out
        if short == "ExtraCurrencyCollection" and nm in ("checked_add", "checked_sub", "checked_clamp"):
            x, y = s.dict(ip, st, a[0]), s.dict(ip, st, a[1])
            t = st.copy()
            return [(st, Ok(Opq("ecc", (nm, x, y)))), (t, s.err(t, (nm,)))]
        return None

    def is_iter(s, ip, st, v):
        try:
            v = s.val(ip, st, v)
        except Undecided:
            return False
        return isinstance(v, Opq) and v.name == "iter"

    def next(s, ip, st, ref):
        it = s.val(ip, st, ref)
        base, i = it.args
        if i == "end":
            return [(st, NONE)]
        pl = s.place(ip, st, ref)
        out = []
        t = st.copy()
        ip.write(t, pl.root, pl.path, Opq("iter", (base, "end")))
        t.mem[("ended", base[0])] = True
        out.append((t, NONE))
        if base[0] == "empty" and not base[1]:
            return out
        if base[1]:
            raise Undecided("iteration over an updated dictionary")
        t = st.copy()
        ip.write(t, pl.root, pl.path, Opq("iter", (base, "end")))
        e = s.err(t, ("next", i))
        out.append((t, Some(e)))
        if i < ROUNDS:
            t = st.copy()
            ip.write(t, pl.root, pl.path, Opq("iter", (base, i + 1)))
            t.mem[("has", base[0], i)] = True
            t.mem[("seen", base[0])] = i + 1
            out.append((t, Some(Ok(Ag("tuple", 0, (Opq("key", (i,)), amt(("at", base[0], i))))))))
        return out

    def dict_op(s, ip, st, c, a, nm):
        if nm in ("new", "default"):
            return [(st, Opq("dict", ("empty", ())))]
        if nm == "clone":
            return [(st, Opq("dict", s.dict(ip, st, a[0])))]
        d = s.dict(ip, st, a[0])
        if nm in ("iter", "into_iter"):
            return [(st, Opq("iter", (d, 0)))]
        if nm == "is_empty":
            if d[1]:
                raise Undecided("is_empty of an updated dictionary")
            return [(st, B(1))] if d[0] == "empty" else [(t, B(int(b))) for t, b in s.fork_bool(st, ("none", d[0]))]
        k = s.keyof(ip, st, a[1])
        out = []
        t = st.copy()
        out.append((t, s.err(t, (nm, k))))
        for t, v in s.look(st, d, k):
            if nm == "get":
                out.append((t, Ok(NONE if v is None else Some(amt(v)))))
            elif nm == "contains_key":
                out.append((t, Ok(B(int(v is not None)))))
            elif nm in ("remove", "remove_raw"):
                pl = s.place(ip, t, a[0])
                ip.write(t, pl.root, pl.path, Opq("dict", (d[0], d[1] + (("rem", k, None),))))
                out.append((t, Ok(NONE if v is None else Some(amt(v) if nm == "remove" else Opq("raw")))))
            elif nm in ("set", "add", "replace"):
                x = s.term(ip, t, a[2])
                done = nm == "set" or (v is None) == (nm == "add")
                if done:
                    pl = s.place(ip, t, a[0])
                    ip.write(t, pl.root, pl.path, Opq("dict", (d[0], d[1] + (("set", k, x),))))
                out.append((t, Ok(B(int(done)))))
            else:
                raise Undecided("Dict::" + nm)
        return out

    def amount(s, ip, st, c, a, nm, short):
        if nm in ("default",):
            return [(st, amt(ZERO))]
        if nm == "clone":
            return [(st, s.val(ip, st, a[0]))]
        if nm == "is_zero":
            return [(t, B(int(b))) for t, b in s.is_zero(st, s.term(ip, st, a[0]))]
        if nm in ("checked_add", "checked_sub"):
            x, y = s.term(ip, st, a[0]), s.term(ip, st, a[1])
            r = simp(st, "+" if nm == "checked_add" else "-", x, y)
            if r[0] not in "+-" or r[0] != ("+" if nm == "checked_add" else "-"):
                return [(st, Some(amt(r)))]
            return [(t, Some(amt(r)) if b else s.none(t)) for t, b in s.fork_bool(st, ("fits", r))]
        if nm in ("gt", "lt", "ge", "le", "eq", "ne"):
            x, y = s.term(ip, st, a[0]), s.term(ip, st, a[1])
            out = []
            if nm in ("lt", "ge"):
                x, y = y, x
            if nm in ("eq", "ne"):
                if ZERO in (x, y):
                    return [(t, B(int(b == (nm == "eq")))) for t, b in s.is_zero(st, x if y == ZERO else y)]
                raise Undecided("amounts compared")
            return [(t, B(int(b == (nm in ("gt", "lt"))))) for t, b in s.fork_bool(st, ("gt", x, y))]
        raise Undecided("%s::%s" % (short, nm))

    def none(s, t):
        t.mem[FAIL] = t.mem.get(FAIL, ()) + ("overflow",)
        return NONE


def leafs(v):
    if isinstance(v, Ag):
        for x in v.f:
            yield from leafs(x)
    elif isinstance(v, Arr):
        raise Undecided("array amount")
    else:
        yield v


def num_of(v):
    if isinstance(v, Af):
        return v.c if not v.t else None
    if isinstance(v, Opq) and v.name == "constint":
        return v.args[-1]
    if isinstance(v, (list, tuple)):
        return sum(b << i for i, b in enumerate(v)) if all(b in (0, 1) for b in v) else None
    if isinstance(v, Bv):
        return sum(b << i for i, b in enumerate(v.b)) if all(b in (0, 1) for b in v.b) else None
    return None


def simp(st, op, x, y):
    z = lambda t: t == ZERO or st.mem.get(("Z", t)) is True
    if z(y):
        return x
    if op == "+":
        return y if z(x) else ("+",) + tuple(sorted((x, y), key=str))
    return ZERO if x == y else ("-", x, y)


def show(t):
    if t is None:
        return "no entry"
    if t == ZERO:
        return "0"
    if t[0] == "at":
        return "%s[k%d]" % t[1:]
    if t[0] in "+-":
        return "%s %s %s" % (show(t[1]), t[0], show(t[2]))
    return str(t)


def start(m):
    ip = Interp(_p, [m.hook], max_traces=60000)
    ip.on_const = lambda st, k, ty: None
    st = ip.state()
    return ip, st


def only(path):
    bs = [b for b in _p.bodies.values() if b["path"] == path and b["kind"] != "closure"]
    if len(bs) != 1:
        raise Undecided(path)
    return bs[0]


def ecc(v):
    return mkadt(_p, ECC, **{"0": v})


def err_kind(t):
    e = t.val.f[0]
    if isinstance(e, Opq) and e.name == "err":
        return e.args
    if isinstance(e, Ag) and e.k == ERR:
        return _p.adts[ERR]["v"][e.v]["n"]
    return "?"


def failures(t, out, fn):
    """errors are passed on, and nothing else is one; True when the path ends in success"""
    if t.kind != "ret":
        out.append(("panic", "%s can panic: %s" % (fn, t.why)))
        return False
    f = t.st.mem.get(FAIL, ())
    if t.val.v == 0:
        if f:
            out.append(("error", "%s succeeds although %s failed" % (fn, f[0])))
            return False
        return True
    k = err_kind(t)
    if not f:
        out.append(("fails", "%s fails with %s although nothing failed" % (fn, k)))
    elif k != ("IntOverflow" if f[0] == "overflow" else f[0]):
        out.append(("kind", "%s answers %s when %s failed" % (fn, k, f[0])))
    return False


def same(st, got, want):
    """entry after the operation against what it must be (either may be None); zero of an unknown amount must have been settled"""
    if want is not None and want[0] != "at":
        z = True if want == ZERO else st.mem.get(("Z", want))
        if z is None:
            return got == want and None or "%s is written without knowing whether it is zero" % show(want) if got == want else "%s, not %s" % (show(got), show(want))
        if z:
            want = None
    return None if got == want else "%s, not %s" % (show(got), show(want))


def extra(fn):
    """collections of extra currencies, entry by entry"""
    m = Money(ECC + "::" + fn)
    ip, st = start(m)
    two = fn.startswith("checked_")
    st.mem[("A",)] = ecc(Opq("dict", ("self", ())))
    st.mem[("B",)] = ecc(Opq("dict", ("other", ())))
    args = [Ref(("A",))] + ([Ref(("B",))] if two else [])
    out, kinds = [], {}
    tr = ip.run(st, only(ECC + "::" + fn), args)
    walked = "other" if fn in ("checked_add", "checked_sub") else "self"
    for t in tr:
        inplace = fn == "normalize"
        okay = failures(t, out, fn)
        if t.kind != "ret":
            continue
        s = t.st
        me, oth = m.dict(ip, s, s.mem[("A",)]), m.dict(ip, s, s.mem[("B",)])
        if oth != ("other", ()) or (me != ("self", ()) and not (inplace and okay)):
            out.append(("operand", "%s changes an operand%s" % (fn, "" if okay else " and fails")))
        if not okay:
            continue
        base, ops = me if inplace else m.dict(ip, s, t.val.f[0])
        if base != "self":
            if base == "other" and fn == "checked_clamp" or base == "other" or s.mem.get(("none", "self")) is not True and base == "empty":
                out.append(("base", "%s starts from %s" % (fn, base)))
                continue
        n = s.mem.get(("seen", walked), 0)
        empty = s.mem.get(("none", walked))
        kinds[n] = 1
        if not s.mem.get(("ended", walked)) and empty is not True:
            out.append(("rest", "%s stops before the last entry" % fn))
            continue
        for k in range(max([n] + [o[1] + 1 for o in ops])):
            for x, got in m.look(s.copy(), (base, ops), k):
                for y, a in m.look(x, ("self", ()), k):
                    for z, b in (m.look(y, ("other", ()), k) if two else [(y, None)]):
                        if base == "empty":
                            got = [v for o, kk, v in ops if kk == k][-1:] or [None]
                            got = got[0]
                        elif not any(o[1] == k for o in ops):
                            got = a
                        why = judge(fn, m, z, got, a, b)
                        if why:
                            out.append(("entry", "%s: under key k%d (self %s, other %s) stands %s" % (fn, k, show(a), show(b), why)))
        if any(o[1] >= n for o in ops):
            out.append(("entry", "%s changes a key that was not yielded" % fn))
    if sorted(kinds) != list(range(ROUNDS + 1)):
        out.append(("vacuous", "%s: %s entries" % (fn, sorted(kinds))))
    return out, len(tr)


def judge(fn, m, s, got, a, b):
    if fn == "checked_add":
        return None if b is None and got == a else same(s, got, simp(s, "+", a or ZERO, b)) if b is not None else "%s, not %s" % (show(got), show(a))
    if fn == "checked_sub":
        return None if b is None and got == a else same(s, got, simp(s, "-", a or ZERO, b)) if b is not None else "%s, not %s" % (show(got), show(a))
    if fn in ("normalize", "normalized"):
        if a is None:
            return None if got is None else show(got)
        z = s.mem.get(("Z", a))
        if z is None:
            return "an amount that was not tested for zero"
        return None if got == (None if z else a) else "%s, not %s" % (show(got), show(None if z else a))
    # clamp: the lesser amount; an absent entry counts as zero
    if a is None:
        return None if got is None else show(got)
    if b is None:
        z = s.mem.get(("Z", a))
        if got is None or z and got == a:
            return None
        return "%s although the other has none" % show(got)
    g = s.mem.get(("gt", a, b))
    if g is None and s.mem.get(("gt", b, a)) is not None:
        g = not s.mem[("gt", b, a)]
        if got == a and not g or got == b and g:
            return None
        return show(got)
    if g is None:
        return "%s, without comparing" % show(got)
    return None if got == (b if g else a) else "%s, not the lesser" % show(got)


def whole(fn):
    """tokens and extra currencies together"""
    m = Money(CC + "::" + fn)
    ip, st = start(m)
    tok = fn.endswith("_tokens")
    st.mem[("A",)] = mkadt(_p, CC, tokens=amt(("at", "self", 0)), other=ecc(Opq("dict", ("self", ()))))
    st.mem[("B",)] = mkadt(_p, CC, tokens=amt(("at", "other", 0)), other=ecc(Opq("dict", ("other", ()))))
    out, n = [], 0
    tr = ip.run(st, only(CC + "::" + fn), [Ref(("A",))] + ([amt(("at", "other", 0))] if tok else [] if fn == "is_zero" else [Ref(("B",))]))
    a, b = ("at", "self", 0), ("at", "other", 0)
    inplace = fn.startswith("try_")
    for t in tr:
        if fn == "is_zero":
            if t.kind != "ret":
                out.append(("panic", "%s can panic" % fn))
                continue
            z, e = t.st.mem.get(("Z", a)), t.st.mem.get(("none", "self"))
            want = 0 if z is False or e is False else 1 if z and e else None
            n += 1
            if num_of(ip.bits(t.st, t.val)) != want:
                out.append(("result", "is_zero is %s where tokens are %s and the extra currencies %s" % (
                    num_of(ip.bits(t.st, t.val)), {True: "zero", False: "not zero", None: "unknown"}[z], {True: "empty", False: "not empty", None: "unknown"}[e])))
            continue
        okay = failures(t, out, fn)
        if t.kind != "ret":
            continue
        s = t.st
        now = s.mem[("A",)]
        for root, nm in ((("A",), "self"), (("B",), "other")):
            v = s.mem[root]
            if nm == "self" and inplace and okay:
                continue
            if m.term(ip, s, get(_p, v, "tokens")) != ("at", nm, 0) or m.dict(ip, s, get(_p, v, "other")) != (nm, ()):
                out.append(("operand", "%s changes its operand%s" % (fn, "" if okay else " and fails")))
        if not okay:
            continue
        n += 1
        v = now if inplace else t.val.f[0]
        tk, oth = m.term(ip, s, get(_p, v, "tokens")), get(_p, v, "other")
        op = "add" if "add" in fn else "sub" if "sub" in fn else "clamp"
        if op == "clamp":
            g = s.mem.get(("gt", a, b))
            want = None if g is None else b if g else a
        else:
            want = simp(s, "+" if op == "add" else "-", a, b)
        if tk != want:
            out.append(("tokens", "%s: tokens are %s, not %s" % (fn, show(tk), show(want) if want else "the lesser")))
        if tok:
            if m.dict(ip, s, oth) != ("self", ()):
                out.append(("other", "%s changes the extra currencies" % fn))
        elif not (isinstance(oth, Opq) and oth.name == "ecc" and oth.args == ("checked_" + op, ("self", ()), ("other", ()))):
            out.append(("other", "%s: the extra currencies are not those of checked_%s" % (fn, op)))
    if not n:
        out.append(("vacuous", fn))
    return out, len(tr)


def jobs(tier):
    return [("extra", f) for f in ("checked_add", "checked_sub", "checked_clamp", "normalized", "normalize")] + \
           [("whole", f) for f in ("is_zero", "checked_add", "checked_sub", "checked_clamp", "try_add_assign", "try_sub_assign", "try_add_assign_tokens", "try_sub_assign_tokens")]


def any_job(j):
    try:
        out, n = globals()[j[0]](*j[1:])
    except GIVE_UP as e:
        return j, [("undecided", "%s: %s" % (type(e).__name__, e))], 0
    return j, out, n


def many(js):
    return [any_job(j) for j in js]


def check(cx):
    global _p
    _p = cx.prog("main")
    for r in pmap(many, [[j] for j in jobs(cx.tier)]):
        for j, pr, n in r:
            cx.count("cases")
            cx.count("paths", n)
            for kind, text in pr:
                cx.bad("%s.%s:%s" % ({"extra": "extra", "whole": "collection"}[j[0]], j[1], kind), text)
    cx.floor("cases", 13)
    cx.floor("paths", 100)
