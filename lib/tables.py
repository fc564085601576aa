"""Functions of few input bits: the abstract results of all paths, as boolean
functions of the input bits, compared with the expected function by their truth
tables (canonical form of a boolean function)."""
from bits import *


class Ev:
    """evaluates abstract values under an assignment of the input bits"""

    def __init__(s, ip, env):
        s.ip, s.env = ip, env

    def var(s, v):
        if v in s.env:
            return s.env[v]
        if v in s.ip.bvs:
            return sum(s.bit(b) << i for i, b in enumerate(s.ip.bvs[v]))
        if v in s.ip.qs:
            c, t, m = s.ip.qs[v]
            return s.lin(c, t) // m
        raise Undecided("value of %s" % (v,))

    def lin(s, c, t):
        return c + sum(k * s.var(v) for v, k in t)

    def bit(s, b):
        if isinstance(b, int):
            return b
        k = b[0]
        if k == "s":
            nm, i = b[1]
            if isinstance(nm, tuple) and nm and nm[0] == "af":
                return (s.lin(nm[2], nm[1]) >> i) & 1
            if b[1] in s.env:
                return s.env[b[1]]
            raise Undecided("value of bit %s" % (b[1],))
        if k == "~":
            return 1 - s.bit(b[1])
        if k == "&":
            return s.bit(b[1]) & s.bit(b[2])
        if k == "^":
            return s.bit(b[1]) ^ s.bit(b[2])
        if k == "cmp":
            return 1 if s.lin(b[1], b[2]) >= 0 else 0
        raise Undecided("unknown bit")

    def value(s, st, v):
        """-> a python value: int, ("adt", kind, variant, fields)"""
        if isinstance(v, Af):
            x = s.lin(v.c, v.t)
            return x
        if isinstance(v, Bv):
            x = sum(s.bit(b) << i for i, b in enumerate(v.b))
            return x - (1 << v.w) if v.sg and x >> (v.w - 1) else x
        if isinstance(v, Ag):
            return (v.k if isinstance(v.k, str) else "?", v.v) + tuple(s.value(st, x) for x in v.f)
        if isinstance(v, Arr) and not v.n.t:
            return tuple(s.value(st, s.ip.elem(st, v, K(i))) for i in range(v.n.c))
        if isinstance(v, Ref):
            return s.value(st, s.ip.read(st, v.root, v.path))
        if isinstance(v, Sl) and not v.len.t:
            arr = s.ip.read(st, v.root, v.path)
            return tuple(s.value(st, s.ip.elem(st, arr, s.ip.plus(v.off, i))) for i in range(v.len.c))
        if isinstance(v, Opq):
            return repr(Opq(v.name, tuple(s.value(st, x) if isinstance(x, (Af, Bv)) else x for x in v.args)))
        raise Undecided("value of %r" % (v,))

    def holds(s, st):
        for b, v in st.asm.items():
            if s.bit(b) != v:
                return False
        for c, t in st.cons:
            if s.lin(c, t) < 0:
                return False
        for v, (lo, hi) in st.vr.items():
            if v in s.env or v in s.ip.bvs or v in s.ip.qs:
                x = s.var(v)
                if lo is not None and x < lo or hi is not None and x > hi:
                    return False
        return True


def flat(x):
    """single-field wrapper structs collapse to their field"""
    if isinstance(x, tuple) and len(x) == 3 and isinstance(x[0], str) and x[1] == 0 and x[0] not in (OPTION, RESULT, "tuple"):
        return flat(x[2])
    if isinstance(x, tuple):
        return tuple(flat(y) for y in x)
    return x


def decide(ip, body, syms, args, expect, sub=None, prep=None, where=None):
    """Runs `body` on args (values or callables of the state) and compares the
    result with expect(ints) for every assignment; syms: [(name, width)].
    expect returns None where the function is unspecified.
    -> (list of problems, number of paths, number of table rows)"""
    st = ip.state()
    if prep:
        prep(st)
    av = [a(st) if callable(a) else a for a in args]
    traces = ip.run(st, body, av, sub)
    bad = []
    rows = 0
    total = sum(w for _, w in syms)
    if total > 16:
        raise Undecided("table of %d bits" % total)
    for n in range(1 << total):
        env, ints, k = {}, [], 0
        for nm, w in syms:
            x = (n >> k) & ((1 << w) - 1)
            k += w
            ints.append(x)
            for i in range(w):
                env[(nm, i)] = (x >> i) & 1
        want = expect(*ints)
        if want is None:
            continue
        rows += 1
        e = Ev(ip, env)
        hit = [t for t in traces if e.holds(t.st)]
        if not hit:
            raise Undecided("no path of %s covers %s" % (body["path"], ints))
        for t in hit:
            if t.kind == "panic":
                got = "panic"
            else:
                got = flat(e.value(t.st, where(t) if where else t.val))
            if t.st.flags and got == want:
                got = "flag %s" % (t.st.flags[0],)
            if got != want:
                bad.append((dict(zip([s[0] for s in syms], ints)), got, want))
                break
    return bad, len(traces), rows
