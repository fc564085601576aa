"""Abstract interpretation of MIR over bit provenance and affine integers.

An integer is either an affine expression over integer variables (lengths,
offsets, byte positions) or a vector of bits, each of them 0, 1, the name of an
input bit, or an expression over such bits.  A byte array is a map from affine
positions to such bytes.  Paths are partitioned on every condition that the
domain does not decide; the integer facts of a path are linear inequalities,
decided by interval bounds and Fourier-Motzkin elimination (the polyhedra
domain).  Nothing is executed: lengths and positions stay symbolic, only the
alignment and the width of a field are case-split."""
from math import gcd


class Undecided(Exception):
    pass


# a case of the code that the analysis is not made for
GIVE_UP = (Undecided, KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError, RecursionError)


# ---------------------------------------------------------------- values ----
class Af:
    __slots__ = ("w", "sg", "c", "t")

    def __init__(s, w, sg, c, t=()):
        s.w, s.sg, s.c, s.t = w, sg, c, t

    def __repr__(s):
        return "+".join(([str(s.c)] if s.c or not s.t else []) + ["%s%s" % ("" if k == 1 else str(k) + "*", v) for v, k in s.t])

    def key(s):
        return (s.t, s.c)


class Bv:
    __slots__ = ("w", "sg", "b")

    def __init__(s, w, sg, b):
        s.w, s.sg, s.b = w, sg, tuple(b)

    def __repr__(s):
        return "<" + ",".join(show_bit(x) for x in reversed(s.b)) + ">"


class Ag:
    __slots__ = ("k", "v", "f")

    def __init__(s, k, v, f):
        s.k, s.v, s.f = k, v, tuple(f)

    def __repr__(s):
        return "%s#%d%r" % (s.k if isinstance(s.k, str) else s.k[-1], s.v, s.f)


class Arr:
    """n: Af length; d: written elements; init: key -> value"""
    __slots__ = ("n", "d", "init", "name")

    def __init__(s, n, d=None, init=None, name=None):
        s.n, s.d, s.init, s.name = n, d or {}, init, name

    def __repr__(s):
        return "[%r;%r]" % (s.d, s.n)


class Ref:
    __slots__ = ("root", "path")

    def __init__(s, root, path=()):
        s.root, s.path = root, path

    def __repr__(s):
        return "&%r%r" % (s.root, s.path)


class Sl:
    """A slice reference: elements off..off+len of the array at (root, path)"""
    __slots__ = ("root", "path", "off", "len")

    def __init__(s, root, path, off, ln):
        s.root, s.path, s.off, s.len = root, path, off, ln

    def __repr__(s):
        return "&%r%r[%r;%r]" % (s.root, s.path, s.off, s.len)


class Pt:
    """A raw pointer to element off of the array at (root, path)"""
    __slots__ = ("root", "path", "off")

    def __init__(s, root, path, off):
        s.root, s.path, s.off = root, path, off

    def __repr__(s):
        return "*%r%r+%r" % (s.root, s.path, s.off)


class Opq:
    """An opaque object"""
    __slots__ = ("name", "args")

    def __init__(s, name, args=()):
        s.name, s.args = name, args

    def __repr__(s):
        return "?%s%r" % (s.name, s.args)


class Fn:
    __slots__ = ("rec", "sub")

    def __init__(s, rec, sub):
        s.rec, s.sub = rec, sub


UNIT = Ag("tuple", 0, ())
OPTION = "core::option::Option"
RESULT = "core::result::Result"
CFLOW = "core::ops::control_flow::ControlFlow"
RANGE = "core::ops::range::Range"
NONE = Ag(OPTION, 0, ())


def Some(x):
    return Ag(OPTION, 1, (x,))


def Ok(x):
    return Ag(RESULT, 0, (x,))


def Err(x):
    return Ag(RESULT, 1, (x,))


def K(c, w=64, sg=False):
    return Af(w, sg, c)


def B(b):
    """a bool from a bit"""
    return K(b, 1) if isinstance(b, int) else Bv(1, False, (b,))


def show_bit(b):
    if isinstance(b, int):
        return str(b)
    if b[0] == "s":
        return "%s" % (b[1],)
    if b[0] == "~":
        return "~" + show_bit(b[1])
    if b[0] == "T":
        return "?"
    if b[0] == "cmp":
        return "(%r >= 0)" % Af(0, False, b[1], b[2])
    return "(" + (" %s " % (b[0],)).join(show_bit(x) if isinstance(x, (tuple, int)) else str(x) for x in b[1:]) + ")"


_top = [0]


def top():
    _top[0] += 1
    return ("T", _top[0])


def bnot(a):
    if isinstance(a, int):
        return 1 - a
    if a[0] == "~":
        return a[1]
    return ("~", a)


def band(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1 or a == b:
        return a
    if bnot(a) == b:
        return 0
    return ("&",) + tuple(sorted((a, b), key=repr))


def bor(a, b):
    return bnot(band(bnot(a), bnot(b))) if not (isinstance(a, int) or isinstance(b, int) or a == b) else \
        (b if a == 0 else (1 if a == 1 else (a if b == 0 or a == b else 1)))


def has_cmp(b):
    return isinstance(b, tuple) and (b[0] == "cmp" or b[0] in ("~", "&", "^") and any(has_cmp(x) for x in b[1:]))


def bxor(a, b):
    if isinstance(a, int):
        return bnot(b) if a else b
    if isinstance(b, int):
        return bnot(a) if b else a
    if a == b:
        return 0
    if bnot(a) == b:
        return 1
    n = 0
    if a[0] == "~":
        a, n = a[1], 1 - n
    if b[0] == "~":
        b, n = b[1], 1 - n
    r = ("^",) + tuple(sorted((a, b), key=repr))
    return bnot(r) if n else r


def ripple(op, a, b):
    """sum or difference bit by bit as long as the carry is a constant"""
    out, c = [], 0
    for p, q in zip(a, b):
        out.append(bxor(bxor(p, q), c))
        if op == "Sub":
            p = bnot(p)
        n = bor(band(p, q), band(c, bor(p, q)))
        if not isinstance(n, int):
            return None
        c = n
    return out, c


def sym(name, i):
    return ("s", (name, i))


def int_sym(name, w, sg=False):
    """An integer all of whose bits are unknown; bit i is (name, i), LSB 0"""
    return Bv(w, sg, [sym(name, i) for i in range(w)])


# ------------------------------------------------------------- inequalities --
def _norm(c, t):
    g = 0
    for _, k in t:
        g = gcd(g, abs(k))
    if g > 1:
        t = tuple((v, k // g) for v, k in t)
        c = c // g  # floor: integers
    return c, t


def lin_add(a, ka, b, kb):
    d = {}
    for v, k in a[1]:
        d[v] = k * ka
    for v, k in b[1]:
        d[v] = d.get(v, 0) + k * kb
    return a[0] * ka + b[0] * kb, tuple(sorted((v, k) for v, k in d.items() if k))


def feasible(cons, limit=600):
    """Fourier-Motzkin over c + sum k v >= 0; True when not refuted"""
    cur = {}
    for c, t in cons:
        if len(t) != 1 or t[0][1] not in (1, -1):
            c, t = _norm(c, t)
        if not t:
            if c < 0:
                return False
            continue
        o = cur.get(t)
        if o is None or c < o:
            cur[t] = c
    # equalities: one variable is replaced by the others
    while True:
        eq = None
        for t, c in cur.items():
            if len(t) > 1:
                o = cur.get(tuple((v, -k) for v, k in t))
                if o is not None and o + c <= 0:
                    if o + c < 0:
                        return False
                    u = [(v, k) for v, k in t if k == 1 or k == -1]
                    if u:
                        eq = (c, t, u[0])
                        break
        if eq is None:
            break
        c0, t0, (v0, k0) = eq
        # v0 = -k0 (c0 + rest)
        rest = (-k0 * c0, tuple((v, -k0 * k) for v, k in t0 if v != v0))
        nxt = {}
        for t, c in cur.items():
            for v, k in t:
                if v == v0:
                    c, t = lin_add((c, tuple(x for x in t if x[0] != v0)), 1, rest, k)
                    c, t = _norm(c, t)
                    break
            if not t:
                if c < 0:
                    return False
                continue
            o = nxt.get(t)
            if o is None or c < o:
                nxt[t] = c
        cur = nxt
    while cur:
        occ = {}
        for t in cur:
            for v, k in t:
                o = occ.get(v)
                if o is None:
                    o = occ[v] = ([], [])
                o[0 if k > 0 else 1].append((t, k))
        v = min(occ, key=lambda x: len(occ[x][0]) * len(occ[x][1]))
        pos, neg = occ[v]
        nxt = dict(cur)
        for t, _ in pos:
            del nxt[t]
        for t, _ in neg:
            del nxt[t]
        for t1, k1 in pos:
            c1 = cur[t1]
            for t2, k2 in neg:
                c, t = lin_add((c1, t1), -k2, (cur[t2], t2), k1)
                c, t = _norm(c, t)
                if not t:
                    if c < 0:
                        return False
                    continue
                o = nxt.get(t)
                if o is None or c < o:
                    nxt[t] = c
        if len(nxt) > limit:
            return True
        cur = nxt
    return True


# answers; the constraints and ranges of a state are never changed in place
ASKED, FEASIBLE = {}, {}


# ------------------------------------------------------------------- state --
class Frame:
    __slots__ = ("body", "sub", "fid", "dest", "target", "post")

    def __init__(s, body, sub, fid, dest, target, post=None):
        s.body, s.sub, s.fid, s.dest, s.target, s.post = body, sub, fid, dest, target, post


class State:
    __slots__ = ("mem", "cons", "asm", "frames", "bb", "flags", "vr", "ev")

    def copy(s):
        n = State.__new__(State)
        n.mem, n.cons, n.asm, n.frames, n.bb, n.flags, n.vr, n.ev = dict(s.mem), s.cons, dict(s.asm), s.frames, s.bb, s.flags, s.vr, s.ev
        return n

    def rng(s, c, t):
        lo = hi = c
        for v, k in t:
            a, b = s.vr[v]
            if k < 0:
                a, b = b, a
            lo = None if lo is None or a is None else lo + a * k
            hi = None if hi is None or b is None else hi + b * k
        return lo, hi

    def all_cons(s):
        out = list(s.cons)
        for v, (a, b) in s.vr.items():
            if a is not None:
                out.append((-a, ((v, 1),)))
            if b is not None:
                out.append((b, ((v, -1),)))
        return out

    def holds(s, c, t):
        """entailed: c + t >= 0"""
        if not t:
            return c >= 0
        lo, hi = s.rng(c, t)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
        for cc, ct in s.cons:
            if ct == t and c >= cc:
                return True
        return not s.ask((-c - 1, tuple((v, -k) for v, k in t)))

    def possible(s, c, t):
        if not t:
            return c >= 0
        lo, hi = s.rng(c, t)
        if hi is not None and hi < 0:
            return False
        if lo is not None and lo >= 0:
            return True
        return s.ask((c, t))

    def ask(s, q):
        k = (id(s.cons), id(s.vr), q)
        o = ASKED.get(k)
        if o is not None:
            return o[2]
        ns = s.near(q[1])
        ns.append(q)
        f = frozenset(ns)
        r = FEASIBLE.get(f)
        if r is None:
            if len(FEASIBLE) > 200000:
                FEASIBLE.clear()
            r = FEASIBLE[f] = feasible(ns)
        if len(ASKED) > 200000:
            ASKED.clear()
        ASKED[k] = (s.cons, s.vr, r)
        return r

    def near(s, t):
        """the constraints that are connected with the variables of `t`"""
        vs = {v for v, _ in t}
        rest = s.cons
        out = []
        while True:
            nxt = []
            n = len(vs)
            for x in rest:
                if any(v in vs for v, _ in x[1]):
                    out.append(x)
                    vs.update(v for v, _ in x[1])
                else:
                    nxt.append(x)
            rest = nxt
            if len(vs) == n:
                break
        for v in vs:
            a, b = s.vr[v]
            if a is not None:
                out.append((-a, ((v, 1),)))
            if b is not None:
                out.append((b, ((v, -1),)))
        return out

    def add(s, c, t):
        c, t = _norm(c, t)
        if not t:
            return c >= 0
        if len(t) == 1:
            v, k = t[0]
            a, b = s.vr[v]
            s.vr = dict(s.vr)
            if k > 0:  # v >= -c/k
                m = -(c // k)
                a = m if a is None else max(a, m)
            else:
                m = c // -k
                b = m if b is None else min(b, m)
            if a is not None and b is not None and a > b:
                return False
            s.vr[v] = (a, b)
            return True
        s.cons = s.cons + ((c, t),)
        return True

    def var(s, name, lo, hi):
        s.vr = dict(s.vr)
        s.vr[name] = (lo, hi)

    def bit(s, b):
        """a bit under the assumptions of the path"""
        if isinstance(b, int):
            return b
        v = s.asm.get(b)
        if v is not None:
            return v
        if b[0] == "~":
            return bnot(s.bit(b[1]))
        if b[0] == "&":
            return band(s.bit(b[1]), s.bit(b[2]))
        if b[0] == "^":
            return bxor(s.bit(b[1]), s.bit(b[2]))
        return b

    def assume_bit(s, b, v):
        b = s.bit(b)
        if isinstance(b, int):
            return b == v
        if b[0] == "~":
            return s.assume_bit(b[1], 1 - v)
        if b[0] == "&" and v == 1:
            return s.assume_bit(b[1], 1) and s.assume_bit(b[2], 1)
        if b[0] == "cmp":
            # affine comparison: e >= 0
            c, t = b[1], b[2]
            if v:
                return s.add(c, t)
            return s.add(-c - 1, tuple((x, -k) for x, k in t))
        s.asm[b] = v
        return True


class Trace:
    __slots__ = ("kind", "st", "val", "why")

    def __init__(s, kind, st, val=None, why=None):
        s.kind, s.st, s.val, s.why = kind, st, val, why


class Interp:
    def __init__(self, prog, hooks=None, max_steps=200000, max_traces=5000):
        self.p = prog
        self.hooks = hooks or []
        self.on_const = None
        self.fid = 0
        self.fresh = 0
        self.max_steps, self.max_traces = max_steps, max_traces
        self.inlined = set()
        self.align = None
        self.loops = None
        self.on_var = None
        self.bvs, self.qs = {}, {}
        self.uninterp, self.prods = False, {}

    def nested(self, st, body, args, sub):
        """runs a body to completion from the middle of another -> [(state, value | "panic")]"""
        frames, bb = st.frames, st.bb
        if len(frames) > 30:
            raise Undecided("depth")
        self.fid += 1
        self.inlined.add(body["path"])
        st.frames = (Frame(body, sub, self.fid, None, None),)
        st.bb = 0
        for i, a in enumerate(args):
            st.mem[("L", self.fid, i + 1)] = a
        tr, work = [], [st]
        while work:
            work.extend(self.block(work.pop(), tr))
            if len(tr) > self.max_traces:
                raise Undecided("too many paths in " + body["path"])
        out = []
        for t in tr:
            t.st.frames, t.st.bb = frames, bb
            out.append((t.st, t.val if t.kind == "ret" else "panic"))
        return out

    def nested_value(self, st, f, args):
        """calls a closure or function value to completion"""
        out = []
        for x in self.call_value(st, f, args):
            if x[0] == "inline":
                for s, v in self.nested(x[1], x[2], x[4], x[3]):
                    out.append((s, x[5](s, v) if len(x) > 5 and x[5] and v != "panic" else v))
            else:
                out.append(x)
        return out

    def next_of(self, st, ref, ty):
        """Iterator::next of the iterator at ref (of type ty, when local)"""
        r = iter_next(self, st, None, [ref])
        if r is not None:
            return r
        tr = "core::iter::traits::iterator::Iterator"
        fi = self.p.find_impl(tr, ty, (ty,)) if ty is not None else None
        b = self.p.by_impl.get((fi[0]["id"], "next")) if fi else None
        if b is None:
            raise Undecided("next of %s" % (ty,))
        return self.nested(st, b, [ref], fi[1])

    # ---- building inputs ---------------------------------------------------
    def state(self):
        st = State()
        st.mem, st.cons, st.asm, st.flags, st.vr, st.ev, st.frames, st.bb = {}, (), {}, (), {}, None, (), 0
        return st

    def newvar(self, st, lo, hi, nm="v"):
        self.fresh += 1
        v = "%s#%d" % (nm, self.fresh)
        st.var(v, lo, hi)
        return v

    def run(self, st, body, args, sub=None):
        self.fid += 1
        st.frames = (Frame(body, sub or {}, self.fid, None, None),)
        st.bb = 0
        self.steps = 0
        self.inlined.add(body["path"])
        for i, a in enumerate(args):
            st.mem[("L", self.fid, i + 1)] = a
        out, work = [], [st]
        while work:
            s = work.pop()
            work.extend(self.block(s, out))
            if len(out) > self.max_traces:
                raise Undecided("too many paths in " + body["path"])
        return out

    # ---- integers ----------------------------------------------------------
    def bits(self, st, v):
        if isinstance(v, Bv):
            return [st.bit(b) for b in v.b]
        if isinstance(v, Af):
            if not v.t:
                return [(v.c >> i) & 1 for i in range(v.w)]
            g = 0
            for _, k in v.t:
                g = gcd(g, k)
            low = (g & -g).bit_length() - 1
            out = [(v.c >> i) & 1 for i in range(min(low, v.w))]
            nm = ("af", v.t, v.c)
            lo, hi = st.rng(v.c, v.t)
            top_b = hi.bit_length() if hi is not None and lo is not None and lo >= 0 else v.w
            return out + [(sym(nm, i) if i < top_b else 0) for i in range(len(out), v.w)]
        raise Undecided("bits of %r" % (v,))

    def mkbits(self, w, sg, bits):
        if all(isinstance(b, int) for b in bits):
            c = sum(b << i for i, b in enumerate(bits))
            if sg and c >> (w - 1):
                c -= 1 << w
            return Af(w, sg, c)
        return Bv(w, sg, bits)

    def affine(self, st, v):
        """an affine view of an integer; None when it has none"""
        if isinstance(v, Af):
            return self.canon(st, v) if v.t else v
        if isinstance(v, Bv):
            b = self.bits(st, v)
            r = self.mkbits(v.w, v.sg, b)
            if isinstance(r, Af):
                return r
            # the bits of an affine value, possibly resized
            s0 = [x for x in b if not isinstance(x, int)]
            if s0 and all(isinstance(x, tuple) and x[0] == "s" and isinstance(x[1][0], tuple) and x[1][0][0] == "af" for x in s0):
                nm = s0[0][1][0]
                a = Af(v.w, v.sg, nm[2], nm[1])
                if [st.bit(x) for x in self.bits(st, Af(v.w, False, nm[2], nm[1]))] == b:
                    return a
        return None

    def var_of(self, st, v):
        """affine value; an unknown bit vector becomes a variable of its range"""
        a = self.affine(st, v)
        if a is not None:
            return a
        b = self.bits(st, v)
        lo = sum(x << i for i, x in enumerate(b) if x == 1)
        hi = sum((1 << i) for i, x in enumerate(b) if x != 0)
        if v.sg:
            return None
        while b and b[-1] == 0:
            b = b[:-1]
        nm = "bv(%r)" % (b,)
        self.bvs[nm] = b
        if nm not in st.vr:
            st.var(nm, lo, hi)
            if self.on_var is not None:
                self.on_var(st, nm, b)
        return Af(v.w, v.sg, 0, ((nm, 1),))

    def binop(self, st, op, a, b, ty):
        """-> [(state, value)]"""
        op = op.replace("Unchecked", "")
        w, sg = (ty[1], ty[2]) if ty[0] == "int" else ((1, False) if ty[0] == "bool" else (32, False))
        if isinstance(a, (Pt, Ref, Opq, Sl)) or isinstance(b, (Pt, Ref, Opq, Sl)):
            if op in ("Eq", "Ne") and isinstance(a, Pt) and isinstance(b, Pt) and a.root == b.root and a.path == b.path:
                return self.binop(st, op, a.off, b.off, ("int", 64, False))
            raise Undecided("operation on pointers")
        wo = op.endswith("WithOverflow")
        op = op.replace("WithOverflow", "")
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return [(st, self.compare(st, op, a, b, w, sg))]
        if op in ("BitAnd", "BitOr", "BitXor"):
            if op == "BitAnd":
                # mask of low bits of an affine value
                for x, y in ((a, b), (b, a)):
                    ax, ay = self.affine(st, x), self.affine(st, y)
                    if ax is not None and ay is not None and not ay.t and ay.c >= 0 and (ay.c & (ay.c + 1)) == 0 and ax.t:
                        return self.binop(st, "Rem", ax, Af(w, sg, ay.c + 1), ty)
            f = {"BitAnd": band, "BitOr": bor, "BitXor": bxor}[op]
            x, y = self.bits(st, a), self.bits(st, b)
            return [(st, self.mkbits(w, sg, [f(p, q) for p, q in zip(x, y)]))]
        if op in ("Shl", "Shr"):
            k = self.affine(st, b)
            if k is None:
                out = []
                for s, v in self.split_bits(st, b):
                    out.extend(self.binop(s, op, a, K(v), ty))
                return out
            if k.t:
                out = []
                for s, v in self.split(st, k):
                    out.extend(self.binop(s, op, a, K(v), ty))
                return out
            n = k.c
            if n < 0 or n >= w:
                st.flags = st.flags + (("shift", n, w),)
                n %= w
            af = self.affine(st, a)
            if op == "Shr" and af is not None and af.t and not sg:
                return self.binop(st, "Div", af, Af(w, sg, 1 << n), ty)
            if op == "Shl" and af is not None and af.t:
                return self.binop(st, "Mul", af, Af(w, sg, 1 << n), ty)
            x = self.bits(st, a)
            if op == "Shl":
                r = [0] * n + x[:w - n]
            else:
                r = x[n:] + [x[-1] if sg else 0] * n
            return [(st, self.mkbits(w, sg, r))]
        if op in ("Add", "Sub", "Mul"):
            r = self.arith(st, op, a, b, w, sg)
            out = []
            for s, v, ovf in r:
                if wo:
                    out.append((s, Ag("tuple", 0, (v, K(1 if ovf else 0, 1)))))
                else:
                    if ovf:
                        s.flags = s.flags + (("overflow", op, repr(a), repr(b)),)
                    out.append((s, v))
            return out
        if op in ("Div", "Rem"):
            x, y = self.affine(st, a), self.affine(st, b)
            if y is not None and not y.t and y.c > 0:
                m = y.c
                if x is not None and all(k % m == 0 for _, k in x.t) and st.holds(x.c, x.t):
                    if op == "Div":
                        return [(st, Af(w, sg, x.c // m, tuple((v, k // m) for v, k in x.t)))]
                    return [(st, Af(w, sg, x.c % m))]
                if x is None and (m & (m - 1)) == 0 and not sg:
                    n = m.bit_length() - 1
                    bb = self.bits(st, a)
                    return [(st, self.mkbits(w, sg, bb[n:] + [0] * n if op == "Div" else bb[:n] + [0] * (w - n)))]
                if x is not None:
                    # a part that is divisible, and a rest below the divisor
                    tr = tuple((v, k) for v, k in x.t if k % m)
                    lo, hi = st.rng(x.c % m, tr)
                    if len(tr) < len(x.t) and lo is not None and hi is not None and lo >= 0 and hi < m and st.holds(x.c, x.t):
                        if op == "Div":
                            return [(st, Af(w, sg, x.c // m, tuple((v, k // m) for v, k in x.t if k % m == 0)))]
                        return [(st, Af(w, sg, x.c % m, tr))]
                if x is not None and st.holds(x.c, x.t):
                    lo, hi = st.rng(x.c, x.t)
                    if lo is not None and hi is not None and lo // m == hi // m:
                        q = lo // m
                        return [(st, Af(w, sg, q) if op == "Div" else Af(w, sg, x.c - m * q, x.t))]
                    # q with m q <= x < m q + m
                    q = "q(%r)" % ((x.t, x.c, m),)
                    self.qs[q] = (x.c, x.t, m)
                    if q not in st.vr:
                        st.var(q, 0, None if hi is None else hi // m)
                        d = lin_add((x.c, x.t), 1, (0, ((q, 1),)), -m)
                        st.add(*d)
                        d = lin_add((m - 1 - x.c, tuple((v, -k) for v, k in x.t)), 1, (0, ((q, 1),)), m)
                        st.add(*d)
                    if op == "Div":
                        return [(st, Af(w, sg, 0, ((q, 1),)))]
                    r = lin_add((x.c, x.t), 1, (0, ((q, 1),)), -m)
                    return [(st, Af(w, sg, r[0], r[1]))]
            if self.uninterp and x is not None and y is not None and st.holds(x.c, x.t) and st.holds(y.c - 1, y.t):
                lo, hi = st.rng(x.c, x.t)
                q = "%s(%r, %r)" % (op, (x.c, x.t), (y.c, y.t))
                if q not in st.vr:
                    st.var(q, 0, hi)
                    st.add(x.c, x.t + ((q, -1),))
                    if op == "Rem":
                        st.add(y.c - 1, y.t + ((q, -1),))
                return [(st, Af(w, sg, 0, ((q, 1),)))]
            raise Undecided("division %r %r" % (a, b))
        raise Undecided("binop " + op)

    def arith(self, st, op, a, b, w, sg):
        x, y = self.affine(st, a), self.affine(st, b)
        if (x is None or y is None) and op == "Mul":
            # product with a single bit
            for p, q in ((a, b), (b, a)):
                pb = self.bits(st, p)
                if all(z == 0 for z in pb[1:]):
                    return [(st, self.mkbits(w, sg, [band(z, pb[0]) for z in self.bits(st, q)]), False)]
        if (x is None or y is None) and op == "Add":
            pb, qb = self.bits(st, a), self.bits(st, b)
            if all(p == 0 or q == 0 for p, q in zip(pb, qb)):
                return [(st, self.mkbits(w, sg, [bor(p, q) for p, q in zip(pb, qb)]), False)]
        if (x is None or y is None) and op in ("Add", "Sub"):
            r = ripple(op, self.bits(st, a), self.bits(st, b))
            if r is not None and (not sg):
                return [(st, self.mkbits(w, sg, r[0]), bool(r[1]))]
        for p, q, first in ((a, b, True), (b, a, False)):
            if isinstance(p, Bv):
                for z in self.bits(st, p):
                    if has_cmp(z):
                        out = []
                        for s, v in self.branch(st, Bv(1, False, (z,))):
                            s.asm[z] = v
                            out.extend(self.arith(s, op, a, b, w, sg))
                        return out
        if x is None:
            x = self.var_of(st, a)
        if y is None:
            y = self.var_of(st, b)
        if x is None or y is None:
            raise Undecided("arithmetic on signed unknown bits")
        if op == "Mul":
            if x.t and y.t:
                lo1, hi1 = st.rng(x.c, x.t)
                lo2, hi2 = st.rng(y.c, y.t)
                if self.uninterp and lo1 is not None and lo1 < 0 and st.holds(x.c, x.t):
                    lo1 = 0
                if self.uninterp and lo2 is not None and lo2 < 0 and st.holds(y.c, y.t):
                    lo2 = 0
                if self.uninterp and None not in (lo1, hi1, lo2, hi2) and min(lo1, lo2) >= 0:
                    # the true product as a variable of its own
                    q = "mul(%s)" % ", ".join(sorted("%r" % ((z.c, tuple(sorted(z.t))),) for z in (x, y)))
                    self.prods[q] = (x, y)
                    if q not in st.vr:
                        st.var(q, lo1 * lo2, hi1 * hi2)
                    c, t = 0, ((q, 1),)
                elif None in (lo1, hi1, lo2, hi2) or hi1 - lo1 > 64 and hi2 - lo2 > 64:
                    raise Undecided("product of two unknowns")
                else:
                    z, o = (x, y) if hi1 - lo1 <= hi2 - lo2 else (y, x)
                    out = []
                    for s, v in self.split(st, z):
                        out.extend(self.arith(s, op, K(v, w, sg), o, w, sg))
                    return out
            else:
                if y.t:
                    x, y = y, x
                c, t = x.c * y.c, tuple((v, k * y.c) for v, k in x.t) if y.c else ()
        else:
            c, t = lin_add((x.c, x.t), 1, (y.c, y.t), 1 if op == "Add" else -1)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
        if not t:
            if lo <= c <= hi:
                return [(st, Af(w, sg, c), False)]
            return [(st, self.wrapc(c, w, sg), True)]
        out = []
        up = (hi - c, tuple((v, -k) for v, k in t))
        dn = (c - lo, t)
        if st.holds(*up) and st.holds(*dn):
            return [(st, Af(w, sg, c, t), False)]
        s = st.copy()
        if s.possible(*up) and s.possible(*dn) and s.add(*up) and s.add(*dn):
            out.append((s, Af(w, sg, c, t), False))
        if st.possible(-up[0] - 1, tuple((v, -k) for v, k in up[1])):
            s = st.copy()
            if s.add(-up[0] - 1, tuple((v, -k) for v, k in up[1])):
                wr = Af(w, sg, c - (1 << w), t)
                if op == "Mul" and not s.holds((2 << w) - 1 - c, tuple((v, -k) for v, k in t)):
                    # wraps any number of times
                    q = "mod(%r, %d)" % ((c, t), w)
                    if q not in s.vr:
                        s.var(q, 0, (1 << w) - 1)
                    wr = Af(w, sg, 0, ((q, 1),))
                out.append((s, wr, True))
        if st.possible(-dn[0] - 1, tuple((v, -k) for v, k in dn[1])):
            s = st.copy()
            if s.add(-dn[0] - 1, tuple((v, -k) for v, k in dn[1])):
                out.append((s, Af(w, sg, c + (1 << w), t), True))
        return out

    def wrapc(self, c, w, sg):
        c &= (1 << w) - 1
        if sg and c >> (w - 1):
            c -= 1 << w
        return Af(w, sg, c)

    def split_bits(self, st, v):
        """case split of a value of few unknown bits -> [(state, int)]"""
        b = self.bits(st, v)
        if sum(1 for x in b if not isinstance(x, int)) > 5:
            raise Undecided("unknown value")
        cur = [(st, 0)]
        for i, x in enumerate(b):
            nxt = []
            for s, n in cur:
                for s2, y in self.branch(s, B(x)):
                    nxt.append((s2, n | (y << i)))
            cur = nxt
        return cur

    def split(self, st, a):
        """case split of an affine value over its (small) range"""
        lo, hi = st.rng(a.c, a.t)
        if lo is None or hi is None or hi - lo > 130:
            raise Undecided("unbounded value")
        out = []
        for v in range(lo, hi + 1):
            d = (a.c - v, a.t)
            nd = (v - a.c, tuple((x, -k) for x, k in a.t))
            if not (st.possible(*d) and st.possible(*nd)):
                continue
            s = st.copy()
            if s.add(*d) and s.add(*nd) and feasible(s.all_cons()):
                out.append((s, v))
        return out

    def compare(self, st, op, a, b, w, sg):
        if op == "Ne":
            r = self.compare(st, "Eq", a, b, w, sg)
            return B(bnot(self.bits(st, r)[0]))
        if op == "Gt":
            return self.compare(st, "Lt", b, a, w, sg)
        if op == "Ge":
            return self.compare(st, "Le", b, a, w, sg)
        x, y = self.affine(st, a), self.affine(st, b)
        if op == "Eq":
            if x is not None and y is not None:
                c, t = lin_add((x.c, x.t), 1, (y.c, y.t), -1)
                if not t:
                    return K(1 if c == 0 else 0, 1)
                if not (st.possible(c, t) and st.possible(-c, tuple((v, -k) for v, k in t))):
                    return K(0, 1)
                lo, hi = st.rng(c, t)
                if st.holds(c, t) and st.holds(-c, tuple((v, -k) for v, k in t)):
                    return K(1, 1)
                # c+t == 0 as a conjunction of two comparisons
                p, q = ("cmp", c, t), ("cmp", -c, tuple((v, -k) for v, k in t))
                if st.holds(c, t):
                    return B(q)
                if st.holds(*q[1:]):
                    return B(p)
                return Bv(1, False, (("&", p, q),))
            p, q = self.bits(st, a), self.bits(st, b)
            acc = 1
            for i, j in zip(p, q):
                acc = band(acc, bnot(bxor(i, j)))
                if acc == 0:
                    return K(0, 1)
            return B(acc)
        # unsigned/affine order
        if x is None or y is None:
            if op == "Lt" and x is not None and x.c == 0 and not x.t and not sg:
                # 0 < b  <=>  b != 0
                return self.compare(st, "Ne", b, K(0, w, sg), w, sg)
            if sg and y is not None and not y.t and y.c == 0 and op == "Lt":
                return B(self.bits(st, a)[w - 1])
            x = x if x is not None else self.var_of(st, a)
            y = y if y is not None else self.var_of(st, b)
            if x is None or y is None:
                return B(top())
        c, t = lin_add((y.c, y.t), 1, (x.c, x.t), -1)
        if op == "Lt":
            c -= 1
        if not t:
            return K(1 if c >= 0 else 0, 1)
        if st.holds(c, t):
            return K(1, 1)
        if not st.possible(c, t):
            return K(0, 1)
        return B(("cmp", c, t))

    def branch(self, st, v):
        """forks on a boolean -> [(state, 0/1)]"""
        b = self.bits(st, v)[0]
        if not isinstance(b, int) and b[0] == "cmp":
            if st.holds(b[1], b[2]):
                b = 1
            elif not st.possible(b[1], b[2]):
                b = 0
        if isinstance(b, int):
            return [(st, b)]
        out = []
        for x in (1, 0):
            # a negated conjunction of comparisons splits further
            for s in self.assume(st, b, x):
                out.append((s, x))
        return out

    def assume(self, st, b, v):
        """-> states in which bit b has value v"""
        b = st.bit(b)
        if isinstance(b, int):
            return [st.copy()] if b == v else []
        if b[0] == "~":
            return self.assume(st, b[1], 1 - v)
        if b[0] == "cmp":
            s = st.copy()
            c, t = b[1], b[2]
            if not v:
                c, t = -c - 1, tuple((x, -k) for x, k in t)
            if s.possible(c, t) and s.add(c, t):
                return [s]
            return []
        if b[0] == "&":
            if v:
                out = []
                for s in self.assume(st, b[1], 1):
                    out.extend(self.assume(s, b[2], 1))
                return out
            out = self.assume(st, b[1], 0)
            for s in self.assume(st, b[1], 1):
                out.extend(self.assume(s, b[2], 0))
            return out
        if b[0] == "^" and has_cmp(b):
            p, q = (b[1], b[2]) if has_cmp(b[1]) else (b[2], b[1])
            out = []
            for x in (0, 1):
                for s in self.assume(st, p, x):
                    out.extend(self.assume(s, q, v ^ x))
            return out
        s = st.copy()
        s.asm[b] = v
        return [s]

    def cast_int(self, st, v, sty, ty):
        """-> [(state, value)]"""
        if isinstance(v, Ag):
            return [(st, Af(ty[1], ty[2], self.p.variant_discr(v.k, v.v)))]
        w, sg = (ty[1], ty[2]) if ty[0] == "int" else (32, False)
        ssg = sty[2] if sty[0] == "int" else False
        a = self.affine(st, v)
        if a is not None:
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
            if not a.t:
                return [(st, self.wrapc(a.c, w, sg))]
            up = (hi - a.c, tuple((x, -k) for x, k in a.t))
            dn = (a.c - lo, a.t)
            if st.holds(*up) and st.holds(*dn):
                return [(st, Af(w, sg, a.c, a.t))]
            out = []
            s = st.copy()
            if s.possible(*up) and s.possible(*dn) and s.add(*up) and s.add(*dn):
                out.append((s, Af(w, sg, a.c, a.t)))
            for c, t in (up, dn):
                nc, nt = -c - 1, tuple((x, -k) for x, k in t)
                if st.possible(nc, nt):
                    s = st.copy()
                    if s.add(nc, nt):
                        s.flags = s.flags + (("truncation", repr(a), w),)
                        nv = self.newvar(s, lo, hi, "tr")
                        out.append((s, Af(w, sg, 0, ((nv, 1),))))
            return out
        b = self.bits(st, v)
        if len(b) >= w:
            b = b[:w]
        else:
            b = b + [b[-1] if ssg else 0] * (w - len(b))
        return [(st, self.mkbits(w, sg, b))]

    # ---- memory ------------------------------------------------------------
    ANCHORS = ("Q", "O", "Oa", "Ob")

    def canon(self, st, off):
        """off with the variables of a single possible value replaced (except
        the anchors, relative to which contents are named)"""
        for v, k in off.t:
            lo, hi = st.vr[v]
            if lo is not None and lo == hi and v not in self.ANCHORS:
                return self.canon(st, Af(off.w, off.sg, off.c + k * lo, tuple((x, y) for x, y in off.t if x != v)))
        return off

    def elem(self, st, arr, off):
        off = self.canon(st, off)
        if isinstance(arr, Ag):  # a literal array
            if not off.t and 0 <= off.c < len(arr.f):
                return arr.f[off.c]
            raise Undecided("index of a literal array")
        k = off.key()
        v = arr.d.get(k)
        if v is not None:
            return v
        if any(x[0] != k[0] for x in arr.d):
            for x in arr.d:
                if x[0] != k[0]:
                    c, t = lin_add((off.c, off.t), 1, (x[1], x[0]), -1)
                    if st.possible(c, t) and st.possible(-c, tuple((y, -z) for y, z in t)):
                        return int_sym(("alias", k), 8)
        if arr.init is None:
            raise Undecided("element outside an array")
        return arr.init(k)

    def set_elem(self, st, arr, off, v):
        off = self.canon(st, off)
        if isinstance(arr, Ag):
            f = list(arr.f)
            f[off.c] = v
            return Ag(arr.k, arr.v, f)
        d = dict(arr.d)
        k = off.key()
        for x in list(d):
            if x[0] != k[0]:
                c, t = lin_add((off.c, off.t), 1, (x[1], x[0]), -1)
                if st.possible(c, t) and st.possible(-c, tuple((y, -z) for y, z in t)):
                    d[x] = int_sym(("alias", x), 8)
        d[k] = v
        return Arr(arr.n, d, arr.init, arr.name)

    def in_bounds(self, st, arr, off, n, what):
        """records an access outside of the array as a flag"""
        ln = K(len(arr.f)) if isinstance(arr, Ag) else arr.n
        c, t = lin_add((ln.c, ln.t), 1, (off.c, off.t), -1)
        if not (st.holds(off.c, off.t) and st.holds(c - n, t)):
            st.flags = st.flags + (("memory", what, repr(off), n, repr(ln)),)

    def read(self, st, root, path):
        v = st.mem.get(root)
        if v is None:
            raise Undecided("read of unknown place %r" % (root,))
        for e in path:
            v = self.step(st, v, e)
        return v

    def step(self, st, v, e):
        if isinstance(e, int):
            if isinstance(v, Ag):
                if e >= len(v.f):
                    raise Undecided("field %d of %r" % (e, v))
                return v.f[e]
            r = self.opaque_field(st, v, e)
            if r is not None:
                return r
            raise Undecided("field %d of %r" % (e, v))
        if e[0] == "v":
            return v
        if e[0] == "i":
            return self.elem(st, v, e[1])
        if e[0] == "sub":
            return Arr(K(e[2]), {((), i): self.elem(st, v, self.plus(e[1], i)) for i in range(e[2])}, None)
        if e[0] == "word":
            return self.from_bytes(st, [self.elem(st, v, self.plus(e[1], i)) for i in range(e[2])], e[3])
        raise Undecided("projection %r" % (e,))

    def opaque_field(self, st, v, e):
        return None

    def plus(self, a, n):
        return Af(a.w, a.sg, a.c + n, a.t)

    def write(self, st, root, path, val):
        if not path:
            st.mem[root] = val
            return
        st.mem[root] = self.update(st, st.mem.get(root), path, val)

    def update(self, st, v, path, val):
        if not path:
            return val
        e = path[0]
        if isinstance(e, int):
            if v is None or not isinstance(v, Ag):
                v = Ag("tuple", 0, (None,) * (e + 1)) if v is None else v
            if not isinstance(v, Ag):
                raise Undecided("write into field of %r" % (v,))
            f = list(v.f)
            while len(f) <= e:
                f.append(None)
            f[e] = self.update(st, f[e], path[1:], val)
            return Ag(v.k, v.v, f)
        if e[0] == "v":
            return self.update(st, v, path[1:], val)
        if e[0] == "i":
            inner = self.update(st, self.elem(st, v, e[1]) if path[1:] else None, path[1:], val)
            return self.set_elem(st, v, e[1], inner)
        if e[0] in ("sub", "word"):
            bs = self.to_bytes(st, val)
            for i, b in enumerate(bs):
                v = self.set_elem(st, v, self.plus(e[1], i), b)
            return v
        raise Undecided("write through %r" % (e,))

    def to_bytes(self, st, v):
        """memory bytes (little endian integers)"""
        if isinstance(v, (Af, Bv)):
            b = self.bits(st, v)
            return [self.mkbits(8, False, b[i:i + 8]) for i in range(0, len(b), 8)]
        if isinstance(v, Arr):
            if v.n.t:
                raise Undecided("bytes of an array of unknown length")
            out = []
            for i in range(v.n.c):
                out.extend(self.to_bytes(st, self.elem(st, v, K(i))))
            return out
        if isinstance(v, Ag):
            if v.k in (OPTION, RESULT):
                raise Undecided("bytes of an enum")
            out = []
            for x in v.f:
                out.extend(self.to_bytes(st, x))
            return out
        raise Undecided("bytes of %r" % (v,))

    def from_bytes(self, st, bs, ty):
        if ty[0] == "bool":
            return Bv(1, False, (self.bits(st, bs[0])[0],))
        if ty[0] == "int":
            b = []
            for x in bs[:ty[1] // 8]:
                b.extend(self.bits(st, x))
            return self.mkbits(ty[1], ty[2], b)
        if ty[0] == "array":
            n, es = ty[2], self.size(ty[1])
            return Arr(K(n), {((), i): self.from_bytes(st, bs[i * es:(i + 1) * es], ty[1]) for i in range(n)})
        if ty[0] == "adt":
            fs = self.fields(ty)
            if fs is not None and len(fs) == 1:
                return Ag(ty[1], 0, (self.from_bytes(st, bs, fs[0]),))
            off = self.p.adts.get(ty[1], {}).get("off")
            if fs is not None and off is not None:
                return Ag(ty[1], 0, tuple(self.from_bytes(st, bs[o:], f) for o, f in zip(off, fs)))
            a = self.p.adts.get(ty[1], {})
            if a.get("kind") == "enum" and "sz" in a and all(not v["f"] for v in a["v"]) and a["sz"] <= 8:
                x = self.affine(st, self.from_bytes(st, bs[:a["sz"]], ("int", 8 * a["sz"], False)))
                if x is not None and not x.t:
                    for i, v in enumerate(a["v"]):
                        if int(v["d"]) % (1 << 8 * a["sz"]) == x.c:
                            return Ag(ty[1], i, ())
            if "MaybeUninit" in ty[1]:
                return self.from_bytes(st, bs, ty[2][0])
        raise Undecided("value of type %s from bytes" % (ty,))

    def size(self, ty):
        if ty[0] == "int":
            return ty[1] // 8
        if ty[0] == "bool":
            return 1
        if ty[0] == "array":
            return self.size(ty[1]) * ty[2]
        if ty[0] == "adt":
            if "sz" in self.p.adts.get(ty[1], {}):
                return self.p.adts[ty[1]]["sz"]
            fs = self.fields(ty)
            if fs is not None and len(fs) == 1:
                return self.size(fs[0])
            if "MaybeUninit" in ty[1]:
                return self.size(ty[2][0])
        raise Undecided("size of %s" % (ty,))

    def fields(self, ty):
        a = self.p.adts.get(ty[1])
        if a is None or a["kind"] != "struct" or not a["local"]:
            return None
        return [self.p.subst(self.p.ty(f[1]), dict(zip(a["gen"], ty[2]))) for f in a["v"][0]["f"]]

    # ---- places ------------------------------------------------------------
    def place(self, st, pl):
        fr = st.frames[-1]
        root, path = ("L", fr.fid, pl[0]), ()
        ty = self.p.subst(self.p.ty(fr.body["locals"][pl[0]][0]), fr.sub)
        variant = 0
        for e in pl[1]:
            if e == "*":
                v = self.read(st, root, path)
                ety = ty[2] if ty and ty[0] in ("ref", "ptr") else None
                root, path = self.deref(st, v, ety)
                ty = ety
            elif e == "?":
                pass
            elif e[0] == "f":
                path = path + (e[1],)
                ty = self.fty(ty, e[1], variant)
                variant = 0
            elif e[0] == "v":
                variant = e[1]
            elif e[0] in ("i", "ci"):
                if e[0] == "i":
                    iv = self.affine(st, st.mem[("L", fr.fid, e[1])])
                    if iv is None:
                        raise Undecided("unknown index")
                else:
                    iv = K(e[1])
                if path and isinstance(path[-1], tuple) and path[-1][0] == "slice":
                    s = path[-1]
                    if e[0] == "ci" and e[3]:
                        iv = self.sub1(s[2], e[1])
                    path = path[:-1] + (("i", Af(64, False, *lin_add((s[1].c, s[1].t), 1, (iv.c, iv.t), 1))),)
                else:
                    if e[0] == "ci" and e[3]:
                        a = self.read(st, root, path)
                        ln = K(len(a.f)) if isinstance(a, Ag) else a.n
                        iv = self.sub1(ln, e[1])
                    path = path + (("i", iv),)
                ty = ty[1] if ty and ty[0] in ("array", "slice") else None
            elif e[0] == "ss":
                if path and isinstance(path[-1], tuple) and path[-1][0] == "slice":
                    s = path[-1]
                    off = self.plus(s[1], e[1])
                    ln = self.sub1(s[2], e[1] + e[2]) if e[3] else K(e[2] - e[1])
                    path = path[:-1] + (("slice", off, ln),)
                else:
                    n = ty[2] if ty and ty[0] == "array" else None
                    hi = n - e[2] if e[3] else e[2]
                    path = path + (("sub", K(e[1]), hi - e[1]),)
                    ty = ("array", ty[1], hi - e[1])
        return root, path, ty

    def sub1(self, a, n):
        return Af(a.w, a.sg, a.c - n, a.t)

    def fty(self, ty, i, variant):
        if ty is None:
            return None
        if ty[0] == "tuple":
            return ty[1][i] if i < len(ty[1]) else None
        if ty[0] == "adt":
            if ty[1] == OPTION:
                return ty[2][0]
            if ty[1] == RESULT:
                return ty[2][variant or 0]
            a = self.p.adts.get(ty[1])
            if a is None or not a["local"]:
                return None
            fs = a["v"][variant or 0]["f"]
            if i >= len(fs) or fs[i][1] < 0:
                return None
            return self.p.subst(self.p.ty(fs[i][1]), dict(zip(a["gen"], ty[2])))
        return None

    def deref(self, st, v, ety):
        if isinstance(v, Ref):
            return v.root, v.path
        if isinstance(v, Pt):
            arr = self.read(st, v.root, v.path)
            if ety is not None and ety[0] == "array":
                n = self.size(ety)
                self.in_bounds(st, arr, v.off, n, "read of %d bytes" % n)
                return v.root, v.path + (("sub", v.off, n),)
            if ety is not None and ety[0] == "int" and ety[1] > 8 and not getattr(arr, "name", None) == "words":
                n = ety[1] // 8
                self.in_bounds(st, arr, v.off, n, "read of %d bytes" % n)
                return v.root, v.path + (("word", v.off, n, ety),)
            self.in_bounds(st, arr, v.off, 1, "access")
            return v.root, v.path + (("i", v.off),)
        if isinstance(v, Sl):
            return v.root, v.path + (("slice", v.off, v.len),)
        r = self.deref_opaque(st, v)
        if r is not None:
            return r
        raise Undecided("dereference of %r" % (v,))

    def deref_opaque(self, st, v):
        if isinstance(v, Opq):
            root = ("O", v.name, v.args)
            if root not in st.mem:
                st.mem[root] = v
            return root, ()
        return None

    # ---- operands, rvalues ---------------------------------------------------
    def operand(self, st, o):
        if "c" in o or "m" in o:
            r, p, ty = self.place(st, o.get("c") or o.get("m"))
            return self.read(st, r, p)
        k = o.get("k")
        if k is None:
            return K(0, 1)
        return self.const(st, k)

    def const(self, st, k):
        ty = self.p.subst(self.p.ty(k["t"]), st.frames[-1].sub)
        if "fn" in k:
            return Fn(k["fn"], st.frames[-1].sub)
        if "v" in k:
            return self.const_int(ty, int(k["v"]))
        if k.get("zst"):
            if ty[0] == "tuple":
                return UNIT
            if ty[0] == "adt":
                return Ag(ty[1], 0, ())
            return Opq("zst", (str(ty),))
        if ("rb" in k or "sb" in k) and not (ty[0] in ("ref", "ptr") and ty[2][0] in ("adt", "tuple") and tuple(k.get("promoted", ())) in self.p.promoted):
            bs = bytes.fromhex(k["rb"] if "rb" in k else k["sb"])
            return self.bytes_ref(st, bs, "sb" in k or ty[2][0] in ("slice", "str"))
        if "promoted" in k:
            b = self.p.promoted.get(tuple(k["promoted"]))
            if b is None:
                raise Undecided("promoted constant")
            it = type(self)(self.p, self.hooks)
            it.fid = 1000000 + self.fid * 100
            s = self.state()
            s.frames = ()
            tr = it.run(s, b, [], st.frames[-1].sub)
            if len(tr) != 1:
                raise Undecided("promoted constant")
            for kk, vv in tr[0].st.mem.items():
                st.mem.setdefault(kk, vv)
            return tr[0].val
        if "static" in k:
            r = self.static(st, k["static"])
            if r is not None:
                return r
        if "ib" in k:
            bs = bytes.fromhex(k["ib"])
            try:
                return self.from_bytes(st, [K(x, 8) for x in bs], ty)
            except Undecided:
                return Opq("const", (str(ty), bs))
        if "tc" in k:
            v = st.frames[-1].sub.get(k["tc"])
            if v is not None and v[0] == "n":
                return self.const_int(ty, v[1])
        if "sym" in k:
            args = tuple(self.p.subst(self.p.garg(a), st.frames[-1].sub) for a in k.get("sa", ()))
            c = self.assoc_const(k["sym"], args)
            if c is not None:
                return self.const_int(ty, c)
        if self.on_const is not None:
            r = self.on_const(st, k, ty)
            if r is not None:
                return r
        return Opq("const", (str(sorted(k.items())),))

    def static(self, st, path):
        """the value of a static, from its initialiser"""
        root = ("STATIC", path)
        if root not in st.mem:
            c = [x for x in self.p.consts if x["p"] == path and "body" in x]
            if len(c) != 1:
                return None
            it = type(self)(self.p, [])
            it.fid = 2000000 + self.fid * 100
            s = self.state()
            s.frames = ()
            try:
                tr = it.run(s, c[0]["body"], [])
            except Undecided:
                return None
            if len(tr) != 1 or tr[0].kind != "ret":
                return None
            for kk, vv in tr[0].st.mem.items():
                st.mem.setdefault(kk, vv)
            st.mem[root] = tr[0].val
        return Ref(root)

    def assoc_const(self, symname, args):
        nm, trait = symname.rsplit("::", 1)[-1], symname.rsplit("::", 1)[0]
        if trait in self.p.trait_impls and args:
            fi = self.p.find_impl(trait, args[0], args)
            if fi:
                c = self.p.const_by_impl.get((fi[0]["id"], nm))
                if c is not None and "v" in c:
                    return int(c["v"])
        return None

    def const_int(self, ty, v):
        if ty[0] == "int":
            v &= (1 << ty[1]) - 1
            if ty[2] and v >> (ty[1] - 1):
                v -= 1 << ty[1]
            return Af(ty[1], ty[2], v)
        if ty[0] == "bool":
            return K(v, 1)
        if ty[0] == "char":
            return K(v, 32)
        if ty[0] == "adt":
            a = self.p.adts.get(ty[1])
            if a and a["kind"] == "struct" and a["local"] and len(a["v"][0]["f"]) == 1:
                return Ag(ty[1], 0, (self.const_int(self.fields(ty)[0], v),))
            if a and a["kind"] == "enum":
                for i, x in enumerate(a["v"]):
                    if not x["f"] and (int(x["d"]) & 0xffffffffffffffff) == (v & 0xffffffffffffffff):
                        return Ag(ty[1], i, ())
                # niche-free single-byte discriminants
                for i, x in enumerate(a["v"]):
                    if not x["f"] and (int(x["d"]) & 0xff) == v & 0xff:
                        return Ag(ty[1], i, ())
            if ty[1] == OPTION and v == 0:
                return NONE
        return Opq("constint", (str(ty), v))

    def bytes_ref(self, st, bs, slice_):
        root = ("C", bs)
        if root not in st.mem:
            st.mem[root] = Arr(K(len(bs)), {((), i): K(x, 8) for i, x in enumerate(bs)})
        return Sl(root, (), K(0), K(len(bs))) if slice_ else Ref(root)

    def rvalue(self, st, rv):
        """-> [(state, value)]"""
        k = rv[0]
        fr = st.frames[-1]
        if k == "use":
            return [(st, self.operand(st, rv[1]))]
        if k in ("ref", "raw"):
            r, p, ty = self.place(st, rv[2])
            if p and isinstance(p[-1], tuple):
                if p[-1][0] == "slice":
                    return [(st, Sl(r, p[:-1], p[-1][1], p[-1][2]))]
                if p[-1][0] == "i" and ty is not None and k == "raw":
                    return [(st, Pt(r, p[:-1], p[-1][1]))]
            if not p and r[0] == "O":
                v = st.mem.get(r)
                if isinstance(v, Opq):
                    return [(st, v)]
            return [(st, Ref(r, p))]
        if k == "cast":
            v = self.operand(st, rv[2])
            ty = self.p.subst(self.p.ty(rv[3]), fr.sub)
            sty = self.p.subst(self.p.ty(rv[4]), fr.sub)
            return self.cast(st, rv[1], v, ty, sty)
        if k == "bin":
            a, b = self.operand(st, rv[2]), self.operand(st, rv[3])
            ty = self.p.subst(self.p.ty(rv[4]), fr.sub)
            if rv[1] == "Offset":
                return [(st, Pt(a.root, a.path, self.sum(a.off, self.affine(st, b))))]
            return self.binop(st, rv[1], a, b, ty)
        if k == "un":
            a = self.operand(st, rv[2])
            ty = self.p.subst(self.p.ty(rv[3]), fr.sub)
            if rv[1] == "Not":
                w, sg = (ty[1], ty[2]) if ty[0] == "int" else (1, False)
                return [(st, self.mkbits(w, sg, [bnot(x) for x in self.bits(st, a)]))]
            if rv[1] == "Neg":
                return self.binop(st, "Sub", Af(ty[1], ty[2], 0), a, ty)
            if rv[1] == "PtrMetadata":
                return [(st, self.length(st, a))]
            raise Undecided("unary " + rv[1])
        if k == "discr":
            r, p, ty = self.place(st, rv[1])
            v = self.read(st, r, p)
            if isinstance(v, Ag):
                return [(st, Af(64, True, self.p.variant_discr(v.k, v.v) if v.k not in (OPTION, RESULT, CFLOW) else v.v))]
            raise Undecided("discriminant of %r" % (v,))
        if k == "agg":
            kind = rv[1]
            fs = [self.operand(st, o) for o in rv[2]]
            if kind[0] == "adt":
                return [(st, Ag(kind[1], kind[2], fs))]
            if kind[0] == "array":
                return [(st, Arr(K(len(fs)), {((), i): x for i, x in enumerate(fs)}, None))]
            if kind[0] == "closure":
                return [(st, Ag(("closure", kind[1], tuple(sorted((a, b) for a, b in fr.sub.items()))), 0, fs))]
            if kind[0] == "rawptr":
                if isinstance(fs[0], Pt):
                    return [(st, Sl(fs[0].root, fs[0].path, fs[0].off, self.affine(st, fs[1])))]
                raise Undecided("raw pointer")
            return [(st, Ag(kind[0], 0, fs))]
        if k == "repeat":
            v = self.operand(st, rv[1])
            n = rv[2]
            if isinstance(n, str):
                s = fr.sub.get(n)
                n = s[1] if s else n
            if not isinstance(n, int):
                raise Undecided("repeat count")
            return [(st, Arr(K(n), {}, lambda key, v=v: v))]
        raise Undecided("rvalue " + k)

    def sum(self, a, b):
        c, t = lin_add((a.c, a.t), 1, (b.c, b.t), 1)
        return Af(64, False, c, t)

    def length(self, st, v):
        if isinstance(v, Sl):
            return v.len
        if isinstance(v, Ref):
            a = self.read(st, v.root, v.path)
            if isinstance(a, Arr):
                return a.n
            if isinstance(a, Ag):
                return K(len(a.f))
        raise Undecided("length of %r" % (v,))

    def cast(self, st, kind, v, ty, sty):
        if kind == "IntToInt":
            if sty[0] == "adt" and isinstance(v, Ag):
                return [(st, Af(ty[1], ty[2], self.p.variant_discr(v.k, v.v)))]
            return self.cast_int(st, v, sty, ty)
        if kind.startswith("PointerCoercion(Unsize"):
            if isinstance(v, Ref):
                a = None
                try:
                    a = self.read(st, v.root, v.path)
                except Undecided:
                    pass
                if ty[2][0] == "slice":
                    if isinstance(a, Arr):
                        return [(st, Sl(v.root, v.path, K(0), a.n))]
                    raise Undecided("unsizing of %r" % (a,))
            return [(st, v)]
        if kind.startswith("PointerCoercion"):
            if isinstance(v, Ref) and ty[0] == "ptr":
                a = self.read(st, v.root, v.path)
                if isinstance(a, Arr) and ty[2][0] != "array":
                    return [(st, Pt(v.root, v.path, K(0)))]
            return [(st, v)]
        if kind == "BoxDerefTransmute":
            return [(st, v)]
        if kind == "PtrToPtr":
            if isinstance(v, Ref) and ty[0] == "ptr" and ty[2] == ("int", 8, False):
                a = self.read(st, v.root, v.path)
                if isinstance(a, Arr):
                    return [(st, Pt(v.root, v.path, K(0)))]
            return [(st, v)]
        if kind == "Transmute":
            if ty[0] in ("ref", "ptr") and sty[0] in ("ref", "ptr") or ty[0] == "int" and ty[1] == 64 and sty[0] in ("ptr", "ref"):
                return [(st, v)]
            if ty[0] == "adt" and sty[0] == "adt" and ty[1] == sty[1] and not isinstance(v, (Af, Bv)):
                # arguments of one type (lifetimes, markers) do not change the value
                return [(st, v)]
            return [(st, self.from_bytes(st, self.to_bytes(st, v), ty))]
        if kind == "PointerExposeProvenance" and self.align is not None and isinstance(v, Pt):
            # the address modulo 8 of the (symbolic) start of the array is a case
            hi = self.newvar(st, 0, 1 << 50, "addrhi")
            return [(st, Af(64, False, (self.align + v.off.c) % 8, ((hi, 8),)))]
        if kind == "PointerExposeProvenance":
            nv = self.newvar(st, 0, 15, "addr")
            hi = self.newvar(st, 0, 1 << 50, "addrhi")
            return [(st, Af(64, False, 0, ((nv, 1), (hi, 16))))]
        raise Undecided("cast " + kind)

    # ---- execution -----------------------------------------------------------
    def block(self, st, out):
        while True:
            self.steps += 1
            if self.steps > self.max_steps:
                raise Undecided("too many steps")
            fr = st.frames[-1]
            if self.loops is not None and (fr.body["id"], st.bb) in self.loops.heads:
                if self.loops.at(self, st) is None:
                    return []
            blk = fr.body["blocks"][st.bb]
            states = [st]
            for s in blk["s"]:
                nxt = []
                for x in states:
                    if s[0] == "=":
                        for y, v in self.rvalue(x, s[2]):
                            r, p, ty = self.place(y, s[1])
                            self.write(y, r, p, v)
                            nxt.append(y)
                    elif s[0] == "sd":
                        nxt.append(x)
                    else:
                        nxt.append(x)
                states = nxt
            if len(states) == 1:
                res = self.term(states[0], blk, out)
                if len(res) == 1:
                    st = res[0]
                    continue
                return res
            res = []
            for x in states:
                res.extend(self.term(x, blk, out))
            return res

    def term(self, st, blk, out):
        fr = st.frames[-1]
        t = blk["t"]
        k = t[0]
        if k == "goto":
            st.bb = t[1]
            return [st]
        if k == "drop":
            st.bb = t[2]
            return [st]
        if k == "ret":
            v = st.mem.get(("L", fr.fid, 0), UNIT)
            if len(st.frames) == 1:
                out.append(Trace("ret", st, v))
                return []
            st.frames = st.frames[:-1]
            if fr.post is not None:
                v = fr.post(st, v)
            for kk in [kk for kk in st.mem if kk[0] == "L" and kk[1] == fr.fid and not self.keep(st, v)]:
                pass
            r, p = fr.dest
            self.write(st, r, p, v)
            st.bb = fr.target
            return [st]
        if k == "assert":
            c = self.operand(st, t[1])
            res = []
            for s, v in self.branch(st, c):
                if v == (1 if t[2] else 0):
                    s.bb = t[4]
                    res.append(s)
                else:
                    out.append(Trace("panic", s, None, (t[3][0], blk["sp"])))
            return res
        if k == "switch":
            c = self.operand(st, t[1])
            cty = self.p.ty(t[4])
            vals = [(int(x[0]), x[1]) for x in t[2]]
            if cty[0] == "int" and cty[2]:
                w = cty[1]
                vals = [((v - (1 << w)) if v >> (w - 1) else v, b) for v, b in vals]
            w, sg = (cty[1], cty[2]) if cty[0] == "int" else ((1, False) if cty[0] == "bool" else (32, False))
            if isinstance(c, Af) and not c.t and cty[0] == "int":
                # discriminants are kept unsigned
                c = self.wrapc(c.c, w, sg)
            res = []
            cur = [st]
            for v, b in vals:
                nxt = []
                for s in cur:
                    for s2, x in self.branch(s, self.compare(s, "Eq", c, Af(w, sg, v), w, sg)):
                        if x:
                            s2.bb = b
                            res.append(s2)
                        else:
                            nxt.append(s2)
                cur = nxt
            if fr.body["blocks"][t[3]]["t"][0] != "unreachable" or fr.body["blocks"][t[3]]["s"]:
                for s in cur:
                    s.bb = t[3]
                    res.append(s)
            elif isinstance(c, Af) and not c.t and cur:
                raise Undecided("switch has no arm for %d" % c.c)
            return res
        if k == "call":
            return self.call(st, t, blk, out)
        if k in ("unreachable", "resume"):
            return []
        raise Undecided("terminator " + k)

    def keep(self, st, v):
        return True

    def call(self, st, t, blk, out):
        fr = st.frames[-1]
        f = t[1]
        args = [self.operand(st, a) for a in t[2]]
        argtys = [self.p.subst(self.p.ty(x), fr.sub) for x in t[7]]
        retty = self.p.subst(self.p.ty(t[6]), fr.sub)
        r, p, ty = self.place(st, t[3])
        dest = (r, p)
        if "k" in f and "fn" in f["k"]:
            rec, sub = f["k"]["fn"], fr.sub
        else:
            v = self.operand(st, f)
            if isinstance(v, Opq):
                return self.invoke_opaque(st, v, args, argtys, retty, dest, t[4], blk["sp"], out)
            if not isinstance(v, Fn):
                raise Undecided("indirect call")
            rec, sub = v.rec, v.sub
        return self.invoke(st, rec, sub, args, argtys, retty, dest, t[4], blk["sp"], out)

    def invoke_opaque(self, st, v, args, argtys, retty, dest, target, span, out):
        c = {"nm": "call", "path": "an unknown function", "trait": None, "self": None, "body": None, "sub": {}, "ctor": None,
             "argtys": argtys, "retty": retty, "span": span}
        for h in self.hooks:
            res = h(self, st, c, [v] + list(args))
            if res is not None:
                return self.results(st, c, res, dest, target, span, out)
        raise Undecided("indirect call")

    def invoke(self, st, rec, sub, args, argtys, retty, dest, target, span, out):
        c = self.p.resolve(rec, sub)
        c["argtys"], c["retty"], c["span"] = argtys, retty, span
        if c["nm"] in ("call", "call_mut", "call_once") and str(c["trait"]).split("::")[-1] in ("FnOnce", "FnMut", "Fn"):
            c["body"] = None
        if c["ctor"]:
            res = [(st, Ag(c["ctor"][0], c["ctor"][1], args))]
        else:
            res = None
            for h in self.hooks:
                res = h(self, st, c, args)
                if res is not None:
                    break
            if res is None and not (c["body"] is not None and not c["path"].startswith("core::")):
                res = std(self, st, c, args)
            if res is None and c["body"] is not None:
                return self.enter(st, c["body"], c["sub"], args, dest, target)
            if res is None:
                raise Undecided("call of %s" % c["path"])
        return self.results(st, c, res, dest, target, span, out)

    def results(self, st, c, res, dest, target, span, out):
        if res == "panic":
            out.append(Trace("panic", st, None, (c["path"], span)))
            return []
        nxt = []
        for x in res:
            if x[0] == "inline":
                # ("inline", state, body, sub, args, post)
                nxt.extend(self.enter(x[1], x[2], x[3], x[4], dest, target, x[5] if len(x) > 5 else None))
                continue
            s, v = x
            if isinstance(v, str) and v == "panic":
                out.append(Trace("panic", s, None, (c["path"], span)))
                continue
            if target < 0:
                out.append(Trace("panic", s, None, (c["path"], span)))
                continue
            self.write(s, dest[0], dest[1], v)
            s.bb = target
            nxt.append(s)
        return nxt

    def enter(self, st, body, sub, args, dest, target, post=None):
        if sum(1 for f in st.frames if f.body is body) > getattr(self, "recursion", 1) or len(st.frames) > 60:
            raise Undecided("recursion in " + body["path"])
        self.fid += 1
        self.inlined.add(body["path"])
        fr = Frame(body, sub, self.fid, dest, target, post)
        for i, a in enumerate(args):
            st.mem[("L", self.fid, i + 1)] = a
        st.frames = st.frames + (fr,)
        st.bb = 0
        return [st]

    def call_value(self, st, f, args, post=None):
        """calls a closure or function value -> result list for invoke"""
        if isinstance(f, Ref):
            v = self.read(st, f.root, f.path)
            if isinstance(v, Ag) and isinstance(v.k, tuple):
                return self.call_closure(st, v, f, args, post)
            f = v
        if isinstance(f, Ag) and isinstance(f.k, tuple) and f.k[0] == "closure":
            return self.call_closure(st, f, None, args, post)
        if isinstance(f, Fn):
            c = self.p.resolve(f.rec, f.sub)
            c["argtys"], c["retty"], c["span"] = [None] * len(args), None, None
            if c["ctor"]:
                v = Ag(c["ctor"][0], c["ctor"][1], args)
                return [(st, post(st, v) if post else v)]
            for h in self.hooks + [std]:
                r = h(self, st, c, args)
                if r is not None:
                    return [(s, post(s, v) if post else v) for s, v in r]
            if c["body"] is not None:
                return [("inline", st, c["body"], c["sub"], args, post)]
        raise Undecided("call of a value")

    def call_closure(self, st, cl, ref, args, post):
        body = self.p.bodies.get(cl.k[1])
        if body is None:
            raise Undecided("closure")
        ety = self.p.ty(body["locals"][1][0])
        env = cl
        if ety[0] == "ref":
            if ref is None:
                self.fid += 1
                root = ("L", self.fid, 0)
                st.mem[root] = cl
                ref = Ref(root)
            env = ref
        return [("inline", st, body, dict(cl.k[2]), [env] + list(args), post)]


# ---------------------------------------------------------------- std model --
def _int_args(ip, st, args):
    return [ip.affine(st, a) for a in args]


def intty(c):
    t = c["retty"] if c["retty"] and c["retty"][0] == "int" else None
    if t is None:
        for a in c["argtys"]:
            if a and a[0] == "int":
                return a
    return t


def selfint(c):
    import re
    m = re.search(r"<impl ([ui])(8|16|32|64|128|size)>", c["path"])
    if m:
        w = 64 if m.group(2) == "size" else int(m.group(2))
        return ("int", w, m.group(1) == "i")
    return None


def std(ip, st, c, a):
    nm, path = c["nm"], c["path"]
    trait = (c["trait"] or "").split("::")[-1]
    if path.startswith("core::panicking") or "unwrap_failed" in path or "begin_panic" in path:
        return "panic"
    si = selfint(c)
    if si is not None:
        return int_method(ip, st, c, nm, a, si)
    if path.startswith("core::slice::<impl [T]>::") or path.startswith("core::array::") and trait == "":
        return slice_method(ip, st, c, nm, a)
    if "ptr::mut_ptr" in path or "ptr::const_ptr" in path:
        return ptr_method(ip, st, c, nm, a)
    if path.startswith("core::ptr::"):
        return ptr_fn(ip, st, c, nm, a)
    if path.endswith("mem::transmute_copy"):
        v = ip.read(st, *rp(ip, st, a[0]))
        return [(st, ip.from_bytes(st, ip.to_bytes(st, v), c["retty"]))]
    if path.endswith("intrinsics::transmute") or path.endswith("mem::transmute"):
        if c["retty"][0] in ("ref", "ptr"):
            return [(st, a[0])]
        return [(st, ip.from_bytes(st, ip.to_bytes(st, a[0]), c["retty"]))]
    if path.endswith("cmp::min") or path.endswith("cmp::max") or trait == "Ord" and nm in ("min", "max"):
        t = c["retty"]
        if t[0] == "int":
            out = []
            for s, v in ip.branch(st, ip.compare(st, "Le", a[0], a[1], t[1], t[2])):
                out.append((s, a[0] if (v == 1) == (nm == "min") else a[1]))
            return out
    if path.endswith("mem::size_of"):
        ty = ip.p.subst(ip.p.garg(c["args"][0]), {}) if isinstance(c["args"][0], dict) else c["args"][0]
        return [(st, K(ip.size(ty)))]
    if path.endswith("mem::align_of"):
        ty = c["args"][0]
        return [(st, K(ip.size(ty)))]
    if path.endswith("mem::swap"):
        r0, r1 = rp(ip, st, a[0]), rp(ip, st, a[1])
        x, y = ip.read(st, *r0), ip.read(st, *r1)
        ip.write(st, *r0, y)
        ip.write(st, *r1, x)
        return [(st, UNIT)]
    if path.endswith("mem::replace"):
        r0 = rp(ip, st, a[0])
        x = ip.read(st, *r0)
        ip.write(st, *r0, a[1])
        return [(st, x)]
    if path.endswith("mem::drop") or path.endswith("mem::forget"):
        return [(st, UNIT)]
    if nm in ("from_raw_parts", "from_raw_parts_mut") and path.startswith("core::slice"):
        if isinstance(a[0], Pt):
            n = ip.var_of(st, a[1])
            arr = ip.read(st, a[0].root, a[0].path)
            ln = K(len(arr.f)) if isinstance(arr, Ag) else arr.n
            d = lin_add((ln.c, ln.t), 1, lin_add((a[0].off.c, a[0].off.t), 1, (n.c, n.t), 1), -1)
            if not st.holds(*d):
                st.flags = st.flags + (("memory", "slice", repr(a[0].off), repr(n), repr(ln)),)
            return [(st, Sl(a[0].root, a[0].path, a[0].off, n))]
    if trait == "Try" and nm == "branch":
        v = a[0]
        if isinstance(v, Ag):
            if v.k == RESULT:
                return [(st, Ag(CFLOW, 0, v.f) if v.v == 0 else Ag(CFLOW, 1, (v,)))]
            if v.k == OPTION:
                return [(st, Ag(CFLOW, 0, v.f) if v.v == 1 else Ag(CFLOW, 1, (NONE,)))]
    if trait == "FromResidual":
        return [(st, a[0])]
    if trait == "Clone" and nm == "clone":
        try:
            return [(st, ip.read(st, *rp(ip, st, a[0])))]
        except Undecided:
            return [(st, Opq("clone", (repr(a[0]),)))]
    if trait in ("Into", "From") and nm in ("into", "from") and len(a) == 1:
        rt, at = c["retty"], c["argtys"][0]
        if rt == at:
            return [(st, a[0])]
        if rt and at and rt[0] == "int" and at[0] in ("int", "bool", "char"):
            return ip.cast_int(st, a[0], at if at[0] == "int" else ("int", 1 if at[0] == "bool" else 32, False), rt)
        fi = ip.p.find_impl("core::convert::From", rt, (rt, at)) if rt and at else None
        if fi:
            b = ip.p.by_impl.get((fi[0]["id"], "from"))
            if b is not None:
                return [("inline", st, b, fi[1], [a[0]])]
    if trait in ("TryInto", "TryFrom") and c["retty"][0] == "adt" and c["retty"][1] == RESULT:
        ok_ty = c["retty"][2][0]
        v = a[0]
        if ok_ty[0] == "array" and isinstance(v, Sl):
            n = ok_ty[2]
            d, t = lin_add((v.len.c, v.len.t), 1, (n, ()), -1)
            arr = ip.read(st, v.root, v.path)
            good = Arr(K(n), {((), i): ip.elem(st, arr, ip.plus(v.off, i)) for i in range(n)})
            if not t:
                return [(st, Ok(good) if d == 0 else Err(Opq("trysl")))]
            out = []
            for s, x in ip.branch(st, ip.compare(st, "Eq", v.len, K(n), 64, False)):
                out.append((s, Ok(good) if x else Err(Opq("trysl"))))
            return out
        if ok_ty[0] == "int" and c["argtys"][0][0] == "int":
            out = []
            w, sg = ok_ty[1], ok_ty[2]
            hi = (1 << (w - (1 if sg else 0))) - 1
            x = ip.var_of(st, v)
            for s, y in ip.branch(st, ip.compare(st, "Le", x, Af(x.w, x.sg, hi), x.w, x.sg)):
                out.append((s, Ok(Af(w, sg, x.c, x.t)) if y else Err(Opq("tryint"))))
            return out
    if path.startswith("core::result::Result") or path.startswith("core::option::Option"):
        return optres(ip, st, c, nm, a)
    if trait in ("Deref", "DerefMut", "AsRef", "AsMut", "Borrow", "BorrowMut") or nm in ("as_slice", "as_mut_slice", "as_bytes"):
        v = a[0]
        if c["retty"][0] == "ref" and c["retty"][2][0] in ("slice", "str") and isinstance(v, Ref):
            x = ip.read(st, v.root, v.path)
            if isinstance(x, Arr):
                return [(st, Sl(v.root, v.path, K(0), x.n))]
            if isinstance(x, (Sl, Ref)):
                return [(st, x)]
        if isinstance(v, Ref):
            try:
                x = ip.read(st, v.root, v.path)
            except Undecided:
                return [(st, v)]
            if isinstance(x, (Ref, Sl)):
                return [(st, x)]
        return [(st, v)]
    if trait in ("Index", "IndexMut") and nm in ("index", "index_mut"):
        return index(ip, st, c, a)
    if trait == "IntoIterator" and nm == "into_iter":
        v = a[0]
        if isinstance(v, Ag) and v.k in (RANGE, "core::ops::range::RangeInclusive"):
            return [(st, v)]
        if isinstance(v, Sl):
            return [(st, Ag("iter", 0, (v, K(0))))]
        if isinstance(v, Ref):
            x = ip.read(st, v.root, v.path)
            if isinstance(x, Arr):
                return [(st, Ag("iter", 0, (Sl(v.root, v.path, K(0), x.n), K(0))))]
        if isinstance(v, Ag) and v.k in ("iter", "stepby"):
            return [(st, v)]
        if c["body"] is None and isinstance(v, Ag):
            return [(st, v)]
    if trait == "Iterator" and nm == "zip":
        x = a[1]
        if isinstance(x, Sl):
            x = Ag("iter", 0, (x, K(0)))
        return [(st, Ag("zip", 0, (a[0], x, Opq("ty", (c["argtys"][0], c["argtys"][1])))))]
    if trait == "Iterator" and nm == "cloned" or trait == "Iterator" and nm == "copied":
        return [(st, Ag("cloned", 0, (a[0], Opq("ty", (c["argtys"][0],)))))]
    if trait == "Iterator" and nm == "enumerate":
        return [(st, Ag("enum", 0, (a[0], K(0), Opq("ty", (c["argtys"][0],)))))]
    if trait == "Iterator" and nm == "rev" and isinstance(a[0], Ag):
        return [(st, Ag("rev", 0, (a[0],)))]
    if trait == "Iterator" and nm == "step_by":
        return [(st, Ag("stepby", 0, (a[0], ip.affine(st, a[1]))))]
    if trait == "Iterator" and nm == "next":
        return iter_next(ip, st, c, a)
    if path.startswith("<") and trait in OPS and nm == trait.lower() and len(a) == 2:
        x, y = deep(ip, st, a[0]), deep(ip, st, a[1])
        if isinstance(x, (Af, Bv)) and isinstance(y, (Af, Bv)):
            if trait in ("Div", "Rem"):
                out = []
                for s, v in ip.branch(st, ip.compare(st, "Eq", y, K(0, y.w, y.sg), y.w, y.sg)):
                    out.extend([(s, "panic")] if v else ip.binop(s, OPS[trait], x, y, c["retty"]))
                return out
            return ip.binop(st, OPS[trait], x, y, c["retty"])
    if trait in ("PartialEq", "PartialOrd", "Ord") and len(a) == 2 and c["body"] is None:
        x, y = deep(ip, st, a[0]), deep(ip, st, a[1])
        if isinstance(x, (Af, Bv)) and isinstance(y, (Af, Bv)):
            op = {"eq": "Eq", "ne": "Ne", "lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}.get(nm)
            if op:
                return [(st, ip.compare(st, op, x, y, x.w, x.sg))]
            if nm == "cmp" and (ip.affine(st, x) is None or ip.affine(st, y) is None) and not x.sg:
                out, cur = [], [st]
                for p, q in zip(reversed(ip.bits(st, x)), reversed(ip.bits(st, y))):
                    nxt = []
                    for s in cur:
                        for s2, e in ip.branch(s, B(bxor(p, q))):
                            if not e:
                                nxt.append(s2)
                                continue
                            for s3, e2 in ip.branch(s2, B(p)):
                                for s4 in ip.assume(s3, q, 1 - e2):
                                    out.append((s4, Ag("core::cmp::Ordering", 2 if e2 else 0, ())))
                    cur = nxt
                return out + [(s, Ag("core::cmp::Ordering", 1, ())) for s in cur]
            if nm == "cmp":
                out = []
                for s, v in ip.branch(st, ip.compare(st, "Lt", x, y, x.w, x.sg)):
                    if v:
                        out.append((s, Ag("core::cmp::Ordering", 0, ())))
                    else:
                        for s2, v2 in ip.branch(s, ip.compare(s, "Eq", x, y, x.w, x.sg)):
                            out.append((s2, Ag("core::cmp::Ordering", 1 if v2 else 2, ())))
                return out
        if nm in ("cmp", "partial_cmp", "eq", "ne", "lt", "le", "gt", "ge"):
            ps = scalars(ip, st, x, y)
            if ps is not None:
                if nm in ("eq", "ne"):
                    return [(s, K(int(v == (nm == "eq")), 1)) for s, v in seq_eq(ip, st, ps)]
                out = []
                for s, v in seq_cmp(ip, st, ps):
                    o = Ag("core::cmp::Ordering", v + 1, ())
                    if nm in ("cmp", "partial_cmp"):
                        out.append((s, Some(o) if nm[0] == "p" else o))
                    else:
                        out.append((s, K(int({"lt": v < 0, "le": v <= 0, "gt": v > 0, "ge": v >= 0}[nm]), 1)))
                return out
        if isinstance(x, Ag) and isinstance(y, Ag) and x.k == y.k and not x.f and not y.f and nm in ("eq", "ne"):
            return [(st, K(1 if (x.v == y.v) == (nm == "eq") else 0, 1))]
        if trait == "PartialEq" and nm in ("eq", "ne") and len(c["args"]) == 2:
            ta, tb = c["args"]
            u, w = a
            while ta[0] == "ref" and tb[0] == "ref":
                ta, tb = ta[1], tb[1]
                u, w = ip.read(st, u.root, u.path), ip.read(st, w.root, w.path)
            fi = ip.p.find_impl(c["trait"], ta, (ta, tb))
            body = ip.p.by_impl.get((fi[0]["id"], "eq")) if fi else None
            if body is not None:
                post = (lambda st, v: ip.mkbits(1, False, [bnot(ip.bits(st, v)[0])])) if nm == "ne" else None
                return [("inline", st, body, dict(fi[1]), [u, w], post)]
    if path.startswith("core::cmp::Ordering") or c["self"] == ("adt", "core::cmp::Ordering", ()):
        if nm.startswith("is_") and isinstance(a[0], Ag):
            v = a[0].v - 1
            return [(st, K(int({"is_eq": v == 0, "is_ne": v != 0, "is_lt": v < 0, "is_gt": v > 0, "is_le": v <= 0, "is_ge": v >= 0}[nm]), 1))]
    if trait in ("FnOnce", "FnMut", "Fn") and nm in ("call_once", "call_mut", "call"):
        return ip.call_value(st, a[0], list(a[1].f))
    if path.endswith("bool>::then_some"):
        return [(s, Some(a[1]) if v else NONE) for s, v in ip.branch(st, a[0])]
    if path.endswith("bool>::then"):
        out = []
        for s, v in ip.branch(st, a[0]):
            if v:
                out.extend((s2, Some(x) if x != "panic" else x) for s2, x in ip.nested_value(s, a[1], []))
            else:
                out.append((s, NONE))
        return out
    if "core::num::nonzero::NonZero" in path and nm in ("new", "get", "new_unchecked"):
        if nm != "new":
            return [(st, a[0].f[0] if nm == "get" and isinstance(a[0], Ag) else Ag("nonzero", 0, (a[0],)) if nm != "get" else a[0])]
        x = a[0]
        return [(s, NONE if v else Some(Ag("nonzero", 0, (x,)))) for s, v in ip.branch(st, ip.compare(st, "Eq", x, K(0, x.w, x.sg), x.w, x.sg))]
    if "MaybeUninit" in path:
        if nm == "uninit":
            return [(st, Opq("uninit", (str(c["retty"]),)))]
        if nm == "write" and isinstance(a[0], Ref):
            ip.write(st, a[0].root, a[0].path, a[1])
            return [(st, a[0])]
        if nm in ("assume_init_ref", "assume_init_mut") and isinstance(a[0], Ref):
            return [(st, a[0])]
        if nm in ("assume_init", "new", "assume_init_read"):
            v = a[0]
            if nm == "assume_init" and isinstance(v, Opq) and v.name == "uninit":
                return [(st, ip.uninit(st, c["retty"]))]
            return [(st, v)]
    if "ManuallyDrop" in path and nm in ("new", "into_inner", "deref", "deref_mut"):
        return [(st, a[0])]
    if path.endswith("hint::black_box") or nm in ("likely", "unlikely"):
        return [(st, a[0])]
    if trait == "Default" and nm == "default" and c["retty"][0] in ("int", "bool"):
        return [(st, ip.const_int(c["retty"], 0))]
    return None


def scalars(ip, st, x, y):
    """pairs of integers that tuples and arrays of fixed length compare in order"""
    x, y = deep(ip, st, x), deep(ip, st, y)
    if isinstance(x, (Af, Bv)) and isinstance(y, (Af, Bv)):
        return [(x, y)]
    if isinstance(x, Arr) and isinstance(y, Arr) and not x.n.t and not y.n.t and x.n.c == y.n.c <= 64:
        x, y = [ip.elem(st, x, K(i)) for i in range(x.n.c)], [ip.elem(st, y, K(i)) for i in range(y.n.c)]
    elif isinstance(x, Ag) and isinstance(y, Ag) and x.k == y.k == "tuple":
        x, y = x.f, y.f
    else:
        return None
    out = []
    for p, q in zip(x, y):
        r = scalars(ip, st, p, q)
        if r is None:
            return None
        out += r
    return out


def seq_eq(ip, st, ps):
    out, cur = [], [st]
    for x, y in ps:
        nxt = []
        for s in cur:
            for s2, v in ip.branch(s, ip.compare(s, "Eq", x, y, x.w, x.sg)):
                nxt.append(s2) if v else out.append((s2, False))
        cur = nxt
    return out + [(s, True) for s in cur]


def seq_cmp(ip, st, ps):
    out, cur = [], [st]
    for x, y in ps:
        nxt = []
        for s in cur:
            for s2, v in ip.branch(s, ip.compare(s, "Lt", x, y, x.w, x.sg)):
                if v:
                    out.append((s2, -1))
                    continue
                for s3, e in ip.branch(s2, ip.compare(s2, "Eq", x, y, x.w, x.sg)):
                    nxt.append(s3) if e else out.append((s3, 1))
        cur = nxt
    return out + [(s, 0) for s in cur]


def uninit(ip, st, ty):
    if ty[0] == "array":
        return Arr(K(ty[2]), {}, lambda key: int_sym(("uninit", key), 8))
    raise Undecided("uninitialised " + str(ty))


Interp.uninit = uninit


OPS = {"Shr": "Shr", "Shl": "Shl", "Add": "Add", "Sub": "Sub", "Mul": "Mul", "BitAnd": "BitAnd", "BitOr": "BitOr", "BitXor": "BitXor", "Div": "Div", "Rem": "Rem"}


def deep(ip, st, v):
    while isinstance(v, Ref):
        v = ip.read(st, v.root, v.path)
    return v


def rp(ip, st, v):
    if isinstance(v, Ref):
        return v.root, v.path
    if isinstance(v, Pt):
        return v.root, v.path + (("i", v.off),)
    raise Undecided("reference expected: %r" % (v,))


def int_method(ip, st, c, nm, a, ty):
    w, sg = ty[1], ty[2]
    ints = [x for x in a]
    if nm in ("to_be_bytes", "to_le_bytes", "to_ne_bytes"):
        bs = ip.to_bytes(st, a[0])
        if nm == "to_be_bytes":
            bs.reverse()
        return [(st, Arr(K(len(bs)), {((), i): x for i, x in enumerate(bs)}))]
    if nm in ("from_be_bytes", "from_le_bytes", "from_ne_bytes"):
        bs = ip.to_bytes(st, a[0])
        if nm == "from_be_bytes":
            bs.reverse()
        return [(st, ip.from_bytes(st, bs, ty))]
    if nm in ("swap_bytes", "to_be", "from_be"):
        bs = ip.to_bytes(st, a[0])
        bs.reverse()
        return [(st, ip.from_bytes(st, bs, ty))]
    if nm == "reverse_bits":
        return [(st, ip.mkbits(w, sg, list(reversed(ip.bits(st, a[0])))))]
    if nm in ("checked_sub", "saturating_sub"):
        out = []
        for s, v, ovf in ip.arith(st, "Sub", a[0], a[1], w, sg):
            if sg and ovf and nm[0] == "s":
                raise Undecided("saturation of signed integers")
            out.append((s, (NONE if ovf else Some(v)) if nm[0] == "c" else (K(0, w, sg) if ovf else v)))
        return out
    if nm in ("checked_add", "saturating_add", "checked_mul", "saturating_mul"):
        out = []
        for s, v, ovf in ip.arith(st, "Add" if nm.endswith("add") else "Mul", a[0], a[1], w, sg):
            if sg and ovf and nm[0] == "s":
                raise Undecided("saturation of signed integers")
            out.append((s, (NONE if ovf else Some(v)) if nm[0] == "c" else (K((1 << (w - (1 if sg else 0))) - 1, w, sg) if ovf else v)))
        return out
    if nm in ("wrapping_add", "wrapping_sub", "wrapping_mul", "overflowing_add", "overflowing_sub", "overflowing_mul", "unchecked_add", "unchecked_sub"):
        op = {"add": "Add", "sub": "Sub", "mul": "Mul"}[nm.split("_")[1]]
        out = []
        for s, v, ovf in ip.arith(st, op, a[0], a[1], w, sg):
            out.append((s, Ag("tuple", 0, (v, K(int(ovf), 1))) if nm[0] == "o" else v))
        return out
    if nm in ("wrapping_shl", "wrapping_shr"):
        return ip.binop(st, "Shl" if nm.endswith("l") else "Shr", a[0], K(ip.affine(st, a[1]).c % w), ty)
    if nm in ("checked_div", "checked_rem"):
        out = []
        for s, v in ip.branch(st, ip.compare(st, "Eq", a[1], K(0, w, sg), w, sg)):
            if v:
                out.append((s, NONE))
            else:
                out.extend((s2, Some(x)) for s2, x in ip.binop(s, "Div" if nm.endswith("div") else "Rem", a[0], a[1], ty))
        return out
    if nm == "div_ceil":
        out = []
        k = ip.affine(st, a[1])
        for s, v, ovf in ip.arith(st, "Add", a[0], Af(w + 1, sg, k.c - 1), w + 1, sg):
            out.extend((s2, Af(w, sg, v2.c, v2.t) if isinstance(v2, Af) else v2) for s2, v2 in ip.binop(s, "Div", v, Af(w + 1, sg, k.c), ("int", w + 1, sg)))
        return out
    if nm in ("min", "max"):
        out = []
        for s, v in ip.branch(st, ip.compare(st, "Le", a[0], a[1], w, sg)):
            out.append((s, a[0] if (v == 1) == (nm == "min") else a[1]))
        return out
    if nm in ("leading_zeros", "trailing_zeros", "leading_ones", "trailing_ones"):
        x = ip.affine(st, a[0]) if nm == "leading_zeros" and not sg else None
        if x is not None and x.t:
            out = []
            for k in range(-1, w):
                s = st.copy()
                neg = tuple((v, -n) for v, n in x.t)
                lo, hi = (1 << k if k >= 0 else 0), ((2 << k) - 1 if k >= 0 else 0)
                if s.add(x.c - lo, x.t) and s.add(hi - x.c, neg) and feasible(s.all_cons()):
                    out.append((s, K(w - 1 - k, 32)))
            zs = [v.c for _, v in out]
            if len(zs) > 1 and min(zs) // 8 == max(zs) // 8:
                # within one byte: an unknown number of zeros between the bounds
                z = ip.newvar(st, min(zs), max(zs), "lz")
                return [(st, Af(32, False, 0, ((z, 1),)))]
            return out
        b = ip.bits(st, a[0])
        if nm.startswith("leading"):
            b = list(reversed(b))
        one = nm.endswith("ones")
        out, cur = [], [st]
        for i, x in enumerate(b):
            nxt = []
            for s in cur:
                y = bnot(x) if one else x
                for s2, v in ip.branch(s, B(y)):
                    if v:
                        out.append((s2, K(i, 32)))
                    else:
                        nxt.append(s2)
            cur = nxt
        out.extend((s, K(w, 32)) for s in cur)
        return out
    if nm in ("count_ones", "count_zeros"):
        b = ip.bits(st, a[0])
        cur = [(st, 0)]
        for x in b:
            nxt = []
            for s, n in cur:
                for s2, v in ip.branch(s, B(x)):
                    nxt.append((s2, n + v))
            cur = nxt
        return [(s, K(n if nm == "count_ones" else w - n, 32)) for s, n in cur]
    if nm == "abs_diff" or nm == "pow":
        x, y = ip.affine(st, a[0]), ip.affine(st, a[1])
        if x is not None and y is not None and not x.t and not y.t:
            return [(st, K(abs(x.c - y.c) if nm == "abs_diff" else x.c ** y.c, w, sg))]
    return None


def slice_method(ip, st, c, nm, a):
    v = a[0]
    if nm == "len":
        return [(st, ip.length(st, v))]
    if nm == "is_empty":
        return [(st, ip.compare(st, "Eq", ip.length(st, v), K(0), 64, False))]
    if isinstance(v, Ref):
        arr = ip.read(st, v.root, v.path)
        v = Sl(v.root, v.path, K(0), ip.length(st, v))
    if not isinstance(v, Sl):
        return None
    if nm in ("as_slice", "as_mut_slice", "as_ref", "as_mut"):
        return [(st, v)]
    if nm in ("as_ptr", "as_mut_ptr"):
        return [(st, Pt(v.root, v.path, v.off))]
    if nm in ("get_unchecked", "get_unchecked_mut"):
        i = ip.affine(st, a[1])
        arr = ip.read(st, v.root, v.path)
        if i is None:
            out = []
            for s, n in ip.split_bits(st, a[1]):
                off = ip.plus(v.off, n)
                ip.in_bounds(s, arr, off, 1, "get_unchecked")
                out.append((s, Ref(v.root, v.path + (("i", off),))))
            return out
        off = ip.sum(v.off, i)
        ip.in_bounds(st, arr, off, 1, "get_unchecked")
        return [(st, Ref(v.root, v.path + (("i", off),)))]
    if nm in ("get", "get_mut"):
        i = a[1]
        if isinstance(i, Ag) and "range" in str(i.k):
            return index(ip, st, c, [v, i], option=True)
        i = ip.var_of(st, i)
        out = []
        for s, x in ip.branch(st, ip.compare(st, "Lt", i, v.len, 64, False)):
            out.append((s, Some(Ref(v.root, v.path + (("i", ip.sum(v.off, i)),))) if x else NONE))
        return out
    if nm == "iter" or nm == "iter_mut":
        return [(st, Ag("iter", 0, (v, K(0))))]
    if nm in ("split_at", "split_at_mut", "split_at_checked", "split_at_unchecked"):
        i = ip.var_of(st, a[1])
        out = []
        for s, x in ip.branch(st, ip.compare(st, "Le", i, v.len, 64, False)):
            if x:
                r = Ag("tuple", 0, (Sl(v.root, v.path, v.off, i), Sl(v.root, v.path, ip.sum(v.off, i), ip.sum(v.len, Af(64, False, -i.c, tuple((t, -k) for t, k in i.t))))))
                out.append((s, Some(r) if nm == "split_at_checked" else r))
            elif nm == "split_at_checked":
                out.append((s, NONE))
            else:
                out.append((s, "panic"))
        return out
    if nm == "copy_from_slice":
        o = a[1]
        n = v.len
        if n.t:
            return None
        arr, src = ip.read(st, v.root, v.path), ip.read(st, o.root, o.path)
        out = []
        for s, x in ip.branch(st, ip.compare(st, "Eq", n, o.len, 64, False)):
            if not x:
                out.append((s, "panic"))
                continue
            vals = [ip.elem(s, src, ip.plus(o.off, i)) for i in range(n.c)]
            ar = arr
            for i, y in enumerate(vals):
                ar = ip.set_elem(s, ar, ip.plus(v.off, i), y)
            ip.write(s, v.root, v.path, ar)
            out.append((s, UNIT))
        return out
    if nm == "fill" and not v.len.t:
        arr = ip.read(st, v.root, v.path)
        for i in range(v.len.c):
            arr = ip.set_elem(st, arr, ip.plus(v.off, i), a[1])
        ip.write(st, v.root, v.path, arr)
        return [(st, UNIT)]
    if nm in ("first_chunk", "last_chunk", "split_first_chunk", "split_last_chunk") and c["retty"] and c["retty"][0] == "adt":
        t = c["retty"][2][0]
        k = 0 if nm != "split_last_chunk" else 1
        t = t[1][k] if t[0] == "tuple" else t
        if t[0] != "ref" or t[2][0] != "array" or not isinstance(t[2][2], int):
            return None
        n = t[2][2]
        out = []
        for s, x in ip.branch(st, ip.compare(st, "Le", K(n), v.len, 64, False)):
            if not x:
                out.append((s, NONE))
                continue
            rest = ip.plus(v.len, -n)
            o = v.off if "first" in nm else ip.sum(v.off, rest)
            arr = ip.read(s, v.root, v.path)
            ip.fid += 1
            root = ("chunk", ip.fid)
            s.mem[root] = Arr(K(n), {((), i): ip.elem(s, arr, ip.plus(o, i)) for i in range(n)})
            r = Ref(root)
            if nm.startswith("split"):
                other = Sl(v.root, v.path, ip.plus(v.off, n) if "first" in nm else v.off, rest)
                r = Ag("tuple", 0, (r, other) if "first" in nm else (other, r))
            out.append((s, Some(r)))
        return out
    if nm in ("first", "last"):
        out = []
        for s, x in ip.branch(st, ip.compare(st, "Lt", K(0), v.len, 64, False)):
            off = v.off if nm == "first" else ip.plus(ip.sum(v.off, v.len), -1)
            out.append((s, Some(Ref(v.root, v.path + (("i", off),))) if x else NONE))
        return out
    return None


def ptr_method(ip, st, c, nm, a):
    v = a[0]
    if isinstance(v, Ref) and nm in ("cast", "cast_mut", "cast_const"):
        return [(st, v)]
    if not isinstance(v, Pt):
        return None
    if nm in ("add", "wrapping_add", "offset"):
        i = ip.affine(st, a[1])
        if i is None:
            return None
        o = ip.sum(v.off, i)
        arr = ip.read(st, v.root, v.path)
        ln = K(len(arr.f)) if isinstance(arr, Ag) else arr.n
        d = lin_add((ln.c, ln.t), 1, (o.c, o.t), -1)
        if not st.holds(*d) or not st.holds(o.c, o.t):
            st.flags = st.flags + (("memory", "pointer past the end", repr(o), 0, repr(ln)),)
        return [(st, Pt(v.root, v.path, o))]
    if nm in ("sub", "wrapping_sub"):
        i = ip.affine(st, a[1])
        c_, t_ = lin_add((v.off.c, v.off.t), 1, (i.c, i.t), -1)
        if not st.holds(c_, t_):
            st.flags = st.flags + (("memory", "pointer before the start", repr((c_, t_)), 0, ""),)
        return [(st, Pt(v.root, v.path, Af(64, False, c_, t_)))]
    if nm in ("cast", "cast_mut", "cast_const"):
        return [(st, v)]
    if nm in ("read", "read_unaligned"):
        r, p = ip.deref(st, v, c["retty"])
        return [(st, ip.read(st, r, p))]
    if nm == "is_null":
        return [(st, K(0, 1))]
    if nm == "addr":
        return ip.cast(st, "PointerExposeProvenance", v, ("int", 64, False), None)
    return None


def ptr_fn(ip, st, c, nm, a):
    if nm in ("copy_nonoverlapping", "copy"):
        src, dst, n = a[0], a[1], ip.affine(st, a[2])
        if not (isinstance(src, Pt) and isinstance(dst, Pt)):
            return None
        out = []
        for s, k in (ip.split(st, n) if n.t else [(st, n.c)]):
            sa, da = ip.read(s, src.root, src.path), ip.read(s, dst.root, dst.path)
            if k:
                ip.in_bounds(s, sa, src.off, k, "copy source")
                ip.in_bounds(s, da, dst.off, k, "copy target")
            vals = [ip.elem(s, sa, ip.plus(src.off, i)) for i in range(k)]
            for i, v in enumerate(vals):
                da = ip.set_elem(s, da, ip.plus(dst.off, i), v)
            ip.write(s, dst.root, dst.path, da)
            out.append((s, UNIT))
        return out
    if nm == "write_bytes":
        dst, v, n = a[0], a[1], ip.affine(st, a[2])
        out = []
        for s, k in (ip.split(st, n) if n.t else [(st, n.c)]):
            da = ip.read(s, dst.root, dst.path)
            if k:
                ip.in_bounds(s, da, dst.off, k, "fill")
            for i in range(k):
                da = ip.set_elem(s, da, ip.plus(dst.off, i), v)
            ip.write(s, dst.root, dst.path, da)
            out.append((s, UNIT))
        return out
    if nm == "read":
        r, p = rp(ip, st, a[0])
        return [(st, ip.read(st, r, p))]
    if nm == "write":
        r, p = rp(ip, st, a[0])
        ip.write(st, r, p, a[1])
        return [(st, UNIT)]
    if nm == "drop_in_place":
        return [(st, UNIT)]
    return None


def optres(ip, st, c, nm, a):
    v = a[0]
    if isinstance(v, Ref) and nm in ("is_ok", "is_err", "is_some", "is_none", "as_ref", "as_mut", "take", "insert", "replace"):
        x = ip.read(st, v.root, v.path)
        if not isinstance(x, Ag):
            return None
        if nm in ("as_ref", "as_mut"):
            return [(st, Ag(x.k, x.v, (Ref(v.root, v.path + (0,)),) if x.f else ()))]
        if nm == "take":
            ip.write(st, v.root, v.path, NONE)
            return [(st, x)]
        if nm in ("insert", "replace"):
            ip.write(st, v.root, v.path, Some(a[1]))
            return [(st, x if nm == "replace" else Ref(v.root, v.path + (0,)))]
        v = x
    if not isinstance(v, Ag) or v.k not in (OPTION, RESULT):
        return None
    good = v.v == (1 if v.k == OPTION else 0)
    if nm in ("is_ok", "is_some"):
        return [(st, K(int(good), 1))]
    if nm in ("is_err", "is_none"):
        return [(st, K(int(not good), 1))]
    if nm in ("unwrap", "expect", "unwrap_unchecked"):
        return [(st, v.f[0])] if good else "panic"
    if nm in ("unwrap_or",):
        return [(st, v.f[0] if good else a[1])]
    if nm == "unwrap_or_default" and good:
        return [(st, v.f[0])]
    if nm == "unwrap_or_default":
        return [(st, ip.const_int(c["retty"], 0))]
    if nm in ("map",):
        if not good:
            return [(st, v)]
        return ip.call_value(st, a[1], [v.f[0]], lambda s, x, k=v.k, vv=v.v: Ag(k, vv, (x,)))
    if nm == "and_then":
        return ip.call_value(st, a[1], [v.f[0]]) if good else [(st, v)]
    if nm == "map_err":
        return [(st, v)] if good else ip.call_value(st, a[1], [v.f[0]], lambda s, x: Err(x))
    if nm == "map_or":
        return ip.call_value(st, a[2], [v.f[0]]) if good else [(st, a[1])]
    if nm == "map_or_else":
        return ip.call_value(st, a[2], [v.f[0]]) if good else ip.call_value(st, a[1], [] if v.k == OPTION else [v.f[0]])
    if nm in ("is_some_and", "is_ok_and"):
        return ip.call_value(st, a[1], [v.f[0]]) if good else [(st, K(0, 1))]
    if nm == "is_none_or":
        return ip.call_value(st, a[1], [v.f[0]]) if good else [(st, K(1, 1))]
    if nm == "ok_or_else":
        return [(st, Ok(v.f[0]))] if good else ip.call_value(st, a[1], [], lambda s, x: Err(x))
    if nm == "or":
        return [(st, v if good else a[1])]
    if nm == "or_else":
        return [(st, v)] if good else ip.call_value(st, a[1], [] if v.k == OPTION else [v.f[0]])
    if nm == "and":
        return [(st, a[1] if good else v)]
    if nm == "err":
        return [(st, NONE if good else Some(v.f[0]))]
    if nm == "filter" and v.k == OPTION:
        if not good:
            return [(st, v)]
        st.mem[("FILTER", len(st.mem))] = v.f[0]
        r = Ref([k for k in st.mem if k[0] == "FILTER"][-1])
        out = []
        for s, x in ip.nested_value(st, a[1], [r]):
            if x == "panic":
                out.append((s, x))
            else:
                out.extend((s2, v if y else NONE) for s2, y in ip.branch(s, x))
        return out
    if nm == "ok_or":
        return [(st, Ok(v.f[0]) if good else Err(a[1]))]
    if nm == "ok":
        return [(st, Some(v.f[0]) if good else NONE)]
    if nm in ("unwrap_or_else",):
        return [(st, v.f[0])] if good else ip.call_value(st, a[1], [] if v.k == OPTION else [v.f[0]])
    if nm in ("copied", "cloned"):
        if not good:
            return [(st, v)]
        x = v.f[0]
        return [(st, Ag(v.k, v.v, (ip.read(st, x.root, x.path) if isinstance(x, Ref) else x,)))]
    return None


def index(ip, st, c, a, option=False):
    v, i = a[0], a[1]
    if isinstance(v, Ref):
        v = Sl(v.root, v.path, K(0), ip.length(st, v))
    if not isinstance(v, Sl):
        return None
    if isinstance(i, (Af, Bv)):
        i = ip.var_of(st, i)
        out = []
        for s, x in ip.branch(st, ip.compare(st, "Lt", i, v.len, 64, False)):
            out.append((s, Ref(v.root, v.path + (("i", ip.sum(v.off, i)),)) if x else "panic"))
        return out
    if not isinstance(i, Ag):
        return None
    kind = str(i.k).split("::")[-1]
    zero = K(0)
    if kind == "Range":
        lo, hi = i.f
    elif kind == "RangeTo":
        lo, hi = zero, i.f[0]
    elif kind == "RangeFrom":
        lo, hi = i.f[0], v.len
    elif kind == "RangeFull":
        lo, hi = zero, v.len
    elif kind == "RangeToInclusive":
        lo, hi = zero, ip.plus(ip.var_of(st, i.f[0]), 1)
    else:
        return None
    lo, hi = ip.var_of(st, lo), ip.var_of(st, hi)
    out = []
    bad = NONE if option else "panic"
    for s, x in ip.branch(st, ip.compare(st, "Le", lo, hi, 64, False)):
        if not x:
            out.append((s, bad))
            continue
        for s2, y in ip.branch(s, ip.compare(s, "Le", hi, v.len, 64, False)):
            if not y:
                out.append((s2, bad))
                continue
            n = Af(64, False, *lin_add((hi.c, hi.t), 1, (lo.c, lo.t), -1))
            r = Sl(v.root, v.path, ip.sum(v.off, lo), n)
            out.append((s2, Some(r) if option else r))
    return out


def iter_next(ip, st, c, a):
    r = a[0]
    if not isinstance(r, Ref):
        return None
    it = ip.read(st, r.root, r.path)
    if not isinstance(it, Ag):
        return None
    if it.k == RANGE:
        lo, hi = it.f
        w, sg = lo.w, lo.sg
        out = []
        for s, x in ip.branch(st, ip.compare(st, "Lt", lo, hi, w, sg)):
            if x:
                for s2, v, o in ip.arith(s, "Add", lo, Af(w, sg, 1), w, sg):
                    ip.write(s2, r.root, r.path, Ag(it.k, 0, (v, hi)))
                    out.append((s2, Some(lo)))
            else:
                out.append((s, NONE))
        return out
    if it.k == "stepby" and isinstance(it.f[0], Ag) and it.f[0].k == RANGE:
        lo, hi = it.f[0].f
        w, sg = lo.w, lo.sg
        out = []
        for s, x in ip.branch(st, ip.compare(st, "Lt", lo, hi, w, sg)):
            if x:
                for s2, v, o in ip.arith(s, "Add", lo, Af(w, sg, it.f[1].c), w, sg):
                    ip.write(s2, r.root, r.path, Ag("stepby", 0, (Ag(RANGE, 0, (v if not o else hi, hi)), it.f[1])))
                    out.append((s2, Some(lo)))
            else:
                out.append((s, NONE))
        return out
    if it.k == "zip":
        out = []
        for s, v in ip.next_of(st, Ref(r.root, r.path + (0,)), it.f[2].args[0]):
            if v == "panic" or v.v == 0:
                out.append((s, v))
                continue
            for s2, w in ip.next_of(s, Ref(r.root, r.path + (1,)), it.f[2].args[1]):
                out.append((s2, Some(Ag("tuple", 0, (v.f[0], w.f[0]))) if w != "panic" and w.v == 1 else w))
        return out
    if it.k == "cloned":
        out = []
        for s, v in ip.next_of(st, Ref(r.root, r.path + (0,)), it.f[1].args[0]):
            if v != "panic" and v.v == 1 and isinstance(v.f[0], Ref):
                v = Some(ip.read(s, v.f[0].root, v.f[0].path))
            out.append((s, v))
        return out
    if it.k == "enum":
        out = []
        for s, v in ip.next_of(st, Ref(r.root, r.path + (0,)), it.f[2].args[0]):
            if v != "panic" and v.v == 1:
                n = ip.read(s, r.root, r.path + (1,))
                ip.write(s, r.root, r.path + (1,), ip.plus(n, 1))
                v = Some(Ag("tuple", 0, (n, v.f[0])))
            out.append((s, v))
        return out
    if it.k == "rev" and it.f[0].k == RANGE:
        lo, hi = it.f[0].f
        out = []
        for s, x in ip.branch(st, ip.compare(st, "Lt", lo, hi, lo.w, lo.sg)):
            if x:
                v = ip.plus(hi, -1)
                ip.write(s, r.root, r.path, Ag("rev", 0, (Ag(RANGE, 0, (lo, v)),)))
                out.append((s, Some(v)))
            else:
                out.append((s, NONE))
        return out
    if it.k == "rev" and it.f[0].k == "iter":
        sl, pos = it.f[0].f
        out = []
        for s, x in ip.branch(st, ip.compare(st, "Lt", pos, sl.len, 64, False)):
            if x:
                n = ip.plus(sl.len, -1)
                ip.write(s, r.root, r.path, Ag("rev", 0, (Ag("iter", 0, (Sl(sl.root, sl.path, sl.off, n), pos)),)))
                out.append((s, Some(Ref(sl.root, sl.path + (("i", ip.sum(sl.off, n)),)))))
            else:
                out.append((s, NONE))
        return out
    if it.k == "iter":
        sl, pos = it.f
        out = []
        for s, x in ip.branch(st, ip.compare(st, "Lt", pos, sl.len, 64, False)):
            if x:
                ip.write(s, r.root, r.path, Ag("iter", 0, (sl, ip.plus(pos, 1))))
                out.append((s, Some(Ref(sl.root, sl.path + (("i", ip.sum(sl.off, pos)),)))))
            else:
                out.append((s, NONE))
        return out
    return None
