"""Trace-partitioned abstract interpretation of MIR over the value-numbering
domain of terms.py.

A body is interpreted forward over its control-flow graph.  Branches whose
condition is decided by the facts of the path are not forked; loops are cut at
their header, where everything that the loop body may write is forgotten, so
the number of partitions is finite.  Nothing is executed and no solver is
involved: the facts are equalities, disequalities and single linear bounds."""
import sys
from terms import *

sys.setrecursionlimit(20000)


class Limit(Exception):
    pass


class Frame:
    __slots__ = ("body", "sub", "fid", "dest", "target", "span", "tag")

    def __init__(s, body, sub, fid, dest, target, span, tag=None):
        s.body, s.sub, s.fid, s.dest, s.target, s.span, s.tag = body, sub, fid, dest, target, span, tag


class State:
    __slots__ = ("mem", "eq", "ne", "lins", "ev", "nev", "frames", "bb", "active", "extra")

    def copy(s):
        n = State.__new__(State)
        n.mem = dict(s.mem)
        n.eq = dict(s.eq)
        n.ne = dict(s.ne)
        n.lins = s.lins
        n.ev = s.ev
        n.nev = s.nev
        n.frames = s.frames
        n.bb = s.bb
        n.active = s.active
        n.extra = s.extra
        return n

    def event(s, *e):
        s.ev = (s.ev, e)
        s.nev += 1

    def events(s):
        out = []
        e = s.ev
        while e is not None:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out

    # ---- facts -----------------------------------------------------------
    def value(s, t):
        """Concrete value of an integer/boolean term under the facts, or None"""
        if t.a[0] == "i":
            return t.a[1]
        v = s.eq.get(t)
        if v is not None:
            return v
        if t.a[0] == "not":
            v = s.value(t.a[1])
            return None if v is None else 1 - v
        if t.a[0] == "lt0":
            return s.lin_truth(t.a[1])
        if t.a[0] == "eq0":
            return s.eq_truth(t.a[1])
        if t.a[0] == "eq":
            # discriminants decide
            return None
        if t.a[0] == "lin":
            c = t.a[1]
            for at, k in t.a[2]:
                v = s.eq.get(at)
                if v is None:
                    lo, hi = s.bounds(at)
                    if lo is None or lo != hi:
                        return None
                    v = lo
                c += k * v
            return c
        if t.a[0] in ("band", "bor", "bxor", "shr"):
            x, y = s.value(t.a[1]), s.value(t.a[2])
            if x is not None and y is not None:
                return {"band": x & y, "bor": x | y, "bxor": x ^ y, "shr": x >> y}[t.a[0]]
            if t.a[0] == "band" and (x == 0 or y == 0):
                return 0
            if isbool(t.a[1]) and isbool(t.a[2]) and t.a[0] == "bor" and (x == 1 or y == 1):
                return 1
        return None

    def bounds(s, at):
        v = s.eq.get(at)
        if v is not None:
            return v, v
        lo, hi = minval(at), maxval(at)
        for (l, c) in s.lins:
            # l + c < 0 known, where l is the variable part
            if len(l) == 1 and l[0][0] is at:
                k = l[0][1]
                if k == 1:
                    hi = -c - 1 if hi is None else min(hi, -c - 1)
                elif k == -1:
                    lo = c + 1 if lo is None else max(lo, c + 1)
        nes = s.ne.get(at)
        if nes:
            while lo is not None and lo in nes:
                lo += 1
            while hi is not None and hi in nes:
                hi -= 1
        return lo, hi

    def interval(s, l):
        c, it = lin_of(l)
        lo = hi = c
        for at, k in it:
            a, b = s.bounds(at)
            if k < 0:
                a, b = b, a
            lo = None if lo is None or a is None else lo + a * k
            hi = None if hi is None or b is None else hi + b * k
        return lo, hi

    def lin_truth(s, l):
        c, it = lin_of(l)
        for (v, k) in s.lins:
            if v == it and c <= k:
                return 1
        nit = tuple((a, -b) for a, b in it)
        for (v, k) in s.lins:
            # -V + k < 0  => V >= k+1 ; V + c >= k+1+c
            if v == nit and k + 1 + c >= 0:
                return 0
        lo, hi = s.interval(l)
        if hi is not None and hi < 0:
            return 1
        if lo is not None and lo >= 0:
            return 0
        # one combination step with a known bound
        for (v, k) in s.lins:
            # known: v + k <= -1 ; want (it + c) < 0: it + c = (it - v) + (c - k) + (v + k) <= (it - v) + c - k - 1
            r = _comb(it, v, -1)
            if len(r) < len(it) + len(v):
                hi2 = s._hi(r, c - k - 1)
                if hi2 is not None and hi2 < 0:
                    return 1
            # want it + c >= 0 : it + c = (it + v) + (c+k) - (v + k) >= (it+v) + c + k + 1
            r = _comb(it, v, 1)
            if len(r) < len(it) + len(v):
                lo2 = s._lo(r, c + k + 1)
                if lo2 is not None and lo2 >= 0:
                    return 0
        return None

    def _hi(s, d, c):
        for at, k in d.items():
            a, b = s.bounds(at)
            v = b if k > 0 else a
            if v is None:
                return None
            c += v * k
        return c

    def _lo(s, d, c):
        for at, k in d.items():
            a, b = s.bounds(at)
            v = a if k > 0 else b
            if v is None:
                return None
            c += v * k
        return c

    def eq_truth(s, l):
        c, it = lin_of(l)
        if len(it) == 1 and it[0][1] == 1:
            t = it[0][0]
            v = s.value(t)
            if v is not None:
                return 1 if v == -c else 0
            if -c in s.ne.get(t, ()):
                return 0
        v = s.value(l)
        if v is not None:
            return 1 if v == 0 else 0
        k = s.eq.get(mk("eq0", l))
        if k is not None:
            return k
        lo, hi = s.interval(l)
        if lo is not None and lo > 0 or hi is not None and hi < 0:
            return 0
        if lo == 0 and hi == 0:
            return 1
        if s.lin_truth_basic(l) == 1 or s.lin_truth_basic(neg(l)) == 1:
            return 0
        return None

    def lin_truth_basic(s, l):
        c, it = lin_of(l)
        for (v, k) in s.lins:
            if v == it and c <= k:
                return 1
        return None

    def assume(s, t, v):
        """Adds the fact t == v. False when the path is contradictory."""
        cur = s.value(t)
        if cur is not None:
            return cur == v
        if t.a[0] == "not":
            return s.assume(t.a[1], 1 - v)
        if v in s.ne.get(t, ()):
            return False
        if t.a[0] == "lt0":
            l = t.a[1] if v else sub(I(-1), t.a[1])
            c, it = lin_of(l)
            s.lins = s.lins + ((it, c),)
            s.eq[t] = v
            return True
        if t.a[0] == "eq0":
            c, it = lin_of(t.a[1])
            s.eq[t] = v
            if len(it) == 1 and it[0][1] == 1:
                if v:
                    return s.assume(it[0][0], -c)
                s.ne[it[0][0]] = s.ne.get(it[0][0], frozenset()) | {-c}
            elif v:
                s.lins = s.lins + ((it, c - 1), (tuple((a, -k) for a, k in it), -c - 1))
            return True
        if t.a[0] == "lin" and len(t.a[2]) == 1:
            at, k = t.a[2][0]
            if (v - t.a[1]) % k:
                return False
            return s.assume(at, (v - t.a[1]) // k)
        if t.a[0] == "band" and v == 1 and isbool(t.a[1]) and isbool(t.a[2]):
            s.eq[t] = v
            return s.assume(t.a[1], 1) and s.assume(t.a[2], 1)
        if t.a[0] == "bor" and v == 0 and isbool(t.a[1]) and isbool(t.a[2]):
            s.eq[t] = v
            return s.assume(t.a[1], 0) and s.assume(t.a[2], 0)
        lo, hi = (None, None)
        if t.a[0] not in ("discr",):
            lo, hi = s.bounds(t)
            if lo is not None and v < lo or hi is not None and v > hi:
                return False
        s.eq[t] = v
        return True

    def assume_ne(s, t, v):
        cur = s.value(t)
        if cur is not None:
            return cur != v
        if isbool(t) or t.a[0] in ("bool",):
            return s.assume(t, 1 - v)
        s.ne[t] = s.ne.get(t, frozenset()) | {v}
        mx = maxval(t)
        if mx is not None and mx < 16:
            rest = [x for x in (DISCR.get(t) or range(minval(t) or 0, mx + 1)) if x not in s.ne[t]]
            if not rest:
                return False
            if len(rest) == 1:
                return s.assume(t, rest[0])
        return True

    def truth(s, t):
        return s.value(t)


def _comb(it, v, k):
    d = {a: b for a, b in it}
    for a, b in v:
        d[a] = d.get(a, 0) + k * b
        if d[a] == 0:
            del d[a]
    return d


class Trace:
    __slots__ = ("kind", "st", "val", "at")

    def __init__(s, kind, st, val=None, at=None):
        s.kind, s.st, s.val, s.at = kind, st, val, at


_cfg_cache = {}


def cfg(body):
    c = _cfg_cache.get(id(body))
    if c is not None:
        return c
    n = len(body["blocks"])
    succ = []
    for b in body["blocks"]:
        t = b["t"]
        if t[0] == "goto":
            s = [t[1]]
        elif t[0] == "switch":
            s = [x[1] for x in t[2]] + [t[3]]
        elif t[0] == "call":
            s = [t[4]] if t[4] >= 0 else []
        elif t[0] in ("drop", "assert"):
            s = [t[2] if t[0] == "drop" else t[4]]
        else:
            s = []
        succ.append(s)
    # reachable + dominators
    order, seen = [], set()
    stack = [(0, iter(succ[0]))]
    seen.add(0)
    while stack:
        b, it = stack[-1]
        for x in it:
            if x not in seen:
                seen.add(x)
                stack.append((x, iter(succ[x])))
                break
        else:
            order.append(b)
            stack.pop()
    order.reverse()
    idx = {b: i for i, b in enumerate(order)}
    preds = {b: [] for b in order}
    for b in order:
        for x in succ[b]:
            preds[x].append(b)
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        a, c2 = p, new
                        while a != c2:
                            while idx[a] > idx[c2]:
                                a = idom[a]
                            while idx[c2] > idx[a]:
                                c2 = idom[c2]
                        new = a
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]

    loops = {}
    for b in order:
        for h in succ[b]:
            if dom(h, b):
                body_set = loops.setdefault(h, {h})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body_set:
                        body_set.add(x)
                        st.extend(preds[x])
    c = dict(succ=succ, preds=preds, idom=idom, loops=loops, dom=dom, order=order)
    _cfg_cache[id(body)] = c
    return c


OPTION = "core::option::Option"
RESULT = "core::result::Result"
CFLOW = "core::ops::control_flow::ControlFlow"


def agg(kind, v, *fs):
    return mk("agg", kind, v, tuple(fs))


def some(x):
    return agg(("adt", OPTION), 1, x)


NONE = agg(("adt", OPTION), 0)


def ok(x):
    return agg(("adt", RESULT), 0, x)


def err(x):
    return agg(("adt", RESULT), 1, x)


def tup(*xs):
    return agg("tuple", 0, *xs)


class Call:
    """A call site with its resolved callee and abstract arguments"""
    __slots__ = ("name", "nm", "trait", "self_ty", "targs", "args", "argtys", "retty", "body", "sub", "span", "fn",
                 "ctor", "unsafe", "path", "frame", "dest", "tyargs")


class Interp:
    def __init__(self, prog, models=None, policy=None, max_traces=4000, max_steps=400000, max_depth=24, unroll=0):
        self.unroll = unroll
        self.p = prog
        self.models = models or []
        self.policy = policy or (lambda c, st, interp: False)
        self.max_traces = max_traces
        self.max_steps = max_steps
        self.max_depth = max_depth
        self.fid = 0
        self.collecting = None
        self.unmodeled = {}
        self.inlined = set()
        self.record_reads = False

    # ---- entry -----------------------------------------------------------
    def run(self, body, args=None, sub=None, pre=None):
        st = State()
        st.mem, st.eq, st.ne, st.lins, st.ev, st.nev = {}, {}, {}, (), None, 0
        st.active = ()
        st.extra = None
        self.fid += 1
        fr = Frame(body, sub or {}, self.fid, None, None, body["span"])
        st.frames = (fr,)
        st.bb = 0
        self.steps = 0
        for i in range(body["argc"]):
            t = args[i] if args is not None and args[i] is not None else mk("arg", i)
            ty = self.p.subst(self.p.ty(body["locals"][i + 1][0]), fr.sub)
            self.note_ty(t, ty)
            st.mem[("L", fr.fid, i + 1)] = t
        if pre:
            pre(st)
        return self.explore([st])

    def note_ty(self, t, ty):
        if ty is None:
            return
        if ty[0] == "int":
            set_width(t, ty[1], ty[2])
        elif ty[0] == "bool":
            set_width(t, 1, False)
        elif ty[0] == "char":
            set_width(t, 32, False)

    def explore(self, states, stop=None):
        out = []
        work = list(states)
        while work:
            st = work.pop()
            res = self.step_block(st, out, stop)
            work.extend(reversed(res))
            if len(out) > self.max_traces:
                raise Limit("too many paths")
        return out

    # ---- places ----------------------------------------------------------
    def fld_ty(self, ty, i, variant=None):
        if ty is None:
            return None
        if ty[0] == "tuple":
            return ty[1][i] if i < len(ty[1]) else None
        if ty[0] == "adt":
            if ty[1] == OPTION:
                return ty[2][0]
            if ty[1] == RESULT:
                return ty[2][variant or 0]
            a = self.p.adts.get(ty[1])
            if a is None or not a["local"]:
                return None
            fs = a["v"][variant or 0]["f"]
            if i >= len(fs) or fs[i][1] < 0:
                return None
            return self.p.subst(self.p.ty(fs[i][1]), dict(zip(a["gen"], ty[2])))
        if ty[0] == "closure":
            return None
        return None

    def place(self, st, pl):
        """-> (root, path, type)"""
        fr = st.frames[-1]
        root = ("L", fr.fid, pl[0])
        path = ()
        ty = self.p.subst(self.p.ty(fr.body["locals"][pl[0]][0]), fr.sub)
        variant = None
        for e in pl[1]:
            if e == "*":
                v = self.read(st, root, path, ty)
                ety = ty[2] if ty and ty[0] in ("ref", "ptr") else None
                root, path = self.deref(v)
                ty = ety
            elif e == "?":
                pass
            elif e[0] == "f":
                nty = self.fld_ty(ty, e[1], variant)
                k = None
                if ty is not None:
                    k = ty[1] if ty[0] == "adt" else ty[0]
                path = path + (("f", e[1], k),)
                ty = nty
                variant = None
            elif e[0] == "v":
                path = path + (("v", e[1]),)
                variant = e[1]
            elif e[0] == "i":
                iv = self.read(st, ("L", fr.fid, e[1]), (), None)
                path = path + (("x", iv),)
                ty = ty[1] if ty and ty[0] in ("array", "slice") else None
            elif e[0] == "ci":
                path = path + (("x", I(e[1])) if not e[3] else ("xe", I(e[1])),)
                ty = ty[1] if ty and ty[0] in ("array", "slice") else None
            elif e[0] == "ss":
                path = path + (("ss", e[1], e[2], e[3]),)
        return root, path, ty

    def deref(self, v):
        if v.a[0] == "ref":
            return v.a[1], v.a[2]
        return ("P", v), ()

    def base_of(self, st, root):
        v = st.mem.get(root)
        if v is not None:
            return v
        if root[0] == "P":
            t = root[1]
            if t.a[0] == "&":
                return t.a[1]
            return mk("deref", t)
        return mk("undef", root[0], root[2] if len(root) > 2 else 0)

    def read(self, st, root, path, ty):
        v = self.base_of(st, root)
        for e in path:
            v = self.walk(v, e, st)
        self.note_ty(v, ty)
        return v

    def walk(self, v, e, st=None):
        op = v.a[0]
        if op == "upd":
            if v.a[2] == e:
                return v.a[3]
            return self.walk(v.a[1], e, st)
        if e[0] == "v":
            if op == "agg":
                return v
            return mk("as", v, e[1])
        if e[0] == "f":
            if op == "agg":
                fs = v.a[3]
                return fs[e[1]] if e[1] < len(fs) else mk("bot")
            if op == "as":
                return mk("vf", v.a[1], v.a[2], e[1])
            return mk("fld", v, e[1], e[2])
        if e[0] == "x":
            if op == "agg" and is_int(e[1]) and v.a[1] == "array" and e[1].a[1] < len(v.a[3]):
                return v.a[3][e[1].a[1]]
            if op == "rep":
                return v.a[1]
            if op == "bytes" and is_int(e[1]) and e[1].a[1] < len(v.a[1]):
                return I(v.a[1][e[1].a[1]])
            return mk_idx(v, e[1])
        if e[0] == "xe":
            return mk("idxe", v, e[1])
        return mk("sub", v, *e[1:])

    def write(self, st, root, path, val):
        if self.collecting is not None:
            self.collecting.append((root, path, st.frames[-1].fid))
        if root[0] == "P" and (root not in st.mem or True):
            st.event("w", root, path, val)
        if not path:
            st.mem[root] = val
        else:
            st.mem[root] = self.update(self.base_of(st, root), path, val)

    def update(self, t, path, val):
        if not path:
            return val
        e = path[0]
        op = t.a[0]
        if e[0] == "v":
            if op == "agg":
                return self.update(t, path[1:], val)
            inner = self.update(mk("as", t, e[1]), path[1:], val)
            return mk("upd", t, e, inner)
        if e[0] == "f":
            if op == "agg" and e[1] < len(t.a[3]):
                fs = list(t.a[3])
                fs[e[1]] = self.update(fs[e[1]], path[1:], val)
                return self.mk_agg(t.a[1], t.a[2], fs)
            n = self.nfields(e[2])
            if n is not None and op not in ("as", "upd"):
                fs = [self.walk(t, ("f", i, e[2])) for i in range(n)]
                fs[e[1]] = self.update(fs[e[1]], path[1:], val)
                return self.mk_agg(("adt", e[2]), 0, fs)
            return mk("upd", t, e, self.update(self.walk(t, e), path[1:], val))
        if e[0] == "x" and op == "agg" and is_int(e[1]) and e[1].a[1] < len(t.a[3]):
            fs = list(t.a[3])
            fs[e[1].a[1]] = self.update(fs[e[1].a[1]], path[1:], val)
            return mk("agg", t.a[1], t.a[2], tuple(fs))
        return mk("upd", t, e, self.update(self.walk(t, e), path[1:], val))

    def nfields(self, key):
        a = self.p.adts.get(key)
        if a is None or a["kind"] != "struct":
            return None
        return len(a["v"][0]["f"])

    def mk_agg(self, kind, v, fs):
        # eta: rebuilding all fields of one base
        if fs and isinstance(kind, tuple) and kind[0] == "adt":
            b = None
            f0 = fs[0].a
            if f0[0] == "fld" and f0[3] == kind[1] and self.nfields(kind[1]) == len(fs):
                b = f0[1]
                if all(f.a[0] == "fld" and f.a[1] is b and f.a[2] == i and f.a[3] == kind[1] for i, f in enumerate(fs)):
                    return b
            if f0[0] == "vf" and f0[2] == v:
                b = f0[1]
                if all(f.a[0] == "vf" and f.a[1] is b and f.a[2] == v and f.a[3] == i for i, f in enumerate(fs)):
                    return b
        if kind == "tuple" and fs and fs[0].a[0] == "fld" and fs[0].a[3] == "tuple":
            pass
        return mk("agg", kind, v, tuple(fs))

    # ---- operands --------------------------------------------------------
    def operand(self, st, o):
        if "c" in o or "m" in o:
            r, p, ty = self.place(st, o.get("c") or o.get("m"))
            v = self.read(st, r, p, ty)
            # a fact may pin the value
            return v
        k = o.get("k")
        if k is None:
            return FALSE  # runtime checks are off
        return self.const(st, k)

    def const(self, st, k):
        ty = self.p.subst(self.p.ty(k["t"]), st.frames[-1].sub)
        if "fn" in k:
            f = k["fn"]
            return mk("fn", (f.get("r") or f)["p"], FnRef(f, st.frames[-1].sub))
        if "promoted" in k:
            key = tuple(k["promoted"])
            return self.promoted(key, st)
        if "v" in k:
            t = I(int(k["v"]))
            if ty[0] == "adt":
                # scalar-layout struct / enum constant
                return self.adt_scalar(ty, int(k["v"]))
            return t
        if k.get("zst"):
            if ty[0] == "tuple":
                return UNIT
            if ty[0] == "adt":
                return self.mk_agg(("adt", ty[1]), 0, [])
            return mk("zst", self.p.tystr(ty))
        if "rb" in k:
            return mk("&", mk("bytes", bytes.fromhex(k["rb"])))
        if "sb" in k:
            return mk("&", mk("bytes", bytes.fromhex(k["sb"])))
        if "ib" in k:
            return self.adt_bytes(ty, bytes.fromhex(k["ib"]))
        if "sym" in k:
            args = tuple(self.p.subst(self.p.garg(a), st.frames[-1].sub) for a in k.get("sa", ()))
            v = self.assoc_const(k["sym"], args)
            if v is not None:
                return v
            t = mk("const", k["sym"], args)
            self.note_ty(t, ty)
            return t
        if "tc" in k:
            v = st.frames[-1].sub.get(k["tc"])
            if v is not None and v[0] == "n":
                return I(v[1])
            t = mk("cparam", k["tc"])
            self.note_ty(t, ty)
            return t
        t = mk("const", "?", self.p.tystr(ty), str(sorted(k.items()))[:80])
        self.note_ty(t, ty)
        return t

    def assoc_const(self, sym, args):
        """A trait constant for concrete generic arguments"""
        nm = sym.rsplit("::", 1)[-1]
        trait = sym.rsplit("::", 1)[0]
        if trait in self.p.trait_impls and args and args[0][0] not in ("param", "other"):
            fi = self.p.find_impl(trait, args[0], args)
            if fi:
                c = self.p.const_by_impl.get((fi[0]["id"], nm))
                if c is not None:
                    return self.const_rec(c, fi[1])
        return None

    def const_rec(self, c, sub):
        ty = self.p.subst(self.p.ty(c["t"]), sub)
        if "v" in c:
            return I(int(c["v"])) if ty[0] != "adt" else self.adt_scalar(ty, int(c["v"]))
        if "body" in c:
            it = Interp(self.p, self.models, self.policy, 50, 20000)
            try:
                tr = it.run(c["body"], sub=sub)
            except Limit:
                return None
            tr = [t for t in tr if t.kind == "ret"]
            if len(tr) == 1:
                return tr[0].val
        if "rb" in c or "sb" in c:
            return mk("&", mk("bytes", bytes.fromhex(c.get("rb") or c.get("sb"))))
        if "ib" in c:
            return self.adt_bytes(ty, bytes.fromhex(c["ib"]))
        return None

    def adt_scalar(self, ty, v):
        a = self.p.adts.get(ty[1])
        if a is None:
            return mk("sc", ty[1], v)
        if a["kind"] == "struct" and a["local"]:
            fs = a["v"][0]["f"]
            if len(fs) == 1:
                fty = self.fld_ty(ty, 0)
                inner = self.adt_scalar(fty, v) if fty and fty[0] == "adt" else I(v)
                return self.mk_agg(("adt", ty[1]), 0, [inner])
        if a["kind"] == "enum" and all(not x["f"] for x in a["v"]):
            for i, x in enumerate(a["v"]):
                if int(x["d"]) == v or (int(x["d"]) & 0xffffffff) == v & 0xffffffff:
                    return mk("agg", ("adt", ty[1]), i, ())
        return mk("sc", ty[1], v)

    def adt_bytes(self, ty, bs):
        if ty[0] == "array" and ty[1] == ("int", 8, False):
            return mk("bytes", bs)
        if ty[0] == "adt":
            a = self.p.adts.get(ty[1])
            if a and a["kind"] == "struct" and a["local"] and len(a["v"][0]["f"]) == 1:
                fty = self.fld_ty(ty, 0)
                if fty:
                    return self.mk_agg(("adt", ty[1]), 0, [self.adt_bytes(fty, bs)])
        if not any(bs):
            z = self.zeroed(ty)
            if z is not None:
                return z
        return mk("cb", self.p.tystr(ty), bs)

    def zeroed(self, ty):
        """The value of a type whose representation is all zero bytes"""
        if ty[0] in ("int", "bool"):
            return I(0)
        if ty[0] == "array":
            if ty[1] == ("int", 8, False):
                return mk("bytes", b"\0" * ty[2]) if isinstance(ty[2], int) and ty[2] <= 1024 else None
            return None
        if ty[0] == "tuple" and not ty[1]:
            return UNIT
        if ty[0] == "adt":
            if ty[1] == "core::option::Option":
                t = ty[2][0]
                if t[0] in ("int", "ref") or t[0] == "adt" and (t[1].endswith("::Cell") or t[1].split("::")[-1] in ("Arc", "Box", "Rc")):
                    return mk("agg", ("adt", ty[1]), 0, ())
                return None
            a = self.p.adts.get(ty[1])
            if a and a["kind"] == "struct":
                fs = [self.zeroed(self.fld_ty(ty, i)) if self.fld_ty(ty, i) else None for i in range(len(a["v"][0]["f"]))]
                if any(f is None for f in fs):
                    return None
                return self.mk_agg(("adt", ty[1]), 0, fs)
        return None

    def promoted(self, key, st):
        b = self.p.promoted.get(key)
        if b is None:
            return mk("promoted", *key)
        it = Interp(self.p, self.models, self.policy, 10, 5000)
        it.fid = 10_000_000 + key[1]
        try:
            tr = it.run(b, sub=st.frames[-1].sub)
        except Limit:
            tr = []
        if len(tr) == 1 and tr[0].kind == "ret":
            return it.freeze(tr[0].st, tr[0].val)
        return mk("promoted", *key)

    def freeze(self, st, v, depth=0):
        """Replaces references by their contents"""
        if not isinstance(v, Term):
            if isinstance(v, tuple) and any(isinstance(x, (Term, tuple)) for x in v):
                return tuple(self.freeze(st, x, depth) for x in v)
            return v
        op = v.a[0]
        if op in ("i", "arg", "bytes", "fn", "const", "hv"):
            return v
        if depth > 6:
            return v
        if op == "ref":
            c = self.read(st, v.a[1], v.a[2], None)
            c = self.freeze(st, c, depth + 1)
            if c.a[0] == "deref":
                return c.a[1]
            return mk("&", c)
        if op == "agg":
            fs = tuple(self.freeze(st, x, depth) for x in v.a[3])
            return v if fs == v.a[3] else self.mk_agg(v.a[1], v.a[2], list(fs))
        if has_ref(v):
            return mk(*[self.freeze(st, x, depth) if isinstance(x, (Term, tuple)) else x for x in v.a])
        if st is not None and ("P", v) in st.mem:
            return mk("&", self.freeze(st, st.mem[("P", v)], depth + 1))
        return v

    # ---- rvalues ---------------------------------------------------------
    def rvalue(self, st, rv, dty):
        k = rv[0]
        if k == "use":
            return self.operand(st, rv[1])
        if k in ("ref", "raw"):
            r, p, ty = self.place(st, rv[2])
            if r[0] == "P" and not p and r not in st.mem:
                return r[1]  # reborrow of an opaque pointer
            return mk("ref", r, p, bool(rv[1]))
        if k == "cast":
            v = self.operand(st, rv[2])
            return self.cast(rv[1], v, self.p.subst(self.p.ty(rv[3]), st.frames[-1].sub),
                             self.p.subst(self.p.ty(rv[4]), st.frames[-1].sub), st)
        if k == "bin":
            a, b = self.operand(st, rv[2]), self.operand(st, rv[3])
            return self.binop(st, rv[1], a, b, self.p.subst(self.p.ty(rv[4]), st.frames[-1].sub))
        if k == "un":
            a = self.operand(st, rv[2])
            if rv[1] == "Not":
                ty = self.p.subst(self.p.ty(rv[3]), st.frames[-1].sub)
                if ty[0] == "bool":
                    self.note_ty(a, ty)
                    return lnot(a)
                if is_int(a) and ty[0] == "int":
                    return trunc(I(~a.a[1]), ty[1], ty[2])
                r = mk("inv", a, ty[1] if ty[0] == "int" else 0)
                self.note_ty(r, ty)
                return r
            if rv[1] == "Neg":
                return neg(a)
            if rv[1] == "PtrMetadata":
                return self.length(st, a)
            return mk("un", rv[1], a)
        if k == "discr":
            r, p, ty = self.place(st, rv[1])
            v = self.read(st, r, p, ty)
            return self.discr(st, v, ty)
        if k == "agg":
            kind = rv[1]
            fs = [self.operand(st, o) for o in rv[2]]
            if kind[0] == "adt":
                return self.mk_agg(("adt", kind[1]), kind[2], fs) if kind[4] < 0 else mk("union", kind[1], kind[4], fs[0])
            if kind[0] == "closure":
                return mk("agg", ("closure", kind[1], SubRef.of(st.frames[-1].sub)), 0, tuple(fs))
            if kind[0] == "array":
                return mk("agg", "array", 0, tuple(fs))
            if kind[0] == "rawptr":
                return mk("rawptr", *fs)
            return mk("agg", kind[0], 0, tuple(fs))
        if k == "repeat":
            v = self.operand(st, rv[1])
            n = rv[2]
            if isinstance(n, int) and n <= 8:
                return mk("agg", "array", 0, (v,) * n)
            if isinstance(n, str):
                s = st.frames[-1].sub.get(n)
                n = s[1] if s and s[0] == "n" else n
            return mk("rep", v, n)
        return mk("rv", str(rv)[:60])

    def length(self, st, v):
        c = v
        if v.a[0] == "ref":
            c = self.read(st, v.a[1], v.a[2], None)
        elif v.a[0] == "&":
            c = v.a[1]
        else:
            m = st.mem.get(("P", v))
            c = m if m is not None else mk("deref", v)
        return self.len_of(c)

    def len_of(self, c):
        if c.a[0] == "bytes":
            return I(len(c.a[1]))
        if c.a[0] == "agg" and c.a[1] == "array":
            return I(len(c.a[3]))
        if c.a[0] == "rep" and isinstance(c.a[2], int):
            return I(c.a[2])
        if c.a[0] == "upd":
            return self.len_of(c.a[1])
        if c.a[0] == "range":
            return sub(c.a[3], c.a[2])
        if c.a[0] == "arr":
            return c.a[1]
        t = mk("len", c)
        set_width(t, 63, False)
        return t

    def discr(self, st, v, ty):
        if v.a[0] == "agg" and isinstance(v.a[1], tuple) and v.a[1][0] == "adt":
            return I(self.p.variant_discr(v.a[1][1], v.a[2]))
        if v.a[0] == "sc":
            return I(v.a[2])
        if v.a[0] == "upd":
            return self.discr(st, v.a[1], ty)
        return mk_discr(v, self.discr_dom(ty))

    def discr_dom(self, ty):
        if ty is None or ty[0] != "adt":
            return None
        rec = self.p.adts.get(ty[1])
        if rec is None or rec["kind"] != "enum":
            return None
        return tuple(sorted(self.p.variant_discr(ty[1], i) for i in range(len(rec["v"]))))

    def cast(self, kind, v, ty, sty, st):
        if kind == "BoxDerefTransmute":
            while v.a[0] == "fld" and len(v.a) > 3 and str(v.a[3]).split("::")[-1] in ("Unique", "NonNull", "Box"):
                v = v.a[1]
            return mk("&", v.a[2] if v.a[0] == "box" else v)
        if kind in ("IntToInt",):
            if sty[0] == "adt":  # enum
                return self.discr(st, v, sty)
            self.note_ty(v, sty)
            if ty[0] == "char":
                return v
            if ty[0] != "int":
                return mk("cast", kind, v)
            w, sg = ty[1], ty[2]
            if sty[0] == "int" and not sty[2] and sty[1] <= w - (1 if sg else 0):
                if v.a[0] in ("inv",):
                    return mk("tr", sty[1], False, v)
                return v
            if sty[0] == "int" and sty[2] == sg and sty[1] <= w:
                return v
            if sty[0] in ("bool", "char"):
                return v
            if v.a[0] == "discr":
                return v
            return trunc(v, w, sg)
        if kind.startswith("PointerCoercion") or kind.startswith("PtrToPtr") or kind == "Transmute" or kind.startswith("Subtype"):
            if "ReifyFnPointer" in kind or "ClosureFnPointer" in kind:
                return v
            if ty[0] == "int" and sty[0] == "int":
                if sty[1] == ty[1]:
                    return trunc(v, ty[1], ty[2])
            if kind == "Transmute" and not (ty[0] in ("ref", "ptr") and sty[0] in ("ref", "ptr")):
                if ty == sty:
                    return v
                return mk("transmute", self.p.tystr(ty), v)
            return v
        return mk("cast", kind, v)

    def binop(self, st, op, a, b, ty):
        op = op.replace("WithOverflow", "").replace("Unchecked", "")
        if ty[0] in ("int", "bool", "char"):
            self.note_ty(a, ty)
            if op not in ("Shl", "Shr"):
                self.note_ty(b, ty)
        pa, pb = st.eq.get(a), st.eq.get(b)
        if op == "Add":
            return add(a, b)
        if op == "Sub":
            return sub(a, b)
        if op == "Mul":
            return mul(a, b)
        if op in ("BitAnd",):
            if ty[0] == "bool":
                return self.bool2("band", a, b)
            return band(a, b)
        if op == "BitOr":
            if ty[0] == "bool":
                return self.bool2("bor", a, b)
            return bor(a, b)
        if op == "BitXor":
            return bxor(a, b)
        if op == "Shl":
            if ty[0] == "int" and is_int(a) and is_int(b):
                return trunc(I(a.a[1] << b.a[1]), ty[1], ty[2])
            r = shl(a, b)
            if ty[0] == "int":
                mx = maxval(r)
                if is_int(b) and (mx is None or mx >= (1 << (ty[1] - (1 if ty[2] else 0)))):
                    return trunc(r, ty[1], ty[2])
                self.note_ty(r, ty)
            return r
        if op == "Shr":
            r = shr(a, b)
            self.note_ty(r, ty)
            return r
        if op == "Div":
            if is_int(b) and b.a[1] > 0 and b.a[1] & (b.a[1] - 1) == 0 and ty[0] == "int" and not ty[2]:
                return shr(a, I(b.a[1].bit_length() - 1))
            if is_int(a) and is_int(b) and b.a[1]:
                return I(a.a[1] // b.a[1])
            r = mk("div", a, b)
            self.note_ty(r, ty)
            return r
        if op == "Rem":
            if is_int(b) and b.a[1] > 0 and b.a[1] & (b.a[1] - 1) == 0 and ty[0] == "int" and not ty[2]:
                return band(a, I(b.a[1] - 1))
            if is_int(a) and is_int(b) and b.a[1]:
                return I(a.a[1] % b.a[1])
            r = mk("rem", a, b)
            self.note_ty(r, ty)
            return r
        if op in ("Eq", "Ne"):
            r = teq(a, b)
            return r if op == "Eq" else lnot(r)
        if ty[0] in ("int", "bool", "char"):
            if op == "Lt":
                return lt(a, b)
            if op == "Le":
                return le(a, b)
            if op == "Gt":
                return lt(b, a)
            if op == "Ge":
                return le(b, a)
        if op == "Offset":
            return mk("ptroff", a, b)
        return mk("bin", op, a, b)

    def bool2(self, op, a, b):
        if is_int(a):
            a, b = b, a
        if is_int(b):
            if op == "band":
                return a if b.a[1] else FALSE
            return TRUE if b.a[1] else a
        if a is b:
            return a
        x, y = (a, b) if a.n < b.n else (b, a)
        r = mk(op, x, y)
        set_width(r, 1, False)
        return r

    # ---- execution -------------------------------------------------------
    def step_block(self, st, out, stop):
        """Interprets until a fork or an end; returns successor states"""
        while True:
            self.steps += 1
            if self.steps > self.max_steps:
                raise Limit("too many steps")
            fr = st.frames[-1]
            g = cfg(fr.body)
            # loops
            if g["loops"] and self.unroll:
                if st.bb in g["loops"]:
                    key = ("unroll", fr.fid, st.bb)
                    n = st.mem.get(key, 0) + 1
                    if n > self.unroll:
                        out.append(Trace("cut", st))
                        return []
                    st.mem[key] = n
            elif g["loops"]:
                act = st.active
                while act and act[-1][0] == fr.fid and st.bb not in g["loops"][act[-1][1]]:
                    st.event("loopexit", act[-1][2])
                    act = act[:-1]
                st.active = act
                if stop is not None and stop[0] == fr.fid and st.bb not in stop[1]:
                    return []
                if st.bb in g["loops"]:
                    if any(a[0] == fr.fid and a[1] == st.bb for a in act):
                        key = [a for a in act if a[0] == fr.fid and a[1] == st.bb][0][2]
                        st.event("loopback", key)
                        out.append(Trace("loopback", st, None, key))
                        return []
                    if not (stop is not None and stop[0] == fr.fid and stop[2] == st.bb and not act_has(act, fr.fid, st.bb)
                            and st.extra == ("collect", fr.fid, st.bb)):
                        self.enter_loop(st, fr, st.bb, g)
                    else:
                        st.extra = None
                        st.active = act + ((fr.fid, st.bb, ("collect",)),)
            blk = fr.body["blocks"][st.bb]
            for s in blk["s"]:
                if s[0] == "=":
                    r, p, ty = self.place(st, s[1])
                    v = self.rvalue(st, s[2], ty)
                    self.note_ty(v, ty)
                    self.write(st, r, p, v)
                elif s[0] == "sd":
                    r, p, ty = self.place(st, s[1])
                    v = self.read(st, r, p, ty)
                    if ty and ty[0] == "adt":
                        n = len(self.p.adts[ty[1]]["v"][s[2]]["f"])
                        a = mk("as", v, s[2])
                        self.write(st, r, p, self.mk_agg(("adt", ty[1]), s[2], [self.walk(a, ("f", i, None)) for i in range(n)]))
            t = blk["t"]
            k = t[0]
            if k == "goto":
                st.bb = t[1]
                continue
            if k == "drop":
                r, p, ty = self.place(st, t[1])
                st.event("drop", self.read(st, r, p, ty), ty, blk["sp"], (r, p))
                st.bb = t[2]
                continue
            if k == "ret":
                rty = self.p.subst(self.p.ty(fr.body["locals"][0][0]), fr.sub)
                v = self.read(st, ("L", fr.fid, 0), (), rty)
                if len(st.frames) == 1:
                    out.append(Trace("ret", st, v))
                    return []
                nxt = self.do_return(st, v)
                if nxt is None:
                    out.append(Trace("diverge", st))
                    return []
                continue
            if k == "assert":
                c = self.operand(st, t[1])
                exp = 1 if t[2] else 0
                cv = st.value(c)
                st.event("assert", c, exp, t[3][0], blk["sp"], fr.body["path"], cv,
                         tuple(self.operand(st, o) for o in t[3][1:] if isinstance(o, dict)))
                if cv is not None and cv != exp:
                    out.append(Trace("panic", st, None, blk["sp"]))
                    return []
                if not st.assume(c, exp):
                    out.append(Trace("panic", st, None, blk["sp"]))
                    return []
                st.bb = t[4]
                continue
            if k == "switch":
                c = self.operand(st, t[1])
                cty = self.p.ty(t[4])
                self.note_ty(c, cty)
                vals = [(int(x[0]), x[1]) for x in t[2]]
                if cty[0] == "int" and cty[2]:
                    w = cty[1]
                    vals = [((v - (1 << w)) if v >> (w - 1) else v, b) for v, b in vals]
                cv = st.value(c)
                if cv is not None:
                    for v, b in vals:
                        if v == cv:
                            st.bb = b
                            break
                    else:
                        st.bb = t[3]
                    continue
                res = []
                for v, b in vals:
                    n = st.copy()
                    if n.assume(c, v):
                        n.bb = b
                        res.append(n)
                if fr.body["blocks"][t[3]]["t"][0] != "unreachable":
                    n = st.copy()
                    good = True
                    for v, b in vals:
                        if not n.assume_ne(c, v):
                            good = False
                            break
                    if good and c.a[0] == "discr":
                        # the remaining variants
                        nv = self.discr_domain(c, st)
                        if nv is not None:
                            rest = [d for d in nv if d not in n.ne.get(c, ())]
                            if not rest:
                                good = False
                            elif len(rest) == 1:
                                good = n.assume(c, rest[0])
                    if good:
                        n.bb = t[3]
                        res.append(n)
                return res
            if k == "call":
                return self.call(st, t, blk, out)
            if k in ("unreachable", "resume", "other"):
                if k == "other":
                    out.append(Trace("other", st))
                return []
            raise Exception("terminator " + k)

    def discr_domain(self, c, st):
        return DISCR.get(c)

    def do_return(self, st, v):
        fr = st.frames[-1]
        st.frames = st.frames[:-1]
        st.active = tuple(a for a in st.active if a[0] != fr.fid)
        st.event("leave", fr.body["path"], v)
        if fr.tag is not None:
            v = fr.tag(st, v)
        if fr.target < 0:
            return None
        r, p = fr.dest
        self.write(st, r, p, v)
        st.bb = fr.target
        # drop the callee's locals that nobody can reference any more is not needed
        return True

    def enter_loop(self, st, fr, h, g):
        body = g["loops"][h]
        W = {}
        live = {f.fid for f in st.frames}
        for rnd in range(6):
            n = st.copy()
            self.havoc(n, W, fr, h)
            n.extra = ("collect", fr.fid, h)
            save = self.collecting
            self.collecting = []
            sink = []
            try:
                self.explore([n], (fr.fid, body, h))
                got = self.collecting
            finally:
                self.collecting = save
            new = False
            for (r, p, f) in got:
                if r[0] == "L" and r[1] not in live:
                    continue
                if r[0] == "L" and r[1] == fr.fid and r not in st.mem:
                    continue
                if r[0] == "P" and ptr_fresh(r[1], live):
                    pass
                if rnd >= 3:
                    p = ()
                # keep minimal prefixes
                if any(rr == r and p[:len(pp)] == pp for (rr, pp) in W):
                    continue
                p = trim(p)
                if any(rr == r and p[:len(pp)] == pp for (rr, pp) in W):
                    continue
                for kk in [kk for kk in W if kk[0] == r and kk[1][:len(p)] == p]:
                    del W[kk]
                W[(r, p)] = None
                new = True
            if not new:
                break
        pre = {k: self.read(st, k[0], k[1], None) for k in W}
        self.havoc(st, W, fr, h)
        key = (fr.body["path"], h, fr.fid)
        st.event("loop", key, tuple((k[0], k[1], pre[k]) for k in W), st.frames[-1].body["blocks"][h]["sp"])
        st.active = st.active + ((fr.fid, h, key),)
        if self.collecting is not None:
            for (r, p) in W:
                self.collecting.append((r, p, fr.fid))

    def havoc(self, st, W, fr, h):
        for (r, p) in W:
            if r[0] == "L":
                f = [x for x in st.frames if x.fid == r[1]]
                nm = "?"
                if f:
                    l = f[0].body["locals"][r[2]]
                    nm = l[1] if len(l) > 1 else "_%d" % r[2]
                desc = (f[0].body["path"] if f else "", nm, r[2])
            else:
                desc = ("P", r[1])
            t = mk("hv", fr.body["path"], h, desc, p)
            ty = None
            if r[0] == "L" and f:
                ty = self.p.subst(self.p.ty(f[0].body["locals"][r[2]][0]), f[0].sub)
                for e in p:
                    if ty is None:
                        break
                    ty = self.fld_ty(ty, e[1]) if e[0] == "f" else None
            else:
                old = self.read(st, r, p, None)
                if old in WIDTH:
                    WIDTH.setdefault(t, WIDTH[old])
            self.note_ty(t, ty)
            if not p:
                st.mem[r] = t
            else:
                st.mem[r] = self.update(self.base_of(st, r), p, t)

    # ---- calls -----------------------------------------------------------
    def callinfo(self, st, t, blk):
        fr = st.frames[-1]
        c = Call()
        c.span = blk["sp"]
        c.fn = fr.body["path"]
        c.frame = fr
        c.args = [self.operand(st, a) for a in t[2]]
        c.argtys = [self.p.subst(self.p.ty(x), fr.sub) for x in t[7]]
        for a, ty in zip(c.args, c.argtys):
            self.note_ty(a, ty)
        c.retty = self.p.subst(self.p.ty(t[6]), fr.sub)
        f = t[1]
        rec, sub = None, fr.sub
        if "k" in f and "fn" in f["k"]:
            rec = f["k"]["fn"]
        else:
            v = self.operand(st, f)
            if v.a[0] == "fn":
                rec, sub = v.a[2].rec, v.a[2].sub
            else:
                c.name = c.path = "<indirect>"
                c.nm = "<indirect>"
                c.trait, c.self_ty, c.body, c.ctor, c.unsafe, c.targs, c.sub = None, None, None, None, False, (), {}
                c.args = [v] + c.args
                c.tyargs = ()
                return c
        self.fill(c, rec, sub)
        return c

    def fill(self, c, rec, sub):
        r = self.p.resolve(rec, sub)
        c.path = r["path"]
        c.nm = r["nm"]
        c.trait = r["trait"]
        c.self_ty = r["self"]
        c.targs = r["args"]
        c.body = r["body"]
        c.sub = r["sub"]
        c.ctor = r["ctor"]
        c.unsafe = r["unsafe"]
        c.tyargs = r["args"]
        if c.trait and c.self_ty is not None:
            c.name = "<%s as %s>::%s" % (self.p.tystr(c.self_ty), c.trait.split("::")[-1], c.nm)
        elif c.self_ty is not None:
            c.name = "%s::%s" % (self.p.tystr(c.self_ty), c.nm)
        else:
            c.name = c.path

    def call(self, st, t, blk, out):
        c = self.callinfo(st, t, blk)
        r, p, ty = self.place(st, t[3])
        c.dest = (r, p)
        target = t[4]
        return self.dispatch(st, c, (r, p), target, out)

    def dispatch(self, st, c, dest, target, out):
        if c.ctor:
            v = self.mk_agg(("adt", c.ctor[0]), c.ctor[1], c.args)
            return self.finish(st, c, [(st, v)], dest, target, out)
        for m in self.models:
            res = m(self, st, c)
            if res is None:
                continue
            if res == "stop":
                out.append(Trace("stop", st, None, c))
                return []
            if type(res).__name__ == "Multi":
                nxt = []
                for s, r in res:
                    nxt.extend(self.outcome(s, c, r, dest, target, out))
                return nxt
            return self.outcome(st, c, res, dest, target, out)
        if c.body is not None and len(st.frames) < self.max_depth and self.policy(c, st, self) \
                and not any(f.body is c.body for f in st.frames):
            return self.enter(st, c, c.body, c.sub, c.args, dest, target, None)
        return self.finish(st, c, [self.opaque(st, c)], dest, target, out)

    def outcome(self, st, c, res, dest, target, out):
        if res == "stop":
            out.append(Trace("stop", st, None, c))
            return []
        if isinstance(res, tuple) and res[0] == "inline":
            # ("inline", body, sub, args, post)
            return self.enter(st, c, res[1], res[2], res[3], dest, target, res[4] if len(res) > 4 else None)
        return self.finish(st, c, res, dest, target, out)

    def enter(self, st, c, body, sub, args, dest, target, post):
        self.fid += 1
        self.inlined.add(body["path"])
        fr = Frame(body, sub, self.fid, dest, target, c.span, post)
        for i in range(body["argc"]):
            v = args[i] if i < len(args) else mk("undef", "arg", i)
            self.note_ty(v, self.p.subst(self.p.ty(body["locals"][i + 1][0]), sub))
            st.mem[("L", self.fid, i + 1)] = v
        st.event("enter", body["path"], tuple(args), c.span, c.name)
        st.frames = st.frames + (fr,)
        st.bb = 0
        return [st]

    def finish(self, st, c, results, dest, target, out):
        nxt = []
        for s, v in results:
            if v is None:
                continue
            if target < 0:
                out.append(Trace("panic", s, None, c.span))
                continue
            self.note_ty(v, c.retty)
            self.write(s, dest[0], dest[1], v)
            s.bb = target
            nxt.append(s)
        return nxt

    def opaque(self, st, c):
        """Unknown callee: the result is a function of the contents of the
        arguments; everything reachable through a mutable reference changes."""
        if c.path not in self.unmodeled:
            self.unmodeled[c.path] = (c.name, c.fn, c.span)
        frozen = tuple(self.freeze(st, a) for a in c.args)
        t = mk("call", c.name if c.trait or c.self_ty else c.path, frozen)
        muts = []
        for i, (a, ty) in enumerate(zip(c.args, c.argtys)):
            self.mut_roots(st, a, ty, muts, 0)
        st.event("call", c.path, c.name, frozen, t, c.span, c.fn, c.args, c)
        n = 0
        for (r, p) in muts:
            self.write(st, r, p, mk("post", t, n))
            n += 1
        if c.retty == ("tuple", ()):
            return (st, UNIT)
        return (st, t)

    def mut_roots(self, st, a, ty, out, d):
        if d > 3:
            return
        if a.a[0] == "ref":
            if a.a[3] and (ty is None or ty[0] not in ("ref", "ptr") or ty[1]):
                out.append((a.a[1], a.a[2]))
            else:
                v = self.read(st, a.a[1], a.a[2], None)
                if has_mutref(v):
                    self.mut_roots(st, v, None, out, d + 1)
            return
        if a.a[0] == "agg":
            for x in a.a[3]:
                self.mut_roots(st, x, None, out, d + 1)
            return
        if ty is not None and ty[0] in ("ref", "ptr") and ty[1]:
            out.append((("P", a), ()))


def act_has(act, fid, bb):
    return any(a[0] == fid and a[1] == bb for a in act)


def trim(p):
    out = []
    for e in p:
        if e[0] in ("x", "xe", "ss", "v"):
            break
        out.append(e)
    return tuple(out)


def ptr_fresh(t, live):
    return False


_ref_memo = {}


def has_ref(t):
    r = _ref_memo.get(t)
    if r is None:
        r = _scan(t, False)
        _ref_memo[t] = r
    return r


def has_mutref(t):
    if not has_ref(t):
        return False
    return _scan(t, True)


def _scan(t, mut):
    if isinstance(t, Term):
        if t.a[0] == "ref":
            return t.a[3] or not mut
        if mut:
            return any(_scan(x, mut) for x in t.a[1:] if isinstance(x, (Term, tuple)))
        return any((has_ref(x) if isinstance(x, Term) else _scan(x, mut)) for x in t.a[1:] if isinstance(x, (Term, tuple)))
    if isinstance(t, tuple):
        return any(_scan(x, mut) for x in t)
    return False


class FnRef:
    _tab = {}

    def __new__(cls, rec, sub):
        key = ((rec.get("r") or rec)["id"], rec["id"], tuple(map(str, rec["a"])), tuple(sorted(map(str, sub.items()))))
        r = cls._tab.get(key)
        if r is None:
            r = object.__new__(cls)
            r.rec, r.sub = rec, dict(sub)
            cls._tab[key] = r
        return r


class SubRef:
    _tab = {}

    @classmethod
    def of(cls, sub):
        key = tuple(sorted((k, str(v)) for k, v in sub.items()))
        r = cls._tab.get(key)
        if r is None:
            r = cls()
            r.sub = dict(sub)
            cls._tab[key] = r
        return r
