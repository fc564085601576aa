"""How much is allocated at once.  Every allocation of the crate whose size is a run-time number is found in the compiler's MIR, and the
number is followed backwards, through copies, casts, arithmetic, fields, captured variables, results of functions and all callers: it must
come from constants, from numbers of at most 16 bits, from the length of something that is in memory, or from the caller of a public
function.  A wider number that was read from a cell or from bytes is let through only under a minimum with such a number, or behind a comparison with it."""
import re
from mir import Prog

EXPLAIN = __doc__
ASSUMPTIONS = ["rustc's MIR is what is compiled", "lengths of std's containers count what they hold"]

SINKS = {"with_capacity": 0, "with_capacity_and_hasher": 0, "with_capacity_in": 0, "from_elem": 1, "reserve": 1, "reserve_exact": 1,
         "try_reserve": 1, "try_reserve_exact": 1, "resize": 1, "resize_with": 1, "repeat": 1, "repeat_n": 1, "new_uninit_slice": 0, "set_len": 1,
         "new_zeroed_slice": 0, "insert_many": 1}
COUNT = {"len", "capacity", "count", "size_hint", "strong_count", "weak_count", "as_millis", "leading_zeros", "trailing_zeros", "count_ones", "ilog2"}
READ = re.compile(r"^(load|get|read|preload|peek|next|parse|deserialize|from_(be|le|ne)_bytes|from_str|from_str_radix|decode)")
WHY = {
    "tycho_types::boc::de::": "decided on each path, see boc()",
    "::make_default_value": "builds the array of the type's own length, which is the value it returns",
}
DEPTH = 60


class Slice:
    def __init__(s, p):
        s.p = p
        s.defs, s.callers, s.closures, s.stores = {}, {}, {}, {}
        s.stack = set()
        s.nested = 0
        for b in p.bodies.values():
            for i, bb in enumerate(b["blocks"]):
                for st in bb["s"]:
                    if st[0] != "=" or st[2][0] != "agg":
                        continue
                    a = st[2][1]
                    if a[0] == "adt":
                        for f, o in enumerate(st[2][2]):
                            s.stores.setdefault((a[1], a[2], f), []).append((b, o, i))
                    elif a[0] == "closure":
                        s.closures.setdefault(a[1], []).append((b, st[2][2], i))
                t = bb["t"]
                if t[0] == "call":
                    f = (t[1].get("k") or {}).get("fn")
                    if f:
                        for x in {f.get("id"), (f.get("r") or {}).get("id")}:
                            s.callers.setdefault(x, []).append((b, t[2], i))

    def of(s, b):
        d = s.defs.get(id(b))
        if d is None:
            d = {}
            for i, bb in enumerate(b["blocks"]):
                for st in bb["s"]:
                    if st[0] == "=":
                        d.setdefault(st[1][0], []).append((st[1][1], st[2], i))
                t = bb["t"]
                if t[0] == "call":
                    d.setdefault(t[3][0], []).append((t[3][1], ("call", t), i))
            s.defs[id(b)] = d
        return d

    def width(s, t):
        t = s.p.ty(t) if isinstance(t, int) else t
        if t[0] == "int":
            return int(t[1])
        return {"bool": 1, "char": 21}.get(t[0])

    def adt(s, t):
        while t[0] in ("ref", "ptr", "rawptr"):
            t = t[-1]
        if t[0] == "adt" and str(t[1]).endswith("::Box") and t[2]:
            return s.adt(t[2][0])
        return t

    # ---- values: a list of reasons why it is not bounded ------------------------------------
    def op(s, b, o, blk, n=0):
        if "k" in o or ("c" not in o and "m" not in o):
            return []
        return s.place(b, o.get("c") or o["m"], blk, n)

    def place(s, b, pl, blk, n):
        l, proj = pl
        ty = s.p.ty(b["locals"][l][0])
        w = s.width(ty)
        if not proj and w is not None and w <= 16:
            return []
        key = (id(b), l, str(proj))
        if key in s.stack:
            return []
        if n > DEPTH:
            return [("?", "the slice is too deep at %s" % b["path"])]
        s.stack.add(key)
        try:
            return s.place1(b, l, proj, ty, blk, n + 1)
        finally:
            s.stack.discard(key)

    def field_ty(s, t, proj):
        """type of the last ADT and field on the way, following projections"""
        v = 0
        last = None
        for e in proj:
            if e == "*":
                t = t[-1] if t[0] in ("ref", "ptr", "rawptr") else (t[2][0] if t[0] == "adt" and t[2] else ("other", "?"))
            elif e[0] == "v":
                v = e[1]
            elif e[0] == "f":
                a = t if t[0] == "adt" else None
                last = (a[1], v, e[1]) if a else (t[0], t[1] if len(t) > 1 else None, e[1])
                v = 0
                if a and a[1] in s.p.adts:
                    fs = s.p.adts[a[1]]["v"][last[1]]["f"]
                    t = s.p.ty(fs[e[1]][1]) if e[1] < len(fs) else ("other", "?")
                elif t[0] == "tuple":
                    t = t[1][e[1]]
                else:
                    t = ("other", "?")
            else:
                t = ("other", "?")
        return last, t

    def place1(s, b, l, proj, ty, blk, n):
        p = s.p
        last, ft = s.field_ty(ty, proj) if proj else (None, ty)
        w = s.width(ft)
        if w is not None and w <= 16:
            return []
        # a captured variable
        if b["kind"] == "Closure" and l == 1 and any(e != "*" and e[0] == "f" for e in proj):
            f = [e for e in proj if e != "*" and e[0] == "f"][0][1]
            out = []
            for pb, ops, i in s.closures.get(b["id"], []):
                out += s.op(pb, ops[f], i, n)
            return out
        # the field of a structure: everything that is ever stored in it
        if last and last[0] in p.adts and p.adts[last[0]].get("kind") != "enum" and not str(last[0]).startswith(("core::", "alloc::", "std::")):
            out = []
            for pb, o, i in s.stores.get(last, []):
                out += s.op(pb, o, i, n)
            return out
        out = []
        ds = s.of(b).get(l, [])
        exact = [d for d in ds if d[0] == proj] if proj else []
        for pr, rv, i in (exact or ds):
            why = s.rv(b, rv, i, n)
            if why and rv[0] in ("use", "cast") and s.nested < 3:
                keep, s.stack, s.nested = s.stack, set(), s.nested + 1
                if s.guarded(b, rv[1] if rv[0] == "use" else rv[2], i, n):
                    why = []
                s.stack, s.nested = keep, s.nested - 1
            out += why
        if 1 <= l <= b["argc"]:
            out += s.param(b, l, n)
        return out

    def param(s, b, l, n):
        if b["kind"] == "Closure":
            return s.closure_param(b, n)
        out = []
        for cb, args, i in s.callers.get(b["id"], []):
            if l - 1 < len(args):
                out += s.op(cb, args[l - 1], i, n)
        return out

    def closure_param(s, b, n):
        """a closure is called with what the other arguments hold of the call that it is given to"""
        out, seen = [], 0
        for pb, ops, i in s.closures.get(b["id"], []):
            mine = set()
            for j, bb in enumerate(pb["blocks"]):
                for st in bb["s"]:
                    if st[0] == "=" and st[2][0] == "agg" and st[2][1][0] == "closure" and st[2][1][1] == b["id"]:
                        mine.add(st[1][0])
            for _ in range(3):
                for j, bb in enumerate(pb["blocks"]):
                    for st in bb["s"]:
                        if st[0] == "=" and st[2][0] in ("use", "ref", "cast"):
                            for x in st[2][1:]:
                                x = x if not isinstance(x, dict) else (x.get("m") or x.get("c"))
                                if isinstance(x, list) and x and x[0] in mine and isinstance(x[0], int) and not isinstance(x[0], bool):
                                    mine.add(st[1][0])
            for j, bb in enumerate(pb["blocks"]):
                t = bb["t"]
                if t[0] == "call" and any(("m" in a or "c" in a) and (a.get("m") or a.get("c"))[0] in mine for a in t[2]):
                    seen += 1
                    for a in t[2]:
                        if "k" not in a and (a.get("m") or a.get("c"))[0] not in mine:
                            out += s.op(pb, a, j, n)
        if not seen:
            return [("?", "the parameter of a closure in %s" % b["path"])]
        return out

    def rv(s, b, rv, blk, n):
        k = rv[0]
        if k == "use":
            return s.op(b, rv[1], blk, n)
        if k == "cast":
            return s.op(b, rv[2], blk, n)
        if k == "ref" or k == "raw":
            return s.place(b, rv[2], blk, n)
        if k in ("discr", "tls", "repeat"):
            return []
        if k == "un":
            return [] if rv[1] == "PtrMetadata" else s.op(b, rv[2], blk, n)
        if k == "bin":
            op = rv[1]
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                return []
            x = s.op(b, rv[2], blk, n)
            if op in ("Div", "Shr", "Sub"):
                return x
            y = s.op(b, rv[3], blk, n)
            if op in ("BitAnd", "Rem"):
                return x and y if op == "BitAnd" else y
            if op == "Shl" and "k" not in rv[3]:
                return [("?", "a shift by a variable number in %s" % b["path"])]
            return x + y
        if k == "agg":
            out = []
            for o in rv[2]:
                out += s.op(b, o, blk, n)
            return out
        if k == "call":
            return s.call(b, rv[1], blk, n)
        return [("?", "a value of kind %s in %s" % (k, b["path"]))]

    def call(s, b, t, blk, n):
        f = (t[1].get("k") or {}).get("fn")
        if not f:
            return [("?", "the result of a call through a pointer in %s" % b["path"])]
        nm, args = f["nm"], t[2]
        rt = s.p.ty(b["locals"][t[3][0]][0]) if not t[3][1] else ("other", "?")
        inner = rt
        while inner[0] == "adt" and inner[2] and str(inner[1]).rsplit("::", 1)[-1] in ("Result", "Option", "ControlFlow", "Wrapping"):
            inner = inner[2][-1 if str(inner[1]).endswith("ControlFlow") else 0]
            if str(rt[1]).endswith("ControlFlow"):
                inner = rt[2][1] if len(rt[2]) > 1 else inner
                rt = inner
        w = s.width(inner)
        if w is not None and w <= 16:
            return []
        r = f.get("r") or {}
        body = s.p.bodies.get(r.get("id") or f.get("id")) or s.p.bodies.get(f.get("id"))
        path = r.get("p") or f["p"]
        if nm == "min" and len(args) == 2:
            x, y = s.op(b, args[0], blk, n), s.op(b, args[1], blk, n)
            return x and y
        if nm == "clamp" and len(args) == 3:
            return s.op(b, args[2], blk, n)
        if body is None:
            st = s.p.ty(f["st"]) if "st" in f else None
            if nm in ("len", "count", "size_hint") and st is not None and "Range" in s.p.tystr(st):
                return s.op(b, args[0], blk, n)
            if nm in COUNT:
                return []
            if w is not None and READ.match(nm) and (nm != "get" and nm != "next"):
                return [("read", "%s, called in %s" % (path, b["path"]))]
            out = []
            for a in args:
                if "k" not in a:
                    pl = a.get("c") or a["m"]
                    at = s.p.ty(b["locals"][pl[0]][0])
                    if at[0] == "adt" or at[0] == "ref" or s.width(at) is not None or at[0] == "tuple":
                        out += s.op(b, a, blk, n)
            return out
        if w is not None and (READ.match(nm) or nm == "load_from"):
            return [("read", "%s, called in %s" % (path, b["path"]))]
        if nm in COUNT:
            return []
        if body.get("intrait") and "impl" not in body:
            return [("?", "a method of a trait, %s" % path)]
        out = []
        if w is not None:
            for pr, rv, i in s.of(body).get(0, []):
                out += s.rv(body, rv, i, n + 1)
        return out

    # ---- comparisons that lead to the allocation ---------------------------------------------
    def root(s, b, o, n=0):
        """the locals that are copies of the same number"""
        out = set()
        work = [o]
        while work:
            o = work.pop()
            if "k" in o or ("c" not in o and "m" not in o):
                continue
            l, pr = o.get("c") or o["m"]
            if (l, str(pr)) in out:
                continue
            out.add((l, str(pr)))
            ds = [d for d in s.of(b).get(l, []) if d[0] == pr]
            if len(ds) == 1:
                rv = ds[0][1]
                if rv[0] == "use":
                    work.append(rv[1])
                elif rv[0] == "cast":
                    work.append(rv[2])
        return out

    def guarded(s, b, o, blk, n=0):
        mine = s.root(b, o)
        blocks = b["blocks"]

        def succ(i):
            t = blocks[i]["t"]
            if t[0] == "switch":
                return [x[1] for x in t[2]] + [t[3]]
            if t[0] == "goto":
                return [t[1]]
            if t[0] == "call":
                return [t[4]] if t[4] is not None and t[4] >= 0 else []
            if t[0] == "drop":
                return [x for x in t[1:] if isinstance(x, int)][-1:]
            if t[0] == "assert":
                return [x for x in t[3:] if isinstance(x, int)][-1:]
            return []

        def reach(start, cut):
            seen, work = set(), [start]
            while work:
                i = work.pop()
                if i in seen or i >= len(blocks):
                    continue
                seen.add(i)
                for e in succ(i):
                    if (i, e) != cut:
                        work.append(e)
            return seen
        for i, bb in enumerate(blocks):
            t = bb["t"]
            if t[0] != "switch":
                continue
            d = t[1].get("c") or t[1].get("m")
            if not d or d[1]:
                continue
            for pr, rv, j in s.of(b).get(d[0], []):
                if rv[0] != "bin" or rv[1] not in ("Lt", "Le", "Gt", "Ge", "Eq"):
                    continue
                x, y = rv[2], rv[3]
                for me, other, ops in ((x, y, ("Lt", "Le", "Eq")), (y, x, ("Gt", "Ge", "Eq"))):
                    if not (s.root(b, me) & mine) or s.op(b, other, i, n):
                        continue
                    # the edge on which it is at most the other
                    good = rv[1] in ops
                    zero = [e for v, e in t[2] if str(v) == "0"]
                    if not zero or t[3] == zero[0]:
                        continue
                    edge = t[3] if good else zero[0]
                    if rv[1] == "Eq" and not good:
                        continue
                    if blk not in reach(0, (i, edge)):
                        return True
        return False


def ranged(p, t):
    return re.match(r"^(core::iter::adapters::\w+::)?(\w*::)*(Map|Rev|Enumerate|Range|RangeInclusive|Zip|Filter)<", t) and "Range" in t


def sites(p):
    for b in p.bodies.values():
        if re.search(r"(^|::)(tests?|bench)(::|$)", b["path"]):
            continue
        for i, bb in enumerate(b["blocks"]):
            t = bb["t"]
            if t[0] != "call" or bb.get("cl"):
                continue
            f = (t[1].get("k") or {}).get("fn")
            if not f:
                continue
            r = f.get("r") or {}
            nm = f["nm"]
            local = (r.get("id") or f.get("id")) in p.bodies
            if nm in SINKS and not local and SINKS[nm] < len(t[2]):
                yield b, i, t, f, t[2][SINKS[nm]]
            elif nm in ("collect", "from_iter", "extend") and not local and t[2]:
                o = t[2][-1]
                pl = o.get("c") or o.get("m")
                if pl and not pl[1]:
                    ty = p.tystr(p.ty(b["locals"][pl[0]][0]))
                    if "Result<" not in p.tystr(p.ty(b["locals"][t[3][0]][0])) and ranged(p, ty):
                        yield b, i, t, f, o


def boc(cx):
    """the headers of a bag of cells: every path of its decoder, by the interpretation of C08"""
    import c08
    from par import pmap
    c08._p = cx.prog("main")
    cs = [("finalize",)]
    for f in (1, 2, 3, 4, 0x41, 0x81, 0xc1, 0xc4):
        for o in range(1, 9):
            cs += [("header", "Generic", f, o, k) for k in (0, 1)]
            if f < 5:
                cs += [("header", t, f, o, 0) for t in ("Indexed", "IndexedCrc32")]
    for b, k, what in pmap(c08.run_case, cs):
        cx.count("cases of a bag of cells")
        cx.count("paths of a bag of cells", k)
        for nm, kind, text in b:
            if kind == "alloc":
                cx.bad("boc:%s:%s" % (nm, kind), text)
            elif kind in ("undecided", "anchor", "limit"):
                cx.bad("boc:%s:%s" % (nm, kind), text)
    cx.floor("paths of a bag of cells", 1000)


def check(cx):
    from core import where
    for name in ("main", "tycho"):
        p = cx.prog(name)
        s = Slice(p)
        for b, i, t, f, o in sites(p):
            cx.count("allocations with a size")
            skip = [w for k, w in WHY.items() if b["path"].startswith((k, "<" + k)) or b["path"].endswith(k)]
            if skip:
                cx.count("allocations decided elsewhere")
                continue
            s.stack.clear()
            why = s.op(b, o, i)
            if why and s.guarded(b, o, i):
                cx.count("sizes behind a comparison")
                why = []
            if not why:
                cx.count("sizes that are bounded")
                if name == "main":
                    cx.sample("%s: %s" % (where(p, b, None), f["nm"]))
                continue
            k, text = sorted(why, key=lambda x: x[0] == "?")[0]
            key = "%s:%s" % (re.sub(r"\{closure#\d+\}", "{closure}", b["path"]), f["nm"])
            if k == "?":
                cx.bad(key + ":undecided", "%s: the size of %s: %s" % (where(p, b), f["nm"], text))
            else:
                cx.bad(key, "%s: the size of %s is a number that was read and not compared with what is there (%s)" % (where(p, b), f["nm"], text))
    boc(cx)
    cx.floor("allocations with a size", 40)
    cx.floor("sizes that are bounded", 30)
