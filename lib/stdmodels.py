"""Models of the standard-library functions the crate uses."""
from terms import *
from absint import *


def content(ip, st, v):
    """The value behind a reference term"""
    if v.a[0] == "ref":
        return ip.read(st, v.a[1], v.a[2], None)
    if v.a[0] == "&":
        return v.a[1]
    m = st.mem.get(("P", v))
    return m if m is not None else mk("deref", v)


def setcontent(ip, st, v, val):
    r, p = ip.deref(v)
    ip.write(st, r, p, val)


def adtname(ty):
    return ty[1] if ty is not None and ty[0] == "adt" else None


def fork_variant(ip, st, v, path, n=2):
    """Forks on the variant of an enum value -> [(state, variant, [payload])]"""
    if v.a[0] == "agg":
        return [(st, v.a[2], v.a[3])]
    if v.a[0] == "upd":
        pass
    d = mk_discr(v, range(n))
    out = []
    for i in range(n):
        s = st.copy() if i + 1 < n else st
        if s.assume(d, i):
            out.append((s, i, (mk("vf", v, i, 0),)))
    return out


def payload_ty(ip, ty, variant):
    if ty is None or ty[0] != "adt":
        return None
    if ty[1] == OPTION and variant == 1:
        return ty[2][0]
    if ty[1] == RESULT:
        return ty[2][variant]
    return None


def call_fn(ip, st, c, f, args, wrap):
    """Calls a function value; wrap(state, value) post-processes."""
    if f.a[0] == "ref":
        inner = ip.read(st, f.a[1], f.a[2], None)
        if inner.a[0] in ("fn", "agg"):
            return call_fn(ip, st, c, inner, args, wrap) if inner.a[0] == "fn" else call_closure(ip, st, c, inner, f, args, wrap)
    if f.a[0] == "&":
        return call_fn(ip, st, c, f.a[1], args, wrap)
    if f.a[0] == "fn":
        rec, sub = f.a[2].rec, f.a[2].sub
        c2 = Call()
        c2.span, c2.fn, c2.frame, c2.retty = c.span, c.fn, c.frame, None
        c2.args = list(args)
        ip.fill(c2, rec, sub)
        c2.argtys = [None] * len(args)
        if c2.ctor:
            return [(st, wrap(st, ip.mk_agg(("adt", c2.ctor[0]), c2.ctor[1], list(args))))]
        for m in ip.models:
            res = m(ip, st, c2)
            if res is None:
                continue
            if res == "stop":
                return res
            if isinstance(res, tuple):
                post = res[4] if len(res) > 4 else None
                return ("inline", res[1], res[2], res[3],
                        (lambda s, v, post=post: wrap(s, post(s, v) if post else v)))
            return [(s, wrap(s, v)) for s, v in res]
        if c2.body is not None and ip.policy(c2, st, ip) and not any(fr.body is c2.body for fr in st.frames) and len(st.frames) < ip.max_depth:
            return ("inline", c2.body, c2.sub, list(args), wrap)
        s, v = ip.opaque(st, c2)
        return [(s, wrap(s, v))]
    if f.a[0] == "agg" and isinstance(f.a[1], tuple) and f.a[1][0] == "closure":
        return call_closure(ip, st, c, f, None, args, wrap)
    t = mk("call", "<fn>", tuple([ip.freeze(st, f)] + [ip.freeze(st, a) for a in args]))
    st.event("call", "<fn>", "<fn>", t.a[2], t, c.span, c.fn, [f] + list(args), c)
    n = 0
    muts = []
    for a in args:
        ip.mut_roots(st, a, None, muts, 0)
    for r, p in muts:
        ip.write(st, r, p, mk("post", t, n))
        n += 1
    return [(st, wrap(st, t))]


def call_closure(ip, st, c, cl, clref, args, wrap):
    body = ip.p.bodies.get(cl.a[1][1])
    if body is None or any(fr.body is body for fr in st.frames) or len(st.frames) >= ip.max_depth:
        t = mk("call", "<closure>", tuple([ip.freeze(st, cl)] + [ip.freeze(st, a) for a in args]))
        st.event("call", "<closure>", "<closure>", t.a[2], t, c.span, c.fn, [cl] + list(args), c)
        muts = []
        ip.mut_roots(st, cl, None, muts, 0)
        for a in args:
            ip.mut_roots(st, a, None, muts, 0)
        for n, (r, p) in enumerate(muts):
            ip.write(st, r, p, mk("post", t, n))
        return [(st, wrap(st, t))]
    ety = ip.p.ty(body["locals"][1][0])
    if ety[0] == "ref":
        if clref is not None:
            env = clref
        else:
            ip.fid += 1
            st.mem[("L", ip.fid, 0)] = cl
            env = mk("ref", ("L", ip.fid, 0), (), True)
    else:
        env = cl
    sub = dict(cl.a[1][2].sub)
    return ("inline", body, sub, [env] + list(args), wrap)


ident = lambda s, v: v

INT_FROM = ("from", "into")
REFLIKE = ("deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut", "as_slice", "as_mut_slice", "as_bytes",
           "as_deref", "as_ptr", "as_mut_ptr", "cast", "as_str", "cast_mut", "cast_const")
SMART = ("Arc", "Rc", "Box", "Vec", "Cow", "ManuallyDrop", "SmallVec", "String", "Ref", "RefMut", "MaybeUninit", "UnsafeCell")


def std(ip, st, c):
    nm, path, a = c.nm, c.path, c.args
    if "tycho" in path and c.body is not None and not path.startswith("<"):
        return None
    self_ty = c.self_ty
    sa = adtname(self_ty)
    trait = (c.trait or "").split("::")[-1]

    # --- ? operator ---
    if trait == "Try" and nm == "branch":
        out = []
        if sa == RESULT:
            for s, v, pl in fork_variant(ip, st, a[0], RESULT):
                if v == 0:
                    ip.note_ty(pl[0], self_ty[2][0])
                    out.append((s, agg(("adt", CFLOW), 0, pl[0])))
                else:
                    out.append((s, agg(("adt", CFLOW), 1, err(pl[0]))))
            return out
        if sa == OPTION:
            for s, v, pl in fork_variant(ip, st, a[0], OPTION):
                if v == 1:
                    ip.note_ty(pl[0], self_ty[2][0])
                    out.append((s, agg(("adt", CFLOW), 0, pl[0])))
                else:
                    out.append((s, agg(("adt", CFLOW), 1, NONE)))
            return out
    if trait == "FromResidual":
        v = a[0]
        if sa == OPTION:
            return [(st, NONE)]
        e = v.a[3][0] if v.a[0] == "agg" else mk("vf", v, 1, 0)
        if self_ty is not None and sa == RESULT and c.argtys[0] and c.argtys[0][0] == "adt" and c.argtys[0][2][1] != self_ty[2][1]:
            # the local From impl may be interpreted
            fi = ip.p.find_impl("core::convert::From", self_ty[2][1], (self_ty[2][1], c.argtys[0][2][1]))
            if fi:
                b = ip.p.by_impl.get((fi[0]["id"], "from"))
                if b is not None:
                    return ("inline", b, fi[1], [e], lambda s, x: err(x))
            e = mk("call", "from_err", (e,))
        return [(st, err(e))]

    # --- Option / Result combinators ---
    if trait == "" and (sa in (OPTION, RESULT)):
        r = optres(ip, st, c, sa, nm, a)
        if r is not None:
            return r

    if trait == "Clone" and nm == "clone" and (c.body is None or self_ty is None or is_derived_clone(ip, c)):
        v = content(ip, st, a[0])
        if v.a[0] == "deref":
            return [(st, v)]
        return [(st, v)]
    if nm in ("to_owned", "cloned", "copied", "to_vec", "into_owned") and c.body is None:
        if sa not in (OPTION, RESULT) and trait != "Iterator":
            return [(st, content(ip, st, a[0]) if nm in ("to_owned", "to_vec") else a[0])]

    # --- conversions between integers and identity conversions ---
    if trait == "Into" and nm == "into" and c.body is None and sa and sa.endswith("NonZero"):
        return [(st, a[0])]
    if trait in ("Into", "From") and nm in INT_FROM and c.body is None:
        if trait == "Into":
            src, dst = self_ty, (c.targs[1] if len(c.targs) > 1 else None)
        else:
            src, dst = (c.targs[1] if len(c.targs) > 1 else None), self_ty
        if src is not None and src == dst:
            return [(st, a[0])]
        if dst is not None and src is not None and dst[0] == "int" and src[0] in ("int", "bool", "char"):
            ip.note_ty(a[0], src)
            return [(st, a[0])]
        if dst is not None and src is not None:
            fi = ip.p.find_impl("core::convert::From", dst, (dst, src))
            if fi:
                b = ip.p.by_impl.get((fi[0]["id"], "from"))
                if b is not None and not any(f.body is b for f in st.frames):
                    return ("inline", b, fi[1], [a[0]])
            if adtname(dst) == OPTION and dst[2][0] == src:
                return [(st, some(a[0]))]
            if adtname(dst) and dst[1].split("::")[-1] in ("Arc", "Rc", "Box"):
                return [(st, mk("box", dst[1].split("::")[-1], a[0]))]
        return None

    if trait in ("Deref", "DerefMut", "AsRef", "AsMut", "Borrow", "BorrowMut") and c.body is None:
        return [(st, deref_like(ip, st, a[0], self_ty))]
    if trait == "" and nm in ("as_slice", "as_mut_slice", "as_bytes", "as_str") and c.body is None:
        return [(st, deref_like(ip, st, a[0], self_ty))]

    if nm == "new" and c.body is None and sa is not None and sa.split("::")[-1] in ("Box", "Arc", "Rc"):
        return [(st, mk("box", sa.split("::")[-1], a[0]))]
    if path.endswith("mem::swap"):
        x, y = content(ip, st, a[0]), content(ip, st, a[1])
        setcontent(ip, st, a[0], y)
        setcontent(ip, st, a[1], x)
        return [(st, UNIT)]
    if path.endswith("mem::replace"):
        x = content(ip, st, a[0])
        setcontent(ip, st, a[0], a[1])
        return [(st, x)]
    if path.endswith("mem::take"):
        x = content(ip, st, a[0])
        ty = c.argtys[0][2] if c.argtys[0] and c.argtys[0][0] == "ref" else None
        d = default_of(ip, ty)
        setcontent(ip, st, a[0], d)
        return [(st, x)]
    if path.endswith("mem::drop") or path.endswith("mem::forget") or path.endswith("hint::black_box"):
        st.event("dropcall", a[0], c.argtys[0], c.span, path)
        return [(st, UNIT)]
    if path.endswith("::min") or path.endswith("::max"):
        if c.body is None and len(a) == 2 and (c.retty is None or c.retty[0] == "int"):
            cond = le(a[0], a[1])
            out = []
            for v in (1, 0):
                s = st.copy()
                if s.assume(cond, v):
                    first = (v == 1) == path.endswith("::min")
                    out.append((s, a[0] if first else a[1]))
            return out
    # --- comparisons ---
    if trait in ("PartialEq", "PartialOrd", "Ord") and c.body is None:
        x, y = strip(ip, st, a[0], c.argtys[0]), strip(ip, st, a[1], c.argtys[1])
        intlike = pointee(c.argtys[0])
        while intlike and intlike[0] == "ref":
            intlike = intlike[2]
        if intlike and intlike[0] in ("int", "bool", "char"):
            ip.note_ty(x, intlike)
            ip.note_ty(y, intlike)
        if nm == "eq":
            if derived_eq(ip, intlike):
                pass
            return [(st, teq(x, y))]
        if nm == "ne":
            return [(st, lnot(teq(x, y)))]
        if intlike and intlike[0] == "int":
            if nm == "lt":
                return [(st, lt(x, y))]
            if nm == "le":
                return [(st, le(x, y))]
            if nm == "gt":
                return [(st, lt(y, x))]
            if nm == "ge":
                return [(st, le(y, x))]
            if nm == "cmp":
                out = []
                for cond, v in ((lt(x, y), 0), (teq(x, y), 1), (lt(y, x), 2)):
                    s = st.copy()
                    if s.assume(cond, 1):
                        out.append((s, mk("agg", ("adt", "core::cmp::Ordering"), v, ())))
                return out
        if nm in ("lt", "le", "gt", "ge"):
            t = mk("bool", nm, x, y)
            return [(st, t)]
        if nm == "cmp":
            return [(st, mk("cmp", x, y))]
    if path.startswith("core::panicking") or path.endswith("begin_panic") or "unwrap_failed" in path or path.endswith("process::abort"):
        return "stop"
    if nm in ("len", "is_empty") and c.body is None and trait in ("", "ExactSizeIterator") and len(a) == 1:
        l = ip.length(st, strip1(ip, st, a[0], c.argtys[0]))
        return [(st, l if nm == "len" else teq(l, I(0)))]
    if c.body is None and nm in ("wrapping_add", "saturating_add", "wrapping_sub", "unchecked_add", "unchecked_sub") and self_int(c):
        if nm in ("wrapping_add", "unchecked_add"):
            return [(st, add(a[0], a[1]))]
        if nm in ("wrapping_sub", "unchecked_sub"):
            return [(st, sub(a[0], a[1]))]
    if c.body is None and nm in ("checked_sub", "checked_add") and len(a) == 2:
        cond = lnot(lt(a[0], a[1])) if nm == "checked_sub" else None
        if cond is not None:
            s2 = st.copy()
            out = []
            if st.assume(cond, 1):
                out.append((st, some(sub(a[0], a[1]))))
            if s2.assume(cond, 0):
                out.append((s2, NONE))
            return out
        s2 = st.copy()
        ovf = mk("bool", "addovf", add(a[0], a[1]), c.path)
        out = []
        if st.assume(ovf, 0):
            out.append((st, some(add(a[0], a[1]))))
        if s2.assume(ovf, 1):
            out.append((s2, NONE))
        return out
    if c.body is None and nm == "saturating_sub" and len(a) == 2:
        out = []
        s2 = st.copy()
        cond = lt(a[0], a[1])
        if st.assume(cond, 0):
            out.append((st, sub(a[0], a[1])))
        if s2.assume(cond, 1):
            out.append((s2, I(0)))
        return out
    if c.body is None and nm == "div_ceil" and len(a) == 2 and is_int(a[1]) and a[1].a[1] in (2, 4, 8, 16, 32):
        k = a[1].a[1]
        return [(st, shr(add(a[0], I(k - 1)), I(k.bit_length() - 1)))]
    if c.body is None and nm in ("leading_zeros", "trailing_zeros") and len(a) == 1 and path.startswith("core::num::"):
        w = c.argtys[0][1] if c.argtys and c.argtys[0] and c.argtys[0][0] == "int" else None
        if w:
            if is_int(a[0]):
                v = a[0].a[1]
                n = w - v.bit_length() if nm[0] == "l" else ((v & -v).bit_length() - 1 if v else w)
                return [(st, I(n))]
            return [(st, mk("lz" if nm[0] == "l" else "tz", w, a[0]))]
    if trait == "TryFrom" and nm == "try_from" and c.body is None and c.self_ty and c.self_ty[0] == "int" and \
            c.argtys and c.argtys[0] and c.argtys[0][0] == "int":
        ip.note_ty(a[0], c.argtys[0])
        w, sg = c.self_ty[1], c.self_ty[2]
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
        fit = ip.bool2("band", le(a[0], I(hi)), le(I(lo), a[0]))
        s2 = st.copy()
        out = []
        if st.assume(fit, 1):
            out.append((st, ok(a[0])))
        if s2.assume(fit, 0):
            out.append((s2, err(mk("tryfromint"))))
        return out
    if nm in ("into", "from") and c.retty and c.retty[0] == "adt" and c.retty[1].endswith("NonZero") and \
            c.argtys and c.argtys[0] and c.argtys[0][0] == "adt" and c.argtys[0][1] == c.retty[1]:
        return [(st, a[0])]
    if nm == "get" and sa and sa.endswith("NonZero"):
        return [(st, nz_get(ip, a[0], self_ty))]
    if nm == "new" and sa and sa.endswith("NonZero"):
        out = []
        s2 = st.copy()
        if st.assume(eq0(a[0]), 0):
            out.append((st, some(mk("nz", a[0]))))
        if s2.assume(eq0(a[0]), 1):
            out.append((s2, NONE))
        return out
    if nm == "new_unchecked" and sa and sa.endswith("NonZero"):
        return [(st, mk("nz", a[0]))]
    if trait == "Default" and nm == "default" and c.body is None:
        return [(st, default_of(ip, self_ty))]
    if path.endswith("mem::size_of"):
        ty = c.targs[0] if c.targs else None
        if ty and ty[0] == "int":
            return [(st, I(ty[1] // 8))]
        n = size_of(ip.p, ty)
        return [(st, I(n) if n is not None else mk("sizeof", ip.p.tystr(ty) if ty else "?"))]
    # --- closures ---
    if trait in ("FnOnce", "FnMut", "Fn") and nm in ("call_once", "call_mut", "call"):
        args = a[1].a[3] if a[1].a[0] == "agg" else tuple(mk("fld", a[1], i, "tuple") for i in range(len(c.argtys[1][1]) if c.argtys[1] and c.argtys[1][0] == "tuple" else 0))
        return call_fn(ip, st, c, a[0], args, ident)
    if path.endswith("bool>::then_some") or path.endswith("bool>::then"):
        out = []
        s2 = st.copy()
        if s2.assume(a[0], 0):
            out.append((s2, NONE))
        if nm == "then_some":
            if st.assume(a[0], 1):
                out.append((st, some(a[1])))
            return out
        return None
    # --- arrays of bytes ---
    if nm in ("to_be_bytes", "to_le_bytes", "from_be_bytes", "from_le_bytes", "to_ne_bytes") and c.body is None:
        o = nm[3:5] if nm.startswith("to") else nm[5:7]
        if nm.startswith("to"):
            if a[0].a[0] == "frombytes" and a[0].a[1] == o:
                return [(st, a[0].a[2])]
            w = self_ty[1] // 8 if self_ty and self_ty[0] == "int" else (c.retty[2] if c.retty and c.retty[0] == "array" else 0)
            return [(st, mk("tobytes", o, a[0], w))]
        if a[0].a[0] == "tobytes" and a[0].a[1] == o:
            return [(st, a[0].a[2])]
        return [(st, mk_frombytes(o, a[0]))]
    # --- iterators ---
    if trait == "IntoIterator" and nm == "into_iter" and c.body is None:
        ty = c.argtys[0]
        if ty and ty[0] == "adt" and (ty[1].endswith("Range") or ty[1].endswith("RangeInclusive") or "iter" in ty[1].lower()):
            return [(st, a[0])]
        if c.retty == ty:
            return [(st, a[0])]
        if ty and ty[0] == "ref" and ty[2][0] in ("slice", "array"):
            return [(st, mk("iter", ip.freeze(st, a[0]), I(0)))]
        return None
    if trait == "Iterator" and nm == "next" and c.body is None:
        it = content(ip, st, a[0])
        if sa == "core::ops::range::Range":
            if it.a[0] == "agg":
                lo, hi = it.a[3]
            else:
                lo, hi = mk("fld", it, 0, sa), mk("fld", it, 1, sa)
            ip.note_ty(lo, self_ty[2][0])
            ip.note_ty(hi, self_ty[2][0])
            s2 = st.copy()
            out = []
            if st.assume(lt(lo, hi), 1):
                setcontent(ip, st, a[0], agg(("adt", sa), 0, add(lo, I(1)), hi))
                out.append((st, some(lo)))
            if s2.assume(lt(lo, hi), 0):
                out.append((s2, NONE))
            return out
    return None


def self_int(c):
    return True


def nz_get(ip, v, ty):
    if v.a[0] == "nz":
        return v.a[1]
    t = mk("nzget", v)
    if ty and ty[2] and ty[2][0][0] == "int":
        ip.note_ty(t, ty[2][0])
    return t


def pointee(ty):
    return ty[2] if ty and ty[0] == "ref" else ty


def strip1(ip, st, v, ty):
    """Peels references until one reference level remains"""
    while ty is not None and ty[0] == "ref" and ty[2][0] == "ref":
        v = content(ip, st, v)
        ty = ty[2]
    return v


def strip(ip, st, v, ty):
    n = 0
    while ty is not None and ty[0] == "ref":
        v = content(ip, st, v)
        ty = ty[2]
        n += 1
    if n == 0 and ty is None:
        while v.a[0] in ("ref", "&"):
            v = content(ip, st, v)
    return ip.freeze(st, v)


def deref_like(ip, st, v, self_ty):
    """Smart pointer / container views are transparent: the view of a
    container is the reference to the container itself."""
    return v


def derived_eq(ip, ty):
    return False


def is_derived_clone(ip, c):
    return True


def default_of(ip, ty):
    if ty is None:
        return mk("default", "?")
    if ty[0] in ("int", "bool", "char"):
        return I(0)
    if ty[0] == "adt" and ty[1] == OPTION:
        return NONE
    if ty[0] == "tuple":
        return mk("agg", "tuple", 0, tuple(default_of(ip, t) for t in ty[1]))
    if ty[0] == "array" and ty[1] == ("int", 8, False) and isinstance(ty[2], int):
        return mk("bytes", bytes(ty[2]))
    return mk("default", ip.p.tystr(ty))


def optres(ip, st, c, sa, nm, a):
    isopt = sa == OPTION
    good = 1 if isopt else 0
    bad = 1 - good

    def isref():
        return c.argtys[0] is not None and c.argtys[0][0] == "ref"

    v = a[0] if a else None
    if nm in ("is_some", "is_none", "is_ok", "is_err", "is_some_and", "is_none_or", "is_ok_and"):
        x = content(ip, st, v) if isref() else v
        if nm in ("is_some_and", "is_none_or", "is_ok_and"):
            outs = []
            s2 = st.copy()
            if x.a[0] == "agg":
                if x.a[2] != good:
                    return [(st, TRUE if nm == "is_none_or" else FALSE)]
                return call_fn(ip, st, c, a[1], [x.a[3][0]], ident)
            return None
        d = I(x.a[2]) if x.a[0] == "agg" else mk_discr(x, (0, 1))
        want = good if nm in ("is_some", "is_ok") else bad
        if d.a[0] != "i":
            set_width(d, 1, False)
        return [(st, teq(d, I(want)))]
    if nm in ("as_ref", "as_mut", "as_deref", "as_deref_mut"):
        x = content(ip, st, v)
        r, p = ip.deref(v)
        out = []
        for s, k, pl in fork_variant(ip, st, x, sa):
            if k == good:
                ref = mk("ref", r, p + (("v", good), ("f", 0, None)), "mut" in nm)
                out.append((s, agg(("adt", sa), good, ref)))
            elif isopt:
                out.append((s, NONE))
            else:
                out.append((s, err(mk("ref", r, p + (("v", 1), ("f", 0, None)), "mut" in nm))))
        return out
    if nm in ("cloned", "copied"):
        out = []
        for s, k, pl in fork_variant(ip, st, v, sa):
            if k == good:
                out.append((s, agg(("adt", sa), good, content(ip, s, pl[0]))))
            else:
                out.append((s, NONE if isopt else err(pl[0])))
        return out
    if nm in ("unwrap", "expect", "unwrap_unchecked"):
        out = []
        for s, k, pl in fork_variant(ip, st, v, sa):
            if k == good:
                out.append((s, pl[0]))
            else:
                s.event("panicpath", c.path, c.span, c.fn, v)
        return out
    if nm in ("unwrap_or", "unwrap_or_default"):
        out = []
        for s, k, pl in fork_variant(ip, st, v, sa):
            out.append((s, pl[0] if k == good else (a[1] if nm == "unwrap_or" else default_of(ip, c.retty))))
        return out
    if nm == "ok" and not isopt:
        out = []
        for s, k, pl in fork_variant(ip, st, v, sa):
            out.append((s, some(pl[0]) if k == 0 else NONE))
        return out
    if nm == "err" and not isopt:
        out = []
        for s, k, pl in fork_variant(ip, st, v, sa):
            out.append((s, some(pl[0]) if k == 1 else NONE))
        return out
    if nm == "ok_or":
        out = []
        for s, k, pl in fork_variant(ip, st, v, sa):
            out.append((s, ok(pl[0]) if k == 1 else err(a[1])))
        return out
    if nm in ("take", "replace"):
        x = content(ip, st, v)
        setcontent(ip, st, v, NONE if nm == "take" else some(a[1]))
        return [(st, x)]
    if nm in ("transpose", "flatten"):
        return None
    if nm in ("map", "and_then", "map_err", "or_else", "ok_or_else", "unwrap_or_else", "map_or", "map_or_else", "filter", "inspect"):
        vs = fork_variant(ip, st, v, sa)
        outs = []
        inl = None
        for s, k, pl in vs:
            if nm == "map":
                r = call_fn(ip, s, c, a[1], pl, lambda s, x: agg(("adt", sa), good, x)) if k == good else [(s, NONE if isopt else err(pl[0]))]
            elif nm == "and_then":
                r = call_fn(ip, s, c, a[1], pl, ident) if k == good else [(s, NONE if isopt else err(pl[0]))]
            elif nm == "map_err":
                r = [(s, ok(pl[0]))] if k == 0 else call_fn(ip, s, c, a[1], pl, lambda s, x: err(x))
            elif nm == "or_else":
                r = [(s, agg(("adt", sa), good, pl[0]))] if k == good else call_fn(ip, s, c, a[1], () if isopt else pl, ident)
            elif nm == "ok_or_else":
                r = [(s, ok(pl[0]))] if k == 1 else call_fn(ip, s, c, a[1], (), lambda s, x: err(x))
            elif nm == "unwrap_or_else":
                r = [(s, pl[0])] if k == good else call_fn(ip, s, c, a[1], () if isopt else pl, ident)
            elif nm == "map_or":
                r = call_fn(ip, s, c, a[2], pl, ident) if k == good else [(s, a[1])]
            elif nm == "map_or_else":
                r = call_fn(ip, s, c, a[2], pl, ident) if k == good else call_fn(ip, s, c, a[1], () if isopt else pl, ident)
            elif nm == "inspect":
                return None
            else:
                return None
            outs.append((s, r))
        return merge(outs)
    return None


class Multi(list):
    """A list of per-state outcomes where some continue into an inlined body"""


def merge(outs):
    if all(isinstance(r, list) for _, r in outs):
        return [x for _, r in outs for x in r]
    return Multi(outs)


def size_of(p, ty):
    """The size of plain integers and of wrappers around one, None for the rest"""
    while ty is not None and ty[0] == "adt" and ty[1] in p.adts:
        a = p.adts[ty[1]]
        if a["kind"] != "struct" and a["kind"] != "Struct":
            return None
        fs = a["v"][0]["f"]
        if len(fs) != 1:
            return None
        ty = p.ty(fs[0][1])
    if ty is not None and ty[0] == "int":
        return ty[1] // 8
    if ty is not None and ty[0] == "array" and isinstance(ty[2], int):
        n = size_of(p, ty[1])
        return None if n is None else n * ty[2]
    return None
