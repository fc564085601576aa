"""ABI message bodies.  The functions of contracts, functions and events that make and parse bodies are followed on the compiler's MIR:
the serializer is a log of what is reserved and written, slices are logs of what is read, cells are terms of what they were built
from.  Bodies written are compared with the layout of the ABI version, and bodies read with the same layout: the order of signature,
headers, id and arguments, the space counted for the signature, the hash to sign, what follows a wrong id or an unread rest."""
from abicore import *
from par import pmap

EXPLAIN = __doc__
ASSUMPTIONS = ["rustc's MIR is what is compiled", "values and headers are written and read as C19 has it", "primitives of builders and slices follow C05 and C06",
               "sha256, ed25519 and the clock are opaque"]
_p = None
C = "tycho_types::abi::contract::"
FUN, EVENT, EXT = C + "Function", C + "Event", C + "ExternalInput"
UB, UM = C + "UnsignedBody", C + "UnsignedExternalMessage"
VERSIONS = [(1, 0), (2, 0), (2, 1), (2, 2), (2, 3), (2, 4), (3, 0)]
S = ("main",)
INT = ("I",)


def one(xs, what):
    if len(xs) != 1:
        raise Undecided("%d functions %s" % (len(xs), what))
    return xs[0]


def fn(ty, nm):
    return one([b for b in _p.method(ty, nm) if "::abi::" in b["path"] or b["path"].startswith("<tycho_types::abi")], "%s::%s" % (ty, nm))


class Body(Reader):
    """serializers are logs; functions named in `calls` are opaque"""
    calls = {}

    def hook(s, ip, st, c, a):
        f = s.calls.get((c["path"].split("::")[-2].split("<")[0] if "::" in c["path"] else "", c["nm"])) or s.calls.get(c["nm"])
        if f is not None:
            r = f(ip, st, c, a)
            if r is not None:
                return r
        if c["nm"] == "try_into" or c["nm"] == "context" or c["nm"] == "with_context":
            return None
        return Reader.hook(s, ip, st, c, a)

    def fn_new(s, ip, st, c, a):
        t = str(s.p.tystr(c["retty"] or c["self"] or ("tuple", ()))).split("<")[0].split("::")[-1]
        if t == "AbiSerializer":
            return [(st, Opq("ser", (s.term(ip, st, a[0]), ())))]
        return Abi.fn_new(s, ip, st, c, a)

    def on_ser(s, ip, st, c, a, v):
        nm = c["nm"]
        ver, log = v.args

        def put(x, fails=False):
            pl = s.place(ip, st, a[0])
            ip.write(st, pl.root, pl.path, Opq("ser", (ver, log + (x,))))
            return s.either(st, UNIT, nm) if fails else [(st, UNIT)]
        if nm == "add_offset":
            z = s.val(ip, st, a[1])
            return put(("offset", s.num(ip, st, get(s.p, z, "bits")), s.num(ip, st, get(s.p, z, "refs"))))
        if nm == "reserve_headers":
            return put(("reserve headers", s.term(ip, st, s.whole(ip, st, a[1])), s.num(ip, st, a[2])))
        if nm == "reserve_value":
            return put(("reserve", s.term(ip, st, a[1])))
        if nm == "write_value":
            return put(("write", s.term(ip, st, a[1])), True)
        if nm == "write_header_value":
            return put(("write", s.term(ip, st, a[1])), True)
        if nm == "write_tuple":
            x = s.whole(ip, st, a[1])
            for i in range(x.n.c):
                e = s.val(ip, st, ip.elem(st, x, K(i)))
                log += (("write", s.term(ip, st, get(s.p, e, "value"))),)
            pl = s.place(ip, st, a[0])
            ip.write(st, pl.root, pl.path, Opq("ser", (ver, log)))
            return s.either(st, UNIT, nm)
        if nm in ("finalize", "take_finalize"):
            return s.either(st, Opq("log", (Item("ser", (ver, log)),)), nm)
        raise Undecided("AbiSerializer::" + nm)

    def whole(s, ip, st, v):
        """a slice of a whole vector -> the vector"""
        if isinstance(v, Sl):
            x = ip.read(st, v.root, v.path)
            if isinstance(x, Arr) and v.off.c == 0 and not v.off.t and L(v.len) == L(x.n):
                return x
            raise Undecided("part of a vector")
        x = s.val(ip, st, v)
        if not isinstance(x, Arr):
            raise Undecided("vector %s" % (x,))
        return x

    def term(s, ip, st, v):
        v = s.val(ip, st, v)
        if isinstance(v, Sl):
            x = ip.read(st, v.root, v.path)
            if isinstance(x, Arr) and not v.len.t and not v.off.t:
                return ("list",) + tuple(s.term(ip, st, ip.elem(st, x, K(v.off.c + i))) for i in range(v.len.c))
        return Abi.term(s, ip, st, v)

    def on_big(s, ip, st, c, a, v):
        return None

    def fn_from(s, ip, st, c, a):
        t = s.p.tystr(c["retty"] or c["self"] or ("tuple", ())).split("::")[-1]
        if t in ("BigUint", "BigInt") and isinstance(a[0], (Af, Bv)):
            return [(st, Opq("big", ("word", t, s.num(ip, st, a[0]))))]
        return Reader.fn_from(s, ip, st, c, a)

    # cells
    def fn_default(s, ip, st, c, a):
        t = s.p.tystr(c["retty"] or c["self"] or ("tuple", ())).split("<")[0].split("::")[-1]
        if t == "Cell":
            return [(st, Opq("cell", (("built", ()),)))]
        if t == "Option":
            return [(st, NONE)]
        if t in ("CellBuilder", "CellDataBuilder"):
            return [(st, Opq("log", ()))]
        return Reader.fn_default(s, ip, st, c, a)

    def fn_empty_cell(s, ip, st, c, a):
        return [(st, Opq("cell", (("built", ()),)))]

    fn_empty_cell_ref = fn_empty_cell

    def fn_from_raw_data(s, ip, st, c, a):
        return s.either(st, Opq("log", (Item("raw", s.raw(ip, st, a[0]), s.num(ip, st, a[1])),)), "from_raw_data")

    def raw(s, ip, st, v):
        x = s.val(ip, st, v)
        if isinstance(x, Opq):
            return (x.name,) + x.args
        if isinstance(x, Sl):
            y = ip.read(st, x.root, x.path)
            if isinstance(y, Opq):
                return (y.name,) + y.args
            x = y
        if isinstance(x, Arr) and not x.n.t:
            es = [ip.elem(st, x, K(i)) for i in range(x.n.c)]
            if es and isinstance(es[0], Opq) and es[0].name == "sb" and [y.args for y in es] == [(es[0].args[0], i) for i in range(64)]:
                return ("sig",) + es[0].args[0]
            return ("bytes",) + tuple(s.num(ip, st, ip.elem(st, x, K(i))) for i in range(x.n.c))
        raise Undecided("bytes %s" % (x,))

    bytes_of = raw

    def on_log(s, ip, st, c, a, v):
        if c["nm"] in ("store_slice", "store_cell_data"):
            x = s.val(ip, st, a[1])
            if isinstance(x, Opq) and x.name == "sub":
                pl = s.place(ip, st, a[0])
                ip.write(st, pl.root, pl.path, Opq("log", v.args + (Item("content", x.args),)))
                return s.either(st, UNIT, c["nm"])
        return Abi.on_log(s, ip, st, c, a, v)

    def on_cell(s, ip, st, c, a, v):
        if c["nm"] in ("as_slice", "as_slice_allow_exotic"):
            return s.either(st, Opq("sub", v.args), "as_slice")
        if c["nm"] == "repr_hash":
            return [(st, s.put(st, Opq("hash", v.args)))]
        if c["nm"] in ("into", "from"):
            return [(st, v)]
        return Abi.on_cell(s, ip, st, c, a, v)

    def on_hash(s, ip, st, c, a, v):
        return [(st, a[0])] if c["nm"] in ("as_array", "as_slice", "as_ref", "deref") else None

    def on_dst(s, ip, st, c, a, v):
        if c["nm"] == "store_into":
            pl = s.place(ip, st, a[1])
            x = ip.read(st, pl.root, pl.path)
            ip.write(st, pl.root, pl.path, Opq("log", x.args + (Item("dst", v.args),)))
            return s.either(st, UNIT, "store_into")
        return [(st, v)] if c["nm"] == "clone" else None

    def on_pubkey(s, ip, st, c, a, v):
        return [(st, a[0])] if c["nm"] in ("as_ref", "deref") else [(st, v)] if c["nm"] == "clone" else None

    def on_types(s, ip, st, c, a, v):
        if c["nm"] in ("from", "into", "into_boxed_slice"):
            return [(st, v)]
        return [(st, a[0])] if c["nm"] in ("deref", "as_ref", "as_slice", "borrow") else [(st, v)] if c["nm"] == "clone" else None

    def on_name(s, ip, st, c, a, v):
        return [(st, a[0])] if c["nm"] in ("deref", "as_ref", "as_str", "borrow") else [(st, v)] if c["nm"] in ("clone", "from", "into") else None

    on_values = on_name

    def fn_extend_from_slice(s, ip, st, c, a):
        pl = s.place(ip, st, a[0])
        v, x = ip.read(st, pl.root, pl.path), a[1]
        while isinstance(x, Ref):
            x = ip.read(st, x.root, x.path)
        y, o, n = (ip.read(st, x.root, x.path), x.off, x.len) if isinstance(x, Sl) else (x, K(0), x.n if isinstance(x, Arr) else None)
        if not (isinstance(v, Arr) and isinstance(y, Arr)) or v.n.t or n.t or o.t:
            return None
        d = dict(v.d)
        for i in range(n.c):
            d[((), v.n.c + i)] = ip.elem(st, y, K(o.c + i))
        ip.write(st, pl.root, pl.path, Arr(K(v.n.c + n.c), d, None))
        return [(st, UNIT)]

    def fn_concat(s, ip, st, c, a):
        x = a[0]
        while isinstance(x, Ref):
            x = ip.read(st, x.root, x.path)
        if isinstance(x, Sl) and not x.len.t and not x.off.t:
            o, n, x = x.off.c, x.len.c, ip.read(st, x.root, x.path)
        elif isinstance(x, Arr) and not x.n.t:
            o, n = 0, x.n.c
        else:
            return None
        r = s.put(st, Arr(K(0), {}, None))
        for i in range(n):
            if s.fn_extend_from_slice(ip, st, c, [r, ip.elem(st, x, K(o + i))]) is None:
                return None
        return [(st, ip.read(st, r.root, r.path))]

    # reading
    def on_rd(s, ip, st, c, a, v):
        if c["nm"] == "load_reference" or c["nm"] == "load_reference_cloned":
            t, n, bad = s.ev(st, v, "ref", v.args)
            return [(t, Ok(Opq("cell", (n,))))] + bad
        return Reader.on_rd(s, ip, st, c, a, v)

    def on_val(s, ip, st, c, a, v):
        return [(st, v)] if c["nm"] == "clone" else None


def opaque(e):
    """calls of parts that other rules or jobs decide"""
    def check_types(ip, st, c, a):
        x = e.val(ip, st, a[1])
        e.event(st, "check", e.term(ip, st, a[0]), (x.name,) + x.args if isinstance(x, Opq) else e.term(ip, st, x))
        return e.either(st, UNIT, "check_types")

    def load_tuple_ext(ip, st, c, a):
        x, sl = e.val(ip, st, a[0]), e.val(ip, st, a[4])
        t, n, bad = e.ev(st, sl, "tuple", (x.name,) + x.args, e.term(ip, st, a[1]), e.num(ip, st, a[2]), e.num(ip, st, a[3]), sl.args)
        return [(t, Ok(Opq("values", (n,))))] + bad

    def skip_all(ip, st, c, a):
        x, sl = e.val(ip, st, a[0]), e.val(ip, st, a[1])
        t, n, bad = e.ev(st, sl, "headers", (x.name,) + x.args, sl.args)
        return [(t, Ok(UNIT))] + bad

    def now_ms(ip, st, c, a):
        st.mem[("clock",)] = True
        return [(st, K(NOW, 64))]
    return {"check_types": check_types, "load_tuple_ext": load_tuple_ext, "skip_all": skip_all, "now_ms": now_ms}


NOW = 1234567890123


def engine(targets, fail=True):
    e = Body(_p, [b["path"] for b in targets], fail)
    e.maxof = {"addr": 591, "tok": 124}
    e.calls = opaque(e)
    ip = Interp(_p, [e.hook])
    ip.recursion = 2
    ip.opaque_field = lambda st, v, i: v if isinstance(v, (Ref, Opq)) else None
    return e, ip


def vterm(v):
    return ("AbiVersion", 0, (v[0], ()), (v[1], ()))


def tokens(e, st, k):
    vals = [Opq("val", ("X%d" % i,)) for i in range(k)]
    r = e.put(st, e.vec([mkadt(_p, NV, name=Opq("name", ("N%d" % i,)), value=v) for i, v in enumerate(vals)]))
    return Sl(r.root, r.path, K(0), K(k)), [("val", "X%d" % i) for i in range(k)]


def result(t):
    return t.val.v if isinstance(t.val, Ag) and t.val.k == RESULT else None


def function(e, st, ver, headers=None):
    e.var(st, "id", 0, (1 << 32) - 1), e.var(st, "oid", 0, (1 << 32) - 1)
    hs = e.vec([e.variant(HT, x) for x in headers]) if headers is not None else Opq("types", ("headers",))
    return e.put(st, mkadt(_p, FUN, abi_version=e.version(*ver), name=Opq("name", ("F",)), headers=e.put(st, hs), inputs=Opq("types", ("in",)),
                           outputs=Opq("types", ("out",)), input_id=Af(32, False, 0, (("id", 1),)), output_id=Af(32, False, 0, (("oid", 1),))))


def event(e, st, ver):
    e.var(st, "id", 0, (1 << 32) - 1)
    return e.put(st, mkadt(_p, EVENT, abi_version=e.version(*ver), name=Opq("name", ("F",)), inputs=Opq("types", ("in",)), id=Af(32, False, 0, (("id", 1),))))


def idval(nm):
    b, = [i for i, x in enumerate(_p.adts[AV]["v"]) if x["n"] == "Uint"]
    return ("AbiValue", b, (32, ()), ("big", "word", "BigUint", (0, ((nm, 1),))))


def order(st, log, want, what, offset=None):
    """the log of a serializer: everything is reserved before anything is written, and written in order"""
    out = []
    w = [x[1] for x in log if x[0] == "write"]
    first = min([i for i, x in enumerate(log) if x[0] == "write"], default=len(log))
    if any(x[0] != "write" for x in log[first:]):
        out.append(("reserve", "%s: space is reserved after a value is written" % what))
    if not same_what(st, tuple(w), tuple(want)):
        out.append(("order", "%s: written are %s, expected %s" % (what, w, want)))
    hs = [x for x in log if x[0] == "reserve headers"]
    res = [x[1] for x in log if x[0] == "reserve"]
    rest = [x for x in want if x[0] != "AbiHeader"]
    for x in res:
        for y in rest:
            if same_what(st, x, y):
                rest.remove(y)
                break
        else:
            out.append(("reserve", "%s: space is reserved for %s, which is not written" % (what, x)))
    if rest:
        out.append(("reserve", "%s: no space is reserved for %s" % (what, rest)))
    off = [x for x in log if x[0] == "offset"]
    have = (ladd(*[x[1] for x in off]), ladd(*[x[2] for x in off])) if off else (ZERO, ZERO)
    if have != (offset or (ZERO, ZERO)):
        out.append(("signature", "%s: %s bits and %s references are left for the signature, expected %s" % (what, show(have[0]), show(have[1]), offset)))
    return out, hs


def run(e, ip, st, b, args, what, good, bad_ok=None, events=True):
    """common treatment of panics, failing parts and refused inputs"""
    probs, n = [], 0
    for t in ip.run(st, b, args):
        n += 1
        if t.kind == "panic":
            probs.append(("panic", "%s can panic (%s)" % (what, (t.why or "?")[0])))
            continue
        if t.st.flags:
            probs.append(("wraps", "%s: %s" % (what, flags_text(t.st))))
        if t.st.mem.get(FAIL):
            if result(t) != 1:
                probs.append(("error", "%s: an error of %s is not reported" % (what, t.st.mem[FAIL][0])))
            continue
        if result(t) == 1:
            if not (bad_ok and bad_ok(t.st)):
                probs.append(("refused", "%s fails" % what))
            continue
        probs += good(t, t.val.f[0] if result(t) == 0 else t.val)
    return probs, n


def the_log(x, built=False):
    if built:
        return x.args[0][1] if isinstance(x, Opq) and x.name == "cell" and isinstance(x.args[0], tuple) and x.args[0][0] == "built" else None
    return x.args if isinstance(x, Opq) and x.name == "log" else None


def plain(who, nm, ver, k):
    """bodies of internal messages, answers and events"""
    b = fn(who, nm)
    enc = fn("Function", "encode_internal_msg_body")
    e, ip = engine((b, enc) if b is not enc else (b,))
    st = ip.state()
    tok, vals = tokens(e, st, k)
    if nm == "encode_internal_msg_body":
        e.var(st, "id", 0, (1 << 32) - 1)
        args, idn, ty = [e.version(*ver), Af(32, False, 0, (("id", 1),)), tok], "id", None
    else:
        args = [function(e, st, ver) if who == "Function" else event(e, st, ver), tok]
        idn, ty = ("oid", ("types", "out")) if nm == "encode_output" else ("id", ("types", "in"))
    what = "%s::%s, ABI %d.%d, %d arguments" % (who, nm, ver[0], ver[1], k)

    def good(t, x):
        lg = the_log(e.val(ip, t.st, x))
        if not lg or len(lg) != 1 or lg[0].kind != "ser" or lg[0].what[0] != vterm(ver):
            return [("layout", "%s gives %s" % (what, x))]
        out, hs = order(t.st, lg[0].what[1], [idval(idn)] + vals, what)
        if hs:
            out.append(("reserve", "%s: headers are reserved" % what))
        ev = t.st.mem.get(EV, ())
        if ty and not any(y[0] == "check" and y[2] == ty and len(y[1]) == k + 1 for y in ev):
            out.append(("types", "%s: the types of the arguments are not checked against %s: %s" % (what, ty, ev)))
        return out
    return run(e, ip, st, b, args, what, good)


def parse(who, nm, ver, allow):
    """what is read from a body"""
    b = fn(who, nm)
    ext = nm.endswith("_ext")
    tg = [b] if ext else [b, fn(who, nm + "_ext")]
    e, ip = engine(tg)
    st = ip.state()
    f = function(e, st, ver) if who == "Function" else event(e, st, ver)
    st.mem[("SL",)] = Opq("rd", S)
    args = [f, Ref(("SL",)), K(allow, 1)] if ext else [f, Opq("rd", S)]
    if not ext:
        allow = 0
    al = (allow, ())
    idn, ty = ("oid", ("types", "out")) if "output" in nm else ("id", ("types", "in"))
    what = "%s::%s, ABI %d.%d" % (who, nm, *ver)

    def expected(st, ev):
        if "external" not in nm:
            return [("u", (32, ()), S)], "r0"
        if ver[0] == 1:
            return [("u", (32, ()), S), ("ref", S), ("headers", ("types", "headers"), S)], "r0"
        out = [("u", ONE, S)]
        if st.holds(-1, (("r0", 1),)):
            out.append(("skip", (512, ()), S))
        elif not st.holds(0, (("r0", -1),)):
            return [("?",)], "r0"
        out += [("headers", ("types", "headers"), S), ("u", (32, ()), S)]
        return out, "r%d" % (len(out) - 1)

    def id_ok(st, r):
        return same(st, (0, ((r, 1),)), (0, ((idn, 1),)))

    def good(t, x):
        ev = [tuple(y) for y in t.st.mem.get(EV, ())]
        want, r = expected(t.st, ev)
        n = len(want)
        want = want + [("tuple", ty, vterm(ver), ONE, al, S), ("end", al, S)]
        out = []
        if not same_what(t.st, tuple(ev), tuple(want)):
            return [("reads", "%s reads %s, expected %s" % (what, ev, want))]
        if not id_ok(t.st, r):
            out.append(("id", "%s: a body with another id is accepted" % what))
        y = e.val(ip, t.st, x)
        if not (isinstance(y, Opq) and y.name == "values" and y.args == ("r%d" % n,)):
            out.append(("value", "%s gives %s" % (what, y)))
        return out

    def bad_ok(st):
        ev = [tuple(y) for y in st.mem.get(EV, ())]
        want, r = expected(st, ev)
        if not same_what(st, tuple(ev[:len(want)]), tuple(want)) or len(ev) > len(want):
            return False
        t = st.copy()
        return not (t.add(0, ((r, 1), (idn, -1))) and t.add(0, ((r, -1), (idn, 1))) and feasible(t.all_cons()))
    return run(e, ip, st, b, args, what, good, bad_ok)


def external(reserve, ver, headers, key, time, expire, k):
    """the payload of an external message"""
    b = fn("ExternalInput", "build_payload")
    e, ip = engine([b])
    st = ip.state()
    tok, vals = tokens(e, st, k)
    f = function(e, st, ver, headers)
    T = 1600000000987
    tm = Some(K(T, 64)) if time else NONE
    if expire:
        e.var(st, "exp", 0, (1 << 32) - 1)
    ex = Some(Af(32, False, 0, (("exp", 1),))) if expire else NONE
    pk = Some(e.put(st, Opq("pubkey", ("P",)))) if key else NONE
    x = e.put(st, mkadt(_p, EXT, function=f, tokens=tok, time=tm, expire_at=ex, pubkey=pk, address=NONE))
    now = T if time else NOW
    until = (0, (("exp", 1),)) if expire else ((now // 1000 + 60) % (1 << 32), ())
    hv = {y["n"]: i for i, y in enumerate(_p.adts[HV]["v"])}
    hd = {"Time": ("AbiHeader", hv["Time"], (now, ())), "Expire": ("AbiHeader", hv["Expire"], until),
          "PublicKey": ("AbiHeader", hv["PublicKey"], ("Option", 1, ("pubkey", "P")) if key else ("Option", 0))}
    av = {y["n"]: i for i, y in enumerate(_p.adts[AV]["v"])}
    hw = [hd[y] for y in headers]
    if ver[0] == 1:
        sig = [] if reserve else [("AbiValue", av["Cell"], ("cell", ("built", ())))]
        want = sig + [idval("id")] + hw + vals
        offset = (ZERO, ONE if reserve else ZERO)
    else:
        sig = [] if reserve else [("AbiValue", av["Bool"], ZERO)]
        want = sig + hw + [idval("id")] + vals
        offset = ((591 if ver >= (2, 3) else 513, ()), ZERO)
    what = "%s body, ABI %d.%d, headers %s" % ("a signed" if reserve else "an unsigned", ver[0], ver[1], list(headers))

    def good(t, r):
        out = []
        r = e.val(ip, t.st, r)
        if e.num(ip, t.st, r.f[0]) != until:
            out.append(("expire", "%s: it is said to expire at %s, expected %s" % (what, r.f[0], show(until))))
        lg = the_log(e.val(ip, t.st, r.f[1]), True)
        if not lg or len(lg) != 1 or lg[0].kind != "ser" or lg[0].what[0] != vterm(ver):
            return out + [("layout", "%s is built as %s" % (what, r.f[1]))]
        p, hs = order(t.st, lg[0].what[1], want, what, offset)
        out += p
        if headers and [tuple(y) for y in hs] != [("reserve headers", ("list",) + tuple(("AbiHeaderType", tv(y)) for y in headers), (int(key), ()))]:
            out.append(("reserve", "%s: headers are reserved as %s" % (what, hs)))
        if not any(y[0] == "check" and y[2] == ("types", "in") and len(y[1]) == k + 1 for y in t.st.mem.get(EV, ())):
            out.append(("types", "%s: the types of the arguments are not checked" % what))
        if t.st.mem.get(("clock",)) and time:
            out.append(("time", "%s: the clock is read although a time is given" % what))
        return out
    return run(e, ip, st, b, [x, K(int(reserve), 1)], what, good)


def tv(nm):
    return [i for i, y in enumerate(_p.adts[HT]["v"]) if y["n"] == nm][0]


def ubody(e, st, ver):
    e.var(st, "exp", 0, (1 << 32) - 1)
    return mkadt(_p, UB, abi_version=e.version(*ver), payload=Opq("cell", ("P",)), hash=Opq("hash", ("H",)), expire_at=Af(32, False, 0, (("exp", 1),)))


def sig_bytes(*of):
    return Arr(K(64), {((), i): Opq("sb", (of, i)) for i in range(64)}, None)


def sig_items(ver, sig):
    if ver[0] == 1:
        raw = (Item("raw", sig, (512, ())),) if sig else ()
        head = [Item("ref", ("cell", ("built", raw)), ZERO, ONE)]
    else:
        head = [Item("u", (int(bool(sig)), ()), ONE)] + ([Item("raw", sig, (512, ()))] if sig else [])
    return tuple(head + [Item("content", ("P",))])


def fill(ver, with_sig):
    """the signature is put where the reader expects it"""
    b = fn("UnsignedBody", "fill_signature")
    e, ip = engine([b])
    st = ip.state()
    x = e.put(st, ubody(e, st, ver))
    sg = Some(e.put(st, sig_bytes("G"))) if with_sig else NONE
    what = "a body %s, ABI %d.%d" % ("with a signature" if with_sig else "without signature", *ver)
    want = sig_items(ver, ("sig", "G") if with_sig else None)

    def good(t, r):
        lg = the_log(e.val(ip, t.st, r), True)
        if lg is None or not same_what(t.st, tuple(lg), want):
            return [("signed", "%s holds %s, expected %s" % (what, lg, list(want)))]
        return []
    return run(e, ip, st, b, [x, sg], what, good)


def to_sign(ver, address, nm):
    """the hash to sign, and the messages made of it"""
    b = fn("ExternalInput", nm)
    ext = fn("ExternalInput", "build_input_ext")
    e, ip = engine([b, ext, fn("UnsignedBody", "with_dst")])

    def payload(ip, st, c, a):
        if e.num(ip, st, a[1]) != ONE:
            e.bad(st, "the payload is built without a place for the signature")
        return e.either(st, Ag("tuple", 0, (Af(32, False, 0, (("exp", 1),)), Opq("cell", ("P",)))), "build_payload")
    e.calls = dict(e.calls, build_payload=payload)
    st = ip.state()
    e.var(st, "exp", 0, (1 << 32) - 1)
    f = function(e, st, ver, ())
    own = Some(e.put(st, Opq("dst", ("OWN",)))) if address else NONE
    x = e.put(st, mkadt(_p, EXT, function=f, tokens=Opq("types", ("tokens",)), time=NONE, expire_at=NONE, pubkey=NONE, address=own))
    args, adr = [x], ("OWN",) if address else None
    if nm == "build_input_ext":
        args, adr = [x, Some(e.put(st, Opq("dst", ("ARG",)))) if address else NONE], ("ARG",) if address else None
    if nm == "build_message":
        args, adr = [x, e.put(st, Opq("dst", ("ARG",)))], ("ARG",)
    what = "%s, ABI %d.%d" % (nm, *ver)
    if ver >= (2, 3):
        want = ("hash", ("built", (Item("dst", adr), Item("content", ("P",)))))
    else:
        want = ("hash", "P")

    def good(t, r):
        out = [("payload", "%s: %s" % (what, y)) for y in t.st.mem.get(BAD, ())]
        if ver >= (2, 3) and adr is None:
            return [("address", "%s: a hash is made without an address" % what)]
        r = e.val(ip, t.st, r)
        if nm == "build_message":
            d = e.term(ip, t.st, get(_p, r, "dst"))
            if d != ("dst", "ARG") or e.term(ip, t.st, get(_p, r, "init")) != ("Option", 0):
                out.append(("message", "%s: the message goes to %s" % (what, d)))
            r = e.val(ip, t.st, get(_p, r, "body"))
        got = {k: e.term(ip, t.st, get(_p, r, k)) for k in ("abi_version", "payload", "hash", "expire_at")}
        exp = {"abi_version": vterm(ver), "payload": ("cell", "P"), "hash": want, "expire_at": (0, (("exp", 1),))}
        for k in exp:
            if not same_what(t.st, got[k], exp[k]):
                out.append((k, "%s: the %s is %s, expected %s" % (what, k, got[k], exp[k])))
        return out
    return run(e, ip, st, b, args, what, good, lambda st: ver >= (2, 3) and adr is None)


def fronts(who, nm):
    """who asks for which signature"""
    b = fn(who, nm)
    fl = fn(who, "fill_signature") if who == "UnsignedBody" else None
    tg = [b] + [x for m in ("with_signature", "into_signed") for x in _p.method(who, m)]
    e, ip = engine(tg)

    def fill(ip, st, c, a):
        x = e.val(ip, st, a[1])
        sg = None if x.v == 0 else e.raw(ip, st, x.f[0])
        y = e.val(ip, st, a[0])
        return e.either(st, Opq("signed", (e.term(ip, st, get(_p, y, "payload")), sg)), "fill_signature")

    def sign(ip, st, c, a):
        i = e.val(ip, st, a[2])
        return [(st, Opq("sigv", (e.term(ip, st, a[0]), e.term(ip, st, a[1]), e.term(ip, st, i))))]

    def to_bytes(ip, st, c, a):
        x = e.val(ip, st, a[0])
        return [(st, sig_bytes(*x.args))] if isinstance(x, Opq) and x.name == "sigv" else None
    e.calls = dict(e.calls, fill_signature=lambda ip, st, c, a: fill(ip, st, c, a) if "UnsignedBody" in c["path"] else None, sign_with_signature_id=sign, to_bytes=to_bytes)
    e.on_signed = lambda ip, st, c, a, v: [(st, v)] if c["nm"] in ("into", "from", "clone") else None
    st = ip.state()
    body = ubody(e, st, (2, 2))
    own = body if who == "UnsignedBody" else mkadt(_p, UM, dst=Opq("dst", ("D",)), body=body, init=Opq("init", ("I",)))
    e.on_init = lambda ip, st, c, a, v: [(st, v)] if c["nm"] == "clone" else None
    e.var(st, "sid", 0, 100)
    sid = Some(Af(32, True, 0, (("sid", 1),)))
    args = {"sign": [own, e.put(st, Opq("key", ("K",))), sid], "with_signature": [own, e.put(st, Opq("sigv", ("G",)))],
            "with_fake_signature": [own], "without_signature": [own], "fill_signature": [e.put(st, own), Some(e.put(st, sig_bytes("G")))]}[nm]
    want = {"sign": ("sig", ("key", "K"), ("hash", "H"), ("Option", 1, (0, (("sid", 1),)))), "with_signature": ("sig", "G"), "fill_signature": ("sig", "G"),
            "with_fake_signature": ("bytes",) + ((0, ()),) * 64, "without_signature": None}[nm]
    what = "%s::%s" % (who, nm)

    def good(t, r):
        r = e.val(ip, t.st, r)
        out = []
        if who != "UnsignedBody":
            info = e.val(ip, t.st, get(_p, r, "info"))
            d = e.term(ip, t.st, get(_p, e.val(ip, t.st, info.f[0]), "dst"))
            if _p.adts[info.k]["v"][info.v]["n"] != "ExtIn" or d[-1] != ("dst", "D"):
                out.append(("message", "%s: the message is %s" % (what, info)))
            if e.term(ip, t.st, get(_p, r, "init")) != ("init", "I"):
                out.append(("message", "%s: the state is %s" % (what, get(_p, r, "init"))))
            r = e.val(ip, t.st, get(_p, r, "body"))
        x = e.term(ip, t.st, r)
        if x != ("signed", ("cell", "P"), want):
            out.append(("signature", "%s signs with %s, expected %s" % (what, x, want)))
        return out
    return run(e, ip, st, b, args, what, good)


def unsigned_message():
    b = fn("ExternalInput", "build_message_without_signature")
    e, ip = engine([b, fn("ExternalInput", "build_input_without_signature")])

    def payload(ip, st, c, a):
        if e.num(ip, st, a[1]) != ZERO:
            e.bad(st, "the payload has a place for a signature")
        return e.either(st, Ag("tuple", 0, (Af(32, False, 0, (("exp", 1),)), Opq("cell", ("P",)))), "build_payload")
    e.calls = dict(e.calls, build_payload=payload)
    st = ip.state()
    e.var(st, "exp", 0, (1 << 32) - 1)
    x = e.put(st, mkadt(_p, EXT, function=function(e, st, (2, 2), ()), tokens=Opq("types", ("tokens",)), time=NONE, expire_at=NONE, pubkey=NONE, address=NONE))

    def good(t, r):
        out = [("payload", y) for y in t.st.mem.get(BAD, ())]
        r = e.val(ip, t.st, r)
        m = e.val(ip, t.st, r.f[1])
        info = e.val(ip, t.st, get(_p, m, "info"))
        d = e.term(ip, t.st, get(_p, e.val(ip, t.st, info.f[0]), "dst"))
        if d[-1] != ("dst", "ARG") or e.term(ip, t.st, get(_p, m, "body")) != ("cell", "P") or e.num(ip, t.st, r.f[0]) != (0, (("exp", 1),)) or \
                e.term(ip, t.st, get(_p, m, "init")) != ("Option", 0):
            out.append(("message", "an unsigned message is %s" % (m,)))
        return out
    return run(e, ip, st, b, [x, e.put(st, Opq("dst", ("ARG",)))], "build_message_without_signature", good)


def ids(who, explicit):
    """ids of functions and events"""
    b = fn(who + "Builder", "build")
    e, ip = engine([b])
    nm = "compute_%s_id" % who.lower()

    def compute(ip, st, c, a):
        e.event(st, "compute", tuple(e.term(ip, st, x) for x in a))
        return [(st, Bv(32, False, [sym(("h",), i) for i in range(32)]))]
    e.calls = dict(e.calls, **{nm: compute})
    st = ip.state()
    e.var(st, "id", 0, (1 << 32) - 1)
    fs = dict(abi_version=e.version(2, 2), name=Opq("name", ("F",)), inputs=Opq("types", ("in",)), id=Some(Af(32, False, 0, (("id", 1),))) if explicit else NONE)
    if who == "Function":
        fs.update(headers=Opq("types", ("headers",)), outputs=Opq("types", ("out",)))
    x = mkadt(_p, C + who + "Builder", **fs)
    what = "%sBuilder::build" % who
    h = [sym(("h",), i) for i in range(32)]
    lo, hi = h[:31] + [0], h[:31] + [1]
    a = [vterm((2, 2)), ("name", "F")] + ([("types", "headers")] if who == "Function" else []) + [("types", "in")] + ([("types", "out")] if who == "Function" else [])
    probs, n = [], 0
    for t in ip.run(st, b, [x]):
        n += 1
        if t.kind == "panic":
            probs.append(("panic", what))
            continue
        ev = t.st.mem.get(EV, ())
        if explicit and ev or not explicit and [tuple(y) for y in ev] != [("compute", tuple(a))]:
            probs.append(("id", "%s: the id is computed of %s, expected %s" % (what, ev, a)))
        for f, w in (("input_id", lo), ("output_id", hi)) if who == "Function" else (("id", lo),):
            y = e.val(ip, t.st, get(_p, t.val, f))
            if explicit:
                ok = e.num(ip, t.st, y) == (0, (("id", 1),))
            else:
                ok = [t.st.bit(z) for z in ip.bits(t.st, y)] == w if isinstance(y, Bv) else False
            if not ok:
                probs.append(("id", "%s: the %s is %s" % (what, f, y)))
        for f, w in (("abi_version", vterm((2, 2))), ("name", ("name", "F")), ("inputs", ("types", "in"))) + \
                ((("headers", ("types", "headers")), ("outputs", ("types", "out"))) if who == "Function" else ()):
            if e.term(ip, t.st, get(_p, t.val, f)) != w:
                probs.append(("field", "%s: the field %s is %s" % (what, f, get(_p, t.val, f))))
    return probs, n


def prefix(some):
    """the bytes signed: the signature id first"""
    b = one([x for x in _p.bodies.values() if x["path"].endswith("abi::signature::extend_signature_with_id")], "extend_signature_with_id")
    e, ip = engine([b])
    st = ip.state()
    N = 32
    r = e.put(st, Arr(K(N), {((), i): Bv(8, False, [sym(("d", i), j) for j in range(8)]) for i in range(N)}, None))
    i = Bv(32, True, [sym(("s",), j) for j in range(32)])
    probs, n = [], 0
    want = [[sym(("d", k), j) for j in range(8)] for k in range(N)]
    if some:
        want = [[sym(("s",), 8 * (3 - k) + j) for j in range(8)] for k in range(4)] + want
    for t in ip.run(st, b, [Sl(r.root, r.path, K(0), K(N)), Some(i) if some else NONE]):
        n += 1
        if t.kind == "panic":
            probs.append(("signed-bytes", "can panic"))
            continue
        x = t.val
        while isinstance(x, Ag):
            x = x.f[0]
        if isinstance(x, Ref):
            x = ip.read(t.st, x.root, x.path)
        if isinstance(x, Sl):
            y = ip.read(t.st, x.root, x.path)
            got = [ip.elem(t.st, y, K(x.off.c + k)) for k in range(x.len.c)]
        elif isinstance(x, Arr):
            got = [ip.elem(t.st, x, K(k)) for k in range(x.n.c)]
        else:
            raise Undecided("bytes %s" % (x,))
        got = [[t.st.bit(q) for q in ip.bits(t.st, y)] for y in got]
        if got != want:
            probs.append(("signed-bytes", "%d bytes are signed, expected %d%s" % (len(got), len(want), "" if len(got) != len(want) else " others")))
    return probs, n


def jobs(tier):
    out = []
    top = 3 if tier == "quick" else 4
    for v in VERSIONS:
        for k in range(top):
            out += [("plain", "Function", m, v, k) for m in ("encode_internal_msg_body", "encode_internal_input", "encode_output")]
            out.append(("plain", "Event", "encode_internal_input", v, k))
        for a in (0, 1):
            out += [("parse", "Function", m, v, a) for m in ("decode_external_input_ext", "decode_internal_input_ext", "decode_output_ext")]
            out.append(("parse", "Event", "decode_internal_input_ext", v, a))
        out += [("parse", "Function", m, v, 0) for m in ("decode_external_input", "decode_internal_input", "decode_output")]
        out.append(("parse", "Event", "decode_internal_input", v, 0))
        for r in (True, False):
            for hs in ((), ("Time",), ("PublicKey", "Expire"), ("Time", "Expire", "PublicKey")):
                for key in (True, False):
                    out.append(("external", r, v, hs, key, True, True, 2))
            out += [("external", r, v, ("Time", "Expire"), False, t, x, 1) for t in (True, False) for x in (True, False)]
            out.append(("external", r, v, (), False, True, True, 0))
        out += [("fill", v, x) for x in (True, False)]
        out += [("to_sign", v, a, m) for a in (True, False) for m in ("build_input_ext", "build_input", "build_message")]
    for w in ("UnsignedBody", "UnsignedExternalMessage"):
        out += [("fronts", w, m) for m in ("sign", "with_signature", "with_fake_signature", "without_signature")]
    out += [("fronts", "UnsignedExternalMessage", "fill_signature"), ("unsigned_message",)]
    out += [("ids", w, x) for w in ("Function", "Event") for x in (True, False)]
    out += [("prefix", x) for x in (True, False)]
    return out


def any_job(j):
    try:
        probs, n = globals()[j[0]](*j[1:])
    except GIVE_UP as x:
        return j, [("undecided", "%s: %s: %s" % (j, type(x).__name__, x))], 0
    if n == 0 and not probs:
        probs = [("vacuous", "%s: nothing was analysed" % (j,))]
    return j, probs, n


def load(prog):
    global _p
    _p = prog


def many(js):
    return [any_job(j) for j in js]


def check(cx):
    load(cx.prog("main"))
    js = jobs(cx.tier)
    for r in pmap(many, [js[i::24] for i in range(24)]):
        for j, pr, n in r:
            cx.count("cases")
            cx.count("paths", n)
            if cx.counts["cases"] % 15 == 1:
                cx.sample("%s: %d paths" % (j, n))
            for kind, text in pr:
                if kind == "undecided":
                    cx.bad("%s:%s" % (".".join(x for x in j[:3] if isinstance(x, str)), kind), text)
                else:
                    cx.bad("%s:%s" % (".".join(x for x in j[:3] if isinstance(x, str)), kind), text)
    cx.floor("cases", 380)
    cx.floor("paths", 1500)
