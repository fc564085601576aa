"""Configuration parameters.  Each parameter of the chain has a number and a type.  The getters, setters and the generic accessors are
followed on the compiler's MIR with the dictionary of parameters as a partial map from numbers to cells and every step able to fail;
what is read from which cell as which type, and what is written where, is compared with the table of the specification (block.tlb)."""
from cellcore import *
from par import pmap

EXPLAIN = __doc__
ASSUMPTIONS = ["rustc's MIR is what is compiled", "types are written and read as C02 says", "dictionaries follow C13 and C14"]
_p = None
FAIL = ("G", "fail")
LOG = ("G", "log")
MOD = "tycho_types::models::config::"
WRAP = (MOD + "ParamIdentity", MOD + "NonEmptyDict")
CFG = MOD + "BlockchainConfigParams"
N = "n"      # a root in place, without the bit of an optional one
A, S = "HashBytes", "CellSlice"
# number: (type, form)
TABLE = {0: A, 1: A, 2: A, 3: A, 4: A, 5: "BurningConfig", 6: S, 7: "ExtraCurrencyCollection", 8: "GlobalVersion", 9: (N, "Dict<u32, ()>"), 10: (N, "Dict<u32, ()>"),
         11: "ConfigVotingSetup", 12: "Dict<i32, WorkchainDescription>", 13: S, 14: "BlockCreationRewards", 15: "ElectionTimings", 16: "ValidatorCountParams",
         17: "ValidatorStakeParams", 18: (N, "Dict<u32, StoragePrices>"), 19: "i32", 20: "GasLimitsPrices", 21: "GasLimitsPrices", 22: "BlockLimits", 23: "BlockLimits",
         24: "MsgForwardPrices", 25: "MsgForwardPrices", 28: "CatchainConfig", 29: "ConsensusConfig", 30: S, 31: "Dict<HashBytes, ()>", 32: "ValidatorSet", 33: "ValidatorSet",
         34: "ValidatorSet", 35: "ValidatorSet", 36: "ValidatorSet", 37: "ValidatorSet", 43: "SizeLimitsConfig", 50: "MintOnceConfig"}
# getter: (numbers in order of preference by the flag, what if none is there)
ERR = "error"
GET = {"get_elector_address": ((1,), ERR), "get_minter_address": ((2, 0), ERR), "get_burning_config": ((5,), ERR), "get_fee_collector_address": ((3, 1), ERR),
       "get_global_version": ((8,), ERR), "get_mandatory_params": ((9,), ERR), "get_critical_params": ((10,), ERR), "get_workchains": ((12,), ERR),
       "get_block_creation_rewards": ((14,), ERR), "get_election_timings": ((15,), ERR), "get_validator_count_params": ((16,), ERR),
       "get_validator_stake_params": ((17,), ERR), "get_storage_prices": ((18,), ERR), "get_global_id": ((19,), ERR),
       "get_gas_prices": {1: ((20,), ERR), 0: ((21,), ERR)}, "get_block_limits": {1: ((22,), ERR), 0: ((23,), ERR)}, "get_msg_forward_prices": {1: ((24,), ERR), 0: ((25,), ERR)},
       "get_catchain_config": ((28,), ERR), "get_collation_config": ((28,), ERR), "get_consensus_config": ((29,), ERR), "get_fundamental_addresses": ((31,), ERR),
       "get_previous_validator_set": ((33, 32), None), "get_current_validator_set": ((35, 34), ERR), "get_next_validator_set": ((37, 36), None), "get_size_limits": ((43,), ERR),
       "get_block_creation_reward": {1: ((14,), ERR), 0: ((14,), ERR)}}
SET = {"set_elector_address": 1, "set_minter_address": 2, "set_burning_config": 5, "set_fee_collector_address": 3, "set_global_version": 8, "set_mandatory_params": 9,
       "set_critical_params": 10, "set_workchains": 12, "set_block_creation_rewards": 14, "set_election_timings": 15, "set_validator_count_params": 16,
       "set_validator_stake_params": 17, "set_storage_prices": 18, "set_global_id": 19, "set_gas_prices": {1: 20, 0: 21}, "set_block_limits": {1: 22, 0: 23},
       "set_msg_forward_prices": {1: 24, 0: 25}, "set_catchain_config": 28, "set_collation_config": 28, "set_consensus_config": 29, "set_fundamental_addresses": 31,
       "set_size_limits": 43}
LISTS = {9: "u32", 10: "u32", 18: "prices", 31: "hash"}
CONTAINS = {"contains_prev_validator_set": (32, 33), "contains_next_validator_set": (36, 37)}


def spec(k):
    """(type, form) of a number"""
    x = TABLE[k]
    if k == 28 and not any(a == MOD + "params::CatchainConfig" for a in _p.adts):
        x = "CollationConfig"
    return (x[1], "root") if isinstance(x, tuple) else (x, "cell")


def short(ty):
    """name of a type without its module"""
    if ty[0] == "ref":
        return short(ty[2])
    if ty[0] == "tuple" and not ty[1]:
        return "()"
    if ty[0] == "int":
        return ("i" if ty[2] else "u") + str(ty[1])
    if ty[0] == "adt":
        args = [short(x) for x in ty[2] if isinstance(x, tuple) and x[0] != "lifetime"] if len(ty) > 2 and ty[2] else []
        args = [x for x in args if x]
        return ty[1].rsplit("::", 1)[-1] + ("<%s>" % ", ".join(args) if args else "")
    return ""


class Conf:
    def __init__(s):
        s.ip = None

    def deep(s, ip, st, v):
        for _ in range(6):
            if not isinstance(v, Ref):
                break
            v = ip.read(st, v.root, v.path)
        return v

    def fail(s, st, what):
        t = st.copy()
        t.mem[FAIL] = what
        return t

    def either(s, st, v, what):
        return [(st, Ok(v)), (s.fail(st, what), Ag(RESULT, 1, (Opq("err", (what,)),)))]

    def key(s, ip, st, v):
        v = s.deep(ip, st, v)
        x = ip.affine(st, v)
        if x is None:
            raise Undecided("key %s" % (v,))
        return x.c if not x.t else (x.c, tuple(x.t))

    def has(s, st, k):
        if ("P", k) in st.mem:
            return [(st, st.mem[("P", k)])]
        a, b = st.copy(), st.copy()
        a.mem[("P", k)], b.mem[("P", k)] = True, False
        return [(a, True), (b, False)]

    def put(s, ip, st, b, what):
        root, path = b.root, b.path
        x = ip.read(st, root, path)
        while isinstance(x, Ref):
            root, path = x.root, x.path
            x = ip.read(st, root, path)
        t = st.copy()
        ip.write(t, root, path, Opq("builder", (x.args[0] + (what,),)))
        return [(t, Ok(UNIT)), (s.fail(st, "store"), Ag(RESULT, 1, (Opq("err", ("store",)),)))]

    def hook(s, ip, st, c, a):
        nm = c["nm"]
        v = s.deep(ip, st, a[0]) if a else None
        if isinstance(v, Opq):
            f = getattr(s, "on_" + v.name, None)
            if f:
                r = f(ip, st, c, a, v)
                if r is not None:
                    return r
        ty = c.get("self")
        if nm in ("new", "default") and ty is not None and ty[0] == "adt" and ty[1].endswith("CellBuilder"):
            return [(st, Opq("builder", ((),)))]
        if nm in ("new", "default") and "dict::typed::Dict" in c["path"] or (nm in ("new", "default") and ty is not None and ty[0] == "adt" and ty[1].endswith("::Dict")):
            return [(st, Opq("dict", ((),)))]
        if nm == "empty_context":
            return [(st, Opq("cx"))]
        if nm == "cast" and isinstance(a[0], Ref) and c.get("retty") is not None and c["retty"][0] == "ptr":
            t = c["retty"][2]
            if t[0] == "adt" and t[1] in WRAP and isinstance(v, (Opq, Af, Bv)):
                root = ("WRAPPED", t[1])
                st.mem[root] = Ag(t[1], 0, (v,))
                return [(st, Ref(root))]
        if nm == "store_into" and len(a) > 1:
            b = s.deep(ip, st, a[1])
            if isinstance(b, Opq) and b.name == "builder":
                if isinstance(v, Ag) and v.k in WRAP:
                    if "body" in c and c["body"] is not None and c["body"]["path"].startswith("<" + v.k):
                        return None
                    x = a[0]
                    while isinstance(ip.read(st, x.root, x.path), Ref):
                        x = ip.read(st, x.root, x.path)
                    bs = [y for y in _p.bodies.values() if y["nm"] == nm and y["path"].startswith("<%s<" % v.k) and y.get("trait", "").endswith("::Store")]
                    return [("inline", st, bs[0], {}, [x] + a[1:], None)] if len(bs) == 1 else None
                if isinstance(v, Opq) and v.name in ("arg", "dict"):
                    return s.put(ip, st, a[1], ("whole", v))
                if not isinstance(v, (Opq, Ag)):
                    x = ip.affine(st, v)
                    if x is not None:
                        return s.put(ip, st, a[1], ("int", x.w, x.c, tuple(x.t)))
        if nm in ("load_from",) and a:
            if isinstance(v, Opq) and v.name == "data" and ty is not None:
                if ty[0] == "adt" and ty[1] in (MOD + "ParamIdentity", MOD + "NonEmptyDict", CFG):
                    return None
                return s.load(ip, st, a[0], v, short(ty), "cell")
        if nm == "load_from_root_ext" and isinstance(v, Opq) and v.name == "data":
            t = c.get("retty")
            return s.load(ip, st, a[0], v, "Dict" if t is None else short(s.okty(t)), "root")
        return None

    def okty(s, t):
        return t[2][0]

    def load(s, ip, st, place, v, ty, form):
        while isinstance(ip.read(st, place.root, place.path), Ref):
            place = ip.read(st, place.root, place.path)
        t = st.copy()
        ip.write(t, place.root, place.path, Opq("read data", ()))
        return [(t, Ok(Opq("val", (v.args[0], ty, form)))), (s.fail(st, "load"), Ag(RESULT, 1, (Opq("err", ("load",)),)))]

    # the dictionary of parameters
    def on_val(s, ip, st, c, a, v):
        return None

    def on_params(s, ip, st, c, a, v):
        nm = c["nm"]
        if nm in ("deref", "deref_mut", "as_ref"):
            return [(st, a[0])]
        if nm in ("contains_key", "get_raw", "get"):
            k = s.key(ip, st, a[1])
            out = [(s.fail(st, nm), Ag(RESULT, 1, (Opq("err", (nm,)),)))]
            for t, y in s.has(st, k):
                val = K(int(y), 1) if nm == "contains_key" else NONE if not y else Some(Opq("slot" if nm == "get_raw" else "cell", (k,)))
                out.append((t, Ok(val)))
            return out
        if nm == "set":
            k = s.key(ip, st, a[1])
            t = st.copy()
            t.mem[LOG] = t.mem.get(LOG, ()) + (("set", k, s.deep(ip, st, a[2])),)
            return [(t, Ok(B(sym("changed", 0)))), (s.fail(st, nm), Ag(RESULT, 1, (Opq("err", (nm,)),)))]
        if nm == "remove":
            k = s.key(ip, st, a[1])
            t = st.copy()
            t.mem[LOG] = t.mem.get(LOG, ()) + (("remove", k),)
            return [(t, Ok(Opq("removed", (k,)))), (s.fail(st, nm), Ag(RESULT, 1, (Opq("err", (nm,)),)))]
        if nm in ("root", "into_root"):
            out = []
            for t, y in s.has(st, "root"):
                t.mem[("RC",)] = Some(Opq("rootcell")) if y else NONE
                out.append((t, Ref(("RC",))))
            return out
        return None

    def on_slot(s, ip, st, c, a, v):
        if c["nm"] in ("get_reference", "get_reference_cloned", "load_reference", "load_reference_cloned"):
            if len(a) > 1:
                k = ip.affine(st, a[1])
                if k is None or k.t or k.c:
                    return [(st, Ok(Opq("cell", (v.args[0], "another"))))]
            return s.either(st, Opq("cell", v.args), "reference")
        return None

    def on_cell(s, ip, st, c, a, v):
        nm = c["nm"]
        if nm in ("as_ref", "deref", "clone", "borrow"):
            return [(st, a[0] if nm != "clone" else v)]
        if nm == "as_slice":
            return s.either(st, Opq("data", v.args), "slice")
        return None

    def on_data(s, ip, st, c, a, v):
        if c["nm"] in ("load_reference_cloned", "load_reference"):
            return s.either(st, Opq("cell", (v.args[0], "child")), "reference")
        return None

    def on_rootcell(s, ip, st, c, a, v):
        if c["nm"] in ("clone", "as_ref", "deref"):
            return [(st, a[0] if c["nm"] != "clone" else v)]
        return None

    def on_dict(s, ip, st, c, a, v):
        nm = c["nm"]
        if nm in ("set", "add"):
            x, y = s.deep(ip, st, a[1]), s.deep(ip, st, a[2])
            z = ip.affine(st, x) if not isinstance(x, (Opq, Ag)) else None
            k = (z.c, tuple(z.t)) if z is not None else x.args if isinstance(x, Opq) else str(x)
            val = y.args if isinstance(y, Opq) else "()" if isinstance(y, Ag) and not y.f else str(y)
            pl = a[0]
            while isinstance(ip.read(st, pl.root, pl.path), Ref):
                pl = ip.read(st, pl.root, pl.path)
            t = st.copy()
            ip.write(t, pl.root, pl.path, Opq("dict", (v.args[0] + ((nm, k, val),),)))
            return [(t, Ok(B(sym("changed", 1)))), (s.fail(st, nm), Ag(RESULT, 1, (Opq("err", (nm,)),)))]
        if nm == "root":
            st.mem[("DR", len(v.args[0]))] = Some(Opq("dictroot", v.args)) if v.args[0] else NONE
            return [(st, Ref(("DR", len(v.args[0]))))]
        if nm == "is_empty":
            return [(st, K(int(not v.args[0]), 1))]
        return None

    def on_arg(s, ip, st, c, a, v):
        nm = c["nm"]
        if nm == "root":
            out = []
            for t, y in s.has(st, "argroot"):
                t.mem[("DR", 0)] = Some(Opq("dictroot", v.args)) if y else NONE
                out.append((t, Ref(("DR", 0))))
            return out
        if nm == "clone":
            return [(st, v)]
        return None

    def on_dictroot(s, ip, st, c, a, v):
        nm = c["nm"]
        if nm in ("as_ref", "deref", "clone"):
            return [(st, a[0] if nm != "clone" else v)]
        if nm == "as_slice":
            return s.either(st, Opq("dictdata", v.args), "slice")
        return None

    def on_builder(s, ip, st, c, a, v):
        nm = c["nm"]
        if nm in ("as_data_slice", "as_slice"):
            return None
        if nm == "store_slice":
            x = s.deep(ip, st, a[1])
            return s.put(ip, st, a[0], ("root", x) if isinstance(x, Opq) and x.name == "dictdata" else ("slice", x))
        if nm == "store_reference":
            return s.put(ip, st, a[0], ("ref", s.deep(ip, st, a[1])))
        if nm in ("store_u8", "store_u16", "store_u32", "store_u64"):
            x = ip.affine(st, a[1])
            return s.put(ip, st, a[0], ("int", int(nm[7:]), x.c, tuple(x.t)))
        if nm in ("build_ext", "build"):
            return s.either(st, Opq("built", v.args), "build")
        return None


def begin():
    C = Conf()
    ip = Interp(_p, [C.hook])
    old = ip.opaque_field

    def opaque_field(st, v, e):
        if v.name in ("arg", "params"):
            return v          # transparent wrappers
        if v.name == "val" and isinstance(e, int):
            return Opq("val", v.args + (e,))
        return old(st, v, e)
    ip.opaque_field = opaque_field
    st = ip.state()
    st.mem[("CFG",)] = Ag(CFG, 0, (Opq("params"),))
    return C, ip, st


def method(nm):
    bs = _p.method("BlockchainConfigParams", nm)
    return bs[0] if len(bs) == 1 else None


def params():
    """unit types of the parameters by number"""
    out = {}
    for i in _p.trait_impls.get(MOD + "KnownConfigParam", ()):
        c = _p.const_by_impl.get((i["id"], "ID"))
        out.setdefault(int(c["v"]), []).append(i)
    return out


def outcome(probs, what, t, order, miss, ty, form, wrap=None, tail=()):
    """one run of a getter"""
    st = t.st
    if t.kind == "panic":
        probs.append(("panic", "%s can panic (%s)" % (what, (t.why or "?")[0])))
        return
    ok = t.val.v == 0
    failed = st.mem.get(FAIL)
    if failed:
        if ok:
            probs.append(("error", "%s does not report an error of %s" % (what, failed)))
        elif t.val.f[0] is not None and not (isinstance(t.val.f[0], Opq) and t.val.f[0].name == "err"):
            probs.append(("error", "%s reports another error than that of %s" % (what, failed)))
        return
    want = next((k for k in order if st.mem.get(("P", k)) is not False), None)
    if want is not None and ("P", want) not in st.mem:
        probs.append(("order", "%s does not look for parameter %d" % (what, want)))
        return
    val = t.val.f[0] if ok else None
    if want is None:
        if miss == ERR:
            if ok:
                probs.append(("absent", "%s succeeds without a parameter: %s" % (what, val)))
            elif not err_is(t.val.f[0], "CellUnderflow"):
                probs.append(("absent", "%s fails with %s without a parameter" % (what, t.val.f[0])))
        elif not ok or not (isinstance(val, Ag) and val.k == OPTION and val.v == 0):
            probs.append(("absent", "%s does not give None without a parameter" % what))
        return
    if not ok:
        probs.append(("refused", "%s fails although parameter %d is there" % (what, want)))
        return
    if miss is None and isinstance(val, Ag) and val.k == OPTION and val.v == 1:
        val = val.f[0]
    if not (isinstance(val, Opq) and val.name == "val") or val.args != (want, ty, form) + tuple(tail):
        probs.append(("read", "%s gives %s, expected parameter %d as %s (%s)" % (what, val, want, ty, form)))


def err_is(x, nm):
    if isinstance(x, Ag) and str(x.k).endswith("error::Error"):
        return _p.adts[x.k]["v"][x.v]["n"] == nm
    return False


def getter(nm, flag):
    b = method(nm)
    if b is None:
        return [], 0
    C, ip, st = begin()
    sp = GET[nm] if flag is None else GET[nm][flag]
    order, miss = sp
    ty, form = spec(order[0])
    args = [Ref(("CFG",))] + ([] if flag is None else [K(flag, 1)])
    tail = ()
    if nm == "get_block_creation_reward":
        tail = (_p.field_names(MOD + "params::BlockCreationRewards").index("masterchain_block_fee" if flag else "basechain_block_fee"),)
    probs, k = [], 0
    for t in ip.run(st, b, args):
        k += 1
        outcome(probs, nm if flag is None else "%s(%s)" % (nm, bool(flag)), t, order, miss, ty, form, tail=tail)
    return probs, k


def known(num):
    """get, set and contains of one parameter type"""
    im = params().get(num, [])
    if len(im) != 1:
        return [("table", "parameter %d is declared %d times" % (num, len(im)))], 1
    self_ty = _p.ty(im[0]["self"])
    ty, form = spec(num)
    sub = {"T": self_ty}
    probs, k = [], 0
    nm = short(self_ty)
    if nm != "ConfigParam%d" % num:
        probs.append(("table", "%s has the number %d" % (nm, num)))
    val = dict(im[0]["types"])["Value"]
    if short(_p.ty(val)) != ty:
        probs.append(("table", "the type of parameter %d is %s, expected %s" % (num, short(_p.ty(val)), ty)))
    for f in ("get", "set", "contains"):
        b = method(f)
        if b is None:
            raise Undecided(f)
        C, ip, st = begin()
        args = [Ref(("CFG",))]
        if f == "set":
            st.mem[("ARG",)] = Opq("arg", (num,))
            if ty == "i32":
                st.var("v", -2 ** 31, 2 ** 31 - 1)
                st.mem[("ARG",)] = Af(32, True, 0, (("v", 1),))
            args.append(Ref(("ARG",)))
        for t in ip.run(st, b, args, {g: self_ty for g in b["gen"]}):
            k += 1
            what = "%s::<%s>" % (f, nm)
            if f == "get":
                outcome(probs, what, t, (num,), None, ty, form)
            elif f == "contains":
                flag(probs, what, ip, t, (num,))
            else:
                stored(probs, what, ip, t, num, form, Opq("arg", (num,)), ty)
    return probs, k


def flag(probs, what, ip, t, order):
    st = t.st
    if t.kind == "panic":
        probs.append(("panic", "%s can panic" % what))
        return
    ok = t.val.v == 0
    if st.mem.get(FAIL):
        if ok:
            probs.append(("error", "%s does not report an error" % what))
        return
    there = [st.mem.get(("P", k)) for k in order]
    if True in there:
        want = 1
    elif None in there:
        probs.append(("order", "%s does not look for parameter %d" % (what, order[there.index(None)])))
        return
    else:
        want = 0
    if not ok or bit_of(ip, st, t.val.f[0]) != want:
        probs.append(("contains", "%s gives %s although the parameters are %s" % (what, t.val, there)))


def bit_of(ip, st, v):
    x = ip.affine(st, v)
    return x.c if x is not None and not x.t else None


def stored(probs, what, ip, t, num, form, arg, ty, refuse=False):
    st = t.st
    if t.kind == "panic":
        probs.append(("panic", "%s can panic (%s)" % (what, (t.why or "?")[0])))
        return
    ok = t.val.v == 0
    log = st.mem.get(LOG, ())
    if st.mem.get(FAIL):
        if ok:
            probs.append(("error", "%s does not report an error of %s" % (what, st.mem[FAIL])))
        if log:
            probs.append(("error", "%s changes the configuration although %s fails" % (what, st.mem[FAIL])))
        return
    empty = form == "root" and (st.mem.get(("P", "argroot")) is False if arg.name == "arg" else not arg.args[0])
    if empty:
        if ok or log:
            probs.append(("empty", "%s stores an empty dictionary where none is allowed" % what))
        return
    if not ok:
        probs.append(("refused", "%s fails without a reason" % what))
        return
    if len(log) != 1 or log[0][0] != "set" or log[0][1] != num:
        probs.append(("number", "%s stores %s, expected parameter %d" % (what, [x[:2] for x in log], num)))
        return
    c = log[0][2]
    got = c.args[0] if isinstance(c, Opq) and c.name == "built" else None
    if got is None:
        probs.append(("written", "%s stores %s" % (what, c)))
        return
    if ty == "i32":
        good = len(got) == 1 and got[0][:2] == ("int", 32)
        if good:
            # a negative number is cast to the unsigned one of the same width
            neg = st.holds(-1, (("v", -1),))
            tr = got[0][3] and got[0][2] == 0 and got[0][3][0][0].startswith("tr#") and [x[0] for x in st.flags] == ["truncation"] and x32(st.flags[0])
            good = got[0][2:] == (0, (("v", 1),)) or bool(neg and tr)
    else:
        w = "root" if form == "root" else "whole"
        good = len(got) == 1 and got[0][0] == w and isinstance(got[0][1], Opq) and got[0][1].args == arg.args and got[0][1].name == ("dictdata" if form == "root" else arg.name)
    if not good:
        probs.append(("written", "%s writes %s, expected the %s of %s" % (what, got, "root" if form == "root" else "value", arg)))
    r = t.val.f[0]
    if str(r) != str(B(sym("changed", 0))):
        probs.append(("result", "%s does not give the result of the dictionary: %s" % (what, r)))


def x32(f):
    return f[1] == repr(Af(32, True, 0, (("v", 1),))) and f[2] == 32


def setter(nm, flag, n):
    b = method(nm)
    if b is None:
        return [], 0
    C, ip, st = begin()
    num = SET[nm] if flag is None else SET[nm][flag]
    ty, form = spec(num)
    args = [Ref(("CFG",))] + ([] if flag is None else [K(flag, 1)])
    arg = Opq("arg", (num,))
    if num in LISTS:
        items = []
        for i in range(n):
            if LISTS[num] == "u32":
                st.var("k%d" % i, 0, 2 ** 32 - 1)
                items.append(Af(32, False, 0, (("k%d" % i, 1),)))
            elif LISTS[num] == "prices":
                ty_ = MOD + "params::StoragePrices"
                for f in _p.field_names(ty_):
                    st.var("%s%d" % (f, i), 0, 2 ** (32 if f == "utime_since" else 64) - 1)
                items.append(Ag(ty_, 0, tuple(Af(32 if f == "utime_since" else 64, False, 0, (("%s%d" % (f, i), 1),)) for f in _p.field_names(ty_))))
            else:
                items.append(Opq("item", (i,)))
        st.mem[("LIST",)] = Ag("[]", 0, tuple(items))
        args.append(Sl(("LIST",), (), K(0), K(n)))
        ent = []
        for i in range(n):
            key = (0, (("k%d" % i, 1),)) if LISTS[num] == "u32" else (i, ()) if LISTS[num] == "prices" else (i,)
            ent.append(("set", key, str(items[i]) if LISTS[num] == "prices" else "()"))
        arg = Opq("dict", (tuple(ent),))
    elif ty == "i32":
        st.var("v", *((0, 2 ** 31 - 1) if n else (-2 ** 31, -1)))
        args.append(Af(32, True, 0, (("v", 1),)))
    else:
        st.mem[("ARG",)] = arg
        args.append(Ref(("ARG",)))
    probs, k = [], 0
    for t in ip.run(st, b, args):
        k += 1
        stored(probs, nm if flag is None else "%s(%s)" % (nm, bool(flag)), ip, t, num, form, arg, ty)
    return probs, k


def contains(nm):
    C, ip, st = begin()
    b = method(nm)
    if b is None:
        raise Undecided(nm)
    probs, k = [], 0
    args = [Ref(("CFG",))]
    order = CONTAINS.get(nm)
    if nm == "contains_raw":
        st.var("id", 0, 2 ** 32 - 1)
        args.append(Af(32, False, 0, (("id", 1),)))
        order = ((0, (("id", 1),)),)
    for t in ip.run(st, b, args):
        k += 1
        flag(probs, nm, ip, t, order)
    return probs, k


def raw(nm):
    """access by number"""
    C, ip, st = begin()
    b = method(nm)
    if b is None:
        raise Undecided(nm)
    st.var("id", 0, 2 ** 32 - 1)
    key = (0, (("id", 1),))
    args = [Ref(("CFG",)), Af(32, False, 0, (("id", 1),))]
    if nm == "set_raw":
        args.append(Opq("built", ("arg",)))
    probs, k = [], 0
    for t in ip.run(st, b, args):
        k += 1
        st = t.st
        if t.kind == "panic":
            probs.append(("panic", "%s can panic" % nm))
            continue
        ok = t.val.v == 0
        log = st.mem.get(LOG, ())
        if st.mem.get(FAIL):
            if ok or log:
                probs.append(("error", "%s does not report an error of %s" % (nm, st.mem[FAIL])))
            continue
        if not ok:
            probs.append(("refused", "%s fails without a reason" % nm))
            continue
        val = t.val.f[0]
        if nm == "set_raw":
            if [x[:2] for x in log] != [("set", key)] or not (isinstance(log[0][2], Opq) and log[0][2].args == ("arg",)) or str(val) != str(B(sym("changed", 0))):
                probs.append(("raw", "set_raw stores %s" % (log,)))
        elif nm == "remove":
            zero = st.holds(0, (("id", -1),))
            if zero:
                if log or not (isinstance(val, Ag) and val.v == 0):
                    probs.append(("raw", "removing parameter 0 gives %s (%s)" % (val, log)))
            elif not st.holds(-1, (("id", 1),)):
                probs.append(("raw", "remove does not protect parameter 0"))
            elif log != (("remove", key),) or not (isinstance(val, Opq) and val.name == "removed"):
                probs.append(("raw", "remove does %s" % (log,)))
        else:
            there = st.mem.get(("P", key))
            want = "data" if nm == "get_raw" else "cell"
            if there is None or isinstance(val, Opq) or (val.v == 1) != there:
                probs.append(("raw", "%s gives %s although the parameter is %s" % (nm, val, there)))
            elif there:
                x = C.deep(ip, st, val.f[0])
                if not isinstance(x, Opq) or x.name != want or x.args != (key,):
                    probs.append(("raw", "%s gives %s" % (nm, x)))
    return probs, k


def whole(nm):
    """the dictionary as a value"""
    C, ip, st = begin()
    probs, k = [], 0
    impl = [b for b in _p.bodies.values() if b["nm"] == nm and b["path"].startswith("<" + CFG + " as ")]
    if len(impl) != 1:
        raise Undecided(nm)
    if nm == "store_into":
        st.mem[("B",)] = Opq("builder", ((),))
        st.mem[("CX",)] = Opq("cx")
        for t in ip.run(st, impl[0], [Ref(("CFG",)), Ref(("B",)), Ref(("CX",))]):
            k += 1
            ok = t.kind == "ret" and t.val.v == 0
            if t.kind == "panic":
                probs.append(("panic", "store_into can panic"))
            elif t.st.mem.get(FAIL):
                if ok:
                    probs.append(("error", "store_into hides an error"))
            elif t.st.mem.get(("P", "root")):
                got = ip.read(t.st, ("B",), ()).args[0]
                if not ok or [x[0] for x in got] != ["ref"] or got[0][1].name != "rootcell":
                    probs.append(("whole", "the configuration is written as %s" % (got,)))
            elif ok:
                probs.append(("whole", "an empty configuration is written"))
    else:
        st.mem[("S",)] = Opq("data", ("cfg",))
        old = C.hook

        def hook(ip, st, c, a):
            if c["nm"] in ("from", "from_raw") and a and isinstance(a[0], Ag) and a[0].k == OPTION and "Dict" in c["path"]:
                return [(st, Opq("params", (a[0].v, a[0].f[0].args if a[0].v else None)))]
            return old(ip, st, c, a)
        ip.hooks = [hook]
        for t in ip.run(st, impl[0], [Ref(("S",))]):
            k += 1
            if t.kind == "panic":
                probs.append(("panic", "load_from can panic"))
                continue
            ok = t.val.v == 0
            if t.st.mem.get(FAIL):
                if ok:
                    probs.append(("error", "load_from hides an error"))
            elif not ok or not isinstance(t.val.f[0].f[0], Opq) or t.val.f[0].f[0].args != (1, ("cfg", "child")):
                probs.append(("whole", "the configuration is read as %s" % (t.val,)))
    return probs, k


def empty():
    """a new configuration has its address as parameter 0"""
    bs = _p.method("BlockchainConfig", "new_empty")
    if len(bs) != 1:
        raise Undecided("new_empty")
    C, ip, st = begin()
    probs, k = [], 0
    for t in ip.run(st, bs[0], [Opq("arg", ("address",))]):
        if t.st.mem.get(FAIL):
            continue        # a cell that holds a hash is always built
        k += 1
        if t.kind == "panic":
            probs.append(("panic", "new_empty can panic"))
            continue
        a, d = get(_p, t.val, "address"), get(_p, t.val, "params").f[0]
        sets = d.args[0] if isinstance(d, Opq) and d.name == "dict" else ()
        if not isinstance(a, Opq) or a.args != ("address",) or len(sets) != 1 or sets[0][:2] != ("set", (0, ())) or str(sets[0][2]) != str(((("whole", Opq("arg", ("address",))),),)):
            probs.append(("empty", "a new configuration has the address %s and the parameters %s" % (a, sets)))
    return probs, k


def table():
    ks = params()
    probs = []
    for k in ks:
        if k not in TABLE:
            probs.append(("table", "parameter %d is not in the table" % k))
    # every accessor of the table must be there
    for nm in list(GET) + list(SET):
        if method(nm) is None and "collation" not in nm and "catchain" not in nm:
            probs.append(("anchor", "no accessor %s" % nm))
    return [x for x in probs if x[0] == "anchor"], len(ks)


def jobs(tier):
    js = [("known", k) for k in TABLE]
    for nm, x in GET.items():
        js += [("getter", nm, f) for f in ((0, 1) if isinstance(x, dict) else (None,))]
    for nm, x in SET.items():
        for f in ((0, 1) if isinstance(x, dict) else (None,)):
            for n in ((0, 1, 2, 3) if not isinstance(x, dict) and x in LISTS else (0, 1) if x == 19 else (0,)):
                js.append(("setter", nm, f, n))
    js += [("contains", x) for x in list(CONTAINS) + ["contains_raw"]]
    js += [("raw", x) for x in ("get_raw", "get_raw_cell", "get_raw_cell_ref", "set_raw", "remove")]
    js += [("whole", x) for x in ("store_into", "load_from")] + [("table",), ("empty",)]
    return js


def any_job(j):
    try:
        probs, k = globals()[j[0]](*j[1:])
    except GIVE_UP as x:
        return j, [("undecided", "%s: %s: %s" % (j, type(x).__name__, x))], 0
    return j, probs, k


def many(a):
    return [any_job(j) for j in a]


def load(prog):
    global _p
    _p = prog


def check(cx):
    for which in ("main", "tycho"):
        load(cx.prog(which))
        js = jobs(cx.tier)
        for r in pmap(many, [js[i::6] for i in range(6)]):
            for j, pr, k in r:
                if not k and not pr:
                    continue
                cx.count("cases")
                cx.count("paths", k)
                if cx.counts["cases"] % 9 == 1:
                    cx.sample("%s: %s: %d paths" % (which, j, k))
                name = ".".join(str(x) for x in j[1:] if x is not None) or j[0]
                seen = set()
                for kind, text in pr:
                    if (kind, text) not in seen:
                        seen.add((kind, text))
                        cx.bad("%s%s:%s" % ("" if which == "main" else "tycho:", name, kind), text)
    cx.floor("cases", 200)
    cx.floor("paths", 600)
