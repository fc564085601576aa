"""Writer/reader agreement of the codecs: the traces of each type's writer are
fed to each trace of its reader."""
from terms import *
from absint import *
import wire
from wire import *

P = W = None
SI = LI = None


def init(prog):
    global P, W, SI, LI
    P = prog
    setup(prog)
    W = Wire(prog)
    SI, LI = impls(STORE), impls(LOAD)


def refful():
    """Which nonterminals may put references into a cell"""
    deps, own = {}, {}
    for nm, i in SI.items():
        k = norm_nt(nm)
        deps[k], own[k] = set(), False
        try:
            _, w = wtraces(i)
        except Limit:
            own[k] = True
            continue
        for x in w:
            if x[0] == "bad":
                own[k] = True
                continue
            for t in x[1]:
                if t[0] in ("ref", "slice", "builder?", "slicedata"):
                    own[k] = True
                elif t[0] == "nt":
                    deps[k].add(norm_nt(t[1]))
    ch = True
    while ch:
        ch = False
        for k in deps:
            if not own[k] and any(own.get(d, True) and not d.startswith(("bigint", "biguint", "var_big")) for d in deps[k]):
                own[k] = ch = True
    for k in own:
        if len(k) <= 4 and k.strip("mut&")[:1].isupper() and len(k.replace("mut", "")) == 1 or "<T" in k or "<K" in k or "<I" in k:
            own[k] = True
    wire.REFFUL.update(own)


def impls(tr):
    return {P.tystr(P.ty(i["self"])): i for i in P.trait_impls[tr]}


def wtraces(i, W=None):
    W = W or globals()["W"]
    b=P.by_impl[(i['id'],'store_into')]
    ip=W.interp()
    tr=ip.run(b,[mk("&", selft(i)),mk('bp'),mk('ctx')],pre=lambda st: st.mem.__setitem__(('P',mk('bp')),mk('bstart')))
    res=[]
    for x in tr:
        if x.kind!='ret': res.append(('bad',x.kind,x)); continue
        if x.val.a[0]=='agg' and x.val.a[2]==1: continue
        if x.val.a[0]!='agg':
            if not x.st.assume(mk('discr',x.val),0): continue
        res.append(('ok',tokens(x.st,x.st.mem[('P',mk('bp'))]),x))
    return ip,res
def rtraces(i, W=None):
    W = W or globals()["W"]
    b=P.by_impl[(i['id'],'load_from')]
    ip=W.interp()
    tr=ip.run(b,[mk('sp')],pre=lambda st: st.mem.__setitem__(('P',mk('sp')),mk('sin')))
    res=[]
    for x in tr:
        if x.kind!='ret': res.append(('bad',x.kind,x)); continue
        if x.val.a[0]=='agg': res.append(('ok' if x.val.a[2]==0 else 'err',x.val.a[3][0],x))
        else:
            y=x.st.copy()
            if y.assume(mk('discr',x.val),0): res.append(('ok',mk('vf',x.val,0,0),x))
    return ip,res
def align(w, r, me):
    """-> ('ok',sameness)|('incompat',why)|('err',..)"""
    al=Align(w[2].st,w[1],mk('sin'))
    evs=[e for e in r[2].st.events() if e[0] in('rd','rderr','exotic_child')]
    for e in evs:
        if e[0]=='rd':
            al.event(e)
        elif e[0]=='exotic_child': return ('skip',)
        else:
            try:
                al.event(e if len(e)>3 else e+(mk('rd',e[1],e[2]),))
            except Short: continue
            return ('incompat','enough data')
    st=al.st
    und=[]
    for t,v in list(r[2].st.eq.items()):
        t2=al.subst(t)
        cur=st.value(t2)
        if cur is None:
            und.append((t2,v))
            if not st.assume(t2,v): return ('incompat',show(t2))
        elif cur!=v: return ('incompat',show(t))
    for t,vs in r[2].st.ne.items():
        t2=al.subst(t)
        for v in vs:
            if not st.assume_ne(t2,v): return('incompat',show(t))
    if r[0]=='err': return ('err',al.subst(r[1]),und)
    val=al.subst(r[1])
    ig = IGNORE.get(me.a[1])
    if ig and val.a[0] == "agg":
        fs = list(val.a[3])
        for f in ig:
            ix = field(me.a[1], f)
            fs[ix] = mk("fld", me, ix, val.a[1][1])
        val = mk("agg", val.a[1], val.a[2], tuple(fs))
    s = same(st, val, me)
    # leftovers
    end=r[2].st.mem.get(('P',mk('sp')))
    left=None
    try: left=al.cursor(end)[0]
    except Mismatch: left='?'
    return ('ok',s,val,und,left)


def fork_discr(x):
    """Splits a writer path on the variants of the enums that its layout encodes"""
    todo, done = [x], []
    while todo:
        x = todo.pop()
        st = x[2].st
        t = None
        for tk in x[1]:
            if tk[0] == "b" and isinstance(tk[1], tuple):
                for u in subterms(tk[1][0]):
                    if u.a[0] == "discr" and u in DISCR and st.value(u) is None:
                        t = u
                        break
            if t is not None:
                break
        if t is None:
            done.append(x)
            continue
        for v in DISCR[t]:
            n = st.copy()
            if n.assume(t, v):
                todo.append(("ok", tokens(n, n.mem[("P", mk("bp"))]), Trace("ret", n, x[2].val)))
    return done


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    if isinstance(t, tuple):
        for y in t:
            yield from subterms(y, seen)
        return
    if not isinstance(t, Term) or t in seen:
        return
    seen.add(t)
    yield t
    for y in t.a[1:]:
        if isinstance(y, (Term, tuple)):
            yield from subterms(y, seen)


class Outcome:
    def __init__(self, nm):
        self.nm = nm
        self.issues = []
        self.w = self.r = self.pairs = 0
        self.unmodeled = set()
        self.expandable = set()


def agree(nm, W=None, lossy=()):
    """Aligns every writer path of a type with its reader"""
    o = Outcome(nm)
    wi, w = wtraces(SI[nm], W)
    ri, r = rtraces(LI[nm], W)
    o.unmodeled = set(wi.unmodeled) | set(ri.unmodeled)
    o.r = len(r)
    for y in r:
        if y[0] == "bad" and y[1] != "cut" and not unreachable(y):
            o.issues.append(("rbad", y[1], str(y[2].at)[:80]))
    ws = []
    for x in w:
        if x[0] == "bad":
            if x[1] != "cut":
                o.issues.append(("wbad", x[1], str(x[2].at)[:80]))
        else:
            for y in fork_discr(x):
                ws.extend(domain(nm, y))
    o.w = len(ws)
    for x in ws:
        oks, errs, mm = [], [], []
        for y in r:
            if y[0] == "bad":
                continue
            o.pairs += 1
            try:
                a = align(x, y, selft(SI[nm]))
            except Mismatch as e:
                mm.append((str(e), y))
                o.expandable.update(e.nts)
                continue
            except Short:
                mm.append(("the written string ends before the read", y))
                continue
            if a[0] == "ok":
                oks.append(a)
            elif a[0] == "err":
                errs.append(a)
        good = [a for a in oks if a[1] is True and not a[4]]
        if len(oks) == 1 and good:
            continue
        lay = show_tokens(x[1])
        if not oks:
            o.issues.append(("noread", lay, [m for m, _ in mm][:4], [show(e[1]) for e in errs][:2]))
        else:
            for a in oks:
                if a[1] is not True or a[4]:
                    o.issues.append(("diff", lay, a[1], a[2], a[4], a[3]))
            if len(oks) > 1 and len(good) == len(oks):
                pass
    return o


def unreachable(y):
    return False


def agree_best(nm):
    """First with nested types as nonterminals, then with the types that only one side names expanded"""
    o = agree(nm)
    if not o.issues:
        return o
    best = o
    exp = set()
    W2 = W
    for rnd in range(4):
        new = set()
        for k in o.expandable:
            p = W2.ntpath.get(norm_nt(k))
            if p and p not in DICTS:
                new.add(p)
        if not new - exp:
            break
        exp |= new
        W2 = Wire(P, expand=exp)
        o = agree(nm, W2)
        if len(o.issues) < len(best.issues):
            best = o
        if not o.issues:
            return o
    if any(i[0] in ("rbad", "wbad") and i[1] == "loopback" for i in best.issues):
        W4 = Wire(P, expand=exp, unroll=4)
        try:
            o = agree(nm, W4)
            if len(o.issues) < len(best.issues):
                best = o
        except Limit:
            pass
    return best


def nts(trs, side):
    out = set()
    for x in trs:
        if x[0] == "bad":
            continue
        if side == "w":
            def rec(ts):
                for t in ts:
                    if t[0] == "nt":
                        out.add(norm_nt(t[1]))
                    elif t[0] == "ref" and t[1].a[0] == "cell":
                        rec(tokens(x[2].st, t[1].a[1]))
            rec(x[1])
        else:
            for e in x[2].st.events():
                if e[0] == "rd" and e[2][0] == "nt":
                    out.add(norm_nt(e[2][1]))
    return out


def selft(i):
    return mk("self", P.tystr(P.ty(i["self"])))


# Facts that hold for every value of a type that can be built through its
# intended interface, and that its layout relies on (one reason per line).
def _fld(t, *ix):
    for k, a in ix:
        t = mk("fld", t, k, a)
    return t


# fields that say how a value was laid out, not what it is
IGNORE = {"BaseMessage<I,B>": ("layout",)}


def domain(nm, x):
    """The writer path restricted to the values in the type's domain -> list of paths"""
    st = x[2].st
    me = selft(SI[nm])
    out = []

    def again(n):
        return ("ok", tokens(n, n.mem[("P", mk("bp"))]), Trace("ret", n, x[2].val))

    if nm == "ShardIdent":
        # prefixes are valid: non-zero, at most MAX_SPLIT_DEPTH deep (checked by ShardIdent::new)
        p = None
        for t in subterms(tuple(tt[1][0] for tt in x[1] if tt[0] == "b" and isinstance(tt[1], tuple))):
            if t.a[0] == "tz":
                p = t
        n = st.copy()
        pf = None
        for t in list(n.eq):
            if t.a[0] == "eq0" and t.a[1].a[0] == "fld" and t.a[1].a[1] is me:
                pf = t
        if n.value(eq0(mk("fld", me, 1, adt_of(nm)))) == 1:
            return []
        if p is not None and not n.assume(lt(p, I(3)), 0):
            return []
        return [again(n)]
    if nm == "SplitDepth":
        # a split depth is 1..=30 (checked by SplitDepth::new)
        n = st.copy()
        ts = [t for tt in x[1] if tt[0] == "b" and isinstance(tt[1], tuple) for t in [tt[1][0]]]
        if ts and not n.assume(lt(ts[0], I(32)), 1):
            return []
        return [again(n)]
    if nm == "OutAction":
        # ChangeLibraryMode has only flags below the highest bit of its 7-bit field
        n = st.copy()
        for tt in x[1]:
            if tt[0] == "b" and isinstance(tt[1], tuple) and tt[1][1] == 6 and maxval(tt[1][0]) == 255:
                n.assume(lt(tt[1][0], I(128)), 1)
                break
        return [again(n)]
    if nm == "BlockInfo":
        # without the software flag the version is the default one (set_gen_software keeps them together)
        n = st.copy()
        for tt in x[1]:
            if tt[0] == "nt" and tt[1] == "GlobalVersion":
                return [x]
        v = _fld(me, (field(nm, "gen_software"), adt_of(nm)))
        zero(n, v, P.adts[adt_of(nm)]["v"][0]["f"][field(nm, "gen_software")][1])
        return [again(n)]
    if nm == "ValidatorDescription":
        # the running weight total is recomputed from the list, never stored
        n = st.copy()
        n.assume(_fld(me, (field(nm, "prev_total_weight"), adt_of(nm))), 0)
        # the layout with a sequence number has a mandatory address field: no address is written as zeroes
        ad = mk_discr(_fld(me, (field(nm, "adnl_addr"), adt_of(nm))), (0, 1))
        sq = _fld(me, (field(nm, "mc_seqno_since"), adt_of(nm)))
        if n.value(ad) == 0 and n.value(eq0(sq)) == 0:
            return []
        return [again(n)]
    return [x]


def adt_of(nm):
    return P.ty(SI[nm]["self"])[1]


def field(nm, f):
    fs = [x[0] for x in P.adts[adt_of(nm)]["v"][0]["f"]]
    return fs.index(f)


def zero(st, v, tyid):
    """assumes that a value is all zeroes"""
    ty = P.ty(tyid)
    if ty[0] == "adt":
        for i, f in enumerate(P.adts[ty[1]]["v"][0]["f"]):
            zero(st, mk("fld", v, i, ty[1]), f[1])
    elif ty[0] == "int":
        st.assume(v, 0)
