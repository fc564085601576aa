"""Merkle proofs and updates."""
from treecore import *
from par import pmap

EXPLAIN = __doc__
ASSUMPTIONS = ["rustc's MIR is what is compiled"]
_p = None
M = "tycho_types::merkle::"


def show(t):
    if t is None:
        return "nothing"
    if t[0] == "n":
        return "cell " + ".".join(t[1])
    if t[0] == "pruned":
        return "pruned(%s, depth %s)" % (show(t[1]), t[2])
    if t[0] == "built":
        return "built(exotic %s; %s; [%s])" % (t[1], " + ".join(show(x) for x in t[2]), ", ".join(show(x) for x in t[3]))
    return str(t)


def begin(**kw):
    T = Tree(_p, **kw)
    ip = Interp(_p, [T.hook], max_steps=6000000, max_traces=150000)
    ip.recursion = 8
    return T, ip, T.start(ip)


def body(path):
    bs = [b for b in _p.bodies.values() if b["path"] == path]
    if len(bs) != 1:
        raise Undecided(path)
    return bs[0]


def ends(suffix, kind=None):
    bs = [b for b in _p.bodies.values() if b["path"].endswith(suffix)]
    if len(bs) != 1:
        raise Undecided(suffix)
    return bs[0]


class Unknown(Exception):
    pass


def want(T, st, i, d, big, path=()):
    """the cell that must stand for node i below Merkle cells of number d"""
    i = T.canon(st, i)
    f = st.mem.get(("filter", i))
    if path:
        if f is None:
            raise Unknown("did not ask the filter about cell %s" % i)
        if f == 2:
            return n(i)
        if f == 0:
            r = st.mem.get(("refs", i))
            if r is None:
                raise Unknown("does not look at the references of cell %s" % i)
            if r > 0:
                return ("pruned", n(i), d)
            if big:
                v = ("bits%s" % (n(i),), 1)
                if v[0] not in st.vr:
                    raise Unknown("does not look at the size of cell %s" % i)
                if st.holds(-289, (v,)):
                    return ("pruned", n(i), d)
                if st.possible(-289, (v,)):
                    raise Unknown("does not know whether cell %s is big" % i)
    m = st.mem.get(("merkle", i))
    r = st.mem.get(("refs", i))
    if r is None:
        raise Unknown("skips the references of cell %s" % i)
    if m is None and r:
        raise Unknown("does not look at the type of cell %s" % i)
    return ("built", B(sym(("exotic", i), 0)).b[0], (n(i),), tuple(want(T, st, T.canon(st, i + str(k)), d + int(bool(m)), big, path + (i,)) for k in range(r)))


def pruned_in(t, acc):
    if t[0] == "pruned":
        acc.add(t[1])
    if t[0] == "built":
        for x in t[3]:
            pruned_in(x, acc)
    return acc


def proof(big, other_root, track, alias, size, par=None):
    fn = "MerkleProofBuilder" if par is None else "ParBuilder"
    T, ip, st = begin(depth=3 if size > 3 else 2, total=size, width=2, alias=alias, fail=par != 1, splits=1 if par else 9)
    st.mem[("F",)] = Opq("filter")
    st.mem[("PB",)] = Opq("set", ((),))
    adt = M + "proof::" + ("BuilderImpl" if par is None else "ParBuilderImpl")
    more = {} if par is None else dict(split_at=Opq("split"))
    if par is not None:
        st.mem[("G", "par")] = par
    st.mem[("SELF",)] = mkadt(_p, adt, **more, root=T.ref(st, n("r")), filter=Ref(("F",)), cells=Opq("map", ((),)),
                              pruned_branches=Some(Ref(("PB",))) if track else NONE, context=Ref(("CX",)), allow_different_root=K(other_root, 1), prune_big_cells=K(big, 1))
    out, kinds = [], {}
    tr = ip.run(st, ends("proof::BuilderImpl::<'_, '_, '_>::build" if par is None else "proof::ParBuilderImpl::<'a, '_, '_>::build"), [Ref(("SELF",))])
    for t in tr:
        if t.kind != "ret":
            out.append(("panic", "%s can panic: %s" % (fn, t.why)))
            continue
        s = t.st
        if s.mem.get(("G", "ctx")):
            out.append(("context", "%s builds a cell without the caller's context" % fn))
        if t.val.v:
            e = t.val.f[0]
            if s.mem.get(FAIL):
                kinds["err"] = 1
                continue
            if other_root or s.mem.get(("filter", "r")) != 0:
                out.append(("fails", "%s fails although nothing failed" % fn))
            else:
                kinds["empty"] = 1
            continue
        if s.mem.get(FAIL):
            out.append(("error", "%s succeeds although %s failed" % (fn, s.mem[FAIL][0][0])))
            continue
        got = T.term(ip, s, t.val.f[0])
        try:
            if not other_root:
                if ("filter", "r") not in s.mem:
                    raise Unknown("does not ask the filter about the root")
                if s.mem[("filter", "r")] == 0:
                    out.append(("empty", "%s builds a proof although the root is left out" % fn))
                    continue
            w = want(T, s, "r", 0, big)
        except Unknown as e:
            out.append(("proof", "%s %s" % (fn, e)))
            continue
        kinds["ok"] = kinds.get("ok", 0) + 1
        got = rec(T, s, got)
        if got != w:
            out.append(("proof", "%s gives %s, not %s" % (fn, show(got), show(w))))
        if track:
            have = {T.recanon(s, k)[1] for k, _ in s.mem[("PB",)].args[0]}
            if have != pruned_in(w, set()):
                out.append(("tracked", "%s reports %s as pruned, not %s" % (fn, sorted(map(show, have)), sorted(map(show, pruned_in(w, set()))))))
    if not kinds.get("ok") or T.fail and not kinds.get("err") or not other_root and not kinds.get("empty"):
        out.append(("vacuous", "%s: %s" % (fn, kinds)))
    return out, len(tr)


def rec(T, s, t):
    if t[0] == "n":
        return n(T.canon(s, t[1]))
    if t[0] == "pruned":
        return ("pruned", rec(T, s, t[1]), t[2])
    if t[0] == "built":
        return ("built", t[1], tuple(rec(T, s, x) for x in t[2]), tuple(rec(T, s, x) for x in t[3]))
    return t


def prune(mask, d):
    """the cell that stands for a pruned one"""
    T, ip, st = begin(depth=0, total=1)
    T.level = mask
    out = []
    tr = ip.run(st, ends("merkle::pruned_branch::make_pruned_branch"), [T.ref(st, n("r")), K(d, 8), Ref(("CX",))])
    seen = set()
    for t in tr:
        if t.kind != "ret":
            out.append(("panic", "make_pruned_branch can panic: %s" % t.why))
            continue
        s = t.st
        if s.mem.get(("G", "ctx")):
            out.append(("context", "make_pruned_branch builds a cell without the caller's context"))
        if t.val.v:
            seen.add("err")
            if not s.mem.get(FAIL) and d < 3:
                out.append(("fails", "make_pruned_branch fails although nothing failed"))
            continue
        seen.add("ok")
        if s.mem.get(FAIL):
            out.append(("error", "make_pruned_branch succeeds although %s failed" % s.mem[FAIL][0][0]))
            continue
        if d >= 3:
            out.append(("depth", "make_pruned_branch makes a pruned branch for Merkle depth %d, which no level mask can hold" % d))
            continue
        got = T.term(ip, s, t.val.f[0])
        low = mask & ((1 << d) - 1)
        lv = [0] + [i + 1 for i in range(3) if low >> i & 1]
        w = [("u", 16, 0x100 | mask | 1 << d)] + [("u", 256, ("hash", n("r"), i)) for i in lv] + \
            [("u", 16, ("I", 0, (("depth%s" % ((n("r"), i),), 1),))) for i in lv]
        if got != ("built", 1, tuple(w), ()):
            out.append(("pruned", "make_pruned_branch of a cell with mask %s at depth %d gives %s" % (bin(mask), d, str(got)[:300])))
    if seen != ({"err"} if d >= 3 else {"ok", "err"}):
        out.append(("vacuous", "make_pruned_branch: %s" % sorted(seen)))
    return out, len(tr)


LAYOUT = {"MerkleProof": (280, 1, 3, [("hash", 8), ("depth", 264)], ["cell"]), "MerkleProofRef": (280, 1, 3, [("hash", 8), ("depth", 264)], ["cell"]),
          "MerkleUpdate": (552, 2, 4, [("old_hash", 8), ("new_hash", 264), ("old_depth", 520), ("new_depth", 536)], ["old", "new"])}


def load(ty):
    """a Merkle cell is accepted iff it is exotic, of the right size and type, and the numbers are those of the cells inside"""
    bits, refs, tag, fields, cells = LAYOUT[ty]
    T, ip, st = begin(depth=0, total=1)
    bs = [b for b in _p.bodies.values() if b.get("nm") == "load_from_cell" and ("::%s as" % ty in b["path"] or "::%s<'a> as" % ty in b["path"]) and "merkle" in b["path"]]
    if len(bs) != 1:
        raise Undecided("load_from_cell of " + ty)
    tr = ip.run(st, bs[0], [T.ref(st, n("r"))])
    out, seen = [], set()
    ex = B(sym(("exotic", "r"), 0)).b[0]
    for t in tr:
        if t.kind != "ret":
            out.append(("panic", "reading %s can panic: %s" % (ty, t.why)))
            continue
        s = t.st

        def is_(name, v):
            """True, False, None"""
            if name not in s.vr:
                return None
            return both(s, -v, ((name, 1),))
        facts = {"exotic": (lambda b: None if b is None else bool(b))(known_bit(s, ex)),
                 "bits": is_("size_bits%s" % ((n("r"),),), bits), "refs": is_("size_refs%s" % ((n("r"),),), refs), "type": is_("read0:8", tag)}
        for (f, pos), k in zip(fields, [0, 1, 0, 1] if len(cells) == 2 else [0, 0]):
            c = ("ref", n("r"), k)
            if "hash" in f:
                x, y = ("hash", c, 0), ("?", "ghost", ("read", pos, 256))
                facts[f] = s.mem.get(("eqhash",) + tuple(sorted((x, y), key=str)))
            else:
                a, b = "read%d:16" % pos, "depth%s" % ((c, 0),)
                if a not in s.vr or b not in s.vr:
                    facts[f] = None
                else:
                    facts[f] = both(s, 0, tuple(sorted(((a, 1), (b, -1)))))
        bad = [k for k, v in facts.items() if v is False]
        open_ = [k for k, v in facts.items() if v is None]
        if t.val.v:
            seen.add("err")
            if not s.mem.get(FAIL) and not bad:
                out.append(("refuses", "reading %s refuses a cell without finding anything wrong" % ty))
            continue
        seen.add("ok")
        if s.mem.get(FAIL):
            out.append(("error", "reading %s succeeds although a read failed" % ty))
        elif bad or open_:
            out.append(("accepts", "reading %s accepts a cell %s" % (ty, "with wrong " + ", ".join(bad) if bad else "without looking at " + ", ".join(open_))))
        else:
            v = t.val.f[0]
            for f, pos in fields:
                x = get(_p, v, f)
                k = T.key(ip, s, x)
                w = ("?", "ghost", ("read", pos, 256)) if "hash" in f else ("I", 0, (("read%d:16" % pos, 1),))
                if k != w:
                    out.append(("field", "reading %s puts %s into %s" % (ty, k, f)))
            for k, f in enumerate(cells):
                if T.term(ip, s, get(_p, v, f)) != ("ref", n("r"), k):
                    out.append(("field", "reading %s puts the wrong reference into %s" % (ty, f)))
    if seen != {"ok", "err"}:
        out.append(("vacuous", "reading %s: %s" % (ty, seen)))
    return out, len(tr)


def both(s, c, t):
    """is c + t zero: True, False or None"""
    m = tuple((x, -k) for x, k in t)
    if s.holds(c, t) and s.holds(-c, m):
        return True
    return None if s.possible(c, t) and s.possible(-c, m) else False


def known_bit(s, b):
    if b in (0, 1):
        return b
    x = s.bit(b)
    return x if x in (0, 1) else None


def adt(suffix):
    a = [k for k in _p.adts if k.endswith(suffix) and "merkle" in k and "_::" not in k]
    if len(a) != 1:
        raise Undecided("type " + suffix)
    return a[0]


def on_call(T, suffix, fn):
    T.calls[ends(suffix)["path"]] = fn


def eq_hash(s, x, y):
    if x == y:
        return True
    return s.mem.get(("eqhash",) + tuple(sorted((x, y), key=str)))


def ghost(name):
    return ("?", "ghost", name)


APPLIER = "apply_ext::Applier::<'_>::run"


def applier(d, size):
    """one step of rebuilding the new tree: every pruned branch of this level is an old cell, other children are rebuilt"""
    T, ip, st = begin(depth=1, total=size, width=size - 1, loose=True)
    st.mem[("OLD",)] = Opq("oracle", ("old",))
    st.mem[("SELF",)] = mkadt(_p, adt("apply_ext::Applier"), old_cells=Opq("oracle", ("old",)), new_cells=Opq("map", ((),)), context=Ref(("CX",)))
    st.mem[("SELF2",)] = Ref(("SELF",))

    def again(ip, st, c, a):
        t, k = T.term(ip, st, a[1]), T.key(ip, st, a[2])
        st.mem[("G", "runs")] = st.mem.get(("G", "runs"), ()) + ((t, k),)
        return T.either(st, cell(("applied", ("hash", t, k))), "the step below")
    on_call(T, APPLIER, again)
    T.calls["<tycho_types::cell::LevelMask as core::ops::bit::BitOrAssign>::bitor_assign"] = lambda ip, st, c, a: [(st, UNIT)]
    T.calls["core::ops::bit::BitOrAssign::bitor_assign"] = lambda ip, st, c, a: [(st, UNIT)] if "LevelMask" in T.tyname(c) else None
    out, kinds = [], {}
    tr = ip.run(st, ends(APPLIER), [Ref(("SELF",)), T.ref(st, n("r")), K(d, 8)])
    for t in tr:
        if t.kind != "ret":
            out.append(("panic", "applying can panic: %s" % t.why))
            continue
        s = t.st
        if s.mem.get(("G", "ctx")):
            out.append(("context", "applying builds a cell without the caller's context"))
        k = s.mem.get(("refs", "r"))
        m = s.mem.get(("merkle", "r"))
        cd = d + int(bool(m))
        want_, missing = [], False
        for j in range(k or 0):
            c = T.canon(s, "r" + str(j))
            if ("known", c) not in s.mem:
                missing = True
                break
            h = ("hash", n(c), cd)
            if s.mem.get(("prunedb", c)):
                mk = s.mem.get(("mask", c))
                if mk is None:
                    want_.append("?")
                elif mk >> cd & 1:
                    v = s.mem.get(("in", "old", h))
                    if v is False:
                        missing = "old"
                        break
                    want_.append(("old", h) if v else "?")
                else:
                    want_.append(n(c))
            else:
                want_.append(("applied", h))
        if t.val.v:
            kinds["err"] = 1
            if not s.mem.get(FAIL) and missing != "old":
                out.append(("fails", "applying fails although every pruned branch has its old cell"))
            continue
        if s.mem.get(FAIL):
            out.append(("error", "applying succeeds although %s failed" % s.mem[FAIL][0][0]))
            continue
        if missing:
            out.append(("missing", "applying succeeds without the old cell of a pruned branch" if missing == "old" else "applying leaves out a child"))
            continue
        if m is None and k:
            out.append(("merkle", "applying does not look whether the cell is a Merkle cell"))
            continue
        kinds["ok"] = kinds.get("ok", 0) + 1
        got = T.term(ip, s, t.val.f[0])
        ok = got[0] == "built" and got[1] == B(sym(("exotic", "r"), 0)).b[0] and got[2] == (n("r"),) and len(got[3]) == len(want_)
        if ok:
            for x, y in zip(got[3], want_):
                x = recx(T, s, x)
                if x == y:
                    continue
                if y != "?" and x[0] == y[0] == "applied" and eq_hash(s, x[1], y[1]):
                    continue
                ok = False
        if not ok:
            out.append(("step", "applying gives %s, not the cell with %s" % (show(got), want_)))
    if set(kinds) != {"ok", "err"}:
        out.append(("vacuous", "applying: %s" % kinds))
    return out, len(tr)


def recx(T, s, x):
    return (x[0], T.recanon(s, x[1])) if x[0] in ("applied", "old") else rec(T, s, x)


def apply(size):
    """the frame of applying: checks of hashes, which old cells are taken, what the steps are given"""
    T, ip, st = begin(depth=3, total=size, width=2, flat=True)
    for x in ("o", "w"):
        T.ref(st, n(x))
    A = "merkle::update::MerkleUpdate"
    st.mem[("SELF",)] = mkadt(_p, "tycho_types::" + A, old_hash=Opq("ghost", ("oh",)), new_hash=Opq("ghost", ("nh",)), old_depth=K(0, 16), new_depth=K(0, 16), old=cell(n("o")), new=cell(n("w")))

    def find(ip, st, c, a):
        st.mem[("G", "found")] = True
        return T.either(st, Opq("oracle", ("left",)), "find_old_cells")

    def run(ip, st, c, a):
        me = T.val(ip, st, a[0])
        st.mem[("G", "run")] = (get(_p, me, "old_cells"), get(_p, me, "new_cells"), get(_p, me, "context"), T.term(ip, st, a[1]), T.key(ip, st, a[2]))
        return T.either(st, cell(("applied", "w")), "the step")
    on_call(T, A + "::find_old_cells", find)
    on_call(T, APPLIER, run)
    st.mem[("OLDCELL",)] = cell(n("r"))
    out, kinds = [], {}
    tr = ip.run(st, ends(A + "::apply_ext"), [Ref(("SELF",)), Ref(("OLDCELL",)), Ref(("CX",))])
    for t in tr:
        if t.kind != "ret":
            out.append(("panic", "apply_ext can panic: %s" % t.why))
            continue
        s = t.st
        oh = eq_hash(s, ("hash", n("r"), None), ghost("oh"))
        same = eq_hash(s, ghost("oh"), ghost("nh"))
        same = same or bool(eq_hash(s, ("hash", n("r"), None), ghost("nh")) and oh) if same is None else same
        res = eq_hash(s, ("hash", ("applied", "w"), None), ghost("nh"))
        if t.val.v:
            kinds["err"] = 1
            if not s.mem.get(FAIL) and oh is not False and res is not False:
                out.append(("fails", "apply_ext fails although nothing is wrong"))
            continue
        if s.mem.get(FAIL):
            out.append(("error", "apply_ext succeeds although %s failed" % s.mem[FAIL][0][0]))
            continue
        if not oh:
            out.append(("old-hash", "apply_ext succeeds for a cell whose hash is not the old hash"))
            continue
        got = T.term(ip, s, t.val.f[0])
        if got == n("r"):
            kinds["same"] = 1
            if not same:
                out.append(("same", "apply_ext returns the old cell although the hashes may differ"))
            continue
        if got != ("applied", "w") or not res:
            out.append(("new-hash", "apply_ext gives %s %s" % (show(got), "without comparing its hash with the new hash" if got == ("applied", "w") else "")))
            continue
        kinds["ok"] = kinds.get("ok", 0) + 1
        olds, news, cx, root, dep = s.mem[("G", "run")]
        if root != n("w") or dep != 0:
            out.append(("start", "apply_ext starts at %s with Merkle depth %s" % (root, dep)))
        if getattr(T.val(ip, s, cx), "name", "") != "ctx":
            out.append(("context", "apply_ext does not hand the caller's context on"))
        if T.val(ip, s, news).args[0]:
            out.append(("cells", "apply_ext starts with new cells"))
        # which cells must be there
        depths, todo = {}, [("r", 0)]
        while todo:
            i, d = todo.pop()
            i = T.canon(s, i)
            if d in depths.setdefault(i, set()):
                continue
            depths[i].add(d)
            r = s.mem.get(("refs", i))
            if r is None:
                out.append(("old-cells", "apply_ext does not look at the children of old cell %s" % i))
                break
            m = s.mem.get(("merkle", i))
            if r and m is None:
                out.append(("old-cells", "apply_ext does not look whether old cell %s is a Merkle cell" % i))
                break
            for k in range(r):
                c = T.canon(s, i + str(k))
                x = s.mem.get(("in", "left", ("hash", n(c))))
                if x is None and c not in depths:
                    out.append(("old-cells", "apply_ext does not ask about old cell %s" % c))
                if x:
                    todo.append((c, d + int(bool(m))))
        have = {}
        for k, v in T.val(ip, s, olds).args[0]:
            k = T.recanon(s, k)
            have[k] = T.term(ip, s, v)
        if any(k[0] != "hash" or k[2] not in depths.get(k[1][1], ()) or v != k[1] for k, v in have.items()):
            out.append(("old-cells", "apply_ext keeps old cells %s" % sorted(map(str, have.items()))))
        elif {k[1][1] for k in have} != set(depths):
            out.append(("old-cells", "apply_ext keeps old cells %s, not %s" % (sorted(k[1][1] for k in have), sorted(depths))))
        for f in s.mem:
            if f[0] == "asked" and f[2][0] == "hash":
                par = [i for i in depths for k in range(s.mem.get(("refs", i)) or 0) if T.canon(s, i + str(k)) == T.canon(s, f[2][1][1])]
                if not any(f[2][2] == d + int(bool(s.mem.get(("merkle", i)))) for i in par for d in depths[i]):
                    out.append(("level", "apply_ext asks for the hash of cell %s at level %s" % (f[2][1][1], f[2][2])))
    if set(kinds) != {"ok", "err", "same"}:
        out.append(("vacuous", "apply_ext: %s" % kinds))
    return out, len(tr)


def reach(T, s, root, stop, part=False):
    """cells below root with the Merkle depths at which they occur: {node: set of depths} or a message"""
    depths, todo = {}, [(root, 0)]
    while todo:
        i, d = todo.pop()
        i = T.canon(s, i)
        if d in depths.setdefault(i, set()):
            continue
        depths[i].add(d)
        if i != root and stop and s.mem.get(("prunedb", i)):
            continue
        r = s.mem.get(("refs", i))
        if r is None and not part:
            return "does not look at the children of cell %s" % i
        m = s.mem.get(("merkle", i))
        if r and m is None and not part:
            return "does not look whether cell %s is a Merkle cell" % i
        todo += [(i + str(k), d + int(bool(m))) for k in range(r or 0) if not part or ("known", T.canon(s, i + str(k))) in s.mem]
    return depths


def find_old(so, sw):
    """the hashes of the cells that stay in the old tree of an update"""
    T, ip, st = begin(depth=2, total=so + sw, width=2, loose=True, roots=("o", "w"))
    A = "merkle::update::MerkleUpdate"
    st.mem[("SELF",)] = mkadt(_p, "tycho_types::" + A, old_hash=Opq("ghost", ("oh",)), new_hash=Opq("ghost", ("nh",)), old_depth=K(0, 16), new_depth=K(0, 16), old=cell(n("o")), new=cell(n("w")))
    out, kinds = [], {}
    tr = ip.run(st, ends(A + "::find_old_cells"), [Ref(("SELF",))])
    for t in tr:
        if t.kind != "ret":
            out.append(("panic", "find_old_cells can panic: %s" % t.why))
            continue
        s = t.st
        old = reach(T, s, "o", True)
        if isinstance(old, str):
            out.append(("walk", "find_old_cells " + old))
            continue
        if t.val.v:
            kinds["err"] = 1
            bad = False
            new = reach(T, s, "w", True, True)
            for c in new:
                mk = s.mem.get(("mask", c))
                if not s.mem.get(("prunedb", c)) or mk is None:
                    continue
                for d in new[c]:
                    if (mk >> d & 1 or mk >> d + 1) and not any(eq_hash(s, ("hash", n(c), d), ("hash", n(o), e)) for o in old for e in old[o]):
                        bad = True
            if not bad:
                out.append(("fails", "find_old_cells refuses without a pruned branch that has no old cell"))
            continue
        kinds["ok"] = kinds.get("ok", 0) + 1
        have = {T.recanon(s, k) for k, _ in T.val(ip, s, t.val.f[0]).args[0]}
        names = {k[1][1] for k in have}
        # a cell may be left out when another one with the same hash is there
        for i in old:
            if i not in names and not any(eq_hash(s, ("hash", n(i), d), k) for d in old[i] for k in have):
                out.append(("left", "find_old_cells leaves out cell %s" % i))
        for k in have:
            if k[1][1] not in old or k[2] not in old[k[1][1]]:
                out.append(("extra", "find_old_cells keeps %s" % (k,)))
    if set(kinds) != {"ok", "err"}:
        out.append(("vacuous", "find_old_cells: %s" % kinds))
    return out, len(tr)


FILTERS = {"UsageTree": ("contains",), "UsageTreeWithSubtrees": ("contains_direct", "contains_subtree"), "HashSet<HashBytes>": ("set",), "HashSet<&HashBytes>": ("set",),
           "scc::HashSet<HashBytes>": ("set",), "scc::HashSet<&HashBytes>": ("set",), "&": ("inner",), "inverted": ("inner",), "par inverted": ("inner",), "RootOrChild": ("child",)}


def filter_body(what):
    bs = []
    for b in _p.bodies.values():
        if b.get("nm") != "check" or "MerkleFilter" not in str(b.get("trait")):
            continue
        t = b["path"].split(" as ")[0].lstrip("<")
        for a, c in (("std::collections::hash::set::", ""), ("scc::hash_set::", "scc::"), ("tycho_types::cell::usage_tree::", ""), ("tycho_types::cell::", ""), (", S>", ">")):
            t = t.replace(a, c)
        if t == what or what == "&" and t == "&T" or what == "RootOrChild" and "RootOrChild" in t or "inverted" in what and "InvertedFilter" in t and (what == "par inverted") == ("ParBuilder" in t):
            bs.append(b)
    if len(bs) != 1:
        raise Undecided("filter " + what)
    return bs[0]


def filt(what):
    """the answer of each filter about one cell"""
    T, ip, st = begin(depth=0, total=1)
    kinds, out = set(), []
    how = FILTERS[what]
    h = T.hash(ip, st, n("r"), None)
    k = ("hash", n("r"), None)
    if how[0].startswith("contains"):
        st.mem[("SELF",)] = Opq("usage")
        for m in how:
            T.calls["tycho_types::cell::usage_tree::%s::%s" % (what, m)] = lambda ip, st, c, a, m=m: [(t, B(int(b))) for t, b in st_fork(T, st, ("in", m, T.key(ip, st, a[1])))]
        facts = [("in", m, k) for m in how]
    elif how[0] == "set":
        st.mem[("SELF",)] = Opq("oracle", ("set",))
        facts = [("in", "set", k)]
    elif how[0] == "inner":
        st.mem[("F",)] = Opq("filter")
        st.mem[("SELF",)] = Opq("filter") if what == "&" else mkadt(_p, adt("::BuilderImpl<'a, 'b, 'c>::build::InvertedFilter" if what == "inverted" else "::ParBuilderImpl<'a, 'b, 'c>::build::InvertedFilter"), **{"0": Opq("filter")})
        st.mem[("REFSELF",)] = Ref(("SELF",))
        facts = [("filter", "r")]
    else:
        st.mem[("CH",)] = Opq("ghost", ("child",))
        st.mem[("SELF",)] = mkadt(_p, adt("create_for_cell::RootOrChild"), cells=Opq("oracle", ("set",)), child_hash=Ref(("CH",)))
        facts = [("in", "set", k), ("eqhash",) + tuple(sorted((k, ghost("child")), key=str))]
    tr = ip.run(st, filter_body(what), [Ref(("REFSELF",) if what == "&" else ("SELF",)), h])
    for t in tr:
        if t.kind != "ret":
            out.append(("panic", "%s: check can panic: %s" % (what, t.why)))
            continue
        fs = [t.st.mem.get(f) for f in facts]
        if how == ("inner",):
            w = [[0], [1], [2]][fs[0]] if what == "&" else None
            if w is None:
                # a cell that is skipped as old is new and is taken; one that stays is left out
                w = [1, 2] if fs[0] == 0 else [0]
        elif how[0] == "contains_direct":
            w = [1] if fs[0] else [2] if fs[1] and fs[0] is False else [0] if fs[0] is False and fs[1] is False else []
        elif what == "RootOrChild":
            w = [1] if True in fs else [0] if fs == [False, False] else []
        else:
            w = [1] if fs[0] else [0] if fs[0] is False else []
        kinds.add(t.val.v)
        if t.val.v not in w:
            out.append(("filter", "%s: the answer is %s where %s is right (%s)" % (what, t.val.v, w, fs)))
    if len(kinds) < 2:
        out.append(("vacuous", "%s: %s" % (what, kinds)))
    return out, len(tr)


def st_fork(T, st, f):
    return T.fork(st, f, (False, True))


WRAP = {
    "build_raw_ext": ("MerkleProofBuilder::<'a, F>::build_raw_ext", 0, 0), "build_ext": ("MerkleProofBuilder::<'a, F>::build_ext", 0, 0), "build": ("MerkleProofBuilder::<'a, F>::build", 0, 0),
    "par_build_raw_ext": ("MerkleProofBuilder::<'a, F>::par_build_raw_ext", 0, 1), "par_build_ext": ("MerkleProofBuilder::<'a, F>::par_build_ext", 0, 1), "par_build": ("MerkleProofBuilder::<'a, F>::par_build", 0, 1),
    "ext build_raw_ext": ("MerkleProofExtBuilder::<'a, F>::build_raw_ext", 1, 0), "ext par_build_raw_ext": ("MerkleProofExtBuilder::<'a, F>::par_build_raw_ext", 1, 1)}


def wrapper(what):
    """the outer builders hand root, filter, flags and context on and label the result with the root's hash and depth"""
    path, ext, par = WRAP[what]
    T, ip, st = begin(depth=0, total=1)
    T.ref(st, n("r"))
    fl = {f: B(sym((f,), 0)) for f in ("allow_different_root", "prune_big_cells")}
    me = mkadt(_p, adt("::MerkleProofExtBuilder" if ext else "proof::MerkleProofBuilder"), root=Ref(("CELL", n("r"))), filter=Opq("filter"), **fl)
    out, kinds = [], set()

    def inner(ip, st, c, a):
        v = T.val(ip, st, a[0])
        g = lambda f: get(_p, v, f)
        pb = g("pruned_branches")
        cx = T.val(ip, st, g("context"))
        bad = []
        if T.term(ip, st, g("root")) != n("r"):
            bad.append("root")
        if getattr(T.val(ip, st, g("filter")), "name", 0) != "filter":
            bad.append("filter")
        if T.val(ip, st, g("cells")).args[0]:
            bad.append("cells")
        if (pb.v == 1) != bool(ext):
            bad.append("pruned_branches")
        if par and getattr(T.val(ip, st, g("split_at")), "name", "") != "split":
            bad.append("split_at")
        if cx.name != ("empty context" if what in ("build", "par_build") else "ctx"):
            bad.append("context")
        for f, b in fl.items():
            if bit_of(ip, st, g(f)) != b.b[0]:
                bad.append(f)
        st.mem[("G", "inner")] = bad
        if ext:
            r = T.place(ip, st, pb.f[0])
            ip.write(st, r.root, r.path, Opq("set", (((("hash", n("r"), None), None),),)))
        return T.either(st, cell(("proof",)), "build")
    on_call(T, "proof::ParBuilderImpl::<'a, '_, '_>::build" if par else "proof::BuilderImpl::<'_, '_, '_>::build", inner)
    args = [me] + ([] if what in ("build", "par_build") else [Ref(("CX",))]) + ([Opq("split")] if par else [])
    tr = ip.run(st, ends(path), args)
    for t in tr:
        if t.kind != "ret":
            out.append(("panic", "%s can panic: %s" % (what, t.why)))
            continue
        s = t.st
        if ("G", "inner") not in s.mem:
            out.append(("inner", "%s builds nothing" % what))
            continue
        for f in s.mem[("G", "inner")]:
            out.append((f, "%s does not hand %s on" % (what, f)))
        kinds.add(t.val.v)
        if bool(t.val.v) != bool(s.mem.get(FAIL)):
            out.append(("error", "%s %s although the build %s" % (what, "fails" if t.val.v else "succeeds", "failed" if s.mem.get(FAIL) else "succeeded")))
            continue
        if t.val.v:
            continue
        v = t.val.f[0]
        if ext:
            if T.term(ip, s, v.f[0]) != ("proof",) or [k for k, _ in T.val(ip, s, v.f[1]).args[0]] != [("hash", n("r"), None)]:
                out.append(("result", "%s gives something else than was built" % what))
        elif "raw" in what:
            if T.term(ip, s, v) != ("proof",):
                out.append(("result", "%s gives something else than was built" % what))
        else:
            d = get(_p, v, "depth")
            if T.key(ip, s, get(_p, v, "hash")) != ("hash", n("r"), None):
                out.append(("hash", "%s labels the proof with another hash" % what))
            if d.t != (("depth%s" % ((n("r"), None),), 1),) or d.c:
                out.append(("depth", "%s labels the proof with another depth" % what))
            if T.term(ip, s, get(_p, v, "cell")) != ("proof",):
                out.append(("result", "%s gives something else than was built" % what))
    if kinds != {0, 1}:
        out.append(("vacuous", "%s: %s" % (what, kinds)))
    return out, len(tr)


def for_cell(size):
    """the proof for one cell: the cell and the cells above its first occurrence are taken"""
    T, ip, st = begin(depth=3, total=size, width=2)
    st.mem[("CH",)] = Opq("ghost", ("child",))
    tr = ip.run(st, ends("MerkleProof::create_for_cell"), [T.ref(st, n("r")), Ref(("CH",))])
    out, kinds = [], set()
    for t in tr:
        if t.kind != "ret":
            out.append(("panic", "create_for_cell can panic: %s" % t.why))
            continue
        s = t.st

        def walk(i, above):
            r = s.mem.get(("refs", i))
            if r is None:
                raise Unknown("does not look at the references of cell %s" % i)
            for k in range(r):
                c = T.canon(s, i + str(k))
                e = eq_hash(s, ("hash", n(c), None), ghost("child"))
                if e is None:
                    raise Unknown("does not look at cell %s" % c)
                if e:
                    return above | {i}
                x = walk(c, above | {i})
                if x is not None:
                    return x
            return None
        try:
            w = walk("r", frozenset())
        except Unknown as e:
            out.append(("walk", "create_for_cell %s" % e))
            continue
        kinds.add(w is None)
        f = get(_p, t.val, "filter")
        have = {T.recanon(s, k) for k, _ in T.val(ip, s, get(_p, f, "cells")).args[0]}
        if have != {("hash", n(i), None) for i in (w or ())}:
            out.append(("cells", "create_for_cell takes %s, not the cells above the first occurrence %s" % (sorted(map(str, have)), sorted(w or ()))))
        if T.key(ip, s, get(_p, f, "child_hash")) != ghost("child") or T.term(ip, s, get(_p, t.val, "root")) != n("r"):
            out.append(("fields", "create_for_cell mixes up root and child"))
    if kinds != {True, False}:
        out.append(("vacuous", "create_for_cell: %s" % kinds))
    return out, len(tr)


UB = "merkle::update::%s::<'a, 'b, 'c>::build"


def resolver(par, size, splits=0):
    """which old cells stay: those above a cell that the new tree refers to"""
    T, ip, st = begin(depth=3, total=size, width=2, splits=splits)
    who = "the %s of changed cells" % ("parallel search" if par else "search")
    a = adt("::%s<'a, 'b, 'c>::build::Resolver" % ("ParBuilderImpl" if par else "BuilderImpl"))
    st.mem[("F",)] = Opq("filter")
    more = dict(deferred=Opq("map", ((),))) if par else dict(visited=Opq("map", ((),)))
    st.mem[("SELF",)] = mkadt(_p, a, pruned_branches=Opq("oracle", ("pruned",)), filter=Ref(("F",)), changed_cells=Opq("set", ((),)), **more)
    st.mem[("SPLIT",)] = Opq("split")
    bs = [b for b in _p.bodies.values() if b["path"].endswith("build::Resolver::<'a>::fill") and ("::ParBuilderImpl" in b["path"]) == bool(par)]
    if len(bs) != 1:
        raise Undecided("fill")
    tr = ip.run(st, bs[0], [Ref(("SELF",)), T.ref(st, n("r")), Ref(("SPLIT",)) if par else K(0, 1)])
    out, kinds = [], {}
    for t in tr:
        if t.kind != "ret":
            out.append(("panic", "%s can panic: %s" % (who, t.why)))
            continue
        s = t.st
        changed, memo = set(), {}

        def res(i, skip):
            i = T.canon(s, i)
            if (i, skip) in memo:
                return memo[(i, skip)]
            pr = s.mem.get(("in", "pruned", ("hash", n(i), None)))
            if pr is None:
                raise Unknown("does not look whether cell %s is referred to" % i)
            down = skip
            if not skip:
                f = s.mem.get(("filter", i))
                if f is None:
                    raise Unknown("does not ask the filter about cell %s" % i)
                if f == 0:
                    memo[(i, skip)] = pr
                    return pr
                down = f == 2
            r = s.mem.get(("refs", i))
            if r is None:
                raise Unknown("does not look below cell %s" % i)
            x = False
            for k in range(r):
                x = res(i + str(k), down) or x
            if x:
                changed.add(i)
            memo[(i, skip)] = x or pr
            return x or pr
        try:
            w = res("r", False)
        except Unknown as e:
            out.append(("walk", "%s %s" % (who, e)))
            continue
        kinds[w] = 1
        me = T.val(ip, s, Ref(("SELF",)))
        have = {T.recanon(s, k)[1][1] for k, _ in T.val(ip, s, get(_p, me, "changed_cells")).args[0]}
        if have != changed:
            out.append(("changed", "%s finds %s where %s must stay" % (who, sorted(have), sorted(changed))))
        if num_of(t.val) != int(w):
            out.append(("answer", "%s answers %s for the root" % (who, t.val)))
    if set(kinds) != {True, False}:
        out.append(("vacuous", "%s: %s" % (who, kinds)))
    return out, len(tr)


def update(par, equal):
    """the frame of making an update: the new tree without what stays, the old tree down to what stays"""
    T, ip, st = begin(depth=0, total=2, roots=("o", "w"))
    for x in "ow":
        T.ref(st, n(x))
    if equal:
        st.mem[("alias", "w")] = "o"
    impl = "ParBuilderImpl" if par else "BuilderImpl"
    me = mkadt(_p, adt("merkle::update::" + impl), old=Ref(("CELL", n("o"))), new=Ref(("CELL", n("w"))), filter=Ref(("F",)), context=Ref(("CX",)))
    st.mem[("F",)] = Opq("filter")
    who = "making an update in parallel" if par else "making an update"

    def same(ip, st, x, name):
        return getattr(T.val(ip, st, x), "name", None) == name

    def builder_of(ip, st, v):
        f = get(_p, v, "filter")
        fv = T.val(ip, st, f)
        kind = "?"
        if isinstance(fv, Ag) and "InvertedFilter" in str(fv.k) and same(ip, st, fv.f[0], "filter"):
            kind = "inverted"
        elif isinstance(fv, Opq) and fv.name == "set":
            kind = ("set", tuple(sorted((T.recanon(st, k) for k, _ in fv.args[0]), key=str)))
        return T.term(ip, st, get(_p, v, "root")), kind, bit_of(ip, st, get(_p, v, "allow_different_root")), bit_of(ip, st, get(_p, v, "prune_big_cells"))

    def note(st, x):
        st.mem[("G", "steps")] = st.mem.get(("G", "steps"), ()) + (x,)

    def new(ip, st, c, a):
        note(st, ("new", builder_of(ip, st, a[0]), same(ip, st, a[1], "ctx"), par and T.val(ip, st, a[2]).args))
        return [(t, Ok(Ag("tuple", 0, (v.f[0], Opq("oracle", ("pruned",))))) if v.v == 0 else v) for t, v in T.either(st, cell(("new",)), "the proof of the new tree")]

    def old(ip, st, c, a):
        note(st, ("old", builder_of(ip, st, a[0]), same(ip, st, a[1], "ctx"), par and T.val(ip, st, a[2]).args))
        return T.either(st, cell(("old",)), "the proof of the old tree")

    def fill(ip, st, c, a):
        v = T.val(ip, st, a[0])
        p = T.place(ip, st, a[0])
        ok = [same(ip, st, get(_p, v, "filter"), "filter"), T.val(ip, st, get(_p, v, "pruned_branches")).args == ("pruned",), not T.val(ip, st, get(_p, v, "changed_cells")).args[0], T.term(ip, st, a[1]) == n("o")]
        ok.append(T.val(ip, st, a[2]).args == ("old",) if par else bit_of(ip, st, a[2]) == 0)
        note(st, ("fill", all(ok)))
        i = [x[0] for x in _p.adts[v.k]["v"][0]["f"]].index("changed_cells")
        res = []
        for t, x in T.fork(st, ("fill",), (0, 1, 2)):
            # nothing; only the root itself; the root and others
            if x == 2:
                ip.write(t, p.root, p.path + (i,), Opq("set", (((("hash", n("o"), None), None), (("hash", ("below",), None), None)),)))
            res.append((t, B(int(x > 0))))
        return res
    fills = [b["path"] for b in _p.bodies.values() if b["path"].endswith("build::Resolver::<'a>::fill")]
    for f in fills:
        T.calls[f] = fill
    on_call(T, WRAP["ext par_build_raw_ext" if par else "ext build_raw_ext"][0], new)
    on_call(T, WRAP["par_build_raw_ext" if par else "build_raw_ext"][0], old)
    tr = ip.run(st, ends((UB % impl)), [me] + ([Opq("oldsplit", ("old",)), Opq("newsplit", ("new",))] if par else []))
    out, kinds = [], set()
    for t in tr:
        if t.kind != "ret":
            out.append(("panic", "%s can panic: %s" % (who, t.why)))
            continue
        s = t.st
        if s.mem.get(("G", "ctx")):
            out.append(("context", "%s builds a cell without the caller's context" % who))
        if t.val.v:
            kinds.add("err")
            if not s.mem.get(FAIL):
                out.append(("fails", "%s fails although nothing failed" % who))
            continue
        if s.mem.get(FAIL):
            out.append(("error", "%s succeeds although %s failed" % (who, s.mem[FAIL][0][0])))
            continue
        v = t.val.f[0]
        g = lambda f: get(_p, v, f)
        kh = [T.key(ip, s, g(f)) for f in ("old_hash", "new_hash")]
        kd = [g(f).t for f in ("old_depth", "new_depth")]
        cells = [T.term(ip, s, g(f)) for f in ("old", "new")]
        dep = lambda x: (("depth%s" % ((n(x), None),), 1),)
        steps = s.mem.get(("G", "steps"))
        eq = s.mem.get(("alias", "w")) == "o"
        if not steps:
            kinds.add("same")
            if not eq:
                out.append(("same", "%s of different cells makes an empty update" % who))
            elif any(k != ("hash", n("o"), None) and k != ("hash", n("w"), None) for k in kh) or any(d not in (dep("o"), dep("w")) for d in kd) or any(c not in (("pruned", n("o"), 0), ("pruned", n("w"), 0)) for c in cells):
                out.append(("empty", "%s of the same cell gives %s" % (who, [kh, kd, cells])))
            continue
        kinds.add("ok")
        if kh != [("hash", n("o"), None), ("hash", n("w"), None)] or kd != [dep("o"), dep("w")]:
            out.append(("label", "%s labels it with %s" % (who, [kh, kd])))
        if cells != [("old",), ("new",)]:
            out.append(("cells", "%s gives %s" % (who, cells)))
        f = s.mem.get(("fill",))
        must = ("set", tuple(sorted({0: [], 1: [("hash", n("o"), None)], 2: [("hash", n("o"), None), ("hash", ("below",), None)]}.get(f, []), key=str)))
        st_ = {x[0]: x[1:] for x in steps}
        if st_.get("new") is None or st_["new"][0][:3] != (n("w"), "inverted", 1) or not st_["new"][1]:
            out.append(("new", "%s makes the new tree with %s" % (who, st_.get("new"))))
        if st_.get("fill") != (True,):
            out.append(("fill", "%s looks for changed cells in another way" % who))
        if st_.get("old") is None or st_["old"][0][:2] != (n("o"), must) or st_["old"][0][2] != 1 or not st_["old"][1]:
            out.append(("old", "%s makes the old tree with %s, not %s" % (who, st_.get("old"), must)))
    if kinds != ({"err", "same"} if equal else {"err", "ok"}):
        out.append(("vacuous", "%s: %s" % (who, kinds)))
    return out, len(tr)


UWRAP = {"build_ext": ("MerkleUpdateBuilder::<'a, F>::build_ext", 0), "build": ("MerkleUpdateBuilder::<'a, F>::build", 0),
         "rayon_build_ext": ("MerkleUpdateBuilder::<'a, F>::rayon_build_ext", 1), "par_build": ("MerkleUpdateBuilder::<'a, F>::par_build", 1)}


def uwrapper(what):
    path, par = UWRAP[what]
    T, ip, st = begin(depth=0, total=2, roots=("o", "w"))
    me = mkadt(_p, adt("update::MerkleUpdateBuilder"), old=T.ref(st, n("o")), new=T.ref(st, n("w")), filter=Opq("filter"))

    def inner(ip, st, c, a):
        v = T.val(ip, st, a[0])
        g = lambda f: T.val(ip, st, get(_p, v, f))
        bad = [f for f, x in (("old", "o"), ("new", "w")) if T.term(ip, st, get(_p, v, f)) != n(x)]
        if g("filter").name != "filter":
            bad.append("filter")
        if g("context").name != ("ctx" if "ext" in what else "empty context"):
            bad.append("context")
        if par and [T.val(ip, st, x).args for x in a[1:]] != [("old",), ("new",)]:
            bad.append("the sets of cells to split at")
        st.mem[("G", "inner")] = bad
        return T.either(st, Opq("update"), "build")
    on_call(T, UB % ("ParBuilderImpl" if par else "BuilderImpl"), inner)
    tr = ip.run(st, ends(path), [me] + ([Opq("oldsplit", ("old",)), Opq("newsplit", ("new",))] if par else []) + ([Ref(("CX",))] if "ext" in what else []))
    out = []
    for t in tr:
        if t.kind != "ret":
            out.append(("panic", "%s can panic: %s" % (what, t.why)))
            continue
        for f in t.st.mem.get(("G", "inner"), ["anything"]):
            out.append((f, "%s of an update does not hand %s on" % (what, f)))
        if bool(t.val.v) != bool(t.st.mem.get(FAIL)) or not t.val.v and getattr(t.val.f[0], "name", "") != "update":
            out.append(("result", "%s of an update gives another result" % what))
    if len(tr) != 2:
        out.append(("vacuous", "%s: %d paths" % (what, len(tr))))
    return out, len(tr)


def removed(so, sw):
    """which cells go: references that are lost when the old tree is dropped, without what stays"""
    T, ip, st = begin(depth=3, total=so + sw, width=2, loose=True, roots=("r", "w"))
    A = "merkle::update::MerkleUpdate"
    T.ref(st, n("o"))
    st.mem[("SELF",)] = mkadt(_p, "tycho_types::" + A, old_hash=Opq("ghost", ("oh",)), new_hash=Opq("ghost", ("nh",)), old_depth=K(0, 16), new_depth=K(0, 16), old=cell(n("o")), new=cell(n("w")))
    tr = ip.run(st, ends(A + "::compute_removed_cells"), [Ref(("SELF",)), T.ref(st, n("r"))])
    out, kinds = [], {}
    for t in tr:
        if t.kind != "ret":
            out.append(("panic", "compute_removed_cells can panic: %s" % t.why))
            continue
        s = t.st
        oh = eq_hash(s, ("hash", n("r"), None), ghost("oh"))
        o0 = eq_hash(s, ("hash", n("r"), None), ("hash", n("o"), 0))
        same = eq_hash(s, ghost("oh"), ghost("nh"))
        if t.val.v:
            kinds["err"] = 1
            if oh is not False and o0 is not False:
                out.append(("fails", "compute_removed_cells fails for the right cell"))
            continue
        if not oh or not o0:
            out.append(("guard", "compute_removed_cells accepts a cell without comparing its hash"))
            continue
        got = {}
        items = [list(x) for x in T.val(ip, s, t.val.f[0]).args[0]]
        for x, _, _, j in s.mem.get(("G", "slots"), ()):
            items[j][1] = s.mem[x]
        for k, v in items:
            got[T.recanon(s, k)] = num_of(T.val(ip, s, v))
        if same:
            kinds["same"] = 1
            if got:
                out.append(("same", "compute_removed_cells removes cells of an update that changes nothing"))
            continue
        kinds["ok"] = kinds.get("ok", 0) + 1
        new = reach(T, s, "w", True)
        if isinstance(new, str):
            out.append(("walk", "compute_removed_cells " + new))
            continue

        def stays(i):
            """True, False or None: is the cell in the new tree"""
            # a cell visited once is known at one of the depths at which it occurs
            r = [[eq_hash(s, ("hash", n(i), None), ("hash", n(c), d)) for d in new[c]] for c in new]
            if any(x and all(y is True for y in x) for x in r):
                return True
            return None if any(True in x for x in r) else False
        want_, seen, todo = {"r": 1}, {"r"}, ["r"]
        try:
            while todo:
                i = todo.pop()
                x = stays(i)
                if x is None:
                    raise Unknown("")
                if x:
                    continue
                r = s.mem.get(("refs", i))
                if r is None:
                    raise Unknown("does not look below cell %s" % i)
                for k in range(r):
                    c = T.canon(s, i + str(k))
                    want_[c] = want_.get(c, 0) + 1
                    if c not in seen:
                        seen.add(c)
                        todo.append(c)
        except Unknown as e:
            if str(e):
                out.append(("walk", "compute_removed_cells %s" % e))
            continue
        w = {("hash", n(i), None): v for i, v in want_.items()}
        if got != w:
            out.append(("removed", "compute_removed_cells gives %s, not %s" % (sorted((k[1][1], v) for k, v in got.items()), sorted(want_.items()))))
    if set(kinds) != {"err", "ok", "same"}:
        out.append(("vacuous", "compute_removed_cells: %s" % kinds))
    return out, len(tr)


def jobs(tier):
    js = [("load", t) for t in LAYOUT] + [("prune", m, d) for m in range(8) for d in (0, 1, 2, 3, 4, 7, 8, 9, 255)]
    js += [("filt", f) for f in FILTERS] + [("wrapper", f) for f in WRAP] + [("uwrapper", f) for f in UWRAP]
    js += [("update", p, e) for p in (0, 1) for e in (0, 1)]
    js += [("for_cell", 5), ("apply", 5), ("find_old", 3, 2), ("resolver", 0, 4), ("resolver", 1, 3, 1), ("resolver", 1, 4, 0), ("removed", 3, 2)]
    js += [("applier", d, 4) for d in (0, 1, 2)]
    for big in (0, 1):
        for other in (0, 1):
            for track in (0, 1):
                js.append(("proof", big, other, track, 1, 4))
                js.append(("proof", big, other, track, 1, 3, 0))
    js += [("proof", 1, 0, 0, 1, 5), ("proof", 0, 1, 1, 1, 5), ("proof", 1, 0, 1, 1, 4, 1), ("proof", 0, 1, 0, 1, 4, 0)]
    if tier == "thorough":
        js += [("proof", b, o, t, 1, 5) for b in (0, 1) for o in (0, 1) for t in (0, 1)]
        js += [("resolver", 0, 5), ("resolver", 1, 4, 1), ("apply", 6), ("for_cell", 7), ("applier", 3, 4), ("applier", 0, 5)]
    return js


def any_job(j):
    try:
        out, n_ = globals()[j[0]](*j[1:])
    except GIVE_UP as e:
        return j, [("undecided", "%s: %s" % (type(e).__name__, e))], 0
    return j, out, n_


def many(js):
    return [any_job(j) for j in js]


NAMES = {"proof": lambda j: "MerkleProofBuilder" if len(j) < 7 else "ParBuilder", "load": lambda j: j[1], "prune": lambda j: "make_pruned_branch", "filt": lambda j: "filter:" + j[1],
         "wrapper": lambda j: "MerkleProofBuilder:" + j[1], "uwrapper": lambda j: "MerkleUpdateBuilder:" + j[1], "update": lambda j: "ParBuilderImpl" if j[1] else "BuilderImpl",
         "for_cell": lambda j: "create_for_cell", "apply": lambda j: "apply_ext", "applier": lambda j: "apply_ext:step", "find_old": lambda j: "find_old_cells",
         "resolver": lambda j: "changed_cells" + (":par" if j[1] else ""), "removed": lambda j: "compute_removed_cells"}


def check(cx):
    global _p
    _p = cx.prog("main")
    js = jobs(cx.tier)
    small = [j for j in js if j[0] in ("prune", "filt", "wrapper", "uwrapper", "load", "update")]
    big = sorted((j for j in js if j not in small), key=lambda j: -(j[0] == "proof") * sum(x for x in j[1:] if x))
    for r in pmap(many, [[j] for j in big] + [small]):
        for j, pr, n in r:
            cx.count("cases")
            cx.count("paths", n)
            seen = set()
            for kind, text in pr:
                if (kind, text) not in seen:
                    seen.add((kind, text))
                    cx.bad("%s:%s" % (NAMES[j[0]](j), kind), text)
    cx.floor("cases", 120)
    cx.floor("paths", 100000)
