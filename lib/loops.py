"""Loop invariants for the bit-provenance interpreter: a loop head is passed with the
places that the loop changes replaced by fresh variables, under the facts (bounds by
the entry value or by given terms, linear relations between two places) that were
shown to be preserved by every path back to the head."""
from bits import *


def heads(body):
    """targets of back edges -> {head: blocks of its natural loop}"""
    succ = []
    for b in body["blocks"]:
        t = b["t"]
        k = t[0]
        if k == "goto":
            s = [t[1]]
        elif k == "drop":
            s = [t[2]]
        elif k == "switch":
            s = [x[1] for x in t[2]] + [t[3]]
        elif k == "call":
            s = [t[4]] if t[4] is not None and t[4] >= 0 else []
        elif k == "assert":
            s = [t[4]]
        else:
            s = []
        succ.append([x for x in s if isinstance(x, int) and x >= 0])
    color, out, back = {}, set(), {}
    stack = [(0, iter(succ[0]))]
    color[0] = 1
    while stack:
        n, it = stack[-1]
        for m in it:
            if color.get(m, 0) == 0:
                color[m] = 1
                stack.append((m, iter(succ[m])))
                break
            if color[m] == 1:
                out.add(m)
                back.setdefault(m, set()).add(n)
        else:
            color[n] = 2
            stack.pop()
    pred = {}
    for n, ms in enumerate(succ):
        for m in ms:
            pred.setdefault(m, set()).add(n)
    res = {}
    for h in out:
        seen, work = {h}, list(back[h])
        while work:
            n = work.pop()
            if n not in seen:
                seen.add(n)
                work.extend(pred.get(n, ()))
        res[h] = seen
    return res


def leaves(v, path=()):
    """integer leaves and other atoms of a value"""
    if isinstance(v, (Af, Bv)):
        yield path, v
    elif isinstance(v, Ag):
        yield path + ("#",), (v.k if not isinstance(v.k, list) else None, v.v)
        for i, x in enumerate(v.f):
            yield from leaves(x, path + (i,))
    elif isinstance(v, Sl):
        yield path + ("slroot",), (v.root, v.path)
        yield path + ("off",), v.off
        yield path + ("len",), v.len
    elif isinstance(v, Pt):
        yield path + ("ptroot",), (v.root, v.path)
        yield path + ("off",), v.off
    else:
        yield path, v


def get_leaf(v, path):
    for e in path:
        if e == "off":
            return v.off
        if e == "len":
            return v.len
        if not isinstance(v, Ag) or not isinstance(e, int) or e >= len(v.f):
            return None
        v = v.f[e]
    return v


def set_leaf(v, path, x):
    if not path:
        return x
    e = path[0]
    if e == "off":
        return Sl(v.root, v.path, x, v.len) if isinstance(v, Sl) else Pt(v.root, v.path, x)
    if e == "len":
        return Sl(v.root, v.path, v.off, x)
    f = list(v.f)
    f[e] = set_leaf(f[e], path[1:], x)
    return Ag(v.k, v.v, f)


class TooLong(Exception):
    def __init__(s, key):
        s.key = key


class Loops:
    """bounds(st, key) -> affine values that a changed place may stay below;
    unroll: loops are followed that many times around before they are abstracted;
    on_back(ip, st): called when a path comes back to the head of an abstracted loop"""

    def __init__(s, bodies, bounds=None, havoc=None, unroll=0, on_back=None):
        s.unroll, s.on_back = unroll, on_back
        s.force = set()
        s.on_head = None
        s.heads = {}
        for b in bodies:
            for h, nat in heads(b).items():
                s.heads[(b["id"], h)] = nat
        s.bounds = bounds or (lambda ip, st: [])
        s.havoc = havoc or (lambda ip, st, v: None)
        s.mods = {}   # key -> {(root, path): "int" | "any"}
        s.dropped = set()
        s.rel = {}      # key -> set of ((leaf, dx), (leaf, dy))
        s.back_edges = 0

    def key(s, root, fr):
        return ("L", "@", root[2]) if root[0] == "L" and root[1] == fr.fid else root

    def unkey(s, root, fr):
        return ("L", fr.fid, root[2]) if root[0] == "L" and root[1] == "@" else root

    def at(s, ip, st):
        fr = st.frames[-1]
        k = (fr.body["id"], st.bb, tuple((f.body["id"], f.target) for f in st.frames))
        mark = ("LOOP", k, fr.fid)
        if s.unroll and k not in s.force:
            n = st.mem.get(mark, 0)
            if n > s.unroll:
                raise TooLong(k)
            for m in s.heads[k[:2]]:
                if m != k[1] and (k[0], m) in s.heads:
                    st.mem.pop(("LOOP", (k[0], m, k[2]), fr.fid), None)
            st.mem[mark] = n + 1
            return st
        if mark in st.mem:
            if s.on_back is not None:
                s.on_back(ip, st)
            s.back(ip, st, fr, k, st.mem[mark])
            return None
        entry = {}
        facts = []
        names = {}
        bs = s.bounds(ip, st)
        for (root, path), kind in sorted(s.mods.get(k, {}).items(), key=repr):
            r = s.unkey(root, fr)
            if r not in st.mem:
                continue
            old = get_leaf(st.mem[r], path)
            if old is None:
                continue
            if kind == "any" or not isinstance(old, (Af, Bv)):
                new = s.havoc(ip, st, old)
                if new is None:
                    ip.fresh += 1
                    new = Opq("havoc", (ip.fresh,))
                st.mem[r] = set_leaf(st.mem[r], path, new)
                continue
            w = old.w
            e = ip.var_of(st, old)
            lo = -(1 << (w - 1)) if old.sg else 0
            hi = (1 << (w - 1)) - 1 if old.sg else (1 << w) - 1
            v = ip.newvar(st, lo, hi, "loop")
            entry[(root, path)] = (v, e)
            st.mem[r] = set_leaf(st.mem[r], path, Af(w, old.sg, 0, ((v, 1),)))
            cand = [("ge0", lin_add((0, ((v, 1),)), 1, (e.c, e.t), -1)), ("le0", lin_add((0, ((v, 1),)), -1, (e.c, e.t), 1))]
            for i, b in enumerate(bs):
                d = lin_add((b.c, b.t), 1, (e.c, e.t), -1)
                if st.holds(*d):
                    cand.append(("max%d" % i, lin_add((b.c, b.t), 1, (0, ((v, 1),)), -1)))
            for nm, f in cand:
                if (k, root, path, nm) not in s.dropped:
                    facts.append(((k, root, path, nm), f))
        ks = sorted(entry, key=repr)
        pairs = [((a, 1), (b, 1)) for i, a in enumerate(ks) for b in ks[i + 1:]]
        for (a, dx), (b, dy) in sorted(s.rel.get(k, set()) | set(pairs), key=repr):
            if a in entry and b in entry and (k, a, b, dx, dy) not in s.dropped:
                (va, ea), (vb, eb) = entry[a], entry[b]
                f = lin_add(lin_add((0, ((va, 1),)), dy, (ea.c, ea.t), -dy), 1, lin_add((0, ((vb, 1),)), dx, (eb.c, eb.t), -dx), -1)
                facts.append(((k, a, b, dx, dy), f))
                facts.append(((k, a, b, dx, dy), (-f[0], tuple((x, -n) for x, n in f[1]))))
        snap = dict(st.mem)
        st.mem[mark] = (snap, entry, facts)
        for _, f in facts:
            st.add(*f)
        if s.on_head is not None:
            s.on_head(ip, st)
        return st

    def back(s, ip, st, fr, k, info):
        snap, entry, facts = info
        s.back_edges += 1
        new = False
        delta, forms = {}, {}
        for r, old in snap.items():
            if r[0] == "LOOP":
                continue
            if r[0] == "L" and isinstance(r[1], int) and r[1] > fr.fid and r[1] < 1000000:
                continue
            cur = st.mem.get(r)
            if cur is old or cur is None:
                continue
            if same_val(st, cur, old):
                continue
            ok, cl = dict(leaves(old)), dict(leaves(cur))
            for p, a in ok.items():
                b = cl.get(p)
                if p and p[-1] in ("#", "slroot", "ptroot"):
                    if a != b:
                        new |= s.mod(k, s.key(r, fr), p[:-1], "any")
                    continue
                if b is None:
                    continue
                if isinstance(a, (Af, Bv)) and isinstance(b, (Af, Bv)):
                    if not same_val(st, a, b):
                        new |= s.mod(k, s.key(r, fr), p, "int")
                        x, y = ip.affine(st, b), ip.affine(st, a)
                        if x is not None and y is not None:
                            d = lin_add((x.c, x.t), 1, (y.c, y.t), -1)
                            forms[(s.key(r, fr), p)] = d
                            if not d[1]:
                                delta[(s.key(r, fr), p)] = d[0]
                elif not same_val(st, a, b):
                    new |= s.mod(k, s.key(r, fr), p, "any")
        dl = sorted(delta.items(), key=repr)
        for i, (a, dx) in enumerate(dl):
            for b, dy in dl[i + 1:]:
                if dx and dy and ((a, dx), (b, dy)) not in s.rel.setdefault(k, set()):
                    s.rel[k].add(((a, dx), (b, dy)))
                    s.changed = s.grew = True
        # two places of which one grows by what the other loses
        fl = sorted(forms.items(), key=repr)
        for i, (a, dx) in enumerate(fl):
            for b, dy in fl[i + 1:]:
                if (dx[1] or dy[1]) and ((a, 1), (b, -1)) not in s.rel.get(k, ()):
                    x = lin_add(dx, 1, dy, 1)
                    if st.holds(*x) and st.holds(-x[0], tuple((v, -n) for v, n in x[1])):
                        s.rel.setdefault(k, set()).add(((a, 1), (b, -1)))
                        s.changed = s.grew = True
        # facts at the back edge
        sub = {}
        for leaf, (v, e) in entry.items():
            cur = get_leaf(st.mem[s.unkey(leaf[0], fr)], leaf[1])
            sub[v] = ip.var_of(st, cur) if isinstance(cur, (Af, Bv)) else None
        for nm, (c, t) in facts:
            if nm in s.dropped:
                continue
            x = (c, ())
            good = True
            for v, n in t:
                if v in sub:
                    if sub[v] is None:
                        good = False
                        break
                    x = lin_add(x, 1, (sub[v].c, sub[v].t), n)
                else:
                    x = lin_add(x, 1, (0, ((v, 1),)), n)
            if not good or not st.holds(*x):
                s.dropped.add(nm)
                s.changed = True
        if new:
            s.changed = s.grew = True

    def mod(s, k, root, path, kind):
        old = s.mods.setdefault(k, {}).get((root, path))
        if old == kind or old == "any":
            return False
        s.mods[k][(root, path)] = kind
        return True


def same_val(st, a, b):
    if a is b:
        return True
    if isinstance(a, Af) and isinstance(b, Af):
        return a.key() == b.key()
    if isinstance(a, Bv) and isinstance(b, Bv):
        return [st.bit(x) for x in a.b] == [st.bit(x) for x in b.b]
    return repr(a) == repr(b)


def fix(bodies, attempt, bounds=None, havoc=None, rounds=30, unroll=0, on_back=None):
    """attempt(loops) runs the analysis; repeated until the invariants are stable.
    -> result of the last (sound) run"""
    lp = Loops(bodies, bounds, havoc, unroll, on_back)
    for _ in range(rounds):
        lp.changed = lp.grew = False
        lp.back_edges = 0
        try:
            r = attempt(lp)
        except TooLong as e:
            lp.force.add(e.key)
            lp.dropped = {x for x in lp.dropped if x[0] != e.key}
            continue
        if not lp.changed:
            return r, lp
        if lp.grew:
            # what did not hold may hold next to the new facts
            lp.dropped = set()
    raise Undecided("loop invariants")
