"""Engine T: code that walks trees of cells (Merkle proofs and updates, statistics, usage trees).  Cells are nodes of a tree that is
unfolded lazily: the number of children, whether a child is a cell seen before, the type of a cell, the answers of a filter and the
outcome of every step that may fail are forks, remembered for the rest of the path.  Hashes are names of nodes (two cells have the same
representation hash iff they are the same node); sets, maps and vectors are lists of what was put in."""
from cellcore import *

FAIL = ("G", "fail")
FA = "tycho_types::merkle::FilterAction"
NODES = ("G", "nodes")
LOG = ("G", "log")


def cell(t):
    return Opq("cell", (t,))


def n(i):
    return ("n", i)


class Tree:
    def __init__(s, p, depth=2, total=4, width=2, alias=True, target="", roots=("r",), fail=True, splits=9, loose=False, flat=False):
        s.fail, s.splits, s.loose, s.flat = fail, splits, loose, flat
        s.p, s.depth, s.total, s.width, s.alias, s.target, s.roots = p, depth, total, width, alias, target, roots
        s.level = None
        s.calls = {}

    # ------------------------------------------------------------- facts --
    def start(s, ip):
        s.ip = ip
        st = ip.state()
        st.mem[("CX",)] = Opq("ctx")
        st.mem[NODES] = tuple(s.roots)
        for r in s.roots:
            s.ref(st, n(r))
        return st

    def ref(s, st, t):
        root = ("CELL", t)
        if root not in st.mem:
            st.mem[root] = cell(t)
        return Ref(root)

    def canon(s, st, i):
        while ("alias", i) in st.mem:
            i = st.mem[("alias", i)]
        return i

    def fork(s, st, fact, vals):
        if fact in st.mem:
            return [(st, st.mem[fact])]
        out = []
        for v in vals:
            t = st.copy()
            t.mem[fact] = v
            out.append((t, v))
        return out

    def merkle(s, st, i):
        """is the cell a Merkle proof or update"""
        i = s.canon(st, i)
        if st.mem.get(("refs", i)) == 0 or st.mem.get(("prunedb", i)) or not s.room(st, i):
            return [(st, False)]
        return s.fork(st, ("merkle", i), (False, True))

    def room(s, st, i):
        return len(i) - 1 < s.depth and len(st.mem[NODES]) < s.total or st.mem.get(("refs", i))

    def refs(s, st, i):
        i = s.canon(st, i)
        if ("refs", i) in st.mem:
            return [(st, st.mem[("refs", i)])]
        top = min(s.width, s.total - len(st.mem[NODES])) if len(i) - 1 < s.depth else 0
        opts = [0] if st.mem.get(("prunedb", i)) else list(range(top + 1))
        if st.mem.get(("merkle", i)):
            opts = [x for x in opts if x] or [1]
        out = []
        for t, k in s.fork(st, ("refs", i), opts):
            t.mem[NODES] = t.mem[NODES] + tuple(i + str(x) for x in range(k))
            out.append((t, k))
        return out

    def child(s, st, i, k):
        """the k-th child, which may be a cell seen before: list of (state, node)"""
        i = s.canon(st, i)
        c = i + str(k)
        if ("alias", c) in st.mem or ("known", c) in st.mem:
            return [(st, s.canon(st, c))]
        out = []
        t = st.copy()
        t.mem[("known", c)] = True
        out.append((t, c))
        if s.alias:
            for o in st.mem[NODES]:
                if ("known", o) in st.mem and not c.startswith(o) and o != c and ("alias", o) not in st.mem and not s.above(st, o, i):
                    t = st.copy()
                    t.mem[("alias", c)] = o
                    out.append((t, o))
        return out

    def above(s, st, o, i):
        """is i among the cells below o (cells do not contain themselves)"""
        seen, todo = set(), [o]
        while todo:
            x = s.canon(st, todo.pop())
            if x == i:
                return True
            if x not in seen:
                seen.add(x)
                todo += [x + str(k) for k in range(st.mem.get(("refs", x)) or 0)]
        return False

    # ----------------------------------------------------------- values --
    def val(s, ip, st, v):
        d = 0
        while isinstance(v, Ref) and d < 8:
            if v.root not in st.mem:
                return v
            v, d = ip.read(st, v.root, v.path), d + 1
        return v

    def term(s, ip, st, v):
        v = s.val(ip, st, v)
        if isinstance(v, Opq) and v.name == "cell":
            t = v.args[0]
            return n(s.canon(st, t[1])) if t[0] == "n" else t
        return None

    def key(s, ip, st, v):
        v = s.val(ip, st, v)
        if isinstance(v, Ag):
            return (v.v or 0,) + tuple(s.key(ip, st, x) for x in v.f)
        if isinstance(v, Opq) and v.name == "hash":
            t, l = v.args
            return ("hash", n(s.canon(st, t[1])) if t[0] == "n" else t, l)
        if isinstance(v, Opq):
            return ("?", v.name) + tuple(v.args)
        k = num_of(v)
        if k is not None:
            return k
        if isinstance(v, Af):
            return ("I", v.c, v.t)
        raise Undecided("key %s" % (v,))

    def hash(s, ip, st, t, l):
        """reference to the hash of a cell at a level (None: its representation)"""
        k = ("HASH", t, l)
        st.mem[k] = Opq("hash", (t, l))
        return Ref(k)

    def either(s, st, v, what):
        if not s.fail:
            return [(st, Ok(v))]
        t = st.copy()
        e = Opq("err", (what,))
        t.mem[FAIL] = t.mem.get(FAIL, ()) + ((what,),)
        return [(st, Ok(v)), (t, Ag(RESULT, 1, (e,)))]

    def log(s, st, *x):
        st.mem[LOG] = st.mem.get(LOG, ()) + (x,)

    # ------------------------------------------------------------ hooks --
    def hook(s, ip, st, c, a):
        nm, path = c["nm"], c["path"]
        if path in s.calls:
            r = s.calls[path](ip, st, c, a)
            if r is not None:
                return r
        r = s.containers(ip, st, c, a)
        if r is not None:
            return r
        v = s.val(ip, st, a[0]) if a else None
        if isinstance(v, Opq):
            f = getattr(s, "on_" + v.name.replace(" ", "_"), None)
            if f:
                r = f(ip, st, c, a, v)
                if r is not None:
                    return r
        if nm == "default" and "RandomState" in path + s.tyname(c):
            return [(st, Opq("hasher"))]
        if path.startswith("alloc::boxed::Box::") and nm == "new_uninit":
            st.mem[("G", "boxes")] = k = st.mem.get(("G", "boxes"), 0) + 1
            st.mem[("BOX", k)] = Ag("uninit", 0, (UNIT, Ag("uninit", 0, (UNIT,))))
            return [(st, Ag("box", 0, (Ref(("BOX", k)),)))]
        if path == "alloc::boxed::box_assume_init_into_vec_unsafe":
            v = ip.read(st, a[0].f[0].root, (1, 0))
            return [(st, Ag("vec", 0, tuple(v.d[((), i)] for i in range(v.n.c))))]
        if path == "core::iter::adapters::zip::zip" or nm == "zip" and "Iterator" in path:
            st.mem[("G", "zips")] = k = st.mem.get(("G", "zips"), 0) + 1
            for j in (0, 1):
                st.mem[("ZIP", k, j)] = a[j]
            return [(st, Opq("zip", (k,)))]
        if nm == "new" and path.endswith("CellBuilder::new"):
            return [(st, Opq("cb", (0, (), ())))]
        if nm == "new" and path.endswith("CellDataBuilder::new"):
            return [(st, Opq("data", ((),)))]
        if nm == "default" and "CellRefsBuilder" in path + s.tyname(c):
            return [(st, Opq("rb", ((),)))]
        if nm == "make_pruned_branch" and "merkle::pruned_branch" in path:
            t, d = s.term(ip, st, a[0]), s.key(ip, st, a[1])
            s.context(ip, st, a[2], "make_pruned_branch")
            return s.either(st, cell(("pruned", t, d)), "make_pruned_branch")
        if nm == "empty_context":
            return [(st, Opq("empty context"))]
        if nm == "from_parts" and path.endswith("CellBuilder::from_parts"):
            return [(st, Opq("cb", (bit_of(ip, st, a[0]), s.val(ip, st, a[1]).args[0], s.val(ip, st, a[2]).args[0])))]
        if "Arc::" in path or "Arc<" in s.tyname(c).split("::<")[0]:
            if nm == "new":
                return [(st, a[0])]
            if nm in ("unwrap_or_clone", "clone", "try_unwrap", "into_inner"):
                return [(st, s.val(ip, st, a[0]))]
            if nm in ("deref", "as_ref"):
                return [(st, a[0])]
        if "promise::Promise" in path:
            if nm in ("new", "default"):
                st.mem[("G", "promises")] = k = st.mem.get(("G", "promises"), 0) + 1
                return [(st, Opq("promise", (k,)))]
        if path.startswith("rayon_core::scope::scope"):
            return s.scope(ip, st, a)
        return None

    def scope(s, ip, st, a):
        """parallel tasks run where they are spawned or when the scope ends"""
        old = st.mem.get(("G", "tasks"))
        st.mem[("G", "tasks")] = ()
        st.mem[("SCOPE",)] = Opq("scope")
        done, todo = [], ip.nested_value(st, a[0], [Ref(("SCOPE",))])
        while todo:
            t, v = todo.pop()
            q = t.mem.get(("G", "tasks"), ())
            if v == "panic" or not q:
                done.append((t, v))
                continue
            t.mem[("G", "tasks")] = q[1:]
            for u, w in ip.nested_value(t, q[0], [Ref(("SCOPE",))]):
                todo.append((u, "panic" if w == "panic" else v))
        return done

    def on_scope(s, ip, st, c, a, v):
        if c["nm"] == "spawn":
            out = []
            for t, late in s.fork(st, ("late",), (False, True)):
                if late:
                    t.mem[("G", "tasks")] = t.mem.get(("G", "tasks"), ()) + (a[1],)
                    out.append((t, UNIT))
                else:
                    out += [(u, "panic" if w == "panic" else UNIT) for u, w in ip.nested_value(t, a[1], [Ref(("SCOPE",))])]
            return out
        return None

    def on_split(s, ip, st, c, a, v):
        if c["nm"] == "contains":
            k = s.key(ip, st, a[1])
            many = sum(1 for f, b in st.mem.items() if f[0] == "split" and b) >= s.splits
            return [(t, B(int(b))) for t, b in s.fork(st, ("split", k[1]), (False,) if many else (False, True))]
        return None

    def on_promise(s, ip, st, c, a, v):
        k = v.args[0]
        if c["nm"] == "clone":
            return [(st, v)]
        if c["nm"] == "set":
            st.mem[("PROM", k)] = a[1]
            return [(st, UNIT)]
        if c["nm"] == "wait_cloned":
            if ("PROM", k) not in st.mem:
                st.mem[FAIL] = st.mem.get(FAIL, ()) + (("a wait that nobody ends",),)
                raise Undecided("wait for a promise that is not set")
            return [(st, st.mem[("PROM", k)])]
        return None

    def context(s, ip, st, v, who):
        v = s.val(ip, st, v)
        if not (isinstance(v, Opq) and v.name == "ctx"):
            st.mem[("G", "ctx")] = who

    def tyname(s, c):
        t = c.get("self")
        return (s.p.tystr(s.p.ty(t) if isinstance(t, int) else t) if t is not None else "") or ""

    def on_cell(s, ip, st, c, a, v):
        nm = c["nm"]
        t = s.term(ip, st, v)
        if nm in ("as_ref", "deref", "borrow", "as_dyn", "clone", "untrack"):
            if nm == "clone" and isinstance(a[0], Ref):
                return [(st, v)]
            return [(st, a[0])]
        if nm in ("repr_hash",):
            return [(st, s.hash(ip, st, t, None))]
        if nm == "hash" and len(a) == 2:
            return [(st, s.hash(ip, st, t, s.key(ip, st, a[1])))]
        if nm in ("repr_depth", "depth"):
            l = None if nm == "repr_depth" else s.key(ip, st, a[1])
            name = "depth%s" % ((t, l),)
            if name not in st.vr:
                st.var(name, 0, 65535)
            return [(st, Af(16, False, 0, ((name, 1),)))]
        if nm in ("descriptor",):
            return [(st, Opq("desc", (t,)))]
        if nm == "references":
            return [(st, Opq("refs", (t, 0)))]
        if nm in ("bit_len",):
            name = "bits%s" % (t,)
            if name not in st.vr:
                st.var(name, 0, 1023)
            return [(st, Af(16, False, 0, ((name, 1),)))]
        if nm in ("reference_count", "is_exotic", "level_mask", "level", "is_merkle", "cell_type", "is_pruned_branch"):
            return s.on_desc(ip, st, c, a, Opq("desc", (t,)))
        if nm in ("reference", "reference_cloned") and t[0] == "n":
            k = s.key(ip, st, a[1])
            out = []
            for x, m in s.refs(st, t[1]):
                if not isinstance(k, int):
                    raise Undecided("reference at %s" % (k,))
                if k >= m:
                    out.append((x, NONE))
                    continue
                for y, ch in s.child(x, t[1], k):
                    out.append((y, Some(s.ref(y, n(ch)) if nm == "reference" else cell(n(ch)))))
            return out
        if nm == "as_slice_allow_exotic":
            return [(st, Opq("slice", (t, 0, 0)))]
        return None

    def on_slice(s, ip, st, c, a, v):
        """reads of a cell in order; what is read has the position as its name"""
        nm = c["nm"]
        t, pos, ref = v.args
        if nm in ("size_bits", "size_refs"):
            if (pos, ref) != (0, 0):
                raise Undecided("size of a rest")
            name = "%s%s" % (nm, (t,))
            if name not in st.vr:
                st.var(name, 0, 1023 if nm == "size_bits" else 4)
            return [(st, Af(16 if nm == "size_bits" else 8, False, 0, ((name, 1),)))]
        w = {"load_u8": 8, "load_u16": 16, "load_u32": 32, "load_u256": 256}.get(nm)
        if w:
            pl = s.place(ip, st, a[0])
            ip.write(st, pl.root, pl.path, Opq("slice", (t, pos + w, ref)))
            if w == 256:
                x = Opq("ghost", (("read", pos, w),))
            else:
                name = "read%d:%d" % (pos, w)
                if name not in st.vr:
                    st.var(name, 0, 2 ** w - 1)
                x = Af(w, False, 0, ((name, 1),))
            return s.either(st, x, "read")
        if nm in ("load_reference", "load_reference_cloned"):
            pl = s.place(ip, st, a[0])
            ip.write(st, pl.root, pl.path, Opq("slice", (t, pos, ref + 1)))
            ch = ("ref", t, ref)
            return s.either(st, cell(ch) if nm.endswith("cloned") else s.ref(st, ch), "read")
        if nm in ("is_empty", "is_data_empty", "is_refs_empty"):
            return [(st, B(sym((nm, t, pos, ref), 0)))]
        raise Undecided("slice " + nm)

    def on_desc(s, ip, st, c, a, v):
        nm, t = c["nm"], v.args[0]
        if nm == "is_exotic":
            if t[0] == "n":
                return [(st, B(sym(("exotic", t[1]), 0)))]
            raise Undecided("is_exotic of a built cell")
        if t[0] == "pruned":
            if nm == "is_pruned_branch":
                return [(st, B(1))]
            if nm in ("is_merkle",):
                return [(st, B(0))]
        if t[0] != "n":
            if nm == "level_mask":
                return [(st, Opq("mask", (t,)))]
            raise Undecided("%s of a built cell" % nm)
        i = t[1]
        if nm == "is_merkle":
            return [(x, B(int(b))) for x, b in s.merkle(st, i)]
        if nm == "cell_type":
            return [(st, Opq("desc", (t,)))]
        if nm == "reference_count":
            return [(x, K(k, 8)) for x, k in s.refs(st, i)]
        if nm == "is_pruned_branch":
            i = s.canon(st, i)
            if st.mem.get(("merkle", i)) or st.mem.get(("refs", i)):
                return [(st, B(0))]
            return [(x, B(int(b))) for x, b in s.fork(st, ("prunedb", i), (False, True))]
        if nm == "level_mask":
            if s.level is not None:
                return [(st, mkadt(s.p, "tycho_types::cell::LevelMask", **{"0": K(s.level, 8)}))]
            return [(st, Opq("mask", (t,)))]
        if nm in ("clone",):
            return [(st, v)]
        return None

    def on_mask(s, ip, st, c, a, v):
        t = v.args[0]
        if c["nm"] in ("to_byte", "level", "contains"):
            if t[0] != "n":
                raise Undecided("mask of a built cell")
            out = []
            for x, m in s.fork(st, ("mask", s.canon(st, t[1])), range(8)):
                m = x.mem[("mask", s.canon(x, t[1]))]
                if c["nm"] == "contains":
                    raise Undecided("contains")
                out.append((x, K(m if c["nm"] == "to_byte" else bin(m).count("1"), 8)))
            return out
        return None

    def on_refs(s, ip, st, c, a, v):
        nm = c["nm"]
        t, k = v.args[:2]
        if nm in ("reference_count",):
            return None
        cloned = v.args[2:] == ("cloned",)
        if nm in ("clone",):
            return [(st, v)]
        if nm == "cloned":
            return [(st, Opq("refs", (t, k, "cloned")))]
        if nm in ("into_iter", "by_ref"):
            return [(st, a[0])]
        if nm == "cell":
            return [(st, s.ref(st, t))]
        if nm in ("peek_prev_cloned", "peek_prev"):
            if k == 0:
                return [(st, NONE)]
            return [(x, Some(cell(n(ch)) if nm == "peek_prev_cloned" else s.ref(x, n(ch)))) for x, ch in s.child(st, t[1], k - 1)]
        if nm == "next":
            out = []
            pl = s.place(ip, st, a[0])
            for x, m in s.refs(st, t[1]):
                if k >= m:
                    out.append((x, NONE))
                    continue
                for y, ch in s.child(x, t[1], k):
                    ip.write(y, pl.root, pl.path, Opq("refs", (t, k + 1) + v.args[2:]))
                    out.append((y, Some(cell(n(ch)) if cloned else s.ref(y, n(ch)))))
            return out
        if nm in ("len",):
            return [(x, K(m - k)) for x, m in s.refs(st, t[1])]
        return None

    def on_zip(s, ip, st, c, a, v):
        if c["nm"] == "into_iter":
            return [(st, a[0])]
        if c["nm"] == "next":
            out = []
            for t, x in s.next(ip, st, Ref(("ZIP", v.args[0], 0)), c):
                if x.v == 0:
                    out.append((t, NONE))
                    continue
                for u, y in s.next(ip, t, Ref(("ZIP", v.args[0], 1)), c):
                    out.append((u, NONE if y.v == 0 else Some(Ag("tuple", 0, (x.f[0], y.f[0])))))
            return out
        return None

    def next(s, ip, st, r, c):
        v = s.val(ip, st, r)
        if not (isinstance(v, Opq) and v.name == "refs"):
            raise Undecided("next of %s" % (v,))
        return s.on_refs(ip, st, dict(c, nm="next"), [r], v)

    def place(s, ip, st, v):
        while True:
            x = ip.read(st, v.root, v.path)
            if not isinstance(x, Ref):
                return v
            v = x

    def on_rb(s, ip, st, c, a, v):
        nm = c["nm"]
        if nm == "store_reference":
            pl = s.place(ip, st, a[0])
            ip.write(st, pl.root, pl.path, Opq("rb", (v.args[0] + (s.term(ip, st, a[1]),),)))
            return [(st, Ok(UNIT))]
        if nm == "len":
            return [(st, K(len(v.args[0])))]
        if nm in ("deref", "as_ref", "as_slice"):
            return [(st, a[0])]
        if nm in ("iter", "into_iter"):
            return [(st, Ag("veciter", 0, tuple(cell(x) for x in v.args[0])))]
        return None

    def on_cb(s, ip, st, c, a, v):
        nm = c["nm"]
        ex, data, refs = v.args

        def put(*x):
            pl = s.place(ip, st, a[0])
            ip.write(st, pl.root, pl.path, Opq("cb", x))
        if nm in ("deref", "deref_mut"):
            return [(st, a[0])]
        if nm == "set_exotic":
            put(bit_of(ip, st, a[1]), data, refs)
            return [(st, UNIT)]
        if nm == "store_cell_data":
            put(ex, data + (s.term(ip, st, a[1]),), refs)
            return [(st, Ok(UNIT))]
        if nm == "set_references":
            put(ex, data, s.val(ip, st, a[1]).args[0])
            return [(st, UNIT)]
        if nm in ("store_u8", "store_u16", "store_u32", "store_u256"):
            put(ex, data + (("u", int(nm[7:]), s.key(ip, st, a[1])),), refs)
            return [(st, Ok(UNIT))]
        if nm == "store_reference":
            put(ex, data, refs + (s.term(ip, st, a[1]),))
            return [(st, Ok(UNIT))]
        if nm in ("build_ext", "build"):
            if nm == "build":
                st.mem[("G", "ctx")] = "CellBuilder::build"
            else:
                s.context(ip, st, a[1], "build_ext")
            return s.either(st, cell(("built", ex, data, refs)), "build_ext")
        raise Undecided("CellBuilder::" + nm)

    def on_data(s, ip, st, c, a, v):
        if c["nm"] == "store_cell_data":
            pl = s.place(ip, st, a[0])
            ip.write(st, pl.root, pl.path, Opq("data", (v.args[0] + (s.term(ip, st, a[1]),),)))
            return [(st, Ok(UNIT))]
        if c["nm"] == "clone":
            return [(st, v)]
        return None

    def on_hash(s, ip, st, c, a, v):
        nm = c["nm"]
        if nm in ("eq", "ne"):
            return s.same_hash(ip, st, a, nm == "eq")
        if nm in ("clone", "as_ref", "borrow", "deref"):
            return [(st, v if nm == "clone" else a[0])]
        return None

    def same_hash(s, ip, st, a, eq):
        x, y = s.key(ip, st, a[0]), s.key(ip, st, a[1])
        if x == y:
            return [(st, B(int(eq)))]
        if x[0] == y[0] == "hash" and x[2] == y[2] and x[1][0] == y[1][0] == "n" and not (s.loose and x[2] is not None):
            return [(st, B(int(not eq)))]
        f = ("eqhash",) + tuple(sorted((x, y), key=str))
        return [(t, B(int(b == eq))) for t, b in s.fork(st, f, (True, False))]

    def on_ghost(s, ip, st, c, a, v):
        """hash that is given from outside"""
        if c["nm"] in ("eq", "ne"):
            return s.same_hash(ip, st, a, c["nm"] == "eq")
        return None

    def on_filter(s, ip, st, c, a, v):
        if c["nm"] == "check":
            k = s.key(ip, st, a[1])
            if k[0] != "hash" or k[2] is not None or k[1][0] != "n":
                raise Undecided("filter asked for %s" % (k,))
            return [(t, Ag(FA, x, ())) for t, x in s.fork(st, ("filter", k[1][1]), range(3))]
        if c["nm"] in ("deref", "as_ref", "borrow"):
            return [(st, a[0])]
        return None

    def on_oracle(s, ip, st, c, a, v):
        """a set that is given: membership is a fork"""
        if c["nm"] == "contains":
            k = s.recanon(st, s.key(ip, st, a[1]))
            st.mem[("asked", v.args[0], k)] = True
            if s.flat and k[0] == "hash":
                k = k[:2]
            return [(t, B(int(b))) for t, b in s.fork(st, ("in", v.args[0], k), (False, True))]
        if c["nm"] == "get":
            k = s.recanon(st, s.key(ip, st, a[1]))
            return [(t, Some(s.ref(t, (v.args[0], k))) if b else NONE) for t, b in s.fork(st, ("in", v.args[0], k), (False, True))]
        return None

    # ------------------------------------------------- maps, sets, lists --
    def containers(s, ip, st, c, a):
        nm, path = c["nm"], c["path"]
        head = path.split("::<")[0]
        kind = "map" if ("HashMap" in head or "BTreeMap" in head or "hash_map" in head) else "set" if ("HashSet" in head or "hash_set" in head) else None
        if nm in ("default", "new", "with_capacity", "with_capacity_and_hasher", "with_hasher") and not kind:
            t = s.tyname(c).split("<")[0]
            kind = "map" if t.endswith("HashMap") else "set" if t.endswith("HashSet") else None
        if kind and nm in ("default", "new", "with_capacity", "with_capacity_and_hasher", "with_hasher"):
            return [(st, Opq(kind, ((),)))]
        if nm in ("new", "with_capacity", "default") and ("alloc::vec::Vec" in path or "alloc::vec::Vec" in s.tyname(c).split("<")[0]):
            return [(st, Ag("vec", 0, ()))]
        if not a:
            return None
        v = s.val(ip, st, a[0])
        if isinstance(v, Opq) and v.name in ("map", "set"):
            return s.assoc(ip, st, c, a, v)
        if isinstance(v, Ag) and v.k == "vec":
            return s.vec(ip, st, c, a, v)
        if isinstance(v, Ag) and v.k == "veciter" and nm in ("next", "into_iter"):
            if nm == "into_iter":
                return [(st, a[0])]
            pl = s.place(ip, st, a[0])
            if not v.f:
                return [(st, NONE)]
            ip.write(st, pl.root, pl.path, Ag("veciter", 0, tuple(v.f[1:])))
            return [(st, Some(v.f[0]))]
        return None

    def assoc(s, ip, st, c, a, v):
        nm = c["nm"]
        if st.mem.get(("G", "slots")):
            s.settle(ip, st)
            v = s.val(ip, st, a[0])
        items = v.args[0]
        if nm in ("len",):
            return [(st, K(len(items)))]
        if nm in ("is_empty",):
            return [(st, B(int(not items)))]
        if nm in ("deref", "deref_mut", "as_ref", "borrow"):
            return [(st, a[0])]
        if nm in ("clear", "get", "contains", "contains_key", "insert", "remove", "entry"):
            pl = s.place(ip, st, a[0])
        if nm == "clear":
            ip.write(st, pl.root, pl.path, Opq(v.name, ((),)))
            return [(st, UNIT)]
        if nm in ("get", "contains", "contains_key", "insert"):
            k = s.key(ip, st, a[1])
            out = []
            for t, hit in s.lookup(st, items, k):
                if nm == "get":
                    if hit is None:
                        out.append((t, NONE))
                    elif v.name == "set":
                        out.append((t, Some(a[1])))
                    else:
                        r = ("MV", id(v) % 10**9, hit)
                        r = ("MV", len(items), hit, str(items[hit])[:400])
                        t.mem[r] = items[hit][1]
                        out.append((t, Some(Ref(r))))
                elif nm in ("contains", "contains_key"):
                    out.append((t, B(int(hit is not None))))
                else:
                    x = tuple(y for j, y in enumerate(items) if j != hit)
                    key = k if hit is None else items[hit][0]
                    val = a[2] if v.name == "map" else None
                    if v.name == "map":
                        s.log(t, "insert", pl.root, k, s.term(ip, t, val) or repr(val))
                    ip.write(t, pl.root, pl.path, Opq(v.name, (x + ((key, val),),)))
                    scc = "scc::" in c["path"]
                    if v.name == "set":
                        out.append((t, (Ok(UNIT) if hit is None else Ag(RESULT, 1, (Opq("dup"),))) if scc else B(int(hit is None))))
                    else:
                        out.append((t, Ok(UNIT) if scc and hit is None else Ag(RESULT, 1, (Opq("dup"),)) if scc else NONE if hit is None else Some(items[hit][1])))
            return out
        if nm == "entry":
            k = s.key(ip, st, a[1])
            adt = next((x for x in ("std::collections::hash::map::Entry", "std::collections::hash_map::Entry", "scc::hash_map::Entry") if x in s.p.adts and ("scc" in x) == ("scc" in c["path"])), None)
            if adt is None:
                raise Undecided("entry type")
            vs = [x["n"] for x in s.p.adts[adt]["v"]]
            out = []
            for t, hit in s.lookup(st, items, k):
                e = Opq("entry", (pl.root, pl.path, k, hit))
                out.append((t, Ag(adt, vs.index("Vacant" if hit is None else "Occupied"), (e,))))
            return out
        raise Undecided("%s::%s" % (v.name, nm))

    def on_entry(s, ip, st, c, a, v):
        root, path, k, hit = v.args
        m = ip.read(st, root, path)
        items = m.args[0]
        nm = c["nm"]
        if nm in ("insert", "insert_entry"):
            items = items + ((k, a[1]),)
            ip.write(st, root, path, Opq(m.name, (items,)))
            if nm == "insert_entry":
                return [(st, Opq("entry", (root, path, k, len(items) - 1)))]
        if nm in ("insert", "get", "get_mut", "into_mut"):
            j = len(items) - 1 if hit is None else hit
            r = ("SLOT", str(root), str(path), j)
            st.mem[r] = items[j][1]
            if nm != "get":
                st.mem[("G", "slots")] = st.mem.get(("G", "slots"), ()) + ((r, root, path, j),)
            return [(st, Ref(r))]
        return None

    def settle(s, ip, st):
        """write back what was changed through references to entries"""
        for r, root, path, j in st.mem.get(("G", "slots"), ()):
            m = ip.read(st, root, path)
            items = list(m.args[0])
            items[j] = (items[j][0], st.mem[r])
            ip.write(st, root, path, Opq(m.name, (tuple(items),)))
        st.mem[("G", "slots")] = ()

    def lookup(s, st, items, k):
        """which item has the key: list of (state, index or None); hashes of one cell at different levels may be equal or not"""
        k = s.recanon(st, k)
        open_ = []
        for j, (x, _) in enumerate(items):
            x = s.recanon(st, x)
            if x == k:
                return [(st, j)]
            r = s.may_equal(st, x, k)
            if r is None:
                open_.append((j, ("eqhash",) + tuple(sorted((x, k), key=str))))
            elif r:
                return [(st, j)]
        out = [(st, None)]
        for j, f in open_:
            nxt = []
            for t, h in out:
                if h is not None:
                    nxt.append((t, h))
                    continue
                for u, b in s.fork(t, f, (True, False)):
                    nxt.append((u, j if b else None))
            out = nxt
        return out

    def recanon(s, st, k):
        if isinstance(k, tuple) and len(k) == 3 and k[0] == "hash":
            return ("hash", n(s.canon(st, k[1][1])) if k[1][0] == "n" else k[1], k[2])
        if isinstance(k, tuple):
            return tuple(s.recanon(st, x) if isinstance(x, tuple) else x for x in k)
        return k

    def may_equal(s, st, x, y):
        """True, False or None (unknown)"""
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and x and x[0] != "hash" and not isinstance(x[0], str):
            r = [s.may_equal(st, p, q) for p, q in zip(x, y)]
            return False if False in r else None if None in r else True
        if x == y:
            return True
        if isinstance(x, int) and isinstance(y, int):
            return False
        if x[0] == "hash" == y[0] and x[1] == y[1] and s.flat:
            return True
        if x[0] == "hash" == y[0] and (x[2] == y[2] and not (s.loose and x[2] is not None) or s.flat):
            return False
        return st.mem.get(("eqhash",) + tuple(sorted((x, y), key=str)))

    def vec(s, ip, st, c, a, v):
        f = c["nm"]
        ref = s.place(ip, st, a[0]) if isinstance(a[0], Ref) else None
        if f == "push":
            ip.write(st, ref.root, ref.path, Ag("vec", 0, tuple(v.f) + (a[1],)))
            return [(st, UNIT)]
        if f == "pop":
            if not v.f:
                return [(st, NONE)]
            ip.write(st, ref.root, ref.path, Ag("vec", 0, tuple(v.f[:-1])))
            return [(st, Some(v.f[-1]))]
        if f == "len":
            return [(st, K(len(v.f)))]
        if f == "is_empty":
            return [(st, B(int(not v.f)))]
        if f in ("last", "first", "last_mut", "first_mut"):
            if not v.f:
                return [(st, NONE)]
            return [(st, Some(Ref(ref.root, ref.path + (0 if f.startswith("first") else len(v.f) - 1,))))]
        if f in ("deref", "deref_mut", "as_slice", "as_mut_slice", "as_ref", "borrow", "borrow_mut"):
            return [(st, ref)]
        if f in ("into_iter", "drain"):
            return [(st, Ag("veciter", 0, tuple(v.f)))]
        if f == "iter":
            return [(st, Ag("veciter", 0, tuple(Ref(ref.root, ref.path + (j,)) for j in range(len(v.f)))))]
        if f == "drop":
            return [(st, UNIT)]
        if f == "clear":
            ip.write(st, ref.root, ref.path, Ag("vec", 0, ()))
            return [(st, UNIT)]
        return None


def bit_of(ip, st, v):
    if isinstance(v, Bv):
        return v.b[0]
    b = ip.bits(st, v)
    b = getattr(b, "b", b)
    return b[0] if len(b) else 0


def num_of(v):
    if isinstance(v, Opq) and v.name == "constint":
        return v.args[-1]
    if isinstance(v, Af):
        return v.c if not v.t else None
    if isinstance(v, Bv):
        return sum(b << i for i, b in enumerate(v.b)) if all(b in (0, 1) for b in v.b) else None
    return None
