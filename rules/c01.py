"""Writer/reader agreement of the cell codecs.

For every type with both a cell writer and a cell reader, all paths of the
writer are extracted as symbolic layouts (constant bits, field bits, nested
codecs, references with their own layouts), and every path of the reader is run
against each of them by substitution.  Each writer path must be accepted by
exactly one reader path, which must rebuild the written value field by field
and leave nothing of the layout unread."""
import codec, wire
from terms import show, Term

EXPLAIN = __doc__
ASSUMPTIONS = [
    "The primitive bit/reference operations of slices and builders do what their names say (properties of their own).",
    "Dictionaries, bodies of messages and big integers are nonterminals: equal on both sides, not expanded.",
    "Values are in their type's domain (a table in lib/codec.py with one reason per entry).",
]

# types whose agreement this rule does not decide
EXCLUDED = {
    "CellSlice": "the slice is its own layout",
    "ValidatorSet": "the reader rebuilds a list by walking a dictionary in a loop",
    "T": "blanket", "&T": "blanket", "&mut T": "blanket",
}


def check(cx):
    p = cx.prog()
    codec.init(p)
    codec.refful()
    both = sorted(set(codec.SI) & set(codec.LI))
    for nm in both:
        if nm in EXCLUDED:
            cx.count("types_excluded")
            continue
        cx.count("types")
        try:
            o = codec.agree_best(nm)
        except codec.Limit as e:
            cx.bad("%s:limit" % nm, "%s: the codec could not be summarised (%s)" % (nm, e))
            continue
        cx.count("writer_paths", o.w)
        cx.count("reader_paths", o.r)
        cx.count("alignments", o.pairs)
        if not o.issues:
            cx.sample("%s: %d writer paths, %d reader paths agree" % (nm, o.w, o.r))
            continue
        i = codec.SI[nm]
        sb = p.by_impl[(i["id"], "store_into")]
        lb = p.by_impl[(codec.LI[nm]["id"], "load_from")]
        kinds = sorted({x[0] for x in o.issues})
        msg = ["%s: writer %s at %s and reader at %s disagree" % (nm, sb["path"], sb["span"], lb["span"])]
        for x in o.issues[:4]:
            if x[0] == "noread":
                msg.append("written layout %s is accepted by no reader path (%s)" % (x[1][:600], "; ".join(x[2] + x[3])))
            elif x[0] == "diff":
                msg.append("written layout %s is read back as %s%s" % (x[1][:600], show(x[3])[:900], ", leaving part of it unread" if x[4] else ""))
            else:
                msg.append("a path of the %s does not return: %s" % ("reader" if x[0] == "rbad" else "writer", x[1:]))
        cx.bad("%s:%s" % (nm, "+".join(kinds)), "\n".join(msg))
    cx.floor("types", 145)
    cx.floor("writer_paths", 330)
