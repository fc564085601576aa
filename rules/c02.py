"""The layouts that the writers produce are the frozen ones.

The layouts of every writer (constant bits, the field each bit comes from,
nested codecs, references with their own layouts) are extracted from the
type-checked program for all its paths, and compared, as languages, with the
tables in spec/wire.json: every current layout must be described by a frozen
one and every frozen layout must still be produced."""
import json, os
import codec, grammar
from core import VERIF

EXPLAIN = __doc__
ASSUMPTIONS = [
    "spec/wire.json, frozen from the reviewed tree, is the network's format.",
    "Bits computed from a value (lengths, variable-size integers) are compared by width and by the fields they come from; C01 decides their content against the reader.",
    "The conditions under which a layout is chosen are not compared.",
]


def check(cx):
    with open(os.path.join(VERIF, "spec", "wire.json")) as f:
        spec = json.load(f)
    for cfg in ("main", "tycho"):
        p = cx.prog(cfg)
        codec.init(p)
        codec.refful()
        frozen = {k: [grammar.parse(w) for w in v] for k, v in spec["main"].items()}
        if cfg == "tycho":
            frozen.update({k: [grammar.parse(w) for w in v] for k, v in spec["tycho"].items()})
        cur = {}
        for nm in codec.SI:
            try:
                cur[nm] = sorted(grammar.words(nm)[0], key=grammar.compact)
            except codec.Limit as e:
                cx.bad("%s:limit" % nm, "%s: the writer could not be summarised (%s)" % (nm, e))
                cur[nm] = frozen.get(nm, [])
        for nm in sorted(frozen):
            if cfg == "tycho" and nm not in spec["tycho"]:
                continue
            cx.count("types")
            if nm not in cur:
                cx.bad("%s:missing" % nm, "%s can no longer be stored into a cell" % nm)
                continue
            cx.count("layouts", len(cur[nm]))
            r = grammar.compare(nm, cur[nm], frozen[nm], cur, frozen)
            if r is None:
                cx.sample("%s: %s" % (nm, "  //  ".join(grammar.compact(w) for w in cur[nm][:2])))
                continue
            side, w, pos = r
            b = p.by_impl[(codec.SI[nm]["id"], "store_into")]
            msg = "%s written by %s (%s): " % (nm, b["path"], b["span"])
            if side == "new":
                msg += "the layout\n  %s\nis not one of the format's; it leaves it at %s\nfrozen layouts:\n  %s" % (
                    grammar.compact(w), grammar.compact(w[:pos]) + " HERE " + grammar.compact(w[pos:pos + 1]),
                    "\n  ".join(grammar.compact(x) for x in frozen[nm][:8]))
            else:
                msg += "the layout\n  %s\nof the format is no longer produced (from %s)\ncurrent layouts:\n  %s" % (
                    grammar.compact(w), grammar.compact(w[pos:pos + 1]), "\n  ".join(grammar.compact(x) for x in cur[nm][:8]))
            cx.bad("%s:%s" % (nm, side), msg)
    cx.floor("types", 185)
    cx.floor("layouts", 320)
