"""The forms that the readers accept are the frozen ones.

Every successful path of every reader is turned into the form it accepts: the
bits it requires to be constant, the field of the result that each other bit
ends up in, the nested readers and references it uses.  The forms are compared,
as languages, with the tables in spec/read.json: a tag that is no longer
checked, a reserved bit that is no longer required, an older form that is no
longer understood or is put into other fields shows as a difference."""
import json, os
import codec, grammar
from core import VERIF

EXPLAIN = __doc__
ASSUMPTIONS = [
    "spec/read.json, frozen from the reviewed tree, is what the network's readers accept.",
    "Conditions that relate several fields are not part of a form (a property of their own).",
    "Readers that loop over the slice are followed for four rounds.",
]


def check(cx):
    grammar.STRICT = True
    with open(os.path.join(VERIF, "spec", "read.json")) as f:
        spec = json.load(f)
    for cfg in ("main", "tycho"):
        p = cx.prog(cfg)
        codec.init(p)
        codec.refful()
        frozen = {k: [grammar.parse(w) for w in v] for k, v in spec["main"].items()}
        if cfg == "tycho":
            frozen.update({k: [grammar.parse(w) for w in v] for k, v in spec["tycho"].items()})
        cur = {}
        for nm in codec.LI:
            try:
                cur[nm] = sorted(grammar.rwords_best(nm)[0], key=grammar.compact)
            except (codec.Limit, grammar.Undecided) as e:
                cx.bad("%s:limit" % nm, "%s: the reader could not be summarised (%s)" % (nm, e))
                cur[nm] = frozen.get(nm, [])
        for nm in sorted(frozen):
            if cfg == "tycho" and nm not in spec["tycho"]:
                continue
            cx.count("types")
            if nm not in cur:
                cx.bad("%s:missing" % nm, "%s can no longer be loaded from a cell" % nm)
                continue
            cx.count("forms", len(cur[nm]))
            r = grammar.compare(nm, cur[nm], frozen[nm], cur, frozen)
            if r is None:
                cx.sample("%s: %s" % (nm, "  //  ".join(grammar.compact(w) for w in cur[nm][:2])))
                continue
            side, w, pos = r
            b = p.by_impl[(codec.LI[nm]["id"], "load_from")]
            msg = "%s read by %s (%s): " % (nm, b["path"], b["span"])
            if side == "new":
                msg += "the form\n  %s\nis accepted although it is not one of the format's; it leaves them at %s\nfrozen forms:\n  %s" % (
                    grammar.compact(w), grammar.compact(w[:pos]) + " HERE " + grammar.compact(w[pos:pos + 1]),
                    "\n  ".join(grammar.compact(x) for x in frozen[nm][:8]))
            else:
                msg += "the form\n  %s\nof the format is no longer accepted (from %s)\ncurrent forms:\n  %s" % (
                    grammar.compact(w), grammar.compact(w[pos:pos + 1]), "\n  ".join(grammar.compact(x) for x in cur[nm][:8]))
            cx.bad("%s:%s" % (nm, side), msg)
    cx.floor("types", 175)
    cx.floor("forms", 320)
