"""Running a rule, reporting, known findings, evidence."""
import importlib, json, os, sys, time, traceback, hashlib, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPEN = re.compile(r"(^|:)(undecided|anchor|limit)$")
KNOWN = os.path.join(VERIF, "known_findings.json")


class Ctx:
    """What a rule gets: the dumps, the tier, and the report."""

    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.violations = []  # (key, message)
        self.coverage = {}
        self.samples = []
        self.assumptions = []
        self.counts = {}
        self._progs = {}

    def prog(self, name="main"):
        if name not in self._progs:
            import build, mir
            self._progs[name] = mir.Prog(build.dump(name))
        return self._progs[name]

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def sample(self, s, cap=40):
        if len(self.samples) < cap:
            self.samples.append(s)

    def bad(self, key, msg):
        if all(k != key for k, _ in self.violations):
            self.violations.append((key, msg))

    def floor(self, what, n):
        have = self.counts.get(what, 0)
        if have < n:
            # with undecided obligations the instances are missing for a known reason
            k = "limit" if any(OPEN.search(v[0]) for v in self.violations) else what
            self.bad("floor:" + k, "only %d %s were found where at least %d are expected: the rule no longer sees its instances" % (have, what, n))


def norm_path(p):
    """Type-checked paths without the parts that depend on numbering"""
    return re.sub(r"\{closure#\d+\}", "{closure}", p)


def where(prog, body, span=None):
    s = span or body.get("span")
    return "%s (%s)" % (body["path"], s)


def known():
    try:
        with open(KNOWN) as f:
            return json.load(f)
    except FileNotFoundError:
        return {"findings": [], "fixed": []}


def main(argv):
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    sys.setrecursionlimit(20000)
    sys.path.insert(0, os.path.join(VERIF, "lib"))
    sys.path.insert(0, os.path.join(VERIF, "rules"))
    mod = importlib.import_module(prop.lower())
    cx = Ctx(prop, tier)
    try:
        mod.check(cx)
    except Exception as e:
        traceback.print_exc()
        print("ERROR: the check could not run: %r" % (e,))
        return 2
    kf = [k for k in known()["findings"] if k["property"] == prop]
    kn = {k["key"]: k for k in kf}
    new, open_ = [], []
    for key, msg in cx.violations:
        if OPEN.search(key):
            open_.append((key, msg))
            print("UNDECIDED: property=%s %s: %s" % (prop, key, msg.replace("\n", " ")[:400]))
        elif key in kn:
            print("KNOWN-FINDING: property=%s %s" % (prop, kn[key]["what"]))
        else:
            new.append((key, msg))
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    for key, msg in new:
        rp = os.path.join(ev, "replay", "%s-%s.txt" % (prop, hashlib.sha256(key.encode()).hexdigest()[:12]))
        with open(rp, "w") as f:
            f.write("property: %s\nkey: %s\n\n%s\n" % (prop, key, msg))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        print("  key: " + key)
        print("  " + msg.replace("\n", "\n  "))
    cov = {"explanation": getattr(mod, "EXPLAIN", mod.__doc__ or prop).strip()}
    cov.update(cx.counts)
    cov.update(cx.coverage)
    cov["samples"] = cx.samples
    cov["undecided"] = [m[:300] for _, m in open_]
    with open(os.path.join(ev, prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
                   "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + cx.assumptions,
                   "wall_s": round(time.time() - t0, 2), "violations": len(new)}, f, indent=1, default=str)
    print("%s: %s%s (%s) %.1fs" % (prop, "VIOLATED" if new else "held", " where decided, %d obligations undecided" % len(open_) if open_ else "", ", ".join("%s=%s" % kv for kv in sorted(cx.counts.items())), time.time() - t0))
    return 1 if new else 0
