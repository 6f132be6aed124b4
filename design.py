"""DESIGN.md = design/head.md + one entry per property (from spec/ and checks/) + design/tail.md"""
import importlib, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import pkgutil, spec
ALL = {}
for m in pkgutil.iter_modules(spec.__path__):
    ALL.update(importlib.import_module("spec." + m.name).P)
O = importlib.import_module("spec.oracle").ORACLE
out = [open(os.path.join(HERE, "design", "head.md")).read()]
for i in sorted(ALL):
    p = ALL[i]
    c = importlib.import_module("checks." + i.lower())
    n = {t: len(c.tasks(t)) for t in ("quick", "thorough")}
    out.append("### %s %s\n" % (i, p["title"]))
    out.append("* Code: %s\n* Decided: every path of the real functions with symbolic inputs; the negated assertion goes to z3 on each path. %d tasks quick, %d thorough.\n* Oracle: %s\n* Bounds: %s\n* Assumed: %s.\n* Beyond the tests: %s\n"
               % ("; ".join("%s (%s)" % m if ":" not in m[1] else "%s (%s)" % (m[0], m[1]) for m in p["mech"]), n["quick"], n["thorough"], O[i], c.BOUNDS, "; ".join(c.ASSUMPTIONS), p["why"]))
out.append(open(os.path.join(HERE, "design", "tail.md")).read())
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))
