"""Writes properties.jsonl and MANIFEST.json from spec/*.py."""
import importlib, json, os, pkgutil, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import spec
ALL = {}
for m in pkgutil.iter_modules(spec.__path__):
    ALL.update(importlib.import_module("spec." + m.name).P)
TECH = importlib.import_module("spec.core").T
props, checks, na = [], [], []
for i in sorted(ALL):
    p = ALL[i]
    assert len(p["title"]) <= 80, (i, len(p["title"]))
    assert p["statement"].replace("e.g.", "").count(". ") <= 2, i
    props.append(dict(id=i, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                      why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]])))
    if p.get("na"):
        na.append(dict(property=i, reason=p["na"]))
        continue
    checks.append(dict(property=i, quick_cmd="./check.sh %s quick" % i, thorough_cmd="./check.sh %s thorough" % i,
                       technique=TECH, level="other", level_note=p["note"]))
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -W ignore selftest.py", checks=checks, not_applicable=na,
                   notes="No hooks in /repo: the checks import and execute its current source. SYMX_REPO points the checks at another tree (used only when planting bugs)."),
              f, indent=1)
try:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import jsonschema
    for p in props:
        jsonschema.validate(p, json.load(open("/root/.vp/PROPERTIES.schema.json")))
    jsonschema.validate(json.load(open(os.path.join(HERE, "MANIFEST.json"))), json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid:", len(props), "properties,", len(checks), "checks")
except ImportError as e:
    print("not validated", e)
