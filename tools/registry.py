"""Write checks/registry.json: names, ranges and values of the registered elements (review the difference before committing it)."""
import json
import re
import signal
import sys

sys.path.insert(0, "/verif")
from pyvc import env  # noqa: E402, F401
from pyvc.env import REPO  # noqa: E402
from checks import E01, R01  # noqa: E402
from checks.E05 import orders  # noqa: E402
from symfem import create  # noqa: E402

names = {}
doc = {}
cell = None
for line in open(f"{REPO}/README.md"):
    m = re.match(r"## (.*)", line)
    if m:
        cell = m.group(1).strip().lower()
    m = re.match(r"- ([^(]*?)(?: \(alternative names: (.*)\))?$", line.strip())
    if m and cell:
        for n in [m.group(1)] + (m.group(2).split(", ") if m.group(2) else []):
            doc.setdefault(cell, {})[n] = m.group(1)
print({c: len(v) for c, v in doc.items()})
for n, m in sorted(create._elementmap.items()):
    for c, cls in sorted(m.items()):
        def b(a):
            v = getattr(cls, a, None)
            return v.get(c) if isinstance(v, dict) else v

        names.setdefault(c, {})[n] = {"family": cls.names[0], "range": [b("min_order"), b("max_order")]}
costs = {(r[0], r[1], r[2], json.dumps(r[3], sort_keys=True)): r[5] for r in json.load(open("/verif/checks/costs.json"))}
values = {}
todo = [(find, c, kw) for find, c, kw in E01.variants()] + [(n, "dual polygon", {}) for n in ("Dual", "BuffaChristiansen", "RotatedBuffaChristiansen")]
todo += [("ReggeTP", c, {"variant": v}) for c in ("quadrilateral", "hexahedron") for v in ("point", "integral", "tensor")]


def stop(*a):
    raise RuntimeError("slow")


signal.signal(signal.SIGALRM, stop)
for name, c, kw in todo:
    cls = E01.find(name, c)
    got = 0
    for o in orders(cls, c, 4):
        cost = costs.get((c, name, o, json.dumps(kw, sort_keys=True)), 0 if c == "dual polygon" else None)
        if cost is not None and cost > (12 if got == 0 else 1):
            continue
        try:
            signal.alarm(12 if got == 0 else 2)
            e = create.create_element(R01.cell_name(c), cls.names[0], o, **kw)
            values.setdefault(c, []).append([cls.names[0], o, kw, R01.fingerprint(e)])
            got += 1
        except Exception as ex:
            print(name, c, o, kw, repr(ex)[:80])
        signal.alarm(0)
        if got == 2:
            break
    if not got:
        print("nothing", name, c, kw)
with open("/verif/checks/registry.json", "w") as f:
    f.write("{\"names\": {\n" + ",\n".join(f"  {json.dumps(c)}: {{\n" + ",\n".join(f"    {json.dumps(n)}: {json.dumps(r)}" for n, r in v.items()) + "}"
                                            for c, v in names.items()) + "},\n\"values\": {\n")
    f.write(",\n".join(f"  {json.dumps(c)}: [\n" + ",\n".join("    " + json.dumps(r) for r in v) + "]" for c, v in values.items()) + "}}\n")
for c, v in doc.items():
    for n, fam in v.items():
        if c in names and (n not in names[c] or names[c][n]["family"] != fam and fam not in [k for k in names[c] if names[c][k]["family"] == names[c][n]["family"]]):
            print("README says", c, n, fam)
for c in names:
    for n in names[c]:
        if c in doc and n not in doc[c]:
            print("not in README", c, n)
