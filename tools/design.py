"""Refreshes the generated tables of DESIGN.md (contracts per property, planted bugs)."""
import json, os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from pyvc import contract
from tools.claims import CLAIMS
contract.load_all()


def contracts():
    out = []
    for line in open(os.path.join(R, "properties.jsonl")):
        p = json.loads(line)
        level, note = CLAIMS[p["id"]]
        out.append(f"#### {p['id']} {p['title']}  — level: {level}\n")
        for n, h in contract.HARNESSES.items():
            if p["id"] in h.props:
                doc = " ".join((h.fn.__doc__ or "").split())
                kind = "" if h.sym else f" **bounded** ({h.bounded_reason})"
                stubs = f" (against the contracts of {', '.join(h.stubs)})" if h.stubs else ""
                out.append(f"* `{n}`{kind}: {doc}{stubs}")
        out.append("")
    return "\n".join(out)


def seeded():
    out = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
    d = os.path.join(R, "seeded")
    caught = json.load(open(os.path.join(R, "tools", "caught.json"))) if os.path.exists(os.path.join(R, "tools", "caught.json")) else {}
    for b in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, b, "meta.json")))
        out.append(f"| {b} | {m['property']} | {' '.join(m['needs'].split())} | {caught.get(b, 'check ' + m['property'])} |")
    return "\n".join(out)


path = os.path.join(R, "DESIGN.md")
s = open(path).read()
for name, text in (("contracts", contracts()), ("seeded", seeded())):
    s = re.sub(f"(<!-- {name} -->\n).*?(<!-- end {name} -->)", lambda m: m[1] + text + "\n" + m[2], s, flags=re.S)
open(path, "w").write(s)
