"""Rewrites MANIFEST.json from the client files present (maintenance helper, not a check)."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
NA = {
    "C39": "A limit in the number of samples and a statement about dominance of unknown densities: it quantifies over runtime values of random samples, no sound static argument in reach bounds it.",
    "C40": "Statistical convergence of an estimator over random data: a property of distributions of runtime values, not of the shape of the code.",
    "C41": "Floating-point rounding for arbitrarily ill-conditioned inputs: the analysis works over exact reals, where the closed form (claimed in C10) is all that is visible.",
    "C42": "Depends on under- and overflow of runtime density values, which the exact-real value domain of the analysis cannot see.",
    "C43": "Accuracy of a finite-element solution (dolfin is not even installed): numerical analysis over runtime values.",
}
TECH = "abstract interpretation of the source into value graphs (shapes, symbolic contents, effects), value numbering against the stated formula"
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
extra = json.load(open(os.path.join(HERE, "claims.json"))) if os.path.exists(os.path.join(HERE, "claims.json")) else {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(os.path.join(HERE, "clients", i + ".py")) or i in extra:
        e = extra.get(i, {})
        checks.append({
            "property": i, "quick_cmd": "python3 -m mudlint.run %s --tier quick" % i, "thorough_cmd": "python3 -m mudlint.run %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": e.get("technique", TECH), "level": "other",
            "level_note": e.get("note", "For every array content and size (and every branch) of the listed client programs, the value, effect or exception the source yields is the stated one; trusts the library summaries in mudlint/nplib.py and exact real arithmetic."),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
