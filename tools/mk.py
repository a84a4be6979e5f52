#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the texts below."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, "tools"))
from props import PROPS  # noqa: E402
from texts import TEXTS, NOT_APPLICABLE, HOOK_COMMITS  # noqa: E402

TECH = ("Symbolic execution of /repo's code from whole-program LLVM IR "
        "(executor in sx/), path feasibility and assertions decided by Z3 "
        "(bit-vectors); counterexamples and sampled path models replayed on "
        "a native build of the same sources")


def note(p):
    b = PROPS[p]["bounds"]
    q = b if isinstance(b, str) else b["quick"]
    return ("Every value within the bounds, not beyond. Quick bounds: %s. "
            "Outside: %s." % (q, PROPS[p]["outside"]))


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for t in TEXTS:
            f.write(json.dumps(t) + "\n")
    ids = [t["id"] for t in TEXTS]
    m = {
        "version": 1,
        "setup_cmd": "python3 run.py setup",
        "hooks": {"guard": "none: the checks use public interfaces only",
                  "enable": "nothing to enable",
                  "source_commits": HOOK_COMMITS},
        "checks": [{
            "property": p,
            "quick_cmd": "python3 run.py check " + p,
            "thorough_cmd": "VERIF_TIER=thorough python3 run.py check " + p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": TECH,
            "level": "model_checking",
            "level_note": note(p),
        } for p in ids if p in PROPS],
        "not_applicable": [{"property": p, "reason": r}
                           for p, r in NOT_APPLICABLE.items()],
        "notes": "See DESIGN.md. Known findings: known-findings.txt.",
    }
    for p in ids:
        assert (p in PROPS) != (p in NOT_APPLICABLE), p
    for p in PROPS:
        assert p in ids, p
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()


def design():
    with open(os.path.join(ROOT, "tools", "DESIGN.in.md")) as f:
        s = f.read()
    out = []
    for t in TEXTS:
        p = t["id"]
        out.append("### %s %s\n" % (p, t["title"]))
        if p in NOT_APPLICABLE:
            out.append("Not applicable: %s\n" % NOT_APPLICABLE[p])
            continue
        c = PROPS[p]
        out.append("%s\n" % c["how"])
        b = c["bounds"]
        if isinstance(b, str):
            out.append("- Bounds: %s." % b)
        else:
            out.append("- Bounds, quick: %s." % b["quick"])
            out.append("- Bounds, thorough: %s." % b["thorough"])
        out.append("- Outside: %s." % c["outside"])
        out.append("- Harnesses: %s." % ", ".join(
            "`%s` (h/%s)" % (x["entry"], x["crate"]) for x in c["harnesses"]))
        if c.get("cost"):
            out.append("- Cost: %s." % c["cost"])
        out.append("- Beyond the tests: %s\n" % t["why_tests_cant"])
    s = s.replace("PROPERTIES_HERE", "\n".join(out).strip())
    sd = os.path.join(ROOT, "seeded")
    rows = []
    res = {}
    rf = os.path.join(ROOT, "tools", "seeded-results.json")
    if os.path.exists(rf):
        res = json.load(open(rf))
    for n in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, n, "meta.json")))
        rows.append("- `%s` (%s): %s. Needs: %s. %s" % (
            n, m["property"], m["what_it_breaks"], m["needs"],
            res.get(n, "Not yet run.")))
    s = s.replace("SEEDED_HERE", "\n".join(rows))
    with open(os.path.join(ROOT, "tools", "findings.md")) as f:
        s = s.replace("FINDINGS_HERE", f.read().strip())
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
        f.write(s)


design()
