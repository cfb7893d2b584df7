"""The properties, and for each the generated-input searches that decide it.

P(...) declares one property: what goes to properties.jsonl and MANIFEST.json
(tools/gen.py writes both) and the parts that tools/check.py runs.
"""
PROPS = []
CHECKS = {}
NOT_APPLICABLE = []
HARNESS = {"h_crash": {"extra": ["fsops.cc"]}, "h_apsi": {"extra": ["fsops.cc"]}}  # harness -> {extra: [sources], flags: [...], libs: [...]}


def P(id, title, statement, over, quant, why, files, mechanism, observe, parts, rule, note, level="exploration", technique="property-based testing", assumptions=(), state=(), design=""):
    assert len(title) <= 80, (id, len(title))
    PROPS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": quant},
        "why_tests_cant": why,
        "anchors": {"files": list(files), "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                    "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": list(observe), "hook_needed": None},
    })
    CHECKS[id] = {"level": level, "rule": rule, "parts": list(parts), "technique": technique, "note": note, "assumptions": list(assumptions), "design": design}


def part(h, p, quick, thorough, qbudget=120, tbudget=1500, variant="o1", **kw):
    d = {"h": h, "p": p, "quick": quick, "thorough": thorough, "qbudget": qbudget, "tbudget": tbudget, "variant": variant}
    d.update(kw)
    return d


from props_psi import *  # noqa
from props_more import *  # noqa
