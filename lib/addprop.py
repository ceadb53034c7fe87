import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def prop(id, title, statement, over, text, why, files, mech, technique, note, level="model_checking", state=None, observe=None, hook=None):
    d = {"property": {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe or ["return of the public calls"], "hook_needed": hook}},
         "manifest": {"technique": technique, "level": level, "level_note": note}}
    if state: d["property"]["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    assert len(title) <= 80, len(title)
    json.dump(d, open(os.path.join(V, "lib/props", id + ".json"), "w"), indent=1)
