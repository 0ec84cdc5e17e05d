#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.  A property is claimed
when checks/<ID>.py exists; otherwise it is listed as not applicable with its
reason."""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), state=(), na=None, note="", level="model_checking",
      technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files.split(),
                  mech=mech, observe=list(observe), state=state, na=na, note=note, level=level, technique=technique))


exec(open(os.path.join(VERIF, "tools", "props_data.py")).read())


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            d = dict(id=x["id"], title=x["title"], statement=x["statement"],
                     quantifier=dict(over=x["over"], text=x["text"]), why_tests_cant=x["why"],
                     anchors=dict(files=x["files"],
                                  mechanism=[dict(name=n, where=w) for n, w in x["mech"]],
                                  observe_at=x["observe"], hook_needed=None))
            if x["state"]:
                d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in x["state"]]
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for x in P:
        if os.path.exists(os.path.join(VERIF, "checks", x["id"] + ".py")):
            checks.append(dict(property=x["id"], quick_cmd="python3 checks/%s.py --tier quick" % x["id"],
                               thorough_cmd="python3 checks/%s.py --tier thorough" % x["id"],
                               technique=x["technique"] or "TLA+ specification model-checked with TLC; transition-cover and random scripts replayed on the real code; TLC trace validation",
                               level=x["level"], level_note=x["note"] or "Exhaustive on the specification under the small constants of spec/*MC.cfg; the code is bound by trace validation of every executed script, so it is decided on the executions explored, not on all of them."))
        else:
            na.append(dict(property=x["id"], reason=x["na"] or "No check yet: planned (see DESIGN.md)."))
    m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed", len(na), "not")


main()
