"""One table of the properties; writes properties.jsonl and MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, observe=observe))


exec(open(os.path.join(HERE, "tools", "props_table.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
            if p["observe"]:
                d["anchors"]["observe_at"] = p["observe"]
            fh.write(json.dumps(d) + "\n")
    m = {"version": 1, "setup_cmd": "python3 -m sa.selftest", "checks": [], "not_applicable": []}
    for p in P:
        if p["na"]:
            m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        else:
            m["checks"].append({"property": p["id"], "quick_cmd": "python3 -m sa.check %s --tier quick" % p["id"],
                                "thorough_cmd": "python3 -m sa.check %s --tier thorough" % p["id"],
                                "technique": p["technique"], "level": "other", "level_note": p["note"]})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1); fh.write("\n")


main()
