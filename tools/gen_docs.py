"""Writes properties.jsonl and MANIFEST.json from the one table below.

Run after adding a property or a check; a property whose checks/<id>.py is
missing goes to not_applicable.
"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TP = "terragraph_planner/"

# id, title, statement, over, quantifier text, why tests cannot, [files], [(mechanism, where)]
P = []


def p(pid, title, statement, over, qtext, why, files, mech, note, technique):
    P.append(
        dict(
            pid=pid, title=title, statement=statement, over=over, qtext=qtext,
            why=why, files=[TP + f for f in files], mech=mech, note=note,
            technique=technique,
        )
    )


exec(open(os.path.join(V, "tools", "properties_table.py")).read())


def main() -> None:
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for q in P:
            assert len(q["title"]) <= 80, q["title"]
            f.write(
                json.dumps(
                    {
                        "id": q["pid"],
                        "title": q["title"],
                        "statement": q["statement"],
                        "quantifier": {"over": q["over"], "text": q["qtext"]},
                        "why_tests_cant": q["why"],
                        "anchors": {
                            "files": q["files"],
                            "mechanism": [
                                {"name": n, "where": TP + w} for n, w in q["mech"]
                            ],
                        },
                    }
                )
                + "\n"
            )
    checks, na = [], []
    for q in P:
        pid = q["pid"]
        if os.path.exists(os.path.join(V, "checks", pid.lower() + ".py")):
            checks.append(
                {
                    "property": pid,
                    "quick_cmd": f"python3 run.py {pid} quick",
                    "thorough_cmd": f"python3 run.py {pid} thorough",
                    "technique": q["technique"],
                    "level": "exploration",
                    "level_note": q["note"],
                }
            )
        else:
            na.append({"property": pid, "reason": NA.get(pid, "check not built yet")})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(
            {
                "version": 1,
                "setup_cmd": "python3 tools/selfcheck.py",
                "checks": checks,
                "not_applicable": na,
                "notes": "Every check imports the planner from /repo's working tree; nothing is built. run.py --replay FILE re-runs a recorded counterexample.",
            },
            f,
            indent=1,
        )
        f.write("\n")
    print(len(checks), "checks,", len(na), "not claimed")


NA = {}
main()
