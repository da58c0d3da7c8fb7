"""The properties, in one place: generates properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na))


EXTRACT = ("rule extraction by abstract interpretation of the source, compared with a reference rule table by a "
           "Datalog-style prover (chase with case analysis), in both directions")
EXTRACT_NOTE = ("Static. Every path of the rule methods is interpreted with symbolic terms, each store/error effect becomes a guarded clause; "
                "completeness and soundness are then clause entailment questions, checked for the first and the later cycles. Trusts the model of the "
                "Python and rdflib constructs in sa/ (see DESIGN.md) and the transcription of the specification in sa/spec.py; list lengths are "
                "enumerated up to a bound; what the interpreter cannot follow is reported as undecided in the evidence, not as a violation.")
WHY_RULES = ("The tests run about a dozen of the rules, on one tiny graph each; the property quantifies over all graphs (all instantiations of each rule, "
             "its premises arriving in any cycle, from asserted or derived triples).")

exec(open(os.path.join(VERIF, "tools", "props_data.py"), encoding="utf-8").read())


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            assert p["statement"].count(". ") <= 2, (p["id"], p["statement"])
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]},
                 "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
        else:
            checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
                           "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
                           "evidence_file": "evidence/%s.json" % p["id"],
                           "technique": p["technique"], "level": "other", "level_note": p["note"]})
    m = {"version": 1, "setup_cmd": "python3 -c \"import sys; assert sys.version_info >= (3, 9)\"", "checks": checks, "not_applicable": na,
         "notes": "Pure static analysis: python3 standard library only; nothing of /repo is imported or run. VERIF_REPO overrides the analysed tree."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


if __name__ == "__main__":
    main()
