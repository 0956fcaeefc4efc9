"""The properties and their checks; writes properties.jsonl and MANIFEST.json. Run with python3."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
PROPS = []
NOT_APPLICABLE = []
RENDER = ["src/pyspark/mod.rs", "src/pyspark/ast.rs", "src/pyspark/base.rs"]
TESTS = "The 274 tests render fixed queries and compare the text with fixed text."


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, level="exploration"):
    assert len(title) <= 80, title
    PROPS.append(
        dict(
            p=dict(
                id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism]),
            ),
            c=dict(
                property=id, quick_cmd=f"./check.sh {id} quick", thorough_cmd=f"./check.sh {id} thorough", evidence_file=f"evidence/{id}.json",
                technique=technique, level=level, level_note=note,
            ),
        )
    )


PLAN = "runtime monitoring: the rendered code is executed against recording stand-ins for Spark and the runtime library; an online checker compares the trace with the plan the query was generated from"
PLAN_NOTE = "Every generated query is judged in full by an oracle built from the generator's own account of SPL; coverage is by random generation, so it is exploration. Trusts the stand-ins and that account."

exec((ROOT / "tools" / "properties.py").read_text())

PROPS.sort(key=lambda x: x["p"]["id"])
(ROOT / "properties.jsonl").write_text("".join(json.dumps(x["p"], ensure_ascii=False) + "\n" for x in PROPS) + "".join(json.dumps(p, ensure_ascii=False) + "\n" for p, _ in NOT_APPLICABLE))
(ROOT / "MANIFEST.json").write_text(
    json.dumps(
        dict(
            version=1,
            setup_cmd="./setup.sh",
            checks=[x["c"] for x in PROPS],
            not_applicable=[dict(property=p["id"], reason=r) for p, r in NOT_APPLICABLE],
            notes="No hooks in /repo: the crate is a Python extension, so the checks drive it through its own public interface. Known findings and repairs: known_findings.txt.",
        ),
        indent=1, ensure_ascii=False,
    )
    + "\n"
)
