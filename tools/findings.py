"""Findings listed in /verif/known-findings.jsonl: {"status": "known", "property", "what", "input_contains", "what_contains"}.
`fixed` entries document repairs and suppress nothing."""
import json
from common import VERIF


def load(prop):
    out = []
    for line in (VERIF / "known-findings.jsonl").read_text().splitlines():
        if line.strip():
            f = json.loads(line)
            if f["status"] == "known" and f["property"] == prop:
                out.append(f)
    return out


def matches(known, violation):
    return any(k["input_contains"] in violation["input"] and k["what_contains"] in violation["what"] for k in known)
