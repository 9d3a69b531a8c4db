"""The committed list of known findings: /verif/known_findings.json."""
import json
import os
import re

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                    "known_findings.json")
_data = None


def load():
    global _data
    if _data is None:
        _data = json.load(open(PATH))
    return _data


def listed(prop):
    return [f for f in load()["findings"] if prop in f["properties"]]


def match(prop, found):
    """The id of the listed finding that `found` is an instance of, or None."""
    for f in listed(prop):
        m = f["match"]
        if re.search(m["kind"], found["kind"]) and re.search(m["detail"], found["detail"]):
            return f["id"]
    return None
