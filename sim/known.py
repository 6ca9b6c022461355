"""The committed list of known findings (never written by a check)."""
import json
import os

PATH = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
_memo = []


def load():
    if not _memo:
        try:
            with open(PATH) as f:
                _memo.append(json.load(f)["findings"])
        except OSError:
            _memo.append([])
    return _memo[0]


def _path(sc, p):
    for q in p.split("."):
        if not isinstance(sc, dict):
            return None
        sc = sc.get(q)
    return sc


def match(prop, kind, sc):
    """The listed finding a violation is, if any: same property, same kind, same input."""
    for k in load():
        if k["property"] == prop and k["kind"] == kind and \
                all(_path(sc, p) == want for p, want in k.get("scenario", {}).items()):
            return k
    return None
