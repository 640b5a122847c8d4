#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "harness"))
R = "sources/include/utils/"
SR, MR, ME, AL = (R + "memory/" + x + ".h" for x in (
    "simple_resource", "monotonic_buffer_resource", "memory", "allocator"))
CO = R + "common.h"
props = []


def prop(id, title, statement, over, text, why, files, mech, level_note="",
         na=None):
    props.append(dict(
        na=na, note=level_note, row=dict(
            id=id, title=title, statement=statement,
            quantifier=dict(over=over, text=text), why_tests_cant=why,
            anchors=dict(files=files, mechanism=[
                dict(name=n, where=w) for n, w in mech]))))


from texts import fill  # noqa
fill(prop, dict(SR=SR, MR=MR, ME=ME, AL=AL, CO=CO, R=R))

TECH = ("symbolic execution of the LLVM IR of the real headers, every branch "
        "and assertion decided by z3, counterexamples replayed natively")
NOTE = ("Bounded: holds for every value of the symbolic inputs within the "
        "bounds stated in the evidence; the constructor/operation shapes are "
        "those of the harness. Trusts clang's lowering, the IR interpreter "
        "(validated by re-running sampled paths natively) and z3.")


def main():
    import props as P
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in props:
            f.write(json.dumps(p["row"]) + "\n")
    checks, na = [], []
    for p in props:
        i = p["row"]["id"]
        if p["na"]:
            assert i not in P.PROPS, i
            na.append(dict(property=i, reason=p["na"]))
            continue
        if i not in P.PROPS:
            na.append(dict(property=i, reason="no check built yet"))
            continue
        checks.append(dict(
            property=i,
            quick_cmd="python3 check.py --property %s --tier quick" % i,
            thorough_cmd="python3 check.py --property %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique=P.PROPS[i].get("technique", TECH),
            level="model_checking",
            level_note=(p["note"] + " " + NOTE).strip()))
    known = {p["row"]["id"] for p in props}
    assert set(P.PROPS) <= known, set(P.PROPS) - known
    m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks,
             not_applicable=na)
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
