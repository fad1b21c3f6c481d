#!/usr/bin/env python3
"""
Check one property:   check.py C12 [--tier quick|thorough] [--replay FILE]
Exit code 0: held on everything explored; 1: VIOLATION is printed; other: error of the check.
"""
import argparse
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from framework import common, registry  # noqa: E402


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property", choices=sorted(registry.CHECKS))
    parser.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER") or "quick")
    parser.add_argument("--replay")
    arguments = parser.parse_args()
    seed = int(os.environ.get("VERIF_SEED") or "1")
    identifier = arguments.property
    check = registry.CHECKS[identifier]
    before = time.time()
    with common.Workspace(identifier) as workspace:
        if arguments.replay:
            with open(arguments.replay) as source:
                document = json.load(source)
            message = check.replay(workspace, document["failure"])
            print(message if message else "the recorded failure does not occur")
            if message:
                print("VIOLATION property=%s replay=%s" % (identifier, arguments.replay))
            return 1 if message else 0
        result = check.explore(workspace, arguments.tier, seed)
        confirmed = []
        for failure in result.failures[:3]:
            messages = [message for message in (check.replay(workspace, failure) for _ in range(3)) if message]
            if messages:
                failure["message"] = messages[0]
                failure["reproduced"] = "%d of 3" % len(messages)
                confirmed.append(failure)
                break
            if failure.get("observed_is_enough"):
                failure["reproduced"] = "0 of 3, depends on scheduling of real threads"
                confirmed.append(failure)
                break
            result.notes.append("a failure which does not reproduce was ignored: " + failure["message"][:500])
            print("NOT REPRODUCED: " + failure["message"][:2000])
    coverage = {"evaluations": result.evaluations,
                "distinct_nontrivial": len(result.distinct) + result.extra_distinct,
                "rule": result.rule,
                "samples": result.samples,
                "labels": dict(sorted(result.labels.items()))}
    coverage.update(result.extra)
    if result.notes:
        coverage["notes"] = result.notes
    common.write_evidence(identifier, arguments.tier, seed, "exploration", coverage, time.time() - before,
                          len(confirmed), check.assumptions)
    print("%s %s: %d cases, %d distinct non-trivial, %.1f s" % (identifier, arguments.tier, coverage["evaluations"],
                                                             coverage["distinct_nontrivial"], time.time() - before))
    for note in result.notes:
        print("note: " + note[:600])
    for failure in confirmed:
        path = common.write_replay(identifier, {"property": identifier, "failure": failure,
                                                "replay_with": "python3 check.py %s --replay <this file>" % identifier})
        print(failure["message"][:3000])
        print("VIOLATION property=%s replay=%s" % (identifier, path))
    if not confirmed and coverage["distinct_nontrivial"] == 0 and not getattr(result, "inconclusive", False):
        print("nothing non-trivial was explored", file=sys.stderr)
        return 3
    return 1 if confirmed else 0


if __name__ == "__main__":
    try:
        code = main()
    except common.CheckError as error:
        print("ERROR: %s" % error, file=sys.stderr)
        code = 2
    except Exception:  # pylint: disable=broad-except
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
