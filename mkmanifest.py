#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {
        "guard": "none: /repo contains no hooks",
        "enable": "The checks instrument copies of /repo's packages and overlay the Go runtime at build time (dst/tools); /repo itself is built as it is.",
        "source_commits": [],
    },
    "checks": [{
        "property": p["id"],
        "quick_cmd": "./check.sh %s quick" % p["id"],
        "thorough_cmd": "./check.sh %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "deterministic simulation of the whole deployment with fault injection; seeded search over schedules and fault sequences, history judged against reference models",
        "level": "exploration",
        "level_note": "No violation in the simulated executions explored (counts in the evidence file). Real om-core, API, gRPC, redigo and HTTP code on a simulated scheduler, clock and network; Redis is a stub that follows its documented behaviour. Interleavings at statement granularity of the code under test.",
    } for p in props],
    "not_applicable": [],
}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
