#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below; only checks that exist under checks/ are listed."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ spec checked with TLC; "
NOTE = ("Exhaustive within the bounds of the TLA+ models; for the code, agreement of every recorded behaviour with the "
        "specification on the enumerated/generated inputs. Trusts TLC, the harness and g++.")
TECH = {
 "C01": "elimination design model, code-computed structures validated by TLC against the same predicates",
 "C02": "assembly design model, TLC-generated call histories replayed, recorded systems validated by TLC with exact integers",
 "C03": "TLC-generated assemble/factor/solve histories replayed with planted exact solutions, traces validated by TLC",
 "C04": "registration state machine explored by TLC, its histories replayed, recorded program state validated by TLC",
 "C05": "C-API state machine explored by TLC, its call histories replayed under AddressSanitizer, traces validated by TLC",
 "C06": "coefficient-update state machine explored by TLC, histories replayed, resulting Newton data validated by TLC",
 "C07": "exact integer specification of each cone's Newton data; recorded outputs validated by TLC",
 "C08": "buffer layout model, recorded memory areas and writes validated by TLC",
 "C09": "state machine of the interior-point loop explored by TLC; call traces of scripted constraints validated by TLC",
 "C10": "outcome automaton and exact certificates in TLA+; recorded outcomes on planted problems validated by TLC",
 "C11": "TLC-generated histories of solves replayed; final cold run compared with a fresh one by TLC",
 "C12": "warm-start state machine explored by TLC; recorded split runs and probe traces validated by TLC",
 "C13": "query state machine explored by TLC; recorded query answers validated by TLC",
 "C14": "set semantics of two-sided rows explored by TLC; recorded conversions validated by TLC",
 "C15": "Cayley-Dickson algebra specified in TLA+ (laws checked by TLC); recorded matrix operations validated by TLC",
 "C16": "admissible-weight specification in TLA+; recorded line searches and divergence bounds validated by TLC",
 "C17": "formulation-rewriting state machine explored by TLC; all formulations solved and outcomes compared by TLC",
 "C19": "Jordan-algebra specification of directions, steps and spectra; recorded steps with planted rational exponentials validated by TLC",
 "C18": "options state machine explored by TLC; recorded C and C++ runs validated by TLC",
}
NA = {"N01": "accuracy to rounding of floating-point kernels (matrix exponential, Lanczos eigenvalues) is a statement about real "
             "arithmetic; TLA+/Quint have no reals or transcendental functions, so a specification could only restate the numbers"}
m = {"version": 1, "setup_cmd": "python3 tools/prebuild.py", "checks": [], "not_applicable": [],
     "hooks": {"guard": "CONEX_VERIF_HOOKS", "enable": "not needed: the checks use public interfaces only, /repo carries no hooks",
               "source_commits": []},
     "notes": "python3 run.py <ID> quick|thorough; see DESIGN.md"}
done = []
for pid in sorted(TECH):
    if os.path.exists(os.path.join(HERE, "checks", pid.lower() + ".py")):
        done.append(pid)
        m["checks"].append({"property": pid, "quick_cmd": "python3 run.py %s quick" % pid,
                            "thorough_cmd": "python3 run.py %s thorough" % pid, "technique": T + TECH[pid],
                            "level": "model_checking", "level_note": NOTE})
for pid in sorted(TECH):
    if pid not in done:
        m["not_applicable"].append({"property": pid, "reason": "check not built yet"})
for pid, r in NA.items():
    m["not_applicable"].append({"property": pid, "reason": r})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(done)
