"""Entry point: run.py <property>.  Tier from VERIF_TIER (quick by default)."""
import importlib
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import common  # noqa: E402

# property -> module with jobs(prop, tier), BOUNDS (text per property) and ASSUMES
TABLE = {
    "C01": "betting", "C02": "pots", "C03": "betting", "C04": "bets", "C05": "betting",
    "C06": "betting", "C07": "betting", "C08": "forced", "C09": "dealing",
    "C10": "isolation", "C11": "finished", "C12": "newhand", "C13": "winprob",
    "C14": "views", "C15": "ascii", "C16": "hands", "C17": "hands", "C18": "hands",
    "C19": "cards", "C20": "cards", "C21": "cards", "C22": "configs", "C23": "webfeed",
    "C24": "webpage", "C25": "configs", "C26": "startup", "C27": "modes",
    "C28": "showdown", "C29": "hidden", "C30": "reports",
    "C31": "copies",
}


def main(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    common.current_property = prop
    try:
        mod = importlib.import_module("mc." + TABLE[prop])
        jobs = mod.jobs(prop, tier)
        bounds = mod.BOUNDS[prop]
        assumes = mod.ASSUMES.get(prop, [])
    except Exception as e:
        # importing the library itself fails: nothing holds
        total, bads, shards = common.Stats(), [("cannot load the library: " + common._describe(e), None)], 0
        bounds, assumes = "none", []
    else:
        total, bads, shards = common.run_shards(jobs, fresh=getattr(mod, "FRESH", False))
    violations = []
    for msg, scn in bads[:1]:
        violations.append((msg, scn))
    known = {k["key"]: k for k in common.known_findings(prop)}
    seen = set()
    for key, text in total.findings:
        if key in seen:
            continue
        seen.add(key)
        if key in known:
            print(f"KNOWN-FINDING: property={prop} {text}")
        else:
            violations.append((text, {"kind": "finding", "key": key}))
    for msg, scn in violations:
        path = common.write_replay(prop, msg, scn)
        print(f"{prop}: {msg}")
        print(f"VIOLATION property={prop} replay={path}")
    total.add("known_findings", len(seen & set(known)))
    common.write_evidence(prop, tier, total, shards, bounds, t0, len(violations), assumes)
    print(
        f"{prop} {tier}: {total.states} states, {total.transitions} transitions, "
        f"{total.traces} traces validated, {len(total.outcomes)} outcomes, "
        f"{len(violations)} violations, {time.time() - t0:.1f} s"
    )
    return 1 if violations else 0


if __name__ == "__main__":
    code = main(sys.argv[1])
    sys.stdout.flush()
    os._exit(code)
