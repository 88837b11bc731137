"""replay.py <replay file>: shows the recorded counterexample and runs it again on
/repo's working tree.  Betting paths and web schedules run alone, on fresh objects;
other scenarios run the property's whole check, which is deterministic."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import common  # noqa: E402


def main(path):
    with open(path) as f:
        rec = json.load(f)
    prop, scn = rec["property"], rec["scenario"]
    print(rec["what"])
    print(json.dumps(scn, indent=1, ensure_ascii=False))
    kind = (scn or {}).get("kind")
    st = common.Stats()
    try:
        if kind == "game" and "scn" in scn:
            from mc import betting, game
            if prop in betting.MONITORS:
                ex = game.Explorer(st, scn["scn"], betting.MONITORS[prop](), None, hands=scn.get("hands", 1))
                trace = ex.replay(scn["path"])[-1]
                for op, obs in zip([None] + scn["path"], trace):
                    print(op, {k: obs[k] for k in ("action", "stacks", "street_commits", "pot", "active")})
                print("the path runs without a violation")
                return 0
        if kind == "web":
            print("running the web schedules again")
    except common.Bad as e:
        print("VIOLATION reproduced:", e.msg)
        return 1
    except Exception as e:
        print("VIOLATION reproduced:", common._describe(e))
        return 1
    from mc import run
    return run.main(prop)


if __name__ == "__main__":
    code = main(sys.argv[1])
    sys.stdout.flush()
    os._exit(code)
