"""C11: stepping a finished hand changes nothing; stepping before the first deal is
refused."""
from mc import game, grid, monitors
from mc.common import Bad, set_scenario
from mc.newhand import look

from clubs import error

BOUNDS = {
    "C11": "every end of a hand in the complete betting trees of 2-5 seat games and in shipped configurations "
           "with few departures from check/call x every sequence of up to 3 further steps from eleven bets (up to 2^70, fractions) with "
           "inspections between; undealt tables of every configuration x the same steps; the hand after; one dealer through 600-1100 (thorough 4000) hands played in six ways in seven games"
}
ASSUMES = {}
EXTRA = (0, -1, 1, 7, 1000, 0.5, 10 ** 7, -10 ** 9, 2 ** 70 + 1, 1e18, -0.5)
E = len(EXTRA)


class Finished:
    """At the end of a hand: further steps repeat the result."""

    def __init__(self, rot=0):
        self.count = 0

    def begin(self, ex, d, pre, obs):
        return 0

    def step(self, ex, d, ms, old, op, obs, payouts, done):
        if not all(done):
            return ms + 1
        want = game.ret_key((obs, payouts, done))
        table = look(d)
        self.count += 1
        # sequences of extra steps rotate so that all pairs occur over the tree
        k = self.count
        seq = (EXTRA[k % E], EXTRA[(k // E) % E], EXTRA[(k // (E * E)) % E])
        if k % 400 == 1:
            seq = seq * 40
        for i, bet in enumerate(seq):
            ret = d.step(bet)
            ex.st.transitions += 1
            got = game.ret_key(ret)
            if got != want:
                raise Bad(f"step({bet}) number {i + 1} after the hand was over returned {got}, "
                          f"the final action returned {want}")
            if not all(ret[2]):
                raise Bad(f"step({bet}) after the hand: done {ret[2]}")
            cfg = ex.scn["cfg"]
            if i == 1 and k % 5 == 0 and len(d.community_cards) == sum(_comm(cfg)):
                d.win_probabilities()
            if look(d) != table:
                raise Bad(f"table shown changed by step({bet}) after the hand was over")
        return ms + 1


def _comm(cfg):
    c = cfg["num_community_cards"]
    return c if isinstance(c, list) else [c] * cfg["num_streets"]


def shard(st, scns):
    for scn, alpha, dev, hands in scns:
        game.Explorer(st, scn, Finished(), alpha, deviations=dev, hands=hands).run()


def every_sequence(st, cfg, stacks, alpha):
    """At every end: all pairs of further steps, then the next deal."""

    class All(Finished):
        def step(self, ex, d, ms, old, op, obs, payouts, done):
            if not all(done):
                return ms + 1
            want = game.ret_key((obs, payouts, done))
            for a in EXTRA:
                d1 = game.clone(d)
                if game.ret_key(d1.step(a)) != want:
                    raise Bad(f"step({a}) after the hand is over differs from the final result {want}")
                for b in EXTRA:
                    d2 = game.clone(d1)
                    ex.st.transitions += 1
                    if game.ret_key(d2.step(b)) != want:
                        raise Bad(f"step({a}), step({b}) after the hand is over differs from the final result {want}")
            return ms + 1

    for b in range(cfg["num_players"]):
        game.Explorer(st, dict(cfg=cfg, stacks=stacks, button=b), All(), alpha).run()


def undealt(st, cfgs):
    for cfg in cfgs:
        n = cfg["num_players"]
        for a in EXTRA:
            for b in EXTRA:
                set_scenario({"kind": "undealt", "cfg": cfg, "bets": [a, b]})
                d = game.make_dealer(dict(cfg=cfg))
                st.states += 1
                for bet in (a, b):
                    st.transitions += 1
                    try:
                        r = d.step(bet)
                    except error.TableResetError:
                        continue
                    raise Bad(f"step({bet}) before the first deal returned {r}",
                              {"kind": "undealt", "cfg": cfg, "bets": [a, b]})
                scn = dict(cfg=cfg, seed=3)
                got = game.obs_key(game.deal(d, scn, 1))
                want = game.obs_key(game.deal(game.make_dealer(scn), scn, 1))
                if got != want:
                    raise Bad(f"refused steps changed the table: first deal {got}, expected {want}",
                              {"kind": "undealt", "cfg": cfg, "bets": [a, b]})
                st.traces += 1
                st.outcome(got[8:10])


def marathon(st, scn, count):
    game.marathon(st, scn, Finished(), count)


def jobs(prop, tier):
    out = []
    gen = ((s, a, None, 1) for s, a in grid.betting("quick" if tier == "quick" else "thorough"))
    for ch in grid.chunks(gen, 80):
        out.append((shard, (ch,)))
    for ch in grid.chunks(((s, a, d, 1) for s, a, d in grid.wars("quick")), 2):
        out.append((shard, (ch,)))
    g = grid.cfg
    for c, s, a in (
        (g(2, 1, [1, 2], 0, start=5), [5, 4], "full"),
        (g(2, 2, [1, 2], 0, "pot", start=6, cards=2), [6, 6], "sparse"),
        (g(3, 1, [1, 2, 0], 0, start=5), [1, 3, 5], "full"),
        (g(3, 2, 0, 1, 2, 1, start=6), [6, 2, 4], "sparse"),
        (g(4, 1, [1, 2, 0, 0], 0, "inf", 1, start=4), [4, 0, 2, 3], "minmax"),
    ):
        out.append((every_sequence, (c, s, a)))
    for s, a, d in grid.shipped_scenarios("quick"):
        out.append((shard, ([(s, a, min(d, 2) if d else d, 2 if s["cfg"]["num_players"] == 2 and d is None else 1)],)))
    for ch in grid.chunks([dict(c) for _, c in grid.shipped()] + [s["cfg"] for s, a in list(grid.betting("quick"))[::97]], 8):
        out.append((undealt, (ch,)))
    for scn, count in grid.marathons(tier):
        out.append((marathon, (scn, count)))
    return out
