"""C01 C03 C05 C06 C07: complete betting trees of small games and deviation-bounded
executions of the shipped ones, judged by one monitor per property."""
import itertools

from mc import game, grid, monitors

MONITORS = {
    "C01": lambda: monitors.Chips(),
    "C03": lambda: monitors.Folds(),
    "C05": lambda: monitors.Modelled({"offers"}),
    "C06": lambda: monitors.Modelled({"action"}, own_deal={"action", "active"}),
    "C07": lambda: monitors.Modelled({"board", "street_commits", "done", "over"}, own_deal={"board"}),
}
TREES = (
    "complete betting trees (every legal bet size) of 2-seat games with all stack vectors up to 4 chips "
    "and 3-seat games with up to 10 chips, 4 and 5 seats and larger stacks with fold/call/min/mid/max "
    "bets; 1-3 streets; no limit, pot limit, fixed limit and mixed structures, raise caps 0-4 and none; "
    "blind and ante layouts incl. forced bets above stacks; busted seats; all buttons; the same with "
    "amounts beyond 2^53; 7-10 seats and 6-13 streets with 1-3 and shipped configurations with at most "
    "1-3 departures from check/call; 5-10 seats with at most 3-4 departures from folding to every bet; raise wars "
    "with caps up to 130 raises, layouts of up to 27 streets; one dealer through 600-1100 (thorough 4000) hands played "
    "in six ways in seven games; bets also passed as floats and as fractions next to them; uneven forced bets on "
    "2-10 seats"
)
BOUNDS = {p: TREES for p in MONITORS}
BOUNDS["C01"] += "; showdowns of 4 (every way to tie) and 5 seats"
BOUNDS["C01"] += "; all (stacks, button) states reachable over any number of hands of small games"
ASSUMES = {
    p: ["bet sizes outside the legal amounts are covered by C04",
        "dealer states are cloned during the search; every 997th execution and every counterexample is "
        "re-run on a fresh dealer"]
    for p in MONITORS
}


def shard(st, prop, scns, hands):
    for scn, alpha, dev in scns:
        mon = MONITORS[prop]()
        game.Explorer(st, scn, mon, alpha, deviations=dev, hands=hands).run()
        st.add("scenarios")


def marathon(st, prop, scn, count):
    game.marathon(st, scn, MONITORS[prop](), count)


class Collect:
    """Wraps a monitor and collects the states reached at the end of a hand."""

    def __init__(self, mon):
        self.mon = mon
        self.ends = set()

    def begin(self, *a):
        return self.mon.begin(*a)

    def step(self, ex, d, ms, old, op, obs, payouts, done):
        r = self.mon.step(ex, d, ms, old, op, obs, payouts, done)
        if all(done):
            self.ends.add((tuple(obs["stacks"]), obs["button"]))
        return r


def tricks(n, streets):
    """Decks for one-card hands: every order of strength incl. ties by rank."""
    ranks, suits = "AKQJT", "SHDC"
    board = [] if streets == 1 else ["2S"]
    for strength in itertools.product(range(n), repeat=n):
        if max(strength.count(x) for x in strength) > 4:
            continue
        if sorted(set(strength)) == list(range(len(set(strength)))):
            yield [ranks[s] + suits[strength[:i].count(s)] for i, s in enumerate(strength)] + board


def reachable(st, prop, cfg, stacks, alpha):
    """Breadth-first search over hands: every (stacks, button) reachable, the whole
    betting tree from each of them."""
    n = cfg["num_players"]
    decks = list(tricks(n, cfg["num_streets"]))
    if n > 2:
        decks = decks[:: 2 if n == 3 else 9]
    seen = {(tuple(stacks), 0)}
    todo = list(seen)
    while todo:
        cur = todo.pop(0)
        for deck in decks:
            mon = Collect(MONITORS[prop]())
            scn = dict(cfg=cfg, stacks=list(cur[0]), button=cur[1], trick=deck)
            game.Explorer(st, scn, mon, alpha, validate=4999).run()
            for s, b in sorted(mon.ends):
                if sum(x > 0 for x in s) < 2:
                    continue
                nxt = (s, (b + 1) % n)
                if nxt not in seen:
                    seen.add(nxt)
                    todo.append(nxt)
    st.add("hand_boundary_states", len(seen))


def showdowns(tier):
    """Four and five seats with every way to tie: odd chips of any number."""
    g = grid.cfg
    T = tier == "thorough"
    vecs = [(3, 3, 3, 3), (1, 2, 3, 4), (5, 2, 5, 3), (0, 4, 3, 4)]
    four = [(g(4, 1, [1, 2, 0, 0], 0, "inf", 2, start=5), "minmax"), (g(4, 1, 0, [0, 0, 1, 2], "pot", 1, start=5), "minmax")]
    decks = list(tricks(4, 1))
    for i, v in enumerate(vecs):
        for j, (c, alpha) in enumerate(four):
            for k, deck in enumerate(decks):
                if T or (i + j + k) % 2 == 0:
                    yield dict(cfg=c, stacks=list(v), button=(i + k) % 4, trick=deck), alpha, None if T else 4
    c = g(5, 1, [1, 2, 0, 0, 0], 0, "inf", 1, start=9)
    for k, deck in enumerate(d for d in tricks(5, 1) if len({x[0] for x in d}) < 4):
        if T or k % 6 == 0:
            yield dict(cfg=c, stacks=[(9, 9, 9, 9, 9), (3, 7, 1, 9, 9)][k % 2], button=k % 5, trick=deck), "minmax", 2


def jobs(prop, tier):
    out = []
    if prop == "C01":
        for ch in grid.chunks(showdowns(tier), 40):
            out.append((shard, (prop, ch, 1)))
        g = grid.cfg
        small = [
            (g(2, 1, [1, 2], 0, start=4), [4, 4], "full"),
            (g(2, 2, [1, 1], [0, 1], "pot", start=4), [5, 3], "full"),
            (g(2, 1, 0, 1, 1, 2, start=4), [5, 5], "full"),
            (g(3, 1, [1, 2, 0], 0, start=2), [2, 2, 2], "full"),
            (g(3, 1, 0, [0, 2, 1], 1, 1, start=3), [3, 3, 1], "full"),
        ]
        if tier == "thorough":
            small += [
                (g(2, 2, [1, 2], 0, start=6), [6, 6], "full"),
                (g(2, 2, [1, 2], [1, 0], 2, 2, start=9), [9, 9], "full"),
                (g(3, 1, [1, 2, 0], 0, "pot", start=4), [3, 3, 3], "full"),
                (g(3, 2, [1, 2, 0], 0, "inf", 1, start=4), [3, 3, 3], "minmax"),
                (g(4, 1, [1, 2, 0, 0], [1, 0, 0, 0], "inf", 1, start=3), [2, 2, 2, 2], "minmax"),
            ]
        for c, s, a in small:
            out.append((reachable, (prop, c, s, a)))
        chained = [
            (dict(cfg=g(2, 1, [1, 2], 0, start=3), stacks=[3, 3], button=0), "full"),
            (dict(cfg=g(3, 1, [1, 1, 0], 1, "inf", 1, start=4), stacks=[4, 3, 2], button=1), "minmax"),
            (dict(cfg=g(3, 2, [0, 1, 0], 0, 2, 1, start=4), stacks=[4, 2, 3], button=2), "minmax"),
        ]
        for s, a in chained:
            out.append((shard, (prop, [(s, a, None if s["cfg"]["num_players"] == 2 else 3)], 3)))
    for ch in grid.chunks(((s, a, None) for s, a in grid.betting(tier)), 60):
        out.append((shard, (prop, ch, 1)))
    for s, a, d in grid.shipped_scenarios(tier):
        out.append((shard, (prop, [(s, a, d)], 1)))
    for ch in grid.chunks(itertools.chain(grid.wars(tier), grid.wide(tier)), 2):
        out.append((shard, (prop, ch, 1)))
    for scn, count in grid.marathons(tier):
        out.append((marathon, (prop, scn, count)))
    return out
