"""C04: in every reachable state every bet of a dense alphabet is compared with the
legal action it must be rounded to."""
from mc import game, grid, model
from mc.common import Bad, set_scenario, tick
from mc.game import Prune

BOUNDS = {
    "C04": "every state of complete betting trees of 2-4 seat games (no/pot/fixed limit, raise caps, short "
           "stacks) x every whole bet from -3 to stack+3, its quarter and half neighbours, and far outliers, and around every legal amount beyond 2^53; "
           "each compared in chips moved, fold and all later observations of a call-down and a raise-up "
           "continuation with the legal action it must equal; single states of one dealer through 200-366 hands"
}
ASSUMES = {"C04": ["infinite and not-a-number bets, and numbers other than int and float, are outside of the alphabet",
                   "which raises are legal is taken from the offer (judged by C05)"]}


def raw_bets(stack, extra):
    out = []
    for b in range(-3, stack + 4):
        out += [b, b + 0.5, b + 0.25, b - 0.25, float(b)]
    out += [-1000000, -0.5, 10 ** 6, 10 ** 6 + 0.5]
    for e in extra:
        out += [e - 1, e, e + 1, e - 0.5, e + 0.5, e + 0.51, e + 0.49]
        if e > 10 ** 6:
            out += [e - 2, e + 2, float(e), e // 3, 10 * e]
    seen = set()
    res = []
    for b in out:
        k = (b, type(b) is float)
        if k not in seen:
            seen.add(k)
            res.append(b)
    return res


def observe(d, ret, mode):
    """Everything observable after the action: the result and one continuation."""
    keys = [game.ret_key(ret), str(d)]
    obs, payouts, done = ret
    k = 0
    while not all(done) and mode:
        if mode == 1:
            bet = obs["call"]
        else:
            bet = max(obs["call"], obs["min_raise"])
        obs, payouts, done = d.step(bet)
        keys.append(game.ret_key((obs, payouts, done)))
        k += 1
        if k > 400:
            raise Bad("hand does not end")
    return keys


class Bets:
    def __init__(self, raws=None):
        self.raws = raws

    def begin(self, ex, d, pre, obs):
        self.check(ex, d, obs)
        return 0

    def step(self, ex, d, ms, old, op, obs, payouts, done):
        if not all(done):
            self.check(ex, d, obs)
        return ms + 1

    def check(self, ex, d, obs):
        call, lo, hi = obs["call"], obs["min_raise"], obs["max_raise"]
        seat = obs["action"]
        stack = obs["stacks"][seat]
        if not (0 <= call <= stack and 0 <= lo <= hi <= stack):
            raise Prune("offers")
        canon = {}
        span = stack if stack <= 12 else 5
        extra = () if stack <= 12 else {call, lo, hi, (call + lo) // 2, (lo + hi) // 2, stack}
        for raw in raw_bets(span, extra):
            fold, chips = model.normalise(raw, call, lo, hi)
            key = (fold, chips)
            if key not in canon:
                # the legal action itself
                c = game.clone(d)
                r = c.step(-1 if fold else chips)
                self.direct(obs, fold, chips, r, -1 if fold else chips)
                mode = 1 + len(canon) % 2
                canon[key] = (mode, observe(c, r, mode))
            mode, want = canon[key]
            d2 = game.clone(d)
            ret = d2.step(raw)
            ex.st.transitions += 1
            self.direct(obs, fold, chips, ret, raw)
            got = observe(d2, ret, mode)
            if got != want:
                i = [a == b for a, b in zip(got, want)].index(False) if len(got) == len(want) else 0
                raise self.bad(ex, raw, f"bet {raw} with offer (call {call}, raise {lo}-{hi}) is not "
                               f"equivalent to {'folding' if fold else chips}: after {i} further actions "
                               f"{got[i]} instead of {want[i]}")
            ex.st.outcome((call, lo, hi, raw, key))
        ex.st.add("bets_compared", len(canon))

    def bad(self, ex, raw, msg):
        return Bad(msg)

    def direct(self, obs, fold, chips, ret, raw):
        new, payouts, done = ret
        seat = obs["action"]
        call, lo, hi = obs["call"], obs["min_raise"], obs["max_raise"]
        what = f"bet {raw} with offer (call {call}, raise {lo}-{hi})"
        folded = obs["active"][seat] and not new["active"][seat]
        if bool(folded) != fold:
            raise Bad(f"{what}: {'folds' if folded else 'does not fold'}, expected "
                      f"{'a fold' if fold else str(chips) + ' chips'}")
        if not all(done):
            paid = obs["stacks"][seat] - new["stacks"][seat]
            if paid != chips:
                raise Bad(f"{what}: {paid} chips moved, expected {chips}")
            if new["pot"] - obs["pot"] != chips:
                raise Bad(f"{what}: pot grew by {new['pot'] - obs['pot']}, expected {chips}")


def shard(st, scns):
    for scn, alpha, dev in scns:
        game.Explorer(st, scn, Bets(), alpha, deviations=dev, validate=97).run()


def scenarios(tier):
    g = grid.cfg
    out = []
    for stacks in ([5, 5], [3, 6], [7, 4], [2, 2], [9, 9]):
        for b, a in (([1, 2], 0), (0, 1), ([1, 3], [0, 1]), (0, 0), ([3, 1], 0)):
            for rs, nr in (("inf", "inf"), ("pot", "inf"), (2, 2), ("inf", 1), (3, 1)):
                out.append((g(2, 1, b, a, rs, nr, start=9), stacks, 0, "sparse"))
    for stacks in ([4, 4, 4], [1, 5, 3], [6, 2, 4], [3, 0, 5]):
        for b, a in (([1, 2, 0], 0), ([0, 1, 2], [1, 0, 0])):
            for rs, nr in (("inf", "inf"), ("pot", 2), (2, 1)):
                out.append((g(3, 1, b, a, rs, nr, start=6), stacks, 1, "minmax"))
    out += [
        (g(2, 2, [1, 2], 0, ["inf", 2], [2, 1], start=7), [7, 7], 1, "minmax"),
        (g(2, 2, [2, 4], 0, ["pot", "inf"], [1, 1], start=16), [16, 11], 0, "minmax"),
        (g(2, 1, [5, 10], 0, "inf", "inf", start=60), [60, 45], 0, "minmax"),
        (g(2, 1, [4, 8], 3, "pot", "inf", start=90), [90, 90], 1, "minmax"),
        (g(3, 1, [5, 10, 0], 0, 10, 3, start=50), [50, 23, 37], 2, "minmax"),
    ]
    if tier == "thorough":
        for stacks in ([6, 6], [8, 5], [5, 8], [10, 10]):
            for b, a in (([1, 2], 0), (0, 1), ([1, 3], [0, 1]), ([3, 1], 0)):
                for rs, nr in (("inf", "inf"), ("pot", "inf"), ([2, "pot"], [2, 1])):
                    out.append((g(2, 2, b, a, rs, nr, start=10), stacks, 1, "minmax"))
        out += [
            (g(4, 1, [1, 2, 0, 0], 0, "inf", 2, start=6), [6, 4, 5, 2], 2, "minmax"),
            (g(3, 2, [1, 2, 0], 0, "inf", 1, start=6), [5, 4, 6], 0, "minmax"),
        ]
    for c, s, b, alpha in out:
        yield dict(cfg=dict(c, start_stack=max(s)), stacks=s, button=b), alpha, None
    for scn, alpha in grid.huge(tier):
        yield scn, alpha, None if scn["cfg"]["num_players"] == 2 else 3


class Sometimes(Bets):
    """Judges one state of every third hand only."""

    def begin(self, ex, d, pre, obs):
        return 0

    def step(self, ex, d, ms, old, op, obs, payouts, done):
        if ex.hand % 3 == 0 and ms == ex.hand // 3 % 4 and not all(done):
            self.check(ex, d, obs)
        return ms + 1


def marathon(st, scn, count):
    game.marathon(st, scn, Sometimes(), count // 3)


def jobs(prop, tier):
    out = [(shard, (ch,)) for ch in grid.chunks(scenarios(tier), 6)]
    for s, a, d in grid.shipped_scenarios("quick"):
        if s["button"] == 0 and s["cfg"]["num_players"] < 9:
            out.append((shard, ([(s, a if s["cfg"]["num_streets"] < 3 else "minmax",
                                  0 if s["cfg"]["num_streets"] > 2 else None)],)))
    for scn, count in grid.marathons(tier):
        out.append((marathon, (scn, count)))
    return out
