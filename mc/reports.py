"""C30: every observation and step result is complete and true for the hand so far.

The monitor needs no rules of betting: it follows what was bet and what was reported before."""
import itertools

from mc import game, grid
from mc.common import Bad
from mc.dealing import full_deck, name
from mc.hidden import community

BOUNDS = {
    "C30": "complete betting trees of 2-5 seat games over all stack vectors, forced bets, structures and buttons of C01, "
           "amounts beyond 2^53, long raise hands, layouts of up to 50 community and 26 hole cards, shipped and 7-10 seat "
           "games with 1-3 departures, each with a known deck, and 2 hands in a row: entries, types, lengths, chips, cards, "
           "flags, done and payout lists of every deal and step; one dealer through 600-1100 (thorough 4000) hands played in six ways in seven games"
}
ASSUMES = {"C30": ["cards are known by tricking the whole deal"]}
KEYS = {"action", "active", "button", "call", "community_cards", "hole_cards", "max_raise", "min_raise", "pot", "stacks",
        "street_commits"}


def known_deck(cfg, k=0):
    comm = community(cfg)
    cards = sorted(full_deck(cfg))
    cards = cards[1::2] + cards[::2]
    k %= len(cards)
    cards = cards[k:] + cards[:k]
    return cards[:sum(comm) + cfg["num_players"] * cfg["num_hole_cards"]]


class Reports:
    def layout(self, ex):
        cfg = ex.scn["cfg"]
        comm, h, n = community(cfg), cfg["num_hole_cards"], cfg["num_players"]
        t = ex.scn["trick"]
        holes = tuple(tuple(t[comm[0] + i * h:comm[0] + (i + 1) * h]) for i in range(n))
        return n, holes, t[:comm[0]] + t[comm[0] + n * h:], tuple(itertools.accumulate(comm))

    def shape(self, obs, n):
        if type(obs) is not dict or set(obs) != KEYS:
            raise Bad(f"observation has the entries {sorted(obs)}, documented are {sorted(KEYS)}")
        for k in ("action", "button", "call", "max_raise", "min_raise", "pot"):
            if type(obs[k]) is not int:
                raise Bad(f"{k} of the observation is {obs[k]!r}, not a whole number")
        for k, t in (("active", bool), ("stacks", int), ("street_commits", int)):
            if type(obs[k]) is not list or len(obs[k]) != n or any(type(x) is not t for x in obs[k]):
                raise Bad(f"{k} of the observation is {obs[k]!r}, not a list with one {t.__name__} for each of {n} seats")
        for k in ("community_cards", "hole_cards"):
            if type(obs[k]) is not list or any(type(x) is not game.Card for x in obs[k]):
                raise Bad(f"{k} of the observation is {obs[k]!r}, not a list of cards")

    def common(self, ex, obs, pre, over, what):
        n, holes, board, counts = self.layout(ex)
        self.shape(obs, n)
        seen = [name(c) for c in obs["community_cards"]]
        if len(seen) not in (0,) + counts or seen != board[:len(seen)]:
            raise Bad(f"{what}: community cards {seen}, the deck puts {board} on the board in steps {counts}")
        if any(x < 0 for x in obs["stacks"] + obs["street_commits"]) or obs["pot"] < 0:
            raise Bad(f"{what}: negative amounts in {game.obs_key(obs)}")
        offers = obs["call"], obs["min_raise"], obs["max_raise"]
        if over:
            if obs["action"] != -1 or any(offers):
                raise Bad(f"{what}: the hand is over but seat {obs['action']} is to act, offered {offers}")
            if obs["pot"]:
                raise Bad(f"{what}: the hand is over but the pot is reported as {obs['pot']}")
            return
        a = obs["action"]
        if not 0 <= a < n or not obs["active"][a]:
            raise Bad(f"{what}: seat {a} is to act, still in are {obs['active']}")
        if [name(c) for c in obs["hole_cards"]] != list(holes[a]):
            raise Bad(f"{what}: seat {a} is shown {[name(c) for c in obs['hole_cards']]} but holds {list(holes[a])}")
        if not 0 <= obs["call"] <= obs["stacks"][a] or not 0 <= obs["min_raise"] <= obs["max_raise"] <= obs["stacks"][a]:
            raise Bad(f"{what}: seat {a} with {obs['stacks'][a]} chips is offered (call, min raise, max raise) {offers}")
        if obs["pot"] != sum(pre) - sum(obs["stacks"]):
            raise Bad(f"{what}: pot {obs['pot']} reported, {sum(pre) - sum(obs['stacks'])} chips left the stacks")
        for i in range(n):
            if obs["street_commits"][i] > pre[i] - obs["stacks"][i]:
                raise Bad(f"{what}: seat {i} has committed {obs['street_commits'][i]} on the street "
                          f"but only {pre[i] - obs['stacks'][i]} in the hand")

    def begin(self, ex, d, pre, obs):
        self.common(ex, obs, pre, False, "deal")
        if obs["active"] != [x > 0 for x in pre]:
            raise Bad(f"deal: still in are {obs['active']}, the players brought {list(pre)}")
        return tuple(pre)

    def step(self, ex, d, pre, old, op, obs, payouts, done):
        n = len(pre)
        a = old["action"]
        what = f"seat {a} bets {op}"
        for k, v, t in (("payouts", payouts, int), ("done", done, bool)):
            if type(v) is not list or len(v) != n or any(type(x) is not t for x in v):
                raise Bad(f"{what}: {k} is {v!r}, not a list with one {t.__name__} for each of {n} seats")
        over = all(done)
        self.common(ex, obs, pre, over, what)
        fold = op < 0 and old["call"] > 0
        still = [x and not (fold and i == a) for i, x in enumerate(old["active"])]
        if obs["active"] != still:
            raise Bad(f"{what}: still in are {obs['active']}, expected {still}")
        if obs["button"] != old["button"]:
            raise Bad(f"{what}: the button moved from seat {old['button']} to {obs['button']}")
        if old["community_cards"] != obs["community_cards"][:len(old["community_cards"])]:
            raise Bad(f"{what}: community cards {old['community_cards']} became {obs['community_cards']}")
        if not over:
            want = [not x or s == 0 for x, s in zip(obs["active"], obs["stacks"])]
            if done != want:
                raise Bad(f"{what}: done is {done}, expected {want}: folded or without chips, still in are "
                          f"{obs['active']}, stacks {obs['stacks']}")
            c = obs["street_commits"]
            if any(c):
                # the same street: only the commitment of the seat which acted grew, by what it paid
                for i in range(n):
                    if c[i] - old["street_commits"][i] != old["stacks"][i] - obs["stacks"][i]:
                        raise Bad(f"{what}: commitments went from {old['street_commits']} to {c}, stacks from "
                                  f"{old['stacks']} to {obs['stacks']}")
        elif sum(obs["active"]) == 1:
            w = obs["active"].index(True)
            if payouts[w] < 0 or any(p > 0 for i, p in enumerate(payouts) if i != w):
                raise Bad(f"{what}: only seat {w} is left but payouts are {payouts}")
        if over and obs["stacks"] != [x + p for x, p in zip(pre, payouts)]:
            raise Bad(f"{what}: stacks {obs['stacks']} after the hand, brought {list(pre)}, payouts {payouts}")
        return pre


def shard(st, items, hands):
    for scn, alpha, dev in items:
        game.Explorer(st, scn, Reports(), alpha, deviations=dev, hands=hands).run()
        st.add("scenarios")


def marathon(st, scn, count):
    game.marathon(st, dict(scn, trick=known_deck(scn["cfg"], count)), Reports(), count)


def jobs(prop, tier):
    def known(items):
        for i, (s, a, d) in enumerate(items):
            yield dict(s, trick=known_deck(s["cfg"], 7 * i)), a, d

    out = []
    for ch in grid.chunks(known((s, a, None) for s, a in grid.betting(tier)), 60):
        out.append((shard, (ch, 1)))
    for ch in grid.chunks(known(itertools.chain(grid.wars(tier), grid.wide(tier))), 2):
        out.append((shard, (ch, 1)))
    for ch in grid.chunks(known(grid.layouts(tier, (0, 1, 2, 3, 5, 9) if tier == "thorough" else (0, 1, 4, 8))), 40):
        out.append((shard, (ch, 2)))
    for s, a, d in known(grid.shipped_scenarios(tier)):
        out.append((shard, ([(s, a, d)], 2 if d is None else 1)))
    g = grid.cfg
    for c, stacks in ((g(2, 1, [1, 2], 0, start=3), [3, 3]), (g(3, 1, [1, 1, 0], 0, "inf", 1, start=3), [3, 1, 2]),
                      (g(2, 2, [1, 2], [1, 0], 2, 2, hole=2, comm=[1, 2], start=9), [9, 6])):
        for button in range(c["num_players"]):
            out.append((shard, (list(known([(dict(cfg=c, stacks=stacks, button=button), "minmax", 3)])), 3)))
    for scn, count in grid.marathons(tier):
        out.append((marathon, (scn, count)))
    return out
