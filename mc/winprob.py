"""C13: win probabilities are exact shares over all completions of the board."""
import itertools
import random
from fractions import Fraction

from mc import game, grid
from mc.common import Bad, set_scenario, tick

BOUNDS = {
    "C13": "all deals (hole cards and first board) of decks of 4-8 cards with 2-3 seats, and spread-out deals of "
           "larger decks incl. Hold'em flops/turns/rivers, Omaha hands and three to six seats, five to ten seats with any one or nearly all of them folded, and boards with up to 270725 (thorough 1.7 million) completions; at every state of a "
           "fold/call/all-in tree; dealers through 60-700 (thorough 480-1500) hands, alone and in turn with dealers of other rules, asked always and sometimes"
}
ASSUMES = {"C13": ["the ranking of hands is taken from the library's evaluator (judged by C16-C18)"]}


def reference(d, cfg, holes, board, live):
    """Independent enumeration of all boards."""
    total = sum(cfg["num_community_cards"])
    used = {int(c) for c in board} | {int(c) for h in holes for c in h}
    rest = [c for c in d.deck.full_deck if int(c) not in used]
    ev = d.evaluator
    wins = [0] * len(holes)
    k = total - len(board)
    boards = 0
    for extra in itertools.combinations(rest, k):
        full = list(board) + list(extra)
        strength = {i: ev.evaluate(list(holes[i]), full) for i in live}
        best = min(strength.values())
        for i in live:
            if strength[i] == best:
                wins[i] += 1
        boards += 1
    s = sum(wins)
    return [w / s for w in wins], boards


class Probs:
    """Checked at every state of the explored tree."""

    def __init__(self, cache):
        self.cache = cache

    def begin(self, ex, d, pre, obs):
        self.holes = [list(h) for h in d.hole_cards]
        self.check(ex, d, obs)
        return 0

    def step(self, ex, d, ms, old, op, obs, payouts, done):
        self.check(ex, d, obs)
        return 0

    def check(self, ex, d, obs):
        cfg = ex.scn["cfg"]
        holes = self.holes
        live = [i for i, a in enumerate(obs["active"]) if a]
        board = list(obs["community_cards"])
        key = (tuple(live), tuple(map(int, board)), tuple(tuple(map(int, h)) for h in holes))
        if key not in self.cache:
            self.cache[key] = reference(d, cfg, holes, board, live)
        want, boards = self.cache[key]
        text = str(d)
        deck = [int(c) for c in d.deck.cards]
        source = random.getstate()
        got = d.win_probabilities()
        ex.st.transitions += 1
        ex.st.add("boards_enumerated", boards)
        if len(got) != len(want) or any(abs(a - b) > 1e-9 for a, b in zip(got, want)):
            raise Bad(f"win probabilities {got}, exact {want} (hole cards {[[str(c) for c in h] for h in holes]}, "
                      f"board {[str(c) for c in board]}, in the hand {live})")
        if str(d) != text or [int(c) for c in d.deck.cards] != deck or random.getstate() != source:
            raise Bad("computing win probabilities changed the table, the deck or the random source")
        ex.st.outcome(tuple(got))
        ex.st.sample({"board": [str(c) for c in board], "live": live, "probabilities": got}, 3)


def tiny(st, cfg, firsts, alpha, dev):
    """All deals of a small deck whose first cards are in `firsts`."""
    from mc.dealing import full_deck
    cards = sorted(full_deck(cfg))
    n, h = cfg["num_players"], cfg["num_hole_cards"]
    first = cfg["num_community_cards"][0]
    need = first + n * h
    for f in firsts:
        rest = [c for c in cards if c != f]
        for deal in itertools.permutations(rest, need - 1):
            trick = [f] + list(deal)
            # hands are sets: one order per hand is enough
            hs = [trick[first + i * h: first + (i + 1) * h] for i in range(n)]
            if any(x != sorted(x) for x in hs) or trick[:first] != sorted(trick[:first]):
                continue
            tick()
            scn = dict(cfg=cfg, stacks=None, button=0, trick=trick)
            game.Explorer(st, scn, Probs({}), alpha, deviations=dev, validate=1999).run()


def deals(st, scns):
    for scn, alpha, dev in scns:
        game.Explorer(st, scn, Probs({}), alpha, deviations=dev, validate=1999).run()


class Table:
    def __init__(self, st, cfg):
        self.st, self.scn = st, {"cfg": cfg}


def lives(st, cfgs, hands, every, ways):
    """Dealers taking turns, each through many hands which differ in the cards only; asked at
    every state, at a few states of some hands (every > 1) or at one state of each hand (every = 0)."""
    ds = [game.Dealer(**c) for c in cfgs]
    ms = [Probs({}) for _ in cfgs]
    caches = {}
    for k in range(hands):
        for i, (c, d, m) in enumerate(zip(cfgs, ds, ms)):
            tick()
            way = ways[k // 2 % len(ways)]
            scn = {"kind": "lives", "cfgs": cfgs, "hand": k, "dealer": i, "bets": way, "asked": every}
            set_scenario(scn)
            st.states += 1
            # cards repeat with another betting now and then, and so does the betting with other cards
            obs = game.deal(d, {"seed": 3}, k % 23 + 1, reset_stacks=True, reset_button=k % 4 != 3)
            m.holes = [list(h) for h in d.hole_cards]
            m.cache = caches.setdefault(i, {}) if k % 5 else {}
            ex = Table(st, c)
            done = False
            for s, b in enumerate(itertools.chain(way, itertools.repeat("call"))):
                if (k * 3 + s) % every == 0 if every else s == k // 6 % 4:
                    m.check(ex, d, obs)
                if done:
                    break
                bet = {"call": obs["call"], "fold": -1, "raise": max(obs["call"], obs["min_raise"])}[b]
                obs, _, dn = d.step(bet)
                done = all(dn)
            st.traces += 1


def jobs(prop, tier):
    g = grid.cfg
    from mc.dealing import full_deck
    out = []
    T = tier == "thorough"
    for c in (
        g(2, 2, [1, 2], 0, "inf", 1, suits=2, ranks=3, hole=1, comm=[0, 1], cards=2, start=6),
        g(2, 2, [1, 2], 0, "inf", 1, suits=2, ranks=3, hole=1, comm=[0, 2], cards=2, start=6),
        g(2, 3, [1, 2], 0, "inf", 1, suits=2, ranks=4, hole=1, comm=[0, 1, 1], cards=3, start=6),
        g(2, 2, [1, 2], 0, "inf", 1, suits=4, ranks=2, hole=1, comm=[1, 1], cards=2, start=6),
        g(3, 2, [1, 2, 0], 0, "inf", 1, suits=2, ranks=3, hole=1, comm=[0, 1], cards=1, start=6),
        g(2, 2, [1, 2], 0, "inf", 1, suits=2, ranks=4, hole=2, comm=[0, 2], cards=3, mand=1, start=6),
        g(2, 1, [1, 2], 0, "inf", 1, suits=1, ranks=4, hole=1, comm=[0], cards=1, start=6),
    ):
        for f in sorted(full_deck(c)):
            out.append((tiny, (c, [f], "minmax", 1 if c["num_players"] == 2 else 2)))
    for name, c in grid.shipped():
        n = c["num_players"]
        cc = dict(c)
        if not isinstance(cc["num_community_cards"], list):
            cc["num_community_cards"] = [cc["num_community_cards"]] * cc["num_streets"]
        big = cc["num_streets"] == 4
        for seed in range(1, (3 if n == 2 else 2) if not T else 8):
            if big:
                # start on the flop: all boards of two more cards
                cc2 = dict(cc, num_community_cards=[3, 1, 1], num_streets=3, raise_sizes="inf", num_raises="inf")
                if cc["mandatory_num_hole_cards"] and n > 2 and not T:
                    cc2 = dict(cc2, num_community_cards=[4, 1], num_streets=2)
            else:
                cc2 = cc
            out.append((deals, ([(dict(cfg=cc2, stacks=None, button=0, seed=seed), "minmax", 1 if n == 2 else 0)],)))
    # boards of many cards: more than 200000 completions
    for c in (
        g(2, 2, [1, 2], 0, "inf", 1, hole=1, comm=[0, 4], cards=1),
        g(2, 3, [1, 2], 0, "inf", 1, hole=2, comm=[0, 3, 1], cards=2 if not T else 5),
    ):
        out.append((deals, ([(dict(cfg=c, stacks=None, button=0, seed=3), "minmax", 0)],)))
    if T:
        c = g(2, 2, [1, 2], 0, "inf", 1, hole=2, comm=[0, 5], cards=5)
        out.append((deals, ([(dict(cfg=c, stacks=None, button=0, seed=5), "minmax", 0)],)))
    # many hands of one dealer, several dealers at once with the same cards but other rules
    ways = (["call"], ["raise", "call"], ["fold"], ["call", "fold"], ["raise", "raise", "fold"], ["call", "raise", "call"])
    low = g(2, 3, [1, 2], 0, "inf", "inf", suits=2, ranks=5, hole=1, comm=[0, 1, 2], cards=3, start=60)
    orders = [dict(low, order=o, low_end_straight=x) for o, x in (
        (None, True), (None, False), (["hc", "pa", "tp", "tk", "st", "fl", "fh", "fk", "sf"], True),
        (["pa", "st", "hc", "tk", "sf", "fl", "tp", "fk", "fh"], False))]
    mand = [g(3, 2, [1, 2, 0], 0, "inf", "inf", suits=4, ranks=3, hole=2, comm=[1, 2], cards=3, mand=x, start=60) for x in (0, 1, 2)]
    for cfgs in ([low], orders, mand, [dict(low, raise_sizes="pot"), low, dict(low, num_community_cards=[1, 2, 0])],
                 [g(6, 2, 0, 1, "inf", "inf", suits=2, ranks=5, hole=1, comm=[0, 2], cards=2, start=60)]):
        for every in (1, 5, 0):
            out.append((lives, (cfgs, (60 if len(cfgs) > 1 else 150) * (8 if T else 1), every, ways)))
    out.append((lives, ([g(2, 2, 0, 1, "inf", "inf", suits=2, ranks=3, hole=1, comm=[0, 1], cards=1, start=60)], 1500 if T else 700, 1, ways)))
    # larger boards and hands than five cards, hands of all sizes
    for i, (ranks, suits, hole, comm, cards, mand) in enumerate((
        (4, 4, 1, [0, 6], 5, 0), (5, 3, 2, [2, 5], 5, 0), (6, 2, 1, [0, 8], 4, 0), (4, 3, 1, [3, 4], 5, 1), (3, 4, 1, [0, 10], 3, 0),
        (4, 3, 5, [0, 1], 3, 2), (5, 2, 4, [0, 2], 5, 0), (13, 1, 3, [0, 0, 5], 2, 1), (2, 4, 2, [1, 0, 2], 1, 0),
        (5, 4, 2, [0, 7, 2], 4, 2), (6, 3, 6, [1, 1], 5, 4), (13, 4, 20, [0, 2], 2, 0),
    )):
        for rot in range(2 if not T else 6):
            c = g(2, len(comm), [1, 2], 0, "inf", 1, suits=suits, ranks=ranks, hole=hole, comm=comm, cards=cards, mand=mand, start=6)
            out.append((deals, ([(dict(cfg=c, stacks=None, button=rot % 2, seed=i + 10 * rot), "minmax", 0)],)))
    # many seats, with any one or two of them folded and with only a few left
    for n in range(5, 11):
        for seed in (1, 2) if not T else range(1, 9):
            for alpha, dev in (("minmax", 1 + T), ("drop", 2 + T)):
                c = g(n, 2, [1, 2] + [0] * (n - 2), 0, "inf", 1, hole=1, comm=[0, 1], cards=1 + seed % 2, start=6)
                out.append((deals, ([(dict(cfg=c, stacks=None, button=seed % n, seed=seed), alpha, dev)],)))
    # three seats with folds at every street, small hold'em
    for seed in range(1, 5 if not T else 30):
        c = g(3, 3, [1, 2, 0], 0, "inf", 1, suits=4, ranks=5, hole=2, comm=[0, 2, 1], cards=4, start=6)
        out.append((deals, ([(dict(cfg=c, stacks=None, button=seed % 3, seed=seed), "minmax", 2)],)))
        c = g(4, 2, [1, 2, 0, 0], 0, "inf", 1, suits=3, ranks=6, hole=2, comm=[1, 2], cards=3, mand=2, start=6)
        out.append((deals, ([(dict(cfg=c, stacks=[6, 6, 0, 3], button=seed % 4, seed=seed), "minmax", 2)],)))
    return out
