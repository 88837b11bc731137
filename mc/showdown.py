"""C28: who wins a showdown, from the deal to the payout, under every hand-related
option of a dealer; judged by a ranking written from the rules, not by the library's
evaluator."""
import itertools

from mc import game, grid, hands, model
from mc.common import Bad, set_scenario, tick
from mc.dealing import full_deck, name

BOUNDS = {
    "C28": "all deals of decks of 6-10 cards to 2-3 seats and all pairs of the best, worst and middle hands of "
           "every category of 4x13, 4x9, 4x8, 4x6 and 2x8 decks with 3-5 cards, plus a regular family of deals of larger "
           "games (2-6 seats, Hold'em, Omaha, short deck), each with the low straight on and off, by rarity and "
           "by 3-6 custom orders, 0-5 mandatory hole cards (up to the whole hand); called down, all in at once, and with a fold; dealers of one process with orders differing by one swap"
}
ASSUMES = {"C28": ["for categories which occur equally often and without a custom order either may win",
                   "three-suit decks only with a custom order (their rarity order is a known finding of C18)",
                   "odd chips of a split pot as in C02"]}
ORDERS = (
    None,
    ["sf", "fk", "fl", "fh", "st", "tk", "tp", "pa", "hc"],
    ["hc", "pa", "tp", "tk", "st", "fl", "fh", "fk", "sf"],
    ["sf", "fk", "fh", "fl", "tk", "st", "tp", "pa", "hc"],
    ["pa", "st", "hc", "tk", "sf", "fl", "tp", "fk", "fh"],
    ["fl", "tp", "sf", "tk", "hc", "fh", "fk", "pa", "st"],
)


class Ranking:
    """Rank of a hand under the options of a configuration: smaller wins."""

    def __init__(self, cfg):
        self.suits, self.ranks = cfg["num_suits"], cfg["num_ranks"]
        self.k = cfg["num_cards_for_hand"]
        self.mand = cfg["mandatory_num_hole_cards"]
        self.low = cfg.get("low_end_straight", True)
        order = cfg.get("order")
        self.open = frozenset()  # categories whose order is not determined
        if order is None:
            cnt = hands.counts({a: (c, h[:1]) for a, (c, h) in
                                hands.classes(self.suits, self.ranks, self.k, self.low).items()})
            order = sorted(cnt, key=lambda c: cnt[c])
            self.open = frozenset((a, b) for a in cnt for b in cnt if a != b and cnt[a] == cnt[b])
        self.place = {c: i for i, c in enumerate(order)}
        self.memo = {}

    def one(self, cards):
        """cards: texts of exactly one hand."""
        key = frozenset(cards)
        r = self.memo.get(key)
        if r is None:
            ranks = [hands.RANKS.index(c[0]) for c in cards]
            flush = self.k >= 3 and self.suits >= 2 and len({c[1] for c in cards}) == 1
            cat, key2 = hands.classify(ranks, flush, self.ranks, self.low, self.k)
            r = self.memo[key] = (self.place[cat], tuple(-x for x in key2), cat)
        return r

    def best(self, hole, board):
        if self.mand:
            sets = (h + b for h in itertools.combinations(hole, self.mand)
                    for b in itertools.combinations(board, self.k - self.mand))
        else:
            sets = itertools.combinations(tuple(hole) + tuple(board), self.k)
        return min(self.one(s) for s in sets)

    def strengths(self, holes, board, live):
        """Strength of every live seat, or None if the rules do not tell."""
        best = [self.best(h, board) if i in live else None for i, h in enumerate(holes)]
        if self.open:
            # an undetermined pair anywhere among the hands may change who is best
            for i in live:
                if self.mand:
                    sets = (h + b for h in itertools.combinations(holes[i], self.mand)
                            for b in itertools.combinations(board, self.k - self.mand))
                else:
                    sets = itertools.combinations(tuple(holes[i]) + tuple(board), self.k)
                cats = {self.one(s)[2] for s in sets} | {b[2] for b in best if b}
                if any((a, b) in self.open for a in cats for b in cats):
                    return None
        ranks = sorted({b[:2] for b in best if b})
        return [None if b is None else ranks.index(b[:2]) for b in best]


def lines(n):
    """Ways to play a hand which reach a showdown."""
    yield "call", lambda obs, k: obs["call"]
    yield "shove", lambda obs, k: max(obs["call"], obs["max_raise"])
    if n > 2:
        # the second to act folds to a bet
        yield "fold", lambda obs, k: (max(obs["call"], obs["max_raise"]) if k == 0 else -1 if k == 1 and obs["call"] else
                                      obs["call"])


def play(st, proto, scn, rk, how, fn, stacks):
    n = scn["cfg"]["num_players"]
    d = game.clone(proto)
    d.deck.trick([hands.card(c) for c in scn["trick"]])
    pre, obs = game.first_deal(d, scn)
    holes = [tuple(name(c) for c in h) for h in d.hole_cards]
    path = []
    folded = [not a for a in obs["active"]]
    commit = [a - b for a, b in zip(pre, obs["stacks"])]
    done = [False]
    while not all(done):
        if len(path) > 200:
            return
        bet = fn(obs, len(path))
        seat = obs["action"]
        path.append(bet)
        old = obs
        obs, payouts, done = d.step(bet)
        st.transitions += 1
        if bet < 0:
            folded[seat] = True
        else:
            commit[seat] += bet
    st.states += 1
    live = [i for i in range(n) if not folded[i]]
    if len(live) < 2 or folded != [not a for a in obs["active"]]:
        return  # judged by other properties
    board = tuple(name(c) for c in obs["community_cards"])
    strength = rk.strengths(holes, board, live)
    if strength is None:
        st.add("undetermined")
        return
    got = [p + c for p, c in zip(payouts, commit)]
    button = scn.get("button", 0)
    for merge in (True, False):
        want = model.divide(commit, folded, strength, button, merge)
        if got == want:
            break
    else:
        # who gets how much of a pot is C02; here only the right players win
        best = {i for i in live if strength[i] == min(strength[j] for j in live)}
        raise Bad(
            f"{how}: hole cards {[' '.join(h) for h in holes]}, board {' '.join(board)}, committed {commit}, "
            f"folded {[int(f) for f in folded]}: best are seats {sorted(best)} "
            f"({[rk.best(holes[i], board)[2] for i in live]}), players get back {got}, expected {want}",
            {"kind": "game", "scn": scn, "path": path, "hands": 1})
    st.add("showdowns")
    st.outcome((tuple(strength), how))
    if st.extra["showdowns"] % 499 == 1:
        d2 = game.make_dealer(scn)
        game.first_deal(d2, scn)
        for b in path:
            r = d2.step(b)
        if list(r[1]) == list(payouts):
            st.traces += 1
    st.sample({"holes": holes, "board": board, "strengths": strength, "line": how}, 2)


def run(st, cfg, tricks, button, ways):
    rk = Ranking(cfg)
    proto = game.make_dealer(dict(cfg=cfg))
    n = cfg["num_players"]
    for k, trick in enumerate(tricks):
        tick()
        scn = dict(cfg=cfg, trick=trick, button=(button + k) % n)
        for how, fn in lines(n):
            if how in ways:
                set_scenario({"kind": "game", "scn": scn, "path": [how], "hands": 1})
                play(st, proto, scn, rk, how, fn, None)


def layout(cfg):
    """Sizes of the groups of cards in the order they are dealt."""
    comm = cfg["num_community_cards"]
    if not isinstance(comm, list):
        comm = [comm] * cfg["num_streets"]
    return [comm[0]] + [cfg["num_hole_cards"]] * cfg["num_players"] + [c for c in comm[1:]]


def all_deals(cfg, fixed=None):
    """Every deal; the order within a hand or a street does not matter."""
    sizes = layout(cfg)

    def rec(rest, k):
        if k == len(sizes):
            yield []
            return
        for pick in itertools.combinations(rest, sizes[k]):
            if fixed is not None and k == 1 and fixed not in pick and sizes[1]:
                continue
            left = [c for c in rest if c not in pick]
            for more in rec(left, k + 1):
                yield list(pick) + more

    return rec(sorted(full_deck(cfg)), 0)


def complete(st, cfg, part, parts):
    run(st, cfg, itertools.islice(all_deals(cfg), part, None, parts), 0, ("call",) if part % 2 else ("call", "fold"))


def pairs(st, cfg, part, parts):
    """Best, middle and worst hands of every category against each other, all cards in
    the hole."""
    k = cfg["num_cards_for_hand"]
    cls = hands.classes(cfg["num_suits"], cfg["num_ranks"], k, cfg.get("low_end_straight", True))
    cats = {}
    for (cat, key), (_, reps) in cls.items():
        cats.setdefault(cat, []).append((key, reps))
    reps = []
    for cat, l in sorted(cats.items()):
        l.sort(key=lambda x: x[0])
        for i in sorted({0, 1, len(l) // 2, len(l) - 2, len(l) - 1}):
            if 0 <= i < len(l):
                reps.append(l[i][1])
    # ace to the lowest cards: straight, flush or nothing by the option
    lows = hands.RANKS[13 - cfg["num_ranks"]:][: k - 1]
    s = hands.SUITS[: cfg["num_suits"]]
    wheel = [r + s[i % len(s)] for i, r in enumerate("A" + lows)]
    if len(set(wheel)) == k:
        reps.append([wheel, [r + s[(i + 1) % len(s)] for i, r in enumerate("A" + lows)]])
    tricks = []
    for x, y in itertools.product(reps, repeat=2):
        for a, b in itertools.product(x, y):
            if not set(a) & set(b):
                tricks.append(list(a) + list(b))
                break
    run(st, cfg, tricks[part::parts], part, ("shove",))


def neighbours(st, cfg):
    """Dealers of one process whose options differ in little: two categories of the order
    swapped, the low straight, the number of mandatory cards."""
    k = cfg["num_cards_for_hand"]
    base = ORDERS[1] if cfg["num_suits"] == 3 else ["sf", "fk", "fh", "fl", "st", "tk", "tp", "pa", "hc"]
    orders = [base] + [base[:i] + [base[i + 1], base[i]] + base[i + 2:] for i in range(8)] + [base[:]]
    orders += [base[8:] + base[:8]] + [base[i:] + base[:i] for i in (1, 4)]
    rep = {}
    for low in (True, False):
        for (cat, key), (_, r) in sorted(hands.classes(cfg["num_suits"], cfg["num_ranks"], k, low).items()):
            rep.setdefault((cat, low), r)
    rep = list(rep.values())
    tricks = []
    for x, y in itertools.product(rep, repeat=2):
        for a, b in itertools.product(x, y):
            if not set(a) & set(b):
                if (t := list(a) + list(b)) not in tricks:
                    tricks.append(t)
                break
    for mand in (0, k):
        for o in orders:
            for low in (True, False):
                run(st, dict(cfg, low_end_straight=low, order=list(o), mandatory_num_hole_cards=mand), tricks, 0, ("shove",))
    st.traces += 1


def family(st, cfg, part, parts, count):
    """Decks read with a stride from every start."""
    cards = sorted(full_deck(cfg), key=lambda c: (hands.RANKS.index(c[0]), c[1]))
    size = len(cards)
    need = sum(layout(cfg))
    tricks = []
    from math import gcd
    for stride in range(1, size):
        if gcd(stride, size) > 1:
            continue
        for start in range(size):
            tricks.append([cards[(start + i * stride) % size] for i in range(need)])
    tricks = tricks[:: max(1, len(tricks) // count)]
    run(st, cfg, tricks[part::parts], part, ("call", "shove", "fold"))


def jobs(prop, tier):
    T = tier == "thorough"
    g = grid.cfg
    out = []

    def options(c, orders):
        for low in (True, False):
            for o in orders:
                if o is None and c["num_suits"] == 3:
                    continue
                yield dict(c, low_end_straight=low, order=o)
                if low and o is None:
                    yield c  # neither option given

    pick = range(6) if T else (0, 1, 4)
    small = [
        (g(2, 2, [1, 2], 0, "inf", 1, suits=2, ranks=4, hole=2, comm=[0, 1], cards=3, start=9), pick),
        (g(2, 1, [1, 2], 0, "inf", 1, suits=2, ranks=4, hole=3, comm=[0], cards=3, start=9), pick),
        (g(2, 1, [1, 2], 0, "inf", 1, suits=2, ranks=3, hole=1, comm=[2], cards=3, start=9), pick),
        (g(2, 2, [1, 2], 0, "pot", 1, suits=2, ranks=4, hole=2, comm=[1, 1], cards=3, mand=1, start=9), (0, 2)),
        (g(2, 2, [1, 2], 0, 2, 1, suits=2, ranks=4, hole=2, comm=[0, 1], cards=3, mand=2, start=9), (0, 3)),
        (g(2, 2, [1, 2], 0, "inf", 1, suits=2, ranks=3, hole=2, comm=[0, 2], cards=2, mand=2, start=9), (0, 2)),
        (g(2, 2, [1, 2], 0, "inf", 1, suits=2, ranks=4, hole=3, comm=[1, 1], cards=3, mand=3, start=9), (0, 4)),
        (g(2, 1, [1, 2], 0, "inf", 1, suits=2, ranks=4, hole=2, comm=[2], cards=1, mand=1, start=9), (0, 2)),
        (g(2, 1, [1, 2], 0, "inf", 1, suits=2, ranks=5, hole=4, comm=[0], cards=4, start=9), (0, 5)),
        (g(3, 1, [1, 2, 0], 0, "inf", 1, suits=4, ranks=2, hole=2, comm=[0], cards=2, start=9), (0, 2)),
        (g(3, 1, [1, 2, 0], 0, "inf", 1, suits=3, ranks=3, hole=1, comm=[1], cards=2, start=9), (1, 2)),
        (g(3, 2, [1, 2, 0], 1, "inf", 1, suits=1, ranks=7, hole=1, comm=[0, 2], cards=3, start=9), (0, 4)),
        (g(3, 1, 0, 1, "inf", 1, suits=2, ranks=4, hole=1, comm=[0], cards=1, start=9), (0, 2)),
    ]
    for c, which in small:
        for o in options(c, [ORDERS[i] for i in which]):
            parts = 2
            for p in range(parts):
                out.append((complete, (o, p, parts)))
    for suits, ranks, k in ((4, 13, 5), (4, 9, 5), (4, 8, 4), (2, 8, 3), (4, 6, 5), (3, 8, 5)):
        c = g(2, 1, [1, 2], 0, "inf", "inf", suits=suits, ranks=ranks, hole=k, comm=[0], cards=k, start=20)
        for o in options(c, [ORDERS[i] for i in pick]):
            out.append((pairs, (o, 0, 1)))
        out.append((neighbours, (c,)))
    count = 3000 if T else 250
    for c, which in (
        (g(2, 4, [1, 2], 0, hole=2, comm=[0, 3, 1, 1], cards=5, start=30), range(6)),
        (g(4, 2, [1, 2, 0, 0], 0, hole=2, comm=[3, 2], cards=5, start=30), (0, 1)),
        (g(3, 3, [1, 2, 0], 0, "pot", hole=4, comm=[3, 1, 1], cards=5, mand=2, start=30), (0, 2, 4)),
        (g(2, 2, [1, 2], 0, hole=3, comm=[3, 1], cards=5, mand=3, start=30), (0, 4)),
        (g(2, 2, [1, 2], 0, hole=6, comm=[3, 1], cards=5, mand=5, start=30), (0, 3)),
        (g(3, 2, [1, 2, 0], 0, hole=5, comm=[3, 1], cards=5, mand=4, start=30), (0,)),
        (g(3, 2, [1, 2, 0], 0, hole=4, comm=[1, 1], cards=4, mand=4, start=30), (0, 5)),
        (g(3, 2, [1, 2, 0], 0, hole=3, comm=[3, 1], cards=4, mand=1, start=30), (0, 1)),
        (g(6, 2, [1, 2, 0, 0, 0, 0], 0, ranks=9, hole=2, comm=[3, 2], cards=5, start=30), (1, 0)),
        (g(3, 2, [1, 2, 0], 0, ranks=5, hole=2, comm=[3, 1], cards=5, start=30), (0, 3)),
        (g(2, 2, [1, 2], 0, suits=2, ranks=8, hole=3, comm=[2, 2], cards=4, start=30), (0, 5)),
        (g(3, 2, [1, 2, 0], 0, suits=3, ranks=7, hole=2, comm=[2, 2], cards=5, start=30), (1, 2)),
        (g(2, 2, [1, 2], 0, suits=1, ranks=13, hole=3, comm=[2, 2], cards=5, start=30), (0, 4)),
    ):
        for o in options(c, [ORDERS[i] for i in which]):
            out.append((family, (o, 0, 1, count)))
    return out
