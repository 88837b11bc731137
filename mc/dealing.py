"""C09: every card is dealt once, from one deck, in the configured numbers."""
import itertools

from mc import game, grid, model
from mc.common import Bad
from mc.game import Prune

BOUNDS = {
    "C09": "hands of 2-10 seats, 1-4 hole cards, community cards on any street (incl. the first, several or "
           "none on later ones), decks of 1-4 suits up to decks exactly used up; complete fold/call/raise/"
           "all-in trees over up to three consecutive hands, tricked and untricked, several shuffles each; layouts of up to "
           "16 (20) uneven streets; one dealer through 600-1100 (thorough 4000) hands played in six ways in seven games"
}
ASSUMES = {"C09": ["whether the rest of the board is shown after everybody but one player folded is left open"]}


def full_deck(cfg):
    ranks = "23456789TJQKA"[-cfg["num_ranks"]:]
    return {r + s for r in ranks for s in "SHDC"[: cfg["num_suits"]]}


SUIT = {"♠": "S", "♥": "H", "♦": "D", "♣": "C"}


def name(card):
    s = str(card)
    return s[0] + SUIT.get(s[1], "?")


class Cards:
    def begin(self, ex, d, pre, obs):
        cfg = ex.scn["cfg"]
        n = cfg["num_players"]
        rules = model.Rules(cfg)
        board = [name(c) for c in obs["community_cards"]]
        holes = [[name(c) for c in h] for h in d.hole_cards]
        if len(board) != rules.community[0]:
            raise Bad(f"{len(board)} community cards on the first street, expected {rules.community[0]}")
        if len(holes) != n or any(len(h) != rules.hole for h in holes):
            raise Bad(f"hole cards {holes}, expected {rules.hole} for each of {n} seats")
        if [name(c) for c in obs["hole_cards"]] != holes[obs["action"]]:
            raise Bad(f"observation shows {[name(c) for c in obs['hole_cards']]} to seat {obs['action']} "
                      f"which holds {holes[obs['action']]}")
        button = (ex.scn.get("button", 0) + ex.hand) % n
        m = model.deal(rules, pre, button)
        self.judge(ex, d, holes, board)
        return (rules, m, holes, board)

    def judge(self, ex, d, holes, board):
        cfg = ex.scn["cfg"]
        rest = [name(c) for c in game.clone(d).deck.draw(100)]
        dealt = board + [c for h in holes for c in h]
        everything = dealt + rest
        if len(set(everything)) != len(everything):
            dup = sorted({c for c in everything if everything.count(c) > 1})
            raise Bad(f"cards {dup} exist twice: board {board}, hole cards {holes}, deck {rest}")
        full = full_deck(cfg)
        if set(everything) != full:
            raise Bad(f"cards {sorted(full ^ set(everything))} are missing or not part of the deck")
        trick = ex.scn.get("trick")
        if trick is not None:
            rules = model.Rules(cfg)
            order = board[: rules.community[0]] + [c for h in holes for c in h] + board[rules.community[0]:]
            k = min(len(trick), len(order))
            if order[:k] != list(trick)[:k]:
                raise Bad(f"tricked deck {trick} dealt as {order}")

    def step(self, ex, d, ms, old, op, obs, payouts, done):
        rules, m, holes, board = ms
        fold = op < 0 and old["call"] > 0
        m2 = model.act(rules, m, fold, 0 if fold else max(0, op))
        new = [name(c) for c in obs["community_cards"]]
        if new[: len(board)] != board:
            raise Bad(f"community cards changed from {board} to {new}")
        if m2.over != all(done):
            raise Prune("over")
        if not m2.over and m2.action != obs["action"]:
            raise Prune("action")
        now = [[name(c) for c in h] for h in d.hole_cards]
        if now != holes:
            raise Bad(f"hole cards changed from {holes} to {now}")
        if m2.over and sum(m2.folded) == rules.n - 1:
            if len(new) > sum(rules.community):
                raise Bad(f"{len(new)} community cards, the game has only {sum(rules.community)}")
        elif len(new) != m2.board:
            raise Bad(f"{len(new)} community cards on street {m2.street}, expected {m2.board}")
        if not m2.over and [name(c) for c in obs["hole_cards"]] != holes[obs["action"]]:
            raise Bad(f"observation shows {[name(c) for c in obs['hole_cards']]} to seat {obs['action']} "
                      f"which holds {holes[obs['action']]}")
        self.judge(ex, d, holes, new)
        return (rules, m2, holes, new)


def shard(st, scns):
    for scn, alpha, dev, hands in scns:
        game.Explorer(st, scn, Cards(), alpha, deviations=dev, hands=hands, validate=199).run()
        st.add("scenarios")


def scenarios(tier):
    g = grid.cfg
    base = [
        # cfg, stacks, trick
        (g(2, 1, [1, 2], 0, suits=1, ranks=2, hole=1, comm=[0], start=4), None),
        (g(2, 2, [1, 2], 0, suits=2, ranks=3, hole=1, comm=[0, 1], cards=2, start=6), None),
        (g(2, 3, [1, 2], 0, suits=2, ranks=4, hole=2, comm=[0, 3, 1], cards=3, start=5), None),
        (g(2, 2, [1, 2], 0, suits=2, ranks=4, hole=2, comm=[2, 2], cards=3, start=5), None),
        (g(2, 4, [1, 2], 0, suits=3, ranks=5, hole=2, comm=[1, 0, 2, 1], cards=2, start=4), None),
        (g(2, 4, [1, 2], 0, suits=4, ranks=13, hole=2, comm=[0, 3, 1, 1], cards=5, start=4), None),
        (g(2, 4, [1, 2], 0, suits=4, ranks=13, hole=4, comm=[0, 3, 1, 1], cards=5, mand=2, start=4), None),
        (g(3, 2, [1, 2, 0], 0, suits=4, ranks=2, hole=2, comm=[0, 2], cards=2, start=4), None),
        (g(3, 3, [1, 2, 0], [0, 1, 0], suits=2, ranks=5, hole=1, comm=[0, 1, 1], cards=2, start=4), None),
        (g(3, 2, 0, 1, 1, 1, suits=4, ranks=13, hole=3, comm=[3, 2], cards=3, start=5), None),
        (g(4, 2, [1, 2, 0, 0], 0, "inf", 1, suits=2, ranks=5, hole=1, comm=[2, 1], cards=1, start=4), None),
        (g(5, 3, [1, 2, 0, 0, 0], 0, 2, 1, suits=4, ranks=6, hole=2, comm=[0, 3, 1], cards=3, start=3), None),
        (g(10, 2, [1, 2] + [0] * 8, 0, "inf", 1, suits=4, ranks=13, hole=4, comm=[0, 5], cards=1, start=5), None),
    ]
    for i, (c, _) in enumerate(base):
        n = c["num_players"]
        need = sum(c["num_community_cards"]) + n * c["num_hole_cards"]
        cards = sorted(full_deck(c))
        k = (7 * i + 3) % len(cards)
        cards = cards[k:] + cards[:k]
        cards = cards[::-1] if i % 2 else cards
        dev = None if n == 2 else (3 if n == 3 else 2 if n < 6 else 1)
        for seed in (1, 2) if tier == "quick" else range(1, 8):
            for hands in (1, 2) if n < 4 else (1,):
                # short stacks give run-outs of the board at every street
                for stacks in ([c["start_stack"]] * n, [max(1, c["start_stack"] - 2 * (j % 2)) for j in range(n)]):
                    for trick in (None, cards[:need], cards[: n * c["num_hole_cards"]], cards):
                        if hands == 2 and (dev is None or trick is cards):
                            d2 = 2
                        elif hands == 2:
                            d2 = min(dev, 2)
                        else:
                            d2 = dev
                        yield dict(cfg=c, stacks=stacks, button=(seed + i) % n, seed=seed, trick=trick), "minmax", d2, hands
    for i, (s, a, d) in enumerate(grid.layouts(tier)):
        k = sum(s["cfg"]["num_community_cards"]) + s["cfg"]["num_players"] * s["cfg"]["num_hole_cards"]
        cards = sorted(full_deck(s["cfg"]))[:: (-1) ** i]
        yield dict(s, seed=i % 5, trick=None), a, d, 1
        yield dict(s, seed=i % 5, trick=cards[:k]), a, d, 1
    for nme, c in grid.shipped():
        n = c["num_players"]
        for seed in (1, 2, 3):
            yield dict(cfg=dict(c), stacks=None, button=seed % n, seed=seed, name=nme), "minmax", (1 if n > 2 else 2), (2 if n == 2 else 1)
            yield dict(cfg=dict(c, start_stack=5), stacks=None, button=seed % n, seed=seed), "minmax", (1 if n > 2 else 2), (2 if n < 9 else 1)


def marathon(st, scn, count):
    game.marathon(st, scn, Cards(), count)


def jobs(prop, tier):
    out = [(shard, (ch,)) for ch in grid.chunks(scenarios(tier), 12)]
    for scn, count in grid.marathons(tier):
        out.append((marathon, (scn, count)))
    return out
