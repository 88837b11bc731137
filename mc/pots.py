"""C02: division of the pot for every commitment vector, fold pattern, strength order
and button, plus every showdown of the betting trees."""
import itertools

from mc import game, grid, model, monitors
from mc.common import Bad, set_scenario, tick
from mc.game import Prune

BOUNDS = {
    "C02": "all commitment vectors over {0,1,3}+1 (2-3 seats also 0..4) x all fold patterns leaving two "
           "or more players x all weak orders of hand strength x all buttons for 2-4 seats; 5-6 seats "
           "with all-in ladders and selected orders; 5-10 seats, each in turn having put in most, all fold patterns, selected orders; commitments beyond 2^53; boards which play for everybody up to 9 seats; "
           "every showdown of the complete betting trees of small games with real cards; one dealer through 600-1100 (thorough 4000) hands played in six ways in seven games"
}
ASSUMES = {"C02": ["the ranking of the hands themselves is judged by C16-C18",
                   "for chips only folded players committed beyond everybody else the rules leave open "
                   "whether their odd chip is split together with the pot; both are accepted"]}
R = "AKQJT98765432"
S = "SHDC"


def weak_orders(n):
    for s in itertools.product(range(n), repeat=n):
        if sorted(set(s)) == list(range(len(set(s)))):
            yield s


def card_deck(strength):
    used = {}
    deck = []
    for s in strength:
        k = used.get(s, 0)
        used[s] = k + 1
        if k > 3:
            return None
        deck.append(R[s] + S[k])
    return deck


def judge(commit, folded, strength, button, payouts, scn, path):
    want = model.divide(commit, folded, strength, button)
    got = [p + c for p, c in zip(payouts, commit)]
    if got != want and got != model.divide(commit, folded, strength, button, merge_dead=False):
        raise Bad(
            f"committed {list(commit)}, folded {[int(f) for f in folded]}, strength order "
            f"{list(strength)} (0 best), button {button}: players get back {got}, expected {want}",
            {"kind": "game", "scn": scn, "path": path, "hands": 1},
        )


def divide_shard(st, n, antes_list, orders, buttons):
    """Commitments by antes; the first player bets one chip, the others call or fold."""
    for antes in antes_list:
        cfg = grid.cfg(n, 1, 0, list(antes), start=max(antes) + 16)
        proto = game.make_dealer(dict(cfg=cfg))
        for order in orders:
            deck = card_deck(order)
            if deck is None:
                continue
            for button in buttons:
                tick()
                scn = dict(cfg=cfg, trick=deck, button=button)
                set_scenario({"kind": "game", "scn": scn, "path": [], "hands": 1})
                d = game.clone(proto)
                d.deck.trick([game.Card(c) for c in deck])
                pre, obs = game.first_deal(d, scn)
                if any(s <= 0 for s in obs["stacks"]):
                    continue
                commit = [a - b for a, b in zip(pre, obs["stacks"])]
                fan(st, n, d, obs, commit, [False] * n, None, order, button, scn, [])


def fan(st, n, d, obs, commit, folded, bettor, order, button, scn, path):
    seat = obs["action"]
    if bettor is None:
        choices = (("bet", 1),)
    elif n - sum(folded) > 2:
        choices = (("call", obs["call"]), ("fold", -1))
    else:
        choices = (("call", obs["call"]),)
    for i, (what, bet) in enumerate(choices):
        d2 = d if i == len(choices) - 1 else game.clone(d)
        o2, payouts, done = d2.step(bet)
        st.transitions += 1
        st.states += 1
        c2, f2, p2 = list(commit), list(folded), path + [bet]
        if what == "fold":
            f2[seat] = True
        else:
            c2[seat] += bet
        if all(done):
            judge(c2, f2, order, button, payouts, scn, p2)
            st.add("showdowns")
            st.outcome((tuple(c2), tuple(f2), tuple(payouts)))
            if st.extra["showdowns"] % 997 == 1:
                d3 = game.make_dealer(scn)
                game.first_deal(d3, scn)
                for b in p2:
                    r = d3.step(b)
                if list(r[1]) == list(payouts):
                    st.traces += 1
                else:
                    st.add("clone_divergence")
            st.sample({"commit": c2, "folded": f2, "strength": order, "button": button,
                       "payouts": payouts}, 3)
        else:
            fan(st, n, d2, o2, c2, f2, seat if bettor is None else bettor, order, button, scn, p2)


class Showdowns:
    """Every showdown reached by betting; strengths from the library's evaluator."""

    def __init__(self):
        self.base = monitors.Modelled({"none"}, {"none"})

    def begin(self, ex, d, pre, obs):
        self.holes = [list(h) for h in d.hole_cards]
        return self.base.begin(ex, d, pre, obs)

    def step(self, ex, d, m, old, op, obs, payouts, done):
        rules = self.base._rules(ex)
        fold = op < 0 and old["call"] > 0
        m2 = model.act(rules, m, fold, 0 if fold else max(0, op))
        if not m2.over:
            self.base.compare(rules, m2, obs, done, frozenset(), "")
            return m2
        if not all(done):
            raise Prune("over")
        if sum(not f for f in m2.folded) > 1:
            ev = d.evaluator
            strength = [None if f else ev.evaluate(h, list(obs["community_cards"]))
                        for f, h in zip(m2.folded, self.holes)]
            n = len(m2.commit)
            for merge in (True, False):
                back = model.divide(m2.commit, m2.folded, strength, m2.button, merge)
                want = [b - c for b, c in zip(back, m2.commit)]
                if list(payouts) == want:
                    break
            else:
                want = [b - c for b, c in zip(
                    model.divide(m2.commit, m2.folded, strength, m2.button), m2.commit)]
                raise Bad(f"showdown: committed {list(m2.commit)}, folded {[int(f) for f in m2.folded]}, "
                          f"strengths {strength}, button {m2.button}: payouts {list(payouts)}, expected {want}")
            for i in range(n):
                if obs["stacks"][i] != m2.stacks[i] + back[i]:
                    raise Bad(f"stack of seat {i} after the showdown is {obs['stacks'][i]}, expected "
                              f"{m2.stacks[i] + back[i]}")
            ex.st.add("showdowns")
        return m2


def trees(st, scns):
    for scn, alpha, dev in scns:
        game.Explorer(st, scn, Showdowns(), alpha, deviations=dev).run()


def ladder_scenarios(tier):
    """All-in ladders for many seats, real cards, several buttons and deals."""
    for n, stacks in (
        (4, [1, 2, 3, 4]), (4, [5, 5, 2, 1]), (5, [1, 2, 3, 4, 5]), (5, [7, 2, 2, 5, 1]),
        (6, [3, 1, 4, 1, 5, 9]), (6, [2, 7, 1, 8, 2, 8]), (9, [1, 2, 3, 4, 5, 6, 7, 8, 9]),
    ):
        for seed in range(1, 7 if tier == "quick" else 30):
            for button in range(n):
                for cards, hole, comm in ((1, 1, [0]), (2, 1, [1]), (1, 1, [1])):
                    ranks = 13 if seed % 2 else (4 if n < 9 else 6)
                    yield dict(
                        cfg=grid.cfg(n, 1, [1, 2] + [0] * (n - 2), 0, cards=cards, hole=hole,
                                     comm=comm, ranks=ranks, start=max(stacks)),
                        stacks=stacks, button=button, seed=seed,
                    ), shove_or_fold, None


def shove_or_fold(obs):
    """All-in or (sometimes) fold: keeps the tree of many seats small."""
    top = max(obs["max_raise"], obs["call"])
    if obs["call"] > 0 and obs["action"] % 2:
        return [top, -1]
    return [top]


def board_scenarios(tier):
    """Boards which play for everybody: many-way splits with odd chips."""
    for n in (3, 5, 6, 7, 9, 10):
        board = ["AS", "AH", "AD"]
        deck = [None]
        for button in range(n):
            holes = [R[1 + i // 4] + S[i % 4] for i in range(n)]
            for antes in ([0, 1] + [0] * (n - 2), [1] * n, [2, 0, 1] + [0] * (n - 3),
                          [i % 3 for i in range(n)]):
                yield dict(
                    cfg=grid.cfg(n, 1, 0, antes, cards=1, hole=1, comm=[1], start=30),
                    stacks=None, button=button, trick=["AS"] + holes,
                ), "call1", None


def marathon(st, scn, count):
    game.marathon(st, scn, Showdowns(), count)


def jobs(prop, tier):
    out = []
    for n in (2, 3):
        orders = list(weak_orders(n))
        vals = range(0, 5) if n == 2 else (range(0, 4) if tier == "quick" else range(0, 5))
        for ch in grid.chunks(itertools.product(vals, repeat=n), 16):
            out.append((divide_shard, (n, ch, orders, list(range(n)))))
    orders = list(weak_orders(4))
    vals = (0, 1, 3) if tier == "quick" else (0, 1, 2, 4)
    vecs = list(itertools.product(vals, repeat=4))
    for ch in grid.chunks(vecs, 2):
        out.append((divide_shard, (4, ch, orders, [0, 1, 2, 3] if tier != "quick" else [0, 3])))
    orders5 = [o for o in weak_orders(5) if card_deck(o)]
    pick = orders5[:: 40 if tier == "quick" else 5]
    for vec in ((0, 1, 2, 3, 4), (3, 3, 0, 1, 7), (0, 5, 5, 2, 1), (4, 0, 0, 4, 1)):
        out.append((divide_shard, (5, [vec], pick, list(range(5)))))
    # many seats: every seat has put in far more than the others, every way to fold
    T = tier == "thorough"
    for n in range(5, 11):
        some = [tuple((i * a + b) % m for i in range(n)) for a, b, m in ((1, 0, 3), (5, 2, 4), (0, 0, 1), (3, 1, n), (2, 1, 2))]
        for top in range(n):
            vec = [(i * 3 + top) % 5 for i in range(n)]
            vec[top] = 11
            if n % 2 and top % 3 == 0:
                vec[(top + 2) % n] = 7
            mine = [o for i, o in enumerate(some) if (T or (i + top + n) % 5 < 2) and card_deck(o)]
            out.append((divide_shard, (n, [tuple(vec)], mine, list(range(n)) if T and n < 9 else [top, (top + n // 2 + 1) % n])))
    K = grid.K
    big = [tuple(x * K + j for j, x in enumerate(v)) for v in itertools.product((0, 1, 2), repeat=3)]
    for ch in grid.chunks(big, 3):
        out.append((divide_shard, (3, ch, list(weak_orders(3)), [0, 1, 2])))
    out.append((divide_shard, (4, [(K, 3 * K, 2 * K + 1, K + 2)], orders[::2], [0, 3])))
    for ch in grid.chunks(((s, a, None) for s, a in grid.betting("quick") if s["cfg"]["num_players"] > 2), 60):
        out.append((trees, (ch,)))
    for ch in grid.chunks(ladder_scenarios(tier), 60):
        out.append((trees, (ch,)))
    for ch in grid.chunks(((s, call_down, d) for s, a, d in board_scenarios(tier)), 60):
        out.append((trees, (ch,)))
    for s, a, d in itertools.chain(grid.wars(tier), grid.shipped_scenarios("quick")):
        out.append((trees, ([(s, a, d)],)))
    for scn, count in grid.marathons(tier):
        out.append((marathon, (scn, count)))
    return out


def call_down(obs):
    if obs["call"] > 0 and obs["action"] % 3 == 1:
        return [obs["call"], -1]
    if obs["call"] == 0 and obs["pot"] < 12 and obs["max_raise"] >= 2:
        return [2, 0]
    return [obs["call"]]
