"""C29: nothing before the showdown depends on cards the player to act cannot see.

Self-composition: groups of real dealers which differ only in hidden cards (all other seats'
hole cards, later community cards, the rest of the deck, or everything but the betting) run in
lockstep over the betting tree."""
import itertools

from mc import game, grid
from mc.common import Bad, set_scenario, tick
from mc.dealing import full_deck, name

BOUNDS = {
    "C29": "groups of dealers differing only in hidden cards, in lockstep over complete betting trees of 2-4 seat "
           "games (1-3 streets, all structures, busted seats) and all executions with 1-2 departures from check/call "
           "of larger, long and shipped games, then another hand after everybody folded; for every seat: the other "
           "seats' hole cards replaced by 2-4 arrangements of the cards not seen (all arrangements for decks of up to "
           "6 cards), the unseen board changed, everything changed, other seeds; "
           "heads up with 4 boards every hand the other seat can hold (some histories: every fourth and all pairs); observations, payouts, done lists and "
           "printed tables compared until the showdown"
}
ASSUMES = {"C29": ["cards are placed by tricking the deck, or differ by the seed of the random source",
                   "the hole cards in the observation of a finished hand are not judged"]}


def community(cfg):
    c = cfg["num_community_cards"]
    return c if isinstance(c, list) else [c] * cfg["num_streets"]


def worlds(cfg, tier):
    """[(label, seat which cannot tell or None, trick or None, seed)]; the first is the reference."""
    comm = community(cfg)
    n, h, c0 = cfg["num_players"], cfg["num_hole_cards"], comm[0]
    cards = sorted(full_deck(cfg))
    cards = cards[1::2] + cards[::2]
    need = sum(comm) + n * h
    first, board = cards[:c0], cards[c0 + n * h:need]
    holes = [cards[c0 + i * h:c0 + (i + 1) * h] for i in range(n)]
    out = [("reference", None, cards[:need], 1)]

    def trick(holes, first=first, board=board):
        return first + [c for x in holes for c in x] + board

    for p in range(n):
        pool = sorted(set(cards) - set(first) - set(board) - set(holes[p]))
        if len(pool) <= 4 and len(cards) <= 6:
            orders = [list(x) for x in itertools.permutations(pool)]
        else:
            orders = [pool[::-1], pool]
            if tier == "thorough":
                orders += [pool[1:] + pool[:1], pool[len(pool) // 2:] + pool[:len(pool) // 2]]
        done = set()
        for order in orders:
            new, k = [], 0
            for i in range(n):
                if i == p:
                    new.append(holes[p])
                else:
                    new.append(order[k:k + h])
                    k += h
            t = trick(new)
            if tuple(t) not in done:
                done.add(tuple(t))
                out.append((f"cards hidden from seat {p} changed", p, t, 1))
    free = cards[need:]
    if board and free:
        out.append(("later community cards changed", -1, trick(holes, board=(free[::-1] + board)[:len(board)]), 1))
    out.append(("all cards changed", None, cards[::-1][:need], 1))
    out.append(("the reference's cards, other seed", -1, cards[:need], 2))
    for seed in (1, 2, 3):
        out.append((f"shuffled with seed {seed}", None, None, seed))
    return out


def public(obs):
    """Everything in an observation except cards."""
    return (obs["action"], tuple(bool(a) for a in obs["active"]), obs["button"], obs["call"], len(obs["community_cards"]),
            len(obs["hole_cards"]), obs["max_raise"], obs["min_raise"], obs["pot"], tuple(obs["stacks"]),
            tuple(obs["street_commits"]), tuple(sorted(obs)))


def shown(obs):
    return [name(c) for c in obs["community_cards"]], [name(c) for c in obs["hole_cards"]]


class Group:
    def __init__(self, st, scn, alpha, tier):
        self.st = st
        self.scn = scn
        self.alpha = game.ALPHABETS[alpha]
        self.worlds = scn["worlds"] if "worlds" in scn else worlds(scn["cfg"], tier)
        self.scns = [dict(scn, trick=t, seed=s, worlds=None) for _, _, t, s in self.worlds]
        self.path = []
        n = scn["cfg"]["num_players"]
        self.limit = min(4000, 4 * n * (sum(scn.get("stacks") or [n * scn["cfg"]["start_stack"]]) + 2))

    def run(self, dev):
        tick()
        set_scenario(lambda: {"kind": "hidden", "scn": self.scn, "path": list(self.path)})
        ds, obs = [], []
        for s in self.scns:
            d = game.make_dealer(s)
            obs.append(game.first_deal(d, s)[1])
            ds.append(d)
        self.compare(ds, obs, "deal")
        self.dfs(ds, obs[0], dev, True)

    def compare(self, ds, obs, what):
        ref = public(obs[0])
        board, own = shown(obs[0])
        text = None
        for (label, p, _, _), d, o in zip(self.worlds, ds, obs):
            if o is obs[0]:
                continue
            if public(o) != ref:
                raise Bad(f"{what}: the observation depends on hidden cards ({label}): {game.obs_key(obs[0])} and {game.obs_key(o)}")
            if p is None or p not in (-1, ref[0]):
                continue
            b, h = shown(o)
            if b != board:
                if p >= 0 or b[:community(self.scn["cfg"])[0]] != board[:community(self.scn["cfg"])[0]]:
                    raise Bad(f"{what}: community cards {board} and {b} with the same deck places ({label})")
                continue
            if h != own:
                raise Bad(f"{what}: seat {ref[0]} sees {own} and {h} although only hidden cards differ ({label})")
            if self.scn["cfg"]["num_players"] <= 10:
                if text is None:
                    text = str(ds[0])
                t = str(d)
                if t != text:
                    raise Bad(f"{what}: the printed table depends on hidden cards ({label}): {text!s} and {t!s}")
                self.st.add("tables_compared")
        self.st.add("worlds_compared", len(ds) - 1)

    def dfs(self, ds, obs, dev, first):
        if len(self.path) > self.limit:
            raise Bad(f"hand not over after {len(self.path)} actions")
        acts = self.alpha(obs)
        if dev is not None and dev <= 0:
            acts = acts[:1]
        for i, bet in enumerate(acts):
            self.path.append(bet)
            mine = ds if i == len(acts) - 1 else [game.clone(d) for d in ds]
            rets = [d.step(bet) for d in mine]
            self.st.states += 1
            self.st.transitions += len(rets)
            over = all(rets[0][2])
            what = f"seat {obs['action']} bets {bet}"
            for (label, *_), r in zip(self.worlds, rets):
                if [bool(x) for x in r[2]] != [bool(x) for x in rets[0][2]]:
                    raise Bad(f"{what}: done is {rets[0][2]} and {r[2]} depending on hidden cards ({label})")
            showdown = over and sum(bool(a) for a in rets[0][0]["active"]) > 1
            if not showdown:
                for (label, *_), r in zip(self.worlds, rets):
                    if list(r[1]) != list(rets[0][1]):
                        raise Bad(f"{what}: payouts are {rets[0][1]} and {r[1]} depending on hidden cards ({label})")
                    if public(r[0]) != public(rets[0][0]):
                        raise Bad(f"{what}: the observation depends on hidden cards ({label}): "
                                  f"{game.obs_key(rets[0][0])} and {game.obs_key(r[0])}")
            left = None if dev is None else dev - (i > 0)
            if not over:
                self.compare(mine, [r[0] for r in rets], what)
                self.dfs(mine, rets[0][0], left, first)
            else:
                self.st.add("hands")
                self.st.outcome((showdown, tuple(rets[0][0]["stacks"]) if not showdown else len(self.path)))
                if not showdown and first and sum(s > 0 for s in rets[0][0]["stacks"]) > 1:
                    self.path.append("R")
                    new = [game.deal(d, s, 1) for d, s in zip(mine, self.scns)]
                    self.compare(mine, new, "next deal")
                    self.dfs(mine, new[0], 0, False)
                    self.path.pop()
            self.path.pop()


BOARDS = (["Th", "Jh", "Qh", "Ts", "2c"], ["7d", "7c", "7s", "Kd", "Ks"], ["2c", "3d", "9h", "Js", "Ac"], ["4s", "5s", "6s", "8s", "Qs"])


def holdings(board, own, pair, every):
    """Worlds in which the other seat holds any two cards (pair) or one card of the deck."""
    deck = [r + x for r in "AKQJT98765432" for x in "shdc"]
    rest = [c for c in deck if c not in board and c not in own]
    hands = [list(x) for x in itertools.combinations(rest, 2)] if pair else [[c] for c in rest]
    return [h for i, h in enumerate(hands) if i % every == 0 or pair and h[0][0] == h[1][0]]


def everything(st, cfg, board, own, seat, alpha, dev, every):
    """One seat's cards and the board stay, the other seat holds every possible hand."""
    other = holdings(board, own, cfg["num_hole_cards"] == 2, every)
    ws = [("reference" if k == 0 else f"the other seat holds {h}", None if k == 0 else seat,
           _deal(cfg, board, (own, h) if seat == 0 else (h, own)), 1) for k, h in enumerate(other)]
    Group(st, dict(cfg=cfg, stacks=None, button=0, worlds=ws), alpha, "quick").run(dev)
    st.traces += 1
    st.top("max_worlds", len(ws))


def _deal(cfg, board, holes):
    c0 = community(cfg)[0]
    return board[:c0] + [c for h in holes for c in h] + board[c0:]


def shard(st, items, tier):
    for scn, alpha, dev in items:
        Group(st, scn, alpha, tier).run(dev)
        st.traces += 1
        st.add("scenarios")


def jobs(prop, tier):
    g = grid.cfg
    T = tier == "thorough"
    items, out = [], []
    # all arrangements of tiny decks
    kuhn = g(2, 1, 0, 1, 1, 1, suits=1, ranks=3, start=3)
    leduc = g(2, 2, 0, 1, [2, 4], 2, suits=2, ranks=3, cards=2, mand=0, start=9)
    tiny = [
        (kuhn, "full", None), (leduc, "full", None), (g(3, 1, 0, 1, 1, 1, suits=1, ranks=4, start=3), "full", None),
        (g(2, 2, [1, 2], 0, "pot", 2, suits=2, ranks=3, cards=1, start=7), "minmax", None),
        (g(2, 3, [1, 2], 0, "inf", 1, suits=1, ranks=6, comm=[1, 1, 1], start=6), "minmax", None),
        (g(3, 2, [1, 2, 0], 0, "inf", 1, suits=2, ranks=3, comm=[1, 1], start=5), "minmax", 2),
        (g(2, 2, [1, 2], 0, "inf", 1, suits=2, ranks=3, hole=2, comm=[0, 1], start=6), "minmax", None),
    ]
    for c, alpha, dev in tiny:
        n = c["num_players"]
        for button in range(n):
            items.append((dict(cfg=c, stacks=None, button=button), alpha, dev))
    for c, stacks, alpha, dev in (
        (g(2, 1, [1, 2], 0, start=6), [6, 5], "full", None),
        (g(2, 2, [1, 2], [1, 0], "inf", 2, hole=2, comm=[3, 1], cards=5, start=9), [9, 7], "minmax", None),
        (g(2, 3, [1, 2], 0, ["pot", 4, "inf"], [2, 1, 2], hole=2, comm=[0, 3, 2], cards=5, start=12), [12, 12], "minmax", 3),
        (g(2, 2, [1, 2], 0, "pot", 2, hole=4, comm=[0, 5], cards=5, mand=2, start=20), [20, 20], "minmax", None),
        (g(3, 1, [1, 2, 0], 0, start=4), [4, 3, 4], "full", None),
        (g(3, 2, [1, 2, 0], [0, 1, 0], "inf", 1, hole=2, comm=[0, 3], cards=5, start=8), [8, 5, 8], "minmax", 3),
        (g(3, 2, [1, 2, 0], 0, 2, 2, hole=2, comm=[2, 1], cards=3, start=20), [20, 0, 13], "minmax", 4),
        (g(4, 2, [1, 2, 0, 0], 0, "inf", 2, hole=2, comm=[0, 3], cards=5, start=9), [9, 9, 3, 9], "minmax", 3),
        (g(4, 1, 0, [1, 0, 2, 0], "pot", 1, start=9), [9, 0, 4, 9], "minmax", None),
        (g(5, 2, [1, 2, 0, 0, 0], 0, "inf", 1, hole=2, comm=[1, 2], cards=5, start=9), [9, 1, 9, 4, 2], "minmax", 2),
        (g(6, 3, [1, 2, 0, 0, 0, 0], 0, "inf", 1, hole=2, comm=[0, 3, 1], cards=5, start=30), [30, 30, 4, 30, 0, 30], "minmax", 2),
        (g(9, 4, [1, 2] + [0] * 7, 1, "pot", 3, hole=2, comm=[0, 3, 1, 1], cards=5, start=200), [200] * 9, "minmax", 1),
        (g(10, 4, [1, 2] + [0] * 8, 0, "inf", 3, hole=4, comm=[0, 3, 1, 1], cards=5, mand=2, start=200), [200] * 10, "minmax", 1),
    ):
        for button in range(c["num_players"]) if T else {0, sum(stacks) % c["num_players"]}:
            items.append((dict(cfg=c, stacks=stacks, button=button), alpha, dev if dev is None or not T else dev + 1))
    for i, board in enumerate(BOARDS):
        for j, comm in enumerate(([5], [3, 1, 1], [0, 3, 1, 1])):
            for seat in (0, 1):
                for own in (["8h", "9d"], ["Ah", "Kc"], ["7h", "Kh"])[: 3 if T else 1 + (j == 0)]:
                    if set(own) & set(board):
                        continue
                    c = g(2, len(comm), [1, 2], 0, ("inf", "pot", 4)[i % 3], 2, hole=2, comm=comm, cards=5, start=20)
                    out.append((everything, (c, board, own, seat, "minmax", 1 if T or j == 0 else 0, 1 if T or j == 0 else 4)))
                    if i == 2 and not own[0][0] in "7":
                        c = g(2, len(comm), [1, 2], 0, "inf", 2, hole=1, comm=comm, cards=(1, 2, 3)[j], start=20)
                        out.append((everything, (c, board, own[:1], seat, "minmax", 2, 1)))
    for name_, c in grid.shipped():
        n = c["num_players"]
        dev = None if n == 2 and c["num_streets"] <= 2 else 2 if n == 2 else 1
        items.append((dict(cfg=dict(c), stacks=None, button=n - 1, name=name_), "minmax", dev))
    for i, (s, a, d) in enumerate(grid.wars("quick")):
        if (T or i % 4 == 0) and s["cfg"]["num_players"] <= 6:
            items.append((s, a, 0))
    for i, (s, a, d) in enumerate(grid.layouts("quick", (0, 1, 2, 3, 5, 9) if T else (0, 1, 4))):
        if T or i % 2 == 0:
            items.append((s, a, d))
    return out + [(shard, (ch, tier)) for ch in grid.chunks(items, 3)]
