"""C12: the hand after a deal depends only on stacks, button and deck; a refused deal
changes nothing."""
from mc import game, grid
from mc.common import Bad, set_scenario, tick
from mc.dealing import full_deck

from clubs import error

BOUNDS = {
    "C12": "every state (finished or not) of complete betting trees of small 2-4 seat games, and of raise wars (smallest, three- and "
           "tenfold, largest raises, 2-9 seats), as history x the "
           "four kinds of deal (with/without resetting button and stacks), compared in lockstep over the "
           "betting tree of the next hand (1-3 departures from check/call, then a third hand) with a fresh "
           "dealer given the same stacks, button and deck; "
           "one dealer over 60-1500 (7500) hands played in nine ways with all kinds of deals, with up to 8 decks in "
           "turn, every hand against a fresh dealer; refused deals at every lost table and the steps, "
           "prints and deals after them; the deal's options given by name and by position"
}
ASSUMES = {"C12": ["the deck order is fixed by tricking all dealt cards, so it does not depend on history",
                   "a fresh dealer is brought to the same button by deals, to the same stacks by assignment"]}

DEALS = (dict(), dict(reset_button=True), dict(reset_stacks=True),
         dict(reset_button=True, reset_stacks=True))


class Look:
    def render(self, config, *a, **k):
        c = dict(config)
        self.seen = (
            c["action"], tuple(bool(x) for x in c["active"]), tuple(bool(x) for x in c["all_in"]), c["button"], bool(c["done"]),
            tuple(int(x) for x in c["community_cards"]), tuple(tuple(int(x) for x in h) for h in c["hole_cards"]), c["pot"],
            tuple(c["payouts"]), c["prev_action"] and tuple(c["prev_action"]), tuple(c["street_commits"]), tuple(c["stacks"]))


def look(d):
    """The table as printed and as handed to viewers."""
    keep, d.viewer = d.viewer, Look()
    d.render()
    seen = d.viewer.seen
    d.viewer = keep
    return str(d), seen


class Rebuild:
    """Prototype dealers which never saw a hand, by (stacks, button)."""

    def __init__(self, scn):
        self.scn = scn
        self.made = {}

    def get(self, stacks, button):
        key = (tuple(stacks), button)
        if key not in self.made:
            d = game.make_dealer(self.scn)
            self.made[key] = game.first_deal(d, dict(self.scn, stacks=list(stacks), button=button))[1], d
        obs, d = self.made[key]
        return obs, game.clone(d)


def kept(obs, stacks, button, what):
    """The hand is played with the stacks of the players and the button in its place."""
    if obs["button"] != button:
        raise Bad(f"{what}: button is on seat {obs['button']}, expected {button}")
    if sum(obs["stacks"]) + obs["pot"] != sum(stacks) or any(a > b for a, b in zip(obs["stacks"], stacks)):
        raise Bad(f"{what}: stacks {obs['stacks']} and pot {obs['pot']}, the players have {stacks}")


class History:
    """At every state of the first hand: all kinds of deals against a fresh dealer."""

    def __init__(self, scn, dev):
        self.scn = scn
        self.n = scn["cfg"]["num_players"]
        self.fresh = Rebuild(scn)
        self.dev = dev
        self.done = set()
        self.kinds = DEALS
        self.dead = 0
        self.turn = 0

    def begin(self, ex, d, pre, obs):
        if ex.hand == 0:
            kept(obs, pre, self.scn.get("button") or 0, "first deal")
            self.deals(ex, d, obs, False)
        return 0

    def step(self, ex, d, ms, old, op, obs, payouts, done):
        over = all(done)
        if over and sum(s > 0 for s in obs["stacks"]) <= 1:
            self.refused(ex, d, obs, payouts, done)
        self.deals(ex, d, obs, over)
        return 0

    def refused(self, ex, d, obs, payouts, done):
        """Every sequence of refused deals, steps and prints leaves the table as is."""
        self.dead += 1
        want = game.ret_key((obs, payouts, done))
        text = look(d), [int(x) for x in d.deck.cards]
        c = game.clone(d)
        for kw in (dict(), dict(reset_button=True), dict()):
            try:
                c.reset(**kw)
            except error.TooFewActivePlayersError:
                pass
            else:
                raise Bad(f"deal with stacks {obs['stacks']} is not refused")
            ex.st.transitions += 1
            if (look(c), [int(x) for x in c.deck.cards]) != text:
                raise Bad(f"refused deal changed the table from {text!r} to {look(c)}, deck {c.deck}")
            got = game.ret_key(c.step(0))
            if got != want or look(c) != text[0]:
                raise Bad(f"after a refused deal the finished hand reports {got}, before {want}")
        # afterwards the table can be started again as if nothing had been refused
        for kw in (dict(reset_stacks=True), dict(reset_stacks=True, reset_button=True)):
            a, b = game.clone(c), game.clone(d)
            oa = game.deal(a, self.scn, 5, **kw)
            ob = game.deal(b, self.scn, 5, **kw)
            if game.obs_key(oa) != game.obs_key(ob):
                raise Bad(f"deal {kw} after refused deals gives {game.obs_key(oa)}, without {game.obs_key(ob)}")

    def deals(self, ex, d, obs, over):
        for kw in self.kinds:
            stacks = [self.scn["cfg"]["start_stack"]] * self.n if kw.get("reset_stacks") else list(obs["stacks"])
            if sum(s > 0 for s in stacks) < 2:
                continue
            button = 0 if kw.get("reset_button") else (obs["button"] + 1) % self.n
            a = game.clone(d)
            self.turn += 1
            if self.turn % 2:
                oa = game.deal(a, self.scn, 0, **kw)
            else:
                # the flags given by position
                oa = game.deal(a, self.scn, 0, *[kw.get(k, False) for k in ("reset_button", "reset_stacks")])
            kept(oa, stacks, button, f"deal {kw}")
            ob, b = self.fresh.get(stacks, button)
            ex.st.transitions += 1
            dev = self.dev if over else min(self.dev, 1)
            self.lockstep(ex, a, b, oa, ob, dev, [["deal", kw]], False)

    def lockstep(self, ex, a, b, oa, ob, dev, path, third):
        ka, kb = game.obs_key(oa), game.obs_key(ob)
        if ka != kb:
            raise Bad(f"next hand {path}: {ka} after the earlier hand, {kb} with a fresh dealer")
        if look(a) != look(b):
            raise Bad(f"next hand {path}: the table is shown as {look(a)}, by a fresh dealer as {look(b)}")
        acts = game.minmax_alphabet(oa)
        if dev <= 0:
            acts = acts[:1]
        for i, bet in enumerate(acts):
            last = i == len(acts) - 1
            a2 = a if last else game.clone(a)
            b2 = b if last else game.clone(b)
            ra, rb = a2.step(bet), b2.step(bet)
            ex.st.transitions += 1
            ex.st.states += 1
            p2 = path + [bet]
            if game.ret_key(ra) != game.ret_key(rb):
                raise Bad(f"next hand {p2}: {game.ret_key(ra)} after the earlier hand, "
                          f"{game.ret_key(rb)} with a fresh dealer")
            if all(ra[2]):
                if look(a2) != look(b2):
                    raise Bad(f"next hand {p2}: table differs: {look(a2)} and {look(b2)}")
                ex.st.add("lockstep_hands")
                ex.st.outcome(game.ret_key(ra))
                if not third and sum(s > 0 for s in ra[0]["stacks"]) > 1 and i == 0:
                    oa2 = game.deal(a2, self.scn, 9)
                    ob2 = game.deal(b2, self.scn, 9)
                    self.lockstep(ex, a2, b2, oa2, ob2, 0, p2 + ["R"], True)
            else:
                self.lockstep(ex, a2, b2, ra[0], rb[0], dev - (i > 0), p2, third)


def spread(obs):
    """Raises to a multiple of what is required, again and again, unless departing from it."""
    call, lo, hi = obs["call"], obs["min_raise"], obs["max_raise"]
    acts = []
    for b in (3 * lo, 10 * lo):
        if call < min(b, hi) and min(b, hi) not in acts:
            acts.append(min(b, hi))
    return acts + [call] + ([-1] if call else [])


def shard(st, scn, alpha, dev, dev2, hands):
    game.Explorer(st, scn, History(scn, dev2), alpha, deviations=dev, hands=hands, validate=53).run()


def ways(h):
    """How hand number h is played: bet for (observation, number of the action)."""
    return (
        lambda o, k: o["call"],
        lambda o, k: max(o["call"], o["min_raise"]) if k == h % 3 else o["call"],
        lambda o, k: max(o["call"], o["max_raise"]) if k == h % 2 else o["call"],
        lambda o, k: -1 if k == h % 4 else o["call"],
        lambda o, k: max(o["call"], o["min_raise"]) if k < 2 + h % 5 else -1,
        lambda o, k: max(o["call"], o["max_raise"]),
        lambda o, k: -1 if o["call"] else max(o["min_raise"], 0),
        lambda o, k: max(o["call"], min(o["max_raise"], o["min_raise"] + o["pot"] % (2 + h % 5))),
        lambda o, k: max(o["call"], min(o["max_raise"], o["min_raise"] * (2 + h % 4))),
    )[h % 9]


def decks(cfg, trick):
    """Decks for successive hands: the given one, the same board with other hole cards,
    the same hole cards with another board, everything else."""
    comm = _comm(cfg)
    h, n, c0 = cfg["num_hole_cards"], cfg["num_players"], comm[0]
    need = sum(comm) + n * h
    cards = list(trick)[:need]
    rest = [c for c in sorted(full_deck(cfg)) if c not in cards]
    cards += rest[:need - len(cards)]
    first, hole, board = cards[:c0], cards[c0:c0 + n * h], cards[c0 + n * h:]
    other = [c for c in sorted(full_deck(cfg)) if c not in cards]
    out = [cards, first + hole[::-1] + board, first + hole[h:] + hole[:h] + board, cards[::-1]]
    if len(other) >= n * h:
        out.append(first + other[-n * h:] + board)
        out.append(first + other[:n * h] + board)
    if len(other) >= len(board):
        out.append(first + hole + other[:len(board)])
    if board:
        out.append(first + hole + board[1:] + board[:1])
    return out


def long(st, scn, count):
    """One dealer over many hands (kinds of deals, ways to play, abandoned hands and
    inspections take turns), every hand against a fresh dealer."""
    n = scn["cfg"]["num_players"]
    tricks = decks(scn["cfg"], scn["trick"])
    fresh = [Rebuild(dict(scn, trick=t)) for t in tricks]
    d = game.make_dealer(scn)
    history = []
    set_scenario(lambda: {"kind": "long", "scn": scn, "hands": history})
    stacks, button = [0] * n, 0
    for h in range(count):
        tick()
        kw = DEALS[(h // 3) % 4] if h % 5 else DEALS[0]
        if not kw.get("reset_stacks") and sum(s > 0 for s in stacks) < 2:
            kw = dict(kw, reset_stacks=True)
        pre = [scn["cfg"]["start_stack"]] * n if kw.get("reset_stacks") else list(stacks)
        button = 0 if kw.get("reset_button") else (button + 1) % n
        which = h * (h + 1) // 2 % len(tricks)
        d.deck.trick([game.Card(c) for c in tricks[which]])
        a = game.deal(d, scn, 0, **kw)
        history.append([kw, {"deck": which}])
        kept(a, pre, button, f"deal of hand {h}, {kw}")
        b, f = fresh[which].get(pre, button)
        if game.obs_key(a) != game.obs_key(b):
            raise Bad(f"deal of hand {h}: {game.obs_key(a)} after {h} hands, {game.obs_key(b)} with a fresh dealer",
                      {"kind": "long", "scn": scn, "hands": history})
        way = ways(h)
        done = [False]
        k = 0
        while not all(done):
            if (h % 11 == 10 and k == 2) or (h % 7 == 5 and k == 1 + h // 7 % 12):
                break  # abandoned
            bet = way(a, k)
            history[-1].append(bet)
            ra, rb = d.step(bet), f.step(bet)
            st.transitions += 1
            if game.ret_key(ra) != game.ret_key(rb):
                raise Bad(f"hand {h}, action {k}: {game.ret_key(ra)} after {h} hands, {game.ret_key(rb)} with a "
                          f"fresh dealer", {"kind": "long", "scn": scn, "hands": history})
            a, _, done = ra
            k += 1
            if h % 4 == 1 and look(d) != look(f):
                raise Bad(f"hand {h}: table {d!s} after {h} hands, {f!s} with a fresh dealer",
                          {"kind": "long", "scn": scn, "hands": history})
        stacks = a["stacks"]
        if h % 13 == 12 and all(done):
            d.step(0)
        st.states += 1
        st.outcome(tuple(stacks))
    st.traces += 1
    st.top("max_hands", count)


def jobs(prop, tier):
    g = grid.cfg
    T = tier == "thorough"
    A = ["AS", "KH", "QD", "JC", "TS", "9H", "8D", "7C"]
    B = ["2S", "2H", "2D", "2C", "3S", "3H", "3D", "3C"]
    out = []
    for c, stacks, alpha, dev, dev2 in (
        (g(2, 1, [1, 2], 0, start=5), [5, 4], "full", None, 2),
        (g(2, 2, [1, 2], [0, 1], "inf", 2, start=6), [6, 6], "minmax", None, 2),
        (g(2, 2, 0, 1, 2, 2, start=9), [9, 7], "minmax", None, 1),
        (g(2, 2, [1, 2], 0, "pot", 1, start=12), [12, 9], "minmax", None, 1),
        (g(2, 3, [1, 2], 0, ["inf", 2, "pot"], [1, 2, 1], start=9), [9, 9], "minmax", 2, 2),
        (g(3, 1, [1, 2, 0], 0, start=5), [5, 4, 3], "minmax", None, 1),
        (g(2, 2, [1, 2], 0, "inf", 1, start=1), [300, 411], "minmax", None, 1),
        (g(3, 1, [1, 2, 0], 0, "inf", 1, start=2), [5000, 0, 7], "minmax", None, 1),
        (g(2, 1, [1, 2], [1, 0], 2, 2, start=10 ** 6), [3, 5], "minmax", None, 1),
        (g(2, 1, [100, 201], 0, "inf", 1, start=10 ** 5), [10 ** 7, 10 ** 20 + 1], "minmax", None, 1),
        (g(3, 2, [1, 1, 0], [0, 1, 0], "inf", 1, start=4), [4, 2, 4], "minmax", 3, 1),
        (g(3, 2, 0, 1, 2, 1, start=6), [6, 6, 2], "minmax", 3, 1),
        (g(3, 1, [1, 2, 0], 0, "pot", 2, start=8), [8, 0, 5], "minmax", None, 2),
        (g(4, 1, [1, 2, 0, 0], 0, "inf", 1, start=4), [4, 1, 3, 2], "minmax", 3, 1),
        (g(4, 2, [1, 2, 0, 0], 0, 2, 2, start=9), [9, 5, 0, 9], "minmax", 2, 1),
    ):
        n = c["num_players"]
        for k, trick in enumerate((A, B, A[::-1])):
            if k == 2 and not T:
                continue
            for button in range(n) if T else (k % n,):
                scn = dict(cfg=c, stacks=stacks, button=button, trick=trick)
                out.append((shard, (scn, alpha, dev, dev2 + T, 1)))
    for c, count in (
        (g(2, 1, [1, 2], 0, start=9), 1500), (g(2, 2, [1, 2], [0, 1], "pot", 2, start=20), 600),
        (g(2, 3, 0, 1, [2, 2, 4], 3, start=30), 300), (g(3, 2, [1, 2, 0], 0, "inf", 2, start=20), 400),
        (g(4, 2, [1, 2, 0, 0], [0, 1, 0, 0], "inf", "inf", start=30), 300),
    ):
        out.append((long, (dict(cfg=c, button=0, stacks=None, trick=A), count * (5 if T else 1))))
    # raise wars as history, given up at every point
    for c, stacks, alpha in (
        (g(2, 1, [1, 2], 0, start=150), [150, 150], "war"), (g(2, 2, [1, 2], 0, "inf", 2, start=500), [500, 300], "climb"),
        (g(2, 2, [1, 2], [0, 1], "inf", 2, start=10 ** 6), [10 ** 6, 10 ** 6], spread),
        (g(2, 1, [5, 10], 0, "pot", start=5000), [5000, 4000], "climb"), (g(2, 2, [1, 2], 0, 2, 4, start=60), [60, 60], "war"),
        (g(3, 2, [1, 2, 0], 0, "inf", "inf", start=5000), [5000, 3000, 5000], spread),
        (g(3, 1, [1, 2, 0], [1, 1, 1], "pot", start=3000), [3000] * 3, "climb"),
        (g(4, 1, [1, 2, 0, 0], 0, start=900), [900, 800, 700, 900], spread),
        (g(6, 1, [1, 2, 0, 0, 0, 0], 0, start=9000), [9000] * 6, spread),
        (g(9, 2, [1, 2] + [0] * 7, 0, "inf", 3, start=9000), [9000] * 9, spread),
    ):
        n = c["num_players"]
        for button in range(n) if T else (n - 1,):
            scn = dict(cfg=c, stacks=stacks, button=button, trick=A if n * c["num_hole_cards"] + 2 <= 8 else sorted(full_deck(c))[:n + 2])
            out.append((shard, (scn, alpha, (2 if n < 4 else 1) + (T and n < 5), 1 if n < 6 else 0, 1)))
    # a second hand as history
    for c, stacks in (
        (g(2, 1, [1, 2], 0, start=3), [3, 3]),
        (g(3, 1, [1, 1, 0], 0, "inf", 1, start=3), [3, 1, 2]),
    ):
        out.append((shard, (dict(cfg=c, stacks=stacks, button=0, trick=A), "minmax", None if c["num_players"] == 2 else 3, 1, 2)))
    for name, c in grid.shipped():
        n = c["num_players"]
        need = sum(_comm(c)) + n * c["num_hole_cards"]
        cards = sorted(full_deck(c))
        cards = (cards[5:] + cards[:5])[:need]
        for stack in (None, 7):
            cc = dict(c) if stack is None else dict(c, start_stack=stack)
            scn = dict(cfg=cc, stacks=None, button=n - 1, trick=cards)
            small = n == 2 and c["num_streets"] <= 2
            if stack is None:
                out.append((long, (dict(scn, button=0), 300 if small else 60)))
            out.append((shard, (scn, "minmax", None if small else (1 if n < 6 else 0), 1 if n == 2 or (T and n < 9) else 0, 1)))
    return out


def _comm(cfg):
    c = cfg["num_community_cards"]
    return c if isinstance(c, list) else [c] * cfg["num_streets"]
