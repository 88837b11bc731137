"""C22 C25: configurations - equivalent spellings, invalid ones, shipped games."""
import copy
import itertools

from mc import game, grid, hands, model, monitors
from mc.common import Bad, set_scenario, tick
from mc.views import Paths, Record

import clubs
from clubs import error

INF = float("inf")

BOUNDS = {
    "C22": "all combinations of scalar and list form of blinds, antes, raise sizes, raise counts and community cards "
           "and all spellings of unlimited for 10 games of 2-4 seats and 1-3 streets, each compared on every "
           "execution of the complete betting tree; lists of all lengths 0-7 for every option; 21 unknown raise "
           "sizes in every position; 12 x 20 suit and rank counts; hand sizes -3 to 9; all orders one deletion, "
           "insertion or replacement away from a permutation, 120 permutations; 14 render modes at 4 points of a hand; "
           "dealers, decks and evaluators with the first 0-15 arguments given by position in the documented order",
    "C25": "every shipped configuration against a table of the named games: all executions with at most 1-2 (two "
           "seats 3, thorough one more) departures from check/call, complete trees of Kuhn and Leduc, raise wars on "
           "every street, all pairs of hand categories, mandatory cards, wheel straights, deck contents; one dealer through "
           "120-240 (thorough 1200-2000) hands of each; every dealer built from the shipped objects themselves",
}
ASSUMES = {
    "C22": ["one invalid option at a time"],
    "C25": ["shipped configurations with names this table does not know are only required to be playable"],
}

INFS = ("inf", INF)


def spellings(v):
    return INFS if v in INFS else (v,) if isinstance(v, str) else (v,)


def variants(cfg, key):
    """Equivalent values of one option."""
    v = cfg[key]
    n = cfg["num_players"] if key in ("blinds", "antes") else cfg["num_streets"]
    out = []
    if isinstance(v, list):
        for combo in itertools.product(*[spellings(x) for x in v]):
            out.append(list(combo))
    else:
        for x in spellings(v):
            out.append(x)
            out.append([x] * n)
        if v in INFS and n > 1:
            out.append(["inf"] + [INF] * (n - 1))
            out.append([INF] + ["inf"] * (n - 1))
    return out


KEYS = ("blinds", "antes", "raise_sizes", "num_raises", "num_community_cards")


def equivalent(st, cfg, stacks, alpha, dev, part, parts):
    scn = dict(cfg=cfg, stacks=stacks)
    mon = Paths()
    Record(st, scn, mon, alpha, deviations=dev).run()
    base = None
    allv = list(itertools.product(*[variants(cfg, k) for k in KEYS]))
    if len(allv) > 400:
        # every option alone and all pairs of options in all their forms
        keep = []
        for combo in allv:
            changed = sum(not (a == b and type(a) is type(b)) for a, b in zip(combo, [cfg[k] for k in KEYS]))
            if changed <= 2 or changed == len(KEYS):
                keep.append(combo)
        allv = keep
    ref = [results(scn, p) for p in mon.paths]
    for combo in allv[part::parts]:
        tick()
        c = dict(cfg, **dict(zip(KEYS, combo)))
        for optional in (False, True):
            if optional:
                if "low_end_straight" in c or "order" in c:
                    continue
                c = dict(c, low_end_straight=True, order=None)
            s2 = dict(cfg=c, stacks=stacks)
            set_scenario({"kind": "equivalent", "cfg": cfg, "other": c, "stacks": stacks})
            for p, want in zip(mon.paths, ref):
                got = results(s2, p)
                st.transitions += len(got)
                if got != want:
                    k = next(i for i, (a, b) in enumerate(zip(got, want)) if a != b)
                    diff = {x: (cfg[x], c[x]) for x in KEYS if cfg[x] != c[x] or type(cfg[x]) is not type(c[x])}
                    raise Bad(f"equivalent configurations play differently: {diff}, operation {k} of {p} gives "
                              f"{got[k]} instead of {want[k]}",
                              {"kind": "equivalent", "cfg": cfg, "other": c, "stacks": stacks, "path": p})
            st.states += 1
            st.add("variants")
    st.traces += len(mon.paths)
    for w in ref:
        st.outcome(tuple(w))
    st.sample({"cfg": cfg, "executions": len(mon.paths), "variants": len(allv)}, 3)


def results(scn, path, make=None):
    d = make() if make else clubs.Dealer(**copy.deepcopy(scn["cfg"]))
    _, obs = game.first_deal(d, scn)
    out = [game.obs_key(obs)]
    for op in path:
        out.append(game.ret_key(d.step(op)))
    return out


FIRST = ("num_players", "num_streets", "blinds", "antes", "raise_sizes", "num_raises", "num_suits", "num_ranks", "num_hole_cards",
         "num_community_cards", "num_cards_for_hand", "mandatory_num_hole_cards", "start_stack")


def positions(st, cfg, stacks, alpha, dev):
    """The same arguments given by position, by name, and some of both."""
    O = hands.ORDER
    for low, order in ((True, None), (False, None), (True, O[::-1]), (False, O[3:] + O[:3])):
        c = dict(cfg, low_end_straight=low, order=order)
        scn = dict(cfg=c, stacks=stacks)
        mon = Paths()
        Record(st, scn, mon, alpha, deviations=dev).run()
        names = list(FIRST) + ["low_end_straight", "order"]
        for cut in range(len(names) + 1):
            tick()
            set_scenario({"kind": "positions", "cfg": c, "by position": names[:cut]})
            args = [copy.deepcopy(c[k]) for k in names[:cut]]
            rest = {k: copy.deepcopy(c[k]) for k in reversed(names[cut:])}
            for p in mon.paths:
                want = results(scn, p)
                got = results(scn, p, lambda: clubs.Dealer(*args, **rest))
                st.transitions += len(got)
                if got != want:
                    raise Bad(f"a dealer built with {names[:cut]} given by position plays {p} as {got}, by name {want}")
            st.states += 1
    st.traces += len(mon.paths)


def evaluators(st):
    """Deck and evaluator options by position and by name."""
    O = hands.ORDER
    for suits, ranks, cards, mand, low, order in itertools.product((2, 4), (5, 6), (3, 4), (0, 2), (True, False), (None, O[::-1])):
        tick()
        what = dict(suits=suits, ranks=ranks, cards_for_hand=cards, mandatory_hole_cards=mand, low_end_straight=low, order=order)
        set_scenario({"kind": "evaluator", "options": what})
        names = list(what)
        made = [clubs.Evaluator(*[what[k] for k in names[:cut]], **{k: what[k] for k in names[cut:]}) for cut in range(len(names) + 1)]
        if mand == 0 and low and order is None:
            made.append(clubs.Evaluator(suits, ranks, cards))
        full = [clubs.Card(r + s) for r in "23456789TJQKA"[-ranks:] for s in "SHDC"[:suits]]
        for a in range(0, len(full) - 5):
            hole, board = [full[a], full[a + 3]], full[a + 1:a + 3] + full[a + 4:a + 6]
            got = [e.evaluate(list(hole), list(board)) for e in made]
            st.transitions += len(got)
            if len(set(got)) > 1:
                raise Bad(f"evaluators with the options {what} given by position or name rank {hole} with {board} as {got}")
        st.states += 1
        x, y = clubs.Deck(suits, ranks), clubs.Deck(num_ranks=ranks, num_suits=suits)
        if sorted(map(str, x.cards)) != sorted(map(str, y.cards)) or len(x.cards) != suits * ranks:
            raise Bad(f"decks of {suits} suits and {ranks} ranks given by position or name: {x}, {y}")
    st.traces += 1


# ------------------------------------------------------------------ invalid
def refused(st, exc, what, make):
    set_scenario({"kind": "invalid", "what": what})
    tick()
    st.transitions += 1
    st.states += 1
    try:
        make()
    except exc:
        st.outcome(what)
        return
    except Exception as e:
        raise Bad(f"{what}: rejected with {type(e).__name__}: {e} instead of {exc.__name__}",
                  {"kind": "invalid", "what": what})
    raise Bad(f"{what}: accepted", {"kind": "invalid", "what": what})


def accepted(st, what, make):
    set_scenario({"kind": "invalid", "what": what})
    st.transitions += 1
    st.states += 1
    return make()


def dealer(cfg, **kw):
    return lambda: clubs.Dealer(**dict(copy.deepcopy(cfg), **kw))


def lengths(st):
    for cfg in (grid.cfg(2, 1), grid.cfg(2, 3), grid.cfg(3, 2), dict(clubs.configs.LEDUC_TWO_PLAYER),
                dict(clubs.configs.NO_LIMIT_HOLDEM_SIX_PLAYER)):
        for key in KEYS:
            n = cfg["num_players"] if key in ("blinds", "antes") else cfg["num_streets"]
            good = 1 if key != "num_community_cards" else 0
            for k in range(0, 8):
                for fill in (good, "inf" if key == "num_raises" else "pot" if key == "raise_sizes" else 0):
                    if k == n:
                        accepted(st, f"{key} {[fill] * k}", dealer(cfg, **{key: [fill] * k}))
                    else:
                        refused(st, error.InvalidConfigError, f"{key}={[fill] * k} for {n}",
                                dealer(cfg, **{key: [fill] * k}))
    st.traces += 1


def raise_sizes(st):
    bad = ["", "Pot", "POT", "INF", "Inf", "infinity", "nolimit", "limit", "-inf", "2", "10", "none", None, 2.5, 2.0,
           float("nan"), -INF, (2,), [2], {}, "p"]
    for cfg in (grid.cfg(2, 1), grid.cfg(3, 3)):
        n = cfg["num_streets"]
        for b in bad:
            if not isinstance(b, list):
                refused(st, error.InvalidRaiseSizeError, f"raise_sizes={b!r}", dealer(cfg, raise_sizes=b))
            for pos in range(n):
                for other in (1, "pot", "inf", INF):
                    sizes = [other] * n
                    sizes[pos] = b
                    refused(st, error.InvalidRaiseSizeError, f"raise_sizes={sizes!r}", dealer(cfg, raise_sizes=sizes))
    st.traces += 1


def decks(st):
    base = grid.cfg(2, 1)
    for suits in range(-3, 9):
        for ranks in range(-3, 17):
            s_ok, r_ok = 1 <= suits <= 4, 1 <= ranks <= 13
            what = f"{suits} suits, {ranks} ranks"
            for mk, kind in ((lambda: clubs.Deck(suits, ranks), "deck"),
                             (dealer(base, num_suits=suits, num_ranks=ranks), "dealer")):
                if s_ok and r_ok:
                    accepted(st, f"{kind} {what}", mk)
                else:
                    exc = error.InvalidSuitError if r_ok else error.InvalidRankError if s_ok else \
                        (error.InvalidSuitError, error.InvalidRankError)
                    refused(st, exc, f"{kind} of {what}", mk) if not isinstance(exc, tuple) else \
                        refused2(st, exc, f"{kind} of {what}", mk)
    for k in range(-3, 10):
        for suits, ranks in ((4, 13), (2, 5), (1, 9)):
            what = f"hands of {k} cards"
            for mk in (lambda: clubs.Evaluator(suits, ranks, k),
                       dealer(base, num_cards_for_hand=k, num_suits=suits, num_ranks=ranks)):
                if 1 <= k <= 5:
                    accepted(st, what, mk)
                else:
                    refused(st, error.InvalidHandSizeError, what, mk)
    st.traces += 1


def refused2(st, excs, what, make):
    set_scenario({"kind": "invalid", "what": what})
    st.transitions += 1
    st.states += 1
    try:
        make()
    except excs:
        st.outcome(what)
        return
    except Exception as e:
        raise Bad(f"{what}: rejected with {type(e).__name__}: {e}")
    raise Bad(f"{what}: accepted")


def orders(st):
    O = hands.ORDER
    base = dict(grid.cfg(2, 1), num_cards_for_hand=3, num_suits=3, num_ranks=4)
    bad = [[], O[:1], O + O, ["xx"] * 9, [c.upper() for c in O], O[:8] + ["rf"], ["straight flush"] + O[1:]]
    for i in range(9):
        bad.append(O[:i] + O[i + 1:])
        for j in range(10):
            for c in O + ["xx", ""]:
                if j < 9 and c != O[j]:
                    bad.append(O[:j] + [c] + O[j + 1:])
                bad.append(O[:j] + [c] + O[j:])
    seen = set()
    for o in bad:
        if tuple(o) in seen:
            continue
        seen.add(tuple(o))
        what = f"order {o}"
        refused(st, error.InvalidOrderError, what, dealer(base, order=list(o)))
        refused(st, error.InvalidOrderError, what, lambda: clubs.Evaluator(3, 4, 3, order=list(o)))
    for i, p in enumerate(itertools.permutations(O)):
        if i % 3024 == 0:
            accepted(st, f"order {p}", dealer(base, order=list(p)))
    st.traces += 1


def render_modes(st):
    modes = ["", "lala", "ASCII", "Human", "asci", "humans", "html", "svg", "print", "rgb_array", None, 1, "ascii ", " human"]
    cfg = dict(clubs.configs.LEDUC_TWO_PLAYER)
    for k in range(4):
        for m in modes:
            scn = dict(cfg=cfg, stacks=None)
            d = clubs.Dealer(**cfg)
            if k:
                game.first_deal(d, scn)
            for _ in range(k - 1):
                d.step(2)
            before = str(d)
            refused(st, error.InvalidRenderModeError, f"render mode {m!r}", lambda: d.render(m))
            if str(d) != before:
                raise Bad(f"render mode {m!r} changed the table")
            if k:
                a = game.ret_key(d.step(0))
                d2 = clubs.Dealer(**cfg)
                game.first_deal(d2, scn)
                for _ in range(k - 1):
                    d2.step(2)
                if a != game.ret_key(d2.step(0)):
                    raise Bad(f"refused render mode {m!r} changed the game")
    st.traces += 1


# ------------------------------------------------------------------ C25
SIZES = {"TWO": 2, "THREE": 3, "SIX": 6, "NINE": 9}
HOLDEM = dict(num_streets=4, num_suits=4, num_ranks=13, num_hole_cards=2, num_community_cards=[0, 3, 1, 1],
              num_cards_for_hand=5, mandatory_num_hole_cards=0, start_stack=200, antes=0, order=None, wheel=True)
RARE = ["sf", "fk", "fh", "fl", "st", "tk", "tp", "pa", "hc"]
GAMES = {
    "LEDUC": dict(num_streets=2, blinds=0, antes=1, raise_sizes=[2, 4], num_raises=2, num_suits=2, num_ranks=3,
                  num_hole_cards=1, num_community_cards=[0, 1], num_cards_for_hand=2, mandatory_num_hole_cards=0,
                  order=["pa", "hc"], start_stack=10, wheel=None),
    "KUHN": dict(num_streets=1, blinds=0, antes=1, raise_sizes=1, num_raises=1, num_suits=1, num_ranks=None,
                 num_hole_cards=1, num_community_cards=[0], num_cards_for_hand=1, mandatory_num_hole_cards=0,
                 order=["hc"], start_stack=10, wheel=None),
    "LIMIT_HOLDEM": dict(HOLDEM, blinds=[1, 2], raise_sizes=[2, 2, 4, 4], num_raises=[3, 4, 4, 4], order=RARE),
    "NO_LIMIT_HOLDEM": dict(HOLDEM, blinds=[1, 2], raise_sizes="inf", num_raises="inf", order=RARE),
    "NO_LIMIT_HOLDEM_BB_ANTE": dict(HOLDEM, blinds=[2, 4], antes=[0, 1], raise_sizes="inf", num_raises="inf", order=RARE),
    "POT_LIMIT_OMAHA": dict(HOLDEM, blinds=[1, 2], num_hole_cards=4, mandatory_num_hole_cards=2, raise_sizes="pot",
                            num_raises="inf", order=RARE),
    "SHORT_DECK": dict(HOLDEM, blinds=[1, 2], num_ranks=9, raise_sizes="inf", num_raises="inf",
                       order=["sf", "fk", "fl", "fh", "st", "tk", "tp", "pa", "hc"]),
}


def named(name):
    """The rules the name of a configuration promises, or None."""
    parts = name.rsplit("_", 2)
    if len(parts) != 3 or parts[2] != "PLAYER" or parts[1] not in SIZES or parts[0] not in GAMES:
        return None
    n = SIZES[parts[1]]
    g = dict(GAMES[parts[0]], num_players=n)
    for k in ("blinds", "antes"):
        if isinstance(g[k], list):
            g[k] = g[k] + [0] * (n - len(g[k]))
    if g["num_ranks"] is None:
        g["num_ranks"] = n + 1  # Kuhn poker is played with one card more than players
    return g


class Named(monitors.Modelled):
    """The dealer of a shipped configuration follows the rules of the named game."""

    def __init__(self, want):
        super().__init__({"active", "stacks", "pot", "street_commits", "action", "board", "done", "button", "offers", "over"})
        self.named = model.Rules(want)
        self.want = want

    def _rules(self, ex):
        return self.named

    def begin(self, ex, d, pre, obs):
        w = self.want
        if len(pre) != w["num_players"] or len(obs["stacks"]) != w["num_players"]:
            raise Bad(f"{len(obs['stacks'])} players")
        if list(pre) != [w["start_stack"]] * w["num_players"]:
            raise Bad(f"stacks {pre} before the first hand")
        return super().begin(ex, d, pre, obs)

    def compare(self, rules, m, obs, done, own, what):
        super().compare(rules, m, obs, done, own, what)
        if obs["action"] >= 0 and len(obs["hole_cards"]) != rules.hole:
            raise Bad(f"{what}: {len(obs['hole_cards'])} hole cards")


def known_gap(name):
    """Options in which a shipped configuration is recorded to differ from its game;
    its executions are then judged against what is shipped."""
    return {"LEDUC_TWO_PLAYER": "raise_sizes", "KUHN_THREE_PLAYER": "num_ranks"}.get(name)


def played(st, name, alpha, dev, button):
    c = getattr(clubs.configs, name, None)
    if c is None:
        return
    want = named(name)
    before = repr(c)
    scn = dict(cfg=c, stacks=None, button=button, name=name, shared=True)
    set_scenario({"kind": "game", "scn": scn})
    if want:
        gap = known_gap(name)
        if gap and c[gap] == {"raise_sizes": 2, "num_ranks": 3}[gap]:
            want = dict(want, **{gap: c[gap]})
        mon = Named(want)
    else:
        mon = Paths()
    ex = game.Explorer(st, scn, mon, alpha, deviations=dev)
    ex.run()
    if repr(c) != before:
        raise Bad(f"playing {name} changed the shipped configuration from {before} to {c}",
                  {"kind": "game", "scn": dict(scn, cfg=copy.deepcopy(c))})
    st.add("configurations")


class Season(Named):
    """Many hands of a shipped game at one table."""

    def __init__(self, want, config, before):
        super().__init__(want)
        self.config, self.before = config, before

    def begin(self, ex, d, pre, obs):
        if repr(self.config) != self.before:
            raise Bad(f"{ex.hand} hands changed the shipped configuration from {self.before} to {self.config}")
        return monitors.Modelled.begin(self, ex, d, pre, obs)


def season(st, name, button, count):
    c = getattr(clubs.configs, name, None)
    want = c and named(name)
    if not want:
        return
    gap = known_gap(name)
    if gap and c[gap] == {"raise_sizes": 2, "num_ranks": 3}[gap]:
        want = dict(want, **{gap: c[gap]})
    before = repr(c)
    scn = dict(cfg=c, stacks=None, button=button, name=name, shared=True)
    game.marathon(st, scn, Season(want, c, before), count)
    if repr(c) != before:
        raise Bad(f"{count} hands changed the shipped configuration from {before} to {c}")


def facts(st, names):
    """Deck, hand order, mandatory cards and differences in single options."""
    for name in names:
        tick()
        c = getattr(clubs.configs, name, None)
        if c is None:
            continue
        scn = {"kind": "shipped", "name": name}
        set_scenario(scn)
        before = copy.deepcopy(c)
        d = clubs.Dealer(**c)
        want = named(name)
        # directly from deal to showdown
        obs = d.reset()
        for _ in range(1000):
            obs, payouts, done = d.step(obs["call"])
            if all(done):
                break
        else:
            raise Bad(f"{name} does not reach a showdown", scn)
        st.transitions += 1
        if want is None:
            continue
        gap = known_gap(name)
        if gap == "raise_sizes":
            obs = d.reset(reset_stacks=True)
            d.step(0)
            obs, _, _ = d.step(0)
            if obs["max_raise"] == 2:
                st.finding("LEDUC_TWO_PLAYER second street raise size 2", "LEDUC_TWO_PLAYER has raise size 2 on both streets, Leduc poker is played with raises of 2 and 4")
            elif obs["max_raise"] != 4:
                raise Bad(f"{name}: raise size {obs['max_raise']} on the second street", scn)
        deck = clubs.Dealer(**c).deck
        got = sorted(str(x) for x in deck.draw(60))
        exp = sorted(r + hands_pretty(s) for r in hands.RANKS[13 - want["num_ranks"]:] for s in hands.SUITS[:want["num_suits"]])
        if got != exp:
            if gap == "num_ranks" and len(got) == 3:
                st.finding("KUHN_THREE_PLAYER deck of 3 cards", "KUHN_THREE_PLAYER is played with 3 cards, Kuhn poker for three players with 4")
                want = dict(want, num_ranks=3)
            else:
                raise Bad(f"{name}: deck of {got}", scn)
        ranking(st, name, d, want, scn)
        if c != before:
            raise Bad(f"playing {name} changed the shipped configuration", scn)
        st.states += 1
    st.traces += 1


def hands_pretty(s):
    return {"S": "\u2660", "H": "\u2665", "D": "\u2666", "C": "\u2663"}[s]


def ranking(st, name, d, want, scn):
    """Every pair of hand classes through the evaluator of the dealer."""
    n = want["num_cards_for_hand"]
    cls = hands.classes(want["num_suits"], want["num_ranks"], n, bool(want["wheel"]))
    mand = want["mandatory_num_hole_cards"]
    best, worst = {}, {}
    for (cat, key), (count, reps) in cls.items():
        cards = [hands.card(c) for c in reps[0]]
        h = mand or 0
        s = d.evaluator.evaluate(cards[:h], cards[h:])
        st.transitions += 1
        best[cat] = min(s, best.get(cat, s))
        worst[cat] = max(s, worst.get(cat, s))
        st.outcome((name, s))
    for a, b in zip(want["order"], want["order"][1:]):
        if not worst[a] < best[b]:
            raise Bad(f"{name}: {hands.NAMES[a]} does not beat {hands.NAMES[b]}", scn)
    if set(best) != set(want["order"]):
        raise Bad(f"{name}: hands {sorted(best)}")
    if n == 5:
        # wheel: ace below the lowest rank of the deck
        low = hands.RANKS[13 - want["num_ranks"]:][:4]
        wheel = [hands.card(x) for x in ["AS", low[0] + "H", low[1] + "D", low[2] + "C", low[3] + "S"]]
        s = d.evaluator.evaluate(wheel[:2], wheel[2:])
        if d.evaluator.get_rank_class(s) != "straight" or s != worst["st"]:
            raise Bad(f"{name}: ace to {low[3]} is not the lowest straight", scn)
        suited = [hands.card(r + "S") for r in "A" + low]
        s = d.evaluator.evaluate(suited[:2], suited[2:])
        if d.evaluator.get_rank_class(s) != "straight flush":
            raise Bad(f"{name}: suited ace to {low[3]} is no straight flush", scn)
        # flush on the board with h spades in the hole
        for h in range(0, want["num_hole_cards"] + 1):
            for board in range(max(0, 5 - h), 6 if h + 5 < 10 else 5):
                sp = ["AS", "KS", "JS", "TS", "8S", "7S", "6S", "9S", "QS"]
                off = ["AH", "7D", "TC", "6H"]
                ob = ["KD", "8C", "9H", "JD", "6C"]
                hole = sp[:h] + off[:want["num_hole_cards"] - h]
                rest = sp[h:h + board] + ob[:5 - board]
                s = d.evaluator.evaluate([hands.card(x) for x in hole], [hands.card(x) for x in rest])
                legal = any(
                    a <= h and a <= want["num_hole_cards"] and b <= board and a + b == 5
                    and (not mand or a == mand)
                    for a in range(0, 6) for b in range(0, 6)
                )
                is_flush = d.evaluator.get_rank_class(s) in ("flush", "straight flush")
                if is_flush != legal:
                    raise Bad(f"{name}: {hole} with board {rest} gives {d.evaluator.get_rank_class(s)}", scn)
                st.transitions += 1
    st.traces += 1


def jobs(prop, tier):
    T = tier == "thorough"
    out = []
    if prop == "C22":
        g = grid.cfg
        games = [
            (g(2, 1, 0, 0, "inf", "inf", start=3), [3, 3], "full", None),
            (g(2, 2, 1, 0, "inf", 1, start=3), [3, 3], "full", None),
            (g(2, 2, [1, 2], 1, ["inf", 1], ["inf", 2], start=4), [4, 3], "full", None),
            (g(2, 2, 0, [1, 0], "pot", "inf", start=4), [4, 4], "full", None),
            (g(2, 3, 0, 1, 1, "inf", start=4, comm=1, cards=3), [3, 4], "minmax", None),
            (g(3, 1, 1, 0, 2, 2, start=4), [4, 3, 4], "full", None),
            (g(3, 2, 0, 1, "inf", "inf", start=4, comm=1), [3, 2, 3], "minmax", None),
            (g(3, 3, [1, 2, 0], 0, [1, "pot", "inf"], ["inf", 1, "inf"], start=6), [6, 6, 5], "minmax", 3),
            (g(4, 2, 0, 0, "pot", 2, start=5, comm=2), [4, 5, 3, 5], "minmax", 2),
            (dict(clubs.configs.NO_LIMIT_HOLDEM_SIX_PLAYER), None, "minmax", 1),
        ]
        for c, stacks, alpha, dev in games:
            parts = 4 if len(c) else 1
            for p in range(parts):
                out.append((equivalent, (c, stacks, alpha, dev, p, parts)))
        for c, stacks, alpha, dev in games[2:9:2]:
            out.append((positions, (dict(c, num_suits=4, num_ranks=6), stacks, alpha, 1)))
        for name, c in grid.shipped():
            if c["num_players"] < 9 or T:
                out.append((positions, ({k: v for k, v in c.items() if k in FIRST}, None, "minmax", 1 if c["num_players"] == 2 else 0)))
        out.append((evaluators, ()))
        out += [(lengths, ()), (raise_sizes, ()), (decks, ()), (orders, ()), (render_modes, ())]
    else:
        for name, c in grid.shipped():
            out.append((facts, ([name],)))
            n = c["num_players"]
            small = c["num_streets"] <= 2
            for button in range(n):
                if small:
                    dev, alpha = None, "full"
                elif n == 2:
                    dev, alpha = (4 if T else 3), "sparse"
                elif n == 6:
                    dev, alpha = (2 if T else 1), "sparse"
                else:
                    dev, alpha = (2 if T and button < 3 else 1), "minmax"
                out.append((played, (name, alpha, dev, button)))
            if not small:
                out.append((played, (name, war, 2 if T and n < 9 else 1, 0)))
            out.append((season, (name, n - 1, (2000 if T else 240) if n < 9 else (1200 if T else 120))))
    return out


def war(obs):
    """Raise wars: the smallest raise by default; the largest, calling or folding as
    departures."""
    call, lo, hi = obs["call"], obs["min_raise"], obs["max_raise"]
    acts = []
    for b in (lo, hi):
        if b > call and b not in acts:
            acts.append(b)
    acts.append(call)
    if call:
        acts.append(-1)
    return acts
