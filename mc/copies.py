"""C31: a copied table or deck is another one in the same state; cards and reports
survive being sent to another process."""
import contextlib
import copy
import io
import itertools
import json
import pickle
import random
import subprocess
import sys

from mc import common, game, grid
from mc.common import Bad, set_scenario, tick
from mc.newhand import look

import clubs

BOUNDS = {
    "C31": "a copy at every state (running or finished) of complete betting trees of small 2-4 seat games and of hands of all shipped "
           "configurations with at most 1 departure from check/call, tricked and shuffled decks: every next action and deal, "
           "then played to the end of that hand and one more in lockstep; copies of copies; one table copied 300 (thorough 3000) times in a "
           "row; decks: all sequences of up to 3 (4) shuffles, draws, tricks and untricks before and 2 after copying; all "
           "cards, and the reports of played hands of all shipped configurations, pickled with every protocol from 2 on, also into another process",
}
ASSUMES = {"C31": ["copies are made with copy.deepcopy; tables themselves are not pickled"]}


def ends(d):
    return look(d), [int(c) for c in d.deck.cards]


class Copies:
    def __init__(self, scn, odds):
        self.scn = scn
        self.odds = odds
        self.n = scn["cfg"]["num_players"]

    def begin(self, ex, d, pre, obs):
        self.judge(ex, d, obs, False)
        return 0

    def step(self, ex, d, ms, old, op, obs, payouts, done):
        self.judge(ex, d, obs, all(done))
        return 0

    def judge(self, ex, d, obs, over):
        before = ends(d)
        a = copy.deepcopy(d)
        if ends(a) != before:
            raise Bad(f"the table is {before}, its copy {ends(a)}")
        b = copy.deepcopy(a)
        if over:
            ops = [dict(reset_stacks=True), dict(reset_button=True, reset_stacks=True)]
            if sum(s > 0 for s in obs["stacks"]) > 1:
                ops = [dict()] + ops
            ops.append(0)
        else:
            ops = game.minmax_alphabet(obs) + [dict(reset_stacks=True)]
        for k, op in enumerate(ops):
            x = a if k == 0 else copy.deepcopy(b if k == 1 else d)
            y = game.clone(d)
            self.both(ex, x, y, op)
            if ends(d) != before:
                raise Bad(f"playing {op} on a copy changed the table from {before} to {ends(d)}")
            if ends(b) != before:
                raise Bad(f"playing {op} on the table changed its copy from {before} to {ends(b)}")
        if self.odds and not over:
            x, y = [float(p) for p in b.win_probabilities()], [float(p) for p in game.clone(d).win_probabilities()]
            if x != y:
                raise Bad(f"the odds are {y}, asking a copy {x}")

    def both(self, ex, x, y, op):
        """Copy x and table y: the same operation, then check/call to the end and another hand."""
        path = [op]

        def same(rx, ry):
            if rx != ry:
                raise Bad(f"after {path} the copied table reports {rx}, the table {ry}")

        for hand in range(2):
            if isinstance(op, dict):
                ox, oy = game.deal(x, self.scn, 7 + hand, **op), game.deal(y, self.scn, 7 + hand, **op)
                same(game.obs_key(ox), game.obs_key(oy))
                obs, over = oy, False
            else:
                rx, ry = x.step(op), y.step(op)
                same(game.ret_key(rx), game.ret_key(ry))
                obs, over = ry[0], all(ry[2])
            k = 0
            while not over:
                path.append(obs["call"])
                rx, ry = x.step(obs["call"]), y.step(obs["call"])
                ex.st.transitions += 1
                same(game.ret_key(rx), game.ret_key(ry))
                obs, over = ry[0], all(ry[2])
                k += 1
                if k > 500:
                    raise Bad(f"hand not over after {k} actions")
            if ends(x) != ends(y):
                raise Bad(f"after {path} the copied table shows {ends(x)}, the table {ends(y)}")
            if sum(s > 0 for s in obs["stacks"]) < 2:
                return
            op = {}
            path.append(op)


def shard(st, scn, alpha, dev, odds=True, hands=1):
    game.Explorer(st, scn, Copies(scn, odds), alpha, deviations=dev, hands=hands, validate=53).run()


def chain(st, scn, count):
    """Copies of copies, playing on with the copy each time."""
    d = game.make_dealer(scn)
    e = game.make_dealer(scn)
    hands = []
    set_scenario(lambda: {"kind": "chain", "scn": scn, "actions": hands})
    over = True
    for k in range(count):
        tick()
        if over:
            full = k == 0 or sum(s > 0 for s in obs["stacks"]) < 2
            kw = dict(reset_stacks=True) if full else {}
            hands.append(kw)
            od, obs = game.deal(d, scn, k, **kw), game.deal(e, scn, k, **kw)
            if game.obs_key(od) != game.obs_key(obs):
                raise Bad(f"after {hands} a table copied again and again deals {game.obs_key(od)}, another {game.obs_key(obs)}")
            over = False
        else:
            acts = game.sparse_alphabet(obs)
            op = acts[k * k % len(acts)]
            hands.append(op)
            rd, re = d.step(op), e.step(op)
            if game.ret_key(rd) != game.ret_key(re):
                raise Bad(f"after {hands} a table copied again and again reports {game.ret_key(rd)}, another {game.ret_key(re)}")
            obs, over = re[0], all(re[2])
        d = copy.deepcopy(d)
        st.transitions += 1
        st.states += 1
    st.traces += 1
    st.top("max_chain", count)


def printing(st, name):
    """Tables which have been printed, copied and played on: each prints its own state."""
    cfg = dict(getattr(clubs.configs, name))
    set_scenario({"kind": "printing", "configuration": name})

    def out(d):
        tick()
        f = io.StringIO()
        with contextlib.redirect_stdout(f):
            d.render(mode="ascii")
        return f.getvalue()

    random.seed(5)
    d = clubs.Dealer(**cfg)
    d.reset(reset_button=True, reset_stacks=True)
    for k in range(3 * cfg["num_players"]):
        if out(d) != str(d) + "\n":
            raise Bad(f"the table prints {out(d)!r}, it is {d!s}")
        c = copy.deepcopy(d)
        was = out(d)
        if out(c) != was:
            raise Bad(f"the copied table prints {out(c)!r}, the table {was!r}")
        _, _, done = c.step((k % 3 - 1) * 1000)
        now = out(c)
        if now != str(c) + "\n" or out(d) != was:
            raise Bad(f"after a step of the copy it prints {now!r} (it is {c!s}), the table {out(d)!r} (before {was!r})")
        _, _, done = d.step(0 if k % 4 == 3 else 1)
        if out(c) != now:
            raise Bad(f"after a step of the table its copy prints {out(c)!r}, before {now!r}")
        if all(done):
            d.reset(reset_stacks=True)
        st.states += 1
    st.traces += 1


# ------------------------------------------------------------------ decks
def apply(d, op, seed):
    """One operation on a deck; what it returns, as text."""
    kind, arg = op
    random.seed(seed)
    if kind == "draw":
        return [str(c) for c in d.draw(arg)]
    if kind == "trick":
        if not arg:
            d.untrick()
        else:
            d.trick([clubs.Card(x) for x in arg])
    else:
        d.shuffle()
    return None


def cards(d):
    return [str(c) for c in d.cards], [str(c) for c in d.full_deck], len(d), str(d)


def decks(st, suits, ranks, before, after):
    full = [r + s for r in "23456789TJQKA"[-ranks:] for s in "SHDC"[:suits]]
    ops = [("shuffle", 0), ("draw", 1), ("draw", max(2, suits * ranks // 2)), ("trick", ()), ("trick", tuple(full[-1:])),
           ("trick", tuple(full[::-2]))]
    tails = list(itertools.product(ops, repeat=after))
    for k in range(before + 1):
        for head in itertools.product(ops, repeat=k):
            set_scenario({"kind": "deck", "suits": suits, "ranks": ranks, "operations": head})
            tick()

            def make():
                random.seed(3)
                d = clubs.Deck(suits, ranks)
                for i, op in enumerate(head):
                    apply(d, op, i)
                return d

            d = make()
            was = cards(d)
            for tail in tails:
                c, e = copy.deepcopy(d), make()
                for i, op in enumerate(tail):
                    x, y = apply(c, op, 90 + i), apply(e, op, 90 + i)
                    if x != y or cards(c) != cards(e):
                        raise Bad(f"a copied deck after {head}: {tail[:i + 1]} gives {x}, {cards(c)}; the deck itself {y}, {cards(e)}")
                    st.transitions += 1
                if cards(d) != was:
                    raise Bad(f"a deck after {head} changed when {tail} was done with its copy: {was} to {cards(d)}")
            # the other way round: the deck goes on, the copy stays
            c = copy.deepcopy(d)
            for i, op in enumerate(tails[len(head) % len(tails)] + (("draw", 1), ("shuffle", 0))):
                apply(d, op, i)
                if cards(c) != was:
                    raise Bad(f"the copy of a deck after {head} changed when {op} was done with the deck")
            st.states += 1
    st.traces += 1


# ------------------------------------------------------------------ cards and reports
CHILD = """
import pickle, sys
sys.path.insert(0, sys.argv[1])
sys.dont_write_bytecode = True
import clubs
for x in pickle.load(sys.stdin.buffer):
    print([str(x), int(x), x.rank, x.suit, x == clubs.Card("%s%s" % (x.rank, x.suit)), x & 0xF00, x | 1])
"""
LETTER = {"♠": "S", "♥": "H", "♦": "D", "♣": "C"}


def view(c):
    return [str(c), int(c), c.rank, c.suit, c == clubs.Card(c.rank + LETTER[c.suit]), c & 0xF00, c | 1]


def all_cards(st):
    set_scenario({"kind": "cards"})
    full = [clubs.Card(r + s) for r in "23456789TJQKA" for s in "SHDC"]
    for c in full:
        tick()
        for p in (-1, *range(2, pickle.HIGHEST_PROTOCOL + 1)):
            for x in (copy.deepcopy(c), copy.copy(c), pickle.loads(pickle.dumps(c, p))):
                if type(x) is not type(c) or view(x) != view(c):
                    raise Bad(f"a copy of the card {view(c)} is {view(x)}")
                if [x == y for y in full] != [c == y for y in full] or [y == x for y in full] != [c == y for y in full]:
                    raise Bad(f"a copy of the card {c} does not equal the same cards")
                st.transitions += 1
        st.states += 1
    for p in range(2, pickle.HIGHEST_PROTOCOL + 1):
        r = subprocess.run([sys.executable, "-B", "-c", CHILD.replace('clubs.Card("%s%s" % (x.rank, x.suit))', '__import__("copy").copy(x)'),
                            common.REPO], input=pickle.dumps(full, p), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=dict(__import__("os").environ, PYTHONIOENCODING="utf-8"))
        got = r.stdout.decode().splitlines()
        if r.returncode or got != [str(view(c)) for c in full]:
            raise Bad(f"cards sent to another process (protocol {p}) become {got[:3]} ... {r.stderr.decode()[-300:]}")
        tick()
        st.states += 1
    st.traces += 1


def reports(st, name):
    cfg = dict(getattr(clubs.configs, name))
    set_scenario({"kind": "reports", "configuration": name})
    random.seed(11)
    d = clubs.Dealer(**cfg)
    o = d.reset(reset_button=True, reset_stacks=True)
    for k in range(4 * cfg["num_players"]):
        tick()
        ret = d.step((1, -1, 1000, 0)[(k + k // 4) % 4])
        for what in (o, ret):
            key = repr(game.ret_key(what) if isinstance(what, tuple) else game.obs_key(what))
            for p in (-1, *range(2, pickle.HIGHEST_PROTOCOL + 1)):
                for x in (copy.deepcopy(what), pickle.loads(pickle.dumps(what, p))):
                    if repr(game.ret_key(x) if isinstance(x, tuple) else game.obs_key(x)) != key:
                        raise Bad(f"a copied report is {x}, the report {what}")
                    a, b = (x[0], what[0]) if isinstance(x, tuple) else (x, what)
                    if [str(c) for c in a["hole_cards"] + a["community_cards"]] != [str(c) for c in b["hole_cards"] + b["community_cards"]]:
                        raise Bad(f"a copied report has the cards {a}, the report {b}")
                    st.transitions += 1
        o = ret[0]
        if all(ret[2]):
            o = d.reset(reset_stacks=True)
        st.states += 1
    st.traces += 1


def jobs(prop, tier):
    T = tier == "thorough"
    g = grid.cfg
    A = ["AS", "KH", "QD", "JC", "TS", "9H", "8D", "7C"]
    out = []
    for k, (c, stacks, alpha, dev) in enumerate((
        (g(2, 1, [1, 2], 0, start=5), [5, 4], "full", None),
        (g(2, 2, [1, 2], [0, 1], "inf", 2, start=6), [6, 6], "minmax", None),
        (g(2, 2, 0, 1, 2, 2, start=9), [9, 7], "minmax", None if T else 3),
        (g(2, 2, [1, 2], 0, "pot", 1, start=12), [12, 9], "minmax", None if T else 3),
        (g(2, 3, [1, 2], 0, ["inf", 2, "pot"], [1, 2, 1], start=9), [9, 9], "minmax", 2),
        (g(3, 1, [1, 2, 0], 0, start=5), [5, 4, 3], "minmax", None),
        (g(3, 2, [1, 1, 0], [0, 1, 0], "inf", 1, start=4), [4, 2, 4], "minmax", 3 if T else 2),
        (g(3, 1, [1, 2, 0], 0, "pot", 2, start=8), [8, 0, 5], "minmax", None),
        (g(4, 1, [1, 2, 0, 0], 0, "inf", 1, start=4), [4, 1, 3, 2], "minmax", 3 if T else 2),
        (g(2, 2, [1, 2], 0, "inf", "inf", start=500), [500, 400], "war", 1),
    )):
        for trick in (None, A):
            for button in range(c["num_players"]) if T else (k % c["num_players"],):
                out.append((shard, (dict(cfg=c, stacks=stacks, button=button, trick=trick), alpha, dev)))
        out.append((chain, (dict(cfg=c, stacks=None, button=0, trick=None), 3000 if T else 300)))
    for name, c in grid.shipped():
        n = c["num_players"]
        scn = dict(cfg=dict(c), stacks=None, button=n - 1, trick=None)
        out.append((shard, (scn, "minmax", None if n == 2 and c["num_streets"] == 1 else 2 if n == 2 and T else 1 if n < 6 or T else 0, False)))
        out.append((chain, (dict(scn, button=0), 1000 if T else 100)))
        out.append((printing, (name,)))
        out.append((reports, (name,)))
    for suits, ranks in ((1, 1), (1, 5), (2, 3), (4, 13), (3, 2), (4, 1)):
        out.append((decks, (suits, ranks, 4 if T and suits * ranks < 10 else 3, 2)))
    out.append((all_cards, ()))
    return out
