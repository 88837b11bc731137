"""C19 C20 C21: cards, decks and shuffling."""
import itertools
import os
import random
import subprocess
import sys
from fractions import Fraction

from mc import common, game, grid
from mc.common import Bad, set_scenario, tick

import clubs
from clubs import error

Card = clubs.Card
Deck = clubs.Deck

RANKS = "23456789TJQKA"
SUITS = "SHDC"
PRETTY = {"S": "\u2660", "H": "\u2665", "D": "\u2666", "C": "\u2663"}
BACK = {v: k for k, v in PRETTY.items()}

BOUNDS = {
    "C19": "all 13 x 4 cards in all spellings, all 1114112 code points as rank and as suit, all 52 x 52 pairs with "
           "&, |, ==, != in both operand orders, every card with 0-20 bit shifts and 40 integers",
    "C20": "all operation sequences up to depth 5 (thorough 6) over draw 0/1/2/all+1, shuffle, several tricks "
           "(empty to whole deck), untrick, printing and overwriting all lists handed out, on decks of 1-6 cards; "
           "all 52 suit x rank subdecks with every length of tricked prefix; all outcomes of the shuffle after all "
           "operation sequences up to length 3 / 2 / 1 (thorough 3 / 3 / 2) incl. every trick on decks of 2 / 3 / 4 cards; one deck (2-52 cards) through every word of "
           "3-4 operations, one after another (histories of 1500-28000 operations)",
    "C21": "all outcomes of the random source for decks up to 6 (thorough 7) cards: fresh, from every order before "
           "(up to 4 cards), after all draws, tricked with every prefix length, untricked, and the dealer's deals; "
           "52-card decks: all outcomes with at most one (thorough: two) choices differing from three reference "
           "choice sequences, every other of the 52 suit x rank decks against one, with every number of tricked cards (52 and 36 cards); decks and dealers used up to 256 (thorough 1024) times before; seeds 0-99 for reproducibility, also in another process, and one seed on all 52 decks (fresh, drawn, tricked, untricked, dealt)",
}
ASSUMES = {
    "C20": ["tricked cards are distinct cards of the deck", "between tricking and the next shuffle the order is free"],
    "C21": ["the standard library's _randbelow and getrandbits are uniform; random() is real-valued: judged by "
            "relative order or, for multiples, on the grid of all denominators up to the deck size"],
}


# ------------------------------------------------------------------ C19
def prime(i):
    ps = []
    k = 2
    while len(ps) <= i:
        if all(k % p for p in ps):
            ps.append(k)
        k += 1
    return ps[i]


def encode(r, s):
    return (1 << (16 + r)) | (1 << (12 + s)) | (r << 8) | prime(r)


def all_cards(st):
    cards = []
    for r, rc in enumerate(RANKS):
        for s, sc in enumerate(SUITS):
            code = encode(r, s)
            for a in {rc, rc.lower()}:
                for b in {sc, sc.lower()}:
                    scn = {"kind": "card", "text": a + b}
                    set_scenario(scn)
                    c = Card(a + b)
                    if str(c) != rc + PRETTY[sc]:
                        raise Bad(f"Card({a + b!r}) prints as {c}", scn)
                    if int(c) != code:
                        raise Bad(f"Card({a + b!r}) is encoded as {int(c):#x}, documented {code:#x}", scn)
                    if c.rank != rc or c.suit != PRETTY[sc]:
                        raise Bad(f"Card({a + b!r}) has rank {c.rank!r} and suit {c.suit!r}", scn)
                    if rc + PRETTY[sc] not in repr(c):
                        raise Bad(f"Card({a + b!r}) has repr {c!r}", scn)
                    st.states += 1
                    st.outcome(code)
                    cards.append((c, code, str(c)))
    ints = [0, 1, 2, 3, 5, 0xFF, 0xF00, 0xF000, 0x1FFF0000, -1, 2 ** 31, 2 ** 40 + 7] + [1 << i for i in range(29)]
    one = cards[::1]
    for (a, ca, ta), (b, cb, tb) in itertools.product(one, one):
        scn = {"kind": "cards", "texts": [ta, tb]}
        set_scenario(scn)
        same = ca == cb
        if (a == b) is not same or (a != b) is same:
            raise Bad(f"{ta} == {tb} is {a == b}", scn)
        for got, want, what in ((a & b, ca & cb, "&"), (a | b, ca | cb, "|"),
                                (a & int(b), ca & cb, "& int"), (int(a) & b, ca & cb, "int &"),
                                (a | int(b), ca | cb, "| int"), (int(a) | b, ca | cb, "int |")):
            if got != want or isinstance(got, Card):
                raise Bad(f"{ta} {what} {tb} is {got}, expected {want}", scn)
            st.transitions += 1
    tick()
    for a, ca, ta in one:
        set_scenario({"kind": "card", "text": ta})
        for k in range(21):
            if a << k != ca << k or a >> k != ca >> k:
                raise Bad(f"{ta} shifted by {k} is {a << k} / {a >> k}, expected {ca << k} / {ca >> k}")
        for i in ints:
            if a & i != ca & i or i & a != ca & i or a | i != ca | i or i | a != ca | i:
                raise Bad(f"{ta} combined with {i:#x} is not the operation on its encoding")
            st.transitions += 4
    st.traces += 1
    st.sample({"card": cards[0][2], "encoding": hex(cards[0][1])})


def unknown(st, lo, hi):
    known_r = set(RANKS) | set(RANKS.lower())
    known_s = set(SUITS) | set(SUITS.lower())
    for cp in range(lo, hi):
        ch = chr(cp)
        if cp % 4096 == 0:
            tick()
        for text, ok, exc, what in ((ch + "s", ch in known_r, error.InvalidRankError, "rank"),
                                    ("A" + ch, ch in known_s, error.InvalidSuitError, "suit")):
            st.transitions += 1
            try:
                c = Card(text)
            except exc:
                if ok:
                    raise Bad(f"{what} {ch!r} is rejected", {"kind": "card", "text": text})
                continue
            except Exception as e:
                raise Bad(f"{what} {ch!r} (U+{cp:04X}) fails with {e!r}", {"kind": "card", "text": text})
            if not ok:
                raise Bad(f"unknown {what} {ch!r} (U+{cp:04X}) gives {c}", {"kind": "card", "text": text})
        st.states += 1


# ------------------------------------------------------------------ C20
def subdeck(suits, ranks):
    return [r + PRETTY[s] for r in RANKS[13 - ranks:] for s in SUITS[:suits]]


def listed(deck):
    t = str(deck)
    if t[:1] != "[" or t[-1:] != "]":
        raise Bad(f"deck prints as {t!r}")
    return t[1:-1].split(",") if len(t) > 2 else []


def to_card(text):
    return Card(text[0] + BACK[text[1]])


def operations(full):
    n = len(full)
    tricks = {(), (full[-1],), tuple(reversed(full)), tuple(full[:2][::-1])}
    if n > 2:
        tricks.add((full[n // 2], full[0]))
    ops = [("draw", k) for k in sorted({0, 1, 2, n + 1})]
    ops += [("shuffle",), ("untrick",), ("vandal",)]
    ops += [("trick",) + t for t in sorted(tricks)]
    return ops


def run_deck(suits, ranks, path, st=None):
    """Execute a sequence of operations on a real deck, every result judged."""
    full = subdeck(suits, ranks)
    random.seed(len(path))
    d = Deck(suits, ranks)
    top = None
    handed = []
    cur = listed(d)
    if sorted(cur) != sorted(full):
        raise Bad(f"new deck holds {cur}")
    for op in path:
        loose = False
        if op[0] == "draw":
            got = d.draw() if op[1] == 1 and len(path) % 2 else d.draw(op[1])
            handed.append(got)
            want = cur[:op[1]]
            if [str(c) for c in got] != want:
                raise Bad(f"draw({op[1]}) from {cur} gives {[str(c) for c in got]}")
            cur = cur[op[1]:]
        elif op[0] == "shuffle":
            ret = d.shuffle()
            if ret is not d:
                raise Bad("shuffle does not return the deck")
            now = listed(d)
            if sorted(now) != sorted(full):
                raise Bad(f"shuffled deck holds {now}")
            if top is not None and now[:len(top)] != list(top):
                raise Bad(f"deck tricked with {list(top)} shuffles to {now}")
            cur = now
        elif op[0] == "trick":
            arg = [to_card(t) for t in op[1:]]
            if d.trick(arg) is not d:
                raise Bad("trick does not return the deck")
            if [str(c) for c in arg] != list(op[1:]):
                raise Bad("trick changed the list of cards")
            handed.append(arg)
            top = op[1:]
            loose = True
        elif op[0] == "untrick":
            if d.untrick() is not d:
                raise Bad("untrick does not return the deck")
            top = None
            loose = True
        else:
            for l in handed:
                l[:] = [to_card(full[0])] * 3
        now = listed(d)
        if loose and sorted(now) == sorted(cur):
            cur = now
        if now != cur or len(d) != len(cur):
            raise Bad(f"after {op}: deck of {len(d)} cards {now}, expected {cur}")
        if st is not None:
            st.transitions += 1
            if st.transitions % 256 == 0:
                tick()
            st.outcome((tuple(cur), top))
    return d


def sequences(st, suits, ranks, depth, first):
    full = subdeck(suits, ranks)
    ops = operations(full)
    for k in range(0, depth):
        for tail in itertools.product(ops, repeat=k):
            path = (ops[first],) + tail
            if st.states % 512 == 0:
                tick()
            scn = {"kind": "deck", "suits": suits, "ranks": ranks, "path": path}
            set_scenario(scn)
            try:
                run_deck(suits, ranks, path, st if k == depth - 1 else None)
            except Bad as e:
                e.msg = f"{e.msg}; deck of {suits} suits {ranks} ranks, operations {path}"
                e.scenario = scn
                raise
            st.states += 1
    st.traces += 1
    st.sample({"deck": full, "first": ops[first], "depth": depth}, 2)


def de_bruijn(k, n):
    """Shortest cyclic sequence over range(k) with every word of length n."""
    a = [0] * k * n
    out = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                out.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)

    db(1, 1)
    return out + out[:n - 1]


def lengthy(st, suits, ranks, word):
    """One deck through every word of operations of that length, one after another."""
    full = subdeck(suits, ranks)
    ops = operations(full) + [("draw", 5), ("trick",) + tuple(full[1::3])]
    path = [ops[i] for i in de_bruijn(len(ops), word)]
    scn = {"kind": "deck", "suits": suits, "ranks": ranks, "path": path}
    set_scenario(scn)
    try:
        run_deck(suits, ranks, path, st)
    except Bad as e:
        e.msg = f"{e.msg}; deck of {suits} suits {ranks} ranks, in a history of {len(path)} operations"
        e.scenario = scn
        raise
    st.states += len(path)
    st.traces += 1
    st.top("longest_history", len(path))


def subdecks(st):
    for suits in range(1, 5):
        for ranks in range(1, 14):
            full = subdeck(suits, ranks)
            order = full[::-1][1::2] + full[::2] + full[::-1][::2]
            order = list(dict.fromkeys(order))
            order += [c for c in full if c not in order]
            for k in range(0, len(full) + 1):
                tick()
                path = (("trick",) + tuple(order[:k]), ("shuffle",), ("draw", k), ("shuffle",), ("draw", 60),
                        ("shuffle",), ("untrick",), ("shuffle",), ("draw", 3), ("shuffle",), ("draw", 60), ("draw", 1))
                scn = {"kind": "deck", "suits": suits, "ranks": ranks, "path": path}
                set_scenario(scn)
                try:
                    run_deck(suits, ranks, path, st)
                except Bad as e:
                    e.scenario = scn
                    raise
                st.states += 1
    st.traces += 1


# ------------------------------------------------------------------ C21
class Source:
    """The random source under control: every choice is enumerated."""

    def __init__(self, mode="below"):
        self.script = []
        self.trace = []
        self.reals = None
        self.default = lambda k: 0

    def choose(self, k):
        i = len(self.trace)
        v = self.script[i] if i < len(self.script) else self.default(k)
        self.trace.append((v, k))
        return v

    def below(self, k):
        return self.choose(k) if k > 1 else 0

    def bits(self, k):
        return self.choose(1 << k) if k else 0

    def real(self):
        self.used_real = True
        if self.reals is None:
            raise NeedReals()
        kind, arg = self.reals
        if kind == "grid":
            return (self.choose(arg) + 0.5) / arg
        # relative order: position among the earlier values
        r = self.choose(len(self.order) + 1)
        vals = sorted(self.order)
        lo = vals[r - 1] if r else 0.0
        hi = vals[r] if r < len(vals) else 1.0
        v = (lo + hi) / 2
        self.order.append(v)
        return v

    def install(self):
        i = random._inst
        i._randbelow = self.below
        i.random = self.real
        i.getrandbits = self.bits
        self.keep = (random.random, random.getrandbits)
        random.random, random.getrandbits = self.real, self.bits

    def remove(self):
        i = random._inst
        for a in ("_randbelow", "random", "getrandbits"):
            i.__dict__.pop(a, None)
        random.random, random.getrandbits = self.keep

    def run(self, script, func):
        self.script = list(script)
        self.trace = []
        self.order = []
        self.install()
        try:
            return func()
        finally:
            self.remove()


class NeedReals(Exception):
    pass


def outcomes(func, st, reals=None, limit=2000000):
    """All executions of func(): {result: weight}."""
    src = Source()
    src.reals = reals
    dist = {}
    script = []
    runs = 0
    while True:
        res = src.run(script, func)
        runs += 1
        st.transitions += 1
        if runs % 2000 == 0:
            tick()
        w = Fraction(1)
        for _, k in src.trace:
            w /= k
        dist[res] = dist.get(res, 0) + w
        if runs > limit:
            raise AssertionError("too many outcomes of the random source")
        script = [v for v, _ in src.trace]
        ks = [k for _, k in src.trace]
        while script and script[-1] + 1 >= ks[len(script) - 1]:
            script.pop()
        if not script:
            break
        script[-1] += 1
    st.states += len(dist)
    st.top("max_outcomes_of_one_shuffle", runs)
    return dist


def distribution(func, st, n):
    try:
        return [outcomes(func, st)]
    except NeedReals:
        out = [outcomes(func, st, ("order", None))]
        if n <= 4:
            lcm = 1
            for k in range(1, n + 1):
                lcm = lcm * k // __import__("math").gcd(lcm, k)
            out.append(outcomes(func, st, ("grid", lcm)))
        return out


def fair(func, orders, st, n, what, scn):
    """Every one of the expected orders equally likely."""
    set_scenario(scn)
    tick()
    dists = distribution(func, st, n)
    problem = None
    for dist in dists:
        want = Fraction(1, len(orders))
        wrong = [(o, dist.get(o, 0)) for o in sorted(orders) if dist.get(o, 0) != want]
        extra = [o for o in dist if o not in orders]
        if not wrong and not extra:
            problem = None
            break
        o, w = (extra[0], dist[extra[0]]) if extra else wrong[0]
        problem = f"{what}: order {o} has probability {w}, expected {0 if extra else want}"
    if problem:
        raise Bad(problem, scn)
    st.traces += 1
    st.outcome((what, len(orders)))


def sized(n):
    """A deck of n cards as (suits, ranks)."""
    return {1: (1, 1), 2: (2, 1), 3: (1, 3), 4: (2, 2), 5: (1, 5), 6: (2, 3), 7: (1, 7), 8: (4, 2)}[n]


def prepared(suits, ranks, ops):
    """A deck after some operations with an ordinary random source."""
    random.seed(3)
    d = Deck(suits, ranks)
    for op in ops:
        if op[0] == "trick":
            d.trick([to_card(t) for t in op[1:]])
        else:
            getattr(d, op[0])(*op[1:])
    return d


def shuffles(st, n, ops, what):
    suits, ranks = sized(n)
    full = subdeck(suits, ranks)
    top = ()
    for op in ops:
        if op[0] == "trick":
            top = op[1:]
        elif op[0] == "untrick":
            top = ()
    rest = [c for c in full if c not in top]
    orders = {tuple(top) + p for p in itertools.permutations(rest)}
    scn = {"kind": "shuffle", "suits": suits, "ranks": ranks, "operations": ops}

    def func():
        d = game.clone(base)
        d.shuffle()
        return tuple(listed(d))

    base = prepared(suits, ranks, ops)
    fair(func, orders, st, n, f"{what}: shuffling a deck of {n} cards after {list(ops)}", scn)
    # the same without relying on copies, if it is small
    if n <= 4:
        def again():
            d = prepared_inside(suits, ranks, ops)
            return tuple(listed(d))

        def prepared_inside(suits, ranks, ops):
            src = current[0]
            src.remove()
            d = prepared(suits, ranks, ops)
            src.install()
            d.shuffle()
            return d

        current = [None]
        orig_run = Source.run

        def run(self, script, func):
            current[0] = self
            return orig_run(self, script, func)

        Source.run = run
        try:
            fair(again, orders, st, n, f"{what}: shuffling a deck of {n} cards after {list(ops)}", scn)
        finally:
            Source.run = orig_run


def op_words(n, depth):
    """All sequences of operations on a deck of n cards, every trick included."""
    full = subdeck(*sized(n))
    ops = [("draw", k) for k in range(1, n + 2)] + [("shuffle",), ("untrick",)]
    ops += [("trick",) + t for k in range(n + 1) for t in itertools.permutations(full, k)]
    return [w for k in range(depth + 1) for w in itertools.product(ops, repeat=k)]


def after_words(st, n, words, exact):
    """The shuffle after any sequence of operations: every order of the cards which
    are not tricked is possible (exact: equally likely), no other one."""
    suits, ranks = sized(n)
    full = subdeck(suits, ranks)
    for ops in words:
        top = ()
        for op in ops:
            if op[0] == "trick":
                top = op[1:]
            elif op[0] == "untrick":
                top = ()
        rest = [c for c in full if c not in top]
        orders = {tuple(top) + p for p in itertools.permutations(rest)}
        scn = {"kind": "shuffle", "suits": suits, "ranks": ranks, "operations": ops}
        base = prepared(suits, ranks, ops)

        def func():
            d = game.clone(base)
            d.shuffle()
            return tuple(listed(d))

        if exact:
            fair(func, orders, st, n, f"shuffling a deck of {n} cards after {list(ops)}", scn)
            continue
        set_scenario(scn)
        tick()
        got = set(distribution(func, st, n)[0])
        if got != orders:
            if got - orders:
                raise Bad(f"shuffling a deck of {n} cards after {list(ops)} can give {sorted(got - orders)[0]}", scn)
            raise Bad(f"shuffling a deck of {n} cards after {list(ops)} can never give {sorted(orders - got)[0]}: "
                      f"other cards than the tricked ones have a fixed place", scn)
        st.outcome((top, len(got)))
    st.traces += 1


def fresh_decks(st, sizes):
    for n in sizes:
        suits, ranks = sized(n)
        orders = set(itertools.permutations(subdeck(suits, ranks)))

        def func():
            return tuple(listed(Deck(suits, ranks)))

        fair(func, orders, st, n, f"new deck of {n} cards", {"kind": "shuffle", "suits": suits, "ranks": ranks})


def every_order(st, n, ops):
    """From every order before: constructor, operations and shuffle all enumerated."""
    suits, ranks = sized(n)
    full = subdeck(suits, ranks)
    top = ()
    for op in ops:
        if op[0] == "trick":
            top = op[1:]
    rest = [c for c in full if c not in top]
    after = [tuple(top) + p for p in itertools.permutations(rest)]
    orders = {(a, b) for a in itertools.permutations(full) for b in after}

    def func():
        d = Deck(suits, ranks)
        a = tuple(listed(d))
        for op in ops:
            if op[0] == "trick":
                d.trick([to_card(t) for t in op[1:]])
            else:
                getattr(d, op[0])(*op[1:])
        d.shuffle()
        return a, tuple(listed(d))

    fair(func, orders, st, n, f"new deck of {n} cards and, after {list(ops)}, shuffled again",
         {"kind": "shuffle", "suits": suits, "ranks": ranks, "operations": ops})


def deals(st, cfg, plays):
    """The cards of a deal: board, hole cards, rest of the deck."""
    full = subdeck(cfg["num_suits"], cfg["num_ranks"])
    orders = set(itertools.permutations(full))
    random.seed(5)
    base = clubs.Dealer(**cfg)
    for p in plays:
        base.reset(reset_stacks=True)
        for b in p:
            base.step(b)

    def func():
        d = game.clone(base)
        d.reset(reset_stacks=True)
        cards = list(d.community_cards)
        for h in d.hole_cards:
            cards += h
        return tuple(str(c) for c in cards) + tuple(listed(d.deck))

    fair(func, orders, st, len(full), f"deal after hands {list(plays)}",
         {"kind": "deal", "cfg": cfg, "hands before": plays})


def big(st, suits, ranks, ops, default, pairs, part, parts):
    """Large decks: all outcomes within a few choices of a reference sequence."""
    scn = {"kind": "shuffle", "suits": suits, "ranks": ranks, "operations": ops}
    set_scenario(scn)
    base = prepared(suits, ranks, ops)
    full = subdeck(suits, ranks)
    k = 0
    for op in ops:
        if op[0] == "trick":
            k = len(op) - 1
        elif op[0] == "untrick":
            k = 0
    src = Source()

    def func():
        d = game.clone(base)
        d.shuffle()
        return tuple(listed(d))

    def need():
        p = 1
        for _, b in src.trace:
            p *= b
        return p

    total = 1
    for i in range(2, len(full) - k + 1):
        total *= i
    what = f"shuffling {len(full)} cards after {list(ops)}"
    # orders by the weight of the outcome producing them: exactly one in `total`, or less
    whole, part_of = {}, {}

    def default_of(b):
        return 0 if default == "low" else b - 1 if default == "high" else b // 2

    def visit(script):
        """One outcome; choices beyond the script are the default ones."""
        src.default = default_of
        order = src.run(script, func)
        st.transitions += 1
        if sorted(order) != sorted(full):
            raise Bad(f"shuffled deck holds {order}", scn)
        w = need()
        choices = [v for v, _ in src.trace]
        if w < total:
            raise Bad(f"{what}: order {order[:6]}... has at least probability 1/{w}, expected 1/{total}", scn)
        if w == total:
            other = whole.get(order) or part_of.get(order)
            if len(whole) < 1500000:
                whole[order] = choices if not pairs else (1,)
        else:
            other = whole.get(order)
            if len(part_of) < 1500000:
                part_of[order] = choices if not pairs else (1,)
        if other:
            raise Bad(f"{what}: order {order[:6]}... is produced by the random choices {other} and {choices}, so it is "
                      f"too likely", scn)
        return src.trace

    try:
        ref = visit([])
        ks = [b for _, b in ref]
        base_script = [v for v, _ in ref]
        longer = 0
        for i, b in enumerate(ks):
            tick()
            for v in range(b):
                if v == base_script[i]:
                    continue
                s = base_script[:i] + [v] + base_script[i + 1:]
                trace = visit(s)
                got = [b for _, b in trace]
                if got != ks:
                    # this outcome uses the source in another way: follow it with one more choice
                    longer += 1
                    if longer <= 12:
                        vals = [v for v, _ in trace]
                        for j in range(i + 1, len(got)):
                            for w in range(got[j]):
                                if w != vals[j]:
                                    visit(vals[:j] + [w] + vals[j + 1:] if j < len(ks) else vals[:j] + [w])
                        tick()
                elif pairs and i % parts == part:
                    for j in range(i + 1, len(ks)):
                        for w in range(0, ks[j], 5):
                            if w != base_script[j]:
                                visit(s[:j] + [w] + s[j + 1:])
        ways = 1
        for b in ks:
            ways *= b
        if not longer and ways % total:
            raise Bad(f"{what}: {ways} outcomes of the random source cannot produce {total} orders equally often", scn)
        st.add("irregular_outcomes", longer)
    except NeedReals:
        st.add("large_decks_skipped")
        return
    seen = whole
    st.states += len(seen)
    st.traces += 1
    st.outcome((ops, default, len(seen)))


def course(seed, kind, prior):
    """Everything drawn in one reproducible run."""
    if kind == "deck":
        d = Deck(4, 13)
        for _ in range(prior):
            d.draw(prior * 3)
            d.shuffle()
        random.seed(seed)
        d.shuffle()
        out = [str(d)]
        d.draw(5)
        d.shuffle()
        out.append(str(d))
        d.trick([Card("AS"), Card("2C")]).shuffle()
        out.append(str(d))
        d.untrick().shuffle()
        out.append(str(d))
        out.append(str(Deck(3, 7)))
        return out
    dealer = clubs.Dealer(**clubs.configs.NO_LIMIT_HOLDEM_SIX_PLAYER)
    for _ in range(prior):
        dealer.reset(reset_stacks=True)
        dealer.step(-1)
    random.seed(seed)
    out = []
    for _ in range(2):
        dealer.reset(reset_button=True, reset_stacks=True)
        over = False
        while not over:
            ret = dealer.step(2 if len(out) % 2 else 0)
            over = all(ret[2])
        out.append(str([[str(c) for c in h] for h in dealer.hole_cards]) + str([str(c) for c in ret[0]["community_cards"]]))
    return out


def reproducible(st, seeds):
    for seed in seeds:
        tick()
        for kind in ("deck", "dealer"):
            scn = {"kind": "seed", "seed": seed, "what": kind}
            set_scenario(scn)
            want = course(seed, kind, 0)
            for prior in (0, 1, 3):
                if course(seed, kind, prior) != want:
                    raise Bad(f"seed {seed} gives other cards the second time ({kind}, {prior} uses before)", scn)
                st.transitions += len(want)
            st.states += 1
            st.outcome(tuple(want))
    if len({str(course(s, "deck", 0)) for s in seeds}) < len(seeds):
        raise Bad("different seeds give equal decks")
    st.traces += 1


def every_size(st, sizes):
    """Equal seeds, equal cards: every deck, also drawn from, tricked and dealt by a dealer."""
    for suits, ranks in sizes:
        n = suits * ranks
        full = subdeck(suits, ranks)
        layout = grid.cfg(2, 1, 0, 0, hole=1, suits=suits, ranks=ranks) if n > 1 else None
        for ops in ((), ("draw",), ("trick",), ("untrick",), ("deal",)):
            if ops == ("deal",) and (layout is None or n < 2):
                continue
            scn = {"kind": "seed", "suits": suits, "ranks": ranks, "operations": ops}
            set_scenario(scn)
            tick()

            def once(prior):
                if ops == ("deal",):
                    d = clubs.Dealer(**layout)
                    for _ in range(prior):
                        d.reset(reset_stacks=True)
                        d.step(-1)
                    random.seed(4)
                    d.reset(reset_button=True, reset_stacks=True)
                    return str([[str(c) for c in h] for h in d.hole_cards]), tuple(listed(d.deck))
                if ops == () and not prior:
                    random.seed(4)
                    return tuple(listed(Deck(suits, ranks)))
                d = Deck(suits, ranks)
                for _ in range(prior):
                    d.shuffle()
                if ops and ops[0] == "draw":
                    d.draw(n // 2)
                elif ops:
                    d.trick([to_card(t) for t in full[: max(1, n // 3)]])
                    if ops[0] == "untrick":
                        d.shuffle()
                        d.untrick()
                random.seed(4)
                d.shuffle()
                a = tuple(listed(d))
                d.shuffle()
                return a, tuple(listed(d))

            want = [once(0), once(1)]
            for _ in range(2):
                for prior in (0, 1, 2):
                    got = once(prior)
                    if got != want[min(prior, 1)]:
                        raise Bad(f"equal seeds give other cards ({n} cards, after {list(ops)}): {got} and {want[min(prior, 1)]}", scn)
                    st.transitions += 1
            st.states += 1
            st.outcome((suits, ranks, ops, want[0]))
    st.traces += 1


def process(st):
    """Another interpreter with another hash seed deals the same cards."""
    code = ("import sys; sys.path[:0]=[%r,%r]; from mc import cards; "
            "print([cards.course(s, k, 0) for s in range(5) for k in ('deck','dealer')].__repr__().encode('unicode_escape').decode())"
            % (common.VERIF, common.REPO))
    want = [course(s, k, 0) for s in range(5) for k in ("deck", "dealer")].__repr__().encode("unicode_escape").decode()
    for hs in ("1", "77"):
        tick()
        env = dict(os.environ, PYTHONHASHSEED=hs, PYTHONDONTWRITEBYTECODE="1")
        got = subprocess.run([sys.executable, "-B", "-c", code], env=env, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, timeout=100).stdout.decode().strip()
        if got != want:
            raise Bad("equal seeds give other cards in another process", {"kind": "seed", "hash seed": hs})
        st.states += 1
        st.transitions += 10
    st.traces += 1


# ------------------------------------------------------------------ jobs
def jobs(prop, tier):
    T = tier == "thorough"
    out = []
    if prop == "C19":
        out.append((all_cards, ()))
        step = 0x110000 // 16
        for i in range(16):
            out.append((unknown, (i * step, (i + 1) * step)))
    elif prop == "C20":
        out.append((subdecks, ()))
        for suits, ranks in ((4, 13), (4, 9), (2, 3), (1, 13), (3, 5), (1, 2)):
            out.append((lengthy, (suits, ranks, 4 if T or suits * ranks < 10 else 3)))
        for n, depth in ((2, 3), (3, 3 if T else 2), (4, 2 if T else 1)):
            for ch in grid.chunks(op_words(n, depth), 300 if n < 4 else 60):
                out.append((after_words, (n, ch, False)))
        for suits, ranks in ((1, 1), (1, 2), (3, 1), (2, 2), (2, 3)) + (((4, 1), (1, 5)) if T else ()):
            depth = 6 if T and suits * ranks < 5 else 5
            for first in range(len(operations(subdeck(suits, ranks)))):
                out.append((sequences, (suits, ranks, depth, first)))
    else:
        top = 7 if T else 6
        out.append((fresh_decks, (range(1, top + 1),)))
        for n, depth in ((2, 3), (3, 3 if T else 2), (4, 2 if T else 1)):
            for ch in grid.chunks(op_words(n, depth), 300 if n < 4 else 60):
                out.append((after_words, (n, ch, True)))
        for n in range(1, top + 1):
            full = subdeck(*sized(n))
            for k in range(0, n + 1):
                out.append((shuffles, (n, (("draw", k),), "drawn")))
            for k in range(0, n + 1):
                t = ("trick",) + tuple(full[::-1][:k])
                out.append((shuffles, (n, (t,), "tricked")))
                out.append((shuffles, (n, (t, ("shuffle",), ("draw", k + 1)), "tricked and drawn")))
                out.append((shuffles, (n, (t, ("shuffle",), ("untrick",)), "untricked")))
                if n <= 4:
                    out.append((shuffles, (n, (t, ("shuffle",), ("trick",) + tuple(full[:2])), "tricked again")))
        for n in range(1, 5):
            full = subdeck(*sized(n))
            for ops in ((), (("draw", 1),), (("draw", n),), (("trick", full[-1]),), (("trick",) + tuple(full[:2]), ("untrick",))):
                if ops and ops[-1][0] == "untrick":
                    continue
                out.append((every_order, (n, ops)))
        # a deck and a dealer which were used many times before
        for m in list(range(3, 21)) + [31, 32, 52, 63, 64, 99, 100, 127, 128, 255, 256] + ([499, 999, 1000, 1023, 1024] if T else []):
            full = subdeck(*sized(4))
            out.append((shuffles, (4, (("shuffle",), ("draw", 1)) * m, "used often")))
            out.append((shuffles, (3, (("shuffle",), ("trick", subdeck(*sized(3))[m % 3]), ("shuffle",), ("draw", 2), ("untrick",))
                                   * m, "tricked often")))
            if m < 130:
                out.append((deals, (grid.cfg(2, 1, 0, 0, hole=1, suits=2, ranks=2), ([0, 0], [-1], [0, 3, 0]) * (m // 3) + ([0, 0],) * (m % 3))))
        g = grid.cfg
        for c, plays in (
            (g(2, 1, 0, 0, hole=1, suits=2, ranks=2), ()), (g(2, 2, 0, 0, hole=1, suits=1, ranks=5, comm=[1, 1]), ()),
            (g(2, 2, 0, 0, hole=1, suits=1, ranks=5, comm=[1, 1]), ([0, 0, 0],)),
            (g(3, 1, 0, 0, hole=1, suits=2, ranks=3), ([-1, -1],)),
            (g(2, 2, [1, 2], 0, hole=2, suits=3, ranks=2, comm=[0, 2], cards=2), ([-1], [1, 0, 0, 0])),
            (dict(clubs.configs.LEDUC_TWO_PLAYER), ()), (dict(clubs.configs.LEDUC_TWO_PLAYER), ([0, 0, 0, 0], [2, -1])),
        ):
            out.append((deals, (c, plays)))
        for suits, ranks in ((4, 13), (4, 9), (2, 13)):
            for default in ("low", "high", "mid"):
                for ops in ((), (("draw", 9),), (("trick", "A\u2660", "K\u2665"), ("shuffle",)),
                            (("trick", "A\u2660", "K\u2665"), ("shuffle",), ("untrick",))):
                    parts = 4 if T else 1
                    for p in range(parts):
                        out.append((big, (suits, ranks, ops, default, T, p, parts)))
        for suits, ranks in ((4, 13), (4, 9)):
            full = subdeck(suits, ranks)
            for k in range(1, len(full) - 1):
                out.append((big, (suits, ranks, (("trick",) + tuple(full[::-1][:k]),), "low" if k % 2 else "mid", False, 0, 1)))
        all_sizes = [(s, r) for s in range(1, 5) for r in range(1, 14)]
        for suits, ranks in all_sizes:
            full = subdeck(suits, ranks)
            if len(full) > top and (suits, ranks) not in ((4, 13), (4, 9), (2, 13)):
                some = {2, len(full) // 2, len(full) - 3, len(full) - 2}
                for ops in ((), (("draw", len(full) // 2),)) + tuple((("trick",) + tuple(full[::-1][:k]), ("shuffle",)) for k in sorted(some)):
                    out.append((big, (suits, ranks, ops, "low", False, 0, 1)))
        for ch in grid.chunks(all_sizes, 8):
            out.append((every_size, (ch,)))
        for ch in grid.chunks(range(100), 13):
            out.append((reproducible, (ch,)))
        out.append((process, ()))
    return out
