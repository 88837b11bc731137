"""C16 C17 C18: the evaluator against a ranking written from the rules of poker, for
every deck configuration."""
import itertools
import os
from math import comb

from mc import grid
from mc.common import Bad, set_scenario, tick

import clubs
from clubs import error

Card = clubs.Card
Evaluator = clubs.Evaluator

RANKS = "23456789TJQKA"
SUITS = "SHDC"
NAMES = {
    "sf": "straight flush", "fk": "four of a kind", "fh": "full house", "fl": "flush", "st": "straight",
    "tk": "three of a kind", "tp": "two pair", "pa": "pair", "hc": "high card",
}
SHORT = {v: k for k, v in NAMES.items()}
ORDER = ["sf", "fk", "fh", "fl", "st", "tk", "tp", "pa", "hc"]
PATTERN = {
    (4,): "fk", (4, 1): "fk", (3, 2): "fh", (3,): "tk", (3, 1): "tk", (3, 1, 1): "tk", (2, 2): "tp",
    (2, 2, 1): "tp", (2,): "pa", (2, 1): "pa", (2, 1, 1): "pa", (2, 1, 1, 1): "pa",
}

BOUNDS = {
    "C16": "all 520 deck configurations (1-4 suits x 1-13 ranks x 1-5 cards x low straight on/off): every class of "
           "hands ordered against the rules, and every single hand of the deck compared with its class (quick: "
           "decks of up to 32 cards completely and five suit patterns per class of larger ones; thorough: every "
           "hand of every deck), hands also in other card orders",
    "C17": "all splits of card sets (complete small decks of up to 8 cards and 8-card sets of the full deck; quick: "
           "every third split of the latter) into any number of hole and community cards for hand sizes 1-5 and 0-4 "
           "mandatory cards, lists of up to 11 (13) cards in all rotations cut at every place, all orders of small "
           "sets, too few cards; up to 36 (quick) cards with up to 88920 combinations whose best lies at every window and end",
    "C18": "all 520 deck configurations: category order against exact counts, category name of every strength, "
           "printed percentages; custom orders: all permutations of the possible categories of small decks with "
           "the impossible ones in front, behind and between, all rotations and transpositions for 5-card hands",
}
ASSUMES = {"C18": ["categories which occur equally often may rank in either order"]}


def classify(ranks, flush, deck_ranks, low, n):
    """(category, key) of a hand: a bigger key wins within the category."""
    counts = {}
    for r in ranks:
        counts[r] = counts.get(r, 0) + 1
    if len(counts) == n:
        hi = sorted(ranks, reverse=True)
        top = None
        if n >= 3:
            if hi[0] - hi[-1] == n - 1:
                top = hi[0]
            elif low and hi[0] == 12:
                lowest = 13 - deck_ranks
                if hi[1:] == list(range(lowest + n - 2, lowest - 1, -1)):
                    top = -1
        if top is not None:
            return ("sf" if flush else "st"), (top,)
        return ("fl" if flush else "hc"), tuple(hi)
    groups = sorted(counts.items(), key=lambda x: (x[1], x[0]), reverse=True)
    return PATTERN[tuple(c for _, c in groups)], tuple(r for r, _ in groups)


def multisets(deck_ranks, suits, n):
    """All rank combinations of n cards, at most `suits` of each rank."""
    lowest = 13 - deck_ranks
    for c in itertools.combinations_with_replacement(range(12, lowest - 1, -1), n):
        ok = True
        for r in set(c):
            if c.count(r) > suits:
                ok = False
                break
        if ok:
            yield c


def patterns(ranks, suits, n):
    """Non-flush suit choices for a rank combination: (list of card texts)."""
    distinct = len(set(ranks)) == n
    out = []
    for shift in range(suits):
        seen = {}
        hand = []
        for i, r in enumerate(ranks):
            if distinct:
                s = 0 if i else min(1, suits - 1)
                s = (s + shift) % suits
            else:
                k = seen.get(r, 0)
                seen[r] = k + 1
                s = (k + shift) % suits
            hand.append(RANKS[r] + SUITS[s])
        out.append(hand)
    if not distinct and suits > 1:
        # equal ranks on the first suits, every kicker on the last one
        seen = {}
        hand = []
        for r in ranks:
            k = seen.get(r, 0)
            seen[r] = k + 1
            s = k if ranks.count(r) > 1 else suits - 1
            hand.append(RANKS[r] + SUITS[s])
        out.append(hand)
        out.append(hand[::-1])
    elif suits > 1:
        out.append([RANKS[r] + SUITS[i % suits] for i, r in enumerate(ranks)] if n > 1 else out[0])
        out.append([RANKS[r] + SUITS[0 if i < n - 1 else suits - 1] for i, r in enumerate(ranks)])
    return out


def classes(suits, deck_ranks, n, low):
    """{(category, key): (number of hands, [representative hands])}"""
    res = {}
    for ranks in multisets(deck_ranks, suits, n):
        distinct = len(set(ranks)) == n
        total = 1
        for r in set(ranks):
            total *= comb(suits, ranks.count(r))
        flushes = suits if distinct and n >= 3 and suits >= 2 else 0
        if flushes:
            k = classify(ranks, True, deck_ranks, low, n)
            res[k] = (flushes, [[RANKS[r] + SUITS[s] for r in ranks] for s in range(suits)])
        if total - flushes:
            k = classify(ranks, False, deck_ranks, low, n)
            res[k] = (total - flushes, patterns(ranks, suits, n))
    return res


_cards = {}


def card(text):
    c = _cards.get(text)
    if c is None:
        c = _cards[text] = Card(text)
    return c


def table(st, ev, cls, scn):
    """Strength of every class by its first representative; all others must agree."""
    strength = {}
    for k, (count, hands) in cls.items():
        for h in hands:
            s = ev.evaluate([card(c) for c in h], [])
            st.transitions += 1
            if k not in strength:
                strength[k] = s
            elif strength[k] != s:
                raise Bad(f"{h} and {hands[0]} tie under poker rules but have strengths {s} and {strength[k]}", scn)
        st.states += 1
    return strength


def within(st, strength, scn):
    """Strictly ordered inside every category."""
    cats = {}
    for (cat, key), s in strength.items():
        cats.setdefault(cat, []).append((key, s))
    for cat, l in cats.items():
        l.sort(reverse=True)
        for (k1, s1), (k2, s2) in zip(l, l[1:]):
            if not s1 < s2:
                raise Bad(f"{NAMES[cat]} with {_n(k1)} (strength {s1}) does not beat {_n(k2)} (strength {s2})", scn)
            st.transitions += 1
    return cats


def _n(key):
    return "".join(RANKS[r] if r >= 0 else "low" for r in key)


def ordering(st, configs, part, parts, complete):
    """C16 for some configurations; every part-th hand of the deck."""
    for suits, ranks, n, low in configs:
        tick()
        if ranks * suits < n:
            continue
        scn = {"kind": "evaluator", "suits": suits, "ranks": ranks, "cards_for_hand": n, "low_end_straight": low}
        set_scenario(scn)
        ev = Evaluator(suits, ranks, n, low_end_straight=low)
        cls = classes(suits, ranks, n, low)
        strength = table(st, ev, cls, scn)
        if part == 0:
            within(st, strength, scn)
            st.add("configurations")
            if low:
                # the options left out
                for short in (Evaluator(suits, ranks, n), Evaluator(suits, ranks, n, 0)):
                    for k, (_, hs) in cls.items():
                        st.transitions += 1
                        if short.evaluate([card(c) for c in hs[0]], []) != strength[k]:
                            raise Bad(f"strength of {hs[0]} is another one if low_end_straight is left out", scn)
            for k in list(cls)[:: max(1, len(cls) // 60)]:
                # other orders of the same cards
                h = [card(c) for c in cls[k][1][0]]
                for p in itertools.permutations(h):
                    st.transitions += 1
                    if ev.evaluate(list(p), []) != strength[k]:
                        raise Bad(f"strength of {[str(c) for c in p]} depends on the order of its cards", scn)
                for cut in range(n + 1):
                    if ev.evaluate(h[:cut], h[cut:]) != strength[k]:
                        raise Bad(f"strength of {[str(c) for c in h]} depends on the split into hole and board", scn)
        if not complete:
            continue
        deck = [(card(RANKS[r] + SUITS[s]), r, s) for r in range(13 - ranks, 13) for s in range(suits)]
        evaluate = ev.evaluate
        memo = {}
        seen = 0
        for first in range(part, len(deck), parts):
            tick()
            c0, r0, s0 = deck[first]
            for rest in itertools.combinations(deck[first + 1:], n - 1):
                hand = [c0]
                rk = [r0]
                flush = n >= 3 and suits >= 2
                for c, r, s in rest:
                    hand.append(c)
                    rk.append(r)
                    if s != s0:
                        flush = False
                key = (tuple(rk), flush)
                want = memo.get(key)
                if want is None:
                    want = memo[key] = strength[classify(rk, flush, ranks, low, n)]
                got = evaluate(hand, [])
                seen += 1
                if got != want:
                    raise Bad(f"strength of {[str(c) for c in hand]} is {got}, of equal hands {want}", scn)
        st.transitions += seen
        st.add("single_hands", seen)
        st.traces += 1
    st.sample({"configurations (suits, ranks, cards, low)": configs[:3], "part": part, "classes": len(cls)}, 2)


# ------------------------------------------------------------------ C18
def counts(cls):
    res = {}
    for (cat, key), (count, _) in cls.items():
        res[cat] = res.get(cat, 0) + count
    return res


def printed(ev):
    """[(category, percent text)] of the printed evaluator."""
    text = str(ev)
    out = []
    for part in text.split(" > "):
        nm, pc = part.rsplit(" (", 1)
        out.append((SHORT[nm], pc.rstrip(")")))
    return out


def wrong_order(strength, cnt):
    """First pair of categories which rank against their frequency."""
    lo, hi = {}, {}
    for (cat, key), s in strength.items():
        lo[cat] = min(s, lo.get(cat, s))
        hi[cat] = max(s, hi.get(cat, s))
    for a in cnt:
        for b in cnt:
            if cnt[a] < cnt[b] and not hi[a] < lo[b]:
                return a, b
    return None


def rarity(st, configs):
    for suits, ranks, n, low in configs:
        tick()
        if ranks * suits < n:
            continue
        scn = {"kind": "evaluator", "suits": suits, "ranks": ranks, "cards_for_hand": n, "low_end_straight": low}
        set_scenario(scn)
        ev = Evaluator(suits, ranks, n, low_end_straight=low)
        cls = {k: (c, h[:1]) for k, (c, h) in classes(suits, ranks, n, low).items()}
        cnt = counts(cls)
        total = sum(cnt.values())
        if total != comb(suits * ranks, n):
            raise AssertionError("reference count")
        strength = table(st, ev, cls, scn)
        st.add("configurations")
        what = f"{suits} suits, {ranks} ranks, {n} cards" + ("" if low else ", no low straight")
        problems = []
        bad = wrong_order(strength, cnt)
        if bad:
            a, b = bad
            problems.append(f"{NAMES[a]} ({cnt[a]} hands) does not beat {NAMES[b]} ({cnt[b]} hands)")
        got = printed(ev)
        best = {}
        for (cat, key), s in strength.items():
            best[cat] = min(s, best.get(cat, s))
        if [c for c, _ in got] != sorted(best, key=best.get):
            raise Bad(f"{what}: printed order {str(ev)!r} is not the order of the strengths "
                      f"{[NAMES[c] for c in sorted(best, key=best.get)]}", scn)
        for cat, pc in got:
            want = "{:.4%}".format(cnt.get(cat, 0) / total)
            if pc != want:
                problems.append(f"printed share of {NAMES[cat]} is {pc}, exact {want}")
        if problems:
            # may be the recorded three-suit defect: identified by configuration and
            # the complete printed ranking
            st.finding(f"rarity suits={suits} ranks={ranks} cards={n} low={low}: {ev!s}",
                       f"{what}: " + "; ".join(problems))
        blocks(st, ev, strength, scn)
        st.outcome(str(ev))
        st.traces += 1
    st.sample({"last configuration": [suits, ranks, n, low], "evaluator": str(ev)}, 3)


def blocks(st, ev, strength, scn):
    """Categories do not overlap; names of all strengths; outside values rejected."""
    lo, hi = {}, {}
    for (cat, key), s in strength.items():
        lo[cat] = min(s, lo.get(cat, s))
        hi[cat] = max(s, hi.get(cat, s))
        st.transitions += 1
        name = ev.get_rank_class(s)
        if name != NAMES[cat]:
            raise Bad(f"strength {s} of a {NAMES[cat]} is reported as {name}", scn)
    order = sorted(lo, key=lo.get)
    for a, b in zip(order, order[1:]):
        if not hi[a] < lo[b]:
            raise Bad(f"{NAMES[a]} and {NAMES[b]} overlap: {lo[a]}-{hi[a]} and {lo[b]}-{hi[b]}", scn)
    worst = max(hi.values())
    for s in (-1, -5, worst + 2, worst + 100):
        try:
            name = ev.get_rank_class(s)
        except error.InvalidHandRankError:
            continue
        raise Bad(f"strength {s} out of range 0-{worst} is reported as {name}", scn)
    return order


def custom(st, suits, ranks, n, low, orders):
    scn = {"kind": "evaluator", "suits": suits, "ranks": ranks, "cards_for_hand": n, "low_end_straight": low}
    cls = {k: (c, h[:1]) for k, (c, h) in classes(suits, ranks, n, low).items()}
    cnt = counts(cls)
    total = sum(cnt.values())
    for order in orders:
        tick()
        s2 = dict(scn, order=list(order))
        set_scenario(s2)
        given = list(order)
        ev = Evaluator(suits, ranks, n, low_end_straight=low, order=given)
        if given != list(order):
            raise Bad("the order list of the caller was changed", s2)
        strength = table(st, ev, cls, s2)
        within(st, strength, s2)
        got = blocks(st, ev, strength, s2)
        want = [c for c in order if c in cnt]
        if got != want:
            raise Bad(f"custom order {list(order)}: categories rank {got}, expected {want}", s2)
        if [c for c, _ in printed(ev)] != want:
            raise Bad(f"custom order {list(order)}: printed as {ev!s}", s2)
        if suits != 3:  # three-suit shares: see rarity()
            for cat, pc in printed(ev):
                if pc != "{:.4%}".format(cnt[cat] / total):
                    raise Bad(f"custom order {list(order)}: printed share of {NAMES[cat]} {pc}, exact "
                              f"{cnt[cat] / total:.4%}", s2)
        st.add("custom_orders")
        st.outcome(tuple(got))
    st.traces += 1


def spread(perm, impossible, mode):
    if mode == 0:
        return list(impossible) + list(perm)
    if mode == 1:
        return list(perm) + list(impossible)
    out = []
    imp = list(impossible)
    for p in perm:
        if imp:
            out.append(imp.pop())
        out.append(p)
    return out + imp


def custom_orders(suits, ranks, n, low, tier):
    cnt = counts({k: (c, h[:1]) for k, (c, h) in classes(suits, ranks, n, low).items()})
    possible = [c for c in ORDER if c in cnt]
    impossible = [c for c in ORDER if c not in cnt]
    out = []
    if len(possible) <= 6:
        for i, p in enumerate(itertools.permutations(possible)):
            modes = (0, 1, 2) if len(possible) < 6 or tier == "thorough" else (i % 3,)
            for m in modes if impossible else (0,):
                out.append(spread(p, impossible, m))
    else:
        for base in (ORDER, ORDER[::-1]):
            for k in range(9):
                out.append(base[k:] + base[:k])
            for i, j in itertools.combinations(range(9), 2):
                o = list(base)
                o[i], o[j] = o[j], o[i]
                out.append(o)
    return out


# ------------------------------------------------------------------ C17
def best_of(ev, hole, board, k, mand):
    """Independent choice of the best allowed hand (strengths of exact hands are
    judged by C16)."""
    best = None
    if mand:
        for h in itertools.combinations(hole, mand):
            for b in itertools.combinations(board, k - mand):
                s = ev.evaluate(list(h), list(b))
                if best is None or s < best:
                    best = s
    else:
        for h in itertools.combinations(list(hole) + list(board), k):
            s = ev.evaluate(list(h), [])
            if best is None or s < best:
                best = s
    return best


def best_ref(exact, hole, board, k, mand):
    """As best_of with strengths of single hands looked up in `exact`."""
    best = None
    if mand:
        for h in itertools.combinations(hole, mand):
            for b in itertools.combinations(board, k - mand):
                s = exact[frozenset(h + b)]
                if best is None or s < best:
                    best = s
    else:
        for h in itertools.combinations(hole + board, k):
            s = exact[frozenset(h)]
            if best is None or s < best:
                best = s
    return best


def choosing(st, suits, ranks, k, mand, holes, boards, cards=None, stride=1):
    """Every choice of hole and community cards from a card set."""
    scn0 = {"kind": "evaluator", "suits": suits, "ranks": ranks, "cards_for_hand": k, "mandatory": mand}
    set_scenario(scn0)
    ev = Evaluator(suits, ranks, k, mandatory_hole_cards=mand)
    single = Evaluator(suits, ranks, k)
    texts = cards or [RANKS[r] + SUITS[s] for r in range(13 - ranks, 13) for s in range(suits)]
    deck = [card(t) for t in texts]
    idx = range(len(deck))
    exact = {}
    for h in itertools.combinations(idx, k):
        exact[frozenset(h)] = single.evaluate([deck[i] for i in h], [])
    worst = single.evaluate([], [])
    top = max(exact.values())
    if cards:
        # the set does not hold the worst hand of the deck
        top = max(top, single.evaluate([card(t) for t in "7S 5H 4D 3C 2S".split()], []))
    if not top <= worst <= top + 1:
        raise Bad(f"strength {worst} of no cards is not the worst possible one {top}", scn0)
    for nh in holes:
        for nb in boards:
            if nh + nb > len(deck):
                continue
            tick()
            for j, hole in enumerate(itertools.combinations(idx, nh)):
                rest = [i for i in idx if i not in hole]
                for m, board in enumerate(itertools.combinations(rest, nb)):
                    if (j + m) % stride:
                        continue
                    want = best_ref(exact, hole, board, k, mand)
                    if want is None:
                        want = worst
                    hc, bc = [deck[i] for i in hole], [deck[i] for i in board]
                    got = ev.evaluate(hc, bc)
                    st.transitions += 1
                    if got != want:
                        raise Bad(f"strength of hole cards {[str(c) for c in hc]} with board {[str(c) for c in bc]} "
                                  f"({mand} mandatory) is {got}, best allowed hand {want}", scn0)
                    if len(hc) != nh or len(bc) != nb or hc != [deck[i] for i in hole]:
                        raise Bad("evaluating changed the lists of cards", scn0)
                    if (j * 31 + m) % 17 == 0:
                        # other orders of the same cards
                        alt = ev.evaluate(hc[::-1], bc[1:] + bc[:1])
                        if alt != want:
                            raise Bad(f"strength of {[str(c) for c in hc]} with {[str(c) for c in bc]} depends on "
                                      f"their order: {want}, {alt}", scn0)
                        st.transitions += 1
                    st.outcome((nh, nb, mand, got))
            st.states += 1
    st.traces += 1
    st.sample({"suits": suits, "ranks": ranks, "cards_for_hand": k, "mandatory": mand,
               "hole cards": list(holes), "board": list(boards), "cards": texts}, 3)


def wide(st, k, mand, size):
    """More cards than any known game deals: all rotations and reversals of a card
    list cut at every place into hole and community cards."""
    texts = "AS 7H KD 2C TS 9H 8S 3D QS 5C JS 2H 6S AD".split()[:size]
    ev = Evaluator(4, 13, k, mandatory_hole_cards=mand)
    single = Evaluator(4, 13, k)
    deck = {t: card(t) for t in texts}
    exact = {frozenset(h): single.evaluate([deck[t] for t in h], []) for h in itertools.combinations(texts, k)}
    worst = single.evaluate([], [])
    for rot in range(size):
        for cs in (texts[rot:] + texts[:rot], (texts[rot:] + texts[:rot])[::-1]):
            tick()
            for total in (size, k, k + 1, 7):
                for cut in range(total + 1):
                    hole, board = tuple(cs[:cut]), tuple(cs[cut:total])
                    scn = {"kind": "evaluator", "suits": 4, "ranks": 13, "cards_for_hand": k, "mandatory": mand,
                           "hole": hole, "board": board}
                    want = best_ref(exact, hole, board, k, mand)
                    want = worst if want is None else want
                    got = ev.evaluate([deck[t] for t in hole], [deck[t] for t in board])
                    st.transitions += 1
                    if got != want:
                        raise Bad(f"strength of hole cards {hole} with board {board} ({mand} mandatory) is {got}, best "
                                  f"allowed hand {want}", scn)
                    st.outcome((k, mand, got))
            st.states += 1
    st.traces += 1


def positions(n, k):
    """Where the k best of n cards lie: every window, all but one at either end, evenly spread."""
    out = [tuple(range(i, i + k)) for i in range(n - k + 1)]
    if k:
        out += [tuple(range(k - 1)) + (i,) for i in range(k, n)]
        out += [(i,) + tuple(range(n - k + 1, n)) for i in range(n - k)]
        out.append(tuple(i * (n - 1) // max(k - 1, 1) for i in range(k)))
    return [x for x in dict.fromkeys(out) if len(set(x)) == k]


def many(st, k, mand, nh, nb, tier):
    """Thousands of combinations, one of them best, at every place among the others."""
    best = "AS KS QS JS TS".split()[:k] if k != 2 and k != 4 else "AS AH AD AC".split()[:k]
    low = [r + s for r in "23456789" for s in "HDCS"]
    rest = [t for t in low[::3] + low[1::3] + low[2::3] if t not in best] + "TH JD QC KH TC JH KD QD".split()
    ev = Evaluator(4, 13, k, mandatory_hole_cards=mand)
    want = Evaluator(4, 13, k).evaluate([card(t) for t in best], [])
    total = nh + nb
    if mand:
        sets = [tuple(h) + tuple(nh + i for i in b)
                for h in positions(nh, mand) for b in positions(nb, k - mand)]
        if tier == "quick":
            sets = sets[::max(1, len(sets) // 40)] + sets[-1:]
    else:
        sets = positions(total, k)
        if tier == "quick" and comb(total, k) > 8000:
            sets = sets[::3] + sets[-1:]
    for places in sets:
        tick()
        junk = iter(rest)
        top = iter(best)
        cs = [next(top) if i in places else next(junk) for i in range(total)]
        scn = {"kind": "evaluator", "suits": 4, "ranks": 13, "cards_for_hand": k, "mandatory": mand,
               "hole": cs[:nh], "board": cs[nh:]}
        set_scenario(scn)
        got = ev.evaluate([card(t) for t in cs[:nh]], [card(t) for t in cs[nh:]])
        st.transitions += 1
        st.states += 1
        if got != want:
            raise Bad(f"strength of hole cards {cs[:nh]} with board {cs[nh:]} ({mand} mandatory) is {got}, "
                      f"they hold {best} which is {want}", scn)
        st.outcome((k, mand, nh, nb, places))
    st.traces += 1


def all_orders(st, suits, ranks, k, mand, sets):
    """All orders of hole and community cards."""
    ev = Evaluator(suits, ranks, k, mandatory_hole_cards=mand)
    for hole, board in sets:
        tick()
        scn = {"kind": "evaluator", "suits": suits, "ranks": ranks, "cards_for_hand": k, "mandatory": mand,
               "hole": hole, "board": board}
        set_scenario(scn)
        want = best_of(Evaluator(suits, ranks, k), [card(c) for c in hole], [card(c) for c in board], k, mand)
        for h in itertools.permutations(hole):
            for b in itertools.permutations(board):
                got = ev.evaluate([card(c) for c in h], [card(c) for c in b])
                st.transitions += 1
                if got != want:
                    raise Bad(f"strength of {h} with board {b} is {got}, best allowed hand {want}", scn)
        st.states += 1
        st.outcome(want)


# ------------------------------------------------------------------ jobs
def all_configs():
    return [(s, r, n, low) for s in range(1, 5) for r in range(1, 14) for n in range(1, 6) for low in (True, False)]


def jobs(prop, tier):
    out = []
    T = tier == "thorough"
    if prop == "C16":
        big, small = [], []
        for c in all_configs():
            size = comb(c[0] * c[1], c[2])
            (big if size > 60000 else small).append((size, c))
        big.sort(reverse=True)
        limit = 32
        for size, c in big:
            if T or c[0] * c[1] <= limit:
                parts = max(1, min(8, size // 150000))
                for p in range(parts):
                    out.append((ordering, ([c], p, parts, True)))
            else:
                out.append((ordering, ([c], 0, 1, False)))
        for ch in grid.chunks([c for _, c in small], 40):
            out.append((ordering, (ch, 0, 1, True)))
    elif prop == "C18":
        cfgs = sorted(all_configs(), key=lambda c: -comb(c[1] + c[2], c[2]))
        for i in range(24):
            out.append((rarity, (cfgs[i::24],)))
        for suits, ranks, n, low in (
            (4, 5, 3, True), (2, 5, 3, False), (3, 4, 2, True), (4, 4, 4, True), (2, 3, 2, True),
            (1, 5, 3, True), (4, 6, 5, True), (3, 6, 5, True), (4, 9, 5, True), (4, 3, 1, True),
            (2, 7, 5, False), (4, 5, 5, True), (2, 5, 4, True),
        ):
            orders = custom_orders(suits, ranks, n, low, tier)
            if ranks == 9 and not T:
                orders = orders[::5]
            for ch in grid.chunks(orders, 60 if ranks < 9 else 12):
                out.append((custom, (suits, ranks, n, low, ch)))
    else:
        for suits, ranks, k in ((4, 2, 1), (2, 4, 2), (2, 4, 3), (3, 3, 2), (2, 5, 3), (4, 2, 4), (2, 5, 4), (2, 4, 5), (3, 3, 5), (1, 7, 3)):
            for mand in range(0, min(4, k) + 1):
                every = suits * ranks <= 8 or T
                out.append((choosing, (suits, ranks, k, mand, range(0, 9 if every else 5), range(0, 9 if every else 4),
                                       None, 1 if every else 3)))
        mixed = [
            "AS KS QS JS TS 9S 2H 2D".split(), "AH AD KC KS 2D 2S 2C 7H".split(), "5S 4H 3D 2C AS 6H 6D KC".split(),
            "TH 9H 8D 7H 6H AH AC AD".split(), "AS AH AD AC KS KH KD 2C".split(), "2S 3S 4S 5S 7S AH 6D 8C".split(),
            "KS QH JD TC 9S 8H AD AC".split(), "3S 3H 4D 4C 5S 5H 6D 6C".split(),
        ]
        for cs in mixed:
            for mand in range(0, 5):
                out.append((choosing, (4, 13, 5, mand, range(0, 9), range(0, 9), cs, 1 if T else 3)))
        for k in range(1, 6):
            for mand in range(0, k + 1):
                out.append((wide, (k, mand, 13 if T else 11)))
        for k, mand, nh, nb in (
            (5, 0, 2, 13), (5, 0, 2, 18), (5, 0, 0, 15), (5, 0, 17, 0), (5, 0, 9, 9), (4, 0, 5, 20), (3, 0, 4, 28),
            (2, 0, 20, 16), (1, 0, 18, 18), (5, 2, 8, 20), (5, 2, 13, 13), (5, 1, 4, 14), (5, 3, 14, 10), (5, 4, 14, 12),
            (5, 5, 15, 0), (5, 5, 16, 4), (4, 2, 12, 14), (3, 1, 12, 18), (3, 2, 18, 12), (2, 1, 18, 18), (2, 2, 30, 2),
        ):
            out.append((many, (k, mand, nh, nb, tier)))
        if T:
            out += [(many, (5, 0, 4, 21, tier)), (many, (5, 0, 0, 28, tier)), (many, (5, 2, 14, 22, tier))]
        for hole, board, k in (
            ("AS KH", "QD JC TS 2H 3D", 5), ("AS AH KS QS", "JS TS 2D", 5), ("2S 7H 9D", "3S 4S 5S", 4),
            ("AS AD AH AC", "KS KD 2H", 5), ("AH 2H", "3H 4H 9H 5D", 5),
        ):
            for mand in range(0, len(hole.split()) + 1):
                if mand <= k and k - mand <= len(board.split()):
                    out.append((all_orders, (4, 13, k, mand, [(hole.split(), board.split())])))
    return out
