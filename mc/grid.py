"""Scenarios explored by the checks of the betting engine."""
import itertools

import clubs


def cfg(n=2, streets=1, blinds=0, antes=0, raises="inf", num="inf", suits=4, ranks=13,
        hole=1, comm=None, cards=1, mand=0, start=10, **kw):
    if comm is None:
        comm = [0] + [1] * (streets - 1)
    c = dict(
        num_players=n, num_streets=streets, blinds=blinds, antes=antes,
        raise_sizes=raises, num_raises=num, num_suits=suits, num_ranks=ranks,
        num_hole_cards=hole, num_community_cards=comm, num_cards_for_hand=cards,
        mandatory_num_hole_cards=mand, start_stack=start,
    )
    c.update(kw)
    return c


def shipped():
    return [(k, getattr(clubs.configs, k)) for k in sorted(dir(clubs.configs))
            if k.isupper() and isinstance(getattr(clubs.configs, k), dict)]


def _label(c):
    return {k: c[k] for k in ("num_players", "num_streets", "blinds", "antes", "raise_sizes", "num_raises")}


def two_seats(tier):
    """Complete trees for two seats: every stack vector up to a bound x forced bets
    x betting structure x button."""
    top = 4 if tier == "quick" else 5
    vecs = [v for v in itertools.product(range(1, top + 1), repeat=2)]
    vecs += [(6, 6), (7, 4), (3, 8)]
    forced = [(0, 0), ([1, 2], 0), ([1, 1], [1, 0]), (0, 1), ([2, 1], 0), ([0, 2], [0, 3]), ([1, 3], 1)]
    betting = [("inf", "inf"), ("pot", "inf"), (1, "inf"), (2, 2), ("inf", 1), (["pot", 1], [2, 1]),
               ([2, "inf"], [1, "inf"]), (float("inf"), 0)]
    for vec in vecs:
        for blinds, antes in forced:
            for rs, nr in betting:
                for streets in (1, 2):
                    if sum(vec) > 11 and streets == 2 and nr == "inf":
                        continue
                    r = rs[:streets] if isinstance(rs, list) else rs
                    k = nr[:streets] if isinstance(nr, list) else nr
                    yield dict(
                        cfg=cfg(2, streets, blinds, antes, r, k, start=max(vec)),
                        stacks=list(vec), button=(sum(vec) + streets) % 2,
                    ), "full"


def three_seats(tier):
    if tier == "quick":
        vecs = [(3, 3, 3), (1, 2, 3), (3, 2, 1), (2, 3, 1), (1, 1, 4), (4, 1, 1), (2, 5, 2),
                (0, 3, 4), (3, 0, 2), (2, 4, 0), (5, 3, 4), (1, 4, 4)]
    else:
        vecs = [v for v in itertools.product(range(0, 5), repeat=3) if sum(x > 0 for x in v) > 1 and sum(v) <= 10]
    forced = [(0, 0), ([1, 2, 0], 0), ([1, 1, 0], [0, 1, 0]), (0, 1), ([0, 1, 2], [2, 0, 1]), (1, 0)]
    betting = [("inf", "inf"), ("pot", "inf"), (1, 2), (2, "inf"), ("inf", 1), (["pot", 2], [1, 2])]
    for vec in vecs:
        for blinds, antes in forced:
            for rs, nr in betting:
                for streets in (1, 2):
                    for button in range(3) if tier != "quick" else ((sum(vec) + streets + len(str(nr))) % 3,):
                        if streets == 2 and nr == "inf" and sum(vec) > 9:
                            continue
                        r = rs[:streets] if isinstance(rs, list) else rs
                        k = nr[:streets] if isinstance(nr, list) else nr
                        yield dict(
                            cfg=cfg(3, streets, blinds, antes, r, k, start=max(vec)),
                            stacks=list(vec), button=button,
                        ), ("full" if sum(vec) <= 10 else "sparse")


def four_seats(tier):
    vecs = [(2, 2, 2, 2), (1, 2, 3, 4), (4, 2, 1, 3), (3, 0, 3, 2), (0, 3, 0, 3), (3, 1, 0, 4), (0, 0, 2, 5)]
    if tier != "quick":
        vecs += [(3, 3, 3, 3), (1, 1, 5, 2), (2, 4, 1, 4), (4, 0, 1, 3), (2, 0, 0, 4), (1, 3, 3, 0)]
    forced = [([1, 2, 0, 0], 0), (0, 1), ([0, 1, 2, 0], [1, 0, 0, 2]), ([1, 1, 2, 0], 0), ([1, 0, 0, 1], 0)]
    betting = [("inf", "inf"), ("pot", 2), (1, 1), ("inf", 1)]
    for vec in vecs:
        for blinds, antes in forced:
            for rs, nr in betting:
                for streets in (1, 2):
                    if streets == 2 and nr == "inf" and sum(vec) > 8:
                        continue
                    for button in range(4) if tier != "quick" else ((vec[1] + streets) % 4,):
                        yield dict(
                            cfg=cfg(4, streets, blinds, antes, rs, nr, start=max(vec)),
                            stacks=list(vec), button=button,
                        ), "sparse"


def deep(tier):
    """Larger stacks, three streets, raise wars: min/max raises and calls only."""
    out = [
        (cfg(2, 3, [1, 2], 0, "inf", "inf"), [12, 12], 0, "sparse"),
        (cfg(2, 3, [1, 2], 0, "pot", "inf"), [30, 17], 1, "minmax"),
        (cfg(2, 3, [1, 2], [0, 2], 2, 3), [30, 30], 0, "minmax"),
        (cfg(2, 2, [1, 2], 0, [2, 4], 4), [60, 60], 1, "minmax"),
        (cfg(3, 2, [1, 2, 0], 0, "inf", "inf"), [9, 7, 12], 2, "minmax"),
        (cfg(3, 2, [1, 2, 0], 0, "pot", 3), [20, 9, 30], 1, "minmax"),
        (cfg(3, 2, [1, 2, 0], 0, 2, 3), [14, 9, 14], 0, "minmax"),
        (cfg(4, 2, [1, 2, 0, 0], 0, 2, 2), [9, 9, 9, 9], 3, "minmax"),
        (cfg(3, 3, [2, 4, 0], [0, 1, 0], ["inf", "pot", 4], [2, 1, 2]), [30, 22, 11], 0, "minmax"),
        (cfg(5, 1, [1, 2, 0, 0, 0], 0, "inf", 2), [5, 3, 9, 0, 6], 4, "minmax"),
    ]
    for c, stacks, button, alpha in out:
        yield dict(cfg=dict(c, start_stack=max(stacks)), stacks=stacks, button=button), alpha


K = 3 * 10 ** 17 + 7  # odd chips far beyond the whole numbers floats can tell apart


def huge(tier):
    """Large amounts: small games with every chip count scaled up, plus odd chips."""
    def scaled(c, k, start):
        c = dict(c)
        for name in ("blinds", "antes", "raise_sizes"):
            v = c[name]
            c[name] = [x * k if isinstance(x, int) else x for x in v] if isinstance(v, list) else (
                v * k if isinstance(v, int) else v)
        return dict(c, start_stack=start)

    base = [
        (cfg(2, 2, [1, 2], [0, 1], "inf", "inf"), [6, 4], 0),
        (cfg(2, 2, [1, 2], 0, "pot", 2), [9, 14], 1),
        (cfg(2, 2, [1, 2], 0, [2, 4], 3), [9, 11], 0),
        (cfg(3, 1, [1, 2, 0], 0, "inf", 2), [5, 4, 6], 2),
        (cfg(3, 2, [1, 2, 0], 1, "pot", 1), [7, 3, 5], 0),
        (cfg(4, 1, [1, 2, 0, 0], 0, "inf", 1), [5, 2, 7, 3], 1),
    ]
    for c, small, button in base:
        for k in (K, 101) if tier == "quick" else (K, 101, 10 ** 4 + 3, 10 ** 9 + 1, 2 ** 31 - 1, 10 ** 25 + 3):
            stacks = [s * k + 1 + 2 * i for i, s in enumerate(small)]
            yield dict(cfg=scaled(c, k, max(stacks)), stacks=stacks, button=button), "minmax"
            # one player has nearly everything
            stacks = [s * k * (1 + 50 * (i == 1)) + i for i, s in enumerate(small)]
            yield dict(cfg=scaled(c, k, max(stacks)), stacks=stacks, button=1 - button // 2), "minmax"


def wide(tier):
    """Many seats and many streets."""
    T = tier == "thorough"
    for n, streets in ((7, 2), (8, 1), (8, 2), (9, 1), (10, 1), (10, 2)):
        c = cfg(n, streets, [1, 2] + [0] * (n - 2), 0, "inf", 2)
        full = [3 + (i * 5) % 7 for i in range(n)]
        holes = [s * (i % 3 != 1) for i, s in enumerate(full)]
        for stacks in (full, holes):
            for button in range(n) if T else (0, n // 2, n - 1):
                yield dict(cfg=dict(c, start_stack=max(stacks)), stacks=stacks, button=button), "minmax", 1 + T
    # everybody folds to a bet, with some departures: few players left at large tables
    for n, k in ((5, 4), (6, 3), (7, 3), (9, 3), (10, 3)):
        for streets in (2, 3):
            c = cfg(n, streets, [1, 2] + [0] * (n - 2), streets - 2, "inf", 2)
            stacks = [(20, 7, 30, 4, 12)[(i * 3 + streets) % 5] for i in range(n)]
            if streets == 3:
                stacks[3] = 0
            for button in range(n) if T else sorted({0, n // 2, n - 1} if streets == 2 else {1}):
                yield dict(cfg=dict(c, start_stack=max(stacks)), stacks=stacks, button=button), "drop", k + (T and n < 8)
    for n, streets, rs in ((2, 8, "inf"), (2, 6, 2), (3, 7, "pot"), (2, 13, "inf")):
        c = cfg(n, streets, [1, 2] + [0] * (n - 2), 0, rs, 2)
        stacks = [40, 33, 50][:n]
        for button in range(n):
            yield dict(cfg=dict(c, start_stack=max(stacks)), stacks=stacks, button=button), "minmax", 2 + T
    yield from ladders(tier)
    yield from lopsided(tier)


def lopsided(tier):
    """Forced bets which leave some seat with more in the pot than those who stay in the hand."""
    T = tier == "thorough"
    for n in range(2, 11):
        for k in range(4):
            first, last = [9] + [0] * (n - 1), [0] * (n - 1) + [6]
            b, a = ((0, last), (0, first), ([1, 2] + [0] * (n - 2), last), (last, [0, 1] + [0] * (n - 2)))[k]
            rs, nr = (("inf", 2), ("pot", 1), (3, 2), ("inf", "inf"))[(n + k) % 4]
            c = cfg(n, 1 + (n + k) % 2, b, a, rs, nr, start=40)
            stacks = [(40, 21, 33)[(i + k) % 3] for i in range(n)]
            if n > 4 and k % 2:
                stacks[n // 2] = 0
            for button in range(n) if T or n < 4 else (k % n,):
                yield dict(cfg=c, stacks=stacks, button=button), "drop", 3 if n < 5 else 2


def ladders(tier):
    """Many streets, each with raise sizes and a number of raises of its own."""
    T = tier == "thorough"

    def odd(i):
        return bin(i).count("1") % 2

    for n, streets in ((2, 6), (2, 9), (2, 14), (2, 20), (2, 27), (3, 7), (4, 11)):
        dev = 2 if n * streets <= (40 if T else 21) else 1
        for kind in range(3):
            if kind == 0:
                rs, nr = [2 + i for i in range(streets)], [1 + odd(i) for i in range(streets)]
            elif kind == 1:
                rs, nr = [("inf", 3 + i)[odd(i)] for i in range(streets)], [(2, "inf", 1)[i * i % 7 % 3] for i in range(streets)]
            else:
                rs, nr = [("inf", "pot")[odd(i + 3)] for i in range(streets)], [2 - odd(i) for i in range(streets)]
            c = cfg(n, streets, [1, 2] + [0] * (n - 2), 0, rs, nr, start=2000)
            yield dict(cfg=c, stacks=[2000 - 7 * i for i in range(n)], button=(streets + kind) % n), "minmax", dev


def wars(tier):
    """Long hands: everybody raises the one before, again and again, with one departure anywhere."""
    T = tier == "thorough"
    for n, top in ((2, 150), (3, 100), (4, 90), (6, 100), (7, 60), (9, 120), (10, 60)):
        for rs, nr, streets in (("inf", "inf", 1), ("inf", 8, 3), (3, "inf", 2), ("pot", "inf", 2), (2, 9, 4)):
            if n in (4, 7, 10) and not T and (rs == "inf") == (nr == "inf"):
                continue
            c = cfg(n, streets, [1, 2] + [0] * (n - 2), 0, rs, nr)
            k = 1 if rs != "pot" else 10 ** 5
            stacks = [(top - 7 * (i % 3)) * k for i in range(n)]
            button = (n * streets) % n
            yield dict(cfg=dict(c, start_stack=top), stacks=stacks, button=button), "climb" if rs == "pot" else "war", 1
            if rs == "inf":
                big = cfg(n, streets, [1000, 2001] + [0] * (n - 2), 7, rs, nr, start=10 ** 6)
                yield dict(cfg=big, stacks=[x * 1000 + i for i, x in enumerate(stacks)], button=n - 1), "war", 1
    # caps of many raises
    for n, nr, rs in ((2, 17, 2), (2, 35, "inf"), (3, 24, 3), (3, 70, 2), (2, 130, 1), (4, [20, 33], 2)):
        c = cfg(n, 2 if isinstance(nr, list) else 1, [1, 2] + [0] * (n - 2), 0, rs, nr, start=5000)
        yield dict(cfg=c, stacks=[5000 - 13 * i for i in range(n)], button=nr % n if isinstance(nr, int) else 1), "war", 1 if nr != 130 else 0


def blank(tier):
    """Streets without community cards, several cards on one street."""
    T = tier == "thorough"
    for n, comm, stacks in (
        (2, [0, 0], [4, 3]), (2, [1, 0], [3, 5]), (2, [0, 0, 1], [4, 4]), (2, [0, 1, 0], [3, 4]), (2, [1, 0, 0], [5, 2]),
        (2, [2, 0, 3], [6, 6]), (2, [0, 2, 0, 1], [5, 7]), (3, [0, 0, 1], [4, 2, 3]), (3, [1, 0, 2], [5, 6, 3]),
        (3, [0, 1, 0], [3, 0, 4]), (4, [0, 0, 1], [4, 2, 5, 3]), (2, [0, 0, 0, 0], [4, 6]),
    ):
        for rs, nr in (("inf", 2), (1, 1), ("pot", "inf")):
            for button in range(n) if T or n == 2 else (len(comm) % n,):
                c = cfg(n, len(comm), [1, 2] + [0] * (n - 2), 0, rs, nr, comm=comm)
                yield dict(cfg=dict(c, start_stack=max(stacks)), stacks=stacks, button=button), "minmax"


def layouts(tier, values=(0, 1, 2, 3, 5, 9)):
    """Numbers of cards: all layouts of community cards over up to three streets, some over more, and many hole cards,
    up to the whole deck. All executions with one departure from check/call."""
    T = tier == "thorough"
    comms = [list(x) for k in (1, 2, 3) for x in itertools.product(values, repeat=k)]
    comms += [[0] * k + [m] for k in (3, 4, 6) for m in (1, 6, 12)] + [[m] + [0] * k for k in (3, 4, 6) for m in (1, 6, 12)]
    comms += [[1] * 12, [3] * 6, [4, 3, 2, 1], [1, 2, 3, 4, 5], [50], [20, 30], [0, 25, 25], [13, 0, 13]]
    # many streets, one of them with another number of cards than the others
    for k in (5, 7, 9, 10, 12, 16) if not T else range(4, 21):
        for at in range(k):
            for base, other in ((1, 2), (0, 2)) if not T else ((1, 2), (1, 0), (1, 3), (0, 2), (2, 1)):
                if sum(comm := [other if j == at else base for j in range(k)]) <= 48:
                    comms.append(comm)
    for i, comm in enumerate(comms):
        for n in (2, 3, 4, 6, 10) if T else (2,) if i % 3 else (2, 3 + i % 8):
            hole = 1 + i % 3
            if sum(comm) + n * hole > 52:
                hole = 1
            if sum(comm) + n * hole > 52:
                continue
            c = cfg(n, len(comm), [1, 2] + [0] * (n - 2), 0, "inf", 1, hole=hole, comm=comm, start=5)
            yield dict(cfg=c, stacks=[5 - (j + i) % 2 for j in range(n)], button=i % n), "minmax", 1
    for n, hole in ((2, 5), (2, 6), (2, 9), (2, 13), (2, 25), (2, 26), (3, 7), (3, 17), (4, 8), (4, 13), (6, 8), (10, 5)):
        for comm in ([0], [0, 1], [1, 1], [0, 2, 0]):
            if sum(comm) + n * hole > 52:
                continue
            c = cfg(n, len(comm), [1, 2] + [0] * (n - 2), 0, "inf", 1, hole=hole, comm=comm, start=5)
            yield dict(cfg=c, stacks=[5 - j % 2 for j in range(n)], button=hole % n), "minmax", 1


def betting(tier):
    parts = (two_seats, three_seats, four_seats, deep, huge, blank)
    for i, (scn, alpha) in enumerate(x for part in parts for x in part(tier)):
        # stacks may be far below or above the starting stack
        top = max(scn["stacks"])
        start = (top, 1, top * 7, top // 5 + 1, 3)[i % 5]
        scn = dict(scn, cfg=dict(scn["cfg"], start_stack=start))
        # whole bets may be passed as floats, and fractions close to them
        if i % 7 in (2, 5):
            scn["bets"] = "float" if i % 7 == 2 else "near"
        yield scn, alpha


def shipped_scenarios(tier):
    """Shipped configurations: all executions with at most k departures from
    check/call."""
    for name, c in shipped():
        n = c["num_players"]
        small = c["num_streets"] <= 2
        if small:
            dev, alpha = None, "full"
        elif n == 2:
            dev, alpha = (3 if tier == "quick" else 4), "sparse"
        elif n == 6:
            dev, alpha = (1 if tier == "quick" else 2), "sparse"
        else:
            dev, alpha = (1 if tier == "quick" else 2), "minmax"
        for button in (0, n - 1):
            yield dict(cfg=dict(c), stacks=None, button=button, name=name), alpha, dev


def chunks(it, size):
    out = []
    for x in it:
        out.append(x)
        if len(out) == size:
            yield out
            out = []
    if out:
        yield out


def marathons(tier):
    """Games which one dealer plays for many hands: (scenario, hands)."""
    T = tier == "thorough"
    for i, (n, streets, rs, nr, comm) in enumerate((
        (2, 2, "inf", "inf", [0, 1]), (3, 3, "pot", 3, [0, 1, 1]), (4, 2, [2, 4], 4, [1, 0]), (5, 1, "inf", 2, [1]),
        (6, 4, ["inf", "pot", 3, "inf"], "inf", [0, 3, 1, 1]), (9, 2, "pot", "inf", [0, 2]), (10, 2, 3, 2, [0, 0]),
    )):
        c = cfg(n, streets, [1, 2] + [0] * (n - 2), [0] * (n - 1) + [1] if i % 2 else 0, rs, nr, suits=4, ranks=13,
                hole=1 + i % 2, comm=comm, cards=min(5, 1 + i % 2 + sum(comm)), start=25)
        yield dict(cfg=c, stacks=None, button=i % n), (4000 if T else 1100 if n < 9 else 600)
