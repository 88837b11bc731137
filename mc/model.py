"""Reference model of a hand, written from the rules (README, docstrings), not from
the implementation.  Immutable: every operation returns a new state."""
from collections import namedtuple

INF = float("inf")


def expand(v, n):
    return list(v) if isinstance(v, list) else [v] * n


class Rules:
    def __init__(self, cfg):
        n = self.n = cfg["num_players"]
        s = self.streets = cfg["num_streets"]
        self.blinds = expand(cfg["blinds"], n)
        self.antes = expand(cfg["antes"], n)
        self.raise_sizes = [
            INF if r in ("inf", INF) else r for r in expand(cfg["raise_sizes"], s)
        ]
        self.num_raises = [float(r) for r in expand(cfg["num_raises"], s)]
        self.community = expand(cfg["num_community_cards"], s)
        self.hole = cfg["num_hole_cards"]
        self.big_blind = self.blinds[1]


State = namedtuple(
    "State",
    "button action street stacks commit street_commit folded busted acted "
    "largest raises board over pre prev",
)


def seats_from(start, n):
    return [(start + i) % n for i in range(n)]


def next_live(rules, folded, frm):
    """First seat clockwise after frm which is still in the hand."""
    for seat in seats_from(frm + 1, rules.n):
        if not folded[seat]:
            return seat
    raise AssertionError("nobody in the hand")


def deal(rules, pre, button):
    """State after the deal."""
    n = rules.n
    busted = [s == 0 for s in pre]
    folded = list(busted)
    # posting order: two seats: button first, otherwise first seat after it
    start = button if n == 2 else next_live(rules, folded, button)
    order = [s for s in seats_from(start, n) if not busted[s]]
    stacks = list(pre)
    commit = [0] * n
    street = [0] * n
    for k, seat in enumerate(order):
        a = min(stacks[seat], rules.antes[k])
        stacks[seat] -= a
        commit[seat] += a
        b = min(stacks[seat], rules.blinds[k])
        stacks[seat] -= b
        commit[seat] += b
        street[seat] += b
    action = next_live(rules, folded, next_live(rules, folded, start))
    return State(
        button=button, action=action, street=0, stacks=tuple(stacks),
        commit=tuple(commit), street_commit=tuple(street), folded=tuple(folded),
        busted=tuple(busted), acted=tuple(folded), largest=rules.big_blind, raises=0,
        board=rules.community[0], over=False, pre=tuple(pre), prev=None,
    )


def offers(rules, m, seat=None):
    """(call, smallest raise, largest raise) for the seat."""
    if m.over:
        return 0, 0, 0
    if seat is None:
        seat = m.action
    have = m.stacks[seat]
    due = max(m.street_commit) - m.street_commit[seat]
    size = rules.raise_sizes[m.street]
    pot = sum(m.commit)
    if m.raises >= rules.num_raises[m.street]:
        lo = hi = 0
    elif m.raises > 0 and due < m.largest:
        lo = hi = 0
    elif size == "pot":
        hi = pot + 2 * due
        lo = min(max(rules.big_blind, m.largest + due), hi)
    elif size == INF:
        hi = have
        lo = max(rules.big_blind, m.largest + due)
    else:
        lo = hi = size + due
    return min(due, have), min(lo, have), min(hi, have)


def normalise(bet, call, lo, hi):
    """(fold?, chips) for a passed bet of any size."""
    fold = bet < 0
    # closest whole number, half way rounds down
    whole = int(bet // 1)
    if bet - whole > 0.5:
        whole += 1
    whole = max(0, whole)
    if lo > hi:
        legal = {0, call, lo, hi}
    else:
        # of lo..hi only the closest one
        legal = {0, call, min(max(whole, lo), hi)}
    chips = min(legal, key=lambda v: (abs(v - whole), v))
    if call > 0 and (fold or chips < call):
        return True, 0
    if fold:
        chips = min(chips, 0)
    return False, chips


def act(rules, m, fold, chips):
    """State after the player to act folds or puts in chips."""
    n = rules.n
    seat = m.action
    call, _, _ = offers(rules, m)
    size = rules.raise_sizes[m.street]
    need = m.largest if size == "pot" or size == INF else size
    stacks, commit = list(m.stacks), list(m.commit)
    street_commit, folded, acted = list(m.street_commit), list(m.folded), list(m.acted)
    largest, raises = m.largest, m.raises
    if fold:
        folded[seat] = True
    else:
        if chips > call and chips - call >= need:
            largest = chips - call
            raises += 1
        stacks[seat] -= chips
        commit[seat] += chips
        street_commit[seat] += chips
    acted[seat] = True
    live = [s for s in range(n) if not folded[s]]
    m = m._replace(
        stacks=tuple(stacks), commit=tuple(commit), street_commit=tuple(street_commit),
        folded=tuple(folded), acted=tuple(acted), largest=largest, raises=raises,
        prev=(seat, chips, fold),
    )
    if len(live) == 1:
        return m._replace(over=True, action=-1)
    top = max(street_commit)
    with_chips = [s for s in live if stacks[s] > 0]
    agreed = not with_chips or all(
        acted[s] and (street_commit[s] == top or stacks[s] == 0) for s in live
    )
    if not agreed:
        return m._replace(action=next_live(rules, folded, seat))
    street, board = m.street, m.board
    over = False
    while True:
        street += 1
        if street >= rules.streets:
            over = True
            break
        board += rules.community[street]
        if len(with_chips) > 1:
            break
    return m._replace(
        street=street, board=board, over=over,
        action=-1 if over else next_live(rules, folded, m.button),
        street_commit=(0,) * n, acted=tuple(folded), raises=0,
    )


def done_flags(m):
    if m.over:
        return [True] * len(m.stacks)
    return [f or s == 0 for f, s in zip(m.folded, m.stacks)]


def divide(commit, folded, strength, button, merge_dead=True):
    """Reference division of the pot at a showdown. strength: lower is better.
    Returns the chips every player gets back.  Chips which only folded players
    committed are part of the deepest pot or (merge_dead=False) pots of their own
    for the same winners; the rules do not tell, it only matters for odd chips."""
    n = len(commit)
    live = [i for i in range(n) if not folded[i]]
    got = [0] * n
    levels = sorted(set(commit) - {0})
    pots = []  # [winners, chips]
    below = 0
    for level in levels:
        chips = sum(min(c, level) - min(c, below) for c in commit)
        can = [i for i in live if commit[i] >= level]
        if can:
            best = min(strength[i] for i in can)
            winners = [i for i in can if strength[i] == best]
            if pots and pots[-1][0] == winners:
                pots[-1][1] += chips
            else:
                pots.append([winners, chips])
        else:
            # only folded players committed this much
            if merge_dead:
                pots[-1][1] += chips
            else:
                pots.append([pots[-1][0], chips])
        below = level
    for winners, chips in pots:
        for w in winners:
            got[w] += chips // len(winners)
        odd = chips % len(winners)
        if odd:
            first = min(winners, key=lambda i: (i - button - 1) % n)
            got[first] += odd
    return got
