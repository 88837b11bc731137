"""C15: the printed table, read back by a parser and compared with the table state."""
import contextlib
import io
import itertools
import re

from mc import game, grid, monitors, views
from mc.common import Bad, set_scenario, tick
from mc.game import Prune

import clubs
from clubs import render

BOUNDS = {
    "C15": "viewer alone: for 2-10 seats every button x player to act x finished or not, with all patterns of "
           "in/folded/all-in seats up to 5 seats (quick: 4) and all patterns with at most two folded or all-in seats "
           "beyond, 1-13 hole cards, 0-40 community cards, all kinds of previous action and payouts; printed and "
           "str() tables of every state of raise wars (up to 130 actions, most with one departure anywhere) and of betting trees of 2-10 seat games and shipped configurations; one dealer through 600-1100 (thorough 4000) hands played in six ways in seven games",
}
ASSUMES = {"C15": ["which of the two marks is shown for a player to act who is all-in is not judged",
                   "the winner line is not judged if nobody wins chips (exact chop)"]}

PLAYER = re.compile(r"(\d+)\.\s+(\S+)\s+(-?[\d,]+)")
BOARD = re.compile(r"\[([^\]]*)\]\s+(-?[\d,]+)")
CARD = re.compile("[2-9TJQKA][\u2660\u2665\u2666\u2663]")
# line of the seat label -> (left slot, right slot), slots are numbered clockwise
ROWS = {1: (0, 1), 4: (9, 2), 7: (8, 3), 11: (7, 4), 14: (6, 5)}
CENTER = 33


def number(t):
    return int(t.replace(",", ""))


def parse(text):
    lines = text.split("\n")
    while lines and not lines[-1].strip() and len(lines) > 19:
        lines.pop()
    seats = {}
    marks = {}
    if len(lines) < 19:
        raise Bad(f"the table has {len(lines)} lines:\n{text}")
    for row in ROWS:
        label, below = lines[row], lines[row + 1]
        halves = [[], []]
        for m in PLAYER.finditer(label):
            halves[0 if m.start() < CENTER else 1].append(m)
        if len(halves[0]) > 1 or len(halves[1]) > 1:
            raise Bad(f"seats overlap in line {row}:\n{text}")
        # a long number on the left moves everything behind it
        first = re.search(r"-?[\d,]+", below)
        center = CENTER + (max(0, len(first.group()) - 7) if first and first.start() < CENTER else 0)
        left, right = below[:center], below[center:]
        for side, part in ((0, left), (1, right)):
            toks = part.replace("/", " ").replace("\\", " ").replace("|", " ").split()
            slot = ROWS[row][side]
            if halves[side]:
                m = halves[side][0]
                nums = [t for t in toks if re.fullmatch(r"-?[\d,]+", t)]
                rest = [t for t in toks if t not in nums]
                if len(nums) != 1:
                    raise Bad(f"seat {m.group(1)} has {len(nums)} commitments in line {row + 1}:\n{text}")
                seat = int(m.group(1)) - 1
                if seat in seats:
                    raise Bad(f"seat {seat + 1} is shown twice:\n{text}")
                seats[seat] = dict(slot=slot, cards=m.group(2).split(","), stack=number(m.group(3)),
                                   commit=number(nums[0]), marks=sorted(rest))
            elif toks:
                raise Bad(f"{toks} at an empty position (line {row + 1}):\n{text}")
            marks[slot] = toks
    mid = BOARD.findall(lines[9]) if len(lines) > 9 else []
    if len(mid) != 1:
        mid = BOARD.findall("\n".join(lines[8:11]))
    if len(mid) != 1:
        raise Bad(f"no community cards and pot:\n{text}")
    return dict(seats=seats, board=mid[0][0].split(",") if mid[0][0] else [], pot=number(mid[0][1]),
                action=lines[17].strip(), win=lines[18].strip() if len(lines) > 18 else "",
                cards=CARD.findall("\n".join(lines[:17])))


slots = {}


def judge(text, c, num_hole, num_comm):
    """Compare a printed table with the state it shows (plain values)."""
    t = parse(text)
    n = len(c["stacks"])
    over = c["done"]
    show = [str(x) for x in c["community_cards"]]

    def bad(msg):
        raise Bad(f"{msg}; state {({k: str(v) if k in ('hole_cards', 'community_cards') else v for k, v in c.items()})}"
                  f", shown:\n{text}")

    if sorted(t["seats"]) != list(range(n)):
        bad(f"seats {sorted(x + 1 for x in t['seats'])} shown of {n}")
    visible = list(show)
    for i in range(n):
        s = t["seats"][i]
        if s["stack"] != c["stacks"][i]:
            bad(f"stack of seat {i + 1} shown as {s['stack']}, is {c['stacks'][i]}")
        want = c["payouts"][i] if over else c["street_commits"][i]
        if s["commit"] != want:
            bad(f"seat {i + 1} shows {s['commit']}, {'payout' if over else 'commitment'} is {want}")
        own = [str(x) for x in c["hole_cards"][i]]
        if not c["active"][i]:
            cards = ["--"] * num_hole
        elif over or i == c["action"]:
            cards = own
            visible += own
        else:
            cards = ["??"] * num_hole
        if s["cards"] != cards:
            bad(f"cards of seat {i + 1} shown as {s['cards']}, expected {cards}")
        marks = ["D"] if i == c["button"] else []
        allowed = [sorted(marks)]
        if not over:
            allin, turn = c["all_in"][i], i == c["action"]
            opts = (["A"] if allin else []) + (["X"] if turn else [])
            if opts:
                allowed = [sorted(marks + [o]) for o in opts] + ([sorted(marks + opts)] if len(opts) > 1 else [])
        if s["marks"] not in allowed:
            bad(f"marks of seat {i + 1} are {s['marks']}, expected {allowed[0]}")
    if sorted(t["cards"]) != sorted(visible):
        bad(f"visible cards are {t['cards']}, should be {visible}")
    if t["board"] != show + ["--"] * (num_comm - len(show)) and (num_comm or t["board"] != []):
        bad(f"community cards shown as {t['board']}")
    if t["pot"] != (0 if over else c["pot"]):
        bad(f"pot shown as {t['pot']}")
    place = [t["seats"][i]["slot"] for i in range(n)]
    turn = [(p - place[0]) % 10 for p in place]
    if turn != sorted(set(turn)) or len(set(turn)) != n:
        bad(f"seats are not placed clockwise at positions of their own: {place}")
    if slots.setdefault(n, place) != place:
        bad(f"seats moved from positions {slots[n]} to {place}")
    if over:
        if t["action"]:
            bad(f"action line {t['action']!r} although the hand is over")
        won = [(i + 1, p) for i, p in enumerate(c["payouts"]) if p > 0]
        if won:
            who = ", ".join(str(i) for i, _ in won)
            how = ", ".join(str(p) for _, p in won)
            want = f"Player {who} won {how}" if len(won) == 1 else f"Players {who} won {how} respectively"
            if t["win"].replace(",", "") != want.replace(",", ""):
                bad(f"winner line is {t['win']!r}, expected {want!r}")
    else:
        if t["win"]:
            bad(f"winner line {t['win']!r} although the hand is running")
        want = f"Action on Player {c['action'] + 1}"
        if c["prev_action"] is not None:
            p, chips, fold = c["prev_action"]
            did = "folded" if fold else f"bet {chips}" if chips else "checked"
            want = f"Player {p + 1} {did} {want}"
        if t["action"].replace(",", "").split() != want.split():
            bad(f"action line is {t['action']!r}, expected {want!r}")


def printed(call, *args):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        call(*args)
    return out.getvalue()


# ------------------------------------------------------------------ viewer alone
NUMS = (0, 7, 123, 4567, 98765, 1234567, 9876543210)
DECK = [game.Card("23456789TJQKA"[i % 13] + "SHDC"[i // 13]) for i in range(52)]


def state(n, active, all_in, act, button, over, hole, board, k):
    stacks = [0 if all_in[i] else NUMS[1:][(i + k) % 6] for i in range(n)]
    deck = DECK[k % 7:] + DECK[:k % 7]
    live = [i for i in range(n) if active[i]]
    payouts = [0] * n
    if over:
        w = live[k % len(live)]
        payouts = [-NUMS[(i + k) % 6] for i in range(n)]
        if k % 4 == 1 and len(live) > 2:
            # everybody left wins another amount
            payouts = [0 if active[i] else -10 ** 7 - i for i in range(n)]
            for j, i in enumerate(live[1:] if k % 8 == 1 else live):
                payouts[i] = (NUMS[1:][(j + k) % 6] + 11 * j) % 10 ** 7 + 1
            if k % 8 == 1:
                payouts[live[0]] = -sum(payouts)
        elif k % 3 == 0 and len(live) > 1:
            w2 = live[(k + 1) % len(live)]
            payouts[w2] = 0
            rest = -sum(x for i, x in enumerate(payouts) if i != w)
            payouts[w2] = rest // 2
            payouts[w] = rest - rest // 2
        else:
            payouts[w] = 0
            payouts[w] = -sum(payouts)
        stacks = [max(s, p) for s, p in zip(stacks, payouts)]
        all_in = [a and s == 0 for a, s in zip(active, stacks)]
    other = (act - 1 - k) % n if not over else k % n
    return {
        "action": -1 if over else act,
        "active": list(active),
        "all_in": list(all_in),
        "community_cards": deck[-board:] if board else [],
        "button": button,
        "done": over,
        "hole_cards": [deck[i * hole:(i + 1) * hole] for i in range(n)],
        "pot": 0 if over else NUMS[1:][k % 6],
        "payouts": payouts,
        "prev_action": (None, (other, 0, True), (other, 0, False), (other, NUMS[1:][k % 6], False))[k % 4],
        "street_commits": [NUMS[(i * 2 + k) % 7] for i in range(n)],
        "stacks": stacks,
    }


def alone(st, n, hole, comm, modes):
    viewer = render.ASCIIViewer(n, hole, comm)
    k = 0
    for mode in modes:
        # per seat 0: in, 1: folded, 2: all-in
        active = [x != 1 for x in mode]
        all_in = [x == 2 for x in mode]
        if sum(active) < 1:
            continue
        tick()
        for button in range(n):
            for act in [i for i in range(n) if active[i]] + [-1]:
                over = act == -1
                if not over and sum(active) < 2:
                    continue
                k += 1
                board = (k * 3) % (comm + 1)
                c = state(n, active, all_in, act, button, over, hole, board, k)
                set_scenario({"kind": "ascii", "seats": n, "hole": hole, "community": comm, "modes": mode,
                              "button": button, "action": act, "k": k})
                keep = {a: list(v) if isinstance(v, list) else v for a, v in c.items()}
                judge(printed(viewer.render, c), keep, hole, comm)
                st.states += 1
                st.transitions += 1
                if c != keep:
                    raise Bad("rendering changed the state it was given")
        st.outcome((n, tuple(mode)))
    st.traces += 1


# ------------------------------------------------------------------ played hands
class Printed(views.Shown):
    def begin(self, ex, d, pre, obs):
        m = monitors.Modelled.begin(self, ex, d, pre, obs)
        deck = [game.Card(c) for c in ex.scn["trick"]]
        c0 = ex.scn["cfg"]["num_community_cards"]
        k = c0[0] if isinstance(c0, list) else c0
        h = ex.scn["cfg"]["num_hole_cards"]
        holes = [deck[k + i * h:k + (i + 1) * h] for i in range(len(pre))]
        if obs["action"] >= 0 and obs["hole_cards"] != holes[obs["action"]]:
            raise Prune("cards")
        self.look(ex, d, obs, [0] * len(pre), False, None, holes)
        return m, holes

    def step(self, ex, d, ms, old, op, obs, payouts, done):
        m, holes = ms
        m2 = monitors.Modelled.step(self, ex, d, m, old, op, obs, payouts, done)
        if not m2.over and obs["hole_cards"] != holes[obs["action"]]:
            raise Prune("cards")
        self.look(ex, d, obs, payouts, all(done), m2.prev, holes)
        return m2, holes

    def look(self, ex, d, obs, payouts, over, prev, holes):
        act = [bool(a) for a in obs["active"]]
        c = {
            "action": obs["action"], "active": act,
            "all_in": [a and s == 0 for a, s in zip(act, obs["stacks"])],
            "community_cards": obs["community_cards"], "button": obs["button"], "done": over,
            "hole_cards": holes, "pot": obs["pot"], "payouts": payouts, "prev_action": prev,
            "street_commits": obs["street_commits"], "stacks": obs["stacks"],
        }
        comm = ex.scn["cfg"]["num_community_cards"]
        comm = sum(comm) if isinstance(comm, list) else comm * ex.scn["cfg"]["num_streets"]
        hole = ex.scn["cfg"]["num_hole_cards"]
        judge(str(d), c, hole, comm)
        judge(printed(d.render, "ascii"), c, hole, comm)


def shard(st, scns):
    for scn, alpha, dev in scns:
        scn = dict(scn, trick=views.full_trick(scn["cfg"], len(st.outcomes) % 13))
        game.Explorer(st, scn, Printed(), alpha, deviations=dev).run()
        st.add("scenarios")


def patterns(n, full):
    if full:
        return [m for m in itertools.product((0, 1, 2), repeat=n) if any(x != 1 for x in m)]
    out = []
    for k in (0, 1, 2):
        for where in itertools.combinations(range(n), k):
            for what in itertools.product((1, 2), repeat=k):
                m = [0] * n
                for i, w in zip(where, what):
                    m[i] = w
                out.append(tuple(m))
    # nearly everybody folded or all-in
    for keep in itertools.combinations(range(n), 2):
        for w in (1, 2):
            m = [w] * n
            for i in keep:
                m[i] = 0
            out.append(tuple(m))
    return sorted(set(out))


def marathon(st, scn, count):
    game.marathon(st, dict(scn, trick=views.full_trick(scn["cfg"], count % 13)), Printed(), count)


def jobs(prop, tier):
    T = tier == "thorough"
    out = []
    for n in range(2, 11):
        ms = patterns(n, n <= (5 if T else 4))
        for i, (hole, comm) in enumerate(((2, 5), (1, 0), (4, 5), (3, 6), (5, 1), (1, 12), (2, 8), (6, 3), (13, 0), (1, 40))):
            if n * hole + comm > 52:
                continue
            part = ms if T or i < 2 else ms[:: 7]
            if n > 7 and not T:
                part = part[i % 3:: 3]
            for ch in grid.chunks(part, 60):
                out.append((alone, (n, hole, comm, ch)))
    g = grid.cfg
    scns = [x for i, x in enumerate(grid.betting("quick")) if T or i % 9 == 0]
    for stacks in ([1, 1], [2, 1], [1, 3]):
        for button in (0, 1):
            scns.append((dict(cfg=g(2, 3, [1, 2], 0, hole=2, cards=2), stacks=stacks, button=button), "full"))
    for ch in grid.chunks(((s, a, None) for s, a in scns), 20):
        out.append((shard, (ch,)))
    for n in range(3, 11):
        for button in range(n):
            stacks = [(0, 30, 4, 1200, 9)[(i + button) % 5] for i in range(n)]
            c = g(n, 2, [1, 2] + [0] * (n - 2), 1, "inf", 2, hole=2, cards=3, comm=[1, 2])
            out.append((shard, ([(dict(cfg=c, stacks=stacks, button=button), "minmax", 2 if T or n < 5 else 1)],)))
    for ch in grid.chunks(grid.layouts(tier, (0, 1, 2, 3, 5, 9) if T else (0, 1, 4, 8)), 40):
        out.append((shard, (ch,)))
    for i, (s, a, d) in enumerate(grid.wars("quick")):
        out.append((shard, ([(s, a, d if T or i % 2 == 0 else 0)],)))
    for s, a, d in grid.shipped_scenarios(tier):
        if T or s["button"] == 0:
            out.append((shard, ([(s, a, d)],)))
    for scn, count in grid.marathons(tier):
        out.append((marathon, (scn, count)))
    return out
