"""C14: the state handed to viewers, and that looking at the table changes nothing."""
import contextlib
import io
import itertools
import random

from mc import game, grid, monitors
from mc.common import Bad, set_scenario, tick
from mc.game import Prune

import clubs
from clubs import render

BOUNDS = {
    "C14": "every state of the betting trees of 2-5 seat games (thorough: of the full grid) and of the shipped "
           "configurations with at most 1-2 departures from check/call, first and (small games) second and third hands, every deal, finished hands, finished hands "
           "after refused deals, one dealer through 600-1100 (thorough 4000) hands played in six ways in seven games; states handed to custom, ascii and web viewers; every execution of small games "
           "(two hands) once with all ways of looking at the table between all operations and once without",
}
ASSUMES = {"C14": ["the table itself is judged by C01-C12: executions leaving the reference are pruned here",
                   "the web viewer class is replaced by a recording stand-in (its transport is C23)"]}

seen = []


class Recorder(render.PokerViewer):
    def render(self, config, sleep=0):
        seen.append(config)


def _init(self, *args, **kwargs):
    render.PokerViewer.__init__(self, *args, **kwargs)


PRINT = render.ASCIIViewer.render


def patch(printing=False):
    """Built-in viewers record what they are asked to render."""
    render.ASCIIViewer.render = PRINT if printing else Recorder.render
    g = render.GraphicViewer
    g.__init__ = _init
    g.render = Recorder.render
    g.__del__ = lambda self: None


def looks(d):
    """All states handed to viewers right now."""
    n = d.num_players
    out = []
    keep = d.viewer
    for mode in ("ascii", "human", "custom"):
        d.viewer = None
        if mode == "custom":
            d.viewer = Recorder(n, d.num_hole_cards, sum(d.num_community_cards))
        del seen[:]
        if mode == "human":
            d.render()
        else:
            d.render(mode="ascii")
        if len(seen) != 1:
            raise Bad(f"render (mode {mode}) handed {len(seen)} states to the viewer")
        out.append((mode, seen[0]))
    d.viewer = keep
    return out


def check(d, obs, payouts, over, prev, holes, when):
    for mode, c in looks(d):
        where = f"{when}, {mode} viewer"
        act = [bool(a) for a in obs["active"]]
        want = {
            "action": obs["action"],
            "active": act,
            "all_in": [a and s == 0 for a, s in zip(act, obs["stacks"])],
            "community_cards": [int(x) for x in obs["community_cards"]],
            "button": obs["button"],
            "done": over,
            "pot": obs["pot"],
            "payouts": list(payouts),
            "street_commits": list(obs["street_commits"]),
            "stacks": list(obs["stacks"]),
            "prev_action": prev,
        }
        got = dict(c)
        if set(got) != set(want) | {"hole_cards"}:
            raise Bad(f"{where}: fields {sorted(got)}")
        got["active"] = [bool(a) for a in c["active"]]
        got["all_in"] = [bool(a) for a in c["all_in"]]
        got["community_cards"] = [int(x) for x in c["community_cards"]]
        got["prev_action"] = None if c["prev_action"] is None else tuple(c["prev_action"])
        for k in want:
            if k in ("payouts", "street_commits", "stacks"):
                got[k] = list(got[k])
            if got[k] != want[k]:
                raise Bad(f"{where}: {k} shown as {got[k]}, is {want[k]}")
        if c["done"] not in (True, False) or (prev and c["prev_action"][2] not in (True, False)):
            raise Bad(f"{where}: {c['done']!r} / {c['prev_action']!r} are no truth values")
        hc = [[int(x) for x in h] for h in c["hole_cards"]]
        if len(hc) != len(holes):
            raise Bad(f"{where}: hole cards of {len(hc)} of {len(holes)} seats")
        for i, h in enumerate(hc):
            if h != holes[i]:
                raise Bad(f"{where}: hole cards of seat {i} shown as {[str(x) for x in c['hole_cards'][i]]}, "
                          f"dealt {holes[i]}")


class Shown(monitors.Modelled):
    """The reference follows the hand; every state handed to a viewer is compared."""

    def __init__(self):
        super().__init__(set(), set())

    def begin(self, ex, d, pre, obs):
        m = super().begin(ex, d, pre, obs)
        deck = [int(game.Card(c)) for c in ex.scn["trick"]]
        c0 = ex.scn["cfg"]["num_community_cards"]
        k = c0[0] if isinstance(c0, list) else c0
        h = ex.scn["cfg"]["num_hole_cards"]
        holes = [deck[k + i * h:k + (i + 1) * h] for i in range(len(pre))]
        if obs["action"] >= 0 and [int(c) for c in obs["hole_cards"]] != holes[obs["action"]]:
            raise Prune("cards")
        check(d, obs, [0] * len(pre), False, None, holes, "deal")
        return m, holes

    def step(self, ex, d, ms, old, op, obs, payouts, done):
        m, holes = ms
        m2 = super().step(ex, d, m, old, op, obs, payouts, done)
        if not m2.over and [int(c) for c in obs["hole_cards"]] != holes[obs["action"]]:
            raise Prune("cards")
        over = all(done)
        check(d, obs, payouts, over, m2.prev, holes, f"after {m2.prev}")
        if over and sum(s > 0 for s in obs["stacks"]) < 2:
            try:
                game.deal(d, ex.scn, 99)
            except clubs.error.TooFewActivePlayersError:
                pass
            else:
                raise Prune("deal")
            check(d, obs, payouts, over, m2.prev, holes, "after a refused deal")
        return m2, holes


def full_trick(cfg, shift):
    """A known order of the whole deck."""
    ranks, suits = cfg["num_ranks"], cfg["num_suits"]
    deck = ["23456789TJQKA"[12 - r] + "SHDC"[s] for r in range(ranks) for s in range(suits)]
    n = len(deck)
    step = 7
    while any(n % p == 0 and step % p == 0 for p in (2, 3, 5, 7, 11, 13)):
        step += 1
    return [deck[(shift + i * step) % n] for i in range(n)]


def shard(st, scns, hands=1):
    patch()
    for scn, alpha, dev in scns:
        scn = dict(scn, trick=full_trick(scn["cfg"], len(st.outcomes) % 13))
        game.Explorer(st, scn, Shown(), alpha, deviations=dev, hands=hands).run()
        st.add("scenarios")


def before(st):
    """Nothing dealt yet."""
    patch()
    for name, c in grid.shipped():
        tick()
        set_scenario({"kind": "shipped", "name": name})
        d = clubs.Dealer(**c)
        for mode, s in looks(d):
            n = c["num_players"]
            if list(s["stacks"]) != [c["start_stack"]] * n or s["pot"] or any(s["payouts"]) or s["community_cards"] \
                    or s["prev_action"] is not None or any(s["street_commits"]):
                raise Bad(f"{name}: rendered before the first deal as {s}")
        st.states += 1


class Paths:
    def __init__(self):
        self.paths = []

    def begin(self, ex, d, pre, obs):
        return 0

    def step(self, ex, d, ms, old, op, obs, payouts, done):
        return 0


class Record(game.Explorer):
    def _leaf(self, obs):
        self.mon.paths.append(list(self.path))


MODES = ("str", "repr", "ascii", "human", "custom", "all")


def look(d, mode, k):
    if mode == "all":
        mode = MODES[k % 5]
    if mode == "str":
        str(d)
    elif mode == "repr":
        repr(d)
    elif mode == "custom":
        d.viewer = Recorder(d.num_players, d.num_hole_cards, sum(d.num_community_cards))
        d.render()
    else:
        d.render(mode)


def course(scn, path, mode):
    """Everything observable of one execution, the random source seeded only once."""
    d = game.make_dealer(dict(scn, trick=None))
    if scn.get("stacks"):
        d.stacks = list(scn["stacks"])
    random.seed(11)
    k = 0
    if mode:
        look(d, mode, k)
    out = [game.obs_key(d.reset())]
    for op in path:
        if mode:
            for _ in range(2):
                k += 1
                look(d, mode, k)
        if op == "R":
            try:
                out.append(game.obs_key(d.reset()))
            except clubs.error.TooFewActivePlayersError:
                out.append("refused")
                break
        else:
            out.append(game.ret_key(d.step(op)))
    if mode:
        look(d, mode, k)
    out.append(game.ret_key(d.step(1)))
    try:
        out.append(game.obs_key(d.reset()))
    except clubs.error.TooFewActivePlayersError:
        out.append("refused")
    out.append(random.random())
    return out


def pure(st, scn, alpha, dev, hands):
    patch(printing=bool(scn.get("real")))
    mon = Paths()
    Record(st, scn, mon, alpha, deviations=dev, hands=hands).run()
    for i, path in enumerate(mon.paths):
        if i % 64 == 0:
            tick()
        scenario = {"kind": "looking", "scn": scn, "path": path}
        set_scenario(scenario)
        plain = course(scn, path, None)
        for mode in MODES:
            # the last looks vary with the path so each kind meets every operation
            if mode != "all" and (i + MODES.index(mode)) % 5:
                continue
            with contextlib.redirect_stdout(io.StringIO()):
                got = course(scn, path, mode)
            st.transitions += len(got)
            if got != plain:
                k = next(j for j, (a, b) in enumerate(zip(got, plain)) if a != b)
                raise Bad(f"looking at the table ({mode}) changed the game: operation {k} of {path} gives {got[k]} "
                          f"instead of {plain[k]}", scenario)
        st.traces += 1
        st.outcome(tuple(map(str, plain)))
    st.sample({"scenario": scn, "paths": len(mon.paths)}, 3)


def marathon(st, scn, count):
    patch()
    game.marathon(st, dict(scn, trick=full_trick(scn["cfg"], count % 13)), Shown(), count)


def jobs(prop, tier):
    out = [(before, ())]
    g = grid.cfg
    T = tier == "thorough"
    scns = list(grid.betting(tier))
    if not T:
        scns = [x for i, x in enumerate(scns) if i % 4 == 0 or len(x[0]["stacks"]) > 3]
    # everybody all-in by forced bets
    for stacks in ([1, 1], [2, 1], [1, 2], [1, 3]):
        for button in (0, 1):
            for streets in (1, 3):
                scns.append((dict(cfg=g(2, streets, [1, 2], 0, hole=2, cards=2), stacks=stacks, button=button), "full"))
    for stacks in ([1, 1, 1], [1, 0, 1], [2, 1, 1], [3, 1, 2]):
        for button in (0, 1, 2):
            scns.append((dict(cfg=g(3, 2, [1, 2, 0], 1), stacks=stacks, button=button), "full"))
    for ch in grid.chunks(((s, a, None) for s, a in scns), 30):
        out.append((shard, (ch,)))
    for ch in grid.chunks(itertools.chain(grid.layouts(tier, (0, 1, 2, 3, 5, 9) if T else (0, 1, 4, 8)), grid.wide("quick")), 40):
        out.append((shard, (ch,)))
    for s, a, d in itertools.chain(grid.wars("quick"), grid.shipped_scenarios(tier)):
        out.append((shard, ([(s, a, d)],)))
    # the next hands
    for c, stacks, dev, hands in (
        (g(2, 1, [1, 2], 0, start=3), [3, 3], None, 2),
        (g(2, 2, [1, 2], 0, "inf", 1, start=5), [5, 4], 2, 3),
        (g(3, 2, [1, 2, 0], 1, "inf", 1, start=4), [4, 5, 6], 2, 2),
        (g(4, 1, 1, 0, "pot", 1, start=5), [5, 4, 3, 6], 2, 2),
    ):
        out.append((shard, ([(dict(cfg=c, stacks=stacks, button=len(stacks) - 1), "minmax", dev)], hands)))
    for real in (None, True):
        for c, stacks, alpha, dev, hands in (
            (g(2, 2, [1, 2], 0, start=3), [3, 3], "full", None, 1),
            (g(2, 1, [1, 1], 0, start=3), [3, 2], "full", None, 2),
            (g(2, 2, 0, 1, 1, 1, start=3, hole=2, cards=2), [3, 3], "full", None, 2),
            (g(3, 1, [1, 2, 0], 0, start=3), [3, 2, 3], "full", None, 1),
            (g(3, 2, [1, 2, 0], 0, "pot", 1, start=4, hole=2, cards=3, comm=[0, 3]), [4, 3, 4], "minmax", 2, 2),
            (g(4, 3, [1, 2, 0, 0], 0, "inf", 1, start=5, comm=[1, 1, 1]), [5, 4, 0, 3], "minmax", 2, 1),
        ):
            if real and not T and len(stacks) > 3:
                continue
            s = dict(cfg=c, stacks=stacks)
            if real:
                s["real"] = 1
                # printing for real, without the web server
            out.append((pure, (s, alpha, dev, hands)))
    for scn, count in grid.marathons(tier):
        out.append((marathon, (scn, count)))
    return out
