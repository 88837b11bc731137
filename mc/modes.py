"""C27: what a request to render does, for all sequences of requests, on the real dealer
and viewers (the web viewer's environment is the one of webfeed)."""
import contextlib
import io
import itertools
import random

from mc import grid, webfeed
from mc.common import Bad, set_scenario, tick

import clubs
from clubs import error, render

BOUNDS = {
    "C27": "all sequences of up to 4 (thorough 5; own viewer 5 and 6) requests - renders with and without waiting in one valid mode (or by "
           "default) or on a viewer of the user's own, unknown modes before a viewer exists, bets, new hands - for two "
           "games; every shipped game and mode with options, 43 waits from 1 ms to days in every mode, and layouts of community cards over up to 4 streets; texts of the terminal viewer at every state on the way",
}
ASSUMES = {"C27": ["asking for another mode while a viewer exists is not judged"]}

INVALID = ["", "HUMAN", "svg", None, "ascii "]


class Log(io.TextIOBase):
    """Terminal output in order with everything else."""

    def __init__(self, events):
        self.events = events

    def writable(self):
        return True

    def write(self, s):
        if s:
            if self.events and self.events[-1][0] == "text":
                self.events[-1] = ("text", self.events[-1][1] + s)
            else:
                self.events.append(("text", s))
        return len(s)


class Own(render.PokerViewer):
    """A viewer of the user's own."""

    def __init__(self, events, *a):
        super().__init__(*a)
        self.events = events

    def render(self, config, sleep=0):
        self.events.append(("own", webfeed.plain(config), sleep))


class Sleeps(list):
    def __init__(self, events):
        super().__init__()
        self.events = events

    def append(self, s):
        self.events.append(("sleep", s))


def configuration(name):
    """A shipped game or a simple one of (seats, hole cards, community cards by street)."""
    if isinstance(name, str):
        return dict(getattr(clubs.configs, name))
    n, hole, comm = name
    return {"num_players": n, "num_streets": len(comm), "blinds": [1, 2] + [0] * (n - 2), "antes": 0, "raise_sizes": "inf",
            "num_raises": "inf", "num_suits": 4, "num_ranks": 13, "num_hole_cards": hole,
            "num_community_cards": list(comm), "num_cards_for_hand": min(hole + sum(comm), 3),
            "mandatory_num_hole_cards": 0, "start_stack": 20}


def run(st, name, ops, kw, page=None):
    cfg = configuration(name)
    scn = {"kind": "render requests", "config": name, "requests": ops, "options": kw}
    set_scenario(scn)
    tick()
    comm = cfg["num_community_cards"]
    comm = sum(comm) if isinstance(comm, list) else comm * cfg["num_streets"]
    webfeed.prepare(cfg["num_players"], cfg["num_hole_cards"], comm, page is None)
    net = webfeed.NET
    events = []
    net.slept = Sleeps(events)
    random.seed(5)
    d = clubs.Dealer(**cfg)
    d.reset(reset_button=True, reset_stacks=True)
    shown = 0
    own = None
    mode = None
    over = False
    try:
        for op in ops:
            st.transitions += 1
            if op[0] == "bet":
                if over:
                    d.reset(reset_stacks=True)
                    over = False
                else:
                    over = all(d.step(op[1])[2])
                continue
            if op[0] == "deal":
                d.reset(reset_stacks=True)
                over = False
                continue
            if op[0] == "own":
                own = d.viewer = Own(events, cfg["num_players"], cfg["num_hole_cards"], comm)
                continue
            # a request to render
            text = str(d)
            want = webfeed.plain(webfeed.state(d))
            del events[:]
            exc = None
            with contextlib.redirect_stdout(Log(events)):
                try:
                    a, k = op[1], dict(op[2])
                    res = d.render(*a, **k, **kw)
                except Exception as e:
                    exc = e
            m = (list(op[1]) + [op[2].get("mode", "human")])[0]
            wait = (list(op[1]) + [op[2].get("sleep", 0)] * 2)[1]
            if str(d) != text or webfeed.plain(webfeed.state(d)) != want:
                raise Bad("rendering changes the table", scn)
            slept = sum(e[1] for e in events if e[0] == "sleep")
            if m not in ("ascii", "human"):
                if not isinstance(exc, error.InvalidRenderModeError):
                    raise Bad(f"render mode {m!r}: {type(exc).__name__ if exc else 'no error'}, expected "
                              "InvalidRenderModeError", scn)
                if events or d.viewer is not None or net.processes:
                    raise Bad(f"the refused mode {m!r} has an effect: {events}", scn)
                continue
            if exc is not None:
                raise exc
            if res is not None:
                raise Bad(f"render returns {res!r}", scn)
            if own is not None:
                got = [e for e in events if e[0] == "own"]
                if got != [("own", want, wait)] or len(events) != 1:
                    raise Bad(f"the user's own viewer is asked for {events}, expected {[('own', want, wait)]}", scn)
                continue
            first, mode = mode is None, m
            if m == "ascii":
                exp = [("text", text + "\n")] + ([("sleep", wait)] if wait else [])
                if events[:1] != exp[:1] or slept != wait or [e for e in events[1:] if e[0] != "sleep"]:
                    raise Bad(f"{m} render does {events}, expected {exp}", scn)
                if net.processes:
                    raise Bad("a server is started to print the table", scn)
            else:
                shown += 1
                conns = [e for e in events if e[0] == "sent"]
                if len(conns) != 1 or conns[0][1].get("content") != want:
                    raise Bad(f"{m} render sends {conns}, expected one message with {want}", scn)
                after = events[events.index(conns[0]) + 1:]
                if sum(e[1] for e in after if e[0] == "sleep") != wait:
                    raise Bad(f"{m} render waits {after} after showing, expected {wait} s", scn)
                if not first and [e for e in events if e[0] == "text"]:
                    raise Bad(f"{m} render prints {events}", scn)
                if len(net.processes) != 1:
                    raise Bad(f"{len(net.processes)} servers for one viewer", scn)
                if first:
                    _, app, host, port = net.served[0]
                    if host != kw.get("host", "127.0.0.1") or (kw.get("port") and port != kw["port"]):
                        raise Bad(f"server runs on {host}:{port}, requested {kw}", scn)
                    if page is not None and app.test_client().get("/").data != page:
                        raise Bad("the page is not the one for this table's size", scn)
                webfeed.drain(3)
                if net.received != shown:
                    raise Bad(f"{net.received} states reach the server after {shown} renders", scn)
        st.states += 1
        st.outcome((name, tuple(map(str, ops))))
    finally:
        v = d.viewer
        d.viewer = None
        webfeed.finish(v)


def runs(st, name, seqs, kw):
    for ops in seqs:
        run(st, name, ops, kw)
    st.traces += 1


R = lambda *a, **k: ("render", a, k)
BET, FOLD, DEAL = ("bet", 2), ("bet", -1), ("deal",)


def words(kind, depth):
    """All sequences with at least one request."""
    asks = {
        "ascii": [R("ascii"), R(mode="ascii"), R("ascii", 0.25), R(mode="ascii", sleep=2)],
        "human": [R(), R("human"), R(mode="human", sleep=0.25), R(sleep=1)],
        "own": [R(), R("human", sleep=0.5), R("ascii"), R(mode="ascii", sleep=3)],
    }[kind]
    bad = [R(m) for m in INVALID[:3]] + [R(mode=m, sleep=1) for m in INVALID[3:]]
    out = []

    def go(seq, viewer):
        if seq and seq[-1][0] == "render":
            out.append(list(seq))
        if len(seq) == depth:
            return
        if kind == "own" and not viewer:
            go(seq + [("own",)], True)
        else:
            for a in asks:
                go(seq + [a], True)
        for op in (BET, FOLD, DEAL) if depth < 6 else (BET, DEAL):
            go(seq + [op], viewer)
        if not viewer and len(seq) < 2:
            for b in bad:
                go(seq + [b], viewer)

    go([], False)
    return out


def games(st, name):
    """Whole hands of a game in every mode."""
    cfg = configuration(name)
    n, hole, comm = cfg["num_players"], cfg["num_hole_cards"], cfg["num_community_cards"]
    comm = sum(comm) if isinstance(comm, list) else comm * cfg["num_streets"]
    # the page of a viewer opened directly (judged by C24)
    v = webfeed.start(n, hole, comm)
    page = webfeed.NET.served[0][1].test_client().get("/").data
    webfeed.finish(v)
    for kw in ({}, {"port": 7300 + n}, {"host": "localhost"}):
        # some bets, all-in, folds, a long hand of raises by as little as possible
        for bets in ([2] * 6, [1000] * (n + 3), [-1] * n) + (() if kw else ([4] * 50, [0] * 40)):
            for r in (R("ascii"), R("human")):
                ops = [r]
                for b in bets:
                    ops += [("bet", b), r]
                run(st, name, ops, kw, page)
            ops = [("own",)]
            for b in bets:
                ops += [("bet", b), R()]
            run(st, name, ops, kw)
    st.traces += 1


WAITS = (0.001, 0.01, 0.1, 0.5, 0.999, 1.5, 2, 3, 5, 7.25, 9, 10, 11, 15, 20, 29, 30, 31, 45, 59, 60, 61, 90, 100, 120, 128,
         150, 255, 256, 300, 301, 600, 900, 1000, 1023, 1024, 3599, 3600, 3601, 7200, 43200, 86400, 10 ** 6)


def waits(st, name, kind):
    """Short and long waits, each asked for twice in a row, and without any wait after it."""
    m = [] if kind == "own" else [kind]
    for w in WAITS:
        run(st, name, ([("own",)] if kind == "own" else []) +
            [R(*m, sleep=w), R(*m, sleep=w), BET, R(*m), R(mode=kind if m else "human", sleep=w), R(kind if m else "human", w)], {})
    st.traces += 1


def jobs(prop, tier):
    T = tier == "thorough"
    out = [(games, (name,)) for name, _ in grid.shipped()]
    out += [(waits, (name, kind)) for name, _ in grid.shipped() for kind in ("ascii", "human", "own")]
    # community cards on any street
    comms = [x for k in (1, 2, 3) for x in itertools.product((0, 1, 2), repeat=k)] + [(5,), (0, 3, 1, 1), (3, 0, 2, 0), (1,) * 12, (0, 2) * 9]
    for n in (2, 3, 6, 10) if T else (2, 4):
        for hole in (1, 2, 4) if T else (1, 3):
            out += [(games, ((n, hole, x),)) for x in comms]
    for name in ("LEDUC_TWO_PLAYER", "NO_LIMIT_HOLDEM_SIX_PLAYER"):
        for kind, depth in (("ascii", 5 if T else 4), ("human", 5 if T else 4), ("own", 6 if T else 5)):
            for ch in grid.chunks(words(kind, depth), 200):
                out.append((runs, (name, ch, {})))
    return out
