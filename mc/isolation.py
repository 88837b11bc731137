"""C10: what is handed out are snapshots, and dealers do not share anything.
Nothing is cloned here: aliasing is the point."""
import copy
import gc
import itertools
import os
import pickle
import sys
import threading

from mc import game, grid
from mc.common import Bad, set_scenario, tick

BOUNDS = {
    "C10": "every execution of small 2-4 seat games (two hands where short) and all executions with one departure of 2-10 "
           "seat games and of games with up to 16 community or 22 hole cards with every observation, payout and "
           "done list kept until the end, and again with all of them and the configuration overwritten by the "
           "caller at every point; all interleavings of two dealers' construction, two deals and steps (up to 12 "
           "operations) from the same or different configurations against isolated runs in a fresh process; "
           "37-40 dealers of equal and different configurations alive at once and dropped one after the other; "
           "all ordered pairs of configurations differing in one option; four dealers in a row from one configuration object "
           "with lists and orders of its own, for every shipped game and decks of 1-4 suits x 3/5/13 (thorough 2-13) ranks x 1-5 cards; two dealers in two threads: every operation of one, from building it to a second hand, "
           "interrupted at every line (building: every 13th, thorough all) by each operation of the other and by all of them"
}
ASSUMES = {"C10": ["the shared standard random source is re-seeded before every deal, so dealers sharing it "
                   "does not count as interference",
                   "threads are switched between lines of the library, one preemption of one of two threads"]}


class Paths:
    """Collects every complete path."""

    def __init__(self):
        self.paths = []

    def begin(self, ex, d, pre, obs):
        return 0

    def step(self, ex, d, ms, old, op, obs, payouts, done):
        return 0


class Recorder(game.Explorer):
    def _leaf(self, obs):
        self.mon.paths.append(list(self.path))


def all_paths(st, scn, alpha, dev, hands):
    mon = Paths()
    Recorder(st, scn, mon, alpha, deviations=dev, hands=hands).run()
    return mon.paths


def freeze(ret):
    if isinstance(ret, tuple):
        return game.ret_key(ret)
    return game.obs_key(ret)


def vandalise(ret):
    """A caller overwriting everything it was handed."""
    obs, lists = (ret[0], [ret[1], ret[2]]) if isinstance(ret, tuple) else (ret, [])
    for v in list(obs.values()):
        if isinstance(v, list):
            lists.append(v)
    for k in list(obs):
        obs[k] = None
    for l in lists:
        for i in range(len(l)):
            l[i] = 77
        l.append(99)
        l.reverse()


def run_path(scn, path, hook=None, cfg=None, after_init=None):
    """Execute on a fresh dealer; hook(i, ret) after each operation."""
    d = game.make_dealer(scn) if cfg is None else _from(cfg, scn)
    if after_init:
        after_init()
    out = []
    _, obs = game.first_deal(d, scn)
    out.append(freeze(obs))
    if hook:
        hook(0, obs)
    hand = 0
    for i, op in enumerate(path):
        if op == "R":
            hand += 1
            ret = game.deal(d, scn, hand)
        else:
            ret = d.step(op)
        out.append(freeze(ret))
        if hook:
            hook(i + 1, ret)
    return out


def _from(cfg, scn):
    d = game.Dealer(**cfg)
    if scn.get("trick"):
        d.deck.trick([game.Card(c) for c in scn["trick"]])
    return d


def snapshots(st, scn, alpha, dev, hands):
    for path in all_paths(st, scn, alpha, dev, hands):
        tick()
        set_scenario({"kind": "game", "scn": scn, "path": path, "hands": hands})
        kept = []
        out = run_path(scn, path, lambda i, ret: kept.append((i, ret)))
        for (i, ret), was in zip(kept, out):
            if freeze(ret) != was:
                raise Bad(f"the result of operation {i} changed afterwards from {was} to {freeze(ret)}",
                          {"kind": "game", "scn": scn, "path": path, "hands": hands})
        # no two results share a list with each other
        ids = {}
        for i, ret in kept:
            obs = ret[0] if isinstance(ret, tuple) else ret
            parts = [v for v in obs.values() if isinstance(v, list)]
            parts += list(ret[1:]) if isinstance(ret, tuple) else []
            for v in parts:
                if ids.setdefault(id(v), i) != i:
                    raise Bad(f"operations {ids[id(v)]} and {i} handed out the same list object",
                              {"kind": "game", "scn": scn, "path": path, "hands": hands})
        # the caller overwrites everything
        got = run_path(scn, path, lambda i, ret: vandalise(ret))
        st.transitions += 2 * len(out)
        if got != out:
            i = [a == b for a, b in zip(got, out)].index(False)
            raise Bad(f"a caller overwriting earlier results changed operation {i}: {got[i]} instead of {out[i]}",
                      {"kind": "vandal", "scn": scn, "path": path, "hands": hands})
        # the caller overwrites its configuration after construction
        cfg = copy.deepcopy(_lists(scn["cfg"]))

        def spoil():
            for v in cfg.values():
                if isinstance(v, list):
                    for k in range(len(v)):
                        v[k] = 3 if isinstance(v[k], (int, float)) else "hc"
                    v.append(1)

        got = run_path(scn, path, cfg=cfg, after_init=spoil)
        if got != out:
            i = [a == b for a, b in zip(got, out)].index(False)
            raise Bad(f"overwriting the configuration object after construction changed operation {i}: "
                      f"{got[i]} instead of {out[i]}", {"kind": "vandal", "scn": scn, "path": path})
        st.traces += 1
        st.outcome(out[-1])
    st.sample({"scn": scn, "paths": "all"}, 2)


def _lists(cfg):
    """The configuration with every single value spelled as a list."""
    c = dict(cfg)
    for k, n in (("blinds", "num_players"), ("antes", "num_players"), ("raise_sizes", "num_streets"),
                 ("num_raises", "num_streets"), ("num_community_cards", "num_streets")):
        if not isinstance(c[k], list):
            c[k] = [c[k]] * c[n]
    c.setdefault("order", ["sf", "fk", "fh", "fl", "st", "tk", "tp", "pa", "hc"])
    return c


# ---------------------------------------------------------------- two dealers
def script(which, n):
    """Operations of one dealer: construct, deal, act, deal again, act."""
    if which == 0:
        return ["new", "deal", "raise", "call", "deal", "call"]
    if which == 1:
        return ["new", "deal", "fold", "call", "prob", "deal"]
    return ["new", "deal", "shove", "shove", "print", "call"]


class Actor:
    def __init__(self, cfg, number, trick=None):
        self.cfg = cfg
        self.seed = 100 * number
        self.d = None
        self.obs = None
        self.deals = 0
        self.trick = trick

    def do(self, op):
        if op == "new":
            self.d = game.Dealer(**self.cfg)
            return str(self.d.evaluator)
        if op == "deal":
            self.deals += 1
            self.obs = game.deal(self.d, {"seed": 7}, self.seed + self.deals, reset_stacks=True)
            return game.obs_key(self.obs)
        if op == "print":
            return str(self.d)
        if op == "prob":
            return self.strengths()
        o = self.obs
        bet = {"call": o["call"], "fold": -1, "raise": max(o["call"], o["min_raise"]),
               "shove": max(o["call"], o["max_raise"])}[op]
        ret = self.d.step(bet)
        self.obs = ret[0]
        return game.ret_key(ret)

    def strengths(self):
        """Strengths of some hands by this dealer's evaluator."""
        ev = self.d.evaluator
        cards = self.d.deck.full_deck
        k = self.cfg["num_cards_for_hand"]
        m = self.cfg["mandatory_num_hole_cards"]
        step = max(1, len(cards) // 5)
        out = []
        for off in range(0, len(cards), 3):
            rot = cards[off:] + cards[:off]
            for s in (1, step):
                hand = [rot[(i * s) % len(rot)] for i in range(k)]
                if len(set(map(int, hand))) < k:
                    continue
                hole = max(m, self.cfg["num_hole_cards"] if self.cfg["num_hole_cards"] < k else k)
                hole = min(hole, k)
                if m:
                    hole = m
                r = ev.evaluate(hand[:hole], hand[hole:])
                out.append((r, ev.get_rank_class(r)))
        return out


def isolated(cfg, number, ops):
    """Result of the script in a fresh process which has built nothing before."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                a = Actor(copy.deepcopy(cfg), number)
                res = ("ok", [a.do(op) for op in ops])
            except Exception as e:
                res = ("exception", repr(e))
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    kind, res = pickle.loads(data)
    if kind != "ok":
        raise Bad(f"dealer alone raised {res} for {ops}", {"kind": "isolated", "cfg": cfg, "ops": ops})
    return res


def merges(a, b):
    """All interleavings of two sequences, as strings of 0s and 1s."""
    for pos in itertools.combinations(range(a + b), a):
        s = [1] * (a + b)
        for p in pos:
            s[p] = 0
        yield s


FRESH = True  # every job starts in a process which has built no dealer yet


def interleave(st, cfg_a, cfg_b, ops_a, ops_b, shared, every, want=None):
    if want is None:
        want = (isolated(cfg_a, 1, ops_a), isolated(cfg_b, 2, ops_b))
    for k, order in enumerate(merges(len(ops_a), len(ops_b))):
        if k % every:
            continue
        tick()
        scn = {"kind": "interleaving", "cfg_a": cfg_a, "cfg_b": cfg_b, "ops": [ops_a, ops_b],
               "order": order, "same_configuration_object": shared}
        set_scenario(scn)
        ca = copy.deepcopy(cfg_a)
        cb = ca if shared else copy.deepcopy(cfg_b)
        actors = (Actor(ca, 1), Actor(cb, 2))
        got = ([], [])
        queue = (list(ops_a), list(ops_b))
        for w in order:
            got[w].append(actors[w].do(queue[w].pop(0)))
            st.transitions += 1
        st.states += 1
        st.add("interleavings")
        for w in (0, 1):
            if got[w] != want[w]:
                i = [x == y for x, y in zip(got[w], want[w])].index(False)
                raise Bad(f"operation {i} ({(ops_a, ops_b)[w][i]}) of dealer {w} gives {got[w][i]} when another "
                          f"dealer runs in between, alone {want[w][i]}", scn)
        st.traces += 1
    st.outcome(repr(want))
    st.sample({"ops": [ops_a, ops_b], "interleavings": "all" if every == 1 else f"1/{every}"}, 1)


def variants():
    """Configurations which differ from the first in one option."""
    g = grid.cfg
    base = g(2, 2, [1, 2], 0, "inf", "inf", suits=4, ranks=7, hole=2, comm=[0, 3], cards=3, start=9)
    base["low_end_straight"] = True
    base["order"] = None
    out = [(None, base)]
    for k, v in (
        ("blinds", [2, 4]), ("blinds", 0), ("blinds", 2), ("blinds", [2, 1]), ("antes", 1), ("antes", 2),
        ("antes", [0, 1]), ("antes", [1, 0]), ("raise_sizes", "pot"), ("raise_sizes", [2, 4]), ("raise_sizes", 2),
        ("raise_sizes", ["pot", 2]), ("num_raises", 1), ("num_raises", [1, 2]), ("num_raises", [2, 1]),
        ("num_suits", 3), ("num_suits", 2), ("num_ranks", 6), ("num_ranks", 13), ("num_hole_cards", 3),
        ("num_community_cards", [1, 2]), ("num_community_cards", 2), ("num_community_cards", [2, 1]), ("num_cards_for_hand", 4), ("num_cards_for_hand", 2),
        ("mandatory_num_hole_cards", 2), ("start_stack", 14), ("low_end_straight", False),
        ("order", ["hc", "pa", "tp", "tk", "st", "fl", "fh", "fk", "sf"]),
        ("order", ["sf", "fk", "fl", "fh", "st", "tk", "tp", "pa", "hc"]),
    ):
        out.append((k, dict(base, **{k: v})))
    out.append(("num_players", dict(base, num_players=3, blinds=[1, 2, 0])))
    out.append(("num_streets", dict(base, num_streets=1, num_community_cards=[2])))
    out.append(("num_streets", dict(base, num_streets=3, num_community_cards=[0, 2, 1])))
    return out


def pairs(st, items):
    ops_a = ["new", "prob", "deal", "raise"]
    ops_b = ["new", "deal", "prob", "raise", "call"]
    # the isolated runs come first: this process has not built anything yet
    wants = [(isolated(a, 1, ops_a), isolated(b, 2, ops_b)) for a, b in items]
    for (a, b), want in zip(items, wants):
        interleave(st, a, b, ops_a, ops_b, False, 30, want)


def crowd(st, cfgs, ops, mode, wants=None):
    """Many dealers: all alive at once and taking turns, or one after the other, each
    dropped before the next one is built."""
    wants = [isolated(c, i + 1, ops) for i, c in enumerate(cfgs)]
    scn = {"kind": "crowd", "configurations": cfgs, "ops": ops, "mode": mode}
    set_scenario(scn)
    actors = [Actor(copy.deepcopy(c), i + 1) for i, c in enumerate(cfgs)]
    got = [[] for _ in cfgs]

    def do(i, k):
        tick()
        got[i].append(actors[i].do(ops[k]))
        st.transitions += 1
        if got[i][k] != wants[i][k]:
            raise Bad(f"operation {k} ({ops[k]}) of dealer {i} of {len(cfgs)} ({mode}) gives {got[i][k]}, alone "
                      f"{wants[i][k]}", scn)

    n = len(cfgs)
    if mode == "turns":
        for k in range(len(ops)):
            for i in range(n):
                do(i, k)
    elif mode == "back":
        for k in range(len(ops)):
            for i in range(n)[::-1] if k % 2 else range(n):
                do(i, k)
    else:
        for i in range(n):
            for k in range(len(ops)):
                do(i, k)
            actors[i] = None
            if i % 4 == 0:
                gc.collect()
    st.states += n
    st.traces += n
    st.top("max_dealers_at_once", n if mode != "dropped" else 1)
    for w in wants:
        st.outcome(repr(w))


ORDERS = (
    ["hc", "pa", "tp", "tk", "st", "fl", "fh", "fk", "sf"],
    ["sf", "fk", "fl", "fh", "st", "tk", "tp", "pa", "hc"],
    ["fk", "sf", "pa", "fh", "hc", "st", "fl", "tp", "tk"],
)


def reused(st, cfgs):
    """Several dealers built and played one after the other from one configuration object,
    its lists being those of the caller."""
    ops = script(0, 2) + ["prob"]
    wants = [[isolated(c, k + 1, ops) for k in range(2)] for c in cfgs]
    for c, want in zip(cfgs, wants):
        tick()
        scn = {"kind": "reused", "cfg": c, "ops": ops}
        set_scenario(scn)
        mine = copy.deepcopy(c)
        was = freeze_cfg(mine)
        actors = []
        for k in range(4):
            a = Actor(mine, k % 2 + 1)
            actors.append(a)
            got = []
            for op in ops:
                try:
                    got.append(a.do(op))
                except Exception as e:
                    raise Bad(f"dealer {k + 1} built from the same configuration raises {type(e).__name__}: {e} at {op}", scn)
                if freeze_cfg(mine) != was:
                    raise Bad(f"the caller's configuration changed from {was} to {freeze_cfg(mine)} by {op}", scn)
                st.transitions += 1
            if got != want[k % 2]:
                i = [x == y for x, y in zip(got, want[k % 2])].index(False)
                raise Bad(f"operation {i} ({ops[i]}) of dealer {k + 1} built from the same configuration gives {got[i]}, "
                          f"alone {want[k % 2][i]}", scn)
        st.states += 1
        st.traces += 4
        st.outcome(repr(want))


def freeze_cfg(c):
    return repr(sorted(c.items()))


class Stacked(Actor):
    """All cards which will be seen are stacked: interleaved random numbers do not matter."""

    def do(self, op):
        if op == "new":
            out = super().do(op)
            c = self.cfg["num_community_cards"]
            n = (sum(c) if isinstance(c, list) else c * self.cfg["num_streets"]) + self.cfg["num_players"] * self.cfg["num_hole_cards"]
            cards = sorted(self.d.deck.full_deck, key=lambda x: (int(x) * self.trick) % 1009)
            self.d.deck.trick(cards[:n])
            return out
        if op == "odds":
            return [float(x) for x in self.d.win_probabilities()]
        return super().do(op)


class Cut:
    """Stops the library at one line and lets something else run there."""

    def __init__(self, at, what):
        self.at, self.what, self.lines, self.ran, self.where = at, what, 0, False, None
        self.error = None

    def call(self, frame, event, arg):
        return self.line if not self.ran and LIBRARY in frame.f_code.co_filename else None

    def line(self, frame, event, arg):
        if event == "line" and not self.ran:
            if self.lines == self.at:
                self.ran = True
                self.where = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}"
                self.thread = threading.Thread(target=self.other, daemon=True)
                self.thread.start()
                # if it waits for something held here, go on
                self.thread.join(5)
            self.lines += 1
        return self.line

    def other(self):
        try:
            self.what()
        except Exception as e:
            self.error = e

    def run(self, f):
        sys.settrace(self.call)
        try:
            return f()
        finally:
            sys.settrace(None)
            if self.ran:
                self.thread.join(60)
                if self.thread.is_alive():
                    raise Bad(f"a dealer used by a thread does not return after another was interrupted at {self.where}")


LIBRARY = os.sep + "clubs" + os.sep


def preempted(st, cfg_a, cfg_b, ops_a, ops_b, i, every=1):
    """Two threads, each with a dealer of its own: dealer A's operation i is interrupted at every line by
    each operation of B, and by all of them."""
    want = []
    for c, ops, t in ((cfg_a, ops_a, 7), (cfg_b, ops_b, 13)):
        a = Stacked(copy.deepcopy(c), t, t)
        want.append([a.do(op) for op in ops])
    for j in list(range(len(ops_b))) + [None]:
        k = 0
        while True:
            tick()
            scn = {"kind": "threads", "cfg_a": cfg_a, "cfg_b": cfg_b, "ops": [ops_a, ops_b], "operation": i, "line": k, "other": j}
            set_scenario(scn)
            a, b = Stacked(copy.deepcopy(cfg_a), 7, 7), Stacked(copy.deepcopy(cfg_b), 13, 13)
            got = [a.do(op) for op in ops_a[:i]], [b.do(op) for op in ops_b[:j or 0]]
            todo = ops_b if j is None else ops_b[j:j + 1]
            cut = Cut(k, lambda: got[1].extend([b.do(op) for op in todo]))
            got[0].append(cut.run(lambda: a.do(ops_a[i])))
            if not cut.ran:
                break
            if cut.error is not None:
                raise cut.error
            got[0].extend([a.do(op) for op in ops_a[i + 1:]])
            got[1].extend([b.do(op) for op in ops_b[len(got[1]):]])
            st.states += 1
            st.transitions += len(ops_a) + len(ops_b)
            st.add("preemptions")
            for w in (0, 1):
                if got[w] != want[w]:
                    x = next(x for x, (p, q) in enumerate(zip(got[w], want[w])) if p != q)
                    raise Bad(f"a dealer used by another thread while {ops_a[i]!r} was at {cut.where}: operation {x} "
                              f"({(ops_a, ops_b)[w][x]}) of dealer {w} gives {got[w][x]}, alone {want[w][x]}", scn)
            k += every
    st.traces += 1


def jobs(prop, tier):
    g = grid.cfg
    out = []
    scns = [
        (dict(cfg=g(2, 2, [1, 2], [0, 1], start=5), stacks=[5, 4], button=0), "full", None, 1),
        (dict(cfg=g(2, 1, [1, 2], 0, start=3), stacks=[3, 3], button=1), "full", None, 2),
        (dict(cfg=g(2, 3, [1, 2], 0, ["inf", "pot", 2], [2, 1, 1], comm=[0, 2, 1], cards=2, hole=2, start=9),
              stacks=[9, 7], button=0), "minmax", 4, 1),
        (dict(cfg=g(3, 2, [1, 2, 0], [0, 1, 0], start=4), stacks=[4, 2, 4], button=1), "minmax", None, 1),
        (dict(cfg=g(3, 2, 0, 1, 2, 1, start=6), stacks=[6, 2, 4], button=2), "minmax", 4, 1),
        (dict(cfg=g(4, 2, [1, 2, 0, 0], 0, "pot", 1, start=4), stacks=[4, 4, 0, 3], button=3), "minmax", 4, 1),
        (dict(cfg=g(3, 1, [1, 1, 0], 0, "inf", 1, start=3), stacks=[3, 2, 3], button=0), "minmax", 4, 2),
    ]
    for n in range(2, 11):
        scns.append((dict(cfg=g(n, 2, [1, 2] + [0] * (n - 2), n % 2, "inf", 2, comm=[n % 3, 1], start=9),
                          stacks=[9 - i % 3 for i in range(n)], button=n // 2), "minmax", 1 if n > 3 else 2, 1 + (n < 4)))
    for n, comm, hole in ((2, [0, 6, 1, 1], 1), (2, [2, 9, 0, 5], 3), (3, [0, 3, 1, 1, 1, 1, 4], 2), (2, [1] * 12, 1), (2, [0, 1], 22)):
        scns.append((dict(cfg=g(n, len(comm), [1, 2, 0][:n], 0, "inf", 1, hole=hole, comm=comm, start=9), stacks=[9, 8, 7][:n],
                          button=1), "minmax", 1, 1))
    for s in scns:
        out.append((snapshots, s))
    for name, c in grid.shipped():
        n = c["num_players"]
        out.append((snapshots, (dict(cfg=dict(c), stacks=None, button=n - 1, name=name), "minmax",
                                1 if n > 2 else 2, 2 if n == 2 and c["num_streets"] < 3 else 1)))
    two = [
        (g(2, 1, [1, 2], 0, start=6), g(2, 1, [1, 2], 0, start=6), True),
        (g(3, 2, [1, 2, 0], [0, 0, 1], ["inf", "pot"], [1, 2], start=9), g(3, 2, [1, 2, 0], [0, 0, 1], ["inf", "pot"], [1, 2], start=9), True),
        (g(2, 2, [1, 2], 0, start=6), g(3, 2, 0, 1, 2, 2, start=9), False),
    ]
    for a, b, shared in two:
        for x in range(3):
            for y in range(3):
                out.append((interleave, (a, b, script(x, 2), script(y, 2), shared, 1)))
    vs = variants()
    cfgs = [c for _, c in vs]
    base = cfgs[0]
    for mode in ("turns", "back", "dropped"):
        for x in range(3):
            out.append((crowd, (cfgs, script(x, 2), mode)))
        out.append((crowd, ([base] * 40, script(0, 2), mode)))
        out.append((crowd, ([c for _ in range(10) for c in (base, cfgs[5], cfgs[-3], cfgs[24])], script(1, 2), mode)))
    T = tier != "quick"
    same = [_lists(c) for _, c in vs] + cfgs
    for suits, ranks, size in itertools.product((1, 2, 3, 4), (3, 5, 13) if not T else range(2, 14), (1, 2, 3, 4, 5)):
        for i, o in enumerate(ORDERS if T else ORDERS[size % 3:size % 3 + 1]):
            if suits * ranks >= 2 + 5:
                same.append(dict(g(2, 1, 0, 1, start=9, suits=suits, ranks=ranks, hole=1, comm=[size - 1], cards=size), order=list(o)))
    for _, c in grid.shipped():
        same += [dict(c), _lists(dict(c))]
    for ch in grid.chunks(same, 6):
        out.append((reused, (ch,)))
    # threads
    t2 = g(2, 2, [1, 2], 0, suits=2, ranks=4, hole=1, comm=[0, 2], cards=2, start=6)
    t3 = g(3, 2, [1, 2, 0], [0, 0, 1], ["inf", "pot"], [1, 2], suits=2, ranks=5, hole=1, comm=[0, 1], cards=2, start=9)
    t4 = g(2, 2, [1, 2], 0, 2, 2, suits=3, ranks=3, hole=2, comm=[0, 1], cards=2, mand=1, start=9)
    orders = (["new", "deal", "raise", "call", "print", "odds", "shove", "call", "deal", "print"],
              ["new", "deal", "shove", "odds", "shove", "call", "print", "prob", "deal"])
    for n, (a, b) in enumerate(((t2, t2), (t2, t3), (t3, t2), (t4, t2), (t3, t4), (t2, t4), (t4, t3)) if T else ((t4, t2), (t3, t4))):
        for x, y in itertools.product(orders, repeat=2) if T else ((orders[n], orders[1 - n]),):
            for i in range(len(x)):
                # building a dealer is long: every 13th line of it (thorough: all)
                out.append((preempted, (a, b, x, y, i, 13 if x[i] == "new" and not T else 1)))
    ps = [(a, b) for k, a in vs for o, b in vs if a is not b and (tier != "quick" or k == o or k is None or o is None)]
    for ch in grid.chunks(ps, 4 if tier == "quick" else 12):
        out.append((pairs, (ch,)))
    return out
