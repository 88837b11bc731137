"""Driver which closes the dealer: scenarios, state cloning, exhaustive exploration.

A scenario (plain dict, JSON-able) fixes the environment of one exploration:
  cfg     constructor arguments of the dealer
  stacks  chips of every seat before the first deal (None: start_stack)
  button  position of the button in the first hand
  seed    seeds the random source before every deal (seed + number of the deal)
  trick   cards placed on top of the deck (None: no trick)
A path is a list of operations: a number is a bet, "R" is a new deal.
"""
import random
import types

from mc import common
from mc.common import Bad, tick

import clubs
from clubs import poker

Card = poker.Card
Dealer = poker.Dealer

_ATOMS = (int, float, str, bytes, bool, type(None), complex, type, types.FunctionType,
          types.BuiltinFunctionType, types.ModuleType)
_SHARED = tuple(
    t for t in (
        Card,
        poker.Evaluator,
        getattr(poker.evaluator, "LookupTable", None),
        clubs.render.PokerViewer,
    ) if t is not None
)


def clone(x, memo=None):
    """Copy of a dealer with all mutable state, keeping aliasing between parts.
    Immutable helpers (cards, evaluator, viewers) are shared."""
    if memo is None:
        memo = {}
    t = type(x)
    if t is int or t is bool or t is str or t is float or x is None:
        return x
    if t is Card:
        return x
    k = id(x)
    if k in memo:
        return memo[k][0]
    if isinstance(x, _SHARED) or isinstance(x, _ATOMS):
        return x
    if t is list:
        y = []
        memo[k] = (y, x)
        for v in x:
            y.append(clone(v, memo))
        return y
    if t is dict:
        y = {}
        memo[k] = (y, x)
        for a, v in x.items():
            y[clone(a, memo)] = clone(v, memo)
        return y
    if t is tuple:
        y = tuple(clone(v, memo) for v in x)
        memo[k] = (y, x)
        return y
    if t is set:
        y = {clone(v, memo) for v in x}
        memo[k] = (y, x)
        return y
    if t is types.MethodType:
        return types.MethodType(x.__func__, clone(x.__self__, memo))
    if hasattr(x, "__dict__") and not isinstance(x, (list, dict, tuple, set, frozenset)):
        y = object.__new__(t)
        memo[k] = (y, x)
        yd = y.__dict__
        for a, v in x.__dict__.items():
            yd[a] = clone(v, memo)
        for cls in t.__mro__:
            slots = cls.__dict__.get("__slots__", ())
            for a in (slots,) if isinstance(slots, str) else slots:
                if a not in ("__dict__", "__weakref__") and hasattr(x, a):
                    setattr(y, a, clone(getattr(x, a), memo))
        return y
    import copy
    return copy.deepcopy(x)


def make_dealer(scn):
    cfg = scn["cfg"]
    if scn.get("shared"):
        # built from the caller's own objects
        d = Dealer(**cfg)
    else:
        d = Dealer(**{k: list(v) if isinstance(v, list) else v for k, v in cfg.items()})
    if scn.get("trick") is not None:
        d.deck.trick([Card(c) for c in scn["trick"]])
    return d


def given(op, form):
    """A legal bet in the form in which it is passed: as a float, or as a fraction next to it."""
    if form is None or not -2 ** 50 < op < 2 ** 50:
        return op
    return float(op) if form == "float" else op + 0.25


def deal(d, scn, number, *a, **kw):
    random.seed(scn.get("seed", 1) * 1000 + number)
    return d.reset(*a, **kw)


def first_deal(d, scn):
    """Deal the first hand with the scenario's button and stacks.
    Returns (stacks before the deal, observation)."""
    b = scn.get("button", 0)
    n = scn["cfg"]["num_players"]
    for i in range(b):
        deal(d, scn, -1 - i, reset_button=(i == 0), reset_stacks=True)
    stacks = scn.get("stacks")
    if stacks is not None:
        d.stacks = list(stacks)
        pre = list(stacks)
        obs = deal(d, scn, 0, reset_button=(b == 0))
    else:
        pre = [scn["cfg"]["start_stack"]] * n
        obs = deal(d, scn, 0, reset_button=(b == 0), reset_stacks=True)
    return pre, obs


def full_alphabet(obs):
    """All legal actions, the default one (check/call) first."""
    call, lo, hi = obs["call"], obs["min_raise"], obs["max_raise"]
    acts = [call]
    if call > 0:
        acts.append(-1)
    for b in range(max(lo, call + 1), hi + 1):
        acts.append(b)
    return acts


def sparse_alphabet(obs):
    """Check/call, fold, smallest, largest and one raise between them."""
    call, lo, hi = obs["call"], obs["min_raise"], obs["max_raise"]
    acts = [call]
    if call > 0:
        acts.append(-1)
    for b in (lo, (lo + hi) // 2, hi):
        if b > call and lo <= b <= hi and b not in acts:
            acts.append(b)
    return acts


def minmax_alphabet(obs):
    call, lo, hi = obs["call"], obs["min_raise"], obs["max_raise"]
    acts = [call]
    if call > 0:
        acts.append(-1)
    for b in (lo, hi):
        if b > call and b not in acts:
            acts.append(b)
    return acts


def drop_alphabet(obs):
    """Fold to every bet unless departing from it."""
    acts = minmax_alphabet(obs)
    return sorted(acts, key=lambda b: b >= 0)


def war_alphabet(obs):
    """Raise again and again, by slightly more than required, unless departing from it."""
    call, lo, hi = obs["call"], obs["min_raise"], obs["max_raise"]
    b = min(lo + obs["pot"] % 4, hi)
    acts = [b] if b > call else []
    return acts + [a for a in minmax_alphabet(obs) if a not in acts]


def climb_alphabet(obs):
    """The largest raise again and again unless departing from it."""
    acts = minmax_alphabet(obs)
    return acts[-1:] + acts[:-1] if acts[-1] > obs["call"] else acts


ALPHABETS = {"climb": climb_alphabet, "war": war_alphabet, "full": full_alphabet, "sparse": sparse_alphabet, "minmax": minmax_alphabet, "drop": drop_alphabet}


class Prune(Exception):
    """The execution left what this property talks about; stop following it."""


class Explorer:
    """Exhaustive depth-first exploration of all paths of one scenario.

    monitor.begin(ctx, pre, obs) and monitor.step(ms, ...) return the monitor's
    (immutable) state or raise Bad; they are called on every transition."""

    def __init__(self, st, scn, monitor, alphabet="full", deviations=None, hands=1,
                 validate=997, max_depth=None):
        self.st = st
        self.scn = scn
        self.mon = monitor
        self.alpha = ALPHABETS[alphabet] if isinstance(alphabet, str) else alphabet
        self.dev = deviations
        self.hands = hands
        self.validate = validate
        self.leaves = 0
        n = scn["cfg"]["num_players"]
        chips = sum(scn["stacks"]) if scn.get("stacks") else n * scn["cfg"]["start_stack"]
        self.max_depth = max_depth or (
            min(n * (chips + 2) * scn["cfg"]["num_streets"] + n, 2000) * hands + hands
        )
        self.cloning = True
        self.shared_evaluator = None

    # -- building states -------------------------------------------------
    def fresh(self):
        d = make_dealer(self.scn)
        pre, obs = first_deal(d, self.scn)
        self.hand = 0
        ms = self.mon.begin(self, d, pre, obs)
        return d, pre, obs, ms

    def apply(self, d, pre, obs, ms, op, hand):
        """One transition. Returns (pre, obs, ms, over)."""
        self.hand = hand
        if op == "R":
            pre = list(obs["stacks"])
            obs = deal(d, self.scn, hand)
            ms = self.mon.begin(self, d, pre, obs)
            return pre, obs, ms, False
        ret = d.step(given(op, self.scn.get("bets")))
        new, payouts, done = ret
        ms = self.mon.step(self, d, ms, obs, op, new, payouts, done)
        return pre, new, ms, all(done)

    def replay(self, path):
        """Run one path on a fresh dealer; the monitor checks every step."""
        common.set_scenario(lambda: self.describe(path))
        d, pre, obs, ms = self.fresh()
        hand = 0
        over = False
        trace = [obs]
        for op in path:
            if op == "R":
                hand += 1
            pre, obs, ms, over = self.apply(d, pre, obs, ms, op, hand)
            trace.append(obs)
        return d, pre, obs, ms, over, trace

    def describe(self, path):
        return {"kind": "game", "scn": self.scn, "path": list(path),
                "hands": self.hands}

    # -- exploring -------------------------------------------------------
    def run(self):
        tick()
        try:
            self._run()
        except Bad as e:
            path = getattr(e, "path", None)
            if path is None:
                raise
            if not self.cloning:
                e.scenario = e.scenario or self.describe(path)
                raise
            # confirm on a fresh dealer, without any cloned state
            try:
                self.replay(path)
            except Bad as e2:
                e2.scenario = e2.scenario or self.describe(path)
                raise e2
            except Prune:
                pass
            self.st.add("clone_fallbacks")
            self.cloning = False
            self._run()

    def _run(self):
        self.path = []
        common.set_scenario(lambda: self.describe(self.path))
        try:
            d, pre, obs, ms = self.fresh()
        except Prune:
            self.st.add("pruned")
            return
        except Bad as e:
            e.path = []
            raise
        self.st.states += 1
        self._dfs(d, pre, obs, ms, False, 0, 0)

    def _dfs(self, d, pre, obs, ms, over, hand, used):
        st = self.st
        depth = len(self.path)
        if over:
            if hand + 1 < self.hands and sum(s > 0 for s in obs["stacks"]) > 1:
                ops = ["R"]
            else:
                self._leaf(obs)
                return
        else:
            if depth > self.max_depth:
                e = Bad(f"hand not over after {depth} actions")
                e.path = list(self.path)
                raise e
            ops = self.alpha(obs)
            if self.dev is not None and used >= self.dev:
                ops = ops[:1]
        last = len(ops) - 1
        for i, op in enumerate(ops):
            self.path.append(op)
            st.transitions += 1
            if st.transitions & 255 == 0:
                tick()
            try:
                if self.cloning:
                    d2 = d if i == last else clone(d)
                    nhand = hand + 1 if op == "R" else hand
                    pre2, obs2, ms2, over2 = self.apply(d2, pre, obs, ms, op, nhand)
                else:
                    nhand = hand + 1 if op == "R" else hand
                    d2, pre2, obs2, ms2, over2, _ = self.replay(self.path)
                    common.set_scenario(lambda: self.describe(self.path))
            except Prune:
                st.add("pruned")
                self.path.pop()
                continue
            except Bad as e:
                if getattr(e, "path", None) is None:
                    e.path = list(self.path)
                raise
            except common.Hang:
                raise
            except RecursionError:
                raise
            except Exception as exc:
                e = Bad("unexpected exception: " + common._describe(exc))
                e.path = list(self.path)
                if self.cloning:
                    # raise only if a fresh dealer raises as well
                    try:
                        self.replay(list(self.path))
                    except Prune:
                        pass
                    except Bad as e2:
                        e2.path = list(self.path)
                        raise e2
                    except Exception:
                        e.scenario = self.describe(self.path)
                        e.path = None
                        raise e
                raise e
            st.states += 1
            self._dfs(d2, pre2, obs2, ms2, over2, nhand, used + (i > 0))
            self.path.pop()

    def _leaf(self, obs):
        self.leaves += 1
        st = self.st
        st.add("executions")
        st.top("max_actions", len(self.path))
        st.outcome((tuple(obs["stacks"]), tuple(obs["active"]), tuple(map(int, obs["community_cards"]))))
        if self.cloning and (self.leaves % self.validate == 1 or self.validate == 1):
            # the same path on a fresh dealer, without any cloning
            path = list(self.path)
            try:
                _, _, fin, _, over, _ = self.replay(path)
            except Prune:
                fin = None
            except Bad as e:
                e.scenario = e.scenario or self.describe(path)
                e.path = None
                raise
            finally:
                common.set_scenario(lambda: self.describe(self.path))
            if fin is not None:
                if obs_key(fin) == obs_key(obs):
                    st.traces += 1
                else:
                    st.add("clone_divergence")
        st.sample({"scenario": self.scn, "path": list(self.path), "final_stacks": list(obs["stacks"])}, 2)


def obs_key(o):
    """Observation as a comparable value."""
    return (
        o["action"], tuple(bool(a) for a in o["active"]), o["button"], o["call"],
        tuple(int(c) for c in o["community_cards"]),
        tuple(int(c) for c in o["hole_cards"]),
        o["max_raise"], o["min_raise"], o["pot"], tuple(o["stacks"]),
        tuple(o["street_commits"]),
    )


def ret_key(ret):
    obs, payouts, done = ret
    return (obs_key(obs), tuple(payouts), tuple(bool(x) for x in done))


def marathon(st, scn, mon, count):
    """One dealer through many hands, each played in another way, judged at every step."""
    ex = Explorer(st, scn, mon, "minmax")
    n = scn["cfg"]["num_players"]
    path = []
    common.set_scenario(lambda: {"kind": "marathon", "scn": scn, "hand": ex.hand, "path": list(path)})
    over = True
    for k in range(count):
        tick()
        try:
            if k == 0:
                d, pre, obs, ms = ex.fresh()
            else:
                kw = {}
                if k % 5 == 4 or sum(s > 0 for s in obs["stacks"]) < 2:
                    kw["reset_stacks"] = True
                pre = [scn["cfg"]["start_stack"]] * n if kw else list(obs["stacks"])
                ex.hand = k
                del path[:]
                obs = deal(d, scn, k, **kw)
                ms = mon.begin(ex, d, pre, obs)
            over = False
            while not over:
                j = len(path)
                if k % 6 == 0 or j > 60:
                    op = obs["call"]
                elif k % 6 == 3:
                    acts = sparse_alphabet(obs)
                    op = acts[(k // 6 + j) % len(acts)]
                elif k % 6 == 5:
                    acts = minmax_alphabet(obs)
                    op = acts[(k // 6 + j * j) % len(acts)]
                else:
                    op = {1: drop_alphabet, 2: war_alphabet, 4: climb_alphabet}[k % 6](obs)[0]
                path.append(op)
                new, payouts, done = d.step(given(op, (None, "float", None, "near")[k % 4]))
                ms = mon.step(ex, d, ms, obs, op, new, payouts, done)
                obs = new
                over = all(done)
                st.states += 1
                st.transitions += 1
                if j > 2000:
                    raise Bad(f"hand not over after {j} actions")
        except Prune:
            st.add("pruned")
            return
        st.outcome((k, tuple(obs["stacks"])))
    st.add("marathon_hands", count)
    st.traces += 1
