"""Functional monitors: begin() and step() return the next (immutable) monitor state
or raise Bad.  Each one judges only what its property says."""
from mc import model
from mc.common import Bad
from mc.game import Prune


def whole(x):
    try:
        return x == int(x)
    except Exception:
        return False


class Chips:
    """C01: nothing but the chips themselves."""

    def begin(self, ex, d, pre, obs):
        self._sane(obs)
        total = sum(pre)
        if sum(obs["stacks"]) + obs["pot"] != total:
            raise Bad(f"deal: stacks {obs['stacks']} + pot {obs['pot']} != {total} chips brought")
        for i, (a, b) in enumerate(zip(pre, obs["stacks"])):
            if b > a:
                raise Bad(f"deal: stack of seat {i} grew from {a} to {b}")
        return tuple(pre)

    def _sane(self, obs):
        for s in obs["stacks"]:
            if not whole(s) or s < 0:
                raise Bad(f"stack {s!r} is not a non-negative whole number: {obs['stacks']}")
        if not whole(obs["pot"]) or obs["pot"] < 0:
            raise Bad(f"pot {obs['pot']!r} is not a non-negative whole number")

    def step(self, ex, d, pre, old, op, obs, payouts, done):
        self._sane(obs)
        for p in payouts:
            if not whole(p):
                raise Bad(f"payout {p!r} is not a whole number of chips")
        if all(done):
            if sum(payouts) != 0:
                raise Bad(f"payouts {payouts} do not sum to zero")
            if obs["pot"] != 0:
                raise Bad(f"pot {obs['pot']} is not empty after the hand")
            want = [a + p for a, p in zip(pre, payouts)]
            if list(obs["stacks"]) != want:
                raise Bad(f"stacks {obs['stacks']} after the hand, brought {list(pre)}, payouts {payouts}")
            return pre
        seat = old["action"]
        paid = old["stacks"][seat] - obs["stacks"][seat]
        if paid < 0:
            raise Bad(f"stack of seat {seat} grew by {-paid} within the hand")
        for i, (a, b) in enumerate(zip(old["stacks"], obs["stacks"])):
            if i != seat and a != b:
                raise Bad(f"stack of seat {i} changed from {a} to {b} by an action of seat {seat}")
        if obs["pot"] - old["pot"] != paid:
            raise Bad(f"pot grew by {obs['pot'] - old['pot']} while seat {seat} paid {paid}")
        return pre


class Folds:
    """C03: what folding costs, and who wins if everybody else folds."""

    def begin(self, ex, d, pre, obs):
        # (brought, folded seats, committed)
        return (tuple(pre), tuple(not a for a in obs["active"]))

    def step(self, ex, d, ms, old, op, obs, payouts, done):
        pre, folded = ms
        n = len(pre)
        seat = old["action"]
        if folded[seat]:
            raise Bad(f"seat {seat} which folded or busted was asked to act")
        now = tuple(not a for a in obs["active"])
        committed = [a - b for a, b in zip(pre, old["stacks"])]
        if now[seat] and not folded[seat]:
            if old["stacks"][seat] < 0:
                raise Bad("negative stack")
        for i in range(n):
            if folded[i] and not now[i]:
                raise Bad(f"folded seat {i} is back in the hand")
            if now[i] and not folded[i] and i != seat:
                raise Bad(f"seat {i} folded by an action of seat {seat}")
        if op < 0 and old["call"] > 0 and not now[seat]:
            raise Bad(f"seat {seat} facing {old['call']} did not fold on a bet of {op}")
        live = [i for i in range(n) if not now[i]]
        over = all(done)
        if not now[seat]:
            committed[seat] += op  # the alphabet only has exact legal amounts
        for i in range(n):
            if now[i] and payouts[i] != -committed[i]:
                raise Bad(f"folded seat {i} committed {committed[i]} but its payout is {payouts[i]}")
        if len(live) == 0:
            raise Bad("nobody left in the hand")
        if len(live) == 1:
            if not over:
                raise Bad(f"only seat {live[0]} left but the hand goes on")
            w = live[0]
            won = sum(committed) - committed[w]
            if payouts[w] != won:
                raise Bad(f"last seat {w} should win {won}, payouts {payouts}, committed {committed}")
            want = [a + p for a, p in zip(pre, payouts)]
            if list(obs["stacks"]) != want:
                raise Bad(f"stacks {obs['stacks']} after everybody folded, expected {want}")
            if obs["pot"] != 0:
                raise Bad(f"pot {obs['pot']} left after everybody folded")
        elif over:
            for i in range(n):
                if now[i] and obs["stacks"][i] != pre[i] - committed[i]:
                    raise Bad(f"folded seat {i} has {obs['stacks'][i]} after the hand, had {pre[i]}, committed {committed[i]}")
        else:
            for i in live:
                if payouts[i] != 0:
                    raise Bad(f"payout {payouts[i]} for seat {i} while the hand is running")
            if now[obs["action"]]:
                raise Bad(f"action on folded seat {obs['action']}")
        return (pre, now)


class Modelled:
    """Runs the reference model beside the dealer and compares the observable
    fields the property owns.  Where a field owned by another property differs, the
    execution is outside of what this property talks about and is pruned."""

    FIELDS = ("active", "stacks", "pot", "street_commits", "action", "board", "done",
              "button", "offers", "over")

    def __init__(self, own, own_deal=None):
        self.own = frozenset(own)
        self.own_deal = frozenset(own_deal if own_deal is not None else own)
        self.rules = {}

    def _rules(self, ex):
        k = id(ex.scn["cfg"])
        r = self.rules.get(k)
        if r is None:
            r = self.rules[k] = model.Rules(ex.scn["cfg"])
        return r

    def begin(self, ex, d, pre, obs):
        rules = self._rules(ex)
        button = (ex.scn.get("button", 0) + ex.hand) % rules.n
        m = model.deal(rules, pre, button)
        self.compare(rules, m, obs, None, self.own_deal, "deal")
        return m

    def expected(self, rules, m):
        return {
            "active": [not f for f in m.folded],
            "stacks": list(m.stacks),
            "pot": sum(m.commit),
            "street_commits": list(m.street_commit),
            "action": m.action,
            "board": m.board,
            "button": m.button,
            "done": model.done_flags(m),
            "over": m.over,
        }

    def compare(self, rules, m, obs, done, own, what):
        exp = self.expected(rules, m)
        got = {
            "active": [bool(a) for a in obs["active"]],
            "stacks": list(obs["stacks"]),
            "pot": obs["pot"],
            "street_commits": list(obs["street_commits"]),
            "action": obs["action"],
            "board": len(obs["community_cards"]),
            "button": obs["button"],
            "done": [bool(x) for x in done] if done is not None else exp["done"],
            "over": all(done) if done is not None else False,
        }
        if m.over:
            # paid out: chips are judged elsewhere
            for k in ("stacks", "pot", "street_commits", "action"):
                got[k] = exp[k]
            if sum(m.folded) == rules.n - 1:
                # whether the rest of the board is shown after everybody folded
                # is not specified
                got["board"] = exp["board"]
        wrong = [k for k in exp if exp[k] != got[k]]
        mine = [k for k in wrong if k in own]
        if mine:
            k = mine[0]
            raise Bad(f"{what}: {k} is {got[k]}, expected {exp[k]}")
        if wrong:
            raise Prune(wrong[0])
        if "offers" in own:
            o = (obs["call"], obs["min_raise"], obs["max_raise"])
            e = model.offers(rules, m)
            if o != e:
                raise Bad(f"{what}: offered (call, min raise, max raise) is {o}, expected {e}")

    def step(self, ex, d, m, old, op, obs, payouts, done):
        rules = self._rules(ex)
        fold = op < 0 and old["call"] > 0
        chips = 0 if fold else max(0, op)
        m2 = model.act(rules, m, fold, chips)
        what = f"seat {m.action} " + ("folds" if fold else f"puts in {chips}")
        self.compare(rules, m2, obs, done, self.own, what)
        return m2
