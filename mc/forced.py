"""C08: every deal over stack vectors, buttons, forced-bet layouts and hand sequences."""
import itertools

from mc import game, grid, model, monitors
from mc.common import Bad, set_scenario, tick

OWN = {"button", "pot", "stacks", "street_commits"}
BOUNDS = {
    "C08": "deals for all stack vectors over 0..4 chips (2-4 seats), 0/1/3/9 chips (5-6 seats) and 10 "
           "seats, amounts beyond 2^53, all buttons, blind and ante layouts with every position non-zero and above the stacks; "
           "sequences of up to 3-5 deals with every mix of button/stack resets, finished and abandoned "
           "hands; shipped configurations through a full orbit of the button; one dealer of 2-10 seats through 1100 (thorough 5000) hands"
}
ASSUMES = {"C08": ["with two seats the button posts first, otherwise the first seat in the hand after it "
                   "(as the shipped configurations and tests have it)"]}


def layouts(n, tier):
    base = [
        (0, 0),
        ([1, 2] + [0] * (n - 2), 0),
        ([1, 2] + [0] * (n - 2), [0, 1] + [0] * (n - 2)),
        ([1, 2] + [0] * (n - 2), 1),
        (0, 2),
        ([0] * (n - 1) + [3], [2] + [0] * (n - 1)),
        (list(range(1, n + 1)), list(range(n, 0, -1))),
        ([0, 1, 2][:n] + [0] * (n - 3), [3, 0, 1][:n] + [0] * (n - 3)),
        ([5, 10] + [0] * (n - 2), [0] * (n - 1) + [7]),
    ]
    return base


def vectors(n, tier):
    if n <= 3:
        vals = range(0, 5)
    elif n == 4:
        vals = (0, 1, 2, 4) if tier == "quick" else range(0, 5)
    else:
        vals = (0, 1, 9) if tier == "quick" else (0, 1, 3, 9)
    for v in itertools.product(vals, repeat=n):
        if sum(x > 0 for x in v) >= 2:
            yield list(v)


def deals(st, cfg, vecs):
    """Single deals (the hand before is abandoned)."""
    n = cfg["num_players"]
    rules = model.Rules(cfg)
    mon = monitors.Modelled(OWN)
    base = game.make_dealer(dict(cfg=cfg))
    for vec in vecs:
        tick()
        for button in range(n):
            scn = dict(cfg=cfg, stacks=vec, button=button)
            set_scenario({"kind": "game", "scn": scn, "path": [], "hands": 1})
            d = game.clone(base)
            pre, obs = game.first_deal(d, scn)
            st.states += 1
            st.transitions += 1
            if st.states % 499 == 1:
                # conformance of the cloned dealer: a fresh one deals the same
                _, o2 = game.first_deal(game.make_dealer(scn), scn)
                if game.obs_key(o2)[:1] + game.obs_key(o2)[2:4] == game.obs_key(obs)[:1] + game.obs_key(obs)[2:4]:
                    st.traces += 1
            m = model.deal(rules, pre, button)
            check_deal(m, obs, scn, [])
            st.outcome((tuple(obs["stacks"]), tuple(obs["street_commits"])))
    st.sample({"cfg": grid._label(cfg), "stacks": vecs[-1], "button": n - 1})


def check_deal(m, obs, scn, path):
    got = {"button": obs["button"], "pot": obs["pot"], "stacks": tuple(obs["stacks"]),
           "street_commits": tuple(obs["street_commits"])}
    exp = {"button": m.button, "pot": sum(m.commit), "stacks": m.stacks,
           "street_commits": m.street_commit}
    for k in exp:
        if exp[k] != got[k]:
            raise Bad(f"deal with stacks {list(m.pre)}, button on seat {m.button}: {k} is {got[k]}, "
                      f"expected {exp[k]}", {"kind": "forced", "scn": scn, "path": path})


# operations of a sequence: how the running hand goes on, then the kind of deal
ENDS = ("abandon", "abandon1", "fold", "call", "shove")
DEALS = (dict(), dict(reset_button=True), dict(reset_stacks=True),
         dict(reset_button=True, reset_stacks=True))


def play(d, obs, how):
    """Go on with the hand; returns the stacks at its end."""
    if how == "abandon":
        return obs
    over = False
    k = 0
    while not over:
        if how == "abandon1" and k == 1:
            return obs
        if how == "fold":
            bet = -1
        elif how == "shove":
            bet = max(obs["max_raise"], obs["call"])
        else:
            bet = obs["call"]
        if how == "fold" and obs["call"] == 0:
            bet = max(obs["min_raise"], 0)
        obs, payouts, done = d.step(bet)
        over = all(done)
        k += 1
        if k > 500:
            raise Bad("hand does not end")
    return obs


def sequences(st, cfg, stacks, first, depth):
    """All sequences of hands and deals up to the depth, starting with `first`."""
    n = cfg["num_players"]
    rules = model.Rules(cfg)
    scn = dict(cfg=cfg, stacks=stacks, button=0)

    def run(d, obs, button, path):
        if len(path) == depth:
            return
        for how in ENDS:
            d1 = game.clone(d)
            o1 = play(d1, obs, how)
            for kw in DEALS:
                tick()
                pre = [cfg["start_stack"]] * n if kw.get("reset_stacks") else list(o1["stacks"])
                if sum(s > 0 for s in pre) < 2:
                    continue
                p2 = path + [[how, kw]]
                set_scenario({"kind": "forced", "scn": scn, "path": p2})
                d2 = game.clone(d1)
                o2 = game.deal(d2, scn, len(p2), **kw)
                st.states += 1
                st.transitions += 1
                b2 = 0 if kw.get("reset_button") else (button + 1) % n
                check_deal(model.deal(rules, pre, b2), o2, scn, p2)
                st.outcome((tuple(o2["stacks"]), b2))
                run(d2, o2, b2, p2)

    d = game.make_dealer(scn)
    if first == "plain":
        # very first deal without any reset flag: the button moves on from seat 0
        obs = game.deal(d, scn, 0)
        check_deal(model.deal(rules, [cfg["start_stack"]] * n, 1 % n), obs, scn, ["plain"])
        run(d, obs, 1 % n, [])
    else:
        pre, obs = game.first_deal(d, scn)
        run(d, obs, 0, [])
    st.sample({"cfg": grid._label(cfg), "stacks": stacks, "sequence depth": depth})


def orbit(st, name, cfg):
    """Shipped configuration: 2n deals in a row, calling and shoving in between."""
    n = cfg["num_players"]
    rules = model.Rules(cfg)
    for how in ("abandon", "fold", "call", "shove"):
        d = game.make_dealer(dict(cfg=cfg))
        scn = dict(cfg=cfg, stacks=None, button=0)
        button = 1 % n
        pre = [cfg["start_stack"]] * n
        obs = game.deal(d, scn, 0)
        path = []
        for k in range(2 * n + 1):
            tick()
            set_scenario({"kind": "forced", "scn": dict(scn, first="plain"), "path": path})
            check_deal(model.deal(rules, pre, button), obs, dict(scn, first="plain"), list(path))
            st.states += 1
            obs = play(d, obs, how)
            st.transitions += 1
            pre = list(obs["stacks"])
            if sum(s > 0 for s in pre) < 2:
                break
            obs = game.deal(d, scn, k + 1)
            path.append([how, {}])
            button = (button + 1) % n
        st.traces += 1


def long(st, cfg, count):
    """One dealer through many hands, ended in changing ways, now and then with fresh
    stacks or the button back on the first seat."""
    n = cfg["num_players"]
    rules = model.Rules(cfg)
    scn = dict(cfg=cfg, stacks=None, button=0)
    d = game.make_dealer(dict(cfg=cfg))
    obs = game.deal(d, scn, 0)
    button = 1 % n
    pre = [cfg["start_stack"]] * n
    path = []
    for k in range(count):
        tick()
        set_scenario({"kind": "forced", "scn": dict(scn, first="plain"), "path": path[-9:], "hands": k + 1})
        check_deal(model.deal(rules, pre, button), obs, dict(scn, first="plain"), path[-9:])
        st.states += 1
        st.transitions += 1
        st.outcome((tuple(obs["stacks"]), button))
        how = ENDS[k * 7 % 5]
        obs = play(d, obs, how)
        kw = {}
        if k % 389 == 388:
            kw["reset_button"] = True
        if k % 6 == 5 or sum(s > 0 for s in obs["stacks"]) < 2:
            kw["reset_stacks"] = True
        pre = [cfg["start_stack"]] * n if kw.get("reset_stacks") else list(obs["stacks"])
        obs = game.deal(d, scn, k + 1, **kw)
        button = 0 if kw.get("reset_button") else (button + 1) % n
        path.append([how, kw])
    st.traces += 1


def jobs(prop, tier):
    out = []
    for n in (2, 3, 4, 5, 6):
        lay = layouts(n, tier)
        if n >= 5:
            lay = lay[1:] if tier != "quick" else lay[1::2]
        for blinds, antes in lay:
            c = grid.cfg(n, 1, blinds, antes, start=9)
            if n == 6:
                vecs = [v for v in vectors(n, tier) if tier != "quick" or sum(v) % 5 == 0]
            else:
                vecs = list(vectors(n, tier))
            for ch in grid.chunks(vecs, 120):
                out.append((deals, (c, ch)))
    for n in (7, 8, 9, 10):
        c = grid.cfg(n, 1, [1, 2] + [0] * (n - 2), [0, 1] + [0] * (n - 2), start=9)
        vecs = []
        for k in range(n):
            v = [5] * n
            v[k] = 0
            vecs.append(v)
            v = [0] * n
            v[k] = 1
            v[(k + 3) % n] = 4
            vecs.append(v)
            vecs.append([(i + k) % 3 for i in range(n)])
        out.append((deals, (c, vecs)))
    K = grid.K
    for n in (2, 3, 4):
        vals = (0, K // 2, K, 3 * K + 1) if n < 4 else (0, K + 2, 4 * K)
        vecs = [list(v) for v in itertools.product(vals, repeat=n) if sum(x > 0 for x in v) > 1]
        for blinds, antes in (([K, 2 * K] + [0] * (n - 2), [0, K + 1] + [0] * (n - 2)), (0, K), ([1, K - 1] + [0] * (n - 2), 0)):
            out.append((deals, (grid.cfg(n, 1, blinds, antes, start=9), vecs)))
    g = grid.cfg
    depth = 2 if tier == "quick" else 3
    for c, s in (
        (g(2, 1, [1, 2], 0, start=5), [5, 4]),
        (g(2, 2, [2, 1], [0, 3], "pot", start=6), [6, 6]),
        (g(3, 1, [1, 2, 0], [0, 1, 0], start=4), [4, 2, 3]),
        (g(3, 2, [0, 1, 2], 1, 2, 2, start=6), [6, 1, 6]),
        (g(4, 1, [1, 2, 0, 0], 0, start=5), [5, 0, 3, 1]),
        (g(5, 1, [1, 2, 0, 0, 3], [0, 1, 0, 0, 0], "inf", 1, start=5), [5, 5, 0, 5, 2]),
    ):
        out.append((sequences, (c, s, "given", depth)))
        out.append((sequences, (c, [c["start_stack"]] * c["num_players"], "plain", depth)))
    for name, c in grid.shipped():
        out.append((orbit, (name, dict(c))))
    for n in range(2, 11):
        out.append((long, (g(n, 2, [1, 2] + [0] * (n - 2), [0, 1] + [0] * (n - 2), start=9), 1100 if tier == "quick" else 5000)))
    return out
