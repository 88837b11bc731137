"""C24: the served page for every table size, and the page's own script run on the
page's own elements for all sequences of received states."""
import itertools
import json
import math
import re
import signal
import subprocess
from xml.etree import ElementTree as et

from mc import common, grid, webfeed
from mc.common import Bad, set_scenario, tick

import clubs

BOUNDS = {
    "C24": "pages: 2 to 10 (thorough 2 to 12) seats x 0 to 5 (6) hole cards x 0 to 6 (8) community cards, up to 26 hole, 50 "
           "community cards, 11 to 29 (52) seats; every page loaded 6 times, six sizes 60 (300) times, between states and browsers; script: all "
           "sequences of any length (exploration closed: no new page state is reachable) over alphabets of states on "
           "small tables, all sequences up to length 2 (thorough 3, fewer than 9 seats) over the states of played hands of all shipped "
           "configurations (quick: every third state with 9 seats), all 52 cards at every position, single states of up to 20 seats",
}
ASSUMES = {
    "C24": ["browsers implement the document object model; a stand-in (mc/dom.js) runs the script",
            "a state message carries all seats of the table"],
}


# ------------------------------------------------------------------ page
def served(n, hole, comm):
    """The page and its script as the server hands them out."""
    v = webfeed.start(n, hole, comm)
    try:
        body = webfeed.fake_urlopen(f"http://{v.host}:{v.port}").read().decode()
        scripts = re.findall(r'<script[^>]*src="(/[^"]*)"', body)
        if not scripts:
            raise Bad("the page loads no script from the server")
        client = webfeed.NET.served[0][1].test_client()
        code = []
        for s in scripts:
            r = client.get(s)
            if r.status_code != 200:
                raise Bad(f"the script {s} of the page is not served")
            code.append(r.data.decode())
    finally:
        webfeed.finish(v)
    return picture(body), "\n;\n".join(code), body


def picture(body):
    i, j = body.find("<svg"), body.rfind("</svg>")
    if i < 0 or j < 0:
        raise Bad("the page contains no table")
    return et.fromstring(body[i:j + 6])


def same(a, b):
    """Equal elements, in whatever order the attributes are written."""
    return (a.tag == b.tag and a.attrib == b.attrib and (a.text or "").strip() == (b.text or "").strip()
            and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b)))


def reloads(st, sizes, times):
    """The page is loaded again and again, between states and browsers: always the table as drawn at first."""
    for n, hole, comm in sizes:
        scn = {"kind": "reloads", "seats": n, "hole": hole, "community": comm, "times": times}
        set_scenario(scn)
        tick()
        ms = [message(n, hole, comm, action=k % n, button=n - 1, pot=k * 7, community_cards=["2♠", "T♥", "A♦"][:min(comm, k)]) for k in range(3)]
        v = webfeed.start(n, hole, comm)
        try:
            first = None
            for k in range(times):
                if k % 3 == 2:
                    m = ms[k // 3 % len(ms)]
                    v.render({a: [[clubs.Card(c[0] + SHORT[c[1]]) for c in h] for h in b] if a == "hole_cards" else
                              [clubs.Card(c[0] + SHORT[c[1]]) for c in b] if a == "community_cards" else b for a, b in m.items()})
                    webfeed.drain(3)
                if k % 4 == 3:
                    webfeed.Browser()
                body = webfeed.fake_urlopen(f"http://{v.host}:{v.port}").read().decode()
                st.transitions += 1
                # whole page: the same scripts, too
                now = picture(body), re.findall(r'<script[^>]*src="([^"]*)"', body)
                first = first or now
                if not same(now[0], first[0]) or now[1] != first[1]:
                    raise Bad(f"the page for {n} seats is different when loaded for the {k + 1}. time", scn)
        finally:
            webfeed.finish(v)
        st.states += 1
    st.traces += 1
    st.top("max_page_loads", times)


SHORT = {"♣": "c", "♠": "s", "♥": "h", "♦": "d"}


def ids_of(n, hole, comm):
    """All elements the page has exactly once."""
    out = ["community", "pot", "pot-text", "pot-background", "cards-community"]
    for i in range(n):
        out += [f"{i}", f"cards-{i}", f"chips-{i}", f"chips-text-{i}", f"chips-background-{i}",
                f"player-background-{i}", f"street-commit-{i}", f"street-commit-text-{i}",
                f"street-commit-background-{i}", f"button-{i}", f"button-background-{i}"]
        for j in range(hole):
            out += [f"card-{i}-{j}", f"card-background-{i}-{j}", f"card-text-{i}-{j}"]
    for j in range(comm + 1):
        out += [f"card-community-{j}", f"card-background-community-{j}", f"card-text-community-{j}"]
    return out


def num(e, k):
    v = e.get(k, "0")
    return float(v)


def center(e):
    return num(e, "x") + num(e, "width") / 2, num(e, "y") + num(e, "height") / 2


def check_page(st, n, hole, comm):
    set_scenario({"kind": "page", "seats": n, "hole": hole, "community": comm})
    tick()
    root, script, _ = served(n, hole, comm)
    seen = {}
    parent = {}
    for e in root.iter():
        for c in e:
            parent[c] = e
        i = e.get("id")
        if i is not None:
            seen.setdefault(i, []).append(e)
    for i, es in seen.items():
        if len(es) > 1:
            raise Bad(f"the page has {len(es)} elements with the id {i}")
    for i in ids_of(n, hole, comm):
        if i not in seen:
            raise Bad(f"the page has no element with the id {i}")
    el = {i: es[0] for i, es in seen.items()}

    def below(i, j):
        e = el[i]
        while e in parent:
            e = parent[e]
            if e is el[j]:
                return
        raise Bad(f"the element {i} is not part of {j}")

    for i in range(n):
        for what in (f"cards-{i}", f"chips-{i}", f"player-background-{i}"):
            below(what, str(i))
        below(f"chips-text-{i}", f"chips-{i}")
        below(f"street-commit-text-{i}", f"street-commit-{i}")
        below(f"button-background-{i}", f"button-{i}")
        below(f"button-{i}", f"street-commit-{i}")
        for j in range(hole):
            below(f"card-{i}-{j}", f"cards-{i}")
            below(f"card-text-{i}-{j}", f"card-{i}-{j}")
            below(f"card-background-{i}-{j}", f"card-{i}-{j}")
    for j in range(comm + 1):
        below(f"card-community-{j}", "community")
        below(f"card-text-community-{j}", f"card-community-{j}")
        below(f"card-background-community-{j}", f"card-community-{j}")
    below("pot", "community")
    below("pot-text", "pot")
    # counts by kind: nothing beyond the table asked for
    kinds = {}
    for e in root.iter():
        kinds[e.get("class")] = kinds.get(e.get("class"), 0) + 1
    for what, k in (("player", n), ("button", n), ("card", n * hole + comm + 1), ("chips-text", 2 * n + 1),
                    ("card-text", n * hole + comm + 1), ("card-background", n * hole + comm + 1),
                    ("button-background", n), ("player-background", n)):
        if kinds.get(what, 0) != k:
            raise Bad(f"the page has {kinds.get(what, 0)} elements of class {what}, expected {k}")
    # different positions, in seat order around the table
    box = [float(x) for x in root.get("viewBox").split()]
    for what in ("{}", "street-commit-{}"):
        pos = [center(el[what.format(i)]) for i in range(n)]
        for i, j in itertools.combinations(range(n), 2):
            if math.hypot(pos[i][0] - pos[j][0], pos[i][1] - pos[j][1]) < 20:
                raise Bad(f"{what.format(i)} and {what.format(j)} are both drawn at {pos[i]}")
        mx, my = box[0] + box[2] / 2, box[1] + box[3] / 2
        ang = [math.atan2(y - my, x - mx) for x, y in pos]
        turn = [(ang[(i + 1) % n] - ang[i]) % (2 * math.pi) for i in range(n)]
        if n > 2 and abs(sum(turn) - 2 * math.pi) > 1e-6 and abs(sum(2 * math.pi - t for t in turn) - 2 * math.pi) > 1e-6:
            raise Bad(f"the elements {what} are not drawn in seat order around the table: {pos}")
        for x, y in pos:
            if not (box[0] <= x <= box[0] + box[2] and box[1] <= y <= box[1] + box[3]):
                raise Bad(f"{what} drawn outside the picture at {(x, y)}")
    for i in range(n):
        x, y = center(el[f"street-commit-{i}"])
        d = [math.hypot(x - a, y - b) for a, b in (center(el[str(k)]) for k in range(n))]
        near = d.index(min(d))
        # on crowded tables the smaller inner ring may be closer to a neighbour
        if d[i] > min(d) + 1e-6 and (n <= 10 or min((i - near) % n, (near - i) % n) > n // 10):
            raise Bad(f"the commitment of seat {i} is drawn next to seat {d.index(min(d))}")
    for owner, k in [(str(i), hole) for i in range(n)] + [("community", comm + 1)]:
        xs = [num(el[f"card-{owner}-{j}"], "x") for j in range(k)]
        w = [num(el[f"card-{owner}-{j}"], "width") for j in range(k)]
        for a in range(k - 1):
            if xs[a + 1] < xs[a] + w[a] - 1e-6:
                raise Bad(f"cards {a} and {a + 1} of {owner} overlap: {xs}")
        if k and (xs[0] < -1e-6 or xs[-1] + w[-1] > num(el[f"cards-{owner}"], "width") + 1e-6):
            raise Bad(f"the cards of {owner} at {xs} do not fit into their box of {num(el[f'cards-{owner}'], 'width')}")
    # the pictures used by the script exist
    for p in ("card-club", "card-spade", "card-heart", "card-diamond", "card-back", "card-blank", "dealer"):
        if p not in el:
            raise Bad(f"the page has no picture {p}")
    st.states += 1
    st.outcome((n, hole, comm))


# ------------------------------------------------------------------ script
def tree(e):
    return {"tag": e.tag, "attrs": dict(e.attrib), "text": e.text or "", "children": [tree(c) for c in e]}


SUIT = {"♣": ("card-club", "black"), "♠": ("card-spade", "black"), "♥": ("card-heart", "red"),
        "♦": ("card-diamond", "red")}


def shown(m, n, hole, comm):
    """What the page must show after message m: (element id, what) -> value."""
    out = {}
    full = "hole_cards" in m
    for i in range(n):
        out[f"chips-text-{i}", "text"] = str(m["stacks"][i]) if full else "0"
        out[f"street-commit-text-{i}", "text"] = str(m["street_commits"][i]) if full else "0"
        for j in range(hole):
            c = m["hole_cards"][i][j] if full and m["active"][i] else None
            card(out, f"{i}-{j}", c, "card-back")
    out["pot-text", "text"] = str(m["pot"]) if full else "0"
    for j in range(comm):
        c = m["community_cards"][j] if full and j < len(m["community_cards"]) else None
        card(out, f"community-{j + 1}", c, "card-blank")
    card(out, "community-0", None, "card-back")
    return out


def card(out, where, c, back):
    if c is None:
        out[f"card-text-{where}", "text"] = ""
        out[f"card-background-{where}", "fill"] = f"url(#{back})"
    else:
        picture, colour = SUIT[c[1]]
        out[f"card-text-{where}", "text"] = {"T": "10"}.get(c[0], c[0])
        out[f"card-text-{where}", "fill"] = colour
        out[f"card-text-{where}", "stroke"] = colour
        out[f"card-background-{where}", "fill"] = f"url(#{picture})"


def check_shown(state, m, n, hole, comm, scn):
    byid = {}
    for attrs, text in state:
        if "id" in attrs:
            byid[attrs["id"]] = (attrs, text)
    for (i, what), v in shown(m, n, hole, comm).items():
        attrs, text = byid[i]
        got = text if what == "text" else attrs.get(what)
        if got != v:
            raise Bad(f"after the states {scn['sequence']} the page shows {i} with {what} {got!r}, the state says {v!r}", scn)
    full = "hole_cards" in m
    marks = [byid[f"button-background-{i}"][0].get("fill") for i in range(n)]
    want = ["url(#dealer)" if full and i == m["button"] else "transparent" for i in range(n)]
    if marks != want:
        raise Bad(f"after the states {scn['sequence']} the page shows the button as {marks}, expected {want}", scn)
    act = [byid[f"player-background-{i}"][0].get("fill") for i in range(n)]
    k = m["action"] if full else -1
    rest = {a for i, a in enumerate(act) if i != k}
    if len(rest) > 1 or (k >= 0 and act[k] in rest):
        raise Bad(f"after the states {scn['sequence']} seat {k} is to act, the page shows seats as {act}", scn)
    # one look for 'to act', one for all others, in all states
    return (act[k] if k >= 0 else None), (next(iter(rest)) if rest else None)


def comparable(state):
    """The visible page: colours of an empty text and of the deck's text do not matter."""
    out = []
    for attrs, text in state:
        a = dict(attrs)
        if a.get("class") == "card-text" and not text:
            a.pop("fill", None)
            a.pop("stroke", None)
        out.append((sorted(a.items()), text))
    return out


_pages = {}


def run_script(n, hole, comm, messages, depth, limit=6000):
    if (n, hole, comm) not in _pages:
        _pages[n, hole, comm] = served(n, hole, comm)
    root, script, _ = _pages[n, hole, comm]
    job = {"page": tree(root), "script": script, "messages": messages, "depth": depth, "limit": limit}
    signal.alarm(0)  # not the watchdog of one call: this runs thousands of loads and messages
    try:
        r = subprocess.run(["node", common.VERIF + "/mc/dom.js"], input=json.dumps(job).encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=700)
    except subprocess.TimeoutExpired:
        raise Bad("the page's script does not come to an end")
    finally:
        tick()
    if r.returncode:
        raise Bad("the page's script does not run: " + r.stderr.decode()[-500:])
    return json.loads(r.stdout.decode())


def explore(st, n, hole, comm, messages, depth, closure=False):
    """All sequences over the messages; each result equals what the last message says,
    and equals the page which received only that message."""
    scn0 = {"kind": "script", "seats": n, "hole": hole, "community": comm}
    set_scenario(scn0)
    out = run_script(n, hole, comm, messages, 10 ** 9 if closure else depth)
    for e in out["errors"]:
        seq = [messages[m] for m in e["trace"]]
        raise Bad(f"the page's script fails after the states {seq}: {e['error']}", dict(scn0, sequence=seq))
    alone = {}
    for i, m, j, _, _ in out["results"]:
        if i == 0:
            alone[m] = comparable(out["states"][j])
    looks = set()
    for i, m, j, load, pos in out["results"]:
        msgs = [messages[k] for k in out["loads"][load][max(0, pos - 300):pos]]
        scn = dict(scn0, sequence=msgs)
        state = out["states"][j]
        looks.add(check_shown(state, messages[m], n, hole, comm, scn))
        now = comparable(state)
        if m in alone and now != alone[m]:
            k = next(k for k, (x, y) in enumerate(zip(now, alone[m])) if x != y)
            raise Bad(f"after the states {msgs} the page still shows {now[k]}, a page with the last state only shows "
                      f"{alone[m][k]}", scn)
        st.outcome((n, hole, comm, m, json.dumps(messages[m], sort_keys=True)))
    if closure and not out["closed"]:
        raise Bad(f"more than {len(out['states'])} different pages are reachable over {len(messages)} states", scn0)
    on = {a for a, _ in looks if a is not None}
    off = {b for _, b in looks if b is not None}
    if len(on) > 1 or len(off) > 1 or on & off:
        raise Bad(f"seats to act are shown as {on}, others as {off}", scn0)
    st.states += len(out["states"])
    st.transitions += out["transitions"]
    st.traces += 1
    st.add("closed_explorations", int(out["closed"]))
    st.top("max_sequence_length", out["depth"])


def message(n, hole, comm, **kw):
    deck = [r + s for r in "23456789TJQKA" for s in "♣♠♥♦"]
    m = {
        "action": 0, "active": [True] * n, "all_in": [False] * n, "button": 0, "done": False,
        "community_cards": [], "hole_cards": [[deck[(i * hole + j) * 5 % 52] for j in range(hole)] for i in range(n)],
        "pot": 0, "payouts": [0] * n, "prev_action": None, "street_commits": [0] * n, "stacks": [10] * n,
    }
    m.update(kw)
    return m


def alphabet(n, hole, comm):
    """Messages which differ in every displayed field, for the closed explorations."""
    deck = ["T♣", "A♠", "2♥", "9♦", "K♥", "T♠", "Q♦", "3♣"]
    ms = [{}]
    h = lambda k: [[deck[(k + i * hole + j) % 8] for j in range(hole)] for i in range(n)]
    actives = list(itertools.product((True, False), repeat=n))
    if n > 4:
        # nobody, everybody, all but one, only one
        actives = [a for a in actives if sum(a) in (0, 1, n - 1, n)]
    for k, active in enumerate(actives):
        ms.append(message(n, hole, comm, hole_cards=h(k), active=list(active), action=k % (n + 1) - 1,
                          button=k % n, stacks=[k * 7 + i for i in range(n)], pot=3 * k,
                          street_commits=[(k + i) % 5 for i in range(n)],
                          community_cards=[deck[(k + j) % 8] for j in range(k % (comm + 1))]))
    for j in range(comm + 1):
        ms.append(message(n, hole, comm, hole_cards=h(j + 3), community_cards=[deck[(2 * j + i) % 8] for i in range(j)],
                          action=-1, done=True, pot=100 + j, button=j % n))
    for k, x in enumerate((10 ** 7, 10 ** 8 + 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 + 5, 10 ** 12, 2 ** 53 - 1)):
        ms.append(message(n, hole, comm, hole_cards=h(k), pot=x, stacks=[x - 1 - i for i in range(n)],
                          street_commits=[x // (i + 1) for i in range(n)], action=k % n, button=(k + 1) % n))
    for a in range(-1, n):
        ms.append(message(n, hole, comm, hole_cards=h(a + 1), action=a, button=(a + 1) % n, pot=1000000 + a,
                          stacks=[123456] * n, active=[i % 2 == 0 for i in range(n)]))
    return ms


def closures(st, n, hole, comm):
    explore(st, n, hole, comm, alphabet(n, hole, comm), 0, closure=True)


def pairs(st, n, hole, comm, depth):
    explore(st, n, hole, comm, alphabet(n, hole, comm), depth)


def every_card(st, where):
    """All 52 cards at one position, each followed by a page without it."""
    ms = [{}]
    for r in "23456789TJQKA":
        for s in "♣♠♥♦":
            c = r + s
            if where == "community":
                ms.append(message(2, 2, 3, community_cards=["3♣", c, "A♦"]))
            else:
                ms.append(message(2, 2, 3, hole_cards=[["2♣", c], [c, "K♦"]]))
    explore(st, 2, 2, 3, ms, 2)


def hands(st, name, depth, every):
    """States of played hands of a shipped configuration."""
    c = dict(getattr(clubs.configs, name))
    n = c["num_players"]
    comm = c["num_community_cards"]
    comm = sum(comm) if isinstance(comm, list) else comm * c["num_streets"]
    ms = [{}]
    for bets in ([], [-1] * 9, [1000] * 12, [0, 4, -1, 2, 0, 8]):
        t = webfeed.Table(c, bets)
        for _ in range(2 + 3 * n):
            t.advance()
            m = webfeed.plain(webfeed.state(t.d))
            if m not in ms:
                ms.append(m)
    explore(st, n, c["num_hole_cards"], comm, ms[::every], depth)


def pages(st, sizes):
    for s in sizes:
        check_page(st, *s)
    st.traces += 1


def jobs(prop, tier):
    T = tier == "thorough"
    out = []
    for n, hole, comm in ([(2, 1, 1), (3, 1, 1), (2, 2, 0), (2, 1, 2)] + ([(3, 1, 2), (2, 2, 2), (4, 1, 1)] if T else [])):
        out.append((closures, (n, hole, comm)))
    for n, hole, comm in ((2, 2, 5), (3, 4, 5), (6, 2, 5), (9, 2, 5), (10, 4, 3), (2, 1, 12), (2, 3, 9), (2, 9, 2), (3, 13, 0), (4, 6, 7)):
        out.append((pairs, (n, hole, comm, 2)))
    for n, hole, comm in ((11, 2, 1), (12, 1, 2), (13, 3, 0), (20, 1, 1)):
        out.append((pairs, (n, hole, comm, 1)))
    if T:
        out.append((pairs, (14, 2, 5, 2)))
        for n, hole, comm in ((2, 2, 5), (3, 2, 3), (4, 2, 5)):
            out.append((pairs, (n, hole, comm, 3)))
    out += [(every_card, ("community",)), (every_card, ("hole",))]
    for name, c in grid.shipped():
        out.append((hands, (name, 2, 1 if T or c["num_players"] < 9 else 3)))
        if T and c["num_players"] < 9:
            out.append((hands, (name, 3, 2)))
    sizes = list(itertools.product(range(2, 13 if T else 11), range(0, 7 if T else 6), range(0, 9 if T else 7)))
    sizes += [(n, h, c) for n in (2, 3, 6, 10) for h in (1, 2, 8, 13, 26) for c in (9, 10, 11, 12, 20, 50) if n * h + c <= 104]
    sizes += [(n, h, c) for n in (range(11, 30) if not T else range(13, 53)) for h, c in ((1, 1), (2, 5))]
    for ch in grid.chunks(sizes, 40):
        out.append((pages, (ch,)))
    for ch in grid.chunks(sizes[::1 if T else 3], 40):
        out.append((reloads, (ch, 6)))
    for size in ((2, 1, 0), (2, 2, 5), (3, 0, 2), (6, 2, 5), (9, 2, 5), (12, 1, 2)):
        out.append((reloads, ([size], 300 if T else 60)))
    return out
