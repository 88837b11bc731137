"""C23: the real web viewer (its server code, the real flask and flask_socketio
dispatch, real pickled messages) under a scheduler which decides when the viewer
renders, browsers come and go and the server's listener runs."""
import itertools
import json
import multiprocessing
import multiprocessing.connection
import os
import re
import socket as socket_module
import subprocess
import sys
import time
import urllib.request

from mc import common, game, grid
from mc.common import Bad, set_scenario, tick

import clubs
from clubs.render import graphic

BOUNDS = {
    "C23": "all schedules of up to 7 (thorough 9) events of: render the next state, a browser connects (up to 3), a "
           "browser leaves, the server's listener runs to its next blocking or sleeping point, with up to 4 states "
           "and a final close or not; all schedules of up to 7 (8) events in which 2 (3) states are rendered repeatedly; "
           "bursts of up to 22 (40) unread states around a connecting browser, up to 33 (90) browsers, runs of up to 130 "
           "(300) states; states from played hands of all shipped configurations; hosts and ports; two or "
           "three viewers of different games open at once (6 choices of hosts and ports): all sequences of up to 5 / 4 / 3 "
           "(thorough 6 / 5 / 5) renders, browsers, server runs and closings; one "
           "(thorough: six) schedules repeated on a real server process with real browsers' HTTP polling",
}
ASSUMES = {
    "C23": ["the server is cooperative (gevent): it is preempted at blocking calls and sleeps only",
            "messages between viewer and server are not lost by the operating system"]
}


# ------------------------------------------------------------------ environment
class Net:
    """Listening addresses, server tasks and sent packets of one execution."""

    def __init__(self):
        self.listeners = {}
        self.tasks = []
        self.main = None
        self.processes = []
        self.served = []      # (socketio, app, host, port)
        self.packets = {}     # browser -> list of events
        self.closed_listeners = []
        self.received = 0
        self.clock = None     # seconds of a virtual clock
        self.plan = None      # failures while starting, see mc/startup.py
        self.slept = []       # sleeps of the viewer's own process


NET = None


class Killed(BaseException):
    pass


def greenlets():
    import greenlet
    return greenlet


class Task:
    """A cooperative task of the server process."""

    def __init__(self, func, args=(), proc=None):
        g = greenlets()
        self.dead = False
        self.error = None
        # the process it belongs to
        self.proc = proc if proc is not None or NET.current is None else NET.current.proc

        def body():
            try:
                func(*args)
            except Killed:
                pass
            except Exception as e:
                self.error = e
            finally:
                self.dead = True

        # a finished task always hands over to the scheduler
        self.g = g.greenlet(body, NET.main)
        self.started = False
        NET.tasks.append(self)

    def step(self):
        """Run to the next scheduling point."""
        if self.dead:
            return
        NET.current = self
        self.started = True
        self.g.switch()
        NET.current = None
        if self.error is not None:
            raise Bad(f"the server fails: {common._describe(self.error)}")

    def kill(self):
        if not self.dead and self.started:
            self.g.throw(Killed)
        self.dead = True


def pause():
    """Scheduling point of the running server task."""
    if NET.current is not None:
        NET.main.switch()


class FakeConn:
    def __init__(self, conn, server):
        self.c = conn
        self.server = server

    def poll(self, timeout=0.0):
        if not self.server:
            return self.c.poll(0)
        pause()
        if timeout is None:
            while not self.c.poll(0):
                pause()
        return self.c.poll(0)

    def recv(self):
        if self.server:
            pause()
            while not self.c.poll(0):
                pause()
            m = self.c.recv()
            if not (isinstance(m, dict) and m.get("content") == "close") and m != "close":
                NET.received += 1
            return m
        return self.c.recv()

    def send(self, m):
        if not self.server and hasattr(NET.slept, "events"):
            NET.slept.events.append(("sent", json.loads(json.dumps(m))))
        self.c.send(m)

    def close(self):
        self.c.close()

    @property
    def closed(self):
        return self.c.closed

    def fileno(self):
        return self.c.fileno()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class FakeListener:
    def __init__(self, address=None, family=None, backlog=1, authkey=None):
        self.address = tuple(address)
        if self.address in NET.listeners:
            raise OSError("address in use")
        self.pending = []
        self.proc = NET.current.proc if NET.current is not None else None
        NET.listeners[self.address] = self

    def accept(self):
        pause()
        while not self.pending:
            pause()
        return FakeConn(self.pending.pop(0), True)

    def close(self):
        NET.listeners.pop(self.address, None)
        NET.closed_listeners.append(self.address)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def fake_client(address, family=None, authkey=None):
    address = tuple(address)
    host, port = address
    if NET.plan is not None:
        NET.plan.channel()
    lst = NET.listeners.get(address)
    if lst is None:
        raise ConnectionRefusedError(address)
    a, b = multiprocessing.Pipe()
    lst.pending.append(a)
    return FakeConn(b, False)


class FakeProcess:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.target, self.args, self.kwargs = target, args, kwargs or {}
        self.started = self.ended = self.joined = False
        self.daemon = daemon
        NET.processes.append(self)

    def start(self):
        self.started = True
        self.task = Task(lambda: self.target(*self.args, **self.kwargs), proc=self)
        self.task.step()

    def is_alive(self):
        return self.started and not self.ended

    def terminate(self):
        self.ended = True
        for t in NET.tasks:
            if t.proc is self or t.proc is None:
                t.kill()
        # the system gives its addresses free
        for a, x in list(NET.listeners.items()):
            if x.proc is self:
                del NET.listeners[a]
        NET.served = [x for x in NET.served if x[0].proc is not self] or NET.served

    kill = terminate

    def join(self, timeout=None):
        self.joined = True
        if not self.ended:
            for _ in range(2000):
                if self.task.dead:
                    self.ended = True
                    return
                drain(1)

    @property
    def exitcode(self):
        return 0 if self.ended else None

    @property
    def pid(self):
        return 2 ** 30  # nobody


real_sleep = time.sleep


def fake_sleep(seconds=0):
    if NET is None:
        real_sleep(seconds)
    elif NET.current is not None:
        NET.main.switch()
    else:
        NET.slept.append(seconds or 0)
        if NET.clock is not None:
            NET.clock += max(seconds, 0)
        drain(1)


real_time = time.time
real_monotonic = time.monotonic


def fake_time():
    if NET is None or NET.clock is None:
        return real_time()
    # looking at the clock takes time, too
    NET.clock += 1e-4
    return 1.6e9 + NET.clock


def fake_monotonic():
    if NET is None or NET.clock is None:
        return real_monotonic()
    NET.clock += 1e-4
    return 1e4 + NET.clock


def drain(rounds):
    """Let every server task run."""
    for _ in range(rounds):
        for t in list(NET.tasks):
            t.step()


class Response:
    status = 200
    code = 200

    def __init__(self, body):
        self.body = body

    def read(self):
        return self.body

    def getcode(self):
        return 200

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def spawn(func, *args, **kw):
    return Task(lambda: func(*args, **kw))


def fake_urlopen(url, data=None, timeout=None, **k):
    import urllib.error
    timeout = timeout if isinstance(timeout, (int, float)) else None
    url = getattr(url, "full_url", url)
    if NET.plan is not None:
        NET.plan.page(url, timeout)
    m = re.fullmatch(r"http://([^/:]+):(\d+)/?", url)
    for sio, app, host, port in NET.served:
        if m and host == m.group(1) and int(port) == int(m.group(2)):
            if NET.light:
                return Response(b"")
            r = app.test_client().get("/")
            if r.status_code != 200:
                raise Bad(f"the page is answered with status {r.status_code}")
            return Response(r.data)
    raise urllib.error.URLError("refused")


class Browser:
    count = 0

    def __init__(self, address=None):
        from werkzeug.test import EnvironBuilder
        sio, app, host, port = next(x for x in NET.served if address in (None, x[2:]))
        Browser.count += 1
        self.sid = f"browser{Browser.count}"
        NET.packets[self.sid] = []
        server = sio.server
        server._send_packet = send_packet
        server.async_handlers = False
        server.eio.async_handlers = False
        server.environ[self.sid] = {}
        server.manager.initialize()
        environ = EnvironBuilder("/socket.io").get_environ()
        environ["flask.app"] = app
        self.sio = sio
        if server._handle_eio_connect(self.sid, environ) not in (None, True):
            raise Bad("a browser is refused")

    def leave(self):
        self.sio.server._handle_eio_disconnect(self.sid)

    def messages(self):
        return NET.packets[self.sid]


def send_packet(sid, pkt):
    from socketio import packet
    if pkt.packet_type == packet.EVENT:
        name, *args = json.loads(json.dumps(pkt.data))
        NET.packets[sid].append((name, args))


_patched = [False]


def patch():
    """Route the viewer's use of processes, sockets, time and the web server through
    this module."""
    if _patched[0]:
        return
    _patched[0] = True
    import gevent.monkey
    gevent.monkey.patch_all = lambda *a, **k: True
    import flask_socketio
    S = flask_socketio.SocketIO

    def run(self, app, host=None, port=None, **kw):
        self.proc = NET.current.proc if NET.current is not None else None
        NET.served.append((self, app, host, port))
        while True:
            NET.main.switch()

    def start_background_task(self, target, *args, **kwargs):
        return Task(lambda: target(*args, **kwargs))

    def sleep(self, seconds=0):
        fake_sleep(seconds)

    S.run, S.start_background_task, S.sleep = run, start_background_task, sleep
    import gevent
    stand_ins = [(multiprocessing, "Process", FakeProcess), (multiprocessing.connection, "Listener", FakeListener),
                 (multiprocessing.connection, "Client", fake_client), (urllib.request, "urlopen", fake_urlopen),
                 (time, "sleep", fake_sleep), (time, "time", fake_time),
                 (time, "monotonic", fake_monotonic), (time, "perf_counter", fake_monotonic), (gevent, "sleep", fake_sleep), (gevent, "spawn", spawn)]
    modules = [m for k, m in list(sys.modules.items()) if k.split(".")[0] == "clubs"]
    for mod, name, new in stand_ins:
        old = getattr(mod, name)
        setattr(mod, name, new)
        # wherever the package imported it by name
        for m in modules:
            for k, x in list(vars(m).items()):
                if x is old or (x == old and name == "Process"):
                    setattr(m, k, new)
    graphic.print = lambda *a, **k: None


# ------------------------------------------------------------------ states
def plain(config):
    """Expected message for a render state, computed before it is rendered."""
    c = dict(config)
    c["hole_cards"] = [[str(x) for x in h] for h in config["hole_cards"]]
    c["community_cards"] = [str(x) for x in config["community_cards"]]
    return json.loads(json.dumps(c))


_drawn = {}
_SVG = getattr(graphic, "_SVGPoker", None)


def start(n=2, hole=2, comm=5, light=False, **kw):
    prepare(n, hole, comm, light)
    return graphic.GraphicViewer(n, hole, comm, **kw)


def prepare(n, hole, comm, light):
    """A new, empty environment."""
    global NET
    patch()
    NET = Net()
    NET.main = greenlets().getcurrent()
    NET.current = None
    NET.light = light
    # the table's drawing depends on its size only
    def drawn(*a, **k):
        key = (a, tuple(sorted(k.items())))
        if key not in _drawn:
            _drawn[key] = _SVG(*a, **k)
        return _drawn[key]

    if _SVG is not None:
        graphic._SVGPoker = drawn if light else _SVG


def finish(v):
    global NET
    for t in NET.tasks:
        t.kill()
    for p in NET.processes:
        p.ended = True
    s = getattr(v, "socket", None)
    if s is not None:
        try:
            s.close()
        except Exception:
            pass
    NET = None


class Table:
    """A dealer whose live lists are handed to the viewer and change afterwards."""

    def __init__(self, cfg, bets):
        self.d = clubs.Dealer(**cfg)
        import random
        random.seed(17)
        self.bets = list(bets)
        self.first = True

    def advance(self):
        if self.first:
            self.d.reset(reset_button=True, reset_stacks=True)
            self.first = False
        else:
            b = self.bets.pop(0) if self.bets else 0
            _, _, done = self.d.step(b)
            if all(done):
                self.first = True


def latest(sent, k):
    return sent[k - 1] if k else None


class Catcher:
    def render(self, config, *a, **k):
        self.config = config


def state(d):
    """What a viewer of this dealer is given."""
    v, d.viewer = d.viewer, Catcher()
    try:
        d.render()
        return d.viewer.config
    finally:
        d.viewer = v


def pool(cfg):
    """Three different states of one game, as separate objects."""
    d = clubs.Dealer(**cfg)
    d.reset(reset_button=True, reset_stacks=True)
    out = []
    for _ in range(3):
        c = dict(state(d))
        for k, v in c.items():
            if isinstance(v, list):
                c[k] = [list(x) if isinstance(x, list) else x for x in v]
        out.append(c)
        d.step(2)
    return out


def execute(st, events, cfg, bets, kw, strict_close=True):
    """One schedule on the real viewer and server code."""
    scn = {"kind": "web", "events": events, "cfg": cfg.get("num_players"), "options": kw}
    set_scenario(scn)
    tick()
    comm = cfg["num_community_cards"]
    comm = sum(comm) if isinstance(comm, list) else comm * cfg["num_streets"]
    v = start(cfg["num_players"], cfg["num_hole_cards"], comm, light=True, **kw)
    try:
        table = Table(cfg, bets)
        table.d.viewer = v
        states = pool(cfg) if set(events) & set("abc") else []
        sent = []
        browsers = []  # (browser, states received by the server when it connected, messages got at once)
        gone = []

        def expect(b, k0, got, final):
            """Messages of a browser: the latest state at connection, then all later ones."""
            msgs = b.messages()
            for name, args in msgs:
                if name != "config" or len(args) != 1:
                    raise Bad(f"browser got {name} {args}", scn)
            states = [a[0] for _, a in msgs]
            first = states[:got]
            rest = states[got:]
            if k0 == 0:
                if any(x != {} for x in first) or len(first) > 1:
                    raise Bad(f"a browser connecting before anything is rendered got {first}", scn)
            elif first != [sent[k0 - 1]]:
                raise Bad(f"a browser connecting after {k0} states immediately got {first}, the latest is "
                          f"{sent[k0 - 1]}", scn)
            want = sent[k0:NET.received]
            if rest != want:
                k = next((i for i, (x, y) in enumerate(zip(rest, want)) if x != y), min(len(rest), len(want)))
                raise Bad(f"a browser connected after {k0} states got {len(rest)} further messages, expected "
                          f"{len(want)}; first difference at message {k}: got {rest[k:k + 1]}, expected "
                          f"{want[k:k + 1]}", scn)

        closed = False
        for e in events:
            st.transitions += 1
            if e == "R":
                table.advance()
                # compare with the table itself, before rendering
                shown = plain(state(table.d))
                sent.append(shown)
                table.d.render()
            elif e in "abc":
                # the same few states again and again
                c = states["abc".index(e)]
                sent.append(plain(c))
                v.render(c)
            elif e == "L":
                drain(1)
            elif e == "C":
                b = Browser()
                browsers.append((b, NET.received, len(b.messages())))
            elif e == "D":
                b = browsers.pop(0)
                expect(b[0], b[1], b[2], False)
                b[0].leave()
                gone.append((b[0], len(b[0].messages())))
            elif e == "X":
                v.close()
                closed = True
                for p in NET.processes:
                    if p.is_alive():
                        raise Bad("the server process is alive after close()", scn)
        if not closed:
            # nothing else happens: all states arrive
            idle = 0
            while idle < 12:
                before = NET.received
                drain(1)
                idle = 0 if NET.received != before else idle + 1
            if NET.received != len(sent):
                raise Bad(f"{NET.received} of {len(sent)} rendered states reach the server", scn)
        for b in browsers:
            expect(b[0], b[1], b[2], True)
        for b, k in gone:
            if len(b.messages()) != k:
                raise Bad("a browser got messages after leaving", scn)
        if not NET.served:
            raise Bad("no server was started", scn)
        _, _, host, port = NET.served[0]
        if host != kw.get("host", "127.0.0.1") or port != v.port or (kw.get("port") and port != kw["port"]):
            raise Bad(f"server runs on {host}:{port}, requested {kw}", scn)
        st.states += 1
        st.outcome((tuple(events), len(sent)))
    finally:
        finish(v)


def schedules(depth, renders, maxb):
    """All event sequences up to depth, without ones which only differ in trailing
    listener steps (the end runs the listener anyway)."""
    out = []

    def go(seq, r, b, live):
        if seq and seq[-1] != "L":
            out.append(tuple(seq))
        if len(seq) == depth:
            return
        if r < renders:
            go(seq + ["R"], r + 1, b, live)
        if b < maxb:
            go(seq + ["C"], r, b + 1, live + 1)
        if live:
            go(seq + ["D"], r, b, live - 1)
        # a listener without anything new only sleeps: at most four steps in a row
        if seq[-4:] != ["L"] * 4:
            go(seq + ["L"], r, b, live)

    go([], 0, 0, 0)
    return out


def words(depth, letters):
    """All sequences with one or two browsers in which states repeat."""
    out = []

    def go(seq, b, used):
        if seq and seq[-1] in letters and b:
            out.append(tuple(seq))
        if len(seq) == depth:
            return
        # states are interchangeable: a new letter is the next unused one
        for x in letters[: used + 1]:
            go(seq + [x], b, max(used, letters.index(x) + 1))
        if b < 2:
            go(seq + ["C"], b + 1, used)
        if seq[-2:] != ["L"] * 2:
            go(seq + ["L"], b, used)

    go([], 0, 0)
    return [s for s in out if len([x for x in s if x in letters]) > len({x for x in s if x in letters})]


def bursts(T):
    """Many states before the listener runs, many browsers, long runs."""
    out = []
    top = 40 if T else 22
    for a in range(0, top, 1 if T else 2):
        for b in range(1, top, 2 if T else 3):
            for l in (0, 1, 5):
                out.append("R" * a + "C" + "L" * l + "R" * b)
                if T or l == 1:
                    out.append("CR" + "L" * l + "R" * a + "C" + "R" * b + "LLL" + "D" + "R" * 11)
    for k in (4, 7, 12, 33) + ((90,) if T else ()):
        out.append("C" * k + "RLRLL" + "R" * k)
        out.append("RL" + "CR" * k + "L" * k + "D" * k + "R")
        out.append("CRDL" * k + "CR")
    for k in (60, 130) + ((300,) if T else ()):
        out.append("C" + "RL" * k)
        out.append("C" + "RLL" * k + "CR")
        out.append("C" + "R" * 6 + ("RRL" * 3 + "RLLL") * (k // 6) + "C" + "R" * 7)
    return [tuple(x) for x in out]


def shard(st, seqs, cfg, bets, kw):
    for s in seqs:
        execute(st, s, cfg, bets, kw)
    st.add("schedules", len(seqs))
    st.traces += 1
    st.sample({"schedule": "".join(seqs[-1])}, 3)


def closing(st, seqs, cfg):
    for s in seqs:
        execute(st, tuple(s) + ("X",), cfg, [0, 0, 0], {})
        execute(st, tuple(s) + ("X", "X"), cfg, [0, 0, 0], {})
    st.add("schedules", 2 * len(seqs))


def hands(st, name):
    """Whole hands of a shipped game: two browsers, one connecting late."""
    c = dict(getattr(clubs.configs, name))
    for bets in ([], [2, 4, 6, 8, 10, 12], [-1] * 9, [1000] * 12, [0, 3, -1, 2, 0, 5]):
        ev = ["C"]
        for k in range(3 * c["num_players"] + 6):
            ev.append("R")
            if k % 3:
                ev += ["L", "L", "L"]
            if k == 5:
                ev.append("C")
        execute(st, tuple(ev), c, bets, {})
    st.traces += 1


PAIRS = [({}, {}), ({}, {"port": 7300}), ({"port": 7300}, {"port": 7400}),
         ({"host": "localhost", "port": 7300}, {"host": "0.0.0.0", "port": 7302}), ({"host": "localhost"}, {}), ({}, {}, {})]


def several(st, words, options):
    """Several viewers of different games open at the same time."""
    for w in words:
        for last in (False, False, True):
            # an address may be given out twice by chance, as nothing really listens
            try:
                together(st, w, options)
                break
            except Bad:
                if last:
                    raise
    st.add("schedules", len(words))
    st.traces += 1


def together(st, word, options):
    g = grid.cfg
    cfgs = [g(2, 2, [1, 2], 0, start=9, hole=2, cards=3, comm=[0, 2]), g(3, 2, [1, 2, 0], 0, start=9, hole=1, cards=2, comm=[0, 1]),
            g(2, 1, 0, 1, start=9, hole=1, cards=1)][:len(options)]
    scn = {"kind": "several viewers", "events": word, "options": options}
    set_scenario(scn)
    tick()
    prepare(2, 2, 2, True)
    vs, ts, sent, browsers, closed = [], [], [], [], set()
    try:
        for c, kw in zip(cfgs, options):
            v = graphic.GraphicViewer(c["num_players"], c["num_hole_cards"], sum(c["num_community_cards"]), **kw)
            vs.append(v)
            host = kw.get("host", "127.0.0.1")
            if (v.host, v.port) not in [x[2:] for x in NET.served] or v.host != host or v.port != kw.get("port", v.port):
                raise Bad(f"the server of viewer {len(vs)} runs on {NET.served[-1][2:]}, requested {kw}", scn)
            t = Table(c, [1, 2, 0, -1])
            t.d.viewer = v
            ts.append(t)
            sent.append([])
        if len({v.port for v in vs}) < len(vs):
            raise Bad(f"viewers share the ports {[v.port for v in vs]}", scn)
        if word == ():
            NET.light = False
            for v, c in zip(vs, cfgs):
                body = fake_urlopen(f"http://{v.host}:{v.port}").read().decode()
                if body.count('class="player"') != c["num_players"]:
                    raise Bad(f"the page of a table with {c['num_players']} seats shows {body.count('class=' + chr(34) + 'player')}", scn)
        for e in word + tuple("L" * 14):
            st.transitions += 1
            if e == "L":
                drain(1)
                continue
            k = int(e[1])
            if k in closed:
                continue
            if e[0] == "R":
                ts[k].advance()
                sent[k].append(plain(state(ts[k].d)))
                ts[k].d.render()
            elif e[0] == "C":
                browsers.append((k, Browser((vs[k].host, vs[k].port)), len(sent[k])))
            else:
                vs[k].close()
                closed.add(k)
                if [p.is_alive() for p in NET.processes] != [i not in closed for i in range(len(vs))]:
                    raise Bad(f"server processes alive after closing {sorted(closed)}: {[p.is_alive() for p in NET.processes]}", scn)
        for k, b, before in browsers:
            got = [a[0] for _, a in b.messages()]
            if k in closed:
                ok = all(x in sent[k] or x == {} for x in got)
            else:
                # states on their way while it connected come before or after the first one
                ok = got[1 if got[:1] == [{}] else 0:] in [sent[k][i:] for i in range(before + 1)] and bool(got)
            if not ok:
                raise Bad(f"a browser of viewer {k} of {len(vs)} got {got}, this table's states were {sent[k]}", scn)
        st.states += 1
        st.outcome((word, len(options)))
    finally:
        for t in NET.tasks:
            t.kill()
        for p in NET.processes:
            p.ended = True
        for v in vs:
            finish(v) if v is vs[-1] else v.socket.close()


def mixed(depth, viewers):
    # sequences of renders, browsers, closings of one viewer and runs of the servers
    letters = [f"{x}{k}" for k in range(viewers) for x in "RC"] + ["X0", "L"]
    out = [()]
    for n in range(1, depth + 1):
        for w in itertools.product(letters, repeat=n):
            if w[-1] != "L" and w.count("X0") < 2 and any(x[0] == "R" for x in w) and any(x[0] == "C" for x in w):
                out.append(w)
    return out


def page(st):
    """The page itself shows the table of the viewer's size."""
    for n, hole, comm in itertools.product((2, 3, 6, 9, 10), (1, 2, 4), (0, 3, 5)):
        tick()
        for kw in ({}, {"port": 7001 + n}, {"host": "localhost"}, {"host": "0.0.0.0", "port": 7100}):
            set_scenario({"kind": "page", "seats": n, "hole": hole, "community": comm, "options": kw})
            v = start(n, hole, comm, **kw)
            try:
                body = fake_urlopen(f"http://{v.host}:{v.port}").read().decode()
                _, _, host, port = NET.served[0]
                if host != kw.get("host", "127.0.0.1") or (kw.get("port") and port != kw["port"]):
                    raise Bad(f"server runs on {host}:{port}, requested {kw}")
                for what, k in (('class="player"', n), ('class="community"', 1), ("parse_config.js", 1), ("socket.io", 1)):
                    if body.count(what) < k or (what.startswith("class") and body.count(what) != k):
                        raise Bad(f"the page shows {what} {body.count(what)} times, expected {k}")
                js = NET.served[0][1].test_client().get("/static/parse_config.js")
                if js.status_code != 200 or b"config" not in js.data:
                    raise Bad("the script of the page is not served")
                st.states += 1
                st.outcome((n, hole, comm, str(kw)))
            finally:
                finish(v)
    st.traces += 1


# ------------------------------------------------------------------ real server
REAL = r'''
import http.client, json, sys, time
sys.path[:0] = [%r, %r]
import clubs, random
from clubs.render import graphic
class B:
    def __init__(self, host, port):
        self.c = http.client.HTTPConnection(host, port, timeout=20)
        r = self.get("/socket.io/?EIO=3&transport=polling&b64=1")
        self.msgs = []
        self.sid = None
        self.feed(r)
        while not self.msgs:
            self.poll()
        self.first = len(self.msgs)
    def get(self, url):
        self.c.request("GET", url)
        return self.c.getresponse().read().decode()
    def feed(self, t):
        while t:
            n, t = t.split(":", 1)
            p, t = t[:int(n)], t[int(n):]
            if p[0] == "0":
                self.sid = json.loads(p[1:])["sid"]
            elif p.startswith("42"):
                self.msgs.append(json.loads(p[2:]))
    def poll(self):
        self.feed(self.get("/socket.io/?EIO=3&transport=polling&b64=1&sid=" + self.sid))
def plain(c):
    c = dict(c)
    c["hole_cards"] = [[str(x) for x in h] for h in c["hole_cards"]]
    c["community_cards"] = [str(x) for x in c["community_cards"]]
    return json.loads(json.dumps(c))
events = %r
d = clubs.Dealer(**clubs.configs.NO_LIMIT_HOLDEM_SIX_PLAYER)
v = graphic.GraphicViewer(6, 2, 5)
sent, bs = [], []
class Through:
    def render(self, config, *a, **k):
        sent.append(plain(config))
        v.render(config, *a, **k)
d.viewer = Through()
over = True
problem = None
for e in events:
    if e == "R":
        if over:
            d.reset(reset_stacks=True); over = False
        else:
            over = all(d.step(2)[2])
        d.render()
    elif e == "C":
        b = B(v.host, v.port)
        bs.append((b, len(sent)))
    elif e == "W":
        time.sleep(%r)
deadline = time.time() + 20
for b, k in bs:
    while time.time() < deadline and (not b.msgs or b.msgs[-1][1] != sent[-1]):
        b.poll()
    got = [m[1] for m in b.msgs]
    # everything rendered before connecting was given time to arrive
    want = ([sent[k - 1]] if k else [{}]) + sent[k:]
    if got != want and not (k == 0 and got == sent):
        problem = "browser connected after %%d states: got %%d messages, expected %%d: %%r" %% (k, len(got), len(want), [want.index(g) if g in want else g for g in got])
        break
proc = v.process
v.close()
t = time.time()
while proc.is_alive() and time.time() - t < 10:
    time.sleep(0.05)
if proc.is_alive() and not problem:
    problem = "server process alive after close()"
print("RESULT " + json.dumps(problem))
sys.stdout.flush()
import os
os._exit(0)
'''


def real(st, events):
    scn = {"kind": "real server", "events": events}
    set_scenario(scn)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    last = None
    for attempt in range(3):
        tick()
        try:
            r = subprocess.run([sys.executable, "-B", "-c", REAL % (common.VERIF, common.REPO, events, (0.3, 1.5, 4)[attempt])], env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=90)
        except subprocess.TimeoutExpired:
            continue
        m = re.search(rb"RESULT (.*)", r.stdout)
        if m:
            last = json.loads(m.group(1))
            if last is None:
                st.traces += 1
                st.states += 1
                st.transitions += len(events)
                st.add("real_server_runs")
                return
        else:
            last = None
    if last:
        raise Bad("real server: " + last, scn)
    # the sandbox could not run a web server; the schedules above were explored anyway
    st.add("real_server_unavailable")


def jobs(prop, tier):
    T = tier == "thorough"
    g = grid.cfg
    out = []
    for ev in ("RWCWRRWCWR", "CWCWRRRRRRWCWRRR", "CRRWRCWRR")[: 3 if T else 1]:
        out.append((real, (ev,)))
    if T:
        for ev in ("WCWRWRWRWC", "RRRRRRRRWCWR", "CWRWCWRWCWRWRRRR"):
            out.append((real, (ev,)))
    small = g(2, 2, [1, 2], 0, start=9, hole=2, cards=3, comm=[0, 2])
    seqs = schedules(9 if T else 7, 4, 3)
    for ch in grid.chunks(seqs, 400):
        out.append((shard, (ch, small, [1, 0, 4, -1], {})))
    for ch in grid.chunks(words(8 if T else 7, "abc" if T else "ab"), 400):
        out.append((shard, (ch, small, [], {})))
    for ch in grid.chunks(bursts(T), 30):
        out.append((shard, (ch, small, [1, 0, 4, -1], {})))
    for ch in grid.chunks([s for s in schedules(6 if T else 5, 3, 2)], 150):
        out.append((closing, (ch, small)))
    for name, c in grid.shipped():
        out.append((hands, (name,)))
    for i, options in enumerate(PAIRS):
        for ch in grid.chunks(mixed((6 if i < 2 else 5) if T else 5 if i == 0 else 4 if i < 5 else 3, len(options)), 900):
            out.append((several, (ch, options)))
    out.append((page, ()))
    return out

