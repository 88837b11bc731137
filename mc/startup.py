"""C26: opening the web viewer under all failure patterns of its server's start, with a
virtual clock; the viewer's and the server's code are the real ones (see webfeed)."""
import contextlib
import gc
import http.client
import io
import itertools
import json
import os
import shutil
import socket
import subprocess
import sys
import tempfile
import urllib.error

from mc import common, webfeed
from mc.common import Bad, set_scenario, tick

import clubs
from clubs import error
from clubs.render import graphic

BOUNDS = {
    "C26": "all sequences of up to 3 (thorough 4) failed connections of 3 kinds x up to 2 (3) failed page requests of 6 "
           "kinds (refused, timed out, 503, cut off, reset, no web server) before the server answers; channel and page unavailable for 0.005-9.5 s or for ever, the page also by accepting a "
           "request and not answering; the server "
           "process dying before any of the first connections or page requests; viewer opened directly or by a dealer "
           "(also again after a failure), host and port given or not; all 8 subsets of missing web packages",
}
ASSUMES = {"C26": ["time is virtual: it passes by sleeping and, a little, by looking at the clock",
                   "a failed viewer counts as gone after a garbage collection"]}

CHANNEL = {
    "refused": lambda: ConnectionRefusedError("refused"),
    "unreachable": lambda: OSError("unreachable"),
    "timeout": lambda: TimeoutError("timeout"),
}
PAGE = {
    "refused": lambda url: urllib.error.URLError(ConnectionRefusedError("refused")),
    "timeout": lambda url: urllib.error.URLError(TimeoutError("timeout")),
    "unavailable": lambda url: urllib.error.HTTPError(url, 503, "unavailable", {}, io.BytesIO()),
    # the connection is accepted, but the answer never comes, is cut off or is something else
    "dropped": lambda url: http.client.RemoteDisconnected("Remote end closed connection without response"),
    "reset": lambda url: ConnectionResetError("reset"),
    "garbage": lambda url: http.client.BadStatusLine("220 ready"),
    "stalled": lambda url: socket.timeout("timed out"),
}
FIRST = {"refused", "timeout", "unavailable"}
PATIENCE = 60


class Plan:
    """Which attempts fail: the first ones in the given ways, or all before a moment."""

    def __init__(self, channel, page, die=None):
        self.c, self.p, self.die = channel, page, die
        self.tried = {"channel": 0, "page": 0}
        self.since = {"channel": None, "page": None}
        self.ok = {"channel": False, "page": False}

    def attempt(self, what, how):
        k = self.tried[what]
        self.tried[what] += 1
        webfeed.NET.clock += 1e-4
        if webfeed.NET.clock > PATIENCE:
            raise common.Hang(f"the viewer still waits for its {what} after {PATIENCE} s")
        if self.since[what] is None:
            self.since[what] = webfeed.NET.clock
        if self.die is not None and self.die[0] == what and k >= self.die[1]:
            for p in webfeed.NET.processes:
                p.ended = True
            for t in webfeed.NET.tasks:
                t.kill()
            webfeed.NET.listeners.clear()
            webfeed.NET.served.clear()
            return "refused"
        if how[0] == "times":
            if k < len(how[1]):
                return how[1][k]
        elif how[1] is None or webfeed.NET.clock < self.since[what] + how[1]:
            return how[2]
        self.ok[what] = True
        return None

    def channel(self):
        f = self.attempt("channel", self.c)
        if f:
            raise CHANNEL[f]()

    def page(self, url, timeout=None):
        net = webfeed.NET
        f = self.attempt("page", self.p)
        if f == "stalled":
            # answered when the server gets to it
            left = None if self.p[1] is None else self.since["page"] + self.p[1] - net.clock
            if left is not None and (timeout is None or left < timeout):
                net.clock += max(left, 0)
                self.ok["page"] = True
                return
            if timeout is None:
                raise common.Hang("the viewer waits for ever for a page which is never answered")
            net.clock += timeout
        if f:
            raise PAGE[f](url)

    @property
    def opens(self):
        return self.die is None and all(h[0] == "times" or h[1] is not None for h in (self.c, self.p))


def quietly(f):
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        return f()


def failure(f):
    """Exception raised by f, without keeping its frames."""
    try:
        return None, f()
    except Exception as e:
        return (type(e), str(e)), None


def alive():
    for _ in range(4):
        if any(p.is_alive() for p in webfeed.NET.processes):
            gc.collect()
    return [p for p in webfeed.NET.processes if p.is_alive()]


def open_viewer(st, plan, way, kw):
    scn = {"kind": "startup", "channel": plan.c, "page": plan.p, "server dies": plan.die, "opened by": way,
           "options": kw}
    set_scenario(scn)
    tick()
    st.transitions += 1
    webfeed.prepare(2, 2, 0, True)
    net = webfeed.NET
    net.clock, net.plan = 0.0, plan
    d = clubs.Dealer(**dict(clubs.configs.LEDUC_TWO_PLAYER))
    d.reset()
    obs = d.step(0)
    text = str(d)
    v = None
    try:
        if way == "direct":
            exc, v = quietly(lambda: failure(lambda: graphic.GraphicViewer(2, 2, 0, **kw)))
        else:
            exc, _ = quietly(lambda: failure(lambda: d.render("human", **kw)))
            v = d.viewer
        took = net.clock
        if plan.opens:
            if exc is not None:
                raise Bad(f"opening the viewer fails with {exc[0].__name__}: {exc[1]}, although channel and page "
                          "answer in time", scn)
            if not (plan.ok["channel"] and plan.ok["page"]):
                raise Bad(f"the viewer counts as open, but these did not answer yet: "
                          f"{[k for k, x in plan.ok.items() if not x]}", scn)
            net.plan = None
            sent = []
            if way != "direct":
                sent.append(webfeed.plain(webfeed.state(d)))
            d.viewer = v
            d.step(2)
            sent.append(webfeed.plain(webfeed.state(d)))
            d.render()
            webfeed.drain(12)
            b = webfeed.Browser()
            if [a[0] for _, a in b.messages()] != [sent[-1]] or net.received != len(sent):
                raise Bad(f"{net.received} of {len(sent)} states reach the server of the opened viewer", scn)
            v.close()
            if alive():
                raise Bad("the server process is alive after close()", scn)
        else:
            if exc is None:
                raise Bad("the viewer counts as open although its server never answers", scn)
            if exc[0] is not error.RenderInitializationError:
                raise Bad(f"opening the viewer fails with {exc[0].__name__}: {exc[1]}, expected "
                          "RenderInitializationError", scn)
            if took > PATIENCE:
                raise Bad(f"the viewer waits {took:.0f} s for a server which does not answer", scn)
            if v is not None:
                raise Bad("the dealer keeps a viewer which could not be opened", scn)
            if quietly(alive):
                raise Bad("a viewer which could not be opened leaves its server process running", scn)
            if str(d) != text:
                raise Bad("the table changes when the viewer cannot be opened", scn)
            if way == "again":
                net.plan = None
                net.tasks.clear()
                net.served.clear()
                net.listeners.clear()
                quietly(lambda: d.render("human", **kw))
                webfeed.drain(12)
                if net.received != 1:
                    raise Bad("rendering again after a failure shows nothing", scn)
                quietly(d.viewer.close)
                if alive():
                    raise Bad("the server process is alive after close()", scn)
            elif way == "dealer":
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    d.render("ascii")
                if text not in out.getvalue():
                    raise Bad("after a failure of the web viewer the table cannot be printed", scn)
        st.states += 1
        st.outcome((plan.opens, tuple(plan.tried.items()), way))
    finally:
        d.viewer = None
        webfeed.finish(v)


OPTIONS = [{}, {"port": 8123}, {"host": "localhost", "port": 9000}]


def many(st, plans):
    for c, p, die in plans:
        for way, kw in (("direct", {}), ("dealer", {}), ("direct", OPTIONS[2]), ("dealer", OPTIONS[1])):
            open_viewer(st, Plan(c, p, die), way, kw)
        if not Plan(c, p, die).opens:
            open_viewer(st, Plan(c, p, die), "again", {})
            open_viewer(st, Plan(c, p, die), "again", OPTIONS[2])
    st.traces += 1


PROBE = r'''
import sys
sys.path[:0] = %r
import multiprocessing
started = []
real = multiprocessing.Process.start
multiprocessing.Process.start = lambda self: started.append(self) or real(self)
import clubs, random
from clubs import error
from clubs.render import graphic
random.seed(1)
d = clubs.Dealer(**clubs.configs.LEDUC_TWO_PLAYER)
d.reset()
text = str(d)
names = []
def attempt(f):
    try:
        x = f()
        names.append("ok")
        return x
    except Exception as e:
        names.append(type(e).__name__)
v = attempt(lambda: graphic.GraphicViewer(2, 2, 5))
if v is not None:
    v.close()
del v
attempt(lambda: d.render("human"))
if d.viewer is not None:
    d.viewer.close()
    d.viewer = None
    started = None
attempt(lambda: d.render("ascii"))
print("RESULT", names, None if started is None else len(started), str(d) == text)
sys.stdout.flush()
import os
os._exit(0)
'''


def packages():
    """Folders with the web packages."""
    import flask
    import flask_socketio
    import gevent
    return {m.__name__: os.path.dirname(os.path.dirname(m.__file__)) for m in (gevent, flask, flask_socketio)}


def missing(st, hidden):
    scn = {"kind": "startup", "missing packages": hidden}
    set_scenario(scn)
    where = packages()
    tmp = tempfile.mkdtemp(prefix="clubs-mc-")
    try:
        # every installed package except the hidden ones
        site = os.path.join(tmp, "site")
        os.mkdir(site)
        for folder in sorted(set(where.values())):
            for name in os.listdir(folder):
                if name.split(".")[0] not in hidden and not os.path.lexists(os.path.join(site, name)):
                    os.symlink(os.path.join(folder, name), os.path.join(site, name))
        prog = os.path.join(tmp, "probe.py")
        with open(prog, "w") as f:
            f.write(PROBE % ([common.REPO, site],))
        env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        for _ in range(2):
            tick()
            r = subprocess.run([sys.executable, "-B", "-S", prog], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               env=env, cwd=tmp, timeout=100)
            line = [x for x in r.stdout.decode().split("\n") if x.startswith("RESULT")]
            if line:
                break
        if not line:
            raise Bad(f"the library cannot be used without {hidden}: {r.stderr.decode()[-300:]}", scn)
        if hidden:
            want = f"RESULT ['MissingImportsError', 'MissingImportsError', 'ok'] 0 True"
            if line[0] != want:
                raise Bad(f"without {hidden}: {line[0]}, expected {want}", scn)
        elif "MissingImportsError" in line[0] or "'ok'] " not in line[0]:
            raise Bad(f"with all packages: {line[0]}", scn)
        st.states += 1
        st.traces += 1
        st.outcome((tuple(hidden), line[0]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def jobs(prop, tier):
    T = tier == "thorough"
    seqs = lambda kinds, n: [list(x) for k in range(n + 1) for x in itertools.product(sorted(kinds), repeat=k)]
    plans = []
    for c in seqs(CHANNEL, 4 if T else 3):
        for p in seqs(set(PAGE) - {"stalled"}, (3 if len(c) < 3 else 2) if T else 2):
            if not T and len(c) > 2 and len(p) > 1 and not set(p) <= FIRST:
                continue
            plans.append((("times", c), ("times", p), None))
    moments = [0, 0.005, 0.5, 3, 9.5, None] + ([0.1, 1, 5, 7, 9.9] if T else [])
    for c, p in itertools.product(moments, repeat=2):
        for kc in sorted(CHANNEL):
            for kp in sorted(PAGE):
                plans.append((("until", c, kc), ("until", p, kp), None))
    for what, n in (("channel", 6), ("page", 6)):
        for k in range(n):
            for c in ([], ["refused"], ["refused"] * 5):
                for p in ([], ["timeout"] * 5, ["dropped"] * 2):
                    if what == "channel" and k > len(c) or what == "page" and k > len(p):
                        continue  # no such attempt
                    plans.append((("times", c), ("times", p), (what, k)))
    from mc import grid
    out = [(missing, ([m for m, h in zip(("gevent", "flask", "flask_socketio"), x) if h],))
           for x in itertools.product((False, True), repeat=3)]
    out += [(many, (ch,)) for ch in grid.chunks(plans, 25)]
    return out
