"""The thread scheduler of the simulator.

Real threads, but only the one that holds the baton runs.  The baton changes hands at source lines of
the library (sys.monitoring LINE events, so nothing in the library has to be changed), at lock
operations, at thread start, join and end.  Who gets it is decided by a seeded generator or by an
explicit list of decisions (replay); every decision taken is recorded.
"""
import sys, threading, _thread, random, os

SCOPE = None                 # file name prefix of the code that yields
_real_start = threading.Thread.start
_real_join = threading.Thread.join
_real_lock = _thread.allocate_lock
_real_rlock = threading._RLock if threading._CRLock is None else threading._CRLock
CURRENT = None               # active Scheduler
TOOL = 4


class SimThread:
    def __init__(self, index, name):
        self.index = index
        self.name = name
        self.sem = _real_lock()
        self.sem.acquire()
        self.done = False
        self.waiting = None   # callable: True when runnable again
        self.ident = None
        self.lines = 0


class SimLock:
    """A lock that, inside a simulation, never blocks the OS thread that holds the baton."""
    def __init__(self, real, reentrant):
        self._l = real
        self._re = reentrant

    def acquire(self, blocking=True, timeout=-1):
        s = CURRENT
        if s is None or not s.is_sim():
            return self._l.acquire(blocking, timeout)
        s.lockops += 1
        s.yield_point(hot=True)
        if self._l.acquire(False):
            return True
        if not blocking:
            return False
        s.contended += 1
        while True:
            s.block(lambda: self._free())
            if self._l.acquire(False):
                return True

    def _free(self):
        # only meaningful when asked while nobody runs: can the lock be had by another thread
        if self._re:
            r = repr(self._l)
            return "unlocked" in r
        return not self._l.locked()

    def release(self):
        self._l.release()
        s = CURRENT
        if s is not None and s.is_sim():
            s.yield_point(hot=True)

    def locked(self):
        return self._l.locked()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def _in_scope(frame):
    return SCOPE is not None and frame.f_code.co_filename.startswith(SCOPE)


def install_seams(scope):
    global SCOPE
    SCOPE = scope

    def mklock():
        return SimLock(_real_lock(), False) if _in_scope(sys._getframe(1)) else _real_lock()

    def mkrlock():
        return SimLock(_real_rlock(), True) if _in_scope(sys._getframe(1)) else _real_rlock()
    threading.Lock = mklock
    threading.RLock = mkrlock

    def start(self):
        s = CURRENT
        if s is None or not s.is_sim():
            return _real_start(self)
        s.start_thread(self)

    def join(self, timeout=None):
        s = CURRENT
        st = getattr(self, "_dst", None)
        if s is None or st is None or not s.is_sim():
            return _real_join(self, timeout)
        if not st.done:
            s.block(lambda: st.done)
        _real_join(self, 30)
    threading.Thread.start = start
    threading.Thread.join = join


class Deadlock(Exception):
    pass


class Scheduler:
    """spec: {"mode": "random", "seed":, "p": prob per line, "hot": prob per hot line,
              "hotfiles": [...], "maxswitch": n}  or  {"mode": "list", "list": [[key, target], ...]}
       keys: "l<n>" n-th yield point; "f<n>" n-th forced choice (block or end of a thread)."""

    def __init__(self, spec, on_deadlock=None):
        self.spec = spec
        self.rng = random.Random(spec.get("seed", 0))
        self.threads = []
        self.current = None
        self.count = 0
        self.forced = 0
        self.decisions = []
        self.switches = 0
        self.active = False
        self.lockops = 0
        self.contended = 0
        self.lines = 0
        self.maxlive = 0
        self.trace = []              # where the preemptions fell: (file:line, from, to)
        self.on_deadlock = on_deadlock
        self.list = None
        if spec["mode"] == "list":
            self.list = {k: t for k, t in spec["list"]}
        self.p = spec.get("p", 0.0)
        self.ph = spec.get("hot", 0.0)
        self.hotfiles = tuple(spec.get("hotfiles", ()))
        self.maxswitch = spec.get("maxswitch", 10 ** 9)
        self.hotcache = {}
        self.next = self._geom(self.p)
        self.nexthot = self._geom(self.ph)
        self.budget = spec.get("budget", 0)
        self.started = 0

    def _geom(self, p):
        if p <= 0:
            return 1 << 60
        n = 1
        r = self.rng
        import math
        u = r.random()
        n = 1 + int(math.log(max(u, 1e-300)) / math.log(1 - p)) if p < 1 else 1
        return n

    # ------------------------------------------------------------------ life cycle
    def __enter__(self):
        global CURRENT
        main = SimThread(0, "main")
        main.ident = _thread.get_ident()
        self.threads = [main]
        self.current = main
        self.byident = {main.ident: main}
        mon = sys.monitoring
        mon.use_tool_id(TOOL, "dst")
        mon.register_callback(TOOL, mon.events.LINE, self._line)
        mon.set_events(TOOL, mon.events.LINE)
        CURRENT = self
        return self

    def __exit__(self, *a):
        global CURRENT
        CURRENT = None
        mon = sys.monitoring
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.free_tool_id(TOOL)
        return False

    def is_sim(self):
        return _thread.get_ident() in self.byident

    def live_threads(self):
        return [t for t in self.threads[1:] if not t.done]

    # ------------------------------------------------------------------ events
    def _line(self, code, line):
        if not code.co_filename.startswith(SCOPE):
            return sys.monitoring.DISABLE
        cur = self.current
        if _thread.get_ident() != cur.ident:
            return
        self.lines += 1
        cur.lines += 1
        if self.budget and self.lines > self.budget:
            self.on_deadlock("line budget")
        if len(self.threads) > 1 and self.nlive > 0:
            h = self.hotcache.get(code)
            if h is None:
                h = self.hotcache[code] = os.path.basename(code.co_filename) in self.hotfiles
            self.where = (code, line)
            self.yield_point(hot=h)

    nlive = 0
    where = None

    def yield_point(self, hot=False):
        if self.nlive == 0:
            return
        self.count += 1
        if self.list is not None:
            t = self.list.get("l%d" % self.count)
            if t is None:
                return
            if t < len(self.threads):
                st = self.threads[t]
                if st is not self.current and self._runnable(st):
                    self._note("l%d" % self.count, st)
                    self._switch(st)
            return
        go = False
        self.next -= 1
        if self.next <= 0:
            go = True
            self.next = self._geom(self.p)
        if hot:
            self.nexthot -= 1
            if self.nexthot <= 0:
                go = True
                self.nexthot = self._geom(self.ph)
        if go and self.switches < self.maxswitch:
            cand = [t for t in self.threads if t is not self.current and self._runnable(t)]
            if cand:
                st = self.rng.choice(cand)
                self.switches += 1
                self._note("l%d" % self.count, st)
                self._switch(st)

    def _note(self, key, st):
        self.decisions.append([key, st.index])
        if len(self.trace) < 400:
            w = self.where
            loc = "%s:%d" % (os.path.basename(w[0].co_filename), w[1]) if w else "-"
            self.trace.append("%s %s: %s -> %s" % (key, loc, self.current.name, st.name))

    def _runnable(self, t):
        if t.done:
            return False
        if t.waiting is None:
            return True
        return t.waiting()

    def _choose_forced(self):
        cand = [t for t in self.threads if self._runnable(t)]
        if not cand:
            return None
        self.forced += 1
        key = "f%d" % self.forced
        if self.list is not None:
            t = self.list.get(key)
            if t is not None:
                for c in cand:
                    if c.index == t:
                        return c
            return cand[0]
        if len(cand) == 1:
            return cand[0]
        st = self.rng.choice(cand)
        if st is not cand[0]:
            self.decisions.append([key, st.index])
        return st

    def _switch(self, st):
        me = self.current
        self.current = st
        st.sem.release()
        me.sem.acquire()

    def block(self, cond):
        me = self.current
        me.waiting = cond
        while not cond():
            st = self._choose_forced()
            if st is None:
                self.on_deadlock("deadlock: %s" % ", ".join(t.name for t in self.threads if not t.done))
                raise Deadlock()
            if st is me:
                break
            self._switch(st)
        me.waiting = None

    def start_thread(self, th):
        st = SimThread(len(self.threads), th.name)
        th._dst = st
        self.threads.append(st)
        self.nlive += 1
        self.started += 1
        self.maxlive = max(self.maxlive, self.nlive)
        orig = th.run

        def run():
            st.sem.acquire()
            st.ident = _thread.get_ident()
            self.byident[st.ident] = st
            try:
                orig()
            except BaseException:
                pass
            finally:
                self._finish(st)
        th.run = run
        _real_start(th)
        self.yield_point(hot=True)

    def _finish(self, st):
        st.done = True
        self.nlive -= 1
        self.byident.pop(st.ident, None)
        nxt = self._choose_forced()
        if nxt is None:
            self.on_deadlock("deadlock at end of %s" % st.name)
            return
        self.current = nxt
        nxt.sem.release()
