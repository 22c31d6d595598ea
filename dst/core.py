"""Run context, forked execution, minimisation, replay, evidence."""
import os, sys, json, time, random, hashlib, signal, selectors, traceback, resource, math, copy as _copy
from . import boot

NPROC = int(os.environ.get("DST_NPROC", os.cpu_count() or 4))
CPU_SUSPECT = 60          # seconds of CPU after which a run is suspected to hang
LINE_BUDGET = 40_000_000  # lines of library code: the deterministic criterion for a hang


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(cls, msg)
        self.cls, self.msg = cls, msg


class Expected(Exception):
    pass


class Ctx:
    """What a run gets: counters, event log, violation reporting."""
    def __init__(self, plan, out):
        self.plan = plan
        self.out = out
        self.h = hashlib.sha1()
        self.nev = 0
        self.tail = []
        self.counts = {}
        self.faults = {}
        self.states = set()
        self.sched = None
        self.decisions = None
        self.schedtrace = None

    def ev(self, *a):
        s = repr(a)
        self.h.update(s.encode())
        self.nev += 1
        self.tail.append(s if len(s) < 300 else s[:300])
        if len(self.tail) > 60:
            del self.tail[:30]

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def fault(self, k, n=1):
        self.faults[k] = self.faults.get(k, 0) + n

    def state(self, *a):
        """an abstract state or interleaving reached, for the measure of distinctness"""
        self.states.add(hashlib.sha1(repr(a).encode()).hexdigest()[:12])

    def fail(self, cls, msg):
        raise Violation(cls, msg)

    def fail_now(self, cls, msg):
        """from places where an exception could be swallowed by the code under test"""
        emit(self, "violation", cls, msg)

    def check(self, cond, cls, msg):
        if not cond:
            raise Violation(cls, msg() if callable(msg) else msg)


def emit(ctx, status, cls=None, msg=None):
    s = ctx.sched
    if s is not None:
        ctx.decisions = s.decisions
        ctx.schedtrace = s.trace
        ctx.counts["lines"] = ctx.counts.get("lines", 0) + s.lines
    r = dict(status=status, cls=cls, msg=msg, digest=ctx.h.hexdigest(), nev=ctx.nev, counts=ctx.counts,
             faults=ctx.faults, states=sorted(ctx.states), tail=ctx.tail[-40:],
             decisions=ctx.decisions, schedtrace=ctx.schedtrace)
    data = json.dumps(r, default=str).encode()
    fd = ctx.out
    while data:
        n = os.write(fd, data)
        data = data[n:]
    os._exit(0)


def repo_frames(tb):
    scope = os.path.join(os.path.abspath(boot.REPO), "BayesicFitting") + os.sep
    n = None
    while tb is not None:
        f = tb.tb_frame.f_code
        if os.path.abspath(f.co_filename).startswith(scope):
            n = "%s:%s" % (os.path.basename(f.co_filename), f.co_name)
        tb = tb.tb_next
    return n


def child(prop, plan, fd, budget=0):
    try:
        dn = os.open(os.devnull, os.O_RDWR)
        os.dup2(dn, 0)
        if not os.environ.get("DST_DEBUG"):
            os.dup2(dn, 1)
            os.dup2(dn, 2)
        sys.stdout = open(1, "w", buffering=1 << 16, closefd=False)
        sys.stderr = open(2, "w", buffering=1 << 16, closefd=False)
        sys.setswitchinterval(1000)
        ctx = Ctx(plan, fd)
        if budget:
            cnt = [0]
            mon = sys.monitoring
            scope = boot.sched.SCOPE
            from . import sched as _s

            def line(code, ln):
                if not code.co_filename.startswith(scope):
                    return mon.DISABLE
                cnt[0] += 1
                if cnt[0] > budget:
                    emit(ctx, "violation", "hang", "no end after %d lines of library code; now in %s:%s"
                         % (budget, os.path.basename(code.co_filename), code.co_name))
            mon.use_tool_id(5, "dst-hang")
            mon.register_callback(5, mon.events.LINE, line)
            mon.set_events(5, mon.events.LINE)
        else:
            def suspect(*a):
                emit(ctx, "suspect")
            signal.signal(signal.SIGPROF, suspect)
            signal.setitimer(signal.ITIMER_PROF, getattr(prop, "CPU", CPU_SUSPECT))
        try:
            prop.run(plan, ctx)
        except Violation as v:
            emit(ctx, "violation", v.cls, v.msg)
        except Expected as e:
            ctx.count(str(e))
            emit(ctx, "ok")
        except BaseException as e:
            where = repo_frames(e.__traceback__)
            txt = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
            if where is not None and not isinstance(e, (MemoryError,)):
                emit(ctx, "violation", "exception:%s:%s" % (type(e).__name__, where), txt)
            emit(ctx, "error", type(e).__name__, txt)
        emit(ctx, "ok")
    except BaseException:
        try:
            os.write(fd, json.dumps(dict(status="error", cls="emit", msg=traceback.format_exc()[-2000:])).encode())
        except BaseException:
            pass
        os._exit(3)


class Pool:
    def __init__(self, prop, nproc=None):
        self.prop = prop
        self.nproc = nproc or NPROC
        self.sel = selectors.DefaultSelector()
        self.live = {}

    def start(self, key, plan, budget=0):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            child(self.prop, plan, w, budget)
            os._exit(9)
        os.close(w)
        self.live[r] = (key, plan, pid, bytearray(), time.monotonic(), budget)
        self.sel.register(r, selectors.EVENT_READ)

    def poll(self, timeout=1.0):
        done = []
        for sk, _ in self.sel.select(timeout):
            fd = sk.fd
            key, plan, pid, buf, t0, budget = self.live[fd]
            d = os.read(fd, 1 << 20)
            if d:
                buf += d
                continue
            self.sel.unregister(fd)
            os.close(fd)
            del self.live[fd]
            _, st = os.waitpid(pid, 0)
            try:
                res = json.loads(buf.decode())
            except Exception:
                res = dict(status="error", cls="died", msg="exit status %r, %d bytes" % (st, len(buf)))
            done.append((key, plan, res, budget))
        now = time.monotonic()
        for fd, (key, plan, pid, buf, t0, budget) in list(self.live.items()):
            if now - t0 > 400:           # neither CPU nor output: stuck outside the simulator's control
                try:
                    os.kill(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
        return done


def blank(res):
    for k, v in dict(counts={}, faults={}, states=[], decisions=None, digest="", nev=0, tail=[], cls=None, msg=None).items():
        res.setdefault(k, v)
    return res


def run_many(prop, plans, deadline, nproc=None, on_result=None, stop=None):
    """plans: iterable of (key, plan). Returns results in order of key for those that finished."""
    pool = Pool(prop, nproc)
    out = {}
    it = iter(plans)
    more = True
    while more or pool.live:
        while more and len(pool.live) < pool.nproc:
            if time.monotonic() > deadline or (stop is not None and stop()):
                more = False
                break
            try:
                key, plan = next(it)
            except StopIteration:
                more = False
                break
            pool.start(key, plan)
        for key, plan, res, budget in pool.poll():
            res = blank(res)
            if res["status"] == "suspect":
                pool.start(key, plan, LINE_BUDGET)
                continue
            if budget and res["status"] == "ok":
                res["slow"] = True
            out[key] = (plan, res)
            if on_result is not None:
                on_result(key, plan, res)
    return out


def run_one(prop, plan):
    r = run_many(prop, [(0, plan)], time.monotonic() + 800, nproc=1)
    return r[0][1]


# ------------------------------------------------------------------------------------------ minimise
def explicit(plan, res):
    """schedule as decided in the failing run, as an explicit list"""
    if res.get("decisions") is not None and plan.get("sched"):
        q = _copy.deepcopy(plan)
        q["sched"] = dict(plan["sched"], mode="list", list=[list(d) for d in res["decisions"]])
        return q
    return None


def shrinks(plan, prop):
    """candidate smaller plans, biggest reductions first"""
    sc = plan.get("sched")
    if sc and sc["mode"] == "list" and sc["list"]:
        lst = sc["list"]
        n = len(lst)
        k = n
        while k >= 1:
            for i in range(0, n, k):
                q = _copy.deepcopy(plan)
                q["sched"]["list"] = lst[:i] + lst[i + k:]
                yield q
            if k == 1:
                break
            k = max(1, k // 2)
    for f in getattr(prop, "LISTS", ("ops", "faults")):
        lst = plan.get(f)
        if isinstance(lst, list) and lst:
            n = len(lst)
            k = n
            while k >= 1:
                for i in range(0, n, k):
                    q = _copy.deepcopy(plan)
                    q[f] = lst[:i] + lst[i + k:]
                    yield q
                if k == 1:
                    break
                k = max(1, k // 2)
    if hasattr(prop, "shrink"):
        for q in prop.shrink(plan):
            yield q


def minimise(prop, plan, res, budget_s=90, maxtries=400):
    t_end = time.monotonic() + budget_s
    cls = res["cls"]
    tries = 0
    q = explicit(plan, res)
    if q is not None:
        r = run_one(prop, q)
        if r["status"] == "violation" and r["cls"] == cls:
            plan, res = q, r
    progress = True
    while progress and time.monotonic() < t_end and tries < maxtries:
        progress = False
        # try candidates in batches, in parallel, and take the first (in order) that still fails alike
        batch = []
        gen = shrinks(plan, prop)
        while True:
            batch = []
            for c in gen:
                batch.append((len(batch), c))
                if len(batch) >= NPROC:
                    break
            if not batch:
                break
            tries += len(batch)
            rs = run_many(prop, batch, t_end + 60)
            hit = [k for k in sorted(rs) if rs[k][1]["status"] == "violation" and rs[k][1]["cls"] == cls]
            if hit:
                plan, res = rs[hit[0]]
                progress = True
                break
            if time.monotonic() > t_end or tries >= maxtries:
                break
    return plan, res, tries
