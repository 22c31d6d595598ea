"""Seam for the random generators: numpy.random.RandomState is replaced, inside a simulated run, by a
subclass with the same stream, which counts draws and - when told so - turns a seeded fraction of them
into legal but unusual values ("buggify")."""
import numpy, random
_Real = numpy.random.RandomState
STATE = None


class State:
    def __init__(self, seed=0, p=0.0):
        self.rng = random.Random("rng%s" % seed)
        self.p = p
        self.draws = 0
        self.bugs = 0
        self.on_draw = None


class SimRandomState(_Real):
    def _tick(self):
        s = STATE
        if s is None:
            return False
        s.draws += 1
        if s.on_draw is not None:
            s.on_draw()
        if s.p > 0 and s.rng.random() < s.p:
            s.bugs += 1
            return True
        return False

    def rand(self, *a):
        v = super().rand(*a)
        if self._tick():
            return _extreme(v, STATE.rng)
        return v

    def random_sample(self, *a, **k):
        v = super().random_sample(*a, **k)
        if self._tick():
            return _extreme(v, STATE.rng)
        return v

    random = random_sample

    def uniform(self, low=0.0, high=1.0, size=None):
        v = super().uniform(low, high, size)
        if self._tick():
            e = STATE.rng.choice((1e-6, 1 - 1e-6))
            w = numpy.asarray(low) + (numpy.asarray(high) - numpy.asarray(low)) * e
            return w + numpy.zeros_like(v) if size is not None or numpy.ndim(v) else float(w)
        return v

    def randint(self, low, high=None, size=None, dtype=int):
        v = super().randint(low, high, size, dtype)
        if size is None and self._tick():
            lo, hi = (0, low) if high is None else (low, high)
            return type(v)(STATE.rng.choice((lo, hi - 1)))
        return v

    def permutation(self, x):
        self._tick()
        return super().permutation(x)


EXT = (1e-6, 1 - 1e-6, 0.5, 1e-4, 1 - 1e-4)


def _extreme(v, r):
    if numpy.ndim(v) == 0:
        return type(v)(r.choice(EXT))
    w = numpy.array(v)
    if r.random() < 0.3:
        w[...] = r.choice(EXT)
    elif w.size:
        w.flat[r.randrange(w.size)] = r.choice(EXT)
    return w


def install(seed=0, p=0.0):
    global STATE
    STATE = State(seed, p)
    numpy.random.RandomState = SimRandomState
    return STATE
