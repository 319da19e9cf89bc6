"""Running annealing loops a bounded number of times with every outcome of their random numbers."""
class Coin:
    """A random number in [0, 1) of which only comparisons are observed: each has either outcome."""

    def __init__(self, S):
        self.S, self.i = S, 0

    def flip(self, *a):
        self.i += 1
        return self.S.bool('r%d' % self.i)
    __lt__ = __le__ = __gt__ = __ge__ = flip


class Chance:
    """Stands in for random in the annealing loops."""

    def __init__(self, S, real):
        self.S, self.real, self.coin, self.i = S, real, Coin(S), 0

    def randint(self, a, b):
        self.i += 1
        return self.S.conc(self.S.int('j%d' % self.i, a, b))

    def random(self):
        return self.coin

    def __getattr__(self, k):
        return getattr(self.real, k)


class clipped:
    """Runs the loop of a module at most k times, with every outcome of its random numbers."""

    def __init__(self, S, m, k, coins=True):
        self.S, self.m, self.k, self.coins = S, m, k, coins

    def __enter__(self):
        m, k = self.m, self.k
        self.old = {x: vars(m)[x] for x in ('random', 'math') if x in vars(m)}
        real = m.__builtins__['range'] if isinstance(m.__builtins__, dict) else range
        m.range = lambda *a: real(k) if len(a) == 1 and type(a[0]) is int and a[0] > 1000 else real(*a)
        for x in self.old if self.coins else ():
            setattr(m, x, Chance(self.S, self.old[x]) if x == 'random' else _Math(self.old[x]))

    def __exit__(self, *a):
        del self.m.range
        for x, v in self.old.items():
            setattr(self.m, x, v)


class _Math:
    def __init__(self, real):
        self.real = real

    def exp(self, x):
        return .5

    def log(self, x):
        return x

    def __getattr__(self, k):
        return getattr(self.real, k)
