"""Import rosemary from the current source in /repo, either plainly or with the
builtins of the rosemary modules replaced by proxy-aware ones.

The source text is compiled on every run; no bytecode is read or written."""
import builtins
import importlib.abc
import importlib.util
import os
import random as _random
import sys
import types

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True


# ------------------------------------------------------------------ stand-ins
def make_symbolic_builtins(randomness):
    from . import core
    from .core import SymInt, SymBool, SymSqrt, sympow, ite
    import math

    class IntMeta(type):
        def __instancecheck__(cls, x): return isinstance(x, int)
        def __subclasscheck__(cls, c): return issubclass(c, int)
        def __getattr__(cls, n): return getattr(int, n)
        def __eq__(cls, o): return o is cls or o is int
        def __ne__(cls, o): return not (o is cls or o is int)
        def __hash__(cls): return hash(int)
        def __or__(cls, o): return int | o
        def __ror__(cls, o): return o | int

    class ShadowInt(metaclass=IntMeta):
        def __new__(cls, *a, **k):
            if len(a) == 1 and not k:
                x = a[0]
                t = type(x)
                if t is SymInt:
                    return x
                if t is SymBool:
                    return x._i()
                if t is SymSqrt:
                    return x.floor()
                if t is core.SymRat:
                    return x.trunc()
            return int(*a, **k)

    class FloatMeta(type):
        def __instancecheck__(cls, x): return isinstance(x, float)
        def __subclasscheck__(cls, c): return issubclass(c, float)
        def __getattr__(cls, n): return getattr(float, n)
        def __eq__(cls, o): return o is cls or o is float
        def __ne__(cls, o): return not (o is cls or o is float)
        def __hash__(cls): return hash(float)

    class ShadowFloat(metaclass=FloatMeta):
        def __new__(cls, *a):
            if len(a) == 1:
                t = type(a[0])
                if t in (SymSqrt, core.SymRat):
                    return a[0]
                if t is SymInt:
                    return core.SymRat.make(a[0], 1)
            return float(*a)

    def s_type(*a):
        if len(a) == 1:
            t = type(a[0])
            if t is SymInt:
                return ShadowInt
            if t is SymBool:
                return bool
            if t in (SymSqrt, core.SymRat) or t is float:
                return ShadowFloat
            if t is int:
                return ShadowInt
            return t
        return type(*a)

    class LazyRange:
        def __init__(self, a, b, s):
            self.a, self.b, self.s = a, b, s

        def __iter__(self):
            i, b, s = self.a, self.b, self.s
            if type(s) is SymInt:
                s = s.conc()
            if s == 0:
                raise ValueError('range() arg 3 must not be zero')
            while (i < b) if s > 0 else (i > b):
                yield i
                i = i + s

        def _real(self):
            return range(*[x.conc() if type(x) is SymInt else x for x in (self.a, self.b, self.s)])

        def __len__(self): return len(self._real())
        def __getitem__(self, k): return self._real()[k]
        def __reversed__(self): return reversed(self._real())
        def __contains__(self, x): return x in self._real()
        def __eq__(self, o): return self._real() == o

    def s_range(*a):
        if all(type(x) is not SymInt for x in a):
            return range(*a)
        if len(a) == 1:
            return LazyRange(0, a[0], 1)
        if len(a) == 2:
            return LazyRange(a[0], a[1], 1)
        return LazyRange(*a)

    def s_pow(a, k, m=None):
        if m is None:
            return pow(a, k)
        return sympow(a, k, m)

    def _merge(name):
        real = getattr(builtins, name)

        def f(*args, **kw):
            if kw:
                return real(*args, **kw)
            items = list(args[0]) if len(args) == 1 else list(args)
            if not any(type(x) is SymInt for x in items):
                return real(items) if len(args) == 1 else real(*args)
            fin = []
            for x in items:
                if type(x) in (SymInt, int):
                    fin.append(x)
                elif type(x) is float and x in (core.INF, -core.INF):
                    if (x == core.INF) == (name == 'max'):
                        return x
                else:
                    return real(items)
            r = fin[0]
            for x in fin[1:]:
                r = ite((x < r) if name == 'min' else (x > r), x, r)
            return r
        return f

    def s_print(*a, **k):
        return None

    smath = types.ModuleType('math')
    for n in dir(math):
        setattr(smath, n, getattr(math, n))

    def m_sqrt(x):
        if type(x) is SymInt:
            r = x ** 0.5
            return r if type(r) is SymSqrt else math.sqrt(r * r)
        return math.sqrt(x)

    def m_isqrt(x):
        if type(x) is SymInt and x.hi is not None:
            if x < 0:
                raise ValueError('isqrt() argument must be nonnegative')
            y = SymInt(x.e, max(x.lo, 0), x.hi, x.bv)
            return SymSqrt(y).floor()
        return math.isqrt(x)

    def m_gcd(*xs):
        if not any(type(x) is SymInt for x in xs):
            return math.gcd(*xs)
        r = 0
        for x in xs:
            a, b = abs(r), abs(x)
            while b:
                a, b = b, a % b
            r = a
        return r

    def m_floor(x):
        return x.floor() if type(x) in (SymSqrt, core.SymRat) else math.floor(x)

    smath.sqrt, smath.isqrt, smath.gcd, smath.floor = m_sqrt, m_isqrt, m_gcd, m_floor

    d = dict(vars(builtins))
    d.update(int=ShadowInt, float=ShadowFloat, type=s_type, range=s_range, pow=s_pow,
             min=_merge('min'), max=_merge('max'), print=s_print)
    return d, {'math': smath}


# ------------------------------------------------------------------ randomness
class Randomness:
    """Stand-in for the random module: every outcome comes from `source`."""

    def __init__(self):
        self.source = None
        self.rng = _random.Random(12345)

    def reset(self, source):
        self.source = source
        self.rng = _random.Random(12345)

    def module(self):
        m = types.ModuleType('random')
        me = self

        def randint(a, b):
            if b < a:
                raise ValueError('empty range in randint(%s, %s)' % (a, b))
            s = me.source
            if s is not None and s.random_mode == 'nondet':
                return s.rand_int(a, b)
            a, b = int(a), int(b)
            return me.rng.randint(a, b)

        def randrange(a, b=None, step=1):
            if b is None:
                a, b = 0, a
            n = len(range(int(a), int(b), int(step)))
            if n == 0:
                raise ValueError('empty range for randrange()')
            return a + step * randint(0, n - 1)

        def choice(seq):
            if len(seq) == 0:
                raise IndexError('Cannot choose from an empty sequence')
            return seq[randint(0, len(seq) - 1)]

        def shuffle(x):
            for i in reversed(range(1, len(x))):
                j = int(randint(0, i))
                x[i], x[j] = x[j], x[i]

        def sample(population, k):
            pool = list(population)
            out = []
            for _ in range(k):
                out.append(pool.pop(int(randint(0, len(pool) - 1))))
            return out

        def rnd():
            s = me.source
            if s is not None and s.random_mode == 'nondet':
                return int(s.rand_int(0, 3)) / 4.0
            return me.rng.random()

        def uniform(a, b):
            return a + (b - a) * rnd()

        def seed(*a):
            return None
        m.randint, m.randrange, m.choice, m.shuffle = randint, randrange, choice, shuffle
        m.random, m.uniform, m.sample, m.seed = rnd, uniform, sample, seed

        def choices(population, k=1, **kw):
            return [choice(population) for _ in range(k)]
        m.choices = choices
        m.Random = lambda *a: m
        return m


def _inspect_stub():
    import inspect
    m = types.ModuleType('inspect')
    for n in dir(inspect):
        setattr(m, n, getattr(inspect, n))

    def stack(context=1):
        out = []
        f = sys._getframe(1)
        while f is not None and len(out) < 4:
            out.append(inspect.FrameInfo(f, f.f_code.co_filename, f.f_lineno,
                                         f.f_code.co_name, None, None))
            f = f.f_back
        return out
    m.stack = stack
    return m


class Universe:
    """The rosemary package as loaded in this process."""

    def __init__(self, symbolic):
        self.symbolic = symbolic
        self.randomness = Randomness()
        self.codes = set()
        self.caches = []
        self.state = []
        self.names = []
        if symbolic:
            self.builtins, subst = make_symbolic_builtins(self.randomness)
        else:
            self.builtins, subst = dict(vars(builtins)), {}
            self.builtins['print'] = lambda *a, **k: None
        subst['random'] = self.randomness.module()
        subst['inspect'] = _inspect_stub()
        subst['functools'] = self._functools()
        real_import = builtins.__import__

        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            if level == 0 and name in subst:
                return subst[name]
            return real_import(name, globals, locals, fromlist, level)
        self.builtins['__import__'] = imp
        for k in [k for k in sys.modules if k == 'rosemary' or k.startswith('rosemary.')]:
            del sys.modules[k]
        sys.meta_path.insert(0, _Finder(self))

    def _functools(self):
        import functools
        m = types.ModuleType('functools')
        for n in dir(functools):
            setattr(m, n, getattr(functools, n))
        me = self

        def lru_cache(maxsize=128, typed=False):
            def deco(f):
                g = functools.lru_cache(maxsize=None if me.symbolic else maxsize, typed=typed)(f)
                me.caches.append(g)
                return g
            if callable(maxsize):
                f, maxsize = maxsize, None
                return deco(f)
            return deco
        m.lru_cache = lru_cache
        m.cache = lru_cache(None)
        return m

    def mod(self, name):
        import importlib
        known = name in sys.modules
        m = importlib.import_module(name)
        if not known:
            self.snapshot()
        return m

    def snapshot(self):
        """Remember mutable module-level state, to restore it between paths."""
        self.state = []
        self.names = []
        seen = set()
        for name, m in list(sys.modules.items()):
            if not (name == 'rosemary' or name.startswith('rosemary.')):
                continue
            vals = list(vars(m).values())
            self.names.append((m, dict(vars(m))))
            for v in list(vals):
                if isinstance(v, type) and getattr(v, '__module__', '') == name:
                    vals += list(vars(v).values())
                    self.names.append((v, dict(vars(v))))
            for v in list(vals):
                f = getattr(v, '__func__', v)
                if isinstance(f, types.FunctionType):
                    vals += list(f.__defaults__ or ()) + list(vars(f).values())
                    for c in f.__closure__ or ():
                        try:
                            vals.append(c.cell_contents)
                        except ValueError:
                            pass
            for v in vals:
                if type(v) in (dict, list, set) or type(v).__name__ == 'defaultdict':
                    if id(v) not in seen and not (type(v) is dict and '__builtins__' in v):
                        seen.add(id(v))
                        self.state.append((v, v.copy() if len(v) <= 2000 else None, len(v)))

    def restore(self):
        for v, c, n in self.state:
            if c is None:
                continue
            if len(v) != n or v != c if n <= 64 else len(v) != n:
                v.clear()
                if type(v) is list:
                    v.extend(c)
                else:
                    v.update(c)
        for m, old in self.names:
            now = vars(m)
            if len(now) != len(old) or any(now.get(k) is not v for k, v in old.items()):
                for k, v in old.items():
                    if now.get(k) is not v:
                        setattr(m, k, v)
                for k in [k for k, v in now.items() if k not in old and not isinstance(v, types.ModuleType)]:
                    delattr(m, k)
        for g in self.caches:
            g.cache_clear()


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, uni):
        self.uni = uni

    def find_spec(self, name, path, target=None):
        if name != 'rosemary' and not name.startswith('rosemary.'):
            return None
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(base):
            f = os.path.join(base, '__init__.py')
            if not os.path.exists(f):
                return None
            return importlib.util.spec_from_file_location(
                name, f, loader=_Loader(self.uni, f), submodule_search_locations=[base])
        f = base + '.py'
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=_Loader(self.uni, f))
        return None


class _Loader(importlib.abc.Loader):
    def __init__(self, uni, path):
        self.uni = uni
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as fh:
            src = fh.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            code = compile(src, self.path, 'exec')
        module.__dict__['__builtins__'] = self.uni.builtins
        exec(code, module.__dict__)


def monitor_functions(out):
    """Record which functions under REPO/rosemary execute (evidence only)."""
    mon = sys.monitoring
    tool = 4
    try:
        mon.use_tool_id(tool, 'symx')
    except ValueError:
        return
    root = os.path.join(REPO, 'rosemary') + os.sep

    def cb(code, off):
        if code.co_filename.startswith(root) and not code.co_name.startswith('<'):
            out.add(code.co_filename[len(root):] + ':' + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, cb)
    mon.set_events(tool, mon.events.PY_START)
