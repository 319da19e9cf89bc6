"""Path-forking symbolic executor for real Python code, on top of z3.

The code under test is the real rosemary source, compiled from /repo on every
run and executed by CPython on proxy objects (SymInt, SymBool).  Every branch
on a symbolic truth value asks z3 which sides are feasible under the path
condition and forks; the exploration is a depth-first re-execution that covers
every feasible path.  A property is an assertion over the symbolic state at a
point of a path; z3 decides "path condition and not property".
"""
import z3

INF = float('inf')


# --------------------------------------------------------------------------
# control flow of the engine: BaseException, so code under test cannot eat it
# --------------------------------------------------------------------------
class EngineStop(BaseException):
    pass


class PathDead(EngineStop):
    """The assumptions of this path are unsatisfiable."""


class PathBound(EngineStop):
    """A stated bound (decisions, values) of the exploration was hit."""


class PathUnknown(EngineStop):
    """The solver answered unknown where a decision was needed."""


class PathTimeout(EngineStop):
    """The wall-clock watchdog of one path fired."""


class Unsupported(EngineStop):
    """An operation the proxies cannot express."""


class Refuted(EngineStop):
    def __init__(self, label, model):
        self.label = label
        self.model = model


# --------------------------------------------------------------------------
# exploration context
# --------------------------------------------------------------------------
class Ctx:
    def __init__(self, timeout_ms=4000, hard_timeout_ms=20000, max_decisions=4000):
        self.timeout_ms = timeout_ms
        self.hard_timeout_ms = hard_timeout_ms
        self.max_decisions = max_decisions
        self.solver = None
        self.reset_all()

    def reset_all(self):
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout_ms)
        # decision stack: dict(expr, taken, alt(bool), model_alt)
        self.stack = []
        self.paths = 0
        self.decisions = 0
        self.queries = 0
        self.solver_time = 0.0
        self.unknowns = 0
        self.model = None

    def start_path(self):
        self.pos = 0
        self.known = {}
        self.keep = []
        self.assumed = []          # asserted at base level of this path
        self.fresh = 0
        self.npath = 0

    # -- raw solver ------------------------------------------------------
    def _check(self, *extra):
        import time
        t = time.perf_counter()
        self.queries += 1
        r = self.solver.check(*extra)
        self.solver_time += time.perf_counter() - t
        m = self.solver.model() if r == z3.sat else None
        if r == z3.unknown:
            r, m = self._hard_check(*extra)
        return r, m

    def _hard_check(self, *extra):
        """Second opinion: non-incremental solvers on the whole query."""
        import time
        fs = list(self.solver.assertions()) + list(extra)
        probe = z3.Goal()
        for f in fs:
            probe.add(f)
        if z3.Probe('is-qfbv')(probe):
            makers = (lambda: z3.SolverFor('QF_BV'), z3.SimpleSolver)
        elif z3.Probe('is-qflia')(probe):
            makers = (lambda: z3.SolverFor('QF_LIA'), z3.SimpleSolver)
        else:
            makers = (lambda: z3.Then('simplify', 'solve-eqs', 'smt').solver(), z3.SimpleSolver)
        for maker in makers:
            try:
                s = maker()
                s.set('timeout', self.hard_timeout_ms)
                s.add(*fs)
                t = time.perf_counter()
                self.queries += 1
                r = s.check()
                self.solver_time += time.perf_counter() - t
                if r == z3.sat:
                    return r, s.model()
                if r == z3.unsat:
                    return r, None
            except z3.Z3Exception:
                continue
        self.unknowns += 1
        return z3.unknown, None

    # -- assumptions -----------------------------------------------------
    def assume(self, expr):
        """Base assumption; made identically on every path (or dead path)."""
        if expr is True:
            return
        if expr is False:
            raise PathDead()
        if self.pos < len(self.stack):
            ent = self.stack[self.pos]
            if ent['kind'] != 'assume' or not ent['expr'].eq(expr):
                raise Unsupported('nondeterministic re-execution (assume)')
            self.pos += 1
            self._learn(expr, True)
            return
        ok = self.model is not None and self._holds(expr)
        self.solver.push()
        self.solver.add(expr)
        self.stack.append(dict(kind='assume', expr=expr, pushed=True, alt=False))
        self.pos += 1
        self._learn(expr, True)
        if not ok:
            r, m = self._check()
            if r == z3.unsat:
                raise PathDead()
            if r != z3.sat:
                raise PathUnknown()
            self.model = m

    def _holds(self, expr):
        try:
            return z3.is_true(self.model.eval(expr, model_completion=True))
        except z3.Z3Exception:
            return False

    def _learn(self, expr, val):
        self.known[expr.get_id()] = val
        self.keep.append(expr)

    # -- branching -------------------------------------------------------
    def branch(self, expr):
        """Decide a z3 Bool on this path, forking when both sides are feasible."""
        i = expr.get_id()
        if i in self.known:
            return self.known[i]
        if z3.is_true(expr):
            return True
        if z3.is_false(expr):
            return False
        if z3.is_not(expr):
            return not self.branch(expr.arg(0))
        if self.pos < len(self.stack):
            ent = self.stack[self.pos]
            if ent['kind'] != 'branch' or not ent['expr'].eq(expr):
                raise Unsupported('nondeterministic re-execution')
            self.pos += 1
            self._learn(expr, ent['taken'])
            return ent['taken']
        self.npath += 1
        if self.npath + len(self.stack) > self.max_decisions:
            raise PathBound('decisions')
        self.decisions += 1
        neg = z3.Not(expr)
        if self.model is None:
            r, m = self._check()
            if r == z3.unsat:
                raise PathDead()
            if r != z3.sat:
                raise PathUnknown()
            self.model = m
        cur = self._holds(expr)
        other = neg if cur else expr
        r, m = self._check(other)
        if r == z3.unknown:
            raise PathUnknown()
        if r == z3.unsat:
            self.stack.append(dict(kind='branch', expr=expr, taken=cur, pushed=False, alt=False))
        else:
            self.solver.push()
            self.solver.add(expr if cur else neg)
            self.stack.append(dict(kind='branch', expr=expr, taken=cur, pushed=True, alt=True,
                                   altmodel=m))
        self.pos += 1
        self._learn(expr, cur)
        return cur

    def pick(self, expr, to_py):
        """Concretise expr: fork over every feasible value of it."""
        n = 0
        while True:
            if self.pos < len(self.stack):
                ent = self.stack[self.pos]
                if ent['kind'] != 'branch' or 'val' not in ent:
                    raise Unsupported('nondeterministic re-execution (pick)')
                self.pos += 1
                eq = ent['expr']
                self._learn(eq, ent['taken'])
                if ent['taken']:
                    return ent['val']
                n += 1
                continue
            n += 1
            if n > self.max_values:
                raise PathBound('values')
            if self.model is None:
                r, m = self._check()
                if r == z3.unsat:
                    raise PathDead()
                if r != z3.sat:
                    raise PathUnknown()
                self.model = m
            v = self.model.eval(expr, model_completion=True)
            eq = expr == v
            self.decisions += 1
            r, m = self._check(z3.Not(eq))
            if r == z3.unknown:
                raise PathUnknown()
            val = to_py(v)
            alt = r == z3.sat
            if alt:
                self.solver.push()
                self.solver.add(eq)
            self.stack.append(dict(kind='branch', expr=eq, taken=True, pushed=alt, alt=alt,
                                   altmodel=m, val=val))
            self.pos += 1
            self._learn(eq, True)
            return val

    max_values = 5000
    const_hash = False
    conc_div = False
    discharged = 0
    deadline = None

    def rebuild(self):
        """Fresh solver with the current stack (after an interrupted call)."""
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout_ms)
        for ent in self.stack:
            if ent['pushed']:
                self.solver.push()
                e = ent['expr']
                self.solver.add(e if ent['kind'] == 'assume' or ent['taken'] else z3.Not(e))
        self.model = None

    def next_path(self):
        """Backtrack to the deepest open alternative.  False when done."""
        while self.stack:
            ent = self.stack.pop()
            if ent['pushed']:
                self.solver.pop()
            if ent['kind'] == 'branch' and ent['alt']:
                taken = not ent['taken']
                self.solver.push()
                self.solver.add(ent['expr'] if taken else z3.Not(ent['expr']))
                new = dict(ent, taken=taken, alt=False, pushed=True)
                self.stack.append(new)
                self.model = ent['altmodel']
                new['altmodel'] = None
                return True
        return False

    # -- properties ------------------------------------------------------
    def prove(self, expr, label):
        if expr is True:
            return
        if expr is False:
            raise Refuted(label, self.get_model())
        i = expr.get_id()
        if i in self.known and self.known[i]:
            return
        if self.model is not None and not self._holds(expr) and \
                z3.is_false(self.model.eval(expr, model_completion=True)):
            raise Refuted(label, self.model)
        r, m = self._check(z3.Not(expr))
        if r == z3.sat:
            raise Refuted(label, m)
        if r == z3.unknown:
            raise PathUnknown(label)
        self.discharged += 1

    def get_model(self):
        if self.model is None:
            r, m = self._check()
            if r == z3.unsat:
                raise PathDead()
            if r != z3.sat:
                raise PathUnknown()
            self.model = m
        return self.model


CTX = None


def set_ctx(c):
    global CTX
    CTX = c


# --------------------------------------------------------------------------
# Booleans
# --------------------------------------------------------------------------
class SymBool:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return CTX.branch(self.e)

    def __hash__(self):
        return hash(bool(self))

    def _i(self):
        return SymInt(z3.If(self.e, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1, True)

    def __and__(self, o):
        if isinstance(o, bool):
            return mkbool(band(self, o))
        return self._i() & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            return mkbool(bor(self, o))
        return self._i() | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, bool):
            return bnot(biff(self, o))
        return self._i() ^ o
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, bool):
            return biff(self, o)
        return self._i() == o

    def __ne__(self, o):
        return bnot(self == o)

    def __lt__(self, o): return self._i() < o
    def __le__(self, o): return self._i() <= o
    def __gt__(self, o): return self._i() > o
    def __ge__(self, o): return self._i() >= o
    def __add__(self, o): return self._i() + o
    def __radd__(self, o): return o + self._i()
    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()
    def __mul__(self, o): return self._i() * o
    def __rmul__(self, o): return o * self._i()
    def __neg__(self): return -self._i()
    def __int__(self): return int(bool(self))
    def __index__(self): return int(bool(self))
    def __repr__(self): return repr(bool(self))


def rawb(x):
    """bool/SymBool -> python bool or z3 Bool (never forks)."""
    if type(x) is SymBool:
        return x.e
    if type(x) is bool:
        return x
    if type(x) is SymInt:
        return rawb(x != 0)
    return bool(x)


def mkbool(e):
    if e is True or e is False:
        return e
    if type(e) is SymBool:
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def bnot(a):
    a = rawb(a)
    return (not a) if type(a) is bool else mkbool(z3.Not(a))


def band(*xs):
    out = []
    for x in xs:
        x = rawb(x)
        if x is False:
            return False
        if x is not True:
            out.append(x)
    if not out:
        return True
    return mkbool(out[0] if len(out) == 1 else z3.And(*out))


def bor(*xs):
    out = []
    for x in xs:
        x = rawb(x)
        if x is True:
            return True
        if x is not False:
            out.append(x)
    if not out:
        return False
    return mkbool(out[0] if len(out) == 1 else z3.Or(*out))


def biff(a, b):
    a, b = rawb(a), rawb(b)
    if type(a) is bool and type(b) is bool:
        return a == b
    if type(a) is bool:
        a, b = b, a
    if type(b) is bool:
        return mkbool(a) if b else bnot(mkbool(a))
    return mkbool(a == b)


def implies(a, b):
    return bor(bnot(a), b)


# --------------------------------------------------------------------------
# Integers
# --------------------------------------------------------------------------
def _w(lo, hi):
    """Two's complement width that holds [lo, hi]."""
    n = max(hi.bit_length() if hi >= 0 else (-hi - 1).bit_length(),
            (-lo - 1).bit_length() if lo < 0 else lo.bit_length())
    return n + 1


def _ext(x, w):
    """Operand x (SymInt bv or int) as a signed bit-vector of width w."""
    if type(x) is int:
        return z3.BitVecVal(x, w)
    s = x.e.size()
    if s == w:
        return x.e
    if s < w:
        return z3.SignExt(w - s, x.e)
    return z3.Extract(w - 1, 0, x.e)


def _mk(e, lo, hi):
    if lo == hi:
        return lo
    w = _w(lo, hi)
    s = e.size()
    if s > w:
        e = z3.Extract(w - 1, 0, e)
    return SymInt(e, lo, hi, True)


def _bnds(x):
    return (x, x) if type(x) is int else (x.lo, x.hi)


class SymInt:
    """An integer: a z3 Int, or a bit-vector wide enough to be exact."""
    __slots__ = ('e', 'lo', 'hi', 'bv')

    def __init__(self, e, lo=None, hi=None, bv=False):
        self.e = e
        self.lo = lo
        self.hi = hi
        self.bv = bv

    @property
    def __class__(self):
        return int

    # -- conversions -----------------------------------------------------
    def conc(self):
        if self.bv:
            return CTX.pick(self.e, lambda v: v.as_signed_long())
        return CTX.pick(self.e, lambda v: v.as_long())

    def __index__(self):
        return self.conc()

    def __int__(self):
        return self.conc()

    def __float__(self):
        return float(self.conc())

    def __hash__(self):
        if CTX is not None and getattr(CTX, 'const_hash', False):
            return 7
        return hash(self.conc())

    def __repr__(self):
        return repr(self.conc())
    __str__ = __repr__

    def __format__(self, spec):
        return format(self.conc(), spec)

    def __bool__(self):
        r = self != 0
        return r if type(r) is bool else CTX.branch(r.e)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __trunc__(self): return self
    def __floor__(self): return self
    def __ceil__(self): return self
    def __round__(self, n=None): return self

    @property
    def numerator(self): return self
    @property
    def denominator(self): return 1
    @property
    def real(self): return self
    @property
    def imag(self): return 0

    def conjugate(self): return self

    def is_integer(self): return True

    def bit_length(self):
        a = abs(self)
        if type(a) is int:
            return a.bit_length()
        k = 0
        while True:
            if not (a >= (1 << k)):
                return k
            k += 1

    def bit_count(self):
        return bin(self.conc()).count('1')

    def as_integer_ratio(self):
        return (self, 1)

    # -- helpers ---------------------------------------------------------
    @staticmethod
    def _co(o):
        """Coerce an operand; None when it is not an integer."""
        t = type(o)
        if t is SymInt or t is int:
            return o
        if t is bool:
            return int(o)
        if t is SymBool:
            return o._i()
        if isinstance(o, int):
            return int(o)
        return None

    def _pair(self, o):
        """Both operands in one theory."""
        if type(o) is SymInt and o.bv != self.bv:
            return toint(self), toint(o)
        return self, o

    # -- comparison ------------------------------------------------------
    def _cmp(self, o, op):
        c = SymInt._co(o)
        if c is None:
            if type(o) is SymRat:
                return SymRat(self, 1)._cmp(o, op)
            if isinstance(o, float):
                if o == INF:
                    return {'lt': True, 'le': True, 'gt': False, 'ge': False, 'eq': False}[op]
                if o == -INF:
                    return {'lt': False, 'le': False, 'gt': True, 'ge': True, 'eq': False}[op]
                if o != o:
                    return False
                if o == int(o):
                    c = int(o)
                else:
                    import math
                    fl = math.floor(o)
                    if op == 'eq':
                        return False
                    if op in ('lt', 'le'):
                        return self._cmp(fl, 'le')
                    return self._cmp(fl, 'gt')
            elif type(o) is SymSqrt:
                return NotImplemented
            else:
                if op == 'eq' and not hasattr(o, 'numerator'):
                    return False if not isinstance(o, (list, tuple, str, dict, set)) else False
                return NotImplemented
        s, c = self._pair(c)
        if type(s) is int:
            return {'lt': s < c, 'le': s <= c, 'gt': s > c, 'ge': s >= c, 'eq': s == c}[op]
        lo, hi = s.lo, s.hi
        clo, chi = _bnds(c)
        if lo is not None and clo is not None or hi is not None and chi is not None:
            if op == 'lt':
                if hi is not None and clo is not None and hi < clo: return True
                if lo is not None and chi is not None and lo >= chi: return False
            elif op == 'le':
                if hi is not None and clo is not None and hi <= clo: return True
                if lo is not None and chi is not None and lo > chi: return False
            elif op == 'gt':
                if lo is not None and chi is not None and lo > chi: return True
                if hi is not None and clo is not None and hi <= clo: return False
            elif op == 'ge':
                if lo is not None and chi is not None and lo >= chi: return True
                if hi is not None and clo is not None and hi < clo: return False
        if op == 'eq':
            if hi is not None and clo is not None and hi < clo: return False
            if lo is not None and chi is not None and lo > chi: return False
        if s.bv:
            w = max(s.e.size(), _w(c, c) if type(c) is int else c.e.size())
            a, b = _ext(s, w), _ext(c, w)
        else:
            a = s.e
            b = z3.IntVal(c) if type(c) is int else c.e
        if a.eq(b):
            return op in ('le', 'ge', 'eq')
        if op == 'eq':
            return mkbool(a == b)
        # canonical form: only < and its negation, so repeated tests are seen
        # as the same atom
        if op == 'lt':
            return mkbool(a < b)
        if op == 'gt':
            return mkbool(b < a)
        if op == 'le':
            return bnot(mkbool(b < a))
        return bnot(mkbool(a < b))

    def __lt__(self, o): return self._cmp(o, 'lt')
    def __le__(self, o): return self._cmp(o, 'le')
    def __gt__(self, o): return self._cmp(o, 'gt')
    def __ge__(self, o): return self._cmp(o, 'ge')
    def __eq__(self, o): return self._cmp(o, 'eq')

    def __ne__(self, o):
        r = self._cmp(o, 'eq')
        if r is NotImplemented:
            return r
        return bnot(r)

    # -- arithmetic ------------------------------------------------------
    def __neg__(self):
        if self.bv:
            lo, hi = -self.hi, -self.lo
            w = max(_w(lo, hi), self.e.size() + 1)
            return _mk(-_ext(self, w), lo, hi)
        return SymInt(-self.e, None if self.hi is None else -self.hi,
                      None if self.lo is None else -self.lo)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo is not None and self.lo >= 0:
            return self
        if self.hi is not None and self.hi <= 0:
            return -self
        if self.bv:
            m = max(-self.lo, self.hi)
            w = max(_w(0, m), self.e.size() + 1)
            x = _ext(self, w)
            return _mk(z3.If(x < 0, -x, x), 0, m)
        m = None if self.lo is None or self.hi is None else max(-self.lo, self.hi)
        return SymInt(z3.If(self.e < 0, -self.e, self.e), 0, m)

    def _addsub(self, o, sub, rev):
        c = SymInt._co(o)
        if c is None:
            if type(o) is SymRat:
                me = SymRat(self, 1)
                return (o - me if rev else me - o) if sub else me + o
            if isinstance(o, float) and o in (INF, -INF):
                return o if not sub or rev else -o
            if isinstance(o, float):
                return (self.conc() - o if not rev else o - self.conc()) if sub else self.conc() + o
            return NotImplemented
        if type(c) is int and c == 0 and not (sub and rev):
            return self
        s, c = self._pair(c)
        if type(s) is int:
            return (c - s if rev else s - c) if sub else s + c
        a, b = (c, s) if rev else (s, c)
        alo, ahi = _bnds(a)
        blo, bhi = _bnds(b)
        if sub:
            lo = None if alo is None or bhi is None else alo - bhi
            hi = None if ahi is None or blo is None else ahi - blo
        else:
            lo = None if alo is None or blo is None else alo + blo
            hi = None if ahi is None or bhi is None else ahi + bhi
        if s.bv:
            w = _w(lo, hi)
            x, y = _ext(a, w), _ext(b, w)
            return _mk(x - y if sub else x + y, lo, hi)
        x = z3.IntVal(a) if type(a) is int else a.e
        y = z3.IntVal(b) if type(b) is int else b.e
        if sub and x.eq(y):
            return 0
        return SymInt(x - y if sub else x + y, lo, hi)

    def __add__(self, o): return self._addsub(o, False, False)
    def __radd__(self, o): return self._addsub(o, False, True)
    def __sub__(self, o): return self._addsub(o, True, False)
    def __rsub__(self, o): return self._addsub(o, True, True)

    def __mul__(self, o):
        c = SymInt._co(o)
        if c is None:
            if isinstance(o, (list, tuple, str, bytes, bytearray)):
                return o * self.conc()
            if type(o) is SymRat:
                return SymRat(self, 1) * o
            if isinstance(o, float):
                return self.conc() * o
            return NotImplemented
        if type(c) is int:
            if c == 0:
                return 0
            if c == 1:
                return self
            if c == -1:
                return -self
        s, c = self._pair(c)
        if type(s) is int or (type(c) is int and c == 0):
            return s * c
        lo = hi = None
        clo, chi = _bnds(c)
        if None not in (s.lo, s.hi, clo, chi):
            ps = (s.lo * clo, s.lo * chi, s.hi * clo, s.hi * chi)
            lo, hi = min(ps), max(ps)
        if s.bv:
            same = type(c) is SymInt and c.e.eq(s.e)
            if same and lo < 0:
                lo = 0
            w = max(_w(lo, hi), 2)
            return _mk(_ext(s, w) * _ext(c, w), lo, hi)
        if type(c) is SymInt and c.e.eq(s.e):
            lo = 0
        return SymInt(s.e * (z3.IntVal(c) if type(c) is int else c.e), lo, hi)
    __rmul__ = __mul__

    def _divmod(self, o, rev, want):
        c = SymInt._co(o)
        if c is None:
            if isinstance(o, float):
                a, b = (o, self.conc()) if rev else (self.conc(), o)
                return a // b if want == 'div' else a % b
            return NotImplemented
        if CTX.conc_div:
            num, den = (c, self) if rev else (self, c)
            if type(den) is SymInt:
                nlo, nhi = _bnds(num)
                if nlo is not None and nhi is not None and nlo >= 0 and den > nhi:
                    return 0 if want == 'div' else num
                den = den.conc()
                if rev:
                    return num // den if want == 'div' else num % den
                c = den
        s, c = self._pair(c)
        a, b = (c, s) if rev else (s, c)
        if type(a) is int and type(b) is int:
            return a // b if want == 'div' else a % b
        if type(b) is int:
            if b == 0:
                raise ZeroDivisionError('integer division or modulo by zero')
            if b == 1:
                return a if want == 'div' else 0
            if b == -1:
                return -a if want == 'div' else 0
        else:
            if (b.lo is None or b.lo <= 0) and (b.hi is None or b.hi >= 0):
                if b == 0:
                    raise ZeroDivisionError('integer division or modulo by zero')
        if type(a) is int and a == 0:
            return 0
        if a.bv if type(a) is SymInt else b.bv:
            return _bvdiv(a, b, want)
        # Int theory: z3 div/mod agree with Python for positive divisors
        if type(b) is int:
            neg = b < 0
        elif b.lo is not None and b.lo >= 0:
            neg = False
        else:
            neg = bool(b < 0)
        ae = z3.IntVal(a) if type(a) is int else a.e
        be = z3.IntVal(b) if type(b) is int else b.e
        if neg:
            ae, be = -ae, -be
        alo, ahi = _bnds(a)
        if want == 'div':
            lo = hi = None
            if type(b) is int and alo is not None:
                q = (alo // b, (ahi // b) if ahi is not None else None)
                lo, hi = (q if b > 0 else (q[1], q[0]))
            elif type(b) is int and ahi is not None:
                if b > 0:
                    hi = ahi // b
                else:
                    lo = ahi // b
            if lo is not None and lo == hi:
                return lo
            return SymInt(ae / be, lo, hi)
        if type(b) is int:
            if alo is not None and ahi is not None and b > 0 and 0 <= alo and ahi < b:
                return a
            lo, hi = (0, b - 1) if b > 0 else (b + 1, 0)
        else:
            lo, hi = (0, b.hi - 1 if b.hi is not None else None) if not neg else (None, 0)
        r = ae % be
        return SymInt(-r if neg else r, lo, hi)

    def __floordiv__(self, o): return self._divmod(o, False, 'div')
    def __rfloordiv__(self, o): return self._divmod(o, True, 'div')
    def __mod__(self, o): return self._divmod(o, False, 'mod')

    def __rmod__(self, o):
        if isinstance(o, str):
            return o % self.conc()
        return self._divmod(o, True, 'mod')

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    def __truediv__(self, o):
        c = SymInt._co(o)
        if c is None:
            if type(o) is SymRat:
                return SymRat(self, 1) / o
            if isinstance(o, float):
                return self.conc() / o
            return NotImplemented
        return self.conc() / (c.conc() if type(c) is SymInt else c)

    def __rtruediv__(self, o):
        c = SymInt._co(o)
        if c is None:
            if type(o) is SymRat:
                return o / SymRat(self, 1)
            if isinstance(o, float):
                return o / self.conc()
            return NotImplemented
        return c / self.conc()

    def __pow__(self, k, m=None):
        if m is not None:
            return sympow(self, k, m)
        if isinstance(k, float):
            if k == 0.5 and self.lo is not None and self.lo >= 0 and self.hi is not None \
                    and self.hi < 2**52:
                return SymSqrt(self)
            return self.conc() ** k
        if type(k) is SymInt:
            k = k.conc()
        if not isinstance(k, int):
            return NotImplemented
        k = int(k)
        if k < 0:
            return self.conc() ** k
        if k == 0:
            return 1
        if k > 64:
            return self.conc() ** k
        r = None
        base = self
        while k:
            if k & 1:
                r = base if r is None else r * base
            k >>= 1
            if k:
                base = base * base
        return r

    def __rpow__(self, b):
        k = self.conc()
        return b ** k

    # -- bits ------------------------------------------------------------
    def __lshift__(self, o):
        k = o.conc() if type(o) is SymInt else o
        if k < 0:
            raise ValueError('negative shift count')
        return self * (1 << k)

    def __rlshift__(self, o):
        return o << self.conc()

    def __rshift__(self, o):
        k = o.conc() if type(o) is SymInt else o
        if k < 0:
            raise ValueError('negative shift count')
        return self // (1 << k)

    def __rrshift__(self, o):
        return o >> self.conc()

    def __invert__(self):
        return -self - 1

    def _bit(self, o, op):
        c = SymInt._co(o)
        if c is None:
            return NotImplemented
        s, c = self._pair(c)
        if type(s) is int:
            return {'&': s & c, '|': s | c, '^': s ^ c}[op]
        if not s.bv:
            if op == '&' and type(c) is int and c >= 0 and (c + 1) & c == 0:
                return s % (c + 1) if c else 0
            v = s.conc()
            c = c.conc() if type(c) is SymInt else c
            return {'&': v & c, '|': v | c, '^': v ^ c}[op]
        clo, chi = _bnds(c)
        lo, hi = min(s.lo, clo), max(s.hi, chi)
        w = max(_w(lo, hi), s.e.size())
        x, y = _ext(s, w), _ext(c, w)
        full_lo, full_hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if op == '&':
            r = x & y
            if s.lo >= 0 and clo >= 0:
                b = (0, min(s.hi, chi))
            elif s.lo >= 0:
                b = (0, s.hi)
            elif clo >= 0:
                b = (0, chi)
            else:
                b = (full_lo, full_hi)
        else:
            r = x | y if op == '|' else x ^ y
            if s.lo >= 0 and clo >= 0:
                b = (0, (1 << max(s.hi.bit_length(), chi.bit_length())) - 1)
            else:
                b = (full_lo, full_hi)
        return _mk(r, *b)

    def __and__(self, o): return self._bit(o, '&')
    def __or__(self, o): return self._bit(o, '|')
    def __xor__(self, o): return self._bit(o, '^')
    __rand__ = __and__
    __ror__ = __or__
    __rxor__ = __xor__


def _bvdiv(a, b, want):
    alo, ahi = _bnds(a)
    blo, bhi = _bnds(b)
    if want == 'mod' and blo > 0 and alo >= 0 and ahi < blo:
        return a
    if alo >= 0 and blo >= 0:
        w = max(_w(alo, ahi), _w(blo, bhi))
        x, y = _ext(a, w), _ext(b, w)
        b1 = max(blo, 1)
        if want == 'div':
            return _mk(z3.UDiv(x, y), alo // bhi, ahi // b1)
        return _mk(z3.URem(x, y), 0, min(ahi, bhi - 1))
    m = max(abs(alo), abs(ahi), abs(blo), abs(bhi)) + 1
    w = _w(-m, m)
    x, y = _ext(a, w), _ext(b, w)
    mod = x % y                       # bvsmod: sign of the divisor, as in Python
    if want == 'mod':
        return _mk(mod, min(0, blo + 1), max(0, bhi - 1))
    q = (x - mod) / y                 # exact signed division
    M = max(abs(alo), abs(ahi))
    return _mk(q, -M - 1 if True else 0, M)


def toint(x):
    """SymInt in the Int theory."""
    if type(x) is int or not x.bv:
        return x
    w = x.e.size()
    return SymInt(z3.BV2Int(x.e, is_signed=True), x.lo, x.hi)


def ite(c, a, b):
    """Value-level if-then-else without forking (ints and bools)."""
    c = rawb(c)
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, bool) or isinstance(b, bool):
        a, b = rawb(a), rawb(b)
        A = z3.BoolVal(a) if type(a) is bool else a
        B = z3.BoolVal(b) if type(b) is bool else b
        return mkbool(z3.If(c, A, B))
    a, b = SymInt._co(a), SymInt._co(b)
    if type(a) is int and type(b) is int:
        if a == b:
            return a
        w = _w(min(a, b), max(a, b))
        return SymInt(z3.If(c, z3.BitVecVal(a, w), z3.BitVecVal(b, w)), min(a, b), max(a, b), True)
    if type(a) is SymInt and type(b) is SymInt and a.bv != b.bv:
        a, b = toint(a), toint(b)
    bv = a.bv if type(a) is SymInt else b.bv
    alo, ahi = _bnds(a)
    blo, bhi = _bnds(b)
    lo = None if alo is None or blo is None else min(alo, blo)
    hi = None if ahi is None or bhi is None else max(ahi, bhi)
    if bv:
        w = _w(lo, hi)
        w = max(w, a.e.size() if type(a) is SymInt else 1, b.e.size() if type(b) is SymInt else 1)
        return _mk(z3.If(c, _ext(a, w), _ext(b, w)), lo, hi)
    A = z3.IntVal(a) if type(a) is int else a.e
    B = z3.IntVal(b) if type(b) is int else b.e
    return SymInt(z3.If(c, A, B), lo, hi)


def sympow(a, k, m):
    """pow(a, k, m) as square-and-multiply; the exponent is concretised."""
    if type(k) is SymInt:
        k = k.conc()
    k = int(k)
    if type(a) is not SymInt and type(m) is not SymInt:
        return pow(a, k, m)
    if type(m) is SymInt:
        if m == 0:
            raise ValueError('pow() 3rd argument cannot be 0')
    elif m == 0:
        raise ValueError('pow() 3rd argument cannot be 0')
    if k < 0:
        m = m.conc() if type(m) is SymInt else m
        a = a.conc() if type(a) is SymInt else a
        return pow(a, k, m)
    t = 1 % m
    a = a % m
    if CTX.conc_div and type(a) is SymInt:
        return pow(a.conc(), k, m.conc() if type(m) is SymInt else m)
    while k:
        if k & 1:
            t = t * a % m
        k >>= 1
        if k:
            a = a * a % m
    return t


class SymSqrt:
    """x ** 0.5 for a symbolic integer 0 <= x < 2**52.

    Exact contract used: the correctly rounded square root s of such an x
    satisfies floor(s) = isqrt(x), and compares with an integer r as x does
    with r*r."""
    __slots__ = ('x', 'r')

    def __init__(self, x):
        self.x = x
        self.r = None

    @property
    def __class__(self):
        return float

    def floor(self):
        if self.r is None:
            import math
            CTX.fresh += 1
            hi = math.isqrt(self.x.hi)
            lo = math.isqrt(max(self.x.lo, 0))
            if lo == hi:
                self.r = lo
                return lo
            name = 'sqrt!%d' % CTX.fresh
            if self.x.bv:
                r = SymInt(z3.BitVec(name, _w(lo, hi)), lo, hi, True)
            else:
                r = SymInt(z3.Int(name), lo, hi)
            CTX.assume(z3.And(r.e >= lo, r.e <= hi))
            CTX.assume(rawb(band(r * r <= self.x, self.x < (r + 1) * (r + 1))))
            self.r = r
        return self.r

    def _c(self, o, op):
        if type(o) is SymSqrt:
            a, b = self.x, o.x
        elif isinstance(o, int):
            if not (o >= 0):
                return op in ('gt', 'ge')
            a, b = self.x, o * o
        else:
            return NotImplemented
        return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'eq': a == b}[op]

    def __lt__(self, o): return self._c(o, 'lt')
    def __le__(self, o): return self._c(o, 'le')
    def __gt__(self, o): return self._c(o, 'gt')
    def __ge__(self, o): return self._c(o, 'ge')
    def __eq__(self, o): return self._c(o, 'eq')
    def __floor__(self): return self.floor()
    def __trunc__(self): return self.floor()
    def __int__(self): return self.conc_floor()

    def __ceil__(self):
        r = self.floor()
        return ite(r * r == self.x, r, r + 1)

    def conc_floor(self):
        r = self.floor()
        return r.conc() if type(r) is SymInt else r

    def __float__(self):
        return self.x.conc() ** 0.5

    def __hash__(self):
        return hash(float(self))

    def is_integer(self):
        r = self.floor()
        return r * r == self.x

    def _f(self):
        return float(self)

    def __add__(self, o): return self._f() + o
    def __radd__(self, o): return o + self._f()
    def __sub__(self, o): return self._f() - o
    def __rsub__(self, o): return o - self._f()
    def __mul__(self, o): return self._f() * o
    def __rmul__(self, o): return o * self._f()
    def __truediv__(self, o): return self._f() / o
    def __rtruediv__(self, o): return o / self._f()
    def __floordiv__(self, o):
        if isinstance(o, int) and not isinstance(o, bool) and type(o) is int and o == 1:
            return self.floor()
        return self._f() // o
    def __round__(self, n=None):
        return round(self._f(), n) if n is not None else round(self._f())


class SymRat:
    """An exact rational standing in for a float built from small integers.

    Contract used: comparing correctly rounded quotients of integers below
    2**26 in absolute value gives the same answer as comparing the exact
    quotients (assumption stated in the evidence)."""
    __slots__ = ('n', 'd')

    def __init__(self, n, d):
        self.n = n
        self.d = d

    @property
    def __class__(self):
        return float

    @staticmethod
    def make(n, d):
        if type(d) is SymInt:
            d = d.conc()
        if d < 0:
            n, d = -n, -d
        return SymRat(n, d)

    @staticmethod
    def _co(o):
        if type(o) is SymRat:
            return o
        if type(o) in (int, SymInt):
            return SymRat(o, 1)
        if isinstance(o, float) and type(o) is float and o == o and o not in (INF, -INF):
            a, b = o.as_integer_ratio()
            return SymRat(a, b)
        return None

    def __add__(self, o):
        c = self._co(o)
        if c is None:
            return o + 0.0 if isinstance(o, float) else NotImplemented
        if c.d == self.d:
            return SymRat(self.n + c.n, self.d)
        return SymRat(self.n * c.d + c.n * self.d, self.d * c.d)
    __radd__ = __add__

    def __neg__(self):
        return SymRat(-self.n, self.d)

    def __sub__(self, o):
        c = self._co(o)
        return NotImplemented if c is None else self + (-c)

    def __rsub__(self, o):
        c = self._co(o)
        return NotImplemented if c is None else c + (-self)

    def __mul__(self, o):
        c = self._co(o)
        return NotImplemented if c is None else SymRat(self.n * c.n, self.d * c.d)
    __rmul__ = __mul__

    def __truediv__(self, o):
        c = self._co(o)
        if c is None:
            return NotImplemented
        n = c.n.conc() if type(c.n) is SymInt else c.n
        if n == 0:
            raise ZeroDivisionError('float division by zero')
        return SymRat.make(self.n * c.d, self.d * n)

    def __rtruediv__(self, o):
        c = self._co(o)
        return NotImplemented if c is None else c / self

    def _cmp(self, o, op):
        c = self._co(o)
        if c is None:
            if isinstance(o, float) and o in (INF, -INF):
                up = o == INF
                return {'lt': up, 'le': up, 'gt': not up, 'ge': not up, 'eq': False}[op]
            return NotImplemented
        a, b = self.n * c.d, c.n * self.d
        return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'eq': a == b}[op]

    def __lt__(self, o): return self._cmp(o, 'lt')
    def __le__(self, o): return self._cmp(o, 'le')
    def __gt__(self, o): return self._cmp(o, 'gt')
    def __ge__(self, o): return self._cmp(o, 'ge')
    def __eq__(self, o): return self._cmp(o, 'eq')
    def __ne__(self, o): return bnot(self._cmp(o, 'eq'))

    def floor(self):
        return self.n // self.d

    def trunc(self):
        return self.n // self.d if self.n >= 0 else -((-self.n) // self.d)
    __floor__ = floor
    __trunc__ = trunc

    def __bool__(self):
        return bool(self.n != 0)

    def __float__(self):
        n = self.n.conc() if type(self.n) is SymInt else self.n
        return n / self.d

    def __hash__(self):
        return hash(float(self))

    def __repr__(self):
        return repr(float(self))
