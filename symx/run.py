"""Run harnesses symbolically, replay counterexamples concretely, report.

A harness is a Python function h(S, **params).  It draws symbolic inputs from S,
calls the real rosemary code and states the property with S.check.  The same
function runs with a concrete S (values of a solver model) against the
unpatched code to confirm a counterexample."""
import json
import os
import random as _random
import resource
import select
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)

HARNESSES = {}          # property id -> list of Harness
META = {}               # property id -> dict(assumptions=[...], bounds=str)


class Harness:
    def __init__(self, pid, fn, quick, thorough, opts):
        self.pid, self.fn, self.opts = pid, fn, opts
        self.name = fn.__name__
        self.quick, self.thorough = quick, thorough


def harness(pid, quick=({},), thorough=None, **opts):
    """Register fn as a harness of property pid with its parameter instances."""
    def deco(fn):
        q = list(quick)
        t = list(thorough) if thorough is not None else q
        HARNESSES.setdefault(pid, []).append(Harness(pid, fn, q, t, opts))
        return fn
    return deco


def windows(a, b, w, **kw):
    """Instances covering [a, b] in windows of w values."""
    return [dict(kw, lo=i, hi=min(i + w - 1, b)) for i in range(a, b + 1, w)]


class Violation(Exception):
    def __init__(self, label):
        Exception.__init__(self, label)
        self.label = label


class Expected(Exception):
    """Internal: a path ends early although nothing is wrong."""


def known_findings():
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return {}
    with open(p) as fh:
        return {e['key']: e for e in json.load(fh)['findings']}


# ------------------------------------------------------------------- sources
class BaseSource:
    eager = False
    symbolic = False

    def __init__(self, uni, opts):
        self.uni = uni
        self.opts = opts
        self.random_mode = opts.get('random', 'seeded')
        self.findings = known_findings()

    def begin(self):
        self.nrand = 0
        self.checks = 0
        self.obs = []
        self.finding = None
        self.reached = set()
        self.uni.restore()
        self.uni.randomness.reset(self)

    def mod(self, name):
        return self.uni.mod(name)

    def fresh(self):
        """Put module-level state back to what it is after importing."""
        self.uni.restore()

    def ints(self, prefix, n, lo=None, hi=None, bv=None):
        return [self.int('%s%d' % (prefix, i), lo, hi, bv) for i in range(n)]

    def bools(self, prefix, n):
        return [self.bool('%s%d' % (prefix, i)) for i in range(n)]

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.conc(self.int(name, 0, len(options) - 1))]

    def rand_int(self, a, b):
        self.nrand += 1
        if self.nrand > self.opts.get('max_rand', 10**9):
            raise Expected('more random draws than the stated bound')
        name = 'rnd!%d' % self.nrand
        return self._rand(name, a, b)

    def observe(self, *vals):
        self.obs.append(vals)

    def reach(self, name):
        self.reached.add(name)

    def raises(self, exc, fn, *args, **kw):
        """The call must raise one of exc."""
        label = kw.pop('label', None)
        try:
            r = fn(*args)
        except exc:
            self.checks += 1
            return True
        self.observe(r)
        self.fail(label or 'no %s raised' % getattr(exc, '__name__', exc))

    def fail(self, label):
        self.check(False, label)

    def known(self, key, cond=True):
        """Inputs with cond are covered by the listed known finding `key`."""
        if key in self.findings and cond:
            self.finding = key


class ConcSource(BaseSource):
    def begin_values(self, values):
        self.values = values
        self.rng = _random.Random(99)
        self.begin()

    def int(self, name, lo=None, hi=None, bv=None):
        v = self.values.get(name)
        if v is None:
            v = lo if lo is not None else (hi if hi is not None and hi < 0 else 0)
        return int(v)

    def bool(self, name):
        return bool(self.values.get(name, False))

    def conc(self, x):
        return x

    def split(self, x):
        return x

    def _rand(self, name, a, b):
        v = self.values.get(name)
        if v is None or not (a <= v <= b):
            v = self.rng.randint(a, b)
        return v

    def assume(self, cond):
        if not cond:
            raise Expected('assumption')

    def check(self, cond, label=''):
        self.checks += 1
        if not cond:
            raise Violation(label)


class SymSource(BaseSource):
    symbolic = True

    def __init__(self, uni, opts, ctx, eager=False):
        BaseSource.__init__(self, uni, opts)
        self.ctx = ctx
        self.eager = eager

    def begin(self):
        self.inputs = {}
        BaseSource.begin(self)

    def int(self, name, lo=None, hi=None, bv=None):
        import z3
        from .core import SymInt, _w
        if lo is not None and lo == hi:
            return lo
        if bv is None:
            bv = lo is not None and hi is not None and hi - lo < (1 << 40)
        if bv:
            w = _w(lo, hi)
            e = z3.BitVec(name, w)
            self.inputs[name] = e
            if lo > -(1 << (w - 1)):
                self.ctx.assume(e >= lo)
            if hi < (1 << (w - 1)) - 1:
                self.ctx.assume(e <= hi)
            x = SymInt(e, lo, hi, True)
        else:
            e = z3.Int(name)
            self.inputs[name] = e
            if self.eager:
                lo = -3 if lo is None else lo
                hi = max(lo, 3) if hi is None else hi
                self.partial = True
            if lo is not None:
                self.ctx.assume(e >= lo)
            if hi is not None:
                self.ctx.assume(e <= hi)
            x = SymInt(e, lo, hi)
        return x.conc() if self.eager else x

    def bool(self, name):
        import z3
        from .core import SymBool
        e = z3.Bool(name)
        self.inputs[name] = e
        x = SymBool(e)
        return bool(x) if self.eager else x

    partial = False

    def conc(self, x):
        from .core import SymInt, SymBool
        if type(x) is SymInt:
            return x.conc()
        if type(x) is SymBool:
            return bool(x)
        return x

    def _rand(self, name, a, b):
        from .core import _bnds
        lo, hi = _bnds(a)[0], _bnds(b)[1]
        x = self.int(name, lo, hi)
        self.assume(x >= a)
        self.assume(x <= b)
        return x

    def assume(self, cond):
        from .core import rawb, PathDead
        c = rawb(cond)
        if c is True:
            return
        if c is False:
            raise PathDead()
        self.ctx.assume(c)

    def check(self, cond, label=''):
        from .core import rawb
        self.checks += 1
        self.ctx.prove(rawb(cond), label)

    def values(self, model):
        import z3
        out = {}
        for n, e in self.inputs.items():
            v = model.eval(e, model_completion=True)
            if z3.is_bool(e):
                out[n] = z3.is_true(v)
            elif z3.is_bv(e):
                out[n] = v.as_signed_long()
            else:
                out[n] = v.as_long()
        return out


def freeze(x, model=None):
    """Canonical JSON-able form of an observed value."""
    t = type(x)
    if t in (int, str) or x is None:
        return x if t is not int else str(x)
    if t is bool:
        return x
    if t is float:
        return 'f:%r' % x
    if model is not None:
        from . import core
        import z3
        if t is core.SymInt:
            v = model.eval(x.e, model_completion=True)
            return str(v.as_signed_long() if x.bv else v.as_long())
        if t is core.SymBool:
            return z3.is_true(model.eval(x.e, model_completion=True))
        if t is core.SymRat:
            n = int(freeze(x.n, model))
            d = int(freeze(x.d, model))
            return 'f:%r' % (n / d)
        if t is core.SymSqrt:
            return 'f:%r' % (int(freeze(x.x, model)) ** 0.5)
    if isinstance(x, (list, tuple)):
        return [freeze(y, model) for y in x]
    if isinstance(x, (set, frozenset)):
        return ['set'] + sorted((freeze(y, model) for y in x), key=repr)
    if isinstance(x, dict):
        return ['dict'] + sorted(([freeze(k, model), freeze(v, model)] for k, v in x.items()),
                                 key=repr)
    if isinstance(x, bool):
        return bool(x)
    if isinstance(x, int):
        return str(int(x))
    return 'obj:' + t.__name__


# ------------------------------------------------------------ replay process
def replay_once(pid, hname, params, values):
    """Run one harness concretely in this process; the outcome as a dict."""
    uni = _conc_universe()
    h = find(pid, hname)
    src = ConcSource(uni, h.opts)
    src.begin_values(values)
    try:
        h.fn(src, **params)
        res = dict(kind='ok')
    except Violation as e:
        res = dict(kind='violation', label=e.label)
    except Expected as e:
        res = dict(kind='dead', label=str(e))
    except MemoryError:
        res = dict(kind='memory')
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        at = ['%s:%s' % (os.path.basename(f.filename), f.name) for f in tb][-3:]
        res = dict(kind='crash', label='%s: %s' % (type(e).__name__, str(e)[:200]), at=at,
                   in_repo=any('/rosemary/' in f.filename for f in tb))
    res['finding'] = src.finding
    res['checks'] = src.checks
    try:
        res['obs'] = json.loads(json.dumps(freeze(src.obs)))
    except Exception:
        res['obs'] = None
    return res


_CU = []


def _conc_universe():
    if not _CU:
        from .load import Universe
        _CU.append(Universe(False))
    return _CU[0]


def replay_server(pid):
    """Serve replays: one JSON request per line on stdin."""
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    load_props(pid)
    out = os.fdopen(os.dup(1), 'w')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    for line in sys.stdin:
        q = json.loads(line)
        r = replay_once(pid, q['h'], q['p'], q['v'])
        out.write(json.dumps(r) + '\n')
        out.flush()


class Replayer:
    def __init__(self, pid):
        self.pid = pid
        self.proc = None

    def ask(self, hname, params, values, timeout):
        if self.proc is None or self.proc.poll() is not None:
            self.proc = subprocess.Popen(
                [sys.executable, os.path.join(ROOT, 'check.py'), self.pid, '--serve'],
                stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                env=dict(os.environ, PYTHONHASHSEED='0'))
            self.first = True
        msg = json.dumps(dict(h=hname, p=params, v=values)) + '\n'
        try:
            self.proc.stdin.write(msg.encode())
            self.proc.stdin.flush()
        except (BrokenPipeError, OSError):
            self.close()
            return dict(kind='lost')
        end = time.time() + timeout + (20 if self.first else 0)
        self.first = False
        buf = b''
        while not buf.endswith(b'\n'):
            left = end - time.time()
            r = select.select([self.proc.stdout], [], [], max(0, left))[0] if left > 0 else []
            if not r:
                self.close()
                return dict(kind='timeout')
            d = os.read(self.proc.stdout.fileno(), 1 << 16)
            if not d:
                self.close()
                return dict(kind='lost')
            buf += d
        return json.loads(buf)

    def close(self):
        if self.proc is not None:
            try:
                self.proc.kill()
                self.proc.wait()
                self.proc.stdin.close()
                self.proc.stdout.close()
            except Exception:
                pass
        self.proc = None


def load_props(pid):
    import importlib
    if ROOT not in sys.path:
        sys.path.insert(0, ROOT)
    importlib.import_module('props.' + pid)


def find(pid, hname):
    for h in HARNESSES[pid]:
        if h.name == hname:
            return h
    raise KeyError(hname)


# --------------------------------------------------------------- exploration
_SU = []
_REPL = {}
FUNCS = set()


def _sym_universe():
    if not _SU:
        from .load import Universe, monitor_functions
        monitor_functions(FUNCS)
        _SU.append(Universe(True))
    return _SU[0]


def _alarm(sig, frm):
    from .core import PathTimeout
    raise PathTimeout()


def _at(e):
    tb = traceback.extract_tb(e.__traceback__)
    return ' <- '.join('%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name)
                       for f in reversed(tb[-4:]))


def explore(pid, hname, params, tier, budget, eager=False, validate=6, stop_at=1):
    """Explore every path of one harness instance."""
    from . import core
    h = find(pid, hname)
    uni = _sym_universe()
    opts = h.opts
    ctx = core.Ctx(timeout_ms=opts.get('timeout_ms', 4000),
                   hard_timeout_ms=opts.get('hard_ms', 15000),
                   max_decisions=opts.get('max_decisions', 6000))
    ctx.max_values = opts.get('max_values', 5000)
    ctx.const_hash = opts.get('const_hash', False)
    ctx.conc_div = opts.get('conc_div', False)
    core.set_ctx(ctx)
    src = SymSource(uni, opts, ctx, eager)
    rep = _REPL.get(pid)
    if rep is None:
        rep = _REPL[pid] = Replayer(pid)
    path_t = opts.get('path_t', 20)
    t0 = time.time()
    res = dict(h=hname, p=params, eager=eager, paths=0, dead=0, checks=0, validated=0,
               incomplete=[], violations=[], findings=[], mismatches=[], unconfirmed=[],
               samples=[], reached=set(), obligations=0)
    stride = 1
    signal.signal(signal.SIGALRM, _alarm)

    def confirm(values, label, timeout):
        r = rep.ask(hname, params, values, timeout)
        bad = r['kind'] in ('violation', 'crash', 'memory') or \
            (r['kind'] == 'timeout' and timeout >= 25)
        if bad:
            lab = r.get('label') or r['kind']
            if r['kind'] == 'timeout':
                lab = 'does not terminate'
            if r['kind'] == 'crash' and r.get('at'):
                lab += ' at ' + ' > '.join(r['at'])
            rec = dict(h=hname, p=params, values=values, label=lab, symbolic_label=label)
            if r.get('finding'):
                if not any(f['key'] == r['finding'] for f in res['findings']):
                    res['findings'].append(dict(rec, key=r['finding']))
            else:
                res['violations'].append(rec)
        return bad, r

    first = True
    while True:
        if not first and not ctx.next_path():
            break
        first = False
        if time.time() - t0 > budget:
            res['incomplete'].append('time budget %ds' % budget)
            break
        ctx.start_path()
        outcome = label = model = None
        signal.setitimer(signal.ITIMER_REAL, path_t)
        try:
            try:
                src.begin()
                h.fn(src, **params)
                outcome = 'ok'
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except core.Refuted as e:
            outcome, label, model = 'refuted', e.label, e.model
        except core.PathDead:
            outcome = 'dead'
        except core.PathTimeout:
            outcome, label = 'timeout', 'path timeout'
        except core.PathBound as e:
            outcome, label = 'timeout', 'bound: %s' % e
        except core.PathUnknown as e:
            outcome, label = 'unknown', 'solver unknown %s' % e
        except core.Unsupported as e:
            outcome, label = 'unsupported', str(e)
        except RecursionError as e:
            outcome, label = 'crash', 'RecursionError'
        except Expected:
            outcome = 'dead'
        except Exception as e:
            outcome, label = 'crash', '%s: %s [%s]' % (type(e).__name__, str(e)[:160], _at(e))
        if outcome == 'timeout':
            ctx.rebuild()
        res['paths'] += 1
        res['checks'] += src.checks
        res['reached'] |= src.reached
        if outcome == 'dead':
            res['dead'] += 1
            continue
        if outcome == 'ok':
            n = res['paths']
            if res['validated'] < validate and n % stride == 0:
                stride = min(stride * 3, 2000)
                try:
                    model = ctx.get_model()
                except core.EngineStop:
                    continue
                vals = src.values(model)
                want = freeze(src.obs, model)
                bad, r = confirm(vals, 'validation', 20)
                if not bad:
                    if r['kind'] == 'ok':
                        if r['obs'] is not None and r['obs'] != json.loads(json.dumps(want)):
                            res['mismatches'].append(dict(values=vals, sym=want, conc=r['obs']))
                        else:
                            res['validated'] += 1
                    elif r['kind'] == 'dead':
                        res['mismatches'].append(dict(values=vals, conc='assumption fails'))
                    else:
                        res['incomplete'].append('replay ' + r['kind'])
                if len(res['samples']) < 2:
                    res['samples'].append(dict(harness=hname, params=params, inputs=vals,
                                               outcome='all assertions hold'))
            if len(res['violations']) >= stop_at:
                break
            continue
        # a candidate counterexample or an unfinished path
        if outcome in ('unknown', 'unsupported'):
            res['incomplete'].append('%s: %s' % (outcome, label))
            if outcome == 'unsupported':
                res['need_eager'] = True
            if len(res['incomplete']) > 20:
                break
            continue
        if model is None:
            try:
                model = ctx.get_model()
            except core.EngineStop:
                res['incomplete'].append('%s without model: %s' % (outcome, label))
                continue
        vals = src.values(model)
        nf = len(res['findings'])
        bad, r = confirm(vals, label, 30 if outcome == 'timeout' else 20)
        if not bad:
            if outcome == 'timeout':
                res['incomplete'].append(label)
                res['need_eager'] = True
            else:
                res['unconfirmed'].append(dict(values=vals, label=label, replay=r['kind']))
                res['need_eager'] = True
            if len(res['incomplete']) + len(res['unconfirmed']) > 5:
                res['incomplete'].append('gave up after repeated unfinished paths')
                break
        if len(res['violations']) >= stop_at:
            break
    if src.partial:
        res['incomplete'].append('concretised fallback covers a subset only')
    res.update(decisions=ctx.decisions, queries=ctx.queries, solver_time=ctx.solver_time,
               discharged=ctx.discharged, wall=time.time() - t0, unknowns=ctx.unknowns,
               funcs=sorted(FUNCS), reached=sorted(res['reached']))
    return res


def run_instance(job):
    pid, hname, params, tier, budget = job
    t0 = time.time()
    try:
        r = explore(pid, hname, params, tier, budget)
        if r.pop('need_eager', False) and not r['violations']:
            r2 = explore(pid, hname, params, tier,
                         max(10, min(budget - (time.time() - t0), 60)), eager=True)
            r2.pop('need_eager', None)
            for k in ('paths', 'dead', 'checks', 'validated', 'decisions', 'queries',
                      'solver_time', 'discharged', 'unknowns', 'wall'):
                r[k] += r2[k]
            for k in ('violations', 'findings', 'mismatches'):
                r[k] += r2[k]
            done = not r2['incomplete'] and not r2['unconfirmed']
            r['fallback'] = 'complete' if done else 'partial'
            if done:
                r['incomplete'] = []
                r['unconfirmed'] = []
            else:
                r['incomplete'] += ['fallback: ' + x for x in r2['incomplete'][:3]]
        return r
    except MemoryError:
        return dict(h=hname, p=params, error='memory')
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        return dict(h=hname, p=params, error='%s: %s\n%s' % (
            type(e).__name__, str(e)[:300], traceback.format_exc()[-1500:]))


def _init_worker():
    sys.setrecursionlimit(20000)
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _close_replayers(*a):
    for r in _REPL.values():
        r.close()


def check_property(pid, tier, seed=1, jobs=None, verbose=False, only=None, level='model_checking'):
    t0 = time.time()
    load_props(pid)
    cap = 240 if tier == 'quick' else 780
    todo = []
    for h in HARNESSES[pid]:
        if only and h.name != only:
            continue
        for p in (h.quick if tier == 'quick' else h.thorough):
            todo.append((pid, h.name, p, tier, h.opts.get('t', 60 if tier == 'quick' else 300)))
    jobs = jobs or min(8, os.cpu_count() or 4, max(1, len(todo)))
    import multiprocessing as mp
    from concurrent.futures import ProcessPoolExecutor, as_completed
    from concurrent.futures.process import BrokenProcessPool
    results, errors = [], []
    stop = False
    ctxm = mp.get_context('fork')
    ex = ProcessPoolExecutor(max_workers=jobs, mp_context=ctxm, initializer=_init_worker)
    futs = {ex.submit(run_instance, j): j for j in todo}
    pending = set(futs)
    try:
        for f in as_completed(futs, timeout=cap):
            pending.discard(f)
            try:
                r = f.result()
            except BrokenProcessPool:
                errors.append('worker died')
                continue
            if 'error' in r:
                errors.append('%s %s: %s' % (r['h'], r['p'], r['error']))
                continue
            results.append(r)
            if verbose:
                print('%-28s %-40s paths=%d dead=%d checks=%d q=%d dis=%d val=%d %.1fs%s%s%s%s' % (
                    r['h'], json.dumps(r['p'])[:60], r['paths'], r['dead'], r['checks'],
                    r['queries'], r['discharged'], r['validated'], r['wall'],
                    ' INCOMPLETE ' + '; '.join(sorted(set(r['incomplete'])))[:300]
                    if r['incomplete'] else '',
                    ' MISMATCH ' + str(r['mismatches'][:1])[:600] if r['mismatches'] else '',
                    ' UNCONFIRMED ' + str(r['unconfirmed'][:2])[:900] if r['unconfirmed'] else '',
                    ' FALLBACK ' + r['fallback'] if r.get('fallback') else ''), flush=True)
            if r['violations'] and not verbose:
                stop = True
                break
    except TimeoutError:
        errors.append('global budget of %d s exhausted; %d instances unfinished' % (cap, len(pending)))
        stop = True
    for f in pending:
        f.cancel()
    procs = list((ex._processes or {}).values())
    if stop:
        for p in procs:
            kill_tree(p.pid)
    else:
        for p in procs:
            kill_children(p.pid)
    ex.shutdown(wait=not stop, cancel_futures=True)
    return report(pid, tier, seed, results, errors, t0, len(todo), verbose)


def _children(pid):
    try:
        with open('/proc/%d/task/%d/children' % (pid, pid)) as fh:
            return [int(x) for x in fh.read().split()]
    except (OSError, ValueError):
        return []


def kill_children(pid):
    for c in _children(pid):
        try:
            os.kill(c, signal.SIGKILL)
        except OSError:
            pass


def kill_tree(pid):
    kill_children(pid)
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass


def report(pid, tier, seed, results, errors, t0, ninst, verbose):
    meta = META.get(pid, {})
    viol = [v for r in results for v in r['violations']]
    finds = {}
    for r in results:
        for f in r['findings']:
            finds.setdefault(f['key'], f)
    outdir = os.path.join(ROOT, 'out')
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    lines = []
    for i, v in enumerate(viol[:5]):
        path = os.path.join(outdir, 'replay-%s-%d.json' % (pid, i))
        with open(path, 'w') as fh:
            json.dump(dict(property=pid, harness=v['h'], params=v['p'], values=v['values'],
                           label=v['label'], symbolic_label=v['symbolic_label']), fh, indent=1)
        print('  %s %s inputs=%s: %s' % (v['h'], json.dumps(v['p']), json.dumps(v['values'])[:400],
                                        v['label']))
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
    kf = known_findings()
    for k in sorted(finds):
        print('KNOWN-FINDING: property=%s %s' % (pid, kf[k]['what']))
    tot = lambda k: sum(r[k] for r in results)
    inconclusive = []
    for r in results:
        for s in sorted(set(r['incomplete'])):
            inconclusive.append('%s %s: %s' % (r['h'], json.dumps(r['p']), s[:200]))
        for u in r['unconfirmed'][:2]:
            inconclusive.append('%s %s: unconfirmed %s' % (r['h'], json.dumps(r['p']), str(u)[:200]))
        for u in r['mismatches'][:2]:
            inconclusive.append('%s %s: encoding mismatch %s' % (r['h'], json.dumps(r['p']), str(u)[:300]))
        if not r['checks'] and not r['violations']:
            inconclusive.append('%s %s: vacuous' % (r['h'], json.dumps(r['p'])))
    inconclusive += errors
    hs = {}
    for r in results:
        d = hs.setdefault(r['h'], dict(instances=0, paths=0, assertions=0, discharged=0, queries=0,
                                       solver_s=0.0))
        d['instances'] += 1
        d['paths'] += r['paths'] - r['dead']
        d['assertions'] += r['checks']
        d['discharged'] += r['discharged']
        d['queries'] += r['queries']
        d['solver_s'] = round(d['solver_s'] + r['solver_time'], 2)
    samples = [s for r in results for s in r['samples']]
    step = max(1, len(samples) // 6)
    cov = dict(
        states=tot('paths') - tot('dead'), transitions=tot('decisions'),
        traces_validated_against_impl=tot('validated'),
        samples=samples[::step][:6] or [dict(note='no completed path')],
        explanation='states = feasible paths of the real code explored symbolically, transitions = '
                    'symbolic branch decisions; each path stands for every input value that '
                    'satisfies its path condition',
        harnesses=hs, instances=ninst, instances_finished=len(results),
        assertions_reached=tot('checks'), discharged=tot('discharged'),
        queries=tot('queries'), solver_time_s=round(tot('solver_time'), 2),
        functions_encoded=sorted({f for r in results for f in r['funcs']}),
        bounds=meta.get('bounds', ''), inconclusive=inconclusive[:60],
        known_findings=sorted(finds))
    ev = dict(property=pid, tier=tier, seed=seed, level=meta.get('level', 'model_checking'),
              coverage=cov, assumptions=BASE_ASSUMPTIONS + list(meta.get('assumptions', [])),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    tmp = os.path.join(ROOT, 'evidence', pid + '.json.tmp')
    with open(tmp, 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    os.replace(tmp, os.path.join(ROOT, 'evidence', pid + '.json'))
    print('%s %s: %d instances, %d paths, %d decisions, %d assertions reached, %d discharged by '
          'the solver, %d queries, %.1f s solver, %d validated, %d inconclusive, %.1f s' % (
              pid, tier, len(results), cov['states'], cov['transitions'], tot('checks'),
              tot('discharged'), tot('queries'), tot('solver_time'), tot('validated'),
              len(inconclusive), time.time() - t0))
    for s in inconclusive[:8 if not verbose else 50]:
        print('  inconclusive: ' + s)
    for ln in lines:
        print(ln)
    sys.stdout.flush()
    return 1 if lines else 0


BASE_ASSUMPTIONS = [
    'CPython executes the code; symbolic values are proxies whose arithmetic is z3 integers or '
    'bit-vectors wide enough that no operation overflows',
    'builtins int, float, range, pow, min, max, type and the modules math, random, functools are '
    'replaced by proxy-aware versions in the symbolic run; counterexamples are replayed on the '
    'unpatched code before they are reported',
    'results outside the stated bounds are not covered',
]
