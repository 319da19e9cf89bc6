"""Heaps: keys stay symbolic, operation sequences are chosen symbolically."""
import random
from symx.run import harness, META
from symx.oracle import *

META['D01'] = dict(bounds='any integer keys; every sequence of the listed number of operations (insert, delete, look up, merge '
                          'or decrease) from every heap of the listed initial size; long '
                          'histories with fixed operations and all but the listed number of keys fixed')
H = 'rosemary.data_structures.heaps'


def take(S, model, v, what):
    """v must be a least element of the model; remove one such element."""
    S.check(all_f(v <= x for x in model), what + ': not the least')
    for i, x in enumerate(model):
        if v == x:
            model.pop(i)
            return
    S.check(False, what + ': not an element')


def drain(S, h, model, what):
    S.check(len(h) == len(model), what + ': size')
    out = list(h)
    S.check(len(out) == len(model), what + ': number of elements')
    S.check(increasing(out, strict=False), what + ': order')
    # same multiset: every value occurs as often in both
    S.check(all_f(count_f(x == v for x in out) == count_f(x == v for x in model) for v in model), what + ': elements')
    S.observe(out)


LQ = [dict(n=n, ops=k) for n, k in ((0, 2), (1, 2), (2, 1), (4, 0), (5, 0))] + [dict(n=n, ops=k, first=f) for n, k in ((0, 3), (1, 3), (2, 2), (3, 2), (3, 1), (4, 1)) for f in ('insert', 'delete', 'merge')]
LT = [dict(n=n, ops=k, first=f) for n, k in ((0, 4), (1, 3), (2, 3), (3, 2), (4, 2)) for f in ('insert', 'delete', 'merge')] + [dict(n=6, ops=0)]


@harness('D01', t=150, quick=LQ, thorough=LT)
def leftist(S, n, ops, first=None):
    m = S.mod(H)
    model = S.ints('v', n)
    h = m.LeftistHeap(list(model))
    for i in range(ops):
        op = S.choice('op%d' % i, ['insert', 'delete', 'merge']) if i or first is None else first
        S.check(len(h) == len(model), 'leftist: size')
        if model:
            x = h.find_min()
            S.check(all_f(x <= y for y in model), 'leftist: find_min is not the least')
            S.check(member(x, model), 'leftist: find_min is not an element')
        if op == 'insert':
            x = S.int('x%d' % i)
            h.insert(x)
            model.append(x)
        elif op == 'delete':
            x = h.delete_min()
            if model:
                take(S, model, x, 'leftist: delete_min')
            else:
                S.check(x is None, 'leftist: delete_min of an empty heap')
        else:
            more = S.ints('y%d_' % i, S.choice('k%d' % i, [0, 1] if n + ops > 3 else [0, 1, 2]))
            h.merge(m.LeftistHeap(list(more)))
            model += more
    drain(S, h, model, 'leftist')


@harness('D01', t=150, quick=[dict(n=n, ops=k) for n, k in ((0, 3), (1, 3), (2, 3), (3, 2), (4, 1), (5, 0))],
         thorough=[dict(n=n, ops=k) for n, k in ((0, 5), (1, 5), (2, 4), (3, 3), (4, 2), (5, 1), (6, 0))])
def pairing(S, n, ops):
    pairing_run(S, n, ops)


@harness('D01', t=200, quick=[dict(n=n, ops=len(w), up=up, word=w) for up in (True, False) for n, w in ((4, ['decrease'] * 2), (5, ['decrease'] * 2), (3, ['decrease'] * 3), (5, ['delete', 'decrease']), (6, ['decrease'] * 2), (5, ['delete', 'decrease', 'decrease']),
                                                                                                  (4, ['delete', 'decrease', 'decrease']))],
         thorough=[dict(n=n, ops=len(w), up=up, word=w) for up in (True, False) for n, w in ((4, ['decrease'] * 3), (6, ['decrease'] * 2), (6, ['delete', 'decrease']), (5, ['delete', 'decrease', 'decrease']),
                                                                                             (4, ['decrease', 'decrease', 'delete', 'decrease']))])
def pairing_ordered(S, n, ops, up, word):
    """Keys inserted in increasing or decreasing order, then the listed kinds of operations."""
    pairing_run(S, n, ops, up, word)


def pairing_run(S, n, ops, up=None, word=None):
    m = S.mod(H)
    h = m.PairingHeap()
    model = {'v%d' % i: S.int('k%d' % i) for i in range(n)}
    if word:
        ks = list(model.values())
        S.assume(increasing(ks if up else ks[::-1], True))
        h.insert_values([(k, v) for v, k in model.items()])
    elif S.bool('bulk'):
        h.insert_values([(k, v) for v, k in model.items()])
    else:
        for v, k in model.items():
            h.insert(k, v)

    def pop():
        node = h.delete_min()
        if not model:
            S.check(node is None, 'pairing: delete_min of an empty heap')
            return
        S.check(node is not None and node.value in model, 'pairing: delete_min is not an element')
        S.check(node.key == model[node.value], 'pairing: delete_min has another key')
        S.check(all_f(node.key <= k for k in model.values()), 'pairing: delete_min is not the least')
        del model[node.value]
        return node.key

    for i in range(ops):
        kinds = ['insert', 'delete'] + ['decrease ' + v for v in model]
        op = S.choice('op%d' % i, [k for k in kinds if not word or k.startswith(word[i])])
        if op == 'insert':
            k = S.int('x%d' % i)
            h.insert(k, 'w%d' % i)
            model['w%d' % i] = k
        elif op == 'delete':
            pop()
        else:
            v = op.split()[1]
            k = S.int('x%d' % i)
            S.assume(k <= model[v])
            h.decrease_key(v, k)
            model[v] = k
        els = h.list_elements()
        S.check(len(els) == len(model) and {v for _, v in els} == set(model), 'pairing: list_elements')
        S.check(all_f(k == model[v] for k, v in els), 'pairing: keys in list_elements')
    out = [pop() for _ in range(len(model))]
    S.observe(out)
    S.check(h.delete_min() is None, 'pairing: elements left over')


def plan(seed, length, ops):
    """A fixed word of operations."""
    r = random.Random(seed)
    return [r.choice(ops) for _ in range(length)], r


@harness('D01', t=100, quick=[dict(seed=s, n=n, length=k) for s, n, k in ((1, 8, 10), (2, 12, 8), (3, 0, 14), (4, 15, 6), (5, 5, 14))], thorough=[dict(seed=s, n=n, length=k, j=3) for s, n, k in ((6, 10, 14), (7, 16, 10), (8, 7, 20), (9, 20, 8))])
def leftist_long(S, seed, n, length, j=2):
    """A long history; a few of the keys are symbolic."""
    m = S.mod(H)
    word, r = plan(seed, length, ['insert', 'delete', 'delete', 'merge'])
    total = n + 3 * length
    sym = set(r.sample(range(n or 6), j))
    keys = iter([S.int('k%d' % i, 0, 30) if i in sym else r.randint(0, 30) for i in range(total)])
    model = [next(keys) for _ in range(n)]
    h = m.LeftistHeap(list(model))
    for op in word:
        if op == 'insert':
            x = next(keys)
            h.insert(x)
            model.append(x)
        elif op == 'delete':
            x = h.delete_min()
            if model:
                take(S, model, x, 'leftist: delete_min')
            else:
                S.check(x is None, 'leftist: delete_min of an empty heap')
        else:
            more = [next(keys) for _ in range(r.randint(0, 3))]
            h.merge(m.LeftistHeap(list(more)))
            model += more
        S.check(len(h) == len(model), 'leftist: size')
        if model:
            x = h.find_min()
            S.check(all_f(x <= y for y in model) and member(x, model), 'leftist: find_min')
    drain(S, h, model, 'leftist')


@harness('D01', t=100, quick=[dict(seed=s, n=n, length=k) for s, n, k in ((1, 8, 10), (2, 12, 8), (3, 0, 14), (4, 9, 12), (5, 15, 6))], thorough=[dict(seed=s, n=n, length=k, j=3) for s, n, k in ((6, 10, 14), (7, 16, 10), (8, 7, 20), (9, 20, 8))])
def pairing_long(S, seed, n, length, j=2):
    m = S.mod(H)
    word, r = plan(seed, length, ['insert', 'delete', 'decrease', 'decrease'])
    h, model = m.PairingHeap(), {}
    sym = set(r.sample(range(n + length), j))
    for i in range(n + length):
        op = word[i - n] if i >= n else 'insert'
        fresh = S.int('k%d' % i, -10, 40) if i in sym else r.randint(0, 30)
        if op == 'insert':
            h.insert(fresh, i)
            model[i] = fresh
        elif op == 'delete' or not model:
            node = h.delete_min()
            if not model:
                S.check(node is None, 'pairing: delete_min of an empty heap')
                continue
            S.check(node.key == model[node.value] and all_f(node.key <= k for k in model.values()), 'pairing: delete_min')
            del model[node.value]
        else:
            v = r.choice(sorted(model))
            if i in sym:
                S.assume(fresh <= model[v])
            else:
                fresh = model[v] - r.randint(0, 12)
            h.decrease_key(v, fresh)
            model[v] = fresh
        els = h.list_elements()
        S.check(len(els) == len(model) and {v for _, v in els} == set(model) and all_f(k == model[v] for k, v in els), 'pairing: list_elements')
    while model:
        node = h.delete_min()
        S.check(node is not None and node.value in model, 'pairing: delete_min is not an element')
        S.check(node.key == model[node.value] and all_f(node.key <= k for k in model.values()), 'pairing: delete_min')
        del model[node.value]
    S.check(h.delete_min() is None, 'pairing: elements left over')
