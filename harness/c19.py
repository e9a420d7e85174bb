"""C19: the bucket queue (spec/BucketQueue.tla, BucketMC.tla, BucketTrace.tla)."""
import random, itertools
from lib import *
import sys
sys.path.insert(0, REPO)
from dyna.util.bucket_queue import BucketQueue


def run_history(ops, ids):
    q = BucketQueue()
    its = {}
    h = []
    it = lambda x: ids[x]
    back = {v: k for k, v in ids.items()}
    for op in ops:
        try:
            with limit(2):
                o = op[0]
                if o == 'set': q[it(op[1])] = op[2]; h.append(['set', op[1], op[2], 'ok'])
                elif o == 'setbad':
                    try: q[it(op[1])] = 1.5; h.append(['setbad', op[1], 'accepted'])
                    except TypeError: h.append(['setbad', op[1], 'TypeError'])
                elif o == 'del':
                    try: del q[it(op[1])]; h.append(['del', op[1], 'ok'])
                    except KeyError: h.append(['del', op[1], 'KeyError'])
                elif o == 'get':
                    try: h.append(['get', op[1], [q[it(op[1])]]])
                    except KeyError: h.append(['get', op[1], []])
                elif o == 'in': h.append(['in', op[1], it(op[1]) in q])
                elif o == 'len': h.append(['len', len(q)])
                elif o == 'pop':
                    x = q.popitem()
                    h.append(['pop', [] if x is None else [back[x[0]], x[1]]])
                else:
                    if op[1] not in its: its[op[1]] = iter(q) if o == 'next' else q.items()
                    x = next(its[op[1]], None)
                    h.append([o, op[1], [] if x is None else [back[x]] if o == 'next' else [back[x[0]], x[1]]])
        except CaseTimeout:
            h.append(['del', '!no answer', o]); break
        except Exception as e:
            h.append(['del', '!' + type(e).__name__, o]); break
    return h


def full(ops):
    "observe everything after every operation"
    out = []
    for op in ops:
        out.append(op)
        out += [('len',)] + [('get', x) for x in 'ab']
    return out


def run(chk):
    model_check(chk, 'BucketMC', ['TypeOK', 'LowerBound', 'Refines'])
    names = {'a': 'a', 'b': 'b'}
    cases = []
    alphabet = [('set', x, p) for x in 'ab' for p in (-1, 0, 2)] + [('del', 'a'), ('pop',), ('next', 'i'), ('nextitem', 'j')]
    depth = 4 if not THOROUGH else 5
    for n in range(1, depth + 1):
        if n < depth and n > 1: continue
        for seq in itertools.product(alphabet, repeat=n):
            cases.append(dict(id='all-' + '.'.join(''.join(map(str, o)) for o in seq), ops=run_history(full(seq), names)))
    for k in range(3000 if not THOROUGH else 30000):
        r = random.Random(f'c19-{SEED}-{k}')
        kind = r.randrange(3)
        items = 'abcdef'[:r.randint(2, 6)]
        ids = {'str': lambda x: x, 'tup': lambda x: (x, 1), 'int': lambda x: ord(x)}[r.choice(['str', 'tup', 'int'])]
        ids = {x: ids(x) for x in 'abcdef'}
        lo, hi = r.choice([(0, 3), (-3, 3), (-100, 100), (0, 0), (0, 1000)])
        ops = []
        last = lo
        for _ in range(r.randint(5, 40)):
            z = r.random()
            x = r.choice(items)
            if z < .4:
                last = r.randint(lo, hi) if kind == 0 else max(lo, last - r.randint(0, 2)) if kind == 1 else min(hi, last + r.randint(0, 2))
                ops.append(('set', x, last))
            elif z < .5: ops.append(('del', x))
            elif z < .6: ops.append(('get', x))
            elif z < .66: ops.append(('in', x))
            elif z < .72: ops.append(('len',))
            elif z < .86: ops.append(('pop',))
            elif z < .93: ops.append(('next', r.choice('ij')))
            elif z < .99: ops.append(('nextitem', r.choice('kl')))
            else: ops.append(('setbad', x))
        for _ in range(len(items) + 1): ops += [('pop',), ('len',)]
        cases.append(dict(id=f'rand-{SEED}-{k}', ops=run_history(ops, ids)))
    for i in range(0, len(cases), 8000):
        chk.judge('BucketTrace', cases[i:i + 8000], keyf=lambda c: c['id'], samples='queue histories judged')
