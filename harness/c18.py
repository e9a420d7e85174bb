"""C18: collections of types (spec/Collections.tla, CollectionsMC.tla, CollectionsTrace.tla)."""
import random, itertools
from enc import *
from lib import *
from c16 import build, rterm, rename, mutate
from dyna.term import NoDupsSet, MostGeneralSet, DisjointEstimate, covers, same, fresh, deref, term_vars, unify

SMALL = ['X', ('c',), ('f', 'X', 'Y'), ('f', 'X', 'X'), ('f', ('c',), 'X'), ('f', 'X', ('c',)), ('f', ('c',), ('d',)),
         ('f', ('g', 'X'), 'X'), ('f', 'X', ('g', 'Y')), ('g', 'X'), ('g', ('c',)), ('f', ('g', 'X'), ('g', 'X'))]
MAKE = dict(nodups=lambda xs: NoDupsSet(xs, same), general=lambda xs: MostGeneralSet(xs, covers), disjoint=DisjointEstimate)


def one(a):
    id, kind, init, ops, share, seed = a
    rng = random.Random(seed)
    pool = {}
    c = dict(id=id, kind=kind, ops=[], status='ok', text=f'{kind} {init} {ops} share={share}')
    e = lambda t: enc_term(deref(t), VarNames())
    def mk(t):
        t0 = build(t, pool if share else {})
        if share and rng.random() < .3:       # a variable of it is bound to another one (as in the middle of an enumeration)
            vs = list(term_vars(t0))
            if vs:
                w = Var('W'); w.value = vs[0]
                from c16 import subv
                t0 = subv(t0, {vs[0]: w})
        return t0
    first = [mk(t) for t in init]
    snaps = []
    try:
        with limit(20):
            o = MAKE[kind](first)
            # the constructor inserts in order; members are observed only afterwards
            obs = lambda: [e(m) for m in o]
            if init:
                # replayed on a twin so that every prefix is observed
                o2 = MAKE[kind]([])
                for t in first:
                    r = o2.add(t)
                    c['ops'].append(['add', e(t), [] if r is None else [bool(r)], [e(m) for m in o2]])
                c['ops'].append(['len', e(first[0]), [len(o)], obs()])
            for op, t in ops:
                t = mk(t)
                if op == 'add':
                    r = o.add(t); r = [] if r is None else [bool(r)]
                elif op in ('find', 'root'):
                    try: r = getattr(o, op)(t); r = [r] if op == 'find' else [e(r)]
                    except KeyError: r = []
                elif op == 'all': r = list(o.find_all(t)) if kind == 'disjoint' else None
                elif op == 'roots': r = [e(x) for x in o.roots(t)] if kind == 'disjoint' else None
                else: r = [len(o)]
                if r is None: continue
                c['ops'].append([op, e(t), r, obs()])
    except CaseTimeout:
        c['status'] = 'no answer'
    except Exception as ex:
        c['status'] = f'{type(ex).__name__}: {str(ex)[:200]}'
    return c


def run(chk):
    model_check(chk, 'CollectionsMC', ['Denotes', 'Disjoint', 'Antichain', 'CoversAll', 'OneRoot', 'RedundantRight', 'Least'],
                extra=f'CONSTANT Depth = {3 if not THOROUGH else 4}\n')
    todo = []
    for kind in MAKE:
        for seq in itertools.product(range(len(SMALL)), repeat=3):
            if THOROUGH or (seq[0] * 5 + seq[1] * 3 + seq[2] + SEED) % 2 == 0:
                ops = [('add', SMALL[k]) for k in seq]
                q = [(o, SMALL[(sum(seq) + n) % len(SMALL)]) for n, o in enumerate(['find', 'all', 'root', 'roots'])]
                todo.append((f'all-{kind}-{"-".join(map(str, seq))}', kind, [], ops + q, bool(sum(seq) % 2), str(seq)))
        for k in range(700 if not THOROUGH else 8000):
            r = random.Random(f'c18-{SEED}-{kind}-{k}')
            d = r.choice([1, 2, 2, 3])
            vs = r.choice(['XY', 'XYZ', 'XYZW'])
            def tm(prev):
                t = rterm(r, d, vs) if not prev or r.random() < .45 else r.choice(prev)
                for _ in range(r.choice([0, 1, 1, 2])): t = mutate(r, t, vs)
                if r.random() < .3: t = rename(t, dict(zip('XYZW', r.choice(['UVTS', 'YXWZ', 'XXYY']))))
                return t if r.random() < .06 or not (isinstance(t, str) and t[0].isupper()) else ('f', t)
            prev = []; ops = []
            for _ in range(r.randint(3, 9)):
                t = tm(prev); prev.append(t); ops.append(('add', t))
                for _ in range(r.choice([0, 0, 1, 2])):
                    ops.append((r.choice(['find', 'root', 'all', 'roots', 'len']), r.choice(prev) if r.random() < .4 else tm(prev)))
            n = r.choice([0, 0, 2, 3])
            init = [t for o, t in ops if o == 'add'][:n]
            todo.append((f'rnd-{SEED}-{kind}-{k}', kind, init, ops, r.random() < .5, f'{SEED}-{k}'))
    cases = pmap(one, todo, chunksize=64)
    chk.note('insertions', sum(1 for c in cases for o in c['ops'] if o[0] == 'add'))
    for i in range(0, len(cases), 3000):
        chk.judge('CollectionsTrace', cases[i:i + 3000], keyf=lambda c: c['id'], samples='collection histories judged')
