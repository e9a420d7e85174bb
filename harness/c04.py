"""C04: bounded rounds and discarding priorities (spec/Bounded.tla)."""
import random
from lib import *
from enc import *
from gen import *


def attempt(f, srn, **kw):
    try:
        with limit(10):
            return dict(status='ok', sol=enc_sol(f(), srn), **kw)
    except CaseTimeout:
        return dict(status='no answer', sol=[], **kw)
    except Exception as e:
        return dict(status=f'{type(e).__name__}: {str(e)[:200]}', sol=[], **kw)


def rounds(a):
    id, text, srn, nonground, newton, ks, finite = a
    p = lifted(text, srn)
    ep = enc_program(p, srn)
    sr = SEMIRINGS[srn][1]
    D = domain_of(ep, extra=(max(1, sr['n']) if sr['k'] == 'sat' else 1)) if nonground else []
    runs = []
    L = (lambda f: [enc_sol(f(), srn)]) if finite else (lambda f: [])
    def add(name, kind, f, lim):
        sols = [attempt(lambda: f(k), srn, k=k) for k in ks]
        try:
            with limit(10): limit_ = L(lim)
        except Exception as e:
            limit_ = []
            sols.append(dict(status=f'limit: {type(e).__name__}: {str(e)[:200]}', sol=[], k=ks[-1]))
        runs.append(dict(name=name, kind=kind, sols=sols, limit=limit_))
    new = lambda: lifted(text, srn)
    add('fc', 'exact', lambda k: new().fc(max_iter=k), lambda: new().fc())
    add('seminaive', 'exact', lambda k: new().seminaive(T=k), lambda: new().seminaive())
    add('agenda', 'part', lambda k: new().agenda(max_iter=2 * k), lambda: new().agenda())
    if newton:
        add('newton', 'atleast', lambda k: new().newton(T=k + 1), lambda: new().newton())
        for s in runs[-1]['sols']: s['k'] = s['k'] + 1
    return dict(id=id, text=text, mode='rounds', finite=finite, sr=sr, prog=ep, dom=D, runs=runs)


def depth(t):
    return 1 if not isinstance(t, Term) or not t.args else 1 + max(depth(snap(x)) for x in t.args)


def discard(a):
    id, text, srn, seed, maxdepth, which = a
    r = random.Random(seed)
    p = lifted(text, srn)
    if which == 'solver2': p = p.linearize()
    ep = enc_program(p, srn)
    drop = []
    if not maxdepth:
        with limit(10): support = [x['h'] for x in enc_sol(p.solver()().sol(), srn)]
        support.sort(key=json.dumps)
        if support: drop = r.sample(support, min(len(support), r.choice([0, 1, 1, 2, 3, len(support) // 2])))
    runs = []
    for name in ['const', 'random', 'bucket', 'split']:
        from dyna.util.bucket_queue import BucketQueue
        rr = random.Random(seed)
        def prio(t):
            if maxdepth:
                if depth(t) > maxdepth: return None
            elif enc_term(t, VarNames()) in drop: return None
            return {'const': 1, 'random': rr.choice([-2, 0, 3]), 'bucket': rr.choice([0, 1, 5]), 'split': rr.random()}[name]
        def go():
            q = p
            if name == 'split':       # the facts arrive as data; discarding applies to them as well
                data = Program([x for x in p.rules if x.is_const()], semiring=p.semiring)
                q = Program([x for x in p.rules if not x.is_const()], semiring=p.semiring)
            kw = dict(priority=prio)
            if name == 'bucket': kw['AgendaType'] = BucketQueue
            s = (q.solver if which == 'solver' else q.solver2)(**kw)
            if name == 'split': s(data)
            else: s()
            return s.sol()
        runs.append(attempt(go, srn, name=f'{which}-{name}'))
    return dict(id=id, text=text, mode='discard', sr=SEMIRINGS[srn][1], prog=ep, dom=[], drop=drop, depth=maxdepth, runs=runs)


DEEP = {
    'nat': 'n(z) += 1. n(s(X)) += n(X). two(X) += n(X) * n(X) * n(s(X)).',
    'tree': 't(l) += 1. t(l) += w. t(b(X,Y)) += t(X) * t(Y). w += 1. sub(X) += t(b(X,X)).',
    'list': 'xs([]) += 1. xs([a|X]) += xs(X). xs([b|X]) += 2 * xs(X). last(X) += xs([X]).',
    'mutual': 'e(z) += 1. o(s(X)) += e(X). e(s(X)) += o(X). d(X,Y) += e(X) * o(Y) * e(X).',
}


def run(chk):
    todo, dis = [], []
    n = 900 if not THOROUGH else 8000
    for k in range(n):
        r = random.Random(f'c04-{SEED}-{k}')
        ng = r.random() < .25
        bi = not ng and r.random() < .25
        g = Flat(r, nonground=ng, builtins=bi, maxrules=4, nfacts=(2, 4))
        srn = r.choice(['sat3', 'sat7', 'bool', 'min', 'bot'])
        ks = sorted(r.sample(range(0, 7), 3))
        todo.append((f'r{SEED}-{k}-{srn}', g.text(), srn, ng, not ng and not bi and r.random() < .7, ks, True))
        g = Flat(r, builtins=r.random() < .3, maxrules=5, nfacts=(2, 4))
        for w in ['solver', 'solver2']:
            dis.append((f'd{SEED}-{k}-{w}-{srn}', g.text(), srn, f'{SEED}-{k}', 0, w))
    for n_, (p, ds) in list(CATALOG.items()) + list(NONGROUND.items()):
        for j, d in enumerate(ds):
            for srn in ['sat5', 'min']:
                todo.append((f'{n_}-{j}-{srn}', p + d, srn, n_ in NONGROUND, n_ not in NONGROUND and n_ not in ('fib', 'count', 'lists'), [0, 1, 2, 3, 4, 5, 6], True))
                if n_ not in NONGROUND:
                    for s in range(3):
                        for w in ['solver', 'solver2']: dis.append((f'd{n_}-{j}-{srn}-{s}-{w}', p + d, srn, f'{SEED}-{s}', 0, w))
    for n_, t in DEEP.items():      # programs with infinitely many items
        todo.append((f'deep-{n_}', t, 'sat7', False, False, [0, 1, 2, 3], False))
        for srn in ['sat3', 'sat7', 'min', 'bool']:
            for dep in [1, 2, 3] + [4] * (n_ != 'tree'):
                for w in ['solver', 'solver2']: dis.append((f'deep-{n_}-{srn}-{dep}-{w}', t, srn, f'{SEED}', dep, w))
    cases = pmap(rounds, todo, chunksize=8) + pmap(discard, dis, chunksize=8)
    for i in range(0, len(cases), 3000):
        chk.judge('Bounded', cases[i:i + 3000], keyf=lambda c: c['id'])
    chk.note('bounded runs', sum(len(r['sols']) for c in cases if c['mode'] == 'rounds' for r in c['runs']))
    chk.note('runs with discarded items', sum(len(c['runs']) for c in cases if c['mode'] == 'discard'))
