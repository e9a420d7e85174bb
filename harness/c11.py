"""C11: size and run-time bounds, degrees (spec/Bounds.tla)."""
import random, itertools, math
from trans import *
from c25 import guard
from c09 import outs
from c10 import THEORY, typed_inputs, SR
from dyna.term import term_vars
from dyna.analyze.runtime import type_bound, stype_bound, Simplify, Param
import sympy


def enc_bound(x):
    if isinstance(x, Param): x = x.x
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        return ['inf'] if math.isinf(x) else ['int', int(x)] if x == int(x) else _no(x)
    if x.is_Symbol: return ['sym', x.name]
    if x in (sympy.oo, sympy.Float('inf')): return ['inf']
    if x.is_Integer: return ['int', int(x)]
    if x.is_Float: return ['inf'] if x.is_infinite else _no(x)
    if x.is_Add: return ['add', *map(enc_bound, x.args)]
    if x.is_Mul: return ['mul', *map(enc_bound, x.args)]
    if isinstance(x, sympy.Min): return ['min', *map(enc_bound, x.args)]
    if x.is_Pow and x.args[1].is_Integer: return ['pow', enc_bound(x.args[0]), int(x.args[1])]
    return _no(x)


def _no(x): raise ValueError(f'bound {x!r} is not a polynomial')


def queries(p, S, r):
    "simple types to ask about: those of the chart, items of the program in general, items with constants"
    out = [x for x in S.chart if isinstance(x.head, Term)]
    heads = {(x.head.fn, len(x.head.args)) for x in out}
    for f, n in sorted(heads):
        vs = [Var(f'A{k}') for k in range(n)]
        out.append(Rule(Term(f, *vs)))
        if n: out.append(Rule(Term(f, *[v if r.random() < .6 else r.choice([1, 2, r.choice(vs)]) for v in vs])))
        if n and r.random() < .3: out.append(Rule(Term(f, *vs), Term('tn', vs[0])))
    return out


def one(a):
    id, seed = a
    r = random.Random(seed)
    kind = r.choice(['flat', 'struct', 'flat', 'free'])
    g = Struct(r) if kind == 'struct' else Flat(r, builtins=r.random() < .3, nonground=kind == 'free', maxrules=4, maxbody=r.choice([3, 3, 4]), nidb=3)
    theory = r.sample(sorted(x for x in THEORY if x != 'ord' or kind != 'struct'), r.choice([0, 0, 1, 2]))
    itype, data = typed_inputs(g, r, theory)
    rewrites = '\n'.join(THEORY[x][0] for x in theory)
    datas = [data() for _ in range(3)]
    t = outs(g, r) + with_inputs(g)
    opts = dict(basic=r.random() < .6, max_depth=r.choice([2, 3, 5]))
    fast = r.random() < .2
    c = dict(id=id, kind='bounds', status='ok', P=[], facts=[], size=['int', 0], bounds=[], rules=[], runtime=['int', 0],
             text=t[:1500], itype=itype + '|' + rewrites, opts=str(opts) + ('fast' if fast else ''))
    with guard(c, 15):
        p = lifted(t, SR)
        S = p.type_analysis(itype, rewrites=rewrites, **opts)
        c['size'] = enc_bound(S.size())
        for q in queries(p, S, r):
            vs = sorted(term_vars(q.head), key=str)
            if not term_vars(q.body) <= set(vs): continue
            vn = VarNames()
            e = dict(h=enc_term(q.head, vn), c=[enc_term(x, vn) for x in q.body])
            for V in itertools.chain.from_iterable(itertools.combinations(vs, k) for k in range(len(vs) + 1)):
                if len(vs) > 2 and r.random() < .4: continue
                b = type_bound(S, q, set(V))
                if r.random() < .5: b = Simplify(b)
                c['bounds'].append(dict(t=e, v=[vn.name(v) for v in V], bound=enc_bound(b)))
        for x in p:
            b = S.runtime(x, fast_mode=fast)
            if r.random() < .3: b = Simplify(b)
            c['rules'].append(dict(rule=enc_rule(x, SR), bound=enc_bound(b)))
        c['runtime'] = enc_bound(S.runtime(fast_mode=fast))
    out = []
    for k, (d, fs) in enumerate(datas):
        x = dict(c, id=f'{id}.{k}', data=d[:400], params=fs[:400])
        if x['status'] == 'ok':
            with guard(x, 20):
                x['P'] = enc_program(p, SR) + enc_program(lifted(d, SR), SR)
                x['facts'] = [enc_rule(y, SR)['h'] for y in Program(fs)]
        out.append(x)
        if x['status'] != 'ok': break
    return out


def degree_case(a):
    id, seed = a
    r = random.Random(seed)
    g = Flat(r, builtins=r.random() < .3, maxrules=5, nonground=r.random() < .2, maxbody=r.choice([2, 3, 4]))
    c = dict(id=id, kind='degree', status='ok', P=[], rules=[], degs=[], degree=0, degrees=[], text='')
    with guard(c, 20):
        if r.random() < .3:
            for s in range(20):
                g = Struct(r)
                if len(g.rules) < 8: break
        p = lifted(with_inputs(g), SR)
        what = r.choice(['', '', 'append', 'pop', 'fold', 'unfold', 'sum'])
        p.degree, p.degrees()            # what changes the program must not leave an old answer behind
        if what == 'append':
            for x in r.sample(list(p), 1): p.append(Rule(x.head, *x.body, Term('b0', *[Var('Q') for _ in range(g.edb['b0'])])))
        elif what == 'pop' and len(p) > 1: p.pop(r.randrange(len(p)))
        elif what == 'fold':
            q = r.choice([list(p.slow_folds()), [p]])[:5] if hasattr(p, 'slow_folds') else [p]
            p = r.choice(q) if q else p
        elif what == 'unfold':
            sp = [(i, k) for i, x in enumerate(p) for k, b in enumerate(x.body) if isinstance(b, Term) and b.fn in g.idb]
            if sp: p = p.unfold(*r.choice(sp))
        elif what == 'sum': p = p + Program('zz(A,B) += yy(A,C) * yy(C,D) * yy(D,E) * yy(E,B).')
        c['text'] = what + '\n' + str(p)[:1000]
        c['rules'] = enc_program(p, SR)
        c['degs'] = [x.analyzer.degree for x in p]
        c['degree'] = p.degree
        c['degrees'] = list(map(int, p.degrees()))
        full = []
        if not isinstance(g, Struct):
            for f, n in g.edb.items(): full += [f'{f}({",".join(map(str, x))}).' for x in itertools.product((1, 2), repeat=n)]
        c['P'] = c['rules'] + (enc_program(lifted('\n'.join(full), SR), SR) if full else [])
    return c


def run(chk):
    model_check(chk, 'BoundsMC', ['TypeOK', 'Enough0', 'Bound'], extra=f'CONSTANT Consts = {2 if not THOROUGH else 3}\n')
    n = 450 if not THOROUGH else 4000
    res = [c for cs in pmap(one, [(f'{SEED}-{k}', f'c11-{SEED}-{k}') for k in range(n)], chunksize=2) for c in cs]
    res += pmap(degree_case, [(f'deg-{SEED}-{k}', f'c11d-{SEED}-{k}') for k in range(n)], chunksize=4)
    for c in res: chk.note('judged: ' + c['kind'] if c['status'] not in ('no answer', 'skip') else c['status'])
    res = [c for c in res if c['status'] not in ('no answer', 'skip')]
    for j in range(0, len(res), 3000): chk.judge('BoundsTrace', res[j:j + 3000], lambda c: c['id'], samples='data sets judged')
