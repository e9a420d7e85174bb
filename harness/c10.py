"""C10: type analysis and usefulness analysis (spec/Types.tla)."""
import random, itertools
from trans import *
from c25 import guard
from c09 import outs
from dyna.term import term_vars

SR = 'bool'
LAST = []


def _watch():
    "remember the analyzer that is running, to look at its chart if it never finishes"
    from dyna.analyze.types import TypeAnalyzer
    if not hasattr(TypeAnalyzer, '_seen'):
        run = TypeAnalyzer.step
        def step(self):
            LAST[:] = [self]
            return run(self)
        TypeAnalyzer.step = step
        TypeAnalyzer._seen = True


# facts about the parameters, with what makes data obey them
THEORY = {
    'sub': ('tn(X) :- tk(X).', lambda d: d['n'].update(d['k'])),
    'disj': ('$fail :- tn(X), tm(X).', lambda d: d['m'].difference_update(d['n'])),
    'memb': ('tn(1).', lambda d: d['n'].add((1,))),
    'notmemb': ('$fail :- tm(1).', lambda d: d['m'].discard((1,))),
    'sing': ('X=1 :- tk(X).', lambda d: d['k'].intersection_update({(1,)})),
    'fundep': ('Y=Z :- tr(X,Y), tr(X,Z).', lambda d: d.__setitem__('r', {t for t in d['r'] if t == min(u for u in d['r'] if u[0] == t[0])})),
    'irr': ('$fail :- tr(X,X).', lambda d: d.__setitem__('r', {t for t in d['r'] if t[0] != t[1]})),
    'dom': ('tn(X) :- tr(X,Y).', lambda d: d['n'].update({(t[0],) for t in d['r']})),
    'ord': ('(X<Y) :- tr(X,Y). (I<K) :- (I<J), (J<K). $fail :- (I<I).', lambda d: d.__setitem__('r', {t for t in d['r'] if t[0] < t[1]})),
}


def typed_inputs(g, r, theory):
    """A declaration of the inputs by parameter types and data that agrees with it"""
    decl = {}
    for f, a in g.edb.items():
        if f == 'lst': continue
        if a == 2 and r.random() < .35: decl[f] = [['tr(A,B)']] if r.random() < .7 else [['tr(A,B)', 'tn(A)']]
        else:
            decl[f] = [[f't{r.choice("nmk")}({v})' for v in 'AB'[:a]] for _ in range(r.choice([1, 1, 2]))]
            if a == 2 and r.random() < .25 and not isinstance(g, Struct): decl[f][0] = decl[f][0] + ['(A < B)']
    wrap = {f: [r.choice(['{}', '{}', '{}', 'f({})']) if isinstance(g, Struct) else '{}' for _ in range(a)] for f, a in g.edb.items()}
    text = ''
    for f, alts in decl.items():
        for cs in alts:
            args = [w.format(v) for w, v in zip(wrap[f], 'AB')]
            text += f'{f}({",".join(args)}) += {" * ".join(cs)}.\n'
    if 'lst' in g.edb: text += 'lst([X]) += tn(X).\nlst([X,Y]) += tr(X,Y).\nlst([]) += 1.\n'
    text += 'inputs: tn(_); tm(_); tk(_); tr(_,_); (_ < _).'
    def data():
        d = {x: {(c,) for c in (1, 2, 3) if r.random() < .6} for x in 'nmk'}
        d['r'] = {(x, y) for x in (1, 2, 3) for y in (1, 2, 3) if r.random() < .35}
        for _ in range(3):
            for t in theory: THEORY[t][1](d)
        ev = lambda c, e: (eval(c, {}, e) if '<' in c else tuple(e[v] for v in c[3:-1].split(',')) in d[c[1]])
        out = []
        for f, alts in decl.items():
            for cs in alts:
                for x in itertools.product((1, 2, 3), repeat=g.edb[f]):
                    if all(ev(c, dict(zip('AB', x))) for c in cs) and r.random() < .7:
                        out.append(f'{f}({",".join(w.format(v) for w, v in zip(wrap[f], x))}).')
        if 'lst' in g.edb:
            out += [f'lst([{x}]).' for x, in d['n']] + [f'lst([{x},{y}]).' for x, y in sorted(d['r'])[:3]] + ['lst([]).']
        facts = [f't{x}({",".join(map(str, t))}).' for x in d for t in sorted(d[x])]
        return '\n'.join(sorted(set(out))), '\n'.join(facts)
    return text, data


def vars_in(t):
    return [t[1]] if t[0] == '?' else [] if t[0] == '#' else [v for x in t[1:] for v in vars_in(x)]


def cut(t, d=12):
    "types that keep growing are deep enough here"
    return ['deep'] if d == 0 else t if t[0] in '?#' else [t[0]] + [cut(x, d - 1) for x in t[1:]]


FREE_ANY = """
outputs: v2(_).
inputs: ext(_).
v1(V,W).
v1(X,f(X)) += ext(X).
v1(A,f(B)) += v1(A,B).
v2(W) += v1(A,W) * v1(W,B).
"""


def one(a):
    id, seed = a
    r = random.Random(seed)
    kind = r.choice(['flat', 'struct', 'nong', 'nong', 'inputs', 'sinputs', 'typed', 'typed', 'typed', 'styped', 'tall'])
    itype, rewrites, theory = None, '', []
    datas = [('', '')]
    if kind == 'flat': g = Flat(r, builtins=True, maxrules=4, nfacts=(1, 3)); t = g.text()
    elif kind == 'nong': g = Flat(r, nonground=True, maxrules=4, nfacts=(1, 2), consts=(1, 2)); t = g.text()
    elif kind == 'struct': g = Struct(r, nfacts=(1, 3)); t = g.text()
    elif kind == 'tall':       # terms that keep growing: the items do so only while the data lasts
        g = Struct(r, nfacts=(1, 2))
        g.idb.update(tall=2)
        g.edb.update(step=2)
        t = '\n'.join(g.facts + g.rules) + '\n' + r.choice([
            'tall(X,z) += step(X,_). tall(Y,s(N)) += tall(X,N) * step(X,Y).',
            'tall(X,[]) += step(X,_). tall(Y,[X|N]) += tall(X,N) * step(X,Y).',
            'tall(X,X) += step(X,_). tall(Y,f(N,X)) += tall(X,N) * step(X,Y).',
            'tall(X,[Y]) += step(X,Y). tall(Y,[Z,A|N]) += tall(X,[A|N]) * step(X,Y) * step(Y,Z). tall(X,N) += tall(X,[A,B|N]).',
            'tall(X,T) += step(X,X) * 2. tall(Y,g(N,M)) += tall(X,N) * tall(X,M) * step(X,Y).'])
        steps = '\n'.join(f'step({x},{x + 1}).' for x in range(1, r.choice([2, 3, 4, 4])))
        if r.random() < .5: t += '\n' + steps
        else:
            t = 'inputs: step(_,_).\n' + t
            datas = [(steps, ''), ('step(1,1).' if 'X,X) * 2' not in t else 'step(1,1). step(1,2).', '')]
    else:
        g = Struct(r) if kind in ('sinputs', 'styped') else Flat(r, builtins=r.random() < .3, nonground=r.random() < .2, maxrules=4, maxbody=r.choice([3, 3, 4]))
        t = with_inputs(g)
        if kind in ('inputs', 'sinputs'): datas = [(random_facts(g, r), '') for _ in range(2)]
        else:
            theory = r.sample(sorted(x for x in THEORY if x != 'ord' or kind == 'typed'), r.choice([0, 1, 1, 2, 3]))
            itype, data = typed_inputs(g, r, theory)
            rewrites = '\n'.join(THEORY[x][0] for x in theory)
            datas = [data() for _ in range(3)]
    if kind not in ('typed', 'styped') and r.random() < .4:      # items with variables in and next to structure
        g.idb.update(v1=2)
        t += '\n' + '\n'.join(r.sample(['v1(X,W) += ext(X).', 'v1(W,f(W)) += ext(X).', 'v1(X,f(X)) += ext(X).', 'v1(V,W).'], r.choice([1, 1, 2])) + r.sample([
            'v2(X) += v1(1,f(X)).', 'v2(Y) += v1(X,g(Y,1)).', 'v2(W) += v1(A,W) * v1(W,B).', 'v1(X,Y) += v1(Y,X) * ext(Y).', 'v2(X) += v1(X,X).',
            'v1(A,f(B)) += v1(A,B).', 'v2(f(X)) += v1(f(X),Y) * v2(Y).'], 3))
        g.idb.update(v2=1)
        if kind in ('inputs', 'sinputs'):
            t = t.replace('.', '; ext(_).', 1)
            datas = [(d + '\n' + ' '.join(f'ext({x}).' for x in r.sample(['1', '2', 'f(1)', 'g(1,2)'], 2)), fs) for d, fs in datas]
        else: t += '\next(1). ext(f(2)).'
    if r.random() < .25:       # a long body
        fs = [f'{f}({",".join(r.choice("XYZUVABC") for _ in range(n))})' if n else f for f, n in [*g.idb.items(), *g.edb.items()] if f not in ('v1', 'v2', 'tall', 'step', 'lst', 'sub', 'm')]
        b = [r.choice(fs) for _ in range(r.choice([2, 3, 4, 5]))]
        if r.random() < .6:        # one of its subgoals becomes derivable after the others, wherever it stands
            chain = r.choice([1, 2, 3])
            x = r.choice(b)
            v = sorted(set(x) & set('XYZUVABC')) or ['1']
            t += f'\nlate1({v[0]}) += {x}.' + ''.join(f'\nlate{k + 1}(X) += late{k}(X).' for k in range(1, chain))
            b.insert(r.choice([len(b), len(b), r.randrange(len(b) + 1)]), f'late{chain}({r.choice(v)})')
            g.idb.update({f'late{k}': 1 for k in range(1, chain + 1)})
        v = [x for x in "XYZUVABC" if x in ' '.join(b)]
        t += f'\nlong({v[0] if v else 1}) += {" * ".join(b)}.'
        if r.random() < .5: t += f'\n{r.choice(sorted(f"{f}(" + ",".join("Z" for _ in range(n)) + ")" if n else f for f, n in g.idb.items() if f in t and f[0] == "p") or ["pp"])} += long(Z).'
        g.idb['long'] = 1
    strict = id == 'free-any'
    if strict: kind, t, itype, rewrites, datas = 'nong', FREE_ANY, None, '', [('ext(2).', '')]
    what = r.choice(['possible', 'possible', 'useful'])
    if strict: what = 'possible'
    else: t = outs(g, r) + t
    opts = dict(basic=r.random() < .6, max_depth=r.choice([1, 2, 3, 5]) if kind != 'flat' else 5, use_insts=r.random() < .8)
    if strict: opts = dict(basic=False, max_depth=3, use_insts=True)
    if what == 'useful': opts['max_depth'] += 1     # $useful(.) is a level too
    base = dict(id=id, kind=what, status='ok', P=[], facts=[], types=[], outs=[], insts='none', depth=opts['max_depth'], text=t[:1500], itype=(itype or '') + '|' + rewrites, opts=str(opts))
    _watch()
    LAST.clear()
    with guard(base, 6):
        p = lifted(t, SR)
        if what == 'possible': S = p.type_analysis(itype, rewrites=rewrites, **opts)
        else: S = p.usefulness_analysis(input_type=itype, rewrites=rewrites, **opts)
        base['types'] = []
        for x in S.chart:
            e = enc_rule(x, SR)
            base['types'].append(dict(h=cut(e['h']), c=e['b']))
        if opts['use_insts']:
            # a head variable without constraints may be anything: known finding `free-any'
            anys = any(set(vars_in(x['h'])) - {v for k in x['c'] for v in vars_in(k)} for x in base['types'])
            base['insts'] = 'strict' if strict or not anys else 'bound'
        base['outs'] = [enc_rule(x, SR)['h'] for x in p.outputs]
    if base['status'] == 'no answer' and LAST:
        x = dict(base, id=f'{id}.unfinished', kind='unfinished', status='ok', data='', params='')
        with guard(x, 10): x['types'] = [dict(h=cut(e['h']), c=e['b'] if cut(e['h']) == e['h'] else []) for e in (enc_rule(y, SR) for y in LAST[0].chart.rules[:60])]
        return [x]
    out = []
    for k, (d, fs) in enumerate(datas):
        c = dict(base, id=f'{id}.{k}', data=d[:400], params=fs[:400])
        if c['status'] == 'ok':
            with guard(c, 20):
                c['P'] = enc_program(p, SR) + (enc_program(lifted(d, SR), SR) if d else [])
                c['facts'] = [enc_rule(x, SR)['h'] for x in Program(fs)] if fs else []
        out.append(c)
    return out


def run(chk):
    model_check(chk, 'TypesMC', ['TypeOK', 'Antichain', 'Shallow', 'Sound'], spec='Spec',
                extra=f'PROPERTY Grows\nPROPERTY Halts\nCONSTANT Rules = {3 if not THOROUGH else 4}\nCONSTANT Depths = {{1, 2}}\nCONSTANT Len0 = 4\n')
    n = 3500 if not THOROUGH else 20000
    res = [c for cs in pmap(one, [(f'{SEED}-{k}', f'c10-{SEED}-{k}') for k in range(n)] + [('free-any', '')], chunksize=4) for c in cs]
    for c in res:
        if c['status'] in ('no answer', 'skip'): chk.note(c['status'])
        chk.note('judged: ' + c['kind'])
    res = [c for c in res if c['status'] not in ('no answer', 'skip')]
    for j in range(0, len(res), 3000): chk.judge('TypesTrace', res[j:j + 3000], lambda c: c['id'], samples='data sets judged')
