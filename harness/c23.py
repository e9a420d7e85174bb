"""C23: program search offers only equivalent programs and reports the best one (spec/Equiv.tla, SearchMC.tla, SearchTrace.tla)."""
import math
import random
from trans import *
from c25 import guard
from c08 import out_decl
from dyna.search import AgendaBasedSearch

TEMPLATES = [
    ('inputs: start(I); edge(I,J); stop(I).', 'path(I,I) += start(I). path(I,K) += path(I,J) * edge(J,K). goal += start(I) * path(I,K) * stop(K).', 'goal', dict(start=1, edge=2, stop=1)),
    ('inputs: a(X); b(X,Y); c(X,Y).', 'goal += a(X) * b(X,Y) * c(Y,Z) * a(Z).', 'goal', dict(a=1, b=2, c=2)),
    ('inputs: a(X); b(X,Y).', 'p(X) += a(X). p(X) += b(X,Y) * p(Y). q(X) += b(X,Y) * b(Y,Z) * p(Z). goal += q(X) * a(X).', 'goal', dict(a=1, b=2)),
    ('inputs: a(X); b(X,Y).', 'p(X,Y) += b(X,Y). p(X,Z) += p(X,Y) * b(Y,Z) * a(Z). goal(Z) += a(X) * p(X,Z).', 'goal(_)', dict(a=1, b=2)),
    ('inputs: w(X); e(X,Y).', 'd(X) += w(X). d(Y) += d(X) * e(X,Y). s += d(X) * w(X). t(X) += s * d(X) * d(Y) * e(X,Y).', 's; t(_)', dict(w=1, e=2)),
    ('inputs: a; b; c.', 'x += a * b * c. y += x * a. y += b * x. z += y * y * x. z += a.', 'z', dict(a=0, b=0, c=0)),
    ('inputs: f(X,Y).', 'h(X) += f(X,Y) * f(Y,Z) * f(Z,W). g += h(X) * f(X,X).', 'g', dict(f=2)),
    ('inputs: a(X); b(X,Y).', 'p(1) += a(X). p(X) += b(X,1) * p(Y) * a(Y). r += p(1). r += p(X) * b(X,X). r += a(X) * a(Y).', 'r', dict(a=1, b=2)),
    ('inputs: f(X,Y); a(X).', 'x(X) += f(X,Y) * f(Y,Z) * a(Z). x(X) += f(Y,X) * f(Y,Z) * a(Y). g += x(X) * f(X,Y) * a(Y). g += x(Y) * f(X,Y) * a(X).', 'g; x(_)', dict(f=2, a=1)),
    ('inputs: f(X,Y); a(X).', 'g += a(X) * f(X,Y) * f(Y,Z) * f(Z,W) * a(W). h(W) += a(X) * f(X,Y) * f(Y,Z) * f(Z,W).', 'g; h(_)', dict(f=2, a=1)),
    ('inputs: word(X,I,K); len(N).', 'ph(X,I,K) += word(X,I,K). ph(X,I,K) += r(X,Y,Z) * ph(Y,I,J) * ph(Z,J,K). r(1,1,1). goal += ph(1,0,N) * len(N).', 'goal', dict(word=3, len=1)),
]
TR = [("fold*", "fold"), ('fold*', 'unfold', 'elim'), ('fold', 'unfold'), ('fold+',), ('fold', 'elim'), ('unfold', 'elim'), ('fold*',), ('fold+', 'unfold', 'elim'), ('noop', 'fold', 'elim')]
TR1 = TR + [('megafold', 'fold'), ('unfold', 'megafold'), ('lct',), ('spec',)]


def facts(ar, r):
    return '\n'.join(f'{f}' + (f'({",".join(str(r.choice([0, 1, 1, 2] if f in ("word", "len") else [1, 1, 2, 3])) for _ in range(n))})' if n else '') + f' += {r.choice([1, 1, 2])}.'
                     for f, n in ar.items() for _ in range(r.randint(1, 4) if n else 1))



def cost_of(q, how):
    if how == 'tidy': return list(map(int, q.prune_fast().degrees()))
    if how == 'degrees': return list(map(int, q.degrees()))
    return [how(q)]


def width(q): return sum(len(r.body) for r in q)
def length(q): return len(q.rules)


def search(p, kind, o):
    "the run of a search: the programs that it offered, the best one after each, and the final report"
    if kind == 'agenda':
        G = AgendaBasedSearch(p, **o['kw'])
        offered, best = [], []
        for x in G.run_agenda(o['steps']):
            offered.append(x)
            best.append(G.optimize_plans())
        pool = list(G.to_collection())
        return dict(offered=offered, best=best, final=G.optimize_plans(), pool=pool, top=[], costs=[], best_cost=None)
    B = p.beam(o['reps'], o['beam'], verbosity=0, **o['kw'])
    n = len(B.log)
    top = [(x['cost'], q) for x, q in B.top()]
    return dict(offered=[B.programs[x['i']] for x in B.log], best=[], final=B.best, pool=list(B.collection), top=top, costs=[x['cost'] for x in B.log],
                best_cost=B.best_cost)


def seq(c): return list(map(int, c)) if isinstance(c, tuple) else [int(c)]


def one(a):
    id, seed, kind = a
    r = random.Random(seed)
    srn = r.choice(['sat7', 'sat3', 'min', 'bot', 'bool'])
    if r.random() < .6:
        decl, rules, outs, ar = r.choice(TEMPLATES)
        text = f'{decl}\noutputs: {outs}.\n{rules}'
        datas = [facts(ar, r) for _ in range(2)]
    else:
        g = Flat(r, maxrules=3)
        t = with_inputs(g)
        datas = [random_facts(g, r) for _ in range(2)]
        text = f'outputs: {"; ".join(out_decl(Program(t), r))}.\n' + t
    if kind == 'agenda':
        o = dict(steps=r.choice([5, 15, 40]), kw=dict(p_greedy=r.choice([0., .25, .5, .75, 1.]), seed=r.choice([0, 1, 2, 3]), ALLOW_REVERSIBLE=r.random() < .3))
        how = 'tidy'
    else:
        graph = r.choice([1, 2])
        how = r.choice(['degrees', 'degrees', width, length])
        o = dict(reps=r.choice([5, 15, 40]), beam=r.choice([1, 2, 5]),
                 kw=dict(graph=graph, TRANSFORMS=r.choice(TR1 if graph == 1 else TR), tidy=r.random() < .6, max_depth=r.choice([2, 4, 10000])))
        if how != 'degrees': o['kw']['cost'] = how
    c = dict(id=id, status='ok', text=f'{srn} {kind} {o} {text}', kind=kind, events=[], again=[], init=[], pool=0, final=[], finalof=0, best_cost=[], top=[], reps=o.get('reps', 0))
    cases = []
    with guard(c, 25):
        p = lifted(text, srn)
        if any(x in str(o) for x in ('spec', 'lct')) and math.prod(1 + len(x.body) for x in p) > 40: return [], []
        keep = [enc_term(x.head, VarNames()) for x in p.outputs]
        R = search(p, kind, o)
        c['init'] = cost_of(p, how)
        ids = {}
        for q in [p, *R['offered']]: ids.setdefault(q, len(ids))
        costs = [cost_of(q, how) for q in R['offered']]
        for k, q in enumerate(R['offered']):
            b = R['best'][k] if kind == 'agenda' else None
            c['events'].append(dict(p=ids[q], cost=costs[k], said=seq(R['costs'][k]) if R['costs'] else costs[k],
                                    best=ids.get(b, -1) if b is not None else -2, bestcost=cost_of(b, how) if b is not None else []))
        c['final'], c['finalof'] = cost_of(R['final'], how), ids.get(R['final'], -1)
        c['best_cost'] = seq(R['best_cost']) if R['best_cost'] is not None else c['final']
        c['top'] = [dict(p=ids.get(q, -1), cost=seq(x)) for x, q in R['top']]
        c['pool'] = sum(1 for q in R['pool'] if q not in ids)
        R2 = search(lifted(text, srn), kind, o)
        c['again'] = [cost_of(q, how) for q in R2['offered']] if len(R2['offered']) == len(costs) else [[-1, len(R2['offered'])]]
        # each program must be equivalent to the original
        qs = list({id_: q for q, id_ in ids.items() if id_}.values())
        pick = r.sample(qs, min(len(qs), 12)) + [R['final']]
        for k, q in enumerate(pick):
            if len(q.rules) > 30: continue
            x = dict(status='ok')
            with guard(x, 10):
                cases.append(pair(f'{id}.{k}', c['text'], srn, p, q, datas, keep=keep, fns=sorted({h[0] for h in keep}), domitems=('lct' in str(o) or 'spec' in str(o))))
    return [c], cases


def run(chk):
    model_check(chk, 'SearchMC', ['TypeOK', 'BestIsMin', 'Monotone', 'OnlySafe', 'Budget', 'Exhaustive'], extra=f'CONSTANT N = {3 if not THOROUGH else 4}\nCONSTANT Width = 2\nCONSTANT Reps = 5\n')
    k = 1 if not THOROUGH else 12
    todo = [(f'{kind}-{SEED}-{j}', f'c23-{SEED}-{j}-{kind}', kind) for j in range(200 * k) for kind in ('agenda', 'beam')]
    res = pmap(one, todo, chunksize=1)
    runs = [c for a, _ in res for c in a]
    pairs = [c for _, b in res for c in b]
    for c in runs:
        if c['status'] == 'skip': chk.note('skipped', 1)
        else: chk.note('programs offered', len(c['events']))
    # how long a search takes is not judged (the moves of some are exponentially many)
    for c in runs:
        # a reversible fold need not have a measure, and then the search stops
        if c['status'].startswith('AssertionError') and "'ALLOW_REVERSIBLE': True" in c['text']: c['status'] = 'refused'
        # a rule that must be linearized before a variable is eliminated stops it too
        if 'call linearize before elim' in c['status']: c['status'] = 'refused'
        # a body that doubles with every step outgrows the stack, as it would outgrow the time
        if c['status'].startswith('RecursionError'): c['status'] = 'no answer'
        if c['status'] in ('no answer', 'refused'): chk.note(c['status'], 1)
    runs = [c for c in runs if c['status'] not in ('skip', 'no answer', 'refused')]
    chk.judge('SearchTrace', runs, lambda c: c['id'], samples='runs')
    for j in range(0, len(pairs), 3000): chk.judge('Equiv', pairs[j:j + 3000], lambda c: c['id'], samples='pairs judged')
