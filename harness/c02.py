"""C02: every inference engine computes the least fixpoint (spec/Engines.tla)."""
import random
from lib import *
from enc import *
from gen import *
from engines import run_engine

GROUND = ['solver', 'solver2', 'solve', 'agenda', 'seminaive', 'fc']


def case(args):
    text, srn, engines, opts = args
    p = lifted(text, srn)
    if opts.get('twice'): p = Program([r for r in p.rules for _ in range(2)] if opts['twice'] > 1 else list(p.rules) + p.rules[:1], semiring=p.semiring)
    ep = enc_program(p, srn)
    sr = SEMIRINGS[srn][1]
    D = domain_of(ep, extra=(max(1, sr['n']) if sr['k'] == 'sat' else 1) if opts.get('nonground') else 0)
    es = []
    for e in engines:
        q = lifted(text, srn)
        if opts.get('twice'):       # the same rule object several times, as in p + p
            q = Program([r for r in q.rules for _ in range(2)] if opts['twice'] > 1 else list(q.rules) + q.rules[:1], inputs=q.inputs, outputs=q.outputs, semiring=q.semiring)
        if opts.get('outputs'):
            q.set_output_types(opts['outputs'])
            q.set_input_types('')
        t0 = time.time()
        o = run_engine(q, e, srn)
        if time.time() - t0 > 3: print('slow', opts['id'], e, round(time.time() - t0, 1), file=sys.stderr)
        o['only'] = opts['only'] if e.startswith('scc') else functors(ep)
        es.append(o)
    return dict(id=opts['id'], text=text, srn=srn, sr=sr, prog=ep, dom=D, fns=functors(ep), engines=es,
                mode=opts.get('mode', 'lfp'))


def rand_cases(n, seed):
    out = []
    for k in range(n):
        r = random.Random(f'{seed}-{k}')
        kind = r.choice(['plain', 'plain', 'builtin', 'nong', 'int', 'scc', 'linear', 'infinite'])
        sr = r.choice(['sat3', 'sat5', 'bool', 'min', 'bot'])
        o = dict(id=f'{kind}-{seed}-{k}')
        if kind in ('plain', 'builtin') and r.random() < .15: o['twice'] = r.choice([1, 2])
        if kind == 'nong':
            out.append((Flat(r, nonground=True, eqs=r.random() < .3).text(), sr,
                        ['solver2', 'solve', 'agenda', 'seminaive', 'fc'], dict(o, nonground=True)))
        elif kind == 'int':
            g = Flat(r, cyclic=False, maxbody=3, builtins=r.random() < .4)
            out.append((g.text(), 'int', GROUND, o))
        elif kind == 'scc':
            g = Flat(r, builtins=False, nidb=3)
            f = r.choice(sorted(g.idb))
            args = ','.join(r.choice(['X', 'Y', '1', '2']) for _ in range(g.idb[f]))
            args = args if r.random() < .6 else ','.join('XYZ'[:g.idb[f]]) if g.idb[f] <= 1 else 'X,Y'
            pat = f if not g.idb[f] else f'{f}({args})'
            out.append((g.text(), sr, ['scc', 'sccmagic', 'scc1', 'scc2'],
                        dict(o, outputs=f'{pat}.', only=[f], pattern=pat)))
        elif kind == 'infinite':        # items of infinite value leave the others alone
            g = Flat(r, maxbody=1, nidb=3, maxrules=5, cyclic=False)
            t = g.text()
            loops = []
            for f, a in sorted(g.idb.items()):
                if r.random() < .3:
                    x = f + (f"({','.join('XYZ'[:a])})" if a else '')
                    loops.append(f'{x} += {x}.')
            out.append((t + '\n' + '\n'.join(loops), 'inf7', ['linear'] if loops else ['linear', 'solver2', 'solve', 'agenda', 'seminaive', 'fc'], o))
        elif kind == 'linear':
            if r.random() < .5:
                out.append(linear_rat(r, o))
            else:
                g = Flat(r, maxbody=1, nidb=3, maxrules=6)
                out.append((g.text(), sr, ['linear', 'newton', 'solver'], o))
        else:
            g = Flat(r, builtins=kind == 'builtin')
            out.append((g.text(), sr, GROUND + (['newton'] if kind == 'plain' else []), o))
    return out


def linear_rat(r, o):
    """linear system with a unique finite solution over the reals (row sums < 1)"""
    n = r.randint(1, 3)
    lines = []
    for i in range(n):
        if r.random() < .7 or i == 0: lines.append(f'x({i}) += {r.choice([1, 2, 0.5])}.')
        budget = r.choice([0.5, 0.75, 0.5])
        for j in r.sample(range(n), r.randint(0, n)):
            w = r.choice([0.5, 0.25])
            if w > budget: continue
            budget -= w
            lines.append(f'x({i}) += {w} * x({j}).')
    lines.append('y += x(0) * 2.')
    return ('\n'.join(lines), 'rat', ['linear', 'solve', 'agenda', 'seminaive', 'fc'], dict(o, mode='fixpoint'))


def catalog_cases():
    out = []
    for n, (p, ds) in CATALOG.items():
        for k, d in enumerate(ds):
            for sr in ['sat5', 'min', 'bool', 'sat3']:
                E = list(GROUND)
                if n not in ('fib', 'count', 'lists'): E.append('newton')
                out.append((p + d, sr, E, dict(id=f'cat-{n}-{k}-{sr}')))
    for n, (p, ds) in NONGROUND.items():
        for k, d in enumerate(ds):
            for sr in ['sat3', 'min', 'bool']:
                out.append((p + d, sr, ['solver2', 'solve', 'agenda', 'seminaive', 'fc'],
                            dict(id=f'cat-{n}-{k}-{sr}', nonground=True)))
    for n, out_, only in [('path', 'goal.', ['goal']), ('path', 'path(1,X).', ['path']), ('cky', 'goal.', ['goal']),
                          ('cky', 'phrase(X,I,K).', ['phrase']), ('tc2', 't(1,X).', ['t']), ('lists', 'mem(X).', ['mem']),
                          ('edit', 'goal.', ['goal']), ('nested', 't(X,Y).', ['t']), ('geom', 'y.', ['y'])]:
        p, ds = CATALOG[n]
        for k, d in enumerate(ds):
            for sr in ['sat5', 'min', 'bool']:
                out.append((p + d, sr, ['scc', 'scc1', 'scc2'] + (['sccmagic'] if n != 'lists' else []),
                            dict(id=f'catscc-{n}-{out_}-{k}-{sr}', outputs=out_, only=only, pattern=out_.rstrip('.'))))
    return out


def run(chk):
    n = 1400 if not THOROUGH else 24000
    todo = catalog_cases() + rand_cases(n, SEED)
    cases = pmap(case, todo, chunksize=8)
    for t, c in zip(todo, cases):
        # an output pattern restricts what the goal-directed solver must report
        pat = t[3].get('pattern')
        c['out'] = [enc_term(Program(pat + '.').rules[0].head, VarNames())] if pat else []
    for i in range(0, len(cases), 3000):
        chk.judge('Engines', cases[i:i + 3000], keyf=lambda c: c['id'], samples='programs judged')
    chk.note('engine runs judged', sum(len(c['engines']) for c in cases))
