"""C09: abbreviation preserves every item under its renaming (spec/Equiv.tla)."""
import random
from trans import *


def one(a):
    id, text, srn, opts, datas, nonground, itype, keepout = a
    p = lifted(text, srn)
    kw = dict(basic=opts['basic'], max_depth=opts['depth'], use_insts=True)
    try:
        with limit(15), contextlib.redirect_stdout(io.StringIO()):
            t = p.type_analysis(itype, **kw) if opts['an'] == 'type' else p.usefulness_analysis(input_type=itype, **kw)
            if not t.is_disjoint() or any(not isinstance(x.head, Term) for x in t.chart): return None
            q = p.abbreviate(types=t)
            if opts['prune']:
                q = q.prune_fast()
    except CaseTimeout:
        return dict(skip='no answer')
    except Exception as e:
        return pair(id, text, srn, p, None, datas, status=f'{type(e).__name__}: {str(e)[:200]}', opts=opts)
    # over ground data a $bound subgoal left in a body is true
    q = q.spawn([Rule(r.head, *[x for x in r.body if not (isinstance(x, Term) and x.fn == '$bound')]) for r in q]) if not nonground else q
    fns = functors([dict(h=enc_term(r.head, VarNames()), b=[]) for r in p.outputs]) if keepout else None
    try:
        return pair(id, text, srn, p, q, datas, fns=fns, nonground=nonground, opts=opts)
    except Unencodable as e:
        return pair(id, text, srn, p, None, datas, status=f'Unencodable: {e}', opts=opts)


def outs(g, r):
    f = r.choice(sorted(g.idb))
    return f'outputs: {f}' + ('' if not g.idb[f] else '(' + ','.join(r.choice('_A') if i == 0 else '_' for i in range(g.idb[f])) + ')') + '.\n'


def run(chk):
    todo = []
    n = 4000 if not THOROUGH else 30000
    for k in range(n):
        r = random.Random(f'c09-{SEED}-{k}')
        kind = r.choice(['flat', 'flat', 'struct', 'builtin', 'nong', 'nong', 'inputs', 'inputs', 'sinputs', 'typed'])
        srn = r.choice(['sat3', 'sat7', 'sat7', 'min', 'bot', 'bool'])
        datas, ng, itype = [], False, None
        if kind == 'flat': g = Flat(r, maxrules=4, nfacts=(1, 3), consts=(1, 2)); t = g.text()
        elif kind == 'builtin': g = Flat(r, builtins=True, maxrules=4, nfacts=(1, 3)); t = g.text()
        elif kind == 'nong':
            g = Flat(r, nonground=True, maxrules=3, nfacts=(1, 2), consts=(1, 2))
            t, ng, srn = g.text(), True, r.choice(['sat2', 'sat3', 'bool', 'min'])
        elif kind == 'struct': g = Struct(r, nfacts=(1, 3)); t = g.text()
        else:
            g = Struct(r) if kind == 'sinputs' else Flat(r, builtins=r.random() < .2, maxrules=4)
            t = with_inputs(g)
            datas = [random_facts(g, r) for _ in range(2)]
            if kind == 'typed':      # the constants are members of parameter types, whose facts are supplied with weight one
                par = r.choice([['n'], ['n', 'm']])
                tyof = {f: [r.choice(par) for _ in range(a)] for f, a in g.edb.items()}
                itype = '\n'.join(f'{f}({",".join("ABC"[:a])}) += ' + ' * '.join(f'{ty}({v})' for ty, v in zip(tyof[f], 'ABC')) + '.' for f, a in g.edb.items())
                itype += '\ninputs: ' + '; '.join(f'{x}(_)' for x in par) + '.'
                facts = '\n'.join(f'{x}({c}).' for x in par for c in (1, 2, 3))
                datas = [d + '\n' + facts for d in datas]
        keepout = r.random() < .3
        t = outs(g, r) + t
        opts = dict(basic=r.random() < .6, depth=r.choice([1, 2, 3, 5]), an=r.choice(['type', 'type', 'useful']) if keepout and not ng else 'type',
                    prune=keepout and r.random() < .4)
        if kind != 'struct' and kind != 'sinputs': opts['depth'] = r.choice([2, 5])
        todo.append((f'{kind}-{SEED}-{k}-{srn}', t, srn, opts, datas, ng, itype, keepout))
    cases = pmap(one, todo, chunksize=8)
    good = []
    for c in cases:
        if c is None: chk.note('types overlap, abbreviation refused')
        elif 'skip' in c: chk.note('analysis exceeded the time limit')
        else: good.append(c)
    for i in range(0, len(good), 3000):
        chk.judge('Equiv', good[i:i + 3000], keyf=lambda c: c['id'], samples='pairs judged')
