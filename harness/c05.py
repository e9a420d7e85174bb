"""C05: unconditional transformations preserve every retained item's value (spec/Equiv.tla)."""
import random
from trans import *


def one(a):
    id, text, srn, kinds, seed, datas, nonground = a
    rng = random.Random(seed)
    p = lifted(text, srn)
    try:
        with limit(20), contextlib.redirect_stdout(io.StringIO()):
            q, ctx = apply_steps(p, kinds, rng)
        return pair(id, text, srn, p, q, datas, drop=ctx['drop'], nonground=nonground, done=ctx['done'])
    except Unencodable as e:
        return pair(id, text, srn, p, None, datas, status=f'Unencodable: {e}', done=kinds)
    except CaseTimeout:
        return pair(id, text, srn, p, None, datas, status='no answer', done=kinds)
    except Exception as e:
        return pair(id, text, srn, p, None, datas, status=f'{type(e).__name__}: {str(e)[:200]}', done=kinds)


KINDS = ['unfold', 'unfold', 'unfold', 'elim', 'elim', 'linearize', 'linearize1', 'hook', 'define', 'binarize', 'cf', 'rb', 'norm',
         'snap', 'fresh', 'sort', 'spawn', 'unfoldb']


def run(chk):
    a, b = (2, 2) if not THOROUGH else (3, 2)
    model_check(chk, 'TransformMC', ['TypeOK', 'Ordered', 'Preserved'], extra=f'CONSTANT Rules = {a}\nCONSTANT Steps = {b}\n')
    todo = []
    n = 5000 if not THOROUGH else 40000
    for k in range(n):
        r = random.Random(f'c05-{SEED}-{k}')
        kind = r.choice(['flat', 'flat', 'struct', 'builtin', 'nong', 'eqs', 'inputs', 'inputs', 'sinputs'])
        srn = r.choice(['sat3', 'sat7', 'sat7', 'min', 'bot', 'bool'])
        datas, ng = [], False
        if kind == 'flat': t = Flat(r, maxrules=4, nfacts=(1, 3)).text()
        elif kind == 'builtin': t = Flat(r, builtins=True, maxrules=4, nfacts=(1, 3)).text()
        elif kind == 'eqs': t = Flat(r, eqs=True, maxrules=4, nfacts=(1, 3)).text()
        elif kind == 'nong':
            t, ng, srn = Flat(r, nonground=True, maxrules=3, nfacts=(1, 3), consts=(1, 2), eqs=r.random() < .2).text(), True, r.choice(['sat2', 'sat3', 'bool', 'min'])
        elif kind == 'struct': t = Struct(r, nfacts=(1, 3)).text()
        else:
            g = Flat(r, builtins=r.random() < .3, maxrules=4) if kind == 'inputs' else Struct(r)
            t = with_inputs(g)
            datas = [random_facts(g, r) for _ in range(2)]
        ks = [r.choice(KINDS) for _ in range(r.choice([1, 1, 2, 3, 4]))]
        if ng or kind in ('builtin', 'eqs'): ks = [x for x in ks if x != 'hook']
        todo.append((f'{kind}-{SEED}-{k}-{srn}', t, srn, ks, f'{SEED}-{k}', datas, ng))
    for n_, (p, ds) in list(CATALOG.items()) + list(NONGROUND.items()):
        for k in range(6 if not THOROUGH else 60):
            r = random.Random(f'c05-{n_}-{SEED}-{k}')
            ng = n_ in NONGROUND
            srn = r.choice(['sat3', 'bool'] if ng else ['sat7', 'sat3', 'min', 'bot'])
            ks = [r.choice(KINDS) for _ in range(r.choice([1, 2, 3]))]
            todo.append((f'cat-{n_}-{SEED}-{k}-{srn}', p + r.choice(ds), srn, ks, f'{SEED}-{k}', [], ng))
    cases = pmap(one, todo, chunksize=8)
    for c in cases:
        for d in c['done']: chk.note('step ' + d)
    for i in range(0, len(cases), 3000):
        chk.judge('Equiv', cases[i:i + 3000], keyf=lambda c: c['id'], samples='pairs judged')
