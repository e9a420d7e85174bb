"""C06: folds accepted by any of the three safety checks preserve meaning (spec/Equiv.tla)."""
import random
from trans import *
from dyna.programs import ProgramCollection
from dyna.transform import measure


TEMPLATES = [
    ('inputs: e(X,Y); n(X).\n path(X,X) += n(X). path(X,Z) += path(X,Y) * e(Y,Z). goal(X) += path(X,Y) * n(Y).', 2),
    ('inputs: e(X,Y); n(X).\n path(X,X) += n(X). path(X,Z) += path(X,Y) * path(Y,Z). path(X,Z) += e(X,Z).', 2),
    ('inputs: a(X); b(X,Y); c(X).\n goal += a(X) * b(X,Y) * c(Y). h(X) += b(X,Y) * c(Y). k += a(X) * h(X).', 2),
    ('inputs: a(X); b(X,Y); c(X).\n h(X) += b(X,Y) * c(Y). h(X) += a(X). k += c(X) * b(X,Y) * c(Y). k += c(X) * a(X).', 2),
    ('inputs: a(X); b(X,Y).\n u(X) += a(X). u(X) += b(X,Y) * u(Y). v(X) += b(X,Y) * a(Y). v(X) += b(X,Y) * b(Y,Z) * u(Z).', 2),
    ('inputs: a; b; c.\n x += a. x += b * y. y += a * c. y += b * y * c. z += x * c. w += a * c. w += b * y * c.', 2),
    ('inputs: a; b.\n x += a. y += a. x += b * x. y += b * y. z += x. z += y.', 2),
    ('inputs: a; b.\n x += y. y += a. y += b * y. z += a. z += b * a. z += b * b * y. t += 2 * a.', 2),
    ('inputs: a(X).\n p(X) += a(X). q(X) += a(X). r(X) += p(X) * q(X). s += a(X) * a(Y). t += a(X) * a(X). u += p(X).', 2),
    ('inputs: a(X); b(X,Y).\n p(X) += b(X,Y). q += b(X,Y) * a(X). r += a(X) * b(X,Y) * b(X,Z). s(X) += b(X,Y) * b(X,Z).', 2),
]


SELF = [   # folds that look right but are circular
    'x += a. y += x. x0 += y.', 'x += a * b. y += a * b. z += a * b * c.', 'x(X) += a(X). y(X) += a(X) * one. one += 1.',
    'e1 += a. e1 += b * e1. e2 += a. e2 += b * e2.', 'x += a. x += x * b. y += x * b. y += a.',
]


def step6(q, rng, cases, add):
    """one fold/unfold/define step; folds accepted by a safety check are recorded"""
    k = rng.random()
    if k < .25:
        c = [(i, j) for i, r in enumerate(q.rules) for j in range(len(r.body)) if q.safe_inline(r.body[j]) and not q.is_builtin(r.body[j])]
        if not c: return q
        i, j = rng.choice(c)
        defs = None
        if rng.random() < .35:
            ds = [d for d in q.lineage() if d.is_item(q.rules[i].body[j])]
            if ds: defs = rng.choice(ds)
        return q.unfold(i, j, defs=defs)
    if k < .4:
        c = [r for r in q.rules if len(r.body) > 0]
        if not c: return q
        r = rng.choice(c)
        js = sorted(rng.sample(range(len(r.body)), rng.randint(1, len(r.body))))
        d = q.loop_absorption(q.rules.index(r), js)
        new = [d]
        if rng.random() < .25:      # a two-rule definition
            r2 = rng.choice(c)
            js2 = sorted(rng.sample(range(len(r2.body)), rng.randint(1, len(r2.body))))
            d2 = q._loop_absorption(q.rules.index(r2), js2, d.head.fn)
            if d2.head.arity == d.head.arity: new.append(d2)
        return q.define(new)
    # folds
    skip = rng.random() < .6
    defs = rng.choice([None, None, q.root] + [d for d in q.lineage()][:4])
    mode = rng.choice(['partial', 'partial', 'partial', 'rev', 'seq', 'basic'])
    if mode == 'rev': new = list(q.reversible_megafolds(defs=defs, skip_trivial=skip))
    elif mode == 'seq': new = list(ProgramCollection._folds_seq(q, skip_trivial=skip))
    elif mode == 'basic':
        new = []
        for r in q.fold_proposals(defs=(defs or q), skip_trivial=skip):
            for S in [{i} for i in range(len(q.rules))]:
                if rng.random() < .5: continue
                try: new.append(q.basic_fold(r, r.j, S, defs=defs)); new[-1].via_basic = True
                except (ValueError, AssertionError): pass
    else: new = list(q.partial_megafolds(defs=defs, skip_trivial=skip, skip_zero_width=skip))
    if not new: return q
    rng.shuffle(new)
    keep = []
    for x in new[:5]:
        if len(x.rules) > 14: continue
        acc = []
        if mode in ('rev', 'basic'):
            if x.safe_by_rev: add('rev', x.parent, x); acc.append(1)
        for how in rng.sample(['smt', 'unit', 'rev'], 2):
            try: ok = {'smt': lambda: x.safe_by_smt, 'unit': lambda: x.safe_by_unit, 'rev': lambda: x.safe_by_rev}[how]()
            except AssertionError: ok = False
            if ok:
                add(how, x.parent if how == 'rev' else x.root, x)
                acc.append(1)
        if acc or rng.random() < .15: keep.append(x)
    return rng.choice(keep) if keep else q


def one(a):
    id, text, srn, steps, seed, datas, nonground = a
    rng = random.Random(seed)
    p = lifted(text, srn)
    cases = []
    def add(how, orig, new):
        if len(cases) < 8:
            cases.append(pair(f'{id}-{len(cases)}', text, srn, orig, new, datas, how=how, done=[type(s).__name__ for s in new.lineage()][::-1]))
    def bad(what): cases.append(pair(f'{id}-{len(cases)}', text, srn, p, None, datas, status=what, how='error', done=[]))
    try:
        with limit(40), contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            q = p
            for _ in range(steps):
                q = step6(q, rng, cases, add)
                if len(q.rules) > 14: break
            # a program whose last step is not a fold inherits the verdict of its history
            for how in ('smt', 'unit'):
                if q is p or rng.random() < .4: continue
                try: ok = q.safe_by_smt if how == 'smt' else q.safe_by_unit
                except AssertionError: ok = False
                if ok: add(how, q.root, q)
    except Unencodable as e: bad(f'Unencodable: {e}')
    except CaseTimeout: return id, cases, True
    except Exception as e: bad(f'{type(e).__name__}: {str(e)[:200]}')
    return id, cases, False


def run(chk):
    a, b = (2, 3) if not THOROUGH else (2, 4)
    model_check(chk, 'TransformMC', ['TypeOK', 'Ordered', 'Preserved'], extra=f'CONSTANT Rules = {a}\nCONSTANT Steps = {b}\n')
    todo = []
    n = 1200 if not THOROUGH else 9000
    for k in range(n):
        r = random.Random(f'c06-{SEED}-{k}')
        kind = r.choice(['tmpl', 'tmpl', 'flat', 'inputs', 'self'])
        srn = r.choice(['sat7', 'sat7', 'sat3', 'min', 'bot'])
        datas = []
        if kind == 'flat': t = Flat(r, maxrules=4, nfacts=(1, 2)).text()
        elif kind == 'tmpl': t = r.choice(TEMPLATES)[0]
        elif kind == 'self': t = r.choice(SELF); t = 'inputs: ' + ('a(X).' if 'a(X)' in t else 'a; b; c.') + '\n' + t
        else: t = with_inputs(Flat(r, maxrules=4))
        if t.startswith('inputs:'):
            datas = [facts_for(t, r) for _ in range(2)]
        todo.append((f'{kind}-{SEED}-{k}-{srn}', t, srn, r.randint(1, 6), f'{SEED}-{k}', datas))
    res = pmap(one, [(*x, False) for x in todo], chunksize=2)
    cases = [c for _, cs, _ in res for c in cs]
    chk.note('histories', len(res))
    chk.note('histories cut short', sum(t for _, _, t in res))
    for c in cases:
        chk.note('accepted by ' + c['how'])
    for i in range(0, len(cases), 3000):
        chk.judge('Equiv', cases[i:i + 3000], keyf=lambda c: c['id'], samples='accepted folds judged')
    cases = pmap(measures, [(f'measure-{SEED}-{k}', f'm{SEED}-{k}') for k in range(500 if not THOROUGH else 5000)], chunksize=4)
    cases = [c for c in cases if c['status'] != 'skip' and (c['steps'] or c['status'] != 'ok')]
    chk.note('derivations measured', sum(len(c['steps']) for c in cases))
    for i in range(0, len(cases), 2000):
        chk.judge('MeasureTrace', cases[i:i + 2000], keyf=lambda c: c['id'], samples='programs measured')


def measures(a):
    "the interval that the unit measure gives to derivations, against the size of what they stand for"
    import c13, c25
    from c12 import enc_d
    id, seed = a
    r = random.Random(seed)
    srn, text = r.choice(['sat7', 'min']), c13.program(r)
    c = dict(id=id, text=f'{srn} {text}', status='ok', steps=[], m=[], how='measure')
    with c25.guard(c, 40), contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        p = lifted(text, srn)
        if r.random() < .5 and c13.usable(p):       # with a definition to fold by
            k = r.choice([k for k, _ in c13.usable(p)])
            js = sorted(r.sample(range(len(p.rules[k].body)), r.randint(1, len(p.rules[k].body))))
            new = [p.loop_absorption(k, js)]
            if r.random() < .5:
                r2 = r.randrange(len(p.rules))
                js2 = sorted(r.sample(range(len(p.rules[r2].body)), r.randint(0, len(p.rules[r2].body))))
                d2 = p._loop_absorption(r2, js2, new[0].head.fn)
                if d2.head.arity == new[0].head.arity: new.append(d2)
            p = Program(list(p.rules) + new, semiring=p.semiring)
        q, done = p, []
        for _ in range(r.randint(1, 5)):
            k = r.choice(['unfold', 'unfold', 'partial', 'partial', 'basic'])
            try: x = c13.step(q, r, k)
            except AssertionError: x = None
            if x is None or len(x.rules) > 20: continue
            q = x
            done.append(k)
        c['text'] += f' {done} ==> ' + plain(q)
        m = measure.make_smt_measure(p, symbolic=False)
        try:
            if q is p or not m.safe(q): return c
            mq = m(q)
        except AssertionError: return c       # (folds that are not by a definition have no measure)
        c['m'] = [[x.lo, x.hi] for x in mq.m]
        for d in c13.heights(q, 30):
            v = mq.derivation_measure(d)
            c['steps'].append(dict(d=enc_d(d, srn), e=enc_d(q.Transform(d, p), srn), lo=v.lo, hi=v.hi))
    return c


def facts_for(t, rng):
    "random facts for the declared inputs of a program text"
    out = []
    for h in Program(t).inputs:
        h = h.head
        for _ in range(rng.randint(1, 4) if h.arity else 1):
            out.append(f'{h.fn}{"(" + ",".join(str(rng.choice([1, 2, 3])) for _ in h.args) + ")" if h.arity else ""} += {rng.choice([1, 1, 2])}.')
    return '\n'.join(out)
