"""C15: equality, hashing, alignment and distance of rules and programs (spec/Equality.tla, EqualityMC.tla, EqualityTrace.tla)."""
import random, itertools, contextlib, io
from enc import *
from lib import *
from c14 import weight, er, eprog, rebuild, copy_rule
from dyna.term import Product, fresh
from dyna.rule import Rule

VS = 'XYZW'


def atoms(r, shape, vs):
    f, n = shape
    def arg(d):
        k = r.random()
        if k < .8: return r.choice(vs)
        if k < .9 or d == 0: return r.choice([Term('c'), Term('d'), 3, 'three'])
        return Term('s', arg(d - 1))
    return Term(f, *[arg(1) for _ in range(n)])


SHAPES = [('q', 1), ('r', 2), ('r', 2), ('t', 3), ('e', 0), ('q', 2)]


def gen_rule(r, sr, shapes=None, consts=True, vs=None):
    vs = vs or [Var(v) for v in VS]
    k = r.random()
    h = r.choice(vs) if k < .05 else Term('goal') if k < .4 else Term('p', r.choice(vs)) if k < .7 else Term('p', r.choice(vs), r.choice(vs))
    if shapes is None: shapes = [r.choice(SHAPES) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 3, 4]))]
    b = [atoms(r, s, vs) for s in shapes]
    if r.random() < .06 and b: b[r.randrange(len(b))] = r.choice(vs)
    if r.random() < .08: b.append(Term(r.choice(['<', '=', '!=']), r.choice(vs), r.choice(vs)))
    if consts:
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            b.insert(r.randrange(len(b) + 1), weight(sr, r.choice({'int': [1, 2, 3, -1, 0], 'sat3': [0, 1, 2], 'min': [0, 1, 4]}[sr])))
    return Rule(h, *b)


def swap_vars(r, x):
    "an almost equal rule: one occurrence of a variable is another variable, or two subgoals trade an argument"
    from dyna.term import term_vars
    vs = list(term_vars(x))
    if not vs: return x
    occ = []
    def walk(t, path):
        t = snap(t)
        if isinstance(t, Var): occ.append(path)
        elif isinstance(t, Term):
            for k, y in enumerate(t.args): walk(y, path + (k,))
    parts = [x.head] + list(x.body)
    for k, t in enumerate(parts): walk(t, (k,))
    def put(t, path, v):
        if not path: return v
        a = list(t.args); a[path[0]] = put(a[path[0]], path[1:], v)
        return Term(t.fn, *a)
    parts = list(parts)
    if r.random() < .5 or len(occ) < 2:
        o = r.choice(occ)
        parts[o[0]] = put(parts[o[0]], o[1:], r.choice(vs + [Var('U')]))
    else:
        o, q = r.sample(occ, 2)
        def get(p):
            t = parts[p[0]]
            for k in p[1:]: t = t.args[k]
            return t
        a, b = get(o), get(q)
        parts[o[0]] = put(parts[o[0]], o[1:], b); parts[q[0]] = put(parts[q[0]], q[1:], a)
    return Rule(parts[0], *parts[1:])


def classes(hs):
    m = {}
    return [m.setdefault(h, len(m)) for h in hs]


def rules_case(a):
    id, seed, shared = a
    r = random.Random(seed)
    sr = r.choice(['int', 'int', 'sat3', 'min'])
    sv = [Var(v) for v in VS] if shared else None       # rules may share variable objects
    shapes = [r.choice(SHAPES) for _ in range(r.choice([1, 2, 2, 3, 3]))]
    R = []
    for _ in range(4):
        x = gen_rule(r, sr, shapes=list(shapes), vs=sv, consts=r.random() < .3)
        R.append(x)
        if r.random() < .7: R.append(copy_rule(x, r.shuffle))
        if r.random() < .8: R.append(swap_vars(r, x))
        if r.random() < .5: R.append(copy_rule(swap_vars(r, x), r.shuffle))
    r.shuffle(R)
    c = dict(kind='rules', id=id, status='ok', R=[], same=[], hash=[])
    try:
        with limit(30):
            c['R'] = [er(x, sr) for x in R]
            c['same'] = [[bool(x.same(y)) for y in R] for x in R]
            c['hash'] = [k + 1 for k in classes([hash(x.signature) for x in R])]
    except Unencodable: return None
    except CaseTimeout: c['status'] = 'no answer'
    except Exception as ex: c['status'] = f'{type(ex).__name__}: {str(ex)[:300]}'
    c['text'] = '  '.join(str(x) for x in R)
    return c


def enum_rules():
    "every rule over r(V,V), V in X Y Z, up to three subgoals, grouped by what the signature can see"
    vs = [Var(v) for v in 'XYZ']
    groups = {}
    for h in (Term('goal'), Term('p', vs[0])):
        for n in (1, 2, 3):
            for pat in itertools.product(itertools.product(range(3), repeat=2), repeat=n):
                if list(pat) != sorted(pat): continue
                key = (h.fn, tuple(sorted(a == b for a, b in pat)))
                groups.setdefault(key, []).append(Rule(h, *[Term('r', vs[a], vs[b]) for a, b in pat]))
    return list(groups.values())


def enum_case(a):
    id, seed = a
    r = random.Random(seed)
    g = r.choice(_GROUPS)
    R = [copy_rule(x, r.shuffle) if r.random() < .5 else x for x in r.sample(g, min(len(g), 14))]
    c = dict(kind='rules', id=id, status='ok', R=[er(x, 'int') for x in R], text='  '.join(map(str, R)))
    try:
        with limit(30):
            c['same'] = [[bool(x.same(y)) for y in R] for x in R]
            c['hash'] = [k + 1 for k in classes([hash(x.signature) for x in R])]
    except CaseTimeout: c['status'] = 'no answer'
    except Exception as ex: c['status'] = f'{type(ex).__name__}: {str(ex)[:300]}'
    return c


def dist(m): return 'zero' if m == 0 else 'inf' if m == float('inf') else 'finite'


def raw(rules, sr):
    "a program with exactly these rules (appending would merge facts)"
    return Program(list(rules), semiring=SEMIRINGS[sr][0])


def progs_case(a):
    id, seed = a
    r = random.Random(seed)
    sr = r.choice(['int', 'int', 'sat3', 'min'])
    sv = [Var(v) for v in VS] if r.random() < .3 else None
    shapes = [r.choice(SHAPES) for _ in range(r.choice([1, 2, 2, 3]))]
    P = []
    for _ in range(r.choice([0, 1, 2, 2, 3, 3, 4])):
        k = r.random()
        if P and k < .3: P.append(copy_rule(r.choice(P), r.shuffle) if r.random() < .6 else swap_vars(r, r.choice(P)))
        elif k < .55: P.append(gen_rule(r, sr, shapes=list(shapes), vs=sv))
        elif k < .75: P.append(Rule(r.choice([Term('a'), Term('f', Term('c')), Term('f', Var('X')), Term('f', Var('Y'), Var('Y'))]), *[weight(sr, r.choice([1, 2, 3])) for _ in range(r.choice([0, 1, 1, 1, 2]))]))
        else: P.append(gen_rule(r, sr, vs=sv))
    Q = list(P)
    how = r.choice(['same', 'same', 'same', 'edit', 'edit', 'edit', 'edit2', 'weight', 'split', 'other', 'drop', 'dup'])
    if Q:
        for _ in range({'edit': 1, 'edit2': 2}.get(how, 0)):
            k = r.randrange(len(Q)); Q[k] = swap_vars(r, Q[k])
        if how == 'weight':
            k = r.randrange(len(Q)); Q[k] = Rule(Q[k].head, *([weight(sr, r.choice([1, 2, 3]))] + list(Q[k].body)))
        if how == 'split':       # a coefficient split over two copies of the rule
            k = r.randrange(len(Q)); Q.insert(r.randrange(len(Q)), copy_rule(Rule(Q[k].head, *([weight(sr, r.choice([1, 2]))] + list(Q[k].body))), r.shuffle))
            if r.random() < .5: P = P + [copy_rule(Q[k], r.shuffle)]
        if how == 'drop': Q.pop(r.randrange(len(Q)))
        if how == 'dup': Q.append(copy_rule(r.choice(Q), r.shuffle)); 
        if how == 'dup' and r.random() < .5: P = P + [copy_rule(r.choice(P), r.shuffle)]
    if how == 'other': Q = [gen_rule(r, sr, shapes=list(shapes)) for _ in range(len(P))]
    if r.random() < .8: Q = [copy_rule(x, r.shuffle) for x in Q]
    r.shuffle(Q)
    c = dict(kind='progs', id=id, status='ok', S=SEMIRINGS[sr][1], P=[], Q=[], text=f'{sr} {how} {P} | {Q}')
    try:
        with limit(30), contextlib.redirect_stdout(io.StringIO()):
            p, q = raw(P, sr), raw(Q, sr)
            c['P'] = eprog(p.rules, sr); c['Q'] = eprog(q.rules, sr)
            if r.random() < .3: hash(p); p.signature
            c['eq'] = bool(p == q) if r.random() < .7 else bool(p.same(q))
            c['qe'] = bool(q == p)
            c['hash'] = hash(p) == hash(q)
            al = lambda A: [[0 if i is None else i + 1, 0 if j is None else j + 1] for i, j in A]
            c['align'] = al(p.align(q)); c['back'] = al(q.align(p))
            m, mb = p.metric(q), q.metric(p)
            c['m'], c['mb'] = dist(m), dist(mb)
            c['gap'] = int(m) if sr == 'int' and m != float('inf') and m == int(m) else -1
            if sr == 'int' and m != mb: c['mb'] = f'differs: {m} {mb}'
            try: p.assert_equal(q); c['ae'] = True
            except AssertionError: c['ae'] = False
    except Unencodable: return None
    except CaseTimeout: c['status'] = 'no answer'
    except Exception as ex:
        import traceback
        c['status'] = f'{type(ex).__name__}: {str(ex)[:300]} ' + traceback.format_exc()[-500:]
    return c


def facts_case(a):
    "charts with infinite values"
    id, seed = a
    r = random.Random(seed)
    W = [1.0, 2.0, float('inf'), -float('inf')]
    P = {f'f({i})': r.choice(W) for i in range(r.randint(1, 5))}
    Q = dict(P)
    if r.random() < .5: Q[r.choice(list(Q))] = r.choice(W)
    if r.random() < .1: Q.pop(r.choice(list(Q)))
    if r.random() < .5: Q = dict(sorted(Q.items(), reverse=True))
    mk = lambda d: Program([Rule(Term('f', int(h[2:-1])), w) for h, w in d.items()])
    c = dict(kind='facts', id=id, status='ok', P=[[h, str(w)] for h, w in P.items()], Q=[[h, str(w)] for h, w in Q.items()], text=f'{P} | {Q}')
    try:
        with limit(30), contextlib.redirect_stdout(io.StringIO()):
            p, q = mk(P), mk(Q)
            c['eq'] = bool(p == q)
            c['m'], c['mb'] = dist(p.metric(q)), dist(q.metric(p))
            try: p.assert_equal(q); c['ae'] = True
            except AssertionError: c['ae'] = False
    except Exception as ex: c['status'] = f'{type(ex).__name__}: {str(ex)[:300]}'
    return c


def run(chk):
    global _GROUPS
    model_check(chk, 'EqualityMC', ['GreedyIsMax', 'Symmetric', 'BySignature', 'ReorderedSame', 'FoldSame'], spec='Spec',
                extra=f'CONSTANT Size = {2 if not THOROUGH else 3}\n')
    _GROUPS = enum_rules()
    k = 1 if not THOROUGH else 10
    cases = []
    cases += pmap(facts_case, [(f'w{SEED}-{j}', f'w{SEED}-{j}') for j in range(150 * k)], chunksize=20)
    cases += pmap(rules_case, [(f'r{SEED}-{j}', f'r{SEED}-{j}', j % 3 == 0) for j in range(700 * k)], chunksize=20)
    cases += pmap(enum_case, [(f'e{SEED}-{j}', f'e{SEED}-{j}') for j in range(400 * k)], chunksize=20)
    cases += pmap(progs_case, [(f'p{SEED}-{j}', f'p{SEED}-{j}') for j in range(4000 * k)], chunksize=50)
    cases = [c for c in cases if c]
    chk.note('equal pairs of programs', sum(1 for c in cases if c.get('eq') is True))
    chk.note('rule pairs', sum(len(c['R']) ** 2 for c in cases if c['kind'] == 'rules'))
    random.Random(SEED).shuffle(cases)
    for j in range(0, len(cases), 3000):
        chk.judge('EqualityTrace', cases[j:j + 3000], lambda c: c['id'], samples='comparisons')
