"""C16: term algebra (spec/Unify.tla, spec/TermAlgebra.tla)."""
import random
from enc import *
from lib import *
from dyna.term import unify, Subst, covers, same, intersect, canonicalize, fresh, generalizer, deref, term_vars, is_ground, unifies, replace_in_expr

ATOMS = ['a', 1, 'X', 'Y']


def build(t, env):
    "tree -> dyna term, sharing variables through env"
    if isinstance(t, tuple): return Term(t[0], *[build(x, env) for x in t[1:]])
    if isinstance(t, str) and t[0].isupper():
        if t not in env: env[t] = Var(t)
        return env[t]
    if t == 'a': return Term('a')
    return t


T1 = ATOMS + [('f', t) for t in ATOMS] + [('g', t, u) for t in ATOMS for u in ATOMS]


def rterm(r, d, vs='XYZ'):
    k = r.random()
    if d == 0 or k < .25:
        return r.choice(list(vs) * 2 + ['a', 1, 1, 2, ('a',), 'a'])
    f, n = r.choice([('f', 1), ('g', 2), ('g', 2), ('h', 3), ('f', 2), ('a', 0)])
    return (f,) + tuple(rterm(r, d - 1, vs) for _ in range(n))


def mutate(r, t, vs):
    "replace a subterm"
    if not isinstance(t, tuple) or len(t) == 1 or r.random() < .25: return rterm(r, 1, vs)
    k = r.randrange(1, len(t))
    return t[:k] + (mutate(r, t[k], vs),) + t[k + 1:]


def rename(t, m):
    if isinstance(t, tuple): return (t[0],) + tuple(rename(x, m) for x in t[1:])
    return m.get(t, t) if isinstance(t, str) else t


def chains(env, rng):
    """rename some variables through chains of bound variables, as in the middle of an enumeration"""
    if rng.random() < .7: return {}
    m = {}
    for k, v in env.items():
        if rng.random() < .5:
            w = Var(k + 'c'); w.value = v
            if rng.random() < .3:
                u = Var(k + 'd'); u.value = w; w = u
            m[v] = w
    return m


def subv(t, m):
    if isinstance(t, Var): return m.get(t, t)
    if isinstance(t, Term): return Term(*[subv(x, m) for x in t.fargs])
    return t


def one(a):
    id, tx, ty, seed = a
    rng = random.Random(seed)
    env = {}
    x0, y0 = build(tx, env), build(ty, env)
    vs = VarNames()
    e = lambda t: enc_term(deref(t), vs)
    c = dict(id=id, status='ok', text=f'{tx}  |  {ty}')
    try:
        allv = list(env.values())
        c['vars'] = [e(v) for v in allv]
        c['x'], c['y'] = e(x0), e(y0)
        m = chains(env, rng)
        x, y = subv(x0, m), subv(y0, m)
        c['unify'] = []
        for _ in unify(x, y):
            c['unify'].append([e(x), e(y)] + [e(v) for v in allv])
        s = Subst().mgu(deref(x), deref(y))
        c['mgu'] = [] if s is Subst.FAIL else [[e(s(deref(x))), e(s(deref(y)))] + [e(s(v)) for v in allv]]
        c['unifies'] = bool(unifies(x, y))
        z = intersect(x, y)
        c['inter'] = [] if z is None else [e(z)]
        c['covers'], c['rcovers'] = bool(covers(x, y)), bool(covers(y, x))
        c['same'] = bool(same(x, y))
        cx, cy = canonicalize(x), canonicalize(y)
        c['canoneq'] = bool(cx == cy)
        c['hasheq'] = hash(cx) == hash(cy)
        c['canonx'] = enc_term(cx, VarNames())
        c['eqxy'] = bool(x == y)
        fx = fresh(x)
        c['freshx'] = enc_term(fx, VarNames())
        c['freshapart'] = not any(v is w for v in term_vars(fx) for w in term_vars(x) | term_vars(y))
        s1, s2 = Subst(), Subst()
        g = generalizer(deref(x), deref(y), s1, s2)
        c['gen'] = e(g)
        c['gen1'], c['gen2'] = e(once(g, s1)), e(once(g, s2))
        c['groundx'] = bool(is_ground(x)); c['nvarsx'] = len(term_vars(x))
        rv = rng.choice(allv) if allv else Var('Q')
        # a replacement that does not mention the variable
        rt = build(rterm(rng, 1, 'UW'), {})
        c['rv'] = e(rv)[1]; c['rt'] = e(rt)
        c['replaced'] = e(replace_in_expr(x, rv, rt))
        c['subst'] = e(Subst({rv: rt})(deref(x)))
    except CaseTimeout:
        c['status'] = 'no answer'
    except Exception as ex:
        c['status'] = f'{type(ex).__name__}: {str(ex)[:200]}'
    return c


def once(t, s):
    t = snap(t)
    if isinstance(t, Var): return s.get(t, t)
    if isinstance(t, Term): return Term(*[once(x, s) for x in t.fargs])
    return t


def guard(a):
    try:
        with limit(10): return one(a)
    except CaseTimeout:
        return dict(id=a[0], status='no answer', text=f'{a[1]} | {a[2]}')


def run(chk):
    model_check(chk, 'UnifyMC', ['UnifierComplete', 'UnifierSound', 'MostGeneral', 'LggCovers', 'LggLeast', 'CoversIsInstances', 'VariantEquiv', 'CoversMeet'])
    todo = [(f'small-{i}-{j}', x, y, f'{SEED}-{i}-{j}') for i, x in enumerate(T1) for j, y in enumerate(T1)]
    for k in range(12000 if not THOROUGH else 120000):
        r = random.Random(f'c16-{SEED}-{k}')
        d = r.choice([1, 2, 2, 3, 3])
        vs = r.choice(['XY', 'XYZ', 'XYZW'])
        x = rterm(r, d, vs)
        how = r.random()
        if how < .3: y = rterm(r, d, vs)
        elif how < .75:
            y = x
            for _ in range(r.choice([1, 1, 2, 3])): y = mutate(r, y, vs)
            if r.random() < .5: y = rename(y, {'X': 'U', 'Y': 'V', 'Z': 'T', 'W': 'S'})
        else:
            p = list('XYZW'); q = r.choice([r.sample(p, 4), ['U', 'V', 'T', 'S'], [r.choice('UV') for _ in p], [r.choice('XYU') for _ in p]])
            y = rename(x, dict(zip(p, q)))
            if r.random() < .5: x, y = y, x
        todo.append((f'rnd-{SEED}-{k}', x, y, f'{SEED}-{k}'))
    cases = pmap(guard, todo, chunksize=64)
    for i in range(0, len(cases), 6000):
        chk.judge('TermAlgebra', cases[i:i + 6000], keyf=lambda c: c['id'], samples='term pairs judged')
