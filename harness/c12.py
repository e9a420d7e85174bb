"""C12: derivations (spec/Derivations.tla, DerivationsMC.tla, DerivationsTrace.tla)."""
import random
from enc import *
from lib import *
from gen import *
from c25 import guard, pattern
from dyna import derivations
from dyna.derivations import Derivation

SR = ['sat7', 'sat7', 'min', 'int']
MAXD = 60


def weight(w, sr):
    x = enc_weight(w, sr)
    if not isinstance(x, int): raise Unencodable(repr(w))
    return ['#', x]


def enc_d(d, sr, vs=None):
    "a derivation as a term of the specification"
    vs = VarNames() if vs is None else vs
    if isinstance(d, Derivation):
        # (an answer of a builtin has no rule)
        return ['$d', ['#', d.i + 1 if d.i is not None else 0], enc_term(d.head, vs)] + [enc_d(y, sr, vs) for y in d.body]
    if isinstance(d, (Var, Term)): return ['!residual', enc_term(d, vs)]
    return weight(d, sr)


def enc_p(p, sr):
    "rules with the constants of their bodies in place"
    out = []
    for r in p:
        vs = VarNames()
        out.append(dict(h=enc_term(r.head, vs), b=[weight(x, sr) if Program.is_const(x) else enc_term(x, vs) for x in map(snap, r.body)]))
    return out


def one(sr): return enc_weight((SEMIRINGS[sr][0] or Float).one, sr)


def bounded(p, tmax=4, cap=MAXD):
    "The largest height whose derivations are few enough to judge; whether these are all."
    n = 0
    for T in range(1, tmax + 1):
        m = derivations.naive(p, T).rules
        if len(m) > cap: return T - 1, False
        if len(m) == n: return T, True
        n = len(m)
    return tmax, False


def generate(r, cyclic=None, nong=None):
    k = r.random()
    cyc = r.random() < .5 if cyclic is None else cyclic
    w = (1, 1, 2, 3)
    if k < .35: g = Flat(r, cyclic=cyc, nfacts=(1, 3), maxrules=4, weights=w)
    elif k < .5: g = Flat(r, cyclic=cyc, nfacts=(1, 3), maxrules=4, builtins=True, weights=w)
    elif k < .6: g = Flat(r, cyclic=cyc, nfacts=(1, 3), maxrules=4, eqs=True, weights=w)
    elif k < .8: g = Struct(r, nfacts=(1, 2), weights=w)
    else: g = Flat(r, nonground=True, cyclic=cyc, nfacts=(1, 2), maxrules=4, weights=w)
    text = '\n'.join(l.replace(' += 1.', '.') if r.random() < .5 and l.endswith(' += 1.') else l for l in g.text().split('\n'))
    if .35 <= k < .6:      # a builtin whose arguments are known may come first
        text = '\n'.join(l.replace(' += ', ' += ' + r.choice(['(X = 1)', '(1 < 2)', '(2 < 1)', '(X = 1) * (X < 2)']) + ' * ', 1) if 'X' in l and r.random() < .3 else l for l in text.split('\n'))
    fns = sorted({**g.edb, **g.idb}.items())
    if r.random() < .2:      # a rule twice, word for word
        ls = text.split('\n'); ls.append(r.choice(ls)); text = '\n'.join(ls)
    return g, text, fns, ('sub(' not in text and (cyc is False or k >= .6 and k < .8)), k >= .8


def prog(r, acyclic=False):
    while True:
        g, text, fns, acyc, nong = generate(r, False if acyclic else None)
        if not acyclic or acyc: return g, text, fns, acyc, nong


def shuffled(text, r):
    ls = text.split('\n'); r.shuffle(ls); return '\n'.join(ls)


def has_builtin(p): return any(Program.is_builtin(b) for rr in p for b in rr.body)


def enum_case(a):
    id, seed = a
    r = random.Random(seed)
    srn = r.choice(SR)
    route = r.choice(['naive', 'naive', 'seminaive', 'seminaive', 'agenda', 'agenda', 'sld', 'sld'])
    g, text, fns, acyc, nong = prog(r, route in ('agenda', 'sld'))
    text = shuffled(text, r)
    c = dict(kind='enum', id=id, status='ok', S=SEMIRINGS[srn][1], one=0, P=[], h=0, q=['all'], ds=[], text=f'{route} {srn} {text}')
    with guard(c, 20):
        p = lifted(text, srn)
        c['one'] = one(srn); c['P'] = enc_p(p, srn)
        if route in ('seminaive', 'agenda') and has_builtin(p): route = 'naive' ; c['text'] = f'{route} {srn} {text}'
        h, full = bounded(p, 4 if route in ('naive', 'seminaive') else 6)
        if route in ('agenda', 'sld') and not full or h == 0: c['status'] = 'skip'; return c
        T = c['h'] = r.randint(1, h) if route in ('naive', 'seminaive') else h
        if full and r.random() < .4: T, c['h'] = None, h      # without a bound, it stops by itself
        q = None
        if route != 'agenda' and (route == 'sld' or r.random() < .4):
            q, _ = pattern(r, fns, structured='f(' in text)
            if route == 'sld': q = Term(q.fn, *[x if r.random() < .3 else Var(f'U{k}') for k, x in enumerate(q.args)])
            c['q'] = enc_term(q, VarNames()); c['text'] += f' ? {q}'
        if q is None:
            if route == 'agenda': ds = list(p.derivations_agenda())
            else: ds = derivations.peel({'naive': derivations.naive, 'seminaive': derivations.seminaive}[route](p, T))
        elif route == 'sld': ds = list(p.sld(q))
        else: ds = {'naive': p.derivations, 'seminaive': p.derivations_seminaive}[route](T, q)
        c['ds'] = [enc_d(d, srn) for d in ds]
        assert all(isinstance(d, Derivation) and (not isinstance(d.i, int) or d.R is p.rules[d.i]) for d in ds)
    return c


def mul(S, ws):
    w = S.one
    for x in ws: w = w * x
    return w


def facts_case(a):
    id, seed = a
    r = random.Random(seed)
    srn = r.choice(SR)
    g, text, fns, acyc, nong = prog(r)
    c = dict(kind='facts', id=id, status='ok', S=SEMIRINGS[srn][1], one=0, P=[], ds=[], subs=[], text=f'{srn} {text}')
    with guard(c, 20):
        p = lifted(text, srn)
        c['one'] = one(srn); c['P'] = enc_p(p, srn)
        h, full = bounded(p)
        ds = list(p.derivations(h, 'Anything')) if r.random() < .5 else derivations.peel(derivations.naive(p, h))
        if any('!residual' in str(enc_d(d, srn)) for d in ds): c['status'] = 'skip'; return c
        ds = r.sample(ds, min(len(ds), 12))
        S = SEMIRINGS[srn][0] or Float
        for d in ds:
            v = d.value()
            c['ds'].append(dict(d=enc_d(d, srn), w=enc_weight(mul(S, v), srn), ws=[enc_weight(x, srn) for x in v], height=d.height(), size=d.size(), dim=d.dimension()))
        if nong: return c
        def subs(d): return [d] + [z for y in d.body if isinstance(y, Derivation) for z in subs(y)]
        pool = [z for d in ds for z in subs(d) if z.i is not None]
        for _ in range(8 if pool else 0):
            x, y = r.choice(pool), r.choice(ds)
            c['subs'].append(dict(x=enc_d(x, srn), y=enc_d(y, srn), ans=Derivation.is_subtree(y, x)))
    return c


def total_case(a):
    id, seed = a
    r = random.Random(seed)
    srn = r.choice(SR)
    while True:
        g, text, fns, acyc, nong = prog(r, True)
        if not nong: break
    c = dict(kind='total', id=id, status='ok', S=SEMIRINGS[srn][1], P=[], ds=[], text=f'{srn} {text}')
    with guard(c, 20):
        p = lifted(text, srn)
        c['P'] = enc_p(p, srn)
        h, full = bounded(p, 7, 120)
        if not full: c['status'] = 'skip'; return c
        ds = p.derivations(h, 'X')
        c['ds'] = [enc_d(d, srn) for d in ds]
        if '!residual' in str(c['ds']): c['status'] = 'skip'
    return c


def run(chk):
    k = 1 if not THOROUGH else 12
    model_check(chk, 'DerivationsMC', ['TypeOK', 'Distinct', 'Sound', 'Complete', 'ByHeight'], extra=f'CONSTANT Rules = {2 if not THOROUGH else 3}\nCONSTANT Many = 11\n')
    for fn, tag, n in [(enum_case, 'e', 900), (facts_case, 'f', 250), (total_case, 't', 250)]:
        cs = pmap(fn, [(f'{tag}{SEED}-{j}', f'{tag}{SEED}-{j}') for j in range(n * k)], chunksize=10)
        skipped = sum(1 for c in cs if c['status'] == 'skip')
        chk.note(f'{tag} skipped', skipped)
        assert skipped < len(cs) / 2, (tag, skipped)
        cs = [c for c in cs if c['status'] != 'skip']
        chk.note(f'{tag} derivations', sum(len(c['ds']) for c in cs))
        for j in range(0, len(cs), 2000): chk.judge('DerivationsTrace', cs[j:j + 2000], lambda c: c['id'], samples='cases')
