"""C22: constraint propagation and constrained types (spec/Constraints.tla, spec/Propagate.tla)."""
import random, io, contextlib
from enc import *
from lib import *
from dyna.analyze.rewrites import Rewrites
from dyna.propagate import ConstraintPropagation
from dyna.term import term_vars, fresh

THEORIES = {
    'none': ('', ''),
    'sub': ('n(X) :- k(X). m(X) :- n(X).', 'ukn ukm'),
    'fail': ('$fail :- k(X), n(X). n(1). k(2).', ''),
    'order': ('$fail :- (I<I). $fail :- (I<J),(J<I). (I<K) :- (I<J),(J<K).', ''),
    'order0': ('(I<K) :- (I<J),(J<K).', ''),
    'fundep': ('X=Y :- w(I,X), w(I,Y).', ''),
    'fundep2': ('X=Y :- w(I,X), w(I,Y). n(X) :- k(X). $fail :- n(X), m(X). k(1).', ''),
    'list': ('k(X) :- l([X|Xs]). l(Xs) :- l([X|Xs]). l([]).', ''),
    'struct': ('n(X) :- n(f(X)). m(X) :- w(f(X),Y). $fail :- m(1).', ''),
    'mixed': ('w(X,Y) :- (X<Y). $fail :- w(X,X). n(X) :- w(X,Y). n(Y) :- w(X,Y).', ''),
    'sym': ('w(X,Y) :- w(Y,X). X=Y :- w(X,Y), k(X), k(Y).', ''),
    'eqc': ('X=1 :- k(X). $fail :- n(1), m(1). m(2).', ''),
    'trans': ('w(X,Z) :- w(X,Y), w(Y,Z). $fail :- w(X,X), k(X).', ''),
}


def rtheory(r):
    "a random theory: rules with up to four premises over chains of derived constraints"
    ps = ['k', 'n', 'm', 'q', 's']
    def atom(vs, ps): return f'w({r.choice(vs)},{r.choice(vs)})' if r.random() < .25 else f'{r.choice(ps)}({r.choice(vs)})'
    out = []
    for _ in range(r.choice([2, 3, 3, 4])):
        vs = r.choice(['X', 'X', 'XY'])
        body = list(dict.fromkeys(atom(vs, ps) for _ in range(r.choice([1, 1, 2, 3, 3, 4]))))
        bv = [v for v in vs if any(v in b for b in body)]
        h = r.random()
        head = '$fail' if h < .08 else 'X=Y' if h < .2 and len(bv) == 2 else atom(bv, ['m', 'q', 's', 'n'])
        if head not in body: out.append(f'{head} :- {", ".join(body)}.')
    r.shuffle(out)
    return ' '.join(out) or 'n(X) :- k(X).'


def rterm(r, vs, d=1, const=.25, struct=.12):
    k = r.random()
    if k < const: return r.choice('12')
    if d and k < const + struct:
        return r.choice([f'f({rterm(r, vs, d - 1)})', f'[{rterm(r, vs, d - 1)}|{rterm(r, vs, d - 1)}]', '[]'])
    return r.choice(vs)


def rtype(r, th, vs, struct=.12):
    n = r.choice([1, 2, 2, 3])
    if th in ('order', 'order0', 'mixed', 'none', 'fail', 'sub'): struct = 0
    head = f'p({",".join(rterm(r, vs, const=.15, struct=struct) for _ in range(n))})'
    hv = [v for v in vs if v in head]
    body = []
    cons = ['k', 'n', 'm', 'w'] + {'order': ['<', '<', '<'], 'order0': ['<', '<', '<'], 'mixed': ['<', '<'], 'list': ['l', 'l', 'l'], 'fundep': ['w'] * 4, 'fundep2': ['w'] * 3,
            'sym': ['w', 'w'], 'trans': ['w'] * 4}.get(th, ['k'])
    if th in ('none', 'fail', 'sub') and not any(x in head for x in 'f['): cons.append('<=')
    if th in ('order', 'order0', 'mixed'): assert not any(x in head for x in 'f[')
    if hv and r.random() < .25: hv = hv + ['V']     # an existential variable
    if hv:
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            f = r.choice(cons)
            a = lambda: r.choice(hv) if r.random() < .8 else r.choice('12')
            body.append(f'w({a()},{a()})' if f == 'w' else f'({a()} {f} {a()})' if f in ('<', '<=') else
                        f'l({r.choice([a(), "[" + a() + "|" + a() + "]"])})' if f == 'l' else f'{f}({r.choice([a(), a(), "f(" + a() + ")"] if th == "struct" else [a()])})')
    return head, body


def parse_type(head, body):
    [r] = Program(f'{head} :- {", ".join(body)}.' if body else f'{head}.')
    return Rule(r.head, *[b for b in r.body if isinstance(b, Term)])


def etype(r, p=''):
    vs = VarNames()
    out = dict(h=enc_term(r.head, vs), b=[enc_term(x, vs) for x in r.body])
    return tag(out, p)


def tag(x, p):
    if isinstance(x, dict): return {k: tag(v, p) for k, v in x.items()}
    if isinstance(x, list):
        if x and x[0] == '?': return ['?', p + x[1]]
        return [tag(y, p) for y in x]
    return x


def erules(text):
    out = []
    for r in Program(text):
        vs = VarNames()
        out.append(dict(h=tag(enc_term(r.head, vs), 'c'), b=[tag(enc_term(x, vs), 'c') for x in r.body if isinstance(x, Term)]))
    return out


def opt(r): return [] if r is None else [etype(r, 'x')]


def one(a):
    kind, id, th, data, seed = a
    rng = random.Random(seed)
    text = th if ':-' in th else THEORIES[th][0]
    c = dict(id=id, op=kind, status='ok', lenient=any(x in str(data) for x in '12V') and any(x in str(data) + text for x in '<>'), rules=erules(text), text=f'{th}: {data}')
    try:
        with limit(10), contextlib.redirect_stdout(io.StringIO()):
            rw = Rewrites(text)
            if kind == 'pair':
                r, s = [parse_type(*x) for x in data]
                c.update(r=etype(r, 'r'), s=etype(s, 's'))
                c['eqfree'] = '=' not in [x.fn for q in rw.cp.rules for x in [q.head]]
                
                c['closed'] = []
                for _ in range(3):
                    b = list(data[0][1]); rng.shuffle(b)
                    rr = parse_type(data[0][0], b)
                    if rng.random() < .5: [Var() for _ in range(rng.randint(0, 9))]; rr = fresh(rr)
                    c['closed'].append(opt(rw(rr)))
                x = rw(r)
                c['again'] = opt(None if x is None else rw(x))
                c['covers'], c['rcovers'] = bool(rw.covers(r, s)), bool(rw.covers(s, r))
                c['same'], c['disjoint'] = bool(rw.same(r, s)), bool(rw.disjoint(r, s))
                c['inter'], c['rinter'] = opt(rw.intersect(r, s)), opt(rw.intersect(s, r))
                c['anti'] = etype(rw.anti_unifier(r, s), 'x')
            elif kind == 'list':
                ts = [parse_type(*x) for x in data]
                c['types'] = [etype(t, f't{i}') for i, t in enumerate(ts)]
                p = Program(ts)
                c['dedup'] = [etype(t, f'd{i}') for i, t in enumerate(rw.dedup(p))]
                c['disjoin'] = [etype(t, f'd{i}') for i, t in enumerate(rw.disjoin(p))]
            elif kind == 'mode':
                r, s = [parse_type(*x) for x in data]
                c.update(r=etype(r, 'r'), s=etype(s, 's'), covers=bool(rw.covers(r, s)), rcovers=bool(rw.covers(s, r)),
                         disjoint=bool(rw.disjoint(r, s)), rdisjoint=bool(rw.disjoint(s, r)))
    except CaseTimeout:
        c['status'] = 'no answer'
    except Exception as e:
        c['status'] = f'{type(e).__name__}: {str(e)[:200]}'
    return c


def mtype(r, vs, free=True):
    "(when something is marked free, everything is marked: an unmarked variable may or may not be one of the free ones)"
    n = r.choice([1, 2, 2])
    args = [r.choice(vs + vs + ['1', 'f(' + vs[0] + ')']) for _ in range(n)]
    body = []
    for v in vs:
        if any(v in x for x in args):
            k = r.random()
            if k < .5: body.append(f'$bound({v})')
            elif free: body.append(f'$free({v})')
    return f'p({",".join(args)})', body


def run(chk):
    model_check(chk, 'Propagate', ['Confluent'], spec='PSpec', extra='PROPERTY Terminates\n' if THOROUGH else '')
    todo = []
    for k in range(5000 if not THOROUGH else 50000):
        r = random.Random(f'c22-{SEED}-{k}')
        th = r.choice(sorted(THEORIES))
        vs = 'XYZ'
        a = rtype(r, th, vs)
        h = r.random()
        if h < .4: b = rtype(r, th, vs)
        elif h < .7:      # same head, other constraints
            b = (a[0], rtype(r, th, [v for v in vs if v in a[0]] or ['1'], 0)[1] if any(v in a[0] for v in vs) else [])
            hv = set(v for v in vs if v in a[0])
            b = (b[0], [x for x in b[1] if set(v for v in vs if v in x) <= hv])
        else:             # an instance of a with some constraints
            m = {v: r.choice(['X', 'Y', 'Z', '1', 'f(X)' if th == 'struct' else '2']) for v in vs}
            sub = lambda t: ''.join(m.get(ch, ch) for ch in t)
            b = (sub(a[0]), [sub(x) for x in a[1] if r.random() < .8])
        if r.random() < .5: a, b = b, a
        todo.append(('pair', f'pair-{SEED}-{k}', th, [a, b], f'{SEED}-{k}'))
    for k in range(2500 if not THOROUGH else 25000):
        r = random.Random(f'c22t-{SEED}-{k}')
        th = rtheory(r)
        if r.random() < .25:      # a rule whose last premise comes at the end of a chain
            n = r.choice([2, 3, 4])
            pre = ['k(X)', 'n(X)', f'c{n}(X)'] + ([r.choice(['s(X)', 'w(X,X)'])] if r.random() < .3 else [])
            r.shuffle(pre)
            th = ' '.join([f'{r.choice(["m(X)", "m(X)", "m(X)", "$fail"])} :- {", ".join(pre)}.'] + [f'c{j}(X) :- c{j - 1}(X).' for j in range(n, 0, -1)] + r.choice([[], ['q(X) :- m(X).']]))
            f = lambda: ('p(X,Y)', [y for v in 'XY' for x in [*pre, 'c0(X)'] if not x.startswith(f'c{n}') and r.random() < .9 for y in [x.replace('X', v)]])
            todo.append(('pair', f'theory-{SEED}-{k}', th, [f(), f()], f'{SEED}-{k}'))
            continue
        a, b = rtype(r, 'rand', 'XYZ', 0), rtype(r, 'rand', 'XYZ', 0)
        if r.random() < .5: b = (a[0], [x for x in a[1] if r.random() < .7] + [x for x in b[1] if set(x) & set('XYZ') <= set(a[0])][:1])
        todo.append(('pair', f'theory-{SEED}-{k}', th, [a, b], f'{SEED}-{k}'))
    for k in range(1200 if not THOROUGH else 12000):
        r = random.Random(f'c22l-{SEED}-{k}')
        th = r.choice(sorted(THEORIES))
        todo.append(('list', f'list-{SEED}-{k}', th, [rtype(r, th, 'XYZ', .05) for _ in range(r.randint(2, 5))], f'{SEED}-{k}'))
    for k in range(1500 if not THOROUGH else 15000):
        r = random.Random(f'c22m-{SEED}-{k}')
        free = r.random() < .5
        todo.append(('mode', f'mode-{SEED}-{k}', 'none', [mtype(r, ['X', 'Y'], free), mtype(r, ['X', 'Y'], free)], f'{SEED}-{k}'))
    cases = pmap(one, todo, chunksize=16)
    # the closure can be exponential in the number of merged variables: a few slow cases are not judged
    slow = [c for c in cases if c['status'] == 'no answer']
    if len(slow) <= 4: cases = [c for c in cases if c['status'] != 'no answer']
    if slow: chk.note('too slow, not judged', len(slow))
    for i in range(0, len(cases), 4000):
        chk.judge('Constraints', cases[i:i + 4000], keyf=lambda c: c['id'], samples='constraint cases judged')
