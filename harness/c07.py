"""C07: speculation (slash) and left-corner (lct) transformations keep every original item's
value, whatever items and positions they are given (spec/Equiv.tla)."""
import random
from trans import *
from c06 import facts_for

TEMPLATES = [
    'inputs: e(X,Y); n(X).\n path(X,X) += n(X). path(X,Z) += path(X,Y) * e(Y,Z). goal(X) += path(X,Y) * n(Y).',
    'inputs: e(X,Y); n(X).\n path(X,X) += n(X). path(X,Z) += path(X,Y) * path(Y,Z). path(X,Z) += e(X,Z).',
    'inputs: w(X,I,K); r(X,Y,Z); u(X,Y).\n p(X,I,K) += r(X,Y,Z) * p(Y,I,J) * p(Z,J,K). p(X,I,K) += u(X,Y) * p(Y,I,K). p(X,I,K) += w(X,I,K). g += p(1,1,K).',
    'inputs: a; b; c.\n x += a. x += b * y. y += c. y += x * y * c. z += x * y.',
    'inputs: b(I,J).\n a(I) += b(I,J) * c(J). c(J) += d(J). d(J) += b(J,J). d(J) += 2 * b(J,1) * c(J).',
    'inputs: f(X); g(X,Y).\n p(X) += f(X). p(X) += g(X,Y) * p(Y). q(X,Y) += p(X) * p(Y). q(X,Y) += g(X,Z) * q(Z,Y).',
    'inputs: f(X); g(X,Y).\n p(s(X)) += f(X). p(X) += g(X,Y) * p(s(Y)). q(X) += p(s(X)). q(X) += q(Y) * g(Y,X). goal += q(X).',
]


def xpat(p, rng):
    "numerator/denominator patterns: a variable, a functor pattern or an instance"
    k = rng.random()
    if k < .35: return 'X'
    heads = [r.head for r in p] + [x for r in p for x in r.body if not p.is_builtin(x) and not p.is_const(x)]
    h = rng.choice(heads)
    if h.arity == 0: return h.fn
    return f'{h.fn}({",".join(rng.choice([f"X{i}", f"X{i}", f"X{i}", "1"]) for i in range(h.arity))})'


def one(a):
    id, text, srn, seed, datas, how = a
    rng = random.Random(seed)
    p = lifted(text, srn)
    q, done, dx = None, [], []
    try:
        with limit(30), contextlib.redirect_stdout(io.StringIO()):
            q = p
            for h in how:
                if h == 'slash' or h == 'lct':
                    for _ in range(8):       # until the transformation accepts its arguments
                        pos = {}
                        for i, r in enumerate(q):
                            js = [j for j, b in enumerate(r.body) if not q.is_builtin(b) or rng.random() < .3]
                            if js and rng.random() < .75: pos[i] = rng.choice(js)
                        x = xpat(p, rng)
                        try:
                            new = q.slash(x, pos) if h == 'slash' else q.lct(pos, x=x)
                        except AssertionError: continue
                        # denominators that are builtins: their ground instances are items too
                        q = new
                        done.append([h, x, pos])
                        break
                elif h == 'unfold' or h == 'elim':
                    try: q = step(q, h, rng, dict(drop=dx))
                    except Refused: pass
                    else: done.append(h)
        drop, dx = dx, []
        bs = [b for r in p for b in r.body if not p.is_const(b) and p.is_builtin(b)]
        if bs:
            ops = {b.fn for b in bs}
            cs = domain_of(enc_program(p, srn) + [x for d in datas for x in enc_program(lifted(d, srn), srn)])
            dx += [[o, c, d] for o in sorted(ops) for c in cs for d in cs]
        if not done: return None
        return pair(id, text, srn, p, q, datas, drop=drop, domitems=True, domx=dx, done=done)
    except CaseTimeout:
        return pair(id, text, srn, p, None, datas, status='no answer', done=done)
    except Exception as e:
        return pair(id, text, srn, p, None, datas, status=f'{type(e).__name__}: {str(e)[:200]}', done=done)


def run(chk):
    todo = []
    for k in range(2400 if not THOROUGH else 20000):
        r = random.Random(f'c07-{SEED}-{k}')
        srn = r.choice(['sat7', 'sat3', 'sat7', 'min', 'bot'])
        if r.random() < .5: t = r.choice(TEMPLATES)
        else: t = with_inputs(Flat(r, maxrules=3, maxbody=2, builtins=r.random() < .15))
        datas = [facts_for(t, r) for _ in range(1)]
        how = r.choice([['slash'], ['lct'], ['slash'], ['lct'], ['slash', 'elim'], ['lct', 'elim'], ['slash', 'unfold'], ['lct', 'unfold']])
        todo.append((f'{SEED}-{k}-{srn}', t, srn, f'{SEED}-{k}', datas, how))
    cases = [c for c in pmap(one, todo, chunksize=4) if c]
    for c in cases:
        for d in c['done']: chk.note('step ' + (d if isinstance(d, str) else d[0]))
    for i in range(0, len(cases), 3000):
        chk.judge('Equiv', cases[i:i + 3000], keyf=lambda c: c['id'], samples='pairs judged')
