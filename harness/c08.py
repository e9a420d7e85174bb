"""C08: pruning, specialisation and magic templates keep every declared output's value
(spec/Equiv.tla)."""
import random
from trans import *
from c06 import facts_for
import c07

TEMPLATES = c07.TEMPLATES + [
    'inputs: e(X,Y); f(s(X),Y).\n p(X,Y) += e(X,Y). p(X,s(Y)) += f(s(X),Y). p(s(X),Y) += p(X,s(Y)) * e(X,Y). q(X) += p(X,s(X)). q(X) += p(s(X),s(Y)). r(X) += q(X) * q(Y). goal += r(X) * e(X,Y).',
    'inputs: a(X); b(1,Y); b(Y,2).\n p(X,Y) += b(X,Y). q(1,X) += p(1,X) * a(X). q(X,2) += p(X,Y) * a(Y). q(3,4) += a(1). r(X,Y) += q(X,Y). r(X,X) += q(X,Y) * a(Y). g += r(1,2). h(X) += r(X,4).',
    'inputs: w(X).\n f(1,Y) += w(Y). f(2,3) += w(1). f(X,4) += w(X). g(X,Y) += f(X,Y). h(X) += f(X,Y) * g(X,Y). k += h(X) * w(X).',
    'inputs: w(X).\n f(X,4) += w(X). f(1,Y) += w(Y). f(2,3) += w(1). f(5,4) += w(2). g(X,Y) += f(X,Y) * f(Y,X). h(X) += f(X,Y). k += h(X) * w(X).',
    'inputs: lst(X).\n suf(X) += lst(X). suf(X) += suf([Y|X]). m(X) += suf([X|Y]). len += suf([]). p(X) += suf([X,X|Y]). q += suf([1,X|Y]) * m(X).',
    'inputs: d(X).\n t(a,X) += d(X). t(b,X) += d(X) * t(a,X). u(X,Y) += t(X,Y). u(c,Y) += t(b,Y). v(Y) += u(c,Y). v(Y) += u(d,Y). w(X) += u(X,Y) * v(Y).',
]


def out_decl(p, rng):
    "random output declarations from the heads of a program"
    heads = {}
    for r in p:
        if not p.is_input(r.head): heads.setdefault((r.head.fn, r.head.arity), r.head)
    hs = rng.sample(sorted(heads), rng.randint(1, min(3, len(heads))))
    out = []
    for f, n in hs:
        k = rng.random()
        if k < .6: args = [f'A{i}' for i in range(n)]
        elif k < .8: args = [rng.choice([f'A{i}', '1', '2', 'A0']) for i in range(n)]
        else:
            h = rng.choice([r.head for r in p if (r.head.fn, r.head.arity) == (f, n)])
            out.append(plain(h).strip()); continue
        out.append(f'{f}({",".join(args)})' if n else f)
    return out


def matching_facts(t, rng):
    "random ground instances of the declared input patterns"
    out = []
    for r in Program(t).inputs:
        for _ in range(rng.randint(1, 4) if r.head.arity else 1):
            h = enc_term(r.head, VarNames())
            s = {}
            def inst(x):
                if x[0] == '?':
                    if x[1] not in s: s[x[1]] = rng.choice(['1', '2', '3', '1', '2', 's(1)', 's(2)'] if 's(' in t else ['1', '2', '3', '4'])
                    return s[x[1]]
                if x[0] == '#': return str(x[1])
                return x[0] + (f'({",".join(map(inst, x[1:]))})' if len(x) > 1 else '')
            if h[0] == 'lst': f = f'lst([{",".join(rng.choice("12") for _ in range(rng.randint(0, 3)))}])'
            else: f = inst(h)
            out.append(f'{f} += {rng.choice([1, 1, 2])}.')
    return '\n'.join(out)


OPS = {
    'fast': lambda p, r: p.prune_fast(),
    'veryfast': lambda p, r: p.prune_very_fast(),
    'bottomup': lambda p, r: p.prune_bottom_up(max_depth=r.choice([3, 5])),
    'full': lambda p, r: p.prune(max_depth=r.choice([3, 5])),
    'full1': lambda p, r: p.prune(max_depth=1),
    'nospec': lambda p, r: p.prune(specialize=False, max_depth=r.choice([2, 4])),
    'busp': lambda p, r: p.prune(specialize=False, bottom_up_only=True, max_depth=3),
    'magic': lambda p, r: p.magic_templates(),
}


def one(a):
    id, text, outs, srn, seed, datas, op, pre = a
    rng = random.Random(seed)
    p = lifted(f'outputs: {"; ".join(outs)}.\n' + text, srn)
    keep = [enc_term(r.head, VarNames()) for r in p.outputs]
    done, q = [], None
    dom = False
    try:
        with limit(6), contextlib.redirect_stdout(io.StringIO()):
            q = p
            if pre:
                kind, x, pos = pre
                try: q = q.slash(x, pos) if kind == 'slash' else q.lct(pos, x=x)
                except AssertionError: pass
                else: done.append(kind); dom = True
            for o in op:
                q = OPS[o](q, rng)
                done.append(o)
        dx = [enc_term(b, VarNames()) for r in p for b in r.body if p.is_const(b)]
        return pair(id, text, srn, p, q, datas, keep=keep, domitems=True, domx=dx, done=done, outs=outs)
    except CaseTimeout:
        return ('slow', done)
    except Exception as e:
        return pair(id, text, srn, p, None, datas, status=f'{type(e).__name__}: {str(e)[:200]}', keep=keep, done=done + op, outs=outs)


def run(chk):
    todo = []
    for k in range(800 if not THOROUGH else 20000):
        r = random.Random(f'c08-{SEED}-{k}')
        srn = r.choice(['sat7', 'sat3', 'sat7', 'min', 'bot'])
        kind = r.choice(['tmpl', 'flat', 'flat', 'struct', 'bi'])
        pre = None
        if kind == 'tmpl': t = r.choice(TEMPLATES)
        elif kind == 'struct': t = with_inputs(Struct(r))
        else: t = with_inputs(Flat(r, maxrules=5, builtins=kind == 'bi'))
        p = Program(t)
        outs = out_decl(p, r)
        if kind in ('tmpl', 'flat') and r.random() < .12:
            pos = {i: r.randrange(len(x.body)) for i, x in enumerate(p) if len(x.body) and r.random() < .7}
            pre = (r.choice(['slash', 'lct']), c07.xpat(p, r), pos)
        op = [r.choice(list(OPS)) for _ in range(r.choice([1, 1, 1, 2]))]
        if 'magic' in op:      # demand for structured terms need not be finite
            if any(x in t for x in ('s(', '[', 'f(')): op = [r.choice(list(OPS)[:-1])]
            else: op, pre, srn = ['magic'], None, 'bool'
        datas = [matching_facts(t, r) for _ in range(2)]
        todo.append((f'{kind}-{SEED}-{k}-{srn}', t, outs, srn, f'{SEED}-{k}', datas, op, pre))
    cases = []
    for c in pmap(one, todo, chunksize=4):
        if isinstance(c, tuple): chk.note('too slow, skipped')
        else: cases.append(c)
    for c in cases:
        for d in c['done']: chk.note('step ' + d)
        chk.note('programs changed' if len(c['orig']) != len(c['new']) else 'same number of rules')
    for i in range(0, len(cases), 3000):
        chk.judge('Equiv', cases[i:i + 3000], keyf=lambda c: c['id'], samples='pairs judged')
