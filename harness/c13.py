"""C13: maps between derivations of transformed programs (spec/Derivations.tla, DerivationsTrace.tla)."""
import random
from enc import *
from lib import *
from gen import *
from c25 import guard
from c12 import enc_d, enc_p, one, has_builtin
from c07 import xpat
from dyna import derivations
from dyna.derivations import Derivation
from dyna.program import TransformedProgram

TEMPLATES = [
    'path(X,X) += n(X). path(X,Z) += path(X,Y) * e(Y,Z). goal(X) += path(X,Y) * n(Y).',
    'path(X,Z) += e(X,Z). path(X,Z) += path(X,Y) * path(Y,Z).  s(Y) += n(X) * path(X,Y).',
    'goal += n(X) * e(X,Y) * n(Y). h(X) += e(X,Y) * n(Y). k += n(X) * h(X).',
    'h(X) += e(X,Y) * n(Y). h(X) += n(X). k += n(X) * e(X,Y) * n(Y). k += n(X) * n(X).',
    'h(X) += e(X,Y) * n(Y). h(X) += e(X,Y) * n(X). k += n(X) * e(X,Y) * n(Y). k += n(X) * e(X,Y) * n(X). m(X) += h(X).',
    'u(X) += n(X). u(X) += e(X,Y) * u(Y). v(X) += e(X,Y) * n(Y). v(X) += e(X,Y) * e(Y,Z) * u(Z).',
    'x += a. x += 2 * b * y. y += a * b. y += b * y * 3. z += x * b. w += a * b. w += b * y * b.',
    'x += a. y += a. x += b * x. y += b * y. z += x. z += y.',
    'x += y. y += a. y += b * y. z += a. z += b * a. z += b * b * y. t += 2 * a.',
    'q(X) += n(X). p(X) += n(X). r(X) += p(X) * q(X). s += n(X) * n(Y). t += n(X) * n(X). u += p(X).',
    'x += b. x += a * x. y += x * x. z += y * a. z += x.',
    'p(f(X)) += n(X). p(X) += e(X,Y) * p(f(Y)). q(X) += p(f(X)). q(X) += q(Y) * e(Y,X).',
    'bt([X]) += n(X). bt([X,Y|Xs]) += bt([Y|Xs]) * n(X) * short(Xs). short([]). b(X) += bt([X|Xs]).',
    'x += y * z. y += 2. y += a. z += 3. z += b * 5. w += x * y.',
]


def facts(t, r):
    out = []
    for f, a in [('n', 1), ('e', 2), ('a', 0), ('b', 0)]:
        if f'{f}(' in t if a else any(f' {f}{x}' in t for x in '.*, '):
            for _ in range(r.choice([1, 1, 2, 2, 3]) if a else r.choice([1, 1, 2])):
                w = r.choice(['', '', ' += 2', ' += 3'])
                out.append(f"{f}{'(' + ','.join(str(r.choice([1, 1, 2])) for _ in range(a)) + ')' if a else ''}{w}.")
    if r.random() < .6: out = list(dict.fromkeys(out))
    return ' '.join(out)


def program(r):
    k = r.random()
    if k < .65:
        t = r.choice(TEMPLATES)
        text = t + ' ' + facts(t, r)
    elif k < .85: text = Flat(r, cyclic=r.random() < .5, nfacts=(1, 3), maxrules=4).text()
    else: text = Struct(r, nfacts=(1, 2)).text()
    rs = [x for x in re.split(r'(?<=\.)\s+', text) if x.strip()]
    r.shuffle(rs)
    return ' '.join(rs)


import re


def usable(q):
    return [(i, j) for i, x in enumerate(q.rules) for j in range(len(x.body)) if not q.is_const(x.body[j]) and not q.is_builtin(x.body[j]) and q.safe_inline(x.body[j])]


def step(q, r, kind):
    "One transformation that comes with a map of derivations; None if there is none to do."
    if kind == 'unfold':
        c = usable(q)
        if not c: return None
        i, j = r.choice(c)
        defs = None
        if r.random() < .4:
            ds = [d for d in q.lineage() if not isinstance(d, (tuple,)) and d.is_item(q.rules[i].body[j])]
            if ds: defs = r.choice(ds)
        if defs is q: defs = None
        q1 = q.unfold(i, j, defs=defs)
        if defs is not None and not q1.safe_by_smt: return None
        return q1
    if kind in ('partial', 'rev'):
        defs = r.choice([None, None, q.root] + list(q.lineage())[:3])
        new = list(q.partial_megafolds(defs=defs, skip_trivial=True) if kind == 'partial' else q.reversible_megafolds(defs=defs, skip_trivial=True))
        r.shuffle(new)
        for x in new[:4]:
            if len(x.rules) > 16: continue
            if kind == 'rev' and x.safe_by_rev or kind == 'partial' and x.safe_by_smt: return x
        return None
    if kind == 'basic':
        props = list(q.fold_proposals(defs=q, skip_trivial=True))
        r.shuffle(props)
        for x in props[:4]:
            for _ in range(2):
                S = {r.randrange(len(q.rules))}
                try: return q.basic_fold(x, x.j, S)
                except (ValueError, AssertionError): pass
        return None
    if kind == 'undo':
        return q.undo if isinstance(q, TransformedProgram) and hasattr(q, 'undo') else None
    if kind in ('slash', 'lct'):
        for _ in range(6):
            pos = {}
            for i, x in enumerate(q):
                js = [j for j, b in enumerate(x.body) if not q.is_builtin(b)]
                if js and r.random() < .75: pos[i] = r.choice(js)
            try: return q.slash(xpat(q, r), pos) if kind == 'slash' else q.lct(pos, x=xpat(q, r))
            except AssertionError: continue


def heights(p, cap):
    "as many derivations as there is room for"
    ds = []
    for T in range(1, 7):
        m = derivations.peel(derivations.naive(p, T))
        if len(m) > cap or len(m) == len(ds): break
        ds = m
    return ds


NONE, FAIL = ['!none'], ['!fail']


def cases_of(a):
    id, seed, kinds = a
    r = random.Random(seed)
    srn = r.choice(['int', 'sat7', 'min'])
    text = program(r)
    c0 = dict(kind='map', S=SEMIRINGS[srn][1], one=0, P=[], Q=[], steps=[], leaves=False, facts=[], text=f'{srn} {kinds} {text}', status='ok')
    out, done = [], []
    c = dict(c0, id=id)
    with guard(c, 40):
        p = lifted(text, srn)
        heads = ' '.join(f'outputs: {h}.' for h in sorted({str(x.head.fn) + ('(' + ','.join(f'A{k}' for k in range(x.head.arity)) + ')' if x.head.arity else '') for x in p if isinstance(x.head, Term)}))
        if 'slash' in kinds or 'lct' in kinds: p = Program(list(p.rules), inputs=Program(''), outputs=Program(heads).outputs, semiring=p.semiring)
        if r.random() < .4 and usable(p) and not has_builtin(p):       # with a definition to fold by
            i = r.choice([i for i, _ in usable(p)])
            body = p.rules[i].body
            js = sorted(r.sample(range(len(body)), r.randint(1, len(body))))
            p = Program(list(p.rules) + [p.loop_absorption(i, js)], inputs=p.inputs, outputs=p.outputs, semiring=p.semiring)
        ps = [p]
        for k in kinds:
            try: q = step(ps[-1], r, k)
            except AssertionError as ex:
                q = None
            if q is None or len(q.rules) > 30: continue
            done.append(k)
            ps.append(q)
        if len(ps) == 1: return []
        for k, (x, y) in enumerate([(ps[k], ps[k + 1]) for k in range(len(ps) - 1)] + ([(ps[0], ps[-1]), (ps[-1], ps[0])] if len(ps) > 2 else [(ps[1], ps[0])])):
            if x is y: continue
            forward = y in list(ps) and isinstance(y, TransformedProgram)
            oneway = any(z in ('slash', 'lct') for z in done)
            if oneway and not (y is ps[k + 1 if k < len(ps) - 1 else -1] and done[ps.index(y) - 1] in ('slash', 'lct') and x is y.parent): continue
            c = dict(c0, id=f'{id}.{k}', oneway=oneway, done=done, one=one(srn), P=enc_p(x, srn), Q=enc_p(y, srn), leaves=not oneway)
            c['status'] = 'ok'
            c['steps'] = []
            c['text'] = f'{srn} {done} {k} {text} ==> ' + plain(x) + ' ==> ' + plain(y)
            c['facts'] = []
            ds = heights(x, 30)
            out.append(c)
            with guard(c, 20):
                for d in ds:
                    s = dict(d=enc_d(d, srn), e=FAIL, back=NONE)
                    c['steps'].append(s)
                    e = y.transform(d) if oneway else x.Transform(d, y)
                    s['e'] = enc_d(e, srn)
                    if not oneway: s['back'] = enc_d(y.Transform(e, x), srn)
        return out
    return out + [c]


def plain(q):
    return re.sub(r'\x1b\[[0-9;]*m', '', str(q))[:700]


KINDS = [['unfold'], ['unfold', 'unfold'], ['partial'], ['unfold', 'partial'], ['unfold', 'unfold', 'partial'], ['rev'], ['basic'], ['unfold', 'basic'],
         ['partial', 'unfold'], ['unfold', 'undo'], ['partial', 'undo'], ['unfold', 'partial', 'undo'], ['rev', 'unfold'], ['basic', 'unfold', 'rev'], ['partial', 'partial'],
         ['rev', 'undo'], ['basic', 'undo'], ['unfold', 'undo', 'unfold', 'undo']]


def run(chk):
    k = 1 if not THOROUGH else 12
    todo = []
    for j in range(800 * k):
        r = random.Random(f'c13-{SEED}-{j}')
        todo.append((f'{SEED}-{j}', f'{SEED}-{j}', r.choice(KINDS)))
    cases = [c for cs in pmap(cases_of, todo, chunksize=4) for c in cs]
    for c in cases:
        if c['status'] == 'skip': chk.note('skipped', 1)
        for x in c.get('done', []): chk.note('step ' + x, 1)
    cases = [c for c in cases if c['status'] != 'skip']
    chk.note('derivations mapped', sum(len(c['steps']) for c in cases))
    for j in range(0, len(cases), 2000): chk.judge('DerivationsTrace', cases[j:j + 2000], lambda c: c['id'], samples='cases')
