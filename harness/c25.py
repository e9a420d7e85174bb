"""C25: queries, look-ups and groundings (spec/Answers.tla, AnswersMC.tla, AnswersTrace.tla)."""
import random, contextlib, io, itertools
from enc import *
from lib import *
from gen import *
from c14 import weight, eprog
from c15 import gen_rule
from dyna.term import Product, deref, fresh
from dyna.rule import Rule
from dyna.execute.solver import Chart


def pattern(r, fns, names='XYZ', structured=False):
    f, n = r.choice(fns)
    vs = {v: Var(v) for v in names}
    def arg(d=1):
        k = r.random()
        if k < .62: return vs[r.choice(names)]
        if k < .9 or not structured or d == 0: return r.choice([1, 2, 3])
        return r.choice([lambda: Term('f', arg(0)), lambda: Term('g', arg(0), arg(0)), lambda: Term('$cons', arg(0), arg(0)), lambda: Term('$nil')])()
    return Term(f, *[arg() for _ in range(n)]), vs


def mulall(S, v):
    S = S or Float
    w = S.one
    for x in (v if isinstance(v, tuple) else (v,)): w = w * deref(x)
    return w


def generate(r, kind):
    if kind == 'struct': g = Struct(r)
    elif kind == 'nong': g = Flat(r, nonground=True)
    else: g = Flat(r, builtins=r.random() < .4)
    return g, sorted({**g.edb, **g.idb}.items())


def guard(c, seconds=20):
    @contextlib.contextmanager
    def m():
        try:
            with limit(seconds), contextlib.redirect_stdout(io.StringIO()): yield
        except CaseTimeout: c['status'] = 'no answer'
        except Unencodable as ex: c['status'] = 'skip'
        except Exception as ex:
            import traceback
            c['status'] = f'{type(ex).__name__}: {str(ex)[:200]} ' + traceback.format_exc()[-600:]
    return m()


def query_case(a):
    id, seed = a
    r = random.Random(seed)
    kind = r.choice(['flat', 'flat', 'struct', 'nong'])
    srn = r.choice(['sat3', 'sat7', 'bool', 'min', 'bot'])
    g, fns = generate(r, kind)
    text = g.text()
    q, vs = pattern(r, fns + [('zz', 1)] * (r.random() < .1), structured=kind == 'struct')
    routes = ['solver2', 'program'] + (['solver', 'call', 'again', 'sol'] if kind != 'nong' else ['again'])
    route = r.choice(routes)
    c = dict(kind='query', id=id, status='ok', S=SEMIRINGS[srn][1], P=[], dom=[], q=['a'], ans=[], text=f'{srn} {route} {q} ? {text}')
    with guard(c):
        p = lifted(text, srn)
        c['P'] = enc_program(p, srn)
        n = SEMIRINGS[srn][1]
        c['q'] = enc_term(q, VarNames())
        D = domain_of(c['P'] + [dict(h=c['q'], b=[])], extra=(max(1, n['n']) if n['k'] == 'sat' else 1)) if kind == 'nong' else []
        c['dom'] = D
        if route == 'solver': ans = p.solver().user_query(q)
        elif route == 'solver2': ans = p.solver2().user_query(q)
        elif route == 'program': ans = p.user_query(q)
        elif route == 'call': ans = p().user_query(q)
        elif route == 'sol': ans = p.agenda().user_query(q)
        elif route == 'again':       # other patterns are asked first
            s = p.solver2() if kind == 'nong' or r.random() < .5 else p.solver()
            s()
            for _ in range(r.randint(1, 4)): s.user_query(pattern(r, fns, structured=kind == 'struct')[0])
            ans = s.user_query(q if r.random() < .6 else str_term(q))
        c['ans'] = enc_sol(ans, srn)
    return c


def str_term(t):
    import re
    return re.sub(r'\x1b\[[0-9;]*m', '', str(t))


def join_case(a):
    id, seed = a
    r = random.Random(seed)
    srn = r.choice(['sat3', 'sat7', 'bool', 'min', 'bot', 'int'])
    kind = r.choice(['flat', 'struct'])
    g, fns = generate(r, kind)
    facts = '\n'.join(g.facts)
    names = 'XYZ'
    vs = {v: Var(v) for v in names}
    qs = []
    for _ in range(r.choice([1, 2, 2, 3])):
        q, mine = pattern(r, sorted(g.edb.items()), structured=kind == 'struct')
        qs.append(subst(q, {id_(mine[v]): vs[v] for v in names}))
    used = [v for v in names if any(occurs(vs[v], q) for q in qs)]
    if used and r.random() < .3: qs.append(Term(r.choice(['<', '!=', '<=', '='] if kind == 'flat' else ['!=', '=']), vs[r.choice(used)], r.choice([vs[r.choice(used)], 1, 2])))
    route = r.choice(['getitem', 'getitem', 'join', 'solver', 'solver2'])
    c = dict(kind='join', id=id, status='ok', S=SEMIRINGS[srn][1], C=[], qs=[], ans=[], total=0, text=f'{srn} {route} {qs} ? {facts}')
    with guard(c):
        p = lifted(facts, srn)
        sol = p.agenda()
        S = SEMIRINGS[srn][0] or Float
        c['C'] = enc_sol(sol, srn)
        nm = VarNames(); c['qs'] = [enc_term(q, nm) for q in qs]
        if route in ('solver', 'solver2'):
            s = p.solver()() if route == 'solver' else p.solver2()()
            it = s.join(Product(qs), S.one)
        elif route == 'join': it = sol.join(*qs)
        else: it = sol[Product(qs)] if r.random() < .6 else sol[tuple(qs)]
        total = S.zero
        for v in it:
            w = mulall(SEMIRINGS[srn][0], v)
            total = total + w
            nm = VarNames()
            c['ans'].append(dict(t=['$tup'] + [enc_term(deref(q), nm) for q in qs], w=enc_weight(w, srn)))
        c['total'] = enc_weight(total, srn)
    return c


def id_(v): return id(v)
def subst(t, m):
    if isinstance(t, Var): return m.get(id(t), t)
    return Term(t.fn, *[subst(x, m) for x in t.args]) if isinstance(t, Term) else t
def occurs(v, t): return t is v or (isinstance(t, Term) and any(occurs(v, x) for x in t.args))


def ground_case(a):
    id, seed = a
    r = random.Random(seed)
    srn = r.choice(['sat3', 'sat7', 'bool', 'min', 'bot', 'int'])
    kind = r.choice(['flat', 'flat', 'struct'])
    if srn == 'int' and kind == 'flat':
        g = Flat(r, cyclic=False, builtins=r.random() < .4)
    else: g, _ = generate(r, kind)
    text = g.text()
    c = dict(kind='ground', id=id, status='ok', S=SEMIRINGS[srn][1], P=[], sol=[], gs=[], inst=[], again=[], text=f'{srn} {text}')
    with guard(c):
        p = lifted(text, srn)
        if r.random() < .3: p = Program(list(p.rules) + [r.choice(p.rules)], semiring=p.semiring)      # a rule twice
        if r.random() < .3: x = list(p.rules); r.shuffle(x); p = Program(x, semiring=p.semiring)
        c['P'] = enc_program(p, srn)
        chart = p.agenda() if r.random() < .5 else p.solver()().sol()
        c['sol'] = enc_sol(chart, srn)
        S = SEMIRINGS[srn][0]
        explicit = r.random() < .7
        for x in (p.groundings(chart) if explicit else p.groundings()):
            e = enc_rule(x.rule, srn)
            assert x.rule.i == x.i
            c['gs'].append(dict(i=x.i, h=e['h'], b=e['b'], w=enc_weight(mulall(S, x.value), srn)))
        G = p.instantiate(chart) if explicit else p.instantiate()
        c['inst'] = [enc_rule(x, srn) for x in G]
        c['again'] = enc_sol(Program(list(G), semiring=p.semiring).agenda(), srn)
    return c


def lookup_case(a):
    id, seed = a
    r = random.Random(seed)
    srn = r.choice(['int', 'sat3', 'min'])
    shapes = [('p', 1), ('p', 2), ('goal', 0), ('e', 0), ('q', 1)]
    rules = [gen_rule(r, srn) for _ in range(r.choice([1, 2, 3, 4]))]
    rules = [x for x in rules if not any(Program.is_builtin(y) for y in x.body)]
    if r.random() < .5: rules += [Rule(Term('p', r.choice([1, 2, Var('X')])), weight(srn, r.choice([1, 2]))) for _ in range(r.choice([1, 2, 3]))]
    inputs = r.choice([None, None, 'q(X).', 'q(X). e.', 'p(X).'])
    vs = [Var(v) for v in 'XYZ']
    f, n = r.choice(shapes)
    q = Term(f, *[r.choice(vs + [1, 2, Term('c'), Term('s', vs[0])]) for _ in range(n)])
    if r.random() < .08: q = vs[0]
    c = dict(kind='lookup', id=id, status='ok', S=SEMIRINGS[srn][1], P=[], q=enc_term(q, VarNames()), ans=[], input=False, text=f'{srn} {inputs} {q} ? {rules}')
    with guard(c):
        p = Program(rules, semiring=SEMIRINGS[srn][0], inputs=None if inputs is None else Program(inputs))
        c['P'] = eprog(p, srn)
        c['input'] = inputs is not None and not isinstance(q, Var) and any(x.head.fn == f and len(x.head.args) == n for x in Program(inputs))
        c['ans'] = eprog(p.user_lookup(q if r.random() < .7 else str_term(q)), srn)
    return c


def chart_case(a):
    id, seed = a
    r = random.Random(seed)
    C = Chart()
    ops = []; text = []
    consts = [1, 2, Term('c'), Term('f', 1)]
    c = dict(kind='chart', id=id, status='ok', S=SEMIRINGS['int'][1], ops=ops)
    with guard(c):
        for _ in range(r.randint(3, 25)):
            f, n = r.choice([('f', 2), ('f', 1), ('g', 3), ('h', 0), ('f', 2)])
            if r.random() < .5:
                t = Term(f, *[r.choice(consts) for _ in range(n)]); v = r.randint(1, 5)
                C[t] = v
                text.append(f'{t}={v}')
                ops.append(dict(op='set', t=enc_term(t, VarNames()), v=v))
            else:
                vs = [Var(v) for v in 'XY']
                q = Term(f, *[r.choice(vs + vs + consts[:2] + [Term('f', vs[0])]) for _ in range(n)])
                ans = []
                for v in C[q]: ans.append(dict(h=enc_term(deref(q), VarNames()), w=v))
                text.append(f'{q}?')
                ops.append(dict(op='ask', q=enc_term(q, VarNames()), ans=ans))
    c['text'] = ' '.join(text)
    return c


def every_case(a):
    "all patterns of a small arity over one program"
    id, text, srn, args, which = a
    c = dict(kind='query', id=id, status='ok', S=SEMIRINGS[srn][1], P=[], dom=[], q=['a'], ans=[], text=f'{srn} {which} {args} ? {text}')
    vs = {v: Var(v) for v in 'XYZ'}
    with guard(c):
        p = lifted(text, srn)
        c['P'] = enc_program(p, srn)
        q = Term('t', *[vs[x] if x in vs else x for x in args])
        c['q'] = enc_term(q, VarNames())
        s = p.solver() if which == 'solver' else p.solver2()
        c['ans'] = enc_sol(s.user_query(q), srn)
    return c


def run(chk):
    model_check(chk, 'AnswersMC', ['IndexExact', 'IndexCurrent'], spec='Spec', extra=f'CONSTANT MaxSteps = {3 if not THOROUGH else 4}\n')
    k = 1 if not THOROUGH else 12
    cases = []
    for fn, tag, n in [(query_case, 'q', 1500), (join_case, 'j', 1500), (ground_case, 'g', 1200), (lookup_case, 'l', 1500), (chart_case, 'c', 1200)]:
        cs = pmap(fn, [(f'{tag}{SEED}-{j}', f'{tag}{SEED}-{j}') for j in range(n * k)], chunksize=25)
        skipped = sum(1 for c in cs if c['status'] == 'skip')
        chk.note(f'{tag} skipped', skipped)
        assert skipped < len(cs) / 4
        cases += [c for c in cs if c['status'] != 'skip']
    todo = [(f'every-{w}-{"".join(map(str, a))}', 't(1,2,1) += 2. t(1,1,1). t(2,2,1). t(2,1,2) += 3. t(X,Y,Z) += t(Y,X,Z) * u(X). u(1).', 'sat7', a, w)
            for w in ('solver', 'solver2') for a in itertools.product(['X', 'Y', 'Z', 1, 2], repeat=3)]
    cases += pmap(every_case, todo, chunksize=10)
    random.Random(SEED).shuffle(cases)
    for j in range(0, len(cases), 3000):
        chk.judge('AnswersTrace', cases[j:j + 3000], lambda c: c['id'], samples='cases')
