"""C21: builtins (spec/Builtins.tla, BuiltinsMC.tla, BuiltinsTrace.tla)."""
import random, itertools
from enc import *
from lib import *
from dyna.term import deref, term_vars, Product
from dyna.builtin import Builtins, cmps, BuiltinConstraint, NotMatchesConstraint, lam
from dyna.exceptions import InstFault


def enc(t, vs):
    t = snap(t)
    if isinstance(t, Var): return ['?', vs.name(t)]
    if isinstance(t, Term):
        if t.fn == '$not_matches':
            x = t.args[0]; x = x() if callable(x) else dyna.syntax.term(x)
            return ['$not_matches', _own(enc(x, VarNames())), enc(t.args[1], vs)]
        return [t.fn] + [enc(x, vs) for x in t.args]
    if isinstance(t, bool): return [f"'b:{t}"]
    if isinstance(t, int): return ['#', t, 1]
    if isinstance(t, float):
        f = Fraction(t).limit_denominator(1000)
        if abs(float(f) - t) > 1e-9: raise Unencodable(f'{t}')
        return ['#', f.numerator, f.denominator]
    if isinstance(t, str): return ["'s"] + [[c] for c in t]
    return [f"'{type(t).__name__}:{t}"]


def _own(t):
    if t[0] == '?': return ['?', 'N' + t[1]]
    return t if t[0] == '#' else [t[0]] + [_own(x) for x in t[1:]]


C, F1 = ('c',), ('f', 'A')
BASE = [0, 1, 2, -2, .5, True, 'ab', 'a', '', C]


class V(str): pass
A_, B_ = V('A'), V('B')


def mk(t, env):
    if isinstance(t, V):
        if t not in env: env[t] = Var(str(t))
        return env[t]
    if isinstance(t, tuple): return Term(t[0], *[mk(V(x) if x in ('A', 'B') else x, env) for x in t[1:]])
    return t


def rule_enc(r, vs=None):
    vs = VarNames() if vs is None else vs
    w = 1.0; b = []
    for x in r.body:
        x = snap(x)
        if Program.is_const(x): w *= x
        else: b.append(enc(x, vs))
    if w != int(w): raise Unencodable(str(w))
    return dict(h=enc(r.head, vs), b=b, w=int(w))


def collect(gen, obs, cap=60):
    try:
        out = []
        for _ in gen:
            out.append(obs())
            if len(out) > cap: return ['err', 'endless']
        return ['ans', out]
    except InstFault:
        return ['delay']
    except CaseTimeout:
        raise
    except Exception as e:
        return ['err', f'{type(e).__name__}: {str(e)[:120]}']


def call(a):
    "one call of an `is` builtin through one of the evaluation sites"
    id, op, xs, site = a
    env = {}
    ts = [mk(t, env) for t in xs]
    vs = VarNames()
    if site == 'bound':       # variables of the call are bound to the values instead of being replaced by them
        ts2 = []
        for t in ts:
            v = Var(); v.value = t; ts2.append(v)
        ts = ts2
    q = Term('is', ts[0], Term(op, *ts[1:]))
    obs = lambda: [enc(deref(t), vs) for t in ts]
    before = obs()
    c = dict(id=id, kind='call', op=op, x=before[0], **{'as': before[1:]}, text=f'{q}')
    try:
        with limit(5):
            B = Builtins(None)
            if op == 'int' and isinstance(snap(ts[1]), Var) and snap(ts[0]) is True:
                it = B(q); out = []
                for _ in range(9):
                    next(it); out.append(obs())
                it.close()
                return dict(c, kind='gen', n=9, out=['ans', out])
            try: c['ready'] = bool(B.is_ready(q))
            except Exception: c['ready'] = False
            if site in ('direct', 'bound'): c['out'] = collect(B(q), obs)
            elif site == 'program':
                p = Program('')
                out = []
                for r in p.lookup(q):
                    if r.is_const(): out.append(obs())
                    else: out = None; break
                c['out'] = ['delay'] if out is None else ['ans', out]
            else:
                s = (Program('').solver() if site == 'solver' else Program('').solver2())
                c['out'] = collect(s.lookup_vals(q), obs)
    except CaseTimeout:
        c['out'] = ['err', 'no answer']; c.setdefault('ready', False)
    except Exception as e:
        c['out'] = ['err', f'{type(e).__name__}: {str(e)[:120]}']; c.setdefault('ready', False)
    c['restored'] = obs() == before
    return c


def sub(a):
    "a builtin subgoal through one of the evaluation sites"
    id, op, x, y, site = a
    env = {}
    vs = VarNames()
    try:
        with limit(5):
            if op == '$not_matches':
                q = NotMatchesConstraint('$not_matches', lam(mk(x, {})), mk(y, env))
            else:
                q = Term(op, mk(x, env), mk(y, env))
            obs = lambda: enc(deref(q) if op != '$not_matches' else q, vs)[1:]
            before = obs()
            c = dict(id=id, kind='sub', b=enc(q, vs), text=str(q))
            if site == 'program':
                p = Program(''); out = []
                for r in p.lookup(q):
                    if r.is_const(): out.append(obs())
                    else: out = None; break
                c['out'] = ['delay'] if out is None else ['ans', out]
            else:
                s = (Program('').solver() if site == 'solver' else Program('').solver2())
                c['out'] = collect(s.lookup_vals(q), obs)
            c['restored'] = obs() == before
    except CaseTimeout:
        c['out'] = ['err', 'no answer']; c['restored'] = True
    except Exception as e:
        c['out'] = ['err', f'{type(e).__name__}: {str(e)[:120]}']; c['restored'] = True
    return c


VARS = ['X', 'Y', 'Z', 'W']
DOM = list(range(-2, 5))


def rsystem(r, nv, nb):
    "builtin subgoals over the variables, as text"
    vs = VARS[:nv]
    arg = lambda: r.choice(vs * 3 + ['0', '1', '2', '3', '-1'])
    var = lambda: r.choice(vs)
    out = []
    for _ in range(nb):
        k = r.random()
        if k < .4: out.append(f'({arg() if r.random() < .3 else var()} is {arg()} {r.choice("++-*")} {arg()})')
        elif k < .5: out.append(f'({var()} is {r.choice(["abs", "-"])}({arg()}))'.replace('-(', '-('))
        elif k < .58: out.append(f'({arg()} is {r.choice(["min", "max"])}({arg()},{arg()}))')
        elif k < .66: out.append(f'({var()} is {arg()} / {r.choice(["1", "2", "-1", var(), "0"])})')
        elif k < .78: out.append(f'({var()} = {arg()})')
        elif k < .82: out.append(f'(true is {var()} {r.choice(["<", ">=", "=="])} {arg()})')
        elif k < .85: out.append(f'(true is range({var()},{r.randint(-1, 1)},{r.randint(0, 3)}))')
        else: out.append(f'({var()} {r.choice(["<", "<=", ">", ">=", "!=", "=="])} {arg()})')
    return out


def system(a):
    id, text, f, how, resolved = a
    c = dict(id=id, kind='sys', f=f, status='ok', resolved=resolved, text=f'{how}: {text}', D=[['#', n, 1] for n in DOM], P=[], R=[])
    try:
        with limit(10):
            p = Program(text)
            c['P'] = [rule_enc(r) for r in p]
            if how == 'run_builtins': q = p.run_builtins()
            elif how == 'fc': q = p.fc(max_iter=5).run_builtins()
            elif how == 'seminaive': q = p.seminaive(T=5).run_builtins()
            elif how == 'agenda': q = p.agenda(max_iter=40).run_builtins()
            elif how == 'folding': q = p.run_builtins().constant_folding()
            elif how == 'solver': q = p.solver()().sol()
            elif how == 'solver2': q = p.solver2()().sol()
            c['R'] = [x for x in (rule_enc(r) for r in q) if x['h'][0] == f]
    except InstFault:
        return None if how.startswith('solver') else dict(c, status='InstFault')
    except CaseTimeout:
        c['status'] = 'no answer'
    except Unencodable as e:
        return None
    except Exception as e:
        if type(e).__name__ == 'SolverLimitation': return None
        c['status'] = f'{type(e).__name__}: {str(e)[:200]}'
    return c


def run(chk):
    model_check(chk, 'BuiltinsMC', ['RightAnswers', 'Distinct', 'IllTypedEmpty', 'EarlySound'], init='Init1', next_='Next1')
    model_check(chk, 'BuiltinsMC', ['Final', 'Entailed'], init='Init2', next_='Next2')
    sites = ['direct', 'program', 'solver', 'solver2', 'bound']
    calls = []
    n = 0
    def bools(ts): return any(t is True for t in ts)
    for op in ['-', '+', 'abs', '!', 'str', 'int']:
        for x in [A_, B_] + BASE + [False]:
            for y in [A_] + BASE + [False, F1]:
                if op in ('-', '+', 'abs') and (bools([x, y]) or x is False or y is False): continue
                if op == 'int' and isinstance(y, bool): continue
                # 1 == True == 1.0 in Python, so numbers are not compared with truth values
                if op in ('!', 'str', 'int') and (isinstance(x, (int, float)) and not isinstance(x, bool)): continue
                if op == '!' and isinstance(y, (int, float)) and not isinstance(y, bool): continue
                for s in sites: calls.append((f'call-{op}({x},{y})-{s}', op, (x, y), s))
    for op in ['+', '-', '*', '/', 'min', 'max', '<', '<=', '>', '>=', '==', '!=']:
        cmp = op in cmps
        for x in [A_, B_, True, False] if cmp else [A_, B_] + BASE:
            for y in [A_] + BASE + [F1]:
                for z in [A_, B_] + BASE + [F1]:
                    if bools([y, z]) or (not cmp and x is True): continue
                    if op == '/' and any(isinstance(t, str) and not isinstance(t, V) for t in (x, y, z)): continue
                    if op in ('min', 'max', '<', '<=', '>', '>=') and C in (y, z) and F1 in (y, z): continue
                    n += 1
                    for s in (sites if THOROUGH else [sites[n % 5]]):
                        calls.append((f'call-{op}({x},{y},{z})-{s}', op, (x, y, z), s))
    for x in [True, False, A_]:
        for y in [A_, B_, 0, 2, 5, C]:
            for a in [B_, -1, 0, 2]:
                for b in [B_, A_, 0, 1, 3]:
                    if x is False or x is A_ and y is not A_: continue
                    calls.append((f'call-range({x},{y},{a},{b})', 'range', (x, y, a, b), sites[len(calls) % 5]))
    cases = pmap(call, calls, chunksize=128)
    subs = []
    for op in ['=', '<', '<=', '>', '>=', '==', '!=']:
        for x in [A_, B_, 0, 1, .5, 'a', 'ab', C, F1, ('f', 1), ('f', 'B')]:
            for y in [A_, B_, 0, 1, .5, 'a', 'ab', C, F1, ('f', 1), ('f', 'B')]:
                for s in ['program', 'solver', 'solver2']: subs.append((f'sub-{op}({x},{y})-{s}', op, x, y, s))
    pats = [('f', 'A', 'B'), ('f', 'A', 'A'), ('f', 1, 'A'), ('f', C, 'B'), ('g', 'A'), ('f', ('g', 'A'), 'B'), ('f', ('g', 'A'), 'A')]
    tms = [A_, ('f', 1, 2), ('f', 1, 1), ('f', 'A', 'B'), ('f', 'A', 'A'), ('f', 1, 'A'), ('f', ('g', 2), 2), ('f', ('g', 'A'), 'A'), ('f', ('g', 'A'), ('g', 'B')), ('g', 3), C, 1]
    for x in pats:
        for y in tms:
            for s in ['program', 'solver', 'solver2']: subs.append((f'sub-not_matches({x},{y})-{s}', '$not_matches', x, y, s))
    cases += pmap(sub, subs, chunksize=128)
    for i in range(0, len(cases), 8000):
        chk.judge('BuiltinsTrace', cases[i:i + 8000], keyf=lambda c: c['id'], samples='builtin calls judged')
    # delayed builtins
    todo = []
    for k in range(260 if not THOROUGH else 3000):
        r = random.Random(f'c21-{SEED}-{k}')
        nv = r.choice([2, 3, 3]); nb = r.randint(2, 4)
        head = f'h({",".join(VARS[:nv])})'
        bs = rsystem(r, nv, nb)
        perms = list(itertools.permutations(bs))
        r.shuffle(perms)
        for j, b in enumerate(perms[:4 if not THOROUGH else 12]):
            w = r.choice(['', '', ' * 2'])
            todo.append((f'sys-{SEED}-{k}-{j}', f'{head} += {" * ".join(b)}{w}.', 'h', r.choice(['run_builtins', 'run_builtins', 'folding']), True))
    for k in range(160 if not THOROUGH else 2000):
        r = random.Random(f'c21f-{SEED}-{k}')
        nv = r.choice([2, 2, 3])
        head = f'h({",".join(VARS[:nv])})'
        facts = ''
        at = []
        for v in VARS[:r.randint(1, nv)]:
            f = 'd' + v.lower()
            at.append(f'{f}({v})')
            for n in r.sample(DOM, r.randint(1, 3)): facts += f' {f}({n}) += {r.choice([1, 1, 2])}.'
        if r.random() < .4:
            at.append(f'e({VARS[0]},{VARS[1]})')
            for _ in range(r.randint(1, 4)): facts += f' e({r.choice(DOM)},{r.choice(DOM)}) += {r.choice([1, 3])}.'
        bs = rsystem(r, nv, r.randint(1, 2)) + at
        for j in range(3 if not THOROUGH else 6):
            r.shuffle(bs)
            for how in ['fc', 'seminaive', 'agenda', 'solver', 'solver2'] if j == 0 or THOROUGH else r.sample(['fc', 'seminaive', 'agenda', 'solver', 'solver2'], 2):
                todo.append((f'eng-{SEED}-{k}-{j}-{how}', f'{head} += {" * ".join(bs)}.{facts}', 'h', how, not how.startswith('solver')))
    res = pmap(system, todo, chunksize=16)
    chk.note('systems refused (solver needs an order)', sum(1 for c in res if c is None))
    cases = [c for c in res if c is not None]
    for i in range(0, len(cases), 4000):
        chk.judge('BuiltinsTrace', cases[i:i + 4000], keyf=lambda c: c['id'], samples='delayed systems judged')
