"""C14: mutation histories of a program (spec/ProgramOps.tla, ProgramMC.tla, ProgramTrace.tla)."""
import random, contextlib, io
from enc import *
from lib import *
from dyna.term import deref, I, Product, fresh, unifies
from dyna.rule import Rule
from semirings import MinPlus as MP

SRS = ['int', 'int', 'int', 'sat3', 'min']


def weight(sr, n):
    S = SEMIRINGS[sr][0]
    return n if S is None else S(n)


def enc_body(xs, sr, vs):
    return [['%', enc_weight(snap(x), sr)] if Program.is_const(snap(x)) else enc_term(x, vs) for x in xs]


def er(r, sr, vs=None):
    vs = VarNames() if vs is None else vs
    return dict(h=enc_term(r.head, vs), b=enc_body(r.body, sr, vs))


def eprog(p, sr): return [er(r, sr) for r in p]


def rebuild(t, m):
    t = snap(t)
    if isinstance(t, Var):
        if id(t) not in m: m[id(t)] = (Var('N'), t)
        return m[id(t)][0]
    if isinstance(t, Term): return Term(t.fn, *[rebuild(x, m) for x in t.args])
    return t


def copy_rule(r, perm=None):
    m = {}
    b = [rebuild(x, m) for x in r.body]
    if perm: perm(b)
    return Rule(rebuild(r.head, m), *b)


def twin(p):
    return Program([copy_rule(r) for r in p], inputs=p.inputs, outputs=p.outputs, semiring=p.semiring, has_builtins=p.has_builtins)


FS = ['a', 'f', 'g', 'q', 'e']
AR = dict(a=0, f=1, g=2, q=1, e=0)


def item(r, vs, d=1):
    f = r.choice(FS)
    def arg(d):
        k = r.random()
        if k < .5: return r.choice(vs)
        if k < .85 or d == 0: return Term(r.choice('cd'))
        return Term('s', arg(d - 1))
    return Term(f, *[arg(d) for _ in range(AR[f])])


def rule(r, sr, wild=True):
    vs = [Var(n) for n in 'XYZ']
    h = item(r, vs)
    if wild and r.random() < .04: h = vs[0]
    k = r.random()
    c = lambda: weight(sr, r.choice({'int': [0, 1, 1, 2, 3, -1, -2], 'sat3': [0, 1, 1, 2, 3], 'min': [0, 0, 1, 2, MINCAP and 5]}[sr]))
    if sr == 'min' and r.random() < .1: return Rule(h, MP.zero)
    if k < .12: b = []
    elif k < .5: b = [c()]
    elif k < .6: b = [c(), c()]
    else:
        b = [item(r, vs) for _ in range(r.choice([1, 1, 2, 2, 3]))]
        for _ in range(r.choice([0, 0, 1, 2])): b.insert(r.randrange(len(b) + 1), c())
    return Rule(h, *b)


def chart_like(x): return x


READS = ['degree', 'degrees', 'signature', 'hash', 'prune_fast', 'prune_very_fast', 'prune', 'prune_bottom_up', 'prune_ns', 'cf', 'measure', 'str', 'coarse', 'solve', 'len', 'heads', 'iter', 'io', 'bool']


def answer(p, name, sr):
    "a read as a sequence of rules"
    atom = lambda s: [dict(h=[str(s)], b=[])]
    if name == 'degree': return atom(p.degree)
    if name == 'degrees': return atom(str(p.degrees()))
    if name == 'signature': return atom(hash(p.signature))
    if name == 'hash': return atom(hash(p))
    if name == 'len': return atom(len(p))
    if name == 'heads': return [dict(h=enc_term(h, VarNames()), b=[]) for h in p.just_heads()]
    if name == 'iter': return eprog(list(p), sr)
    if name == 'io': return atom([(p.is_input(Term(f, *[Var('U') for _ in range(n)])), p.is_output(Term(f, *[Var('U') for _ in range(n)]))) for f, n in AR.items()])
    if name == 'bool':
        q = p.booleanize(); return [dict(h=enc_term(x.head, VarNames()), b=[]) for x in q]
    if name == 'cf': return eprog(p.constant_folding(), sr)
    if name == 'str': return atom(p.__repr__(color=False)) if not any(True for r in p for _ in ()) else []
    if name == 'coarse':
        g = p._coarse_graph(); return atom(sorted(map(str, p.coarse_nodes())) and '')
    if name == 'solve':
        s = p.step(p.spawn())      # one step from nothing: the rules without subgoals
        return eprog(s, sr)
    if name == 'measure': return []
    f = dict(prune_fast=lambda: p.prune_fast(), prune_very_fast=lambda: p.prune_very_fast(), prune=lambda: p.prune(),
             prune_bottom_up=lambda: p.prune_bottom_up(), prune_ns=lambda: p.prune(specialize=False))[name]
    return eprog(f(), sr)


def attempt(p, name, sr):
    with contextlib.redirect_stdout(io.StringIO()):
        try: return answer(p, name, sr)
        except (CaseTimeout, Unencodable): raise
        except Exception as e: return [dict(h=['error ' + type(e).__name__], b=[])]


def one(a):
    id, sr, birth, n, seed = a
    r = random.Random(seed)
    ops = []; text = []
    c = dict(id=id, S=SEMIRINGS[sr][1], P=[], ops=ops, status='ok')
    S = SEMIRINGS[sr][0]
    p = None
    def after(): return eprog(p.rules, sr)
    try:
        with limit(30):
            io_ = {}
            if r.random() < .5: io_ = dict(outputs=Program('f(X). a.') if r.random() < .5 else Program('g(X,Y).'))
            if r.random() < .4: io_['inputs'] = Program('q(X).') if r.random() < .5 else Program('e. q(X).')
            p = Program([rule(r, sr) for _ in range(r.choice([0, 1, 2, 3]))], semiring=S, **io_)
            if birth != 'plain':
                wild = [x for x in p if isinstance(x.head, Var)]
                for x in wild: p.rules.remove(x)
                try:
                    if birth == 'cf': p = p.constant_folding()
                    elif birth == 'fresh': p = p.fresh()
                    elif birth == 'spawn': p = p.spawn(list(p))
                    elif birth == 'plus': p = p + [rule(r, sr)]
                    elif birth == 'minus': p = (p + [rule(r, sr), rule(r, sr)]) - [0]
                    elif birth == 'sort': p = p.sort()
                    elif birth == 'prune': p = p.prune_fast()
                    elif birth == 'step': p = p.step(p.spawn())
                except Exception: return None
            c['P'] = after()
            text.append(str(p.__repr__(color=False)))
            snaps = [list(p.rules)]
            fav = r.sample(READS, 3)      # a read is repeated around mutations
            for _ in range(n):
                k = r.random()
                vs = [Var(v) for v in 'XYZ']
                if k < .33:
                    x = rule(r, sr)
                    if r.random() < .4 and len(p):      # the same item as before
                        y = r.choice(p.rules); m = {}
                        x = Rule(rebuild(y.head, m), *x.body) if all(Program.is_const(t) for t in x.body) else Rule(rebuild(y.head, m), *[rebuild(t, m) for t in y.body])
                    how = r.choice(['append', 'append', 'update', 'set'])
                    e = er(x, sr)
                    text.append(f'{how} {x}')
                    if how == 'set' and len(x.body) == 1 and not isinstance(x.head, Var):
                        free = [v for v in set_vars(x.body) if v not in set_vars((x.head,))]
                        p[x.head] = x.body[0] if r.random() < .5 else Product(x.body)
                    elif how == 'update': p.update(x.head, *x.body)
                    else: p.append(x)
                    ops.append(dict(op='upd', r=e, after=after())); snaps.append(list(p.rules))
                elif k < .43 and len(p):
                    i = r.randrange(len(p))
                    text.append(f'pop {i}')
                    ops.append(dict(op='pop', i=i, popped=er(p.pop(i), sr), after=after())); snaps.append(list(p.rules))
                elif k < .46:
                    text.append('declarations')
                    if r.random() < .5: p.set_output_types(r.choice(['f(X).', 'a. g(X,Y).', 'e.', 'f(c).']))
                    else: p.set_input_types(r.choice(['q(X).', 'e.', 'f(X).']))
                elif k < .58:
                    q = item(r, vs) if r.random() < .93 else vs[0]
                    text.append(f'lookup {q}')
                    was = p.inputs; p.inputs = None      # (inputs are answered as themselves, see C25)
                    try: ans = []; 
                    finally: pass
                    for x in p.lookup(q):
                        nm = VarNames()
                        ans.append(dict(i=x.i, q=enc_term(deref(q), nm), h=enc_term(x.head, nm), b=enc_body([deref(y) for y in x.body], sr, nm)))
                    p.inputs = was
                    ops.append(dict(op='lookup', q=enc_term(q, VarNames()), ans=ans))
                elif k < .64:
                    f = r.choice(FS + ['zz']); text.append(f'f2r {f}')
                    ops.append(dict(op='f2r', f=f, ans=list(p.f2r(f))))
                elif k < .69:
                    text.append('syms'); ops.append(dict(op='syms', ans=sorted(p.syms)))
                elif k < .71:
                    f = r.choice(FS); text.append('gen ' + f); ops.append(dict(op='gen', ans=p._gen_functor(f)))
                elif k < .74:
                    q = item(r, vs); text.append(f'item {q}'); ops.append(dict(op='item', q=enc_term(q, VarNames()), ans=bool(p.is_item(q))))
                elif k < .84:
                    rs = list(r.choice(snaps + [p.rules, p.rules]))
                    if r.random() < .3 and rs: rs[r.randrange(len(rs))] = rule(r, sr, wild=False)
                    rs = [copy_rule(x, r.shuffle) for x in rs]; r.shuffle(rs)
                    o = Program(rs, semiring=p.semiring)
                    text.append(f'eq {o.__repr__(color=False)}')
                    ops.append(dict(op='eq', Q=eprog(o, sr), ans=[bool(p == o if r.random() < .5 else o == p), hash(p) == hash(o)]))
                else:
                    name = r.choice(fav if r.random() < .8 else READS); text.append(name)
                    if 'prune' in name and any(isinstance(x.head, Var) for x in p): continue     # (rules for every item at once are outside the type language)
                    x, y = attempt(p, name, sr), attempt(twin(p), name, sr)
                    if name == 'str': x = y = []
                    ops.append(dict(op='twin', name=name, x=x, y=y))
    except CaseTimeout:
        c['status'] = 'no answer'
    except Unencodable:
        return None
    except Exception as ex:
        import traceback
        c['status'] = f'{type(ex).__name__}: {str(ex)[:200]} ' + traceback.format_exc()[-400:]
    c['text'] = f'{sr} {birth} ' + ' ; '.join(text)
    return c


def set_vars(ts):
    from dyna.term import term_vars
    return term_vars(Product(ts))


def run(chk):
    model_check(chk, 'ProgramMC', ['Coherent', 'IndexRight', 'BucketRight', 'CacheRight', 'LookupByIndex'], spec='Spec',
                extra=f'CONSTANT MaxLen = {3 if not THOROUGH else 4}\n')
    n = 6000 if not THOROUGH else 60000
    todo = []
    for k in range(n):
        r = random.Random(f'c14-{SEED}-{k}')
        todo.append((f'{SEED}-{k}', r.choice(SRS), r.choice(['plain'] * 6 + ['cf', 'fresh', 'spawn', 'plus', 'minus', 'sort', 'prune', 'step']), r.randint(4, 14), f'{SEED}-{k}'))
    cases = [c for c in pmap(one, todo, chunksize=50) if c]
    for o in ('upd', 'pop', 'lookup', 'eq', 'twin'): chk.note(f'{o} steps', sum(1 for c in cases for x in c['ops'] if x['op'] == o))
    for i in range(0, len(cases), 2000):
        chk.judge('ProgramTrace', cases[i:i + 2000], lambda c: c['id'], samples='histories')
