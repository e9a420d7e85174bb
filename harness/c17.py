"""C17: bindings (spec/Bindings.tla, BindingsTrace.tla)."""
import random, contextlib, io
from enc import *
from lib import *
from c21 import enc
import dyna
from dyna.term import (unify, unifyN, covers, same, intersect, canonicalize, fresh, generalizer, deref, term_vars, is_ground,
                       unifies, Product, I, Join, ResultStream, Constant, Subst, is_var)
from dyna.builtin import Builtins
from dyna.exceptions import InstFault
from dyna.rule import Rule

GROUND = "e(a,b). e(b,c). e(a,c). e(c,f(a)). n(2,5). n(3,7). n(2,3). w(\"ab\"). w(\"b\"). t(a,b,a). t(b,b,c). t(f(a),a,c)."
NONGROUND = "e(a,b). e(X,f(X)). e(f(Y),Y). e(b,c). t(X,Y,X). t(a,Y,Z). t(X,f(Z),Z). t(b,b,c)."
RULES = NONGROUND + " e(X,Z) += e(X,Y) * t(Y,Z,X). n(2,5). n(3,7). w(\"ab\"). w(\"b\"). t(X,X,X) += e(X,Y) * (Y = X). inputs: i(_,_). outputs: e(_,_)."


class Boom(Exception):
    def __init__(self, n): self.n = n


class Names(dict):
    "names of variables by identity (a Var's hash depends on its binding)"
    def __init__(self): self.keep = []
    def name(self, v):
        if id(v) not in self:
            self.keep.append(v); self[id(v)] = f'V{len(self)}'
        return self[id(v)]


_worlds = {}
def world(kind):
    "programs and solved charts are shared by the histories of a process: leftovers of one would show in the next"
    if kind in _worlds: return _worlds[kind]
    if kind == 'solver': s = Program(GROUND).solver()(); heads = list(s.chart.chart)
    elif kind == 'solver2': s = Program(NONGROUND).solver2()(); heads = list(s.chart)
    else: s = Program(RULES); heads = [r.head for r in s]
    _worlds[kind] = (s, heads)
    return _worlds[kind]


class History:
    def __init__(self, id, kind, seed):
        self.r = random.Random(seed)
        self.kind = kind
        self.w, self.heads = world(kind)
        self.names = Names()
        self.vars = [Var(n) for n in 'XYZW'[:self.r.randint(2, 4)]]
        self.env = {v.name: v for v in self.vars}
        self.ev = []
        self.text = []
        self.left = 26

    def obs(self): return [enc(v, self.names) for v in self.vars]

    # goals ---------------------------------------------------------------
    def term(self, d=1):
        r = self.r; k = r.random()
        if d == 0 or k < .55: return r.choice(self.vars) if r.random() < .75 else Term(r.choice('abc'))
        if k < .8: return Term('f', self.term(d - 1))
        return Term('g', self.term(d - 1), self.term(d - 1))

    def g(self, t):  # terms of goals are written over the tracked variables
        t = t
        if isinstance(t, Var): return ['?', t.name]
        if isinstance(t, Term): return [t.fn] + [self.g(x) for x in t.args]
        return enc(t, Names())

    def facts(self, q):
        out = []
        for h in self.heads:
            if is_var(q) or (h.fn == q.fn and h.arity == q.arity): out.append(enc(h, Names()))
        if self.kind == 'program' and not is_var(q) and q.fn == 'i': out.append(['i', ['?', 'U1'], ['?', 'U2']])
        return ['facts', self.g(q), out]

    def atom(self, plain=False):
        "a subgoal and its description"
        r = self.r; k = r.random()
        if k < .5 or plain:
            f = r.choice(['e', 'e', 't'] + (['i'] if self.kind == 'program' else []))
            q = Term(f, *[self.term(r.choice([0, 0, 1])) for _ in range(3 if f == 't' else 2)])
            return q, self.facts(q)
        if k < .65:
            a, b = self.term(2), self.term(2)
            return Term('=', a, b), ['eq', self.g(a), self.g(b)]
        num = lambda: r.choice([2, 3, 5]) if r.random() < .5 else r.choice(self.vars)
        if k < .72 and self.kind != 'solver2':
            q = Term('n', num(), num()); return q, self.facts(q)
        if k < .85:
            op = r.choice(['+', '+', '-', '*', 'cat', 'abs'])
            if op == 'cat': x, rhs = r.choice(['ab', 'aba', 'a', r.choice(self.vars)]), Term('+', *[r.choice(['a', 'ab', r.choice(self.vars), r.choice(self.vars)]) for _ in '12'])
            elif op == 'abs': x, rhs = num(), Term('abs', num())
            else: x, rhs = num(), Term(op, num(), num())
            return Term('is', x, rhs), ['is', self.g(x), self.g(rhs)]
        op = r.choice(['<', '<=', '==', '!='])
        if op in ('==', '!='): a, b = self.term(), self.term()
        else: a, b = num(), num()
        return Term(op, a, b), ['cmp', op, self.g(a), self.g(b)]

    def goal(self):
        "(maker of the iterable, description, text)"
        r = self.r; w = self.w
        k = r.random()
        if k < .22:
            a, b = self.term(2), self.term(2)
            d = [['eq', self.g(a), self.g(b)]]
            how = r.choice(['unify', 'I', 'ResultStream', 'snap', 'eq-builtin'])
            mk = dict(unify=lambda: unify(a, b), I=lambda: I(a, b, 1), ResultStream=lambda: ResultStream(unify, a, b),
                      snap=lambda: Product((Term('=', a, b), Term('k', a))).snap_unifications())
            mk['eq-builtin'] = lambda: Builtins(w)(Term('=', a, b))
            return mk[how], d, f'{how} {a}={b}'
        if k < .32:
            n = r.randint(1, 3); xs = [self.term(2) for _ in range(n)]; ys = [self.term(2) for _ in range(n)]
            d = [['eq', self.g(x), self.g(y)] for x, y in zip(xs, ys)]
            how = r.choice(['unifyN', 'terms', 'snap', 'Join'])
            if how == 'Join' and n < 2: how = 'terms'
            def join():
                s = I(xs[0], ys[0], 1)
                for x, y in zip(xs[1:], ys[1:]): s = s * I(x, y, 1)
                return s
            mk = dict(unifyN=lambda: unifyN(xs, ys), terms=lambda: unify(Term('k', *xs), Term('k', *ys)), Join=join,
                      snap=lambda: Product([Term('=', x, y) for x, y in zip(xs, ys)]).snap_unifications())
            return mk[how], d, f'{how} {xs}={ys}'
        if k < .38 and self.kind == 'program':
            v = r.choice(self.vars)
            return (lambda: w.lookup(v)), ['var', v], f'lookup {v.name}'
        xs = []; d = []
        for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
            q, dd = self.atom(plain=r.random() < .4); xs.append(q); d.append(dd)
        if self.kind == 'program':
            how = r.choice(['join', 'getitem', 'lookup', 'lookup_vals']) if len(xs) == 1 else r.choice(['join', 'getitem', 'mul', 'split'])
            mk = dict(join=lambda: w.join(*xs), getitem=lambda: w[tuple(xs)], lookup=lambda: w.lookup(xs[0]), lookup_vals=lambda: w.lookup_vals(xs[0]),
                      mul=lambda: w[xs[0]] * w[tuple(xs[1:])], split=lambda: w[tuple(xs[:-1])] * w[xs[-1]])
        else:
            how = r.choice(['join', 'lookup_vals']) if len(xs) == 1 else r.choice(['join', 'rule'])
            mk = dict(join=lambda: w.join(Product(xs), w.one), lookup_vals=lambda: w.lookup_vals(xs[0]),
                      rule=lambda: w.ground_out_rule(Rule(Term('h', *self.vars), *xs)))
        return mk[how], d, f'{how} ' + ', '.join(map(str, xs))

    def pure(self):
        r = self.r; a, b = self.term(2), self.term(2); w = self.w
        xs = [self.atom(plain=True)[0] for _ in range(2)]
        rule = Rule(Term('h', a), *xs); rule2 = Rule(Term('h', b), *xs[::-1])
        p = w if self.kind == 'program' else w.program
        ops = dict(unifies=lambda: unifies(a, b), intersect=lambda: intersect(a, b), covers=lambda: covers(a, b), same=lambda: same(a, b),
                   canonicalize=lambda: canonicalize(a), generalizer=lambda: generalizer(deref(a), deref(b)), fresh=lambda: fresh(Term('k', a, b)), deref=lambda: deref(a),
                   rule_same=lambda: rule.same(rule2), rule_subst=lambda: Subst().mgu(deref(a), deref(b)), eq=lambda: a == b, product_eq=lambda: list(Product(xs).covers(Product(xs[::-1]))),
                   match=lambda: list(Product(xs).match_comm(Product(xs))), vars=lambda: term_vars(rule), text=lambda: (str(rule), str(p)), is_ground=lambda: is_ground(a),
                   program_eq=lambda: p == p.spawn(), ready=lambda: Builtins(w).is_ready(Term('is', a, Term('+', b, 2))) if self.kind != 'x' else 0,
                   align=lambda: p.align(p.spawn()), is_input=lambda: p.is_input(xs[0]),
                   some=lambda: next(iter(unify(a, b)), None), any=lambda: any(True for _ in unify(a, b)))
        if self.kind == 'program':
            ops.update(unfold=lambda: p.unfold(8, 1), unfold0=lambda: p.unfold(8, 0), folding=lambda: p.constant_folding(), user_lookup=lambda: p.user_lookup(xs[0]),
                       useful=lambda: p.prune(), builtins=lambda: p.run_builtins())
        else:
            ops.update(query=lambda: w.user_query(xs[0]))
        n = r.choice(list(ops))
        return n, ops[n]

    # histories -----------------------------------------------------------
    def steps(self, depth):
        for _ in range(self.r.choice([0, 0, 1, 1, 2])):
            if self.left <= 0: return
            self.left -= 1
            if self.r.random() < .3 or depth >= 3:
                n, f = self.pure()
                try:
                    with contextlib.redirect_stdout(io.StringIO()): f()
                except (InstFault, AssertionError, NotImplementedError, TypeError, ValueError): pass   # (a refusal; what matters are the bindings)
                self.text.append('  ' * depth + n)
                self.ev.append(['pure', n, self.obs()])
            else: self.open(depth)
            if depth and self.r.random() < .07: raise Boom(self.r.randint(1, depth))

    def answer(self, depth):
        self.ev.append(['ans', self.obs()]); self.text.append('  ' * depth + '  answer ' + str([str(v) for v in self.vars]))
        self.steps(depth + 1)

    def open(self, depth):
        r = self.r
        mk, d, text = self.goal()
        if d[0] == 'var': d = [['facts', self.g(d[1]), [enc(h, Names()) for h in self.heads]]]
        it = mk()
        reuse = isinstance(it, (I, Join, ResultStream)) and r.random() < .5
        if not reuse: it = None      # (nobody else holds on to the generator)
        for _ in range(2 if reuse else 1):
            stop = r.choice([0, 1, 1, 2, 3, 99, 99, 99])
            mode = r.choice(['for', 'for', 'close', 'del', 'throw', 'with'])
            self.text.append('  ' * depth + f'open {text} ({mode}, stop {stop})')
            self.ev.append(['open', d, self.obs()])
            how = 'exhausted'; n = 0
            try:
                if mode in ('for', 'with'):
                    for _ in (it if reuse else mk()):
                        self.answer(depth)
                        n += 1
                        if n == stop:
                            if mode == 'with': raise Boom(1)
                            how = 'dropped'; break
                else:
                    g = iter(it if reuse else mk())
                    while True:
                        try: next(g)
                        except StopIteration: break
                        self.answer(depth)
                        n += 1
                        if n == stop:
                            how = 'dropped'
                            if mode == 'close': g.close()
                            elif mode == 'throw':
                                try: g.throw(Boom(1))
                                except Boom: pass
                                except StopIteration: pass
                            del g
                            break
            except Boom as e:
                if e.n > 1:      # passes on to the enumeration around this one
                    g = None
                    raise Boom2(e.n - 1, e)
                how = 'dropped'
                self.text.append('  ' * depth + 'caught')
                ended = getattr(e, 'ended', 1)
                g = None; e.__traceback__ = None; del e
                self.end(ended, how, depth); continue
            except InstFault as e:
                how = 'raised'; e.__traceback__ = None; g = None; del e
            except TypeError as e:      # ill-typed builtin call
                how = 'raised'; self.text.append(f'TypeError {e}'); e.__traceback__ = None; g = None; del e
            self.end(1, how, depth)

    def end(self, n, how, depth):
        self.text.append('  ' * depth + f'end {n} {how}')
        self.ev.append(['end', n, how, self.obs()])


def Boom2(n, e):
    b = Boom(n); b.ended = getattr(e, 'ended', 1) + 1
    return b


def one(a):
    id, kind, seed = a
    c = dict(id=id, mode='program' if kind == 'program' else 'solver', status='ok', ev=[], clean=True)
    try:
        with limit(20):
            h = History(id, kind, seed)
            c['vars'] = [v.name for v in h.vars]
            c['init'] = h.obs()
            while h.left > 0: h.left -= 1; h.steps(0)
            own = []
            if kind == 'program': own = [v for r in h.w for v in term_vars(r)]
            elif kind == 'solver2': own = [v for x in h.w.chart for v in term_vars(x)]
            c['clean'] = all(is_var(v) for v in own)
            c['ev'] = h.ev
    except CaseTimeout:
        c['status'] = 'no answer'
    except Exception as ex:
        import traceback
        c['status'] = f'{type(ex).__name__}: {str(ex)[:200]} ' + traceback.format_exc()[-500:]
    c['text'] = f'{kind}\n' + '\n'.join(h.text)
    if c['status'] != 'ok' or not c['clean']: _worlds.clear()
    c.setdefault('init', []); c.setdefault('vars', [])
    return c


def run(chk):
    model_check(chk, 'Bindings', ['AnswerExact', 'Nested', 'Restored'], spec='Spec',
                extra=f'PROPERTY EndsClean\nPROPERTY SkipsOnlyFailing\nCONSTANT MaxDepth = 3\n')
    n = 1500 if not THOROUGH else 30000
    todo = [(f'{kind}-{SEED}-{k}', kind, f'c17-{SEED}-{kind}-{k}') for kind in ('program', 'solver', 'solver2') for k in range(n)]
    cases = pmap(one, todo, chunksize=50)
    for e in ('open', 'ans', 'pure'): chk.note(f'{e} events', sum(1 for c in cases for x in c['ev'] if x[0] == e))
    for how in ('exhausted', 'dropped', 'raised'): chk.note(f'enumerations {how}', sum(x[1] for c in cases for x in c['ev'] if x[0] == 'end' and x[2] == how))
    for i in range(0, len(cases), 1500):
        chk.judge('BindingsTrace', cases[i:i + 1500], lambda c: c['id'], samples='histories')
