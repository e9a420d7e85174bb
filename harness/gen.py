"""Random program generators (all randomness from the given rng)."""
import random


def _fmt(f, args):
    return f if not args else f'{f}({",".join(map(str, args))})'


class Flat:
    """Function-free programs: EDB facts over a small constant domain and IDB rules."""
    def __init__(self, rng, nonground=False, builtins=False, maxrules=5, maxbody=3, cyclic=True, weights=(1, 1, 2),
                 consts=(1, 2, 3), nedb=2, nidb=3, selfjoin=0.5, nfacts=(2, 5), dup=0.15, zeroary=True, eqs=False):
        self.eqs = eqs
        self.rng = rng
        self.consts = list(consts)
        self.weights = weights
        self.nonground = nonground
        ar = [1, 2, 2] if not zeroary else [0, 1, 1, 2, 2]
        self.edb = {f'b{i}': rng.choice([1, 2, 2]) for i in range(rng.randint(1, nedb))}
        self.idb = {f'p{i}': rng.choice(ar) for i in range(rng.randint(1, nidb))}
        self.facts = []
        for f, a in self.edb.items():
            for _ in range(rng.randint(*nfacts)):
                args = [rng.choice(self.consts) for _ in range(a)]
                if nonground and rng.random() < .3:
                    args[rng.randrange(a)] = 'X'
                    if a == 2 and rng.random() < .3: args = ['X', rng.choice(['X', 'Y'])]
                self.facts.append(f'{_fmt(f, args)} += {rng.choice(weights)}.')
        self.rules = []
        names = list(self.idb)
        for n in range(rng.randint(max(2, len(names)), maxrules)):
            h = names[n] if n < len(names) else rng.choice(names)
            self.rules.append(self.rule(h, maxbody, builtins, cyclic, names, selfjoin))
        if rng.random() < dup and self.rules:
            self.rules.append(rng.choice(self.rules))

    def rule(self, h, maxbody, builtins, cyclic, names, selfjoin):
        rng = self.rng
        nv = rng.randint(1, 3)
        vs = ['X', 'Y', 'Z'][:nv]
        body = []
        k = rng.choice([1, 2, 2, 3][:maxbody + 1])
        k = min(k, maxbody)
        avail = dict(self.edb)
        for g in names:
            if cyclic or names.index(g) < names.index(h): avail[g] = self.idb[g]
        fs = sorted(avail)
        prev = None
        for j in range(k):
            f = prev if prev and rng.random() < selfjoin * .5 else rng.choice(fs)
            prev = f
            args = [rng.choice(vs) if rng.random() < .85 else rng.choice(self.consts) for _ in range(avail[f])]
            body.append((f, args))
        bound = [x for _, a in body for x in a if x in vs]
        # keep at least one EDB subgoal with positive probability to avoid dead programs
        if not any(f in self.edb for f, _ in body) and rng.random() < .6:
            f = rng.choice(sorted(self.edb))
            args = [rng.choice(vs) for _ in range(self.edb[f])]
            body[rng.randrange(len(body))] = (f, args)
            bound = [x for _, a in body for x in a if x in vs]
        def harg():
            if self.nonground and rng.random() < .12: return 'W'
            if bound and rng.random() < .9: return rng.choice(bound)
            return rng.choice(self.consts)
        head = (h, [harg() for _ in range(self.idb[h])])
        txt = [_fmt(f, a) for f, a in body]
        if builtins and bound and rng.random() < .6:
            x = rng.choice(bound); y = rng.choice(bound + [rng.choice(self.consts)])
            op = rng.choice(['<', '<=', '>', '>=', '='])
            txt.append(f'({x} {op} {y})')
        if self.eqs and bound and rng.random() < .5:
            txt.append(f'({rng.choice(bound)} = {rng.choice(bound + [rng.choice(self.consts)])})')
        if rng.random() < .3: txt.insert(rng.randint(0, len(txt)), str(rng.choice([2, 2, 1])))
        return f'{_fmt(*head)} += {" * ".join(txt)}.'

    def text(self):
        return '\n'.join(self.facts + self.rules)


def stratify_ok(rules):
    return True


CATALOG = {
    # name: (program, data variants)
    'path': ('''
        path(X,X) += n(X).
        path(X,Z) += path(X,Y) * e(Y,Z).
        goal += s(X) * path(X,Y) * f(Y).
     ''', ['n(1). n(2). n(3). e(1,2). e(2,3). e(1,3). s(1). f(3).',
           'n(1). n(2). n(3). e(1,2). e(2,3). e(3,1). e(2,2). s(1). s(2). f(3).']),
    'tc2': ('''
        t(X,Y) += e(X,Y).
        t(X,Z) += t(X,Y) * t(Y,Z).
     ''', ['e(1,2). e(2,3). e(3,4).', 'e(1,2). e(2,1). e(2,2).', 'e(1,1).']),
    'cky': ('''
        phrase(X,I,K) += rule(X,Y,Z) * phrase(Y,I,J) * phrase(Z,J,K).
        phrase(X,I,K) += rule(X,Y) * phrase(Y,I,K).
        phrase(X,I,K) += rule(X,Y) * word(Y,I,K).
        goal += phrase(s,0,N) * length(N).
     ''', ['rule(s,np,vp). rule(np,a). rule(vp,b). rule(np,np,np). rule(vp,vp,np). word(a,0,1). word(a,1,2). word(b,2,3). word(a,3,4). length(4).']),
    'fib': ('fib(0) += 1. fib(1) += 1. fib(N) += fib(M) * (N is M+1) * (N < 7). fib(N) += fib(M) * (N is M+2) * (N < 7).', ['']),
    'count': ('c(0) += 1. c(N) += c(M) * (M < 5) * (N is M + 1). goal += c(N).', ['']),
    'selfsq': ('a += f(X) * f(X). b += f(X) * f(Y). c += f(X) * f(X) * f(Y). f(X) += g(X) * a0. a0 += 1. a0 += a0 * z.',
               ['g(1) += 2. g(2) += 1. z.', 'g(1).']),
    'lists': ('''
        suf(Xs) += lst(Xs).
        suf(Xs) += suf([X|Xs]).
        mem(X) += suf([X|Xs]).
        len0 += suf([]).
      ''', ['lst([1,2,2]). lst([3]).', 'lst([]).', 'lst([1,[2]]).']),
    'geom': ('x += 1. x += x * h. y += x * x.', ['h += 1.', 'h += 0.']),
    'nested': ('''
        q(f(X)) += p(X). q(g(X,Y)) += p(X) * p(Y) * r(X,Y).
        s(X) += q(f(X)). s(X) += q(g(X,X)). t(X,Y) += q(X) * q(Y) * eqq(X,Y).
       ''', ['p(1). p(2). r(1,1). r(1,2). r(2,2). eqq(f(1),f(1)). eqq(f(1),g(1,1)) += 2.']),
    'edit': ('''
        d(0,0) += 1.
        d(I,J) += d(I0,J) * wx(I0,I).
        d(I,J) += d(I,J0) * wy(J0,J).
        d(I,J) += d(I0,J0) * wx(I0,I) * wy(J0,J) * m(I,J).
        goal += d(I,J) * nx(I) * ny(J).
       ''', ['wx(0,1). wx(1,2). wy(0,1). wy(1,2). m(1,1). m(2,2) += 2. m(2,1). nx(2). ny(2).']),
}
NONGROUND = {
    'ng1': ('f(X) += 1. goal += f(1) * f(2).', ['']),
    'ng2': ('f(X) += 1. f(1) += 2. g(X) += f(X) * h(X). k(X,Y) += f(X) * f(Y) * e(X).', ['h(1). h(2). e(1).']),
    'ng3': ('q(X,X) += 1. q(1,Y) += 2. r(X,Y) += q(X,Y) * q(Y,X). goal += r(1,2). goal += r(2,2).', ['']),
    'ng4': ('a(X,Y) += b(X). b(1) += 2. c(Y) += a(1,Y). d += c(3) * c(3). e(Z) += a(Z,2).', ['', 'b(2).']),
}


class Struct:
    """Stratified programs that build and take apart terms (finite by stratification), plus
    recursion over structure that only shrinks."""
    def __init__(self, rng, layers=3, nfacts=(2, 4), weights=(1, 1, 2)):
        self.rng = r = rng
        self.edb = {'b0': r.choice([1, 2]), 'b1': r.choice([1, 2])}
        self.idb = {}
        self.facts, self.rules = [], []
        for f, a in self.edb.items():
            for _ in range(r.randint(*nfacts)):
                self.facts.append(f'{_fmt(f, [self.gterm() for _ in range(a)])} += {r.choice(weights)}.')
        avail = dict(self.edb)
        for n in range(r.randint(1, layers)):
            h, a = f'p{n}', r.choice([0, 1, 1, 2])
            for _ in range(r.choice([1, 1, 2])):
                body = []
                for _ in range(r.choice([1, 1, 2, 2, 3])):
                    f = r.choice(sorted(avail))
                    body.append((f, [self.pat() for _ in range(avail[f])]))
                bound = sorted(set(v for _, args in body for x in args for v in 'XYZ' if v in x))
                head = [self.htermv(bound) for _ in range(a)]
                txt = [_fmt(f, x) for f, x in body]
                if bound and r.random() < .2:
                    txt.append(f'({r.choice(bound)} = {self.gterm() if r.random() < .5 else r.choice(bound)})')
                if r.random() < .25: txt.insert(0, '2')
                self.rules.append(f'{_fmt(h, head)} += {" * ".join(txt)}.')
            avail[h] = self.idb[h] = a
        if r.random() < .5:
            self.rules.append('sub(X) += lst(X).')
            self.rules.append(r.choice(['sub(X) += sub([Y|X]).', 'sub(X) += sub([Y,Y|X]).', 'sub(X) += sub([1|X]).', 'sub(X) += sub([X|Y]).']))
            self.rules.append(r.choice(['m(X) += sub([X|Y]).', 'm(X) += sub([X,Y|Z]) * b0' + ('(X)' if self.edb['b0'] == 1 else '(X,Y)') + '.', 'm(X) += sub([X]) * sub([X|Y]).']))
            for _ in range(r.randint(1, 2)): self.facts.append(f'lst([{",".join(str(r.choice([1, 2, "f(1)"])) for _ in range(r.randint(0, 3)))}]) += {r.choice(weights)}.')
            self.edb['lst'] = 1
            self.idb.update(sub=1, m=1)

    def gterm(self):
        r = self.rng
        return r.choice(['1', '2', '1', '2', 'f(1)', 'f(2)', 'g(1,2)', 'g(1,1)', 'f(f(1))'])

    def pat(self):
        r = self.rng
        k = r.random()
        if k < .6: return r.choice('XYZ')
        if k < .75: return r.choice('12')
        return r.choice(['f(X)', 'f(Y)', 'g(X,Y)', 'g(Y,Y)', 'f(1)', 'g(X,2)', 'f(f(X))'])

    def htermv(self, bound):
        r = self.rng
        if not bound: return self.gterm()
        v = lambda: r.choice(bound)
        k = r.random()
        if k < .6: return v()
        return r.choice([f'f({v()})', f'g({v()},{v()})', f'g({v()},1)', '1', f'f(f({v()}))'])

    def text(self): return '\n'.join(self.facts + self.rules)


def with_inputs(g):
    "the rules of a generated program with its extensional relations declared as inputs"
    decl = '; '.join(_fmt(f, 'ABC'[:a]) for f, a in g.edb.items())
    return f'inputs: {decl}.\n' + '\n'.join(g.rules)


def random_facts(g, rng, n=(1, 5), consts=(1, 2, 3)):
    out = []
    for f, a in g.edb.items():
        for _ in range(rng.randint(*n)):
            if isinstance(g, Struct):
                args = [f'[{",".join(str(rng.choice([1, 2])) for _ in range(rng.randint(0, 3)))}]'] if f == 'lst' else [g.gterm() for _ in range(a)]
            else: args = [rng.choice(consts) for _ in range(a)]
            out.append(f'{_fmt(f, args)} += {rng.choice([1, 1, 2])}.')
    return '\n'.join(out)
