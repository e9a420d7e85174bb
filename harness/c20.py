"""C20: graphs, closures and coarse program graphs (spec/Graphs.tla)."""
import random, itertools
import numpy as np
from enc import *
from lib import *
import gen
from dyna.util.graphs import Graph, Hypergraph, tarjan
from dyna.execute.linear import kleene


class Rel(base.Semiring):
    "relations on {1,2,3}: union and composition (not commutative)"
    def __init__(self, s): self.s = frozenset(s)
    def __add__(self, o): return Rel(self.s | o.s)
    def __mul__(self, o): return Rel({(a, d) for a, b in self.s for c, d in o.s if b == c})
    def __eq__(self, o): return isinstance(o, Rel) and self.s == o.s
    def __hash__(self): return hash(self.s)
    def star(self):
        x = Rel.one
        while True:
            y = Rel.one + self * x
            if y == x: return x
            x = y
Rel.zero = Rel(()); Rel.one = Rel({(i, i) for i in (1, 2, 3)})


def graph_case(a):
    id, nodes, edges, roots = a
    c = dict(id=id, op='graph', status='ok', nodes=nodes, edges=edges, roots=roots)
    try:
        with limit(5):
            g = Graph()
            for v in nodes: g.add(v)
            for u, v in edges: g.add_edge(u, v)
            srt = lambda s: sorted(s)
            succ = {v: [] for v in nodes}
            for u, v in edges:
                if v not in succ[u]: succ[u].append(v)
            c['sccs'] = [srt(x) for x in tarjan(succ.__getitem__, roots)]
            k = g.condensation(roots=roots)
            c['cnodes'] = [srt(x) for x in k.nodes]
            c['cedges'] = [[srt(x), srt(y)] for x, y in k.edges]
            c['topo'] = [srt(x) for x in k.topo]
            t, rt = g.transitive_closure(), g.transitive_closure(reflexive=True)
            c['tc'], c['rtc'] = [list(e) for e in t.edges], [list(e) for e in rt.edges]
            c['tcnodes'] = srt(t.nodes)
    except CaseTimeout: c['status'] = 'no answer'
    except Exception as e: c['status'] = f'{type(e).__name__}: {e}'
    return c


KINDS = ['bool', 'min', 'bot', 'sat3', 'sat5', 'rel', 'rat', 'float']


def matrix_case(a):
    id, kind, n, seed = a
    r = random.Random(seed)
    dens = r.choice([.3, .5, .8, 1])
    if kind == 'rel':
        S, sr = Rel, dict(k='rel', n=0)
        e = lambda: Rel({(r.randint(1, 3), r.randint(1, 3)) for _ in range(r.choice([0, 1, 1, 2, 3]))}) if r.random() < dens else Rel.zero
        enc = lambda x: sorted(map(list, x.s))
    elif kind in ('rat', 'float'):
        S, sr = Float, dict(k='rat', n=0)
        up = lambda i, j: kind == 'rat' or i < j
        e = None
        enc = lambda x: (lambda q: [q.numerator, q.denominator])(Fraction(x).limit_denominator(2000))
    else:
        S, sr = SEMIRINGS[kind]
        hi = dict(bool=1, min=4, bot=4, sat3=3, sat5=5)[kind]
        e = lambda: S(r.randint(0, hi)) if r.random() < dens else S.zero
        if kind == 'bool': e = lambda: Boolean.one if r.random() < dens * .6 else Boolean.zero
        enc = lambda x: enc_weight(x, kind)
    A = np.zeros((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            if e: A[i, j] = e()
            elif kind == 'rat': A[i, j] = Fraction(r.choice([0, 1, 1]), r.choice([4, 5, 8])) if r.random() < dens else Fraction(0)
            else: A[i, j] = r.choice([0, 1, 2]) if i < j and r.random() < dens else 0
    m = lambda M: [[enc(M[i, j]) for j in range(n)] for i in range(n)]
    c = dict(id=id, op='matrix', status='ok', sr=sr, n=n, A=m(A), kind=kind)
    try:
        with limit(5):
            c['refl'], c['trans'] = m(kleene(A.copy(), S)), m(kleene(A.copy(), S, reflexive=False))
            if kind == 'rat' and max(abs(z) for f in ('refl', 'trans') for row in c[f] for x in row for z in x) > 30000: c['status'] = 'big'
    except CaseTimeout: c['status'] = 'no answer'
    except Exception as x: c['status'] = f'{type(x).__name__}: {x}'
    return c


def hyper_case(a):
    id, seed = a
    r = random.Random(seed)
    n = r.randint(2, 7)
    H = [dict(h=r.randint(1, n), b=[r.randint(1, n) for _ in range(r.choice([0, 1, 1, 2, 2, 3]))]) for _ in range(r.randint(1, 9))]
    if r.random() < .3: H = [h for h in H if h['b']] or H
    ins, outs = [sorted(r.sample(range(1, n + 1), r.randint(0, 2))) for _ in range(2)]
    c = dict(id=id, op='hyper', status='ok', h=H, inputs=ins, outputs=outs)
    try:
        with limit(5):
            g = Hypergraph()
            for k, h in enumerate(H): g.add_edge(h['h'], k, *h['b'])
            c['hnodes'] = sorted(g.nodes)
            c['useful'] = sorted(g.reachability(ins, outs))
    except CaseTimeout: c['status'] = 'no answer'
    except Exception as x: c['status'] = f'{type(x).__name__}: {x}'
    return c


def pattern(r, f, ar, d=1):
    def t(d):
        k = r.random()
        if k < .45: return r.choice('XYZ')
        if k < .75 or not d: return r.choice('12')
        return f'g({t(d - 1)})' if k < .9 else f'[{t(d - 1)}|{r.choice("XYZ")}]'
    return f if ar == 0 else f'{f}({",".join(t(d) for _ in range(ar))})'


def prog_case(a):
    id, seed = a
    r = random.Random(seed)
    fs = {f: r.choice([0, 1, 1, 2, 2]) for f in 'abpqst'[:r.randint(3, 6)]}
    def lits(): return [pattern(r, f, fs[f]) for f in (r.choice(list(fs)) for _ in range(r.choice([0, 1, 1, 2, 2, 3])))]
    rules = []
    for _ in range(r.randint(1, 7)):
        h = r.choice(list(fs)); b = lits()
        if r.random() < .3: b.insert(r.randint(0, len(b)), '2')
        if b and r.random() < .3: b.append(r.choice(['(X < Y)', '(X = 1)', '(Y is 2+1)']))
        rules.append(f'{pattern(r, h, fs[h])} += {" * ".join(b or ["1"])}.')
    rules = [x for k, x in enumerate(rules) if not (x.endswith('+= 1.') or x.endswith('+= 2.')) or not any(y.split(' += ')[0] == x.split(' += ')[0] for y in rules[:k])]   # (facts merge)
    def decl(): return '; '.join(f + ('(' + ','.join('_' * fs[f]) + ')' if fs[f] else '') if r.random() < .6 else pattern(r, f, fs[f]) for f in r.sample(list(fs), r.randint(0, 2)))
    i, o = decl(), decl()
    text = '\n'.join(rules) + (f'\ninputs: {i}.' if i else '') + (f'\noutputs: {o}.' if o else '')
    if not i: text += '\ninputs: zz(_).'
    if not o: text += f'\noutputs: {list(fs)[0]}{"(" + ",".join("_" * fs[list(fs)[0]]) + ")" if fs[list(fs)[0]] else ""}.'
    c = dict(id=id, op='prog', status='ok', text=text)
    try:
        with limit(10):
            p = Program(text)
            cg = p._coarse_graph()
            ix = {}
            c['nodes'] = []
            for x in cg.nodes:
                ix[x] = len(c['nodes']) + 1
                c['nodes'].append(enc_term(x, VarNames()))
            def body(q): return [y for y in q.body if not (p.is_const(y) or p.is_builtin(y))]
            c['prog'] = []
            for q in p:
                vs = VarNames()
                c['prog'].append(dict(h=enc_term(q.head, vs), b=[enc_term(y, vs) for y in body(q)]))
            c['inputs'] = [enc_term(x, VarNames()) for x in p.inputs.just_heads()]
            c['outputs'] = [enc_term(x, VarNames()) for x in p.outputs.just_heads()]
            c['edges'] = [[ix[x], ix[y]] for x, y in cg.g.edges]
            c['gnodes'] = sorted(ix[x] for x in cg.g.nodes)
            c['hedges'] = [dict(h=ix[e.head], i=0 if e.weight is None else e.weight + 1, b=[ix[y] for y in e.body]) for e in cg.h.edges()]
            c['cyclic'], c['expansive'] = cg.possibly_cyclic(), cg.possibly_expansive()
            def nums(qs):
                pool = {}
                for k, q in enumerate(p): pool.setdefault(rkey(q), []).append(k + 1)
                return [pool[rkey(q)].pop(0) for q in qs]
            I, D = cg.split_input_dependent()
            c['independent'], c['dependent'] = nums(I), nums(D)
            c['comps'] = []
            for xs, q in cg.scc_decomposition():
                c['comps'].append(dict(nodes=sorted(ix[x] for x in xs), rules=nums(q),
                                       inputs=sorted(ix[canon(x, ix)] for x in q.inputs.just_heads())))
    except CaseTimeout: c['status'] = 'no answer'
    except Exception as x: c['status'] = f'{type(x).__name__}: {x}'
    return c


def rkey(q):
    "(spawning a program moves the constants of a rule)"
    vs = VarNames()
    w = 1.0
    for y in q.body:
        if Program.is_const(y): w *= float(y)
    return json.dumps([w, enc_term(q.head, vs)] + [enc_term(y, vs) for y in q.body if not Program.is_const(y)])


def canon(x, ix):
    return dyna.canonicalize(x)


def run(chk):
    todo = []
    # every graph on up to 3 nodes, and every rooted part of them; the 4-node graphs sampled (all in thorough)
    for n in (1, 2, 3):
        pairs = [(u, v) for u in range(1, n + 1) for v in range(1, n + 1)]
        for m in range(2 ** len(pairs)):
            E = [list(pairs[k]) for k in range(len(pairs)) if m >> k & 1]
            todo.append((f'graph-{n}-{m}', list(range(1, n + 1)), E, list(range(1, n + 1))))
            if n < 3 or m % 3 == 0: todo.append((f'graph-{n}-{m}-r1', list(range(1, n + 1)), E, [1 + m % n]))
    p4 = [(u, v) for u in range(1, 5) for v in range(1, 5)]
    for m in range(65536):
        if not THOROUGH and random.Random(f'{SEED}-{m}').random() > .02: continue
        todo.append((f'graph-4-{m}', [1, 2, 3, 4], [list(p4[k]) for k in range(16) if m >> k & 1], random.Random(m).sample([1, 2, 3, 4], 4)))
    for k in range(300 if not THOROUGH else 5000):
        r = random.Random(f'c20g-{SEED}-{k}')
        n = r.randint(5, 9)
        E = [[r.randint(1, n), r.randint(1, n)] for _ in range(r.randint(n // 2, 2 * n))]
        todo.append((f'graph-{SEED}-r{k}', list(range(1, n + 1)), E, r.sample(range(1, n + 1), r.choice([n, n, 1, 2]))))
    cases = pmap(graph_case, todo, chunksize=32)
    cases += pmap(matrix_case, [(f'matrix-{SEED}-{k}', KINDS[k % len(KINDS)], random.Random(k).choice([1, 2, 2, 3, 3, 4]) if KINDS[k % len(KINDS)] != 'rat' else 2 + k % 2, f'm{SEED}-{k}')
                                for k in range(1600 if not THOROUGH else 20000)], chunksize=16)
    cases = [c for c in cases if c['status'] != 'big']
    cases += pmap(hyper_case, [(f'hyper-{SEED}-{k}', f'h{SEED}-{k}') for k in range(1500 if not THOROUGH else 20000)], chunksize=32)
    cases += pmap(prog_case, [(f'prog-{SEED}-{k}', f'p{SEED}-{k}') for k in range(1000 if not THOROUGH else 10000)], chunksize=16)
    for i in range(0, len(cases), 6000):
        chk.judge('Graphs', cases[i:i + 6000], keyf=lambda c: c['id'], samples='graph cases judged')
