"""C03: the history of loads, runs, queries and interruptions does not change the answers
(spec/History.tla: all histories of the abstract solver; spec/HistoryTrace.tla: recorded
histories of the real solvers)."""
import random, itertools, io, contextlib
from lib import *
from enc import *
from gen import *
from arsenal.datastructures.heap import LocatorMaxHeap


class Limited(LocatorMaxHeap):
    """the library's heap, which can be told to interrupt before the n-th pop"""
    left = None
    def popitem(self):
        if self.left is not None:
            if self.left == 0:
                self.left = None
                raise KeyboardInterrupt()
            self.left -= 1
        return super().popitem()


def run_history(a):
    id, rules, ops, which, srn, nonground = a
    p = lifted(rules, srn)
    if which == 'solver2': p = p.linearize()
    ep = enc_program(p, srn)
    alltext = rules + '\n' + '\n'.join(o[1] for o in ops if o[0] == 'load')
    sr = SEMIRINGS[srn][1]
    D = domain_of(enc_program(lifted(alltext, srn), srn), extra=(max(1, sr['n']) if sr['k'] == 'sat' else 1)) if nonground else []
    s = (p.solver if which == 'solver' else p.solver2)(AgendaType=Limited)
    rec = []
    for o in ops:
        e = dict(op=o[0], status='ok', sol=[])
        try:
            with limit(20), contextlib.redirect_stdout(io.StringIO()):
                if o[0] == 'load':
                    e['facts'] = enc_program(lifted(o[1], srn), srn)
                    data = o[1] if o[2] and srn not in ('min',) else lifted(o[1], srn)
                    if o[3]:                       # load and run in one call
                        rec.append(e)
                        s(data)
                        e = dict(op='run', status='ok', sol=enc_sol(s.sol(), srn))
                    else:
                        s.load_data(data)
                elif o[0] == 'run':
                    s()
                    e['sol'] = enc_sol(s.sol(), srn)
                elif o[0] == 'interrupt':
                    s.agenda.left = o[1]
                    s()
                    if s.agenda.left is not None: e['op'] = 'run'     # converged before the interruption
                    s.agenda.left = None
                    e['sol'] = enc_sol(s.sol(), srn)
                elif o[0] == 'query':
                    e['q'] = enc_term(Program(o[1] + '.').rules[0].head, VarNames())
                    e['sol'] = enc_sol(s.user_query(o[1]), srn)
        except CaseTimeout:
            e['status'] = 'no answer'
        except Exception as ex:
            e['status'] = f'{type(ex).__name__}: {str(ex)[:200]}'
        rec.append(e)
        if e['status'] != 'ok': break
    return dict(id=id, rules=rules, how=[list(o) for o in ops], which=which, sr=sr, prog=ep, dom=D, ops=rec)


def split_facts(text):
    "separate a program into rules and facts of its extensional relations"
    rules, facts = [], []
    for r in Program(text).rules:
        (facts if not r.head.fn.startswith(('p', '$')) and all(Program.is_const(x) for x in r.body) else rules).append(str_rule(r))
    return rules, facts


def str_rule(r):
    import re
    return re.sub(r'\x1b\[[0-9;]*m', '', str(r)).rstrip('.') + '.'


def histories(r, facts, fns, nonground, sr):
    "a random history over the given facts"
    facts = list(facts)
    r.shuffle(facts)
    nb = r.randint(1, min(4, max(1, len(facts))))
    cuts = sorted(r.sample(range(1, len(facts)), min(nb - 1, max(0, len(facts) - 1)))) if len(facts) > 1 else []
    batches = [facts[i:j] for i, j in zip([0] + cuts, cuts + [len(facts)])]
    ops = []
    if r.random() < .4: ops.append(('run',))
    for b in batches:
        ops.append(('load', '\n'.join(b), r.random() < .5, r.random() < .35))
        while r.random() < .45:
            k = r.random()
            if k < .4: ops.append(('run',))
            elif k < .6: ops.append(('interrupt', r.choice([0, 1, 2, 3, 5, 8])))
            elif not nonground: ops.append(('query', query(r, fns)))
    if r.random() < .15 and facts: ops.append(('load', r.choice(facts), False, False))
    ops.append(('run',))
    if r.random() < .5: ops.append(('run',))
    if not nonground: ops.append(('query', query(r, fns)))
    return ops


def query(r, fns):
    f, n = r.choice(fns)
    if n == 0: return f
    names = ['X', 'Y', 'Z', 'W']
    return f'{f}({",".join(r.choice([names[i], names[i], names[0], "1", "2"]) for i in range(n))})'


def model(chk):
    cs = []
    for srn, rules, batches in [
        ('sat2', 'p(X) += e(X,Y) * e(Y,X). q += p(X) * p(Y).', ['e(1,2).', 'e(2,1).', 'e(1,1).']),
        ('sat3', 't(X,Y) += e(X,Y). t(X,Z) += t(X,Y) * e(Y,Z).', ['e(1,2). e(2,2).', 'e(2,1).', 'e(1,2).']),
        ('bot', 'a += b * c. b += 3. c += d. c += a * b. e += a * a.', ['d += 2.', 'd += 3. e += 1.', 'b += 4.']),
        ('min', 'a += 1. a += x * a. b += a * x * x.', ['x += 3.', 'x += 1. x += 2.', 'a += 0.']),
    ]:
        p = lifted(rules, srn)
        cs.append(dict(sr=SEMIRINGS[srn][1], prog=enc_program(p, srn), batches=[enc_program(lifted(b, srn), srn) for b in batches]))
    wd = scratch('history')
    try:
        path = os.path.join(wd, 'cases.json')
        json.dump(cs, open(path, 'w'))
        rc, out = tlc('History', 'INIT Init\nNEXT Next\nINVARIANT AccountingInv\nINVARIANT ConvergedInv\n', wd, env={'CASES': path})
        gen, dist = tlc_stats(out)
        if 'Model checking completed. No error' not in out: raise TLCError(out[-3000:])
        chk.count(states=dist, transitions=gen)
        chk.note('model programs (all histories)', len(cs))
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def run(chk):
    model(chk)
    todo = []
    n = 1200 if not THOROUGH else 12000
    for k in range(n):
        r = random.Random(f'c03-{SEED}-{k}')
        ng = r.random() < .25
        g = Flat(r, nonground=ng, builtins=not ng and r.random() < .3, nfacts=(2, 4), maxrules=4)
        fns = sorted({**g.edb, **g.idb}.items())
        srn = r.choice(['sat3', 'sat7', 'bool', 'min', 'bot'])
        ops = histories(r, g.facts, fns, ng, srn)
        for w in (['solver2'] if ng else ['solver', 'solver2']):
            todo.append((f'r{SEED}-{k}-{w}-{srn}', '\n'.join(g.rules), ops, w, srn, ng))
    # every history of length <= 4 over two batches on small programs
    for name, rules, b1, b2, q in [
        ('path', 't(X,Y) += e(X,Y). t(X,Z) += t(X,Y) * e(Y,Z). g += t(1,X) * t(X,1).', 'e(1,2).', 'e(2,1). e(2,2).', 't(1,X)'),
        ('const', 'a += 1. a += 1. b += a * x * x. x += 2 * y.', 'y += 1.', 'x += 1. y += 2.', 'b'),
        ('base', 'p(1). p(2) += q(2). r(X) += p(X) * q(X). p(X) += r(X) * q(X).', 'q(1). q(2).', 'p(2). r(2) += 2.', 'r(X)')]:
        alphabet = [('load', b1, False, False), ('load', b2, True, False), ('load', b2, False, True), ('run',), ('query', q),
                    ('interrupt', 0), ('interrupt', 1), ('interrupt', 3)]
        for L in range(1, 4 if not THOROUGH else 5):
            for h in itertools.product(alphabet, repeat=L):
                if L == 3 and not THOROUGH and random.Random(f'{name}{SEED}{h}').random() < .5: continue
                for w in ['solver', 'solver2']:
                    hh = list(h) + [('run',)]
                    todo.append((f'{name}-{w}-' + '.'.join(str(alphabet.index(o)) for o in h), rules, hh, w, 'sat7', False))
    for n_, (p, ds) in CATALOG.items():
        rules, facts = p, ds[-1]
        fs = [str_rule(r) for r in Program(facts).rules]
        for k in range(4 if not THOROUGH else 40):
            r = random.Random(f'c03-{n_}-{SEED}-{k}')
            fns = [(x.head.fn, len(x.head.args)) for x in Program(p).rules]
            ops = histories(r, fs, fns, False, 'sat5') if fs else [('run',), ('query', query(r, fns)), ('interrupt', 3), ('run',)]
            for w in ['solver', 'solver2']:
                todo.append((f'cat-{n_}-{k}-{w}', rules, ops, w, r.choice(['sat5', 'min', 'bool']), False))
    cases = pmap(run_history, todo, chunksize=16)
    chk.note('operations', sum(len(c['ops']) for c in cases))
    for i in range(0, len(cases), 4000):
        chk.judge('HistoryTrace', cases[i:i + 4000], keyf=lambda c: c['id'], samples='histories')
