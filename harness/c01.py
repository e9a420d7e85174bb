"""C01: agenda-based inference accounts for every update, in any pop order
(spec/Agenda.tla: all schedules of the abstract machine; spec/AgendaTrace.tla: recorded
schedules of the real solvers are behaviours of that machine)."""
import random
from lib import *
from enc import *
from gen import *


class Stop(Exception):
    pass


class Tok:
    def __init__(self, e, k): self.e, self.k = e, k


def key(e): return json.dumps(e)


def observe(p, which, srn, choose, maxsteps=60):
    """Run solver `which` with the pop order given by `choose(list of pending items) -> index`;
    record chart, agenda and pending updates around every pop."""
    log = []            # one entry per loop head: {chart, agenda, pending}
    pops = []
    holder = {}
    pend = {}
    calls = [0]

    def snapshot(A):
        s = holder['s']
        log.append(dict(chart=enc_sol(s.sol(), srn), agenda=[t.e for t in A.d.values()],
                        pending=[dict(h=json.loads(k), w=enc_weight(v, srn)) for k, v in pend.items()]))

    class Agenda:
        def __init__(self): self.d = {}
        def __setitem__(self, i, t):
            self.d[i] = t
        def __contains__(self, i): return i in self.d
        def __getitem__(self, i): return self.d[i]
        def __len__(self): return len(self.d)
        def __bool__(self): return bool(self.d)
        def popitem(self):
            snapshot(self)
            if len(pops) >= maxsteps: raise Stop()
            ks = sorted(self.d, key=lambda i: key(self.d[i].e))
            j = choose([self.d[i].e for i in ks])
            if j is None: raise Stop()
            i = ks[j]
            t = self.d.pop(i)
            pops.append(t.e)
            pend.pop(key(t.e), None)
            return i, t

    cls = p.solver if which == 'solver' else p.solver2

    def prio(t):
        return Tok(enc_term(t, VarNames()), 0)

    s = cls(AgendaType=Agenda, priority=prio)
    holder['s'] = s
    orig = s.update

    def update(item, v):
        calls[0] += 1
        k = key(enc_term(item, VarNames()))
        pend[k] = pend[k] + v if k in pend else v
        return orig(item, v)
    s.update = update
    status, complete = 'ok', False
    try:
        with limit(20):
            s()
        complete = True
        snapshot(s.agenda)
    except Stop:
        pass
    except CaseTimeout:
        status = 'no answer'
    except Exception as e:
        status = f'{type(e).__name__}: {str(e)[:200]}'
    steps = [dict(pop=a, chart=log[j + 1]['chart'], agenda=log[j + 1]['agenda'], pending=log[j + 1]['pending'])
             for j, a in enumerate(pops[:len(log) - 1])]
    return dict(status=status, complete=complete and status == 'ok', steps=steps, agenda0=log[0]['agenda'] if log else [],
                tracked=calls[0] > 0, head=log[len(steps)] if log else None)


def spec_prog(text, which, srn):
    p = lifted(text, srn)
    if which == 'solver2': p = p.linearize()
    return p, enc_program(p, srn)


def mk(id, text, which, srn, o, ep, D, nonground):
    mode = 'account' if nonground else 'machine'
    if nonground and not o['tracked']: mode = 'final'
    final = (o['steps'][-1]['chart'] if o['steps'] else o['head']['chart'] if o['head'] else [])
    return dict(id=id, text=text, which=which, mode=mode, sr=SEMIRINGS[srn][1], prog=ep, dom=D, steps=o['steps'],
                agenda0=o['agenda0'], complete=o['complete'], status=o['status'], final=final)


def dom(ep, srn, nonground):
    sr = SEMIRINGS[srn][1]
    return domain_of(ep, extra=(max(1, sr['n']) if sr['k'] == 'sat' else 1) if nonground else 0)


def random_orders(a):
    id, text, which, srn, seed, nonground, style = a
    r = random.Random(seed)
    p, ep = spec_prog(text, which, srn)
    def choose(c):
        if style == 'random': return r.randrange(len(c))
        if style == 'lifo': return len(c) - 1
        if style == 'first': return 0
        return min(range(len(c)), key=lambda j: hashlib.md5((str(seed) + key(c[j])).encode()).hexdigest())
    o = observe(p, which, srn, choose)
    return mk(f'{id}-{which}-{srn}-{style}', text, which, srn, o, ep, dom(ep, srn, nonground), nonground)


def all_orders(a):
    """breadth-first over pop sequences of the real solver, one representative per
    reached state (chart, agenda); every edge is covered by some recorded run"""
    id, text, which, srn, cap = a
    p0, ep = spec_prog(text, which, srn)
    seen, out, frontier = set(), [], [[]]
    runs = 0
    while frontier and runs < cap:
        prefix = frontier.pop()
        pos = [0]
        path = []
        branch = []
        def choose(c):
            i = pos[0]; pos[0] += 1
            if i < len(prefix):
                path.append(prefix[i]); return prefix[i]
            k = len(branch)
            branch.append((list(path), len(c)))
            path.append(0)
            return 0
        o = observe(p0, which, srn, choose)
        runs += 1
        heads = []
        # states at the branching points beyond the prefix
        st = [None] + o['steps']
        for b, (pth, n) in enumerate(branch):
            j = len(prefix) + b
            head = dict(chart=[], agenda=o['agenda0']) if j == 0 else o['steps'][j - 1] if j - 1 < len(o['steps']) else None
            if head is None: break
            k = json.dumps([sorted(map(json.dumps, head['chart'])), sorted(map(json.dumps, head['agenda'])),
                            sorted(map(json.dumps, head.get('pending', [])))])
            if k in seen: break
            seen.add(k)
            for alt in range(1, n): frontier.append(pth + [alt])
        out.append(mk(f'{id}-{which}-{srn}-all{runs}', text, which, srn, o, ep, dom(ep, srn, False), False))
    return out, len(seen), not frontier


def final_only(a):
    "the library's own agendas, with default and numeric priorities"
    id, text, which, srn, seed, nonground, agenda = a
    from dyna.util.bucket_queue import BucketQueue
    r = random.Random(seed)
    p, ep = spec_prog(text, which, srn)
    cls = p.solver if which == 'solver' else p.solver2
    kw = {}
    if agenda == 'heap': kw = dict(priority=lambda t: r.choice([-1, 0, 2, 7]))
    if agenda == 'bucket': kw = dict(priority=lambda t: r.choice([0, 1, 2, 7]), AgendaType=BucketQueue)
    status, final = 'ok', []
    try:
        with limit(20):
            final = enc_sol(cls(**kw)().sol(), srn)
    except CaseTimeout:
        status = 'no answer'
    except Exception as e:
        status = f'{type(e).__name__}: {str(e)[:200]}'
    return dict(id=f'{id}-{which}-{srn}-{agenda}-{seed}', text=text, which=which, mode='final', sr=SEMIRINGS[srn][1], prog=ep,
                dom=dom(ep, srn, nonground), steps=[], agenda0=[], complete=True, status=status, final=final)


TINY = {
    'cyc': 'a += 1. a += b * c. b += a. b += 1. c += a * a.',
    'self': 'x(1). x(2) += x(1) * x(1). x(1) += x(2) * x(2). y += x(X) * x(X) * x(Y).',
    'path': 'e(1,2). e(2,1). e(2,2). t(X,Y) += e(X,Y). t(X,Z) += t(X,Y) * t(Y,Z).',
    'diag': 'f(1,1). f(1,2). f(2,1). g(X) += f(X,X) * f(X,Y). h += g(X) * g(Y) * f(X,Y).',
    'trip': 'h += 1. f(1) += 2. g += f(X) * h * f(Y) * h. h += f(2). f(2) += g.',
    'star': 'x += 1. x += x * h. h += 1. h += k * x. k += h * h.',
    'zero': 'z += 0. y += 1. y += z * y. w += y * z. w += y.',
    'unify': 'q(f(1)). q(f(2)). r(X) += q(f(X)) * q(f(Y)). s += r(1) * r(2). q(f(1)) += s.',
    'builtin': 'n(0). n(Y) += n(X) * (X < 3) * (Y is X + 1). n(Y) += n(X) * n(X) * (X < 2) * (Y is X * 2). m += n(X) * n(Y) * (X < Y).',
}


def run(chk):
    srs = ['sat2', 'sat3', 'sat7', 'sat7', 'bool', 'min', 'bot']
    # 1. every schedule of the abstract machine
    model = []
    for n, t in TINY.items():
        for s in ['sat2', 'sat3', 'bot'] if not THOROUGH else ['sat2', 'sat3', 'bot', 'min']:
            if s == 'sat3' and n in ('path', 'builtin') and not THOROUGH: continue
            p = lifted(t, s)
            model.append(dict(sr=SEMIRINGS[s][1], prog=enc_program(p, s)))
    for k in range(12 if not THOROUGH else 80):
        r = random.Random(f'tiny{SEED}-{k}')
        g = Flat(r, maxrules=3, nidb=2, consts=(1, 2), nfacts=(1, 2), nedb=1, maxbody=2)
        model.append(dict(sr=SEMIRINGS['sat2'][1], prog=enc_program(lifted(g.text(), 'sat2'), 'sat2')))
    wd = scratch('agenda')
    try:
        path = os.path.join(wd, 'cases.json')
        json.dump(model, open(path, 'w'))
        rc, out = tlc('Agenda', 'INIT Init\nNEXT Next\nINVARIANT AccountingInv\nINVARIANT FixpointInv\n', wd, env={'CASES': path})
        gen, dist = tlc_stats(out)
        if 'Model checking completed. No error' not in out: raise TLCError(out[-3000:])
        chk.count(states=dist, transitions=gen)
        chk.note('model programs (all schedules)', len(model))
        chk.note('model states', dist)
    finally:
        shutil.rmtree(wd, ignore_errors=True)

    # 2. all pop orders of the real solvers on tiny programs
    todo = [(n, t, w, s, 150 if not THOROUGH else 3000) for n, t in TINY.items() for w in ('solver', 'solver2')
            for s in (['sat2', 'sat7'] if not THOROUGH else srs) if not (w == 'solver2' and s == 'bool')]
    cases = []
    for cs, nseen, full in pmap(all_orders, todo):
        cases += cs
        chk.note('real states at pops', nseen)
        chk.note('programs with every pop order explored', int(full))
    # 3. random pop orders on random programs and the catalog
    todo, fin = [], []
    n = 350 if not THOROUGH else 6000
    for k in range(n):
        r = random.Random(f'c01-{SEED}-{k}')
        ng = r.random() < .3
        g = Flat(r, nonground=ng, builtins=not ng and r.random() < .3, nfacts=(2, 4), maxrules=4, selfjoin=r.choice([.5, 1.5]))
        s = r.choice(srs)
        style = r.choice(['random', 'random', 'lifo', 'first', 'hash'])
        for w in (['solver2'] if ng else ['solver', 'solver2']):
            todo.append((f'r{SEED}-{k}', g.text(), w, s, f'{SEED}-{k}', ng, style))
            for a in r.sample(['default', 'heap', 'bucket'], 2):
                fin.append((f'r{SEED}-{k}', g.text(), w, s, f'{SEED}-{k}', ng, a))
    for n_, (p, ds) in list(CATALOG.items()) + list(NONGROUND.items()):
        ng = n_ in NONGROUND
        for j, d in enumerate(ds):
            for s in ['sat3', 'min']:
                for w in (['solver2'] if ng else ['solver', 'solver2']):
                    for st in ['random', 'lifo', 'first']:
                        todo.append((f'{n_}{j}', p + d, w, s, f'{SEED}', ng, st))
    cases += pmap(random_orders, todo, chunksize=8)
    chk.note('recorded schedules', len(cases))
    chk.note('recorded pops', sum(len(c['steps']) for c in cases))
    chk.note('complete schedules', sum(c['complete'] for c in cases))
    cases += pmap(final_only, fin, chunksize=8)
    for i in range(0, len(cases), 4000):
        chk.judge('AgendaTrace', cases[i:i + 4000], keyf=lambda c: c['id'])
